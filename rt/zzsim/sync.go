//go:build go1.21

package zzsim

import (
	"bytes"
	"unsafe"
)

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type waitq struct {
	w [MaxTasks]*Task
	n int
}

//go:norace
func (q *waitq) wait(on string) {
	if !active {
		panic("zzsim: would block forever outside of a simulation: " + on)
	}
	if q.n < MaxTasks {
		q.w[q.n] = cur
		q.n++
	}
	block(on)
}

//go:norace
func (q *waitq) wakeAll() {
	for i := 0; i < q.n; i++ {
		ready(q.w[i])
		q.w[i] = nil
	}
	q.n = 0
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	held  bool
	epoch int64
	q     waitq
}

//go:norace
func (m *Mutex) fresh() {
	if m.epoch != epoch { // left over from an aborted run
		m.epoch = epoch
		m.held = false
		m.q.n = 0
	}
}

//go:norace
func (m *Mutex) Lock() {
	Yield()
	m.fresh()
	for m.held {
		m.q.wait("Mutex.Lock")
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	Yield()
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.fresh()
	if !m.held {
		if dying() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.held = false
	m.q.wakeAll()
	if !dying() {
		Yield()
	}
}

//go:norace
func dying() bool { return active && (aborted || (cur != nil && cur.dead)) }

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w     bool
	r     int
	epoch int64
	q     waitq
	rel   byte
}

//go:norace
func (m *RWMutex) fresh() {
	if m.epoch != epoch {
		m.epoch = epoch
		m.w, m.r, m.q.n = false, 0, 0
	}
}

//go:norace
func (m *RWMutex) Lock() {
	Yield()
	m.fresh()
	for m.w || m.r > 0 {
		m.q.wait("RWMutex.Lock")
	}
	m.w = true
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.w {
		if dying() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.w = false
	m.q.wakeAll()
	if !dying() {
		Yield()
	}
}

//go:norace
func (m *RWMutex) RLock() {
	Yield()
	m.fresh()
	for m.w {
		m.q.wait("RWMutex.RLock")
	}
	m.r++
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.w {
		return false
	}
	m.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.r <= 0 {
		if dying() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rel))
	m.r--
	m.q.wakeAll()
	if !dying() {
		Yield()
	}
}

// RLocker mirrors sync.RWMutex.RLocker.
//
//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	if o.done {
		raceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	if dying() {
		return
	}
	raceRelease(unsafe.Pointer(o))
	o.done = true
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n     int
	epoch int64
	q     waitq
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if w.epoch != epoch {
		w.epoch, w.n, w.q.n = epoch, 0, 0
	}
	raceRelease(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 && !dying() {
		panic("sync: negative WaitGroup counter")
	}
	if w.n <= 0 {
		w.q.wakeAll()
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	Yield()
	for w.epoch == epoch && w.n > 0 {
		w.q.wait("WaitGroup.Wait")
	}
	raceAcquire(unsafe.Pointer(w))
}

//go:norace
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q []*condWaiter
}

type condWaiter struct {
	t     *Task
	epoch int64
	woken bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condWaiter{t: cur, epoch: epoch}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.woken {
		if !active {
			panic("zzsim: would block for ever outside of a simulation: Cond.Wait")
		}
		block("Cond.Wait")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	for len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		if w.epoch == epoch {
			w.woken = true
			ready(w.t)
			return
		}
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for len(c.q) > 0 {
		c.Signal()
	}
}

const poolMax = 64

// Pool replaces sync.Pool. What Get returns (a recycled or a fresh object) is
// decided by the seed, and the memory of pooled byte buffers is overwritten:
// nobody may look at it any more.
type Pool struct {
	New   func() interface{}
	items [poolMax]interface{}
	saved [poolMax][]byte // what the memory held before it was overwritten
	n     int
	epoch int64
}

// PoolStats: how often objects were handed out fresh/recycled.
var PoolFresh, PoolRecycled, PoolPoisoned int64

//go:norace
func (p *Pool) fresh() {
	if p.epoch != epoch {
		p.epoch = epoch
		for i := 0; i < p.n; i++ {
			p.items[i], p.saved[i] = nil, nil
		}
		p.n = 0
	}
}

//go:norace
func (p *Pool) Get() interface{} {
	Yield()
	p.fresh()
	mode := cfg.PoolMode
	if mode == 3 {
		if pol == nil || pol.Intn(2) == 0 {
			mode = 1
		} else {
			mode = 2
		}
	}
	if mode != 1 && p.n > 0 {
		k := p.n - 1
		if mode == 2 && pol != nil {
			k = pol.Intn(p.n)
		}
		x := p.items[k]
		p.n--
		raceAcquire(dataPtr(x))
		unpoison(x, p.saved[k])
		p.items[k], p.saved[k] = p.items[p.n], p.saved[p.n]
		p.items[p.n], p.saved[p.n] = nil, nil
		PoolRecycled++
		return x
	}
	if p.New != nil {
		PoolFresh++
		return p.New()
	}
	return nil
}

//go:norace
func dataPtr(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.fresh()
	was := poison(x)
	raceRelease(dataPtr(x))
	if p.n < poolMax {
		p.items[p.n], p.saved[p.n] = x, was
		p.n++
	}
	if !dying() {
		Yield()
	}
}

// Poison is what the memory of pooled buffers is filled with.
const Poison = 0xDB

//go:norace
func poison(x interface{}) []byte {
	b := pooled(x)
	if len(b) == 0 {
		return nil
	}
	was := append([]byte(nil), b...)
	for i := range b {
		b[i] = Poison
	}
	PoolPoisoned++
	return was
}

// unpoison: whoever gets the object finds in it what was put into the pool.
//
//go:norace
func unpoison(x interface{}, was []byte) { copy(pooled(x), was) }

//go:norace
func pooled(x interface{}) []byte {
	var b []byte
	switch v := x.(type) {
	case *bytes.Buffer:
		if v == nil {
			return nil
		}
		b = v.Bytes()
		b = b[:cap(b)]
	case []byte:
		b = v[:cap(v)]
	case *[]byte:
		if v == nil {
			return nil
		}
		b = (*v)[:cap(*v)]
	}
	return b
}

// Map replaces sync.Map. Operations are atomic and synchronise with each other.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{} // in insertion order
}

func (m *Map) do(f func()) {
	Yield()
	raceAcquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	f()
	raceRelease(unsafe.Pointer(m))
}

func (m *Map) set(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.do(func() { v, ok = m.m[k] })
	return
}
func (m *Map) Store(k, v interface{}) { m.do(func() { m.set(k, v) }) }
func (m *Map) Delete(k interface{})   { m.do(func() { m.del(k) }) }
func (m *Map) Clear()                 { m.do(func() { m.m, m.keys = nil, nil }) }
func (m *Map) LoadOrStore(k, v interface{}) (x interface{}, ok bool) {
	m.do(func() {
		if x, ok = m.m[k]; !ok {
			m.set(k, v)
			x = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.do(func() {
		v, ok = m.m[k]
		m.del(k)
	})
	return
}
func (m *Map) Swap(k, v interface{}) (x interface{}, ok bool) {
	m.do(func() {
		x, ok = m.m[k]
		m.set(k, v)
	})
	return
}
func (m *Map) CompareAndSwap(k, old, v interface{}) (done bool) {
	m.do(func() {
		if x, ok := m.m[k]; ok && x == old {
			m.m[k] = v
			done = true
		}
	})
	return
}
func (m *Map) CompareAndDelete(k, old interface{}) (done bool) {
	m.do(func() {
		if x, ok := m.m[k]; ok && x == old {
			m.del(k)
			done = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	var l []interface{}
	m.do(func() { l = append(l, m.keys...) })
	for i := range l {
		j := i
		if shuffleMaps() {
			j = i + polIntn(len(l)-i)
		}
		l[i], l[j] = l[j], l[i]
		v, ok := m.Load(l[i])
		if ok && !f(l[i], v) {
			return
		}
	}
}
