package zzsim

import (
	"context"
	"time"
)

// The simulated clock: a microsecond (or Config.Tick) per step, and when nobody can run it
// jumps to the next timer.

type timer struct {
	when  int64
	every int64
	fire  func()
}

var timers []*timer

//go:norace
func clock() int64 { return Now()*tick + now }

var tick int64 = 1000

//go:norace
func addTimer(d time.Duration, fire func()) *timer {
	t := &timer{when: clock() + int64(d), fire: fire}
	if d < 0 {
		t.when = clock()
	}
	timers = append(timers, t)
	return t
}

//go:norace
func (t *timer) stop() bool {
	for i, x := range timers {
		if x == t {
			timers = append(timers[:i:i], timers[i+1:]...)
			return true
		}
	}
	return false
}

// next is the timer that fires first.
//
//go:norace
func nextTimer() *timer {
	var t *timer
	for _, x := range timers {
		if t == nil || x.when < t.when {
			t = x
		}
	}
	return t
}

//go:norace
func (t *timer) expire() {
	if t.every > 0 {
		t.when += t.every
	} else {
		t.stop()
	}
	t.fire()
}

// due fires the timers whose time has come.
//
//go:norace
func due() {
	if aborted {
		return
	}
	for n := 0; n < 100; n++ {
		t := nextTimer()
		if t == nil || t.when > clock() {
			return
		}
		t.expire()
	}
}

// idle lets the time go by until somebody can run. It tells whether anybody
// can.
//
//go:norace
func idle() bool {
	if aborted {
		return anyRunnable()
	}
	waiting := false
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked {
			waiting = true
		}
	}
	for waiting && !anyRunnable() {
		t := nextTimer()
		if t == nil || cfg.Budget > 0 && total > cfg.Budget {
			return false
		}
		total += 100 // so that a ticker nobody listens to comes to an end
		if d := t.when - clock(); d > 0 {
			now += d
		}
		t.expire()
	}
	return anyRunnable()
}

// TimeSleep replaces time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	if !active {
		now += int64(d)
		return
	}
	Yield()
	if d <= 0 {
		return
	}
	me := cur
	woken := false
	t := addTimer(d, func() {
		woken = true
		ready(me)
	})
	for !woken {
		block("Sleep")
	}
	t.stop()
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	t *timer
}

func offer(c chan time.Time) {
	raceAcquire(chanSync)
	if s := getChan(c); s.canSend() {
		s.doSend(TimeNow())
	}
	raceRelease(chanSync)
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.Reset(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.Reset(d)
	return t
}

func (t *Timer) Stop() bool { return t.t.stop() }

func (t *Timer) Reset(d time.Duration) bool {
	was := t.t != nil && t.t.stop()
	if t.f != nil {
		t.t = addTimer(d, func() { addTask("go", t.f) })
	} else {
		getChan(t.c).buf = nil
		t.t = addTimer(d, func() { offer(t.c) })
	}
	return was
}

func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.Reset(d)
	return t
}

func (t *Ticker) Stop() { t.t.stop() }
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker")
	}
	if t.t != nil {
		t.t.stop()
	}
	t.t = addTimer(d, func() { offer(t.c) })
	t.t.every = int64(d)
}

func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// --- contexts; their channels must be closed where the simulator sees it

type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	has      bool
	kids     []*simCtx
	after    []*func()
	t        *timer
}

type ctxKey struct{}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	raceAcquire(chanSync)
	defer raceRelease(chanSync)
	return c.err
}
func (c *simCtx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *simCtx) cancel(err, cause error) {
	raceAcquire(chanSync)
	if c.err != nil {
		raceRelease(chanSync)
		return
	}
	c.err, c.cause = err, cause
	if cause == nil {
		c.cause = err
	}
	if c.t != nil {
		c.t.stop()
	}
	closeChan(getChan(c.done))
	for _, f := range c.after {
		addTask("go", *f)
	}
	c.after = nil
	raceRelease(chanSync)
	for _, k := range c.kids {
		k.cancel(err, c.cause)
	}
	c.kids = nil
}

func newCtx(parent context.Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, _ := parent.Value(ctxKey{}).(*simCtx); p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func CtxWithCancel(p context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(p)
	return c, func() { c.cancel(context.Canceled, nil); Yield() }
}

func CtxWithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(p)
	return c, func(e error) { c.cancel(context.Canceled, e); Yield() }
}

func CtxWithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return CtxWithDeadline(p, TimeNow().Add(d))
}

func CtxWithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(p)
	if d, ok := p.Deadline(); !ok || at.Before(d) {
		c.deadline, c.has = at, true
		if c.err == nil {
			c.t = addTimer(TimeUntil(at), func() { c.cancel(context.DeadlineExceeded, nil) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil); Yield() }
}

func CtxCause(p context.Context) error {
	if c, _ := p.Value(ctxKey{}).(*simCtx); c != nil {
		return c.cause
	}
	return p.Err()
}

func CtxAfterFunc(p context.Context, f func()) func() bool {
	c, _ := p.Value(ctxKey{}).(*simCtx)
	if c == nil {
		return func() bool { return true }
	}
	if c.err != nil {
		Go(f)
		return func() bool { return false }
	}
	g := &f
	c.after = append(c.after, g)
	return func() bool {
		for i, x := range c.after {
			if x == g {
				c.after = append(c.after[:i:i], c.after[i+1:]...)
				return true
			}
		}
		return false
	}
}

type freeCtx struct{ context.Context }

func (freeCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (freeCtx) Done() <-chan struct{}       { return nil }
func (freeCtx) Err() error                  { return nil }
func (c freeCtx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return nil
	}
	return c.Context.Value(k)
}

func CtxWithoutCancel(p context.Context) context.Context { return freeCtx{p} }

// --- what a program can learn about its machine

func NumCPU() int        { return 4 }
func GOMAXPROCS(int) int { return 4 }
func NumGoroutine() int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state != stDone {
			n++
		}
	}
	return n
}
