//go:build go1.21

package zzsim

import (
	"reflect"
	"unsafe"
)

// Channels: the real channel is only an identity (and a capacity); everything
// that goes through it is simulated, so that who meets whom is the schedule's
// decision.

type chanWaiter struct {
	t     *Task
	val   interface{} // to send / received
	ok    bool
	done  *bool // shared by the cases of one select
	idx   int
	which *int
	panic bool
}

type simChan struct {
	real   interface{} // keeps the address in use
	cap    int
	buf    []interface{}
	closed bool
	sendq  []*chanWaiter
	recvq  []*chanWaiter
	epoch  int64
}

// chans lasts as long as a simulated process does.
var chans = map[uintptr]*simChan{}

// ChanOps counts completed channel operations.
var ChanOps int64

func getChan(c interface{}) *simChan {
	v := reflect.ValueOf(c)
	if !v.IsValid() || v.IsNil() {
		return nil
	}
	p := v.Pointer()
	raceAcquire(chanSync)
	s := chans[p]
	if s == nil {
		s = &simChan{real: c, cap: v.Cap()}
		chans[p] = s
	}
	if s.epoch != epoch { // nobody waits any more
		s.epoch = epoch
		s.sendq, s.recvq = nil, nil
	}
	raceRelease(chanSync)
	return s
}

func deq(q *[]*chanWaiter) *chanWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func peekq(q *[]*chanWaiter) bool {
	for len(*q) > 0 {
		if !*(*q)[0].done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func fire(w *chanWaiter) {
	*w.done = true
	*w.which = w.idx
	ChanOps++
	ready(w.t)
}

func (s *simChan) canSend() bool {
	return s.closed || peekq(&s.recvq) || len(s.buf) < s.cap
}

func (s *simChan) doSend(v interface{}) {
	if s.closed {
		panic("send on closed channel")
	}
	ChanOps++
	if w := deq(&s.recvq); w != nil {
		w.val, w.ok = v, true
		fire(w)
		return
	}
	s.buf = append(s.buf, v)
}

func (s *simChan) canRecv() bool {
	return len(s.buf) > 0 || peekq(&s.sendq) || s.closed
}

func (s *simChan) doRecv() (interface{}, bool) {
	ChanOps++
	if len(s.buf) > 0 {
		v := s.buf[0]
		s.buf = s.buf[1:]
		if w := deq(&s.sendq); w != nil {
			s.buf = append(s.buf, w.val)
			fire(w)
		}
		return v, true
	}
	if w := deq(&s.sendq); w != nil {
		fire(w)
		return w.val, true
	}
	return nil, false // closed
}

// SelCase is a case of a select statement.
type SelCase interface{ base() *selCase }

type selCase struct {
	send bool
	ch   *simChan
	val  interface{}
	got  interface{}
	ok   bool
}

func (c *selCase) base() *selCase { return c }

// RecvCase is a receive case; after Select it holds what was received.
type RecvCase[T any] struct{ selCase }

func (c *RecvCase[T]) Val() T {
	if c.got == nil {
		var z T
		return z
	}
	return c.got.(T)
}
func (c *RecvCase[T]) Ok() bool { return c.ok }

func RecvCaseOf[T any](c <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{}
	r.ch = getChan(c)
	return r
}

// SendCaseTo is a function of the value so that the value only has to be
// assignable to the element type.
func SendCaseTo[T any](c chan<- T) func(T) SelCase {
	s := getChan(c)
	return func(v T) SelCase { return &selCase{send: true, ch: s, val: v} }
}

func SendTo[T any](c chan<- T) func(T) {
	s := getChan(c)
	return func(v T) { Select(false, &selCase{send: true, ch: s, val: v}) }
}

// Select is what a select statement becomes. It returns -1 for default.
func Select(hasDefault bool, sc ...SelCase) int {
	Yield()
	raceAcquire(chanSync)
	defer raceRelease(chanSync)
	cases := make([]*selCase, len(sc))
	for i := range sc {
		cases[i] = sc[i].base()
	}
	for {
		var readyIdx []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send && c.ch.canSend() || !c.send && c.ch.canRecv() {
				readyIdx = append(readyIdx, i)
			}
		}
		if len(readyIdx) > 0 {
			k := 0
			if len(readyIdx) > 1 {
				k = polIntn(len(readyIdx))
			}
			i := readyIdx[k]
			c := cases[i]
			if c.send {
				c.ch.doSend(c.val)
			} else {
				c.got, c.ok = c.ch.doRecv()
			}
			raceRelease(chanSync)
			Yield()
			return i
		}
		if hasDefault {
			return -1
		}
		if !active {
			panic("zzsim: channel operation would block for ever outside of a simulation")
		}
		done := false
		which := -1
		ws := make([]*chanWaiter, len(cases))
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			w := &chanWaiter{t: cur, val: c.val, done: &done, idx: i, which: &which}
			ws[i] = w
			if c.send {
				c.ch.sendq = append(c.ch.sendq, w)
			} else {
				w.val = nil
				c.ch.recvq = append(c.ch.recvq, w)
			}
		}
		on := "select"
		if len(cases) == 1 {
			on = "chan receive"
			if cases[0].send {
				on = "chan send"
			}
		}
		raceRelease(chanSync)
		block(on)
		raceAcquire(chanSync)
		if which < 0 {
			// woken by close: look again
			done = true
			continue
		}
		w := ws[which]
		if w.panic {
			panic("send on closed channel")
		}
		cases[which].got, cases[which].ok = w.val, w.ok
		return which
	}
}

// channel operations synchronise coarsely with each other in the race build
var chanSyncByte byte
var chanSync = unsafe.Pointer(&chanSyncByte)

func Recv[T any](c <-chan T) T {
	r := RecvCaseOf(c)
	Select(false, r)
	return r.Val()
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := RecvCaseOf(c)
	Select(false, r)
	return r.Val(), r.Ok()
}

func Close[T any](c chan<- T) {
	s := getChan(c)
	if s == nil {
		panic("close of nil channel")
	}
	if s.closed {
		if dying() {
			return
		}
		panic("close of closed channel")
	}
	raceAcquire(chanSync)
	closeChan(s)
	raceRelease(chanSync)
	if !dying() {
		Yield()
	}
}

func closeChan(s *simChan) {
	s.closed = true
	for _, w := range s.recvq {
		if !*w.done {
			*w.done = true
			ready(w.t)
		}
	}
	s.recvq = nil
	for {
		w := deq(&s.sendq)
		if w == nil {
			break
		}
		w.panic = true
		fire(w)
	}
}

func ChanLen[T any](c <-chan T) int {
	s := getChan(c)
	if s == nil {
		return 0
	}
	raceAcquire(chanSync)
	n := len(s.buf)
	raceRelease(chanSync)
	return n
}

type ChanIterator[T any] struct {
	c <-chan T
	v T
}

func ChanIter[T any](c <-chan T) *ChanIterator[T] { return &ChanIterator[T]{c: c} }
func (it *ChanIterator[T]) Next() bool {
	v, ok := Recv2(it.c)
	it.v = v
	return ok
}
func (it *ChanIterator[T]) Val() T { return it.v }
