// A program of constructs that are awkward to instrument. Its output must not
// depend on the schedule; conform.sh compares the real output with the output
// under the simulator.
package main

import (
	"bufio"
	"bytes"
	"context"
	crand "crypto/rand"
	"errors"
	"fmt"
	"hash/maphash"
	"io"
	"maps"
	"math/rand"
	rand2 "math/rand/v2"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"conform"
)

var out = bufio.NewWriter(os.Stdout)
var sections []string
var status, limit = 3, 2
var table = map[string]func(int) int{
	"double": func(i int) int { return 2 * i },
	"square": func(i int) int { return i * i },
}
var pool = sync.Pool{New: func() any { return new(bytes.Buffer) }}
var scratch = sync.Pool{New: func() any { b := make([]byte, 8); return &b }}
var tokens = make(chan struct{}, 2)
var lazily = sync.OnceValues(func() (int, error) { return 7, errors.New("lazy") })

func init() {
	for i := 0; i < cap(tokens); i++ {
		tokens <- struct{}{}
	}
	status--
}

func p(f string, a ...any) { fmt.Fprintf(out, f+"\n", a...) }

func main() {
	for _, f := range []func(){vars, chans, selects, maprange, labels, closures, syncs, pools, timers, contexts, iters, panics, generics, files, gos, pipes, chances} {
		f()
	}
	out.Flush()
	os.Exit(status)
}

func vars() {
	sections = append(sections, "vars")
	n, l := conform.Call()
	p("vars %v %d %d %d %v %v", sections, status, limit, n, l, table["double"](table["square"](3)))
	status++
}

func chans() {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := 0; i < 5; i++ {
			c <- i * i
		}
	}()
	sum := 0
	for v := range c {
		sum += v
	}
	v, ok := <-c
	p("chans %d %d %v", sum, v, ok)
	b := make(chan string, 3)
	b <- "x"
	b <- "y"
	p("buffered %d %d %s", len(b), cap(b), <-b)
	var ro <-chan string = b
	var so chan<- string = b
	so <- "z"
	close(b)
	for s := range ro {
		p("got %s", s)
	}
	type pair struct {
		a int
		e error
	}
	pc := make(chan pair, 1)
	pc <- pair{1, io.EOF}
	if x := <-pc; x.e == io.EOF {
		p("pair %d", x.a)
	}
	ec := make(chan error, 2)
	ec <- nil
	ec <- io.EOF
	p("errs %v %v", <-ec, <-ec)
	done := make(chan struct{})
	res := make([]int, 4)
	for i := range res {
		go func(i int) { res[i] = i + 1; done <- struct{}{} }(i)
	}
	for range res {
		<-done
	}
	p("fan %v", res)
	cc := make(chan chan int, 1)
	ci := make(chan int, 1)
	cc <- ci
	(<-cc) <- 9
	p("chan chan %d", <-ci)
	<-tokens
	<-tokens
	select {
	case <-tokens:
		p("three tokens")
	default:
		p("two tokens")
	}
	tokens <- struct{}{}
	tokens <- struct{}{}
}

func selects() {
	a, b, quit := make(chan int), make(chan string), make(chan bool)
	go func() { a <- 1 }()
	go func() { b <- "two" }()
	var l []string
	n := 0
loop:
	for {
		select {
		case x := <-a:
			l = append(l, fmt.Sprint(x))
		case s, ok := <-b:
			l = append(l, s+fmt.Sprint(ok))
		case <-quit:
			break loop
		}
		if n++; n == 2 {
			close(quit)
		}
	}
	sort.Strings(l)
	p("select %v", l)
	var nilc chan int
	select {
	case nilc <- 1:
		p("nil chan")
	case <-nilc:
		p("nil chan")
	default:
		p("default")
	}
	m := map[string]int{}
	c := make(chan int, 1)
	c <- 5
	select {
	case m["k"] = <-c:
	}
	p("into map %v", m)
	out := make(chan int, 1)
	var in <-chan int = out
	for i := 0; i < 4; i++ {
		select {
		case out <- i:
		case j := <-in:
			p("out %d", j)
		}
	}
	p("%d", pick(in))
}

func pick(c <-chan int) int {
	select {
	case v := <-c:
		return v
	case <-time.After(time.Millisecond):
		return -1
	}
}

func maprange() {
	m := map[int]string{1: "a", 2: "b", 3: "c"}
	n := 0
	for k := range m {
		n += k
		if k == 2 {
			continue
		}
		delete(m, k)
	}
	p("map %d %v", n, m)
	var k int
	var v string
	for k, v = range m {
	}
	p("last %d %s", k, v)
	for range m {
		n++
	}
	p("count %d", n)
	var fs []func() int
	for k := range map[int]int{4: 4} {
		fs = append(fs, func() int { return k })
	}
	p("captured %d", fs[0]())
outer:
	for k := range map[string]bool{"q": true} {
		for i := 0; ; i++ {
			if i == 3 {
				p("label %s %d", k, i)
				continue outer
			}
		}
	}
	type key struct{ a, b int }
	mm := map[key][]int{{1, 2}: {3}, {0, 1}: {4}}
	t := 0
	for k, v := range mm {
		t += k.a*100 + k.b*10 + v[0]
	}
	p("struct keys %d", t)
	for k := range map[*int]int{nil: 1} {
		p("pointer key %v", k == nil)
	}
}

func labels() {
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	switch {
	case i == 3:
		p("goto %d", i)
		fallthrough
	case i > 100:
		p("fell through")
	default:
		p("no")
	}
	switch x := any(i).(type) {
	case int, int64:
		p("type %T", x)
	}
l:
	for {
		switch {
		case true:
			break l
		}
	}
	for i := range 3 {
		i := i
		defer func() { p("deferred %d", i) }()
	}
	if a, b := 1, 2; a > b {
	} else if c := a + b; c == 3 {
		p("else if")
	}
	func() {
		for {
			return
		}
	}()
}

func closures() {
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { i *= 10; return i })
	}
	p("closures %d %d %d", fs[0](), fs[1](), fs[2]())
	f := func(n int) (r int, err error) {
		defer func() {
			if e := recover(); e != nil {
				r, err = -1, fmt.Errorf("recovered: %v", e)
			}
		}()
		return 10 / n, nil
	}
	a, e := f(0)
	b, e2 := f(5)
	p("%d %v %d %v", a, e, b, e2)
}

type counter struct {
	sync.Mutex
	n int
}

func syncs() {
	var c counter
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Lock()
			defer c.Unlock()
			c.n += i
		}()
	}
	wg.Wait()
	wg.Go(func() { c.n++ })
	wg.Wait()
	var rw sync.RWMutex
	rw.RLock()
	rw.RLock()
	p("sync %d %v", c.n, rw.TryLock())
	rw.RUnlock()
	rw.RUnlock()
	var l sync.Locker = &c
	cond := sync.NewCond(l)
	ready := false
	go func() {
		l.Lock()
		ready = true
		l.Unlock()
		cond.Broadcast()
	}()
	l.Lock()
	for !ready {
		cond.Wait()
	}
	l.Unlock()
	var o sync.Once
	for range 3 {
		o.Do(func() { p("once") })
	}
	v, err := lazily()
	p("%d %v %v", v, err, sync.OnceValue(func() int { return 3 })())
	var m sync.Map
	m.Store("a", 1)
	x, loaded := m.LoadOrStore("a", 2)
	m.Range(func(k, v any) bool { p("%v %v", k, v); return true })
	p("%v %v", x, loaded)
	var at atomic.Int64
	for i := 0; i < 40; i++ {
		wg.Add(1)
		go func() { at.Add(1); wg.Done() }()
	}
	wg.Wait()
	for i := 0; i < 100; i++ {
		wg.Add(1)
		go func() { at.Add(1); wg.Done() }()
		wg.Wait()
	}
	p("atomic %d", at.Load())
	for at.Load() > 130 {
		at.Add(-1)
		runtime.Gosched()
	}
	p("%v", runtime.NumCPU() > 0)
}

func pools() {
	b := pool.Get().(*bytes.Buffer)
	b.WriteString("pooled")
	s := b.String()
	b.Reset()
	pool.Put(b)
	x := scratch.Get().(*[]byte)
	zero := true
	for _, c := range *x {
		zero = zero && c == 0
	}
	scratch.Put(x)
	y := scratch.Get().(*[]byte)
	for _, c := range *y {
		zero = zero && c == 0
	}
	p("%s %v", s, zero)
}

func timers() {
	t0 := time.Now()
	time.Sleep(time.Millisecond)
	p("slept %v", time.Since(t0) >= time.Millisecond)
	t := time.NewTimer(time.Hour)
	p("stop %v", t.Stop())
	t.Reset(time.Millisecond)
	<-t.C
	tk := time.NewTicker(time.Millisecond)
	<-tk.C
	<-tk.C
	tk.Stop()
	c := make(chan int)
	time.AfterFunc(time.Millisecond, func() { c <- 1 })
	select {
	case <-c:
		p("after func")
	case <-time.After(10 * time.Second):
		p("late")
	}
}

func contexts() {
	type k struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), k{}, "val"))
	kid, stop := context.WithTimeout(ctx, time.Hour)
	defer stop()
	got := make(chan error)
	go func() { <-kid.Done(); got <- kid.Err() }()
	cancel()
	p("ctx %v %v %v", <-got, ctx.Err(), kid.Value(k{}))
	tctx, stop2 := context.WithTimeout(context.Background(), time.Millisecond)
	defer stop2()
	<-tctx.Done()
	p("%v %v", tctx.Err(), errors.Is(tctx.Err(), context.DeadlineExceeded))
	cc, cf := context.WithCancelCause(context.TODO())
	cf(io.ErrUnexpectedEOF)
	p("%v %v", cc.Err(), context.Cause(cc))
	var c context.Context = cc
	select {
	case <-c.Done():
	default:
		p("not done")
	}
}

func seq(n int) func(func(int) bool) {
	return func(yield func(int) bool) {
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

func iters() {
	t := 0
	for i := range seq(10) {
		if i == 5 {
			break
		}
		t += i
	}
	m := map[string]int{"x": 1, "y": 2}
	ks := slices.Sorted(maps.Keys(m))
	vs := slices.Collect(maps.Values(m))
	slices.Sort(vs)
	for k, v := range maps.All(m) {
		t += len(k) + v
	}
	p("iters %d %v %v", t, ks, vs)
	for i, r := range "aé" {
		p("%d %c", i, r)
	}
	var arr [3]int
	for i := range arr {
		arr[i] = i
	}
	for i, v := range &arr {
		t += i * v
	}
	p("%d", t)
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

func panics() {
	defer func() {
		var e *myErr
		if err, ok := recover().(error); ok && errors.As(err, &e) {
			p("recovered %s", e.s)
		}
	}()
	defer p("unwinding")
	panic(fmt.Errorf("wrap: %w", &myErr{"inner"}))
}

type stack[T any] struct{ l []T }

func (s *stack[T]) push(v T) { s.l = append(s.l, v) }
func mapAll[T, U any](c <-chan T, f func(T) U) []U {
	var r []U
	for v := range c {
		r = append(r, f(v))
	}
	return r
}

func generics() {
	var s stack[string]
	s.push("g")
	c := make(chan string, 2)
	c <- "a"
	c <- "bb"
	close(c)
	p("generics %v %v", s.l, mapAll(c, func(s string) int { return len(s) }))
}

func files() {
	in, err := io.ReadAll(os.Stdin)
	p("stdin %q %v", in, err)
	for _, n := range os.Args[1:] {
		f, err := os.Open(n)
		if err != nil {
			p("open: %v %v", err, errors.Is(err, os.ErrNotExist))
			continue
		}
		st, err := f.Stat()
		p("%s %v %v %v", f.Name(), st.Size(), st.IsDir(), err)
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			p("line %q", sc.Text())
		}
		b := make([]byte, 3)
		k, err := f.ReadAt(b, 1)
		p("%v %d %v %v %v", sc.Err(), k, err, f.Close(), f.Close() != nil)
		whole, err := os.ReadFile(n)
		p("%d %v %s", len(whole), err, strings.TrimSpace(os.Getenv("CONFORM_NONE")))
	}
	fmt.Print("")
	fmt.Fprintln(os.Stderr, "to stderr")
}

type greeter interface{ greet(string, chan<- string) }
type hello struct{ word string }

func (h hello) greet(n string, c chan<- string) { c <- h.word + n }

func variadic(c chan int, n ...int) { c <- len(n) }

func gos() {
	c := make(chan string)
	h := hello{"hi "}
	go h.greet("a", c)
	h.word = "changed "
	p("%s", <-c)
	var g greeter = h
	go g.greet("b", c)
	p("%s", <-c)
	ic := make(chan int)
	go variadic(ic, 1, 2, 3)
	p("%d", <-ic)
	f := func() func(int) { ic <- 77; return func(i int) { ic <- i } }
	go func() { go f()(5) }()
	p("%d %d", <-ic, <-ic)
	bc := make(chan struct{})
	go close(bc)
	<-bc
	go fmt.Sprint("dropped")
	go func() { select {} }()
	var mu sync.Mutex
	mu.Lock()
	go mu.Unlock()
	mu.Lock()
	p("end")
}

func pipes() {
	r, w := io.Pipe()
	go func() {
		bw := bufio.NewWriterSize(w, 5)
		for i := 0; i < 4; i++ {
			fmt.Fprintf(bw, "line %d of the pipe\n", i)
		}
		bw.Flush()
		n, err := w.Write(nil)
		w.CloseWithError(fmt.Errorf("the end (%d %v)", n, err))
	}()
	b := make([]byte, 7)
	var all []byte
	for {
		n, err := r.Read(b)
		all = append(all, b[:n]...)
		if err != nil {
			p("%q %v", all, err)
			break
		}
	}
	var pr *io.PipeReader
	var pw *io.PipeWriter
	pr, pw = io.Pipe()
	done := make(chan struct{})
	go func() {
		defer close(done)
		io.CopyN(io.Discard, pr, 3)
		pr.CloseWithError(errors.New("enough"))
	}()
	n, err := io.WriteString(pw, "abcdef")
	p("%d %v", n, err)
	<-done
	n, err = pw.Write([]byte("x"))
	p("%d %v", n, err)
	pw.Close()
	_, err = pr.Read(b)
	p("%v", err)
	pr, pw = io.Pipe()
	pw.Close()
	x, err := io.ReadAll(pr)
	p("%q %v", x, err)
	_, err = pw.Write([]byte("x"))
	p("%v", err)
}

var seed = maphash.MakeSeed()

func chances() {
	var h maphash.Hash
	h.SetSeed(seed)
	h.WriteString("ab")
	h.WriteByte('c')
	x := h.Sum64()
	h.Reset()
	h.Write([]byte("abc"))
	p("hash %v %v %v", x == h.Sum64(), maphash.String(seed, "abc") == maphash.Bytes(seed, []byte("abc")), h.Seed() == seed)
	b := make([]byte, 4)
	n, err := crand.Read(b)
	p("random %v %v %v %v %v", n, err, rand.Intn(7) < 7, rand2.IntN(7) < 7, len(rand.Perm(5)))
}
