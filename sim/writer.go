package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zzsim"
)

// Faulty writers.
const (
	wOK        = iota
	wFail      // fails for good at byte at, accepting what is before
	wFailAll   // fails for good in the call that crosses byte at, accepting nothing of it
	wShort     // once accepts only what is before byte at, without an error
	wTransient // call number at fails once, accepting nothing
	wTransPart // once fails at byte at, accepting what is before
	wAllErr    // call number at accepts everything and fails
	wPanic     // panics in the call that crosses byte at
	wFailCall  // fails for good from call number at on
	wZero      // call number at accepts nothing, without an error
	nWModes
)

var wNames = []string{"no fault", "write error after some bytes", "write error", "short write", "transient write error", "transient write error after some bytes", "write error though all was accepted", "writer panics", "write error in a later call", "nothing accepted"}

type faultW struct {
	at, mode int
	err      error
	want     string // what is expected to arrive (prefix checked at every call)
	check    bool

	buf   []byte
	calls int
	fired bool
	after int // non-empty calls after the fault
	bad   string
	busy  turns
}

func (w *faultW) Write(b []byte) (int, error) {
	zzsim.Yield()
	defer w.busy.enter("Write")()
	zzsim.Yield()
	n, err := w.write(b)
	if w.check && w.bad == "" {
		if len(w.buf) > len(w.want) || string(w.buf) != w.want[:len(w.buf)] {
			w.bad = fmt.Sprintf("after call %d the writer holds %s", w.calls, firstDiff(w.want, string(w.buf)))
		}
	}
	zzsim.Yield()
	return n, err
}

func (w *faultW) write(b []byte) (int, error) {
	i := w.calls
	w.calls++
	if w.fired {
		if len(b) > 0 {
			w.after++
		}
		if w.mode == wFail || w.mode == wFailAll || w.mode == wFailCall || w.mode == wPanic {
			return 0, w.err
		}
		w.buf = append(w.buf, b...)
		return len(b), nil
	}
	cross := len(w.buf)+len(b) > w.at && len(b) > 0
	part := w.at - len(w.buf)
	if part < 0 || part > len(b) {
		part = 0
	}
	switch w.mode {
	case wFail, wTransPart:
		if cross {
			w.fired = true
			w.buf = append(w.buf, b[:part]...)
			return part, w.err
		}
	case wFailAll:
		if cross {
			w.fired = true
			return 0, w.err
		}
	case wShort:
		if cross {
			w.fired = true
			w.buf = append(w.buf, b[:part]...)
			return part, nil
		}
	case wTransient, wFailCall:
		if i == w.at {
			w.fired = true
			return 0, w.err
		}
	case wAllErr:
		if i == w.at {
			w.fired = true
			w.buf = append(w.buf, b...)
			return len(b), w.err
		}
	case wZero:
		if i >= w.at && len(b) > 0 {
			w.fired = true
			return 0, nil
		}
	case wPanic:
		if cross {
			w.fired = true
			panic(w.err)
		}
	}
	w.buf = append(w.buf, b...)
	return len(b), nil
}

// stringW also implements io.StringWriter.
type stringW struct{ *faultW }

func (w stringW) WriteString(s string) (int, error) { return w.faultW.Write([]byte(s)) }

// byteW also implements io.ByteWriter and io.StringWriter.
type byteW struct{ stringW }

func (w byteW) WriteByte(c byte) error {
	n, err := w.faultW.Write([]byte{c})
	if err == nil && n < 1 {
		return io.ErrShortWrite
	}
	return err
}

// sameW is one writer that is used for one serialization after the other.
type sameW struct{ cur *faultW }

func (w *sameW) Write(b []byte) (int, error) { return w.cur.Write(b) }

// as gives the writer one of its shapes.
func (w *faultW) as(k int) io.Writer {
	switch k {
	case 0:
		return w
	case 1:
		return stringW{w}
	default:
		return byteW{stringW{w}}
	}
}

var wErrs = []func(n int) error{
	func(n int) error { return fmt.Errorf("disk full-%d", n) },
	func(n int) error { return syscall.ENOSPC },
	func(n int) error { return syscall.EPIPE },
	func(n int) error { return sliceErr{"w", fmt.Sprint(n)} },
	func(n int) error { return &ptrErr{fmt.Sprintf("wp-%d", n)} },
	func(n int) error { return io.EOF },
	func(n int) error { return io.ErrShortWrite },
	func(n int) error { return io.ErrClosedPipe },
	func(n int) error { return plainErr{n} },
	func(n int) error { return timeoutErr{} },
	func(n int) error { return helium.ErrInvalidOperation },
	func(n int) error { return syscall.EINTR },
	func(n int) error { return syscall.EAGAIN },
	func(n int) error { return (*nilErr)(nil) },
	func(n int) error { return fmt.Errorf("upload: %w", io.EOF) },
	func(n int) error { return &os.PathError{Op: "write", Path: "out", Err: os.ErrClosed} },
	func(n int) error { return context.DeadlineExceeded },
}

// target is something that can be serialized.
type target struct {
	name string
	dump func(w io.Writer) error
	want string // what it writes when nothing fails
	call int    // with how many calls

	refdump func(w io.Writer) error // of the document that tells what is expected

	api string
	k   int // number of the node
	d   *dumper
}

// dumper is a Dumper for one serialization after the other. Whoever comes while
// it is in use takes a new one.
type dumper struct {
	d           helium.Dumper
	share, busy bool
}

func (x *dumper) doc(w io.Writer, doc *helium.Document) error {
	if !x.share || x.busy {
		return (&helium.Dumper{}).DumpDoc(w, doc)
	}
	x.busy = true
	defer func() { x.busy = false }()
	return x.d.DumpDoc(w, doc)
}

func (x *dumper) node(w io.Writer, n helium.Node) error {
	if !x.share || x.busy {
		return (&helium.Dumper{}).DumpNode(w, n)
	}
	x.busy = true
	defer func() { x.busy = false }()
	return x.d.DumpNode(w, n)
}

// targets of a document: by every API. What they write is taken from ref.
func targets(s *Src, doc, ref *helium.Document, n int, share bool) []*target {
	d := &dumper{share: share && s.Chance(50)}
	l := []*target{{api: "Dumper.DumpDoc", d: d}, {api: "Document.XML", d: d}}
	nodes, rnodes := nodesOf(doc), nodesOf(ref)
	for i := 0; i < n && len(nodes) > 0; i++ {
		k := s.N(len(nodes))
		if k >= len(rnodes) {
			break
		}
		_, ok := nodes[k].(*helium.Element)
		_, rok := rnodes[k].(*helium.Element)
		if ok && rok && s.Chance(40) {
			l = append(l, &target{api: "Element.XML", d: d, k: k})
			continue
		}
		l = append(l, &target{api: "Dumper.DumpNode", d: d, k: k})
	}
	for _, t := range l {
		t.bind(doc, nodes)
		t.refdump = t.call1(&dumper{}, ref, rnodes)
	}
	return l
}

// bind makes the target the one of that document.
func (t *target) bind(doc *helium.Document, nodes []helium.Node) {
	t.name = t.api
	if t.api == "Dumper.DumpNode" {
		t.name = fmt.Sprintf("%s(%T)", t.api, nodes[t.k])
	}
	t.dump = t.call1(t.d, doc, nodes)
}

func (t *target) call1(d *dumper, doc *helium.Document, nodes []helium.Node) func(w io.Writer) error {
	switch t.api {
	case "Dumper.DumpDoc":
		return func(w io.Writer) error { return d.doc(w, doc) }
	case "Document.XML":
		return doc.XML
	case "Element.XML":
		return nodes[t.k].(*helium.Element).XML
	}
	x := nodes[t.k]
	return func(w io.Writer) error { return d.node(w, x) }
}

// ref dumps a target without faults. ok tells that it can be dumped at all.
func (t *target) ref() (ok bool, why string) {
	w := &faultW{mode: wOK}
	var err error
	p := guard(func() { err = t.refdump(w) })
	t.want, t.call = string(w.buf), w.calls
	if p != nil {
		return false, fmt.Sprintf("panic: %v", p)
	}
	if err != nil {
		return false, err.Error()
	}
	return true, ""
}
