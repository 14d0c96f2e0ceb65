package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	pkgerr "github.com/pkg/errors"
)

// What a callback can fail with.

type plainErr struct{ n int }

func (e plainErr) Error() string { return fmt.Sprintf("custom-%d", e.n) }

type sliceErr []string // not comparable

func (e sliceErr) Error() string { return "uncomparable " + strings.Join(e, "/") }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout (injected)" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// sentinels: the values errors are drawn from. None of them is the sax
// package's "not specified".
var sentinels = []struct {
	name string
	make func(n int) error
}{
	{"error", func(n int) error { return fmt.Errorf("boom-%d", n) }},
	{"struct error", func(n int) error { return plainErr{n} }},
	{"pointer error", func(n int) error { return &ptrErr{fmt.Sprintf("pointer-%d", n)} }},
	{"uncomparable error", func(n int) error { return sliceErr{"a", fmt.Sprint(n)} }},
	{"io.EOF", func(int) error { return io.EOF }},
	{"io.ErrUnexpectedEOF", func(int) error { return io.ErrUnexpectedEOF }},
	{"wrapped", func(n int) error { return pkgerr.Wrap(fmt.Errorf("inner-%d", n), "outer") }},
	{"wrapped std", func(n int) error { return fmt.Errorf("ctx: %w", plainErr{n}) }},
	{"timeout", func(int) error { return timeoutErr{} }},
	{"io.ErrShortWrite", func(int) error { return io.ErrShortWrite }},
	{"helium parse error", func(n int) error {
		return helium.ErrParseError{Err: fmt.Errorf("nested-%d", n), LineNumber: 7, Column: 3, Line: "x"}
	}},
	{"empty text", func(n int) error { return &ptrErr{""} }},
	{"helium.ErrParseSucceeded", func(int) error { return helium.ErrParseSucceeded }},
	{"entity not found", func(int) error { return helium.ErrEntityNotFound }},
	{"one of helium's", func(n int) error { l := ownErrs(); return l[n%len(l)] }},
	{"one of helium's, wrapped", func(n int) error { return fmt.Errorf("handler: %w", ownErrs()[n%len(ownErrs())]) }},
	{"pointer to a parse error", func(n int) error { return &helium.ErrParseError{Err: fmt.Errorf("deep-%d", n)} }},
	{"nil pointer", func(int) error { return (*nilErr)(nil) }},
	{"os.ErrNotExist", func(int) error { return &os.PathError{Op: "open", Path: "x", Err: os.ErrNotExist} }},
	{"context.Canceled", func(int) error { return context.Canceled }},
}

// nilErr is an error even if it is a nil pointer.
type nilErr struct{}

func (*nilErr) Error() string { return "nil inside" }

// ownErrs are errors that the parser itself makes and might take for its own.
func ownErrs() []error {
	return []error{helium.ErrEOF, helium.ErrPrematureEOF, helium.ErrDocumentEnd, helium.ErrInvalidChar, helium.ErrAttributeNameRequired, helium.ErrNameRequired, helium.ErrMisplacedCDATAEnd, helium.ErrCDATAInvalid, helium.ErrNilNode, helium.ErrDuplicateAttribute,
		helium.ErrInvalidOperation, helium.ErrUndeclaredEntity, helium.ErrByteCursorRequired, helium.ErrInvalidDTD, helium.ErrEqualSignRequired, helium.ErrSpaceRequired, helium.ErrEmptyDocument, helium.ErrInvalidParserCtx, helium.ErrInvalidName, helium.ErrStartTagRequired, helium.ErrInvalidEncodingName}
}

// carries tells whether err is, wraps or prints want.
func carries(err, want error) bool {
	if err == nil {
		return false
	}
	if t := want.Error(); t != "" && strings.Contains(err.Error(), t) {
		return true
	}
	for e := err; e != nil; {
		if eq(e, want) {
			return true
		}
		if p, ok := e.(helium.ErrParseError); ok {
			e = p.Err
			continue
		}
		if p, ok := e.(*helium.ErrParseError); ok && p != nil {
			e = p.Err
			continue
		}
		if u := errors.Unwrap(e); u != nil {
			e = u
			continue
		}
		if c, ok := e.(interface{ Cause() error }); ok {
			e = c.Cause()
			continue
		}
		return false
	}
	return false
}

func eq(a, b interface{}) (same bool) {
	defer func() {
		if recover() != nil { // not comparable
			same = fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
		}
	}()
	return a == b
}

// Plan is one parse with everything that will go wrong in it.
type Plan struct {
	Name   string
	In     []byte
	Mode   int
	Model  *Model // nil: damaged input
	FailAt int    // number of the callback that fails (-1: none)
	FailK  string // or: kind of the callback, FailAt counts that kind
	Late   bool   // fails after the event was passed on, else before
	Panic  bool
	Err    error
	Direct bool // the handler is a structure of our own, else the sax package's
	Drop   map[string]bool
	Hook   func(rec *Rec, n int, kind string) // runs before any failure
	Keep   bool

	GCAt    int // collect garbage in this callback
	counted map[string]int
}

func (p *Plan) String() string {
	s := fmt.Sprintf("%s %s %dB", p.Name, []string{"sax", "tree", "free"}[p.Mode], len(p.In))
	if p.FailAt >= 0 {
		k := p.FailK
		if k == "" {
			k = "callback"
		}
		w := "errs"
		if p.Panic {
			w = "panics"
		}
		s += fmt.Sprintf(" %s #%d %s", k, p.FailAt, w)
	}
	return s
}

// rec makes the recorder of the plan.
func (p *Plan) rec() *Rec {
	r := &Rec{Keep: p.Keep}
	cnt := map[string]int{}
	fail := func(n int, kind string) error {
		if p.FailAt < 0 {
			return nil
		}
		if p.FailK != "" {
			if kind != p.FailK || cnt[kind] != p.FailAt {
				return nil
			}
		} else if n != p.FailAt {
			return nil
		}
		r.Fired = true
		if p.Panic {
			panic(p.Err)
		}
		return p.Err
	}
	r.Before = func(n int, kind string) error {
		if p.GCAt > 0 && n == p.GCAt {
			runtime.GC()
		}
		if p.Hook != nil {
			p.Hook(r, n, kind)
		}
		var err error
		if !p.Late {
			err = fail(n, kind)
		}
		return err
	}
	r.After = func(n int, kind string, data []byte) error {
		var err error
		if p.Late {
			err = fail(n, kind)
		}
		cnt[kind]++
		return err
	}
	return r
}

// handler makes the SAX handler for the plan's recorder.
func (p *Plan) handler(r *Rec) sax.SAX2Handler {
	if p.Mode == modeTree {
		r.inner = helium.NewTreeBuilder()
		return r
	}
	if p.Direct {
		return r
	}
	if len(p.Drop) > 0 {
		set := map[string]bool{}
		for _, k := range kinds {
			set[k] = !p.Drop[k]
		}
		r.h = r.SAX(set)
		return r.h
	}
	r.h = r.SAX(nil)
	return r.h
}

// Exec runs the plan with the given parser (nil: a new one). The parser's
// handler is set unless noSet.
func (p *Plan) Exec(ps *helium.Parser) *Outcome {
	r := p.rec()
	o := &Outcome{Rec: r}
	o.Panic = guard(func() {
		if p.Mode == modeFree {
			if ps == nil {
				o.Doc, o.Err = helium.Parse(p.In)
			} else {
				ps.SetSAXHandler(helium.NewTreeBuilder())
				o.Doc, o.Err = ps.Parse(p.In)
			}
			return
		}
		if ps == nil {
			ps = helium.NewParser()
		}
		ps.SetSAXHandler(p.handler(r))
		o.Doc, o.Err = ps.Parse(p.In)
	})
	o.finish(p.Mode)
	return o
}

// solo executes the plan alone in the calm environment: the reference.
func (c *Ctx) base(p *Plan) (*Outcome, *Violation) {
	var o *Outcome
	r := c.solo(calm, budget(len(p.In)), func() { o = p.Exec(nil) })
	return o, ended(r)
}

// genOpt draws the size of a document.
func genOpt(s *Src, c *Ctx) GenOpt {
	o := GenOpt{Decl: s.Chance(50), Enc: true}
	switch s.N(4) {
	case 0:
		o.MaxElems = 2
	case 1:
		o.MaxElems = 6
	case 2:
		o.MaxElems = 14
	default:
		o.MaxElems = 14
		o.Big = true
		if c.Deep {
			o.MaxElems = 60
		}
	}
	return o
}

func genDoc(s *Src, c *Ctx) *Model {
	m := Gen(s, genOpt(s, c))
	c.mark(strHash(string(m.Bytes)))
	for f := range m.Feat {
		c.tag("document with " + f)
	}
	return m
}

// drawPlan draws a parse: fail is the chance that a callback fails, dam the
// chance that the input is damaged.
func drawPlan(s *Src, c *Ctx, name string, fail, dam int) *Plan {
	p := &Plan{Name: name, FailAt: -1}
	m := genDoc(s, c)
	p.In, p.Model = m.Bytes, m
	p.Mode = s.N(3)
	p.Direct = s.Chance(40)
	if s.Chance(dam) {
		p.In, p.Model = damage(s, c, m, 1+s.N(2)), nil
	}
	if s.Chance(fail) {
		drawFail(s, c, p, m)
	}
	if s.Chance(3) {
		p.GCAt = 1 + s.N(20)
	}
	return p
}

// drawFail draws which callback fails how.
func drawFail(s *Src, c *Ctx, p *Plan, m *Model) {
	if p.Mode == modeFree {
		p.Mode = modeTree
	}
	n := len(m.Evs)
	if s.Chance(60) && n > 0 {
		e := m.Evs[s.N(n)]
		p.FailK = e.K
		cnt := 0
		for _, x := range m.Evs {
			if x.K == e.K {
				cnt++
			}
		}
		p.FailAt = s.N(cnt)
	} else {
		p.FailAt = s.N(n + 2)
	}
	p.Late = s.Chance(40)
	p.Panic = s.Chance(35)
	k := sentinels[s.N(len(sentinels))]
	p.Err = k.make(s.N(100))
	what := "error: " + k.name
	if p.Panic {
		what = "panic"
	}
	p.Name += " (" + what + ")"
}

// noteFail counts the callback failure if it happened.
func noteFail(c *Ctx, p *Plan, o *Outcome) {
	if o != nil && o.Rec != nil && o.Rec.Fired {
		if p.Panic {
			c.fault("callback panics")
		} else {
			c.fault("callback fails")
		}
	}
}

// tokens that damage likes to insert
var garbage = []string{"<", ">", "&", "&#", "&#x", ";", "<!", "<!--", "-->", "--", "<![CDATA[", "]]>", "]]", "<?", "?>", "<?xml ", "</", "/>", "=", "\"", "'", "%", "%e0;", "&e0;", "&e1;", "&nope;", "&e7;", "&xt;", "&lt;",
	"xmlns=\"\"", "xmlns:p=\"u\"", "p:", ":", "<!DOCTYPE a [", "<!ENTITY e0 \"&e0;\">", "<!ENTITY % p \"x\">", "<!ENTITY x SYSTEM \"f\">", "<!ATTLIST a b CDATA \"&e0;\">", "<!ATTLIST a b (x|y", "<!ELEMENT a (b,(c|d)+)*>", "<!ELEMENT a (", "<!NOTATION n SYSTEM \"s\">", "]>", "[", "]", "(", ")", "#PCDATA", "|", ",", "*",
	"\x00", "\xff", "\xfe\xff", "\xef\xbb\xbf", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\r", "\r\n", "\x1a", "\u2028", "\ufffe", "&#0;", "&#xD800;", "&#x110000;", "&#99999999999;", "&#xfffffffffffff;", "encoding=\"utf-16\"", "encoding=\"iso-8859-1\"", "encoding=\"nope\"", "standalone=\"maybe\"", "version=\"9.9\"", "xml:space=\"preserve\"", "xml:lang=\"en\""}

// misuse is markup that is complete but not allowed where it is put
var misuse = []string{"&nope;", "&e7;", "&ef;", "&pe0;", "<unclosed>", "</wrong>", "<u:none/>", "<x a='1' a='2'/>", "<x xmlns:p='a' xmlns:p='b'/>", "<x q:a='1'/>", "<x a='<'/>", "<x a='&nope;'/>", "<x a='&e7;'/>", "<x a=1/>", "<x a/>", "]]>", "<!ENTITY e1 '1'>", "<!ELEMENT a EMPTY><!ELEMENT a ANY>", "<!ATTLIST a i ID #IMPLIED j ID #IMPLIED>", "<!DOCTYPE b>", "<?xml version='1.0'?>", "<!-- a -- b -->", "<!ENTITY r '&r;'>", "<!ENTITY s '&t;'><!ENTITY t '&s;'>", "&r;", "&s;", "%pe0;", "<!ATTLIST a w1 CDATA '&r;'>", "<!ATTLIST a w2 CDATA '<'>", "<!ENTITY u '<a>'>", "&u;", "&#0;", "text", "<a/>"}

// damage applies n storage or transit faults to a document.
func damage(s *Src, c *Ctx, m *Model, n int) []byte {
	b := append([]byte(nil), m.Bytes...)
	at := func() int {
		if len(b) == 0 {
			return 0
		}
		if len(m.Cuts) > 0 && s.Chance(50) {
			x := m.Cuts[s.N(len(m.Cuts))] + s.N(5) - 2
			if x < 0 {
				x = 0
			}
			if x > len(b) {
				x = len(b)
			}
			return x
		}
		return s.N(len(b) + 1)
	}
	span := func() (int, int) {
		i := at()
		l := 1 + s.N(8)
		if s.Chance(20) {
			l = 1 + s.N(64)
		}
		if i+l > len(b) {
			l = len(b) - i
		}
		return i, i + l
	}
	ins := func(i int, x []byte) { b = append(b[:i:i], append(append([]byte(nil), x...), b[i:]...)...) }
	// block: from one border of the document to another one
	block := func() (int, int) {
		if len(m.Cuts) < 2 {
			return span()
		}
		k := s.N(len(m.Cuts) - 1)
		i, j := m.Cuts[k], m.Cuts[min(k+1+s.N(3), len(m.Cuts)-1)]
		if j > len(b) {
			j = len(b)
		}
		if i >= j {
			return span()
		}
		return i, j
	}
	for ; n > 0; n-- {
		switch s.N(16) {
		case 0:
			i := at()
			b = b[:i]
			c.fault("truncated")
		case 1:
			if len(b) > 0 {
				i := at()
				if i == len(b) {
					i--
				}
				b[i] ^= 1 << uint(s.N(8))
				c.fault("bit flipped")
			}
		case 2:
			i, j := span()
			b = append(b[:i:i], b[j:]...)
			c.fault("bytes lost")
		case 3:
			i, j := span()
			ins(j, b[i:j])
			c.fault("bytes duplicated")
		case 4:
			i, j := span()
			x := append([]byte(nil), b[i:j]...)
			b = append(b[:i:i], b[j:]...)
			ins(s.N(len(b)+1), x)
			c.fault("bytes reordered")
		case 5, 6, 7:
			ins(at(), []byte(s.Pick(garbage)))
			c.fault("garbage inserted")
		case 11:
			i, j := block()
			ins(j, b[i:j])
			c.fault("block duplicated")
		case 12:
			i, j := block()
			b = append(b[:i:i], b[j:]...)
			c.fault("block lost")
		case 13:
			i, j := block()
			k, _ := block()
			ins(k, b[i:j])
			c.fault("block misdirected")
		case 14, 15:
			i := at()
			if len(m.Cuts) > 0 {
				i = min(m.Cuts[s.N(len(m.Cuts))], len(b))
			}
			ins(i, []byte(s.Pick(misuse)))
			c.fault("misuse inserted")
		case 8:
			i, j := span()
			for ; i < j; i++ {
				b[i] = 0
			}
			c.fault("lost write (zeros)")
		case 9:
			i, j := span()
			x := []byte(s.Pick(garbage))
			for k := i; k < j; k++ {
				b[k] = x[(k-i)%len(x)]
			}
			c.fault("overwritten")
		default:
			i, _ := span()
			k, l := span()
			ins(i, b[k:l])
			c.fault("misdirected write")
		}
		if len(b) > 60000 {
			b = b[:60000]
		}
	}
	return b
}

// check what every parse must satisfy, whatever happened.
func sane(p *Plan, o *Outcome) *Violation {
	if o.Rec != nil && len(o.Rec.Late) > 0 {
		return viol("late callback", "%v: callbacks %v were made after one failed", p, o.Rec.Late)
	}
	if o.Panic != nil {
		if o.Rec != nil && o.Rec.Fired && p.Panic {
			return nil
		}
		return viol("panic", "%v: Parse panicked: %v", p, o.Panic)
	}
	return nil
}
