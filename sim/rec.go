package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zzsim"
)

// kept is a byte slice a handler was given and did not copy.
type kept struct {
	kind string
	snap string
	b    []byte
}

// keptAttr is an attribute or namespace object a handler kept.
type keptAttr struct {
	snap string
	get  func() string
}

// Rec records what a handler sees. It can misbehave on demand.
type Rec struct {
	Raw   []Ev
	Calls int // callbacks so far, lookups excluded
	inner sax.SAX2Handler
	ents  map[string]sax.Entity

	// Before is called with the number and kind of every callback before it is
	// recorded. A returned error is what the callback returns.
	Before func(n int, kind string) error
	// After is called after the event was recorded (and passed on).
	After func(n int, kind string, data []byte) error

	Keep  bool
	Kept  []kept
	KeptA []keptAttr

	failed   bool
	Fired    bool      // the planned failure happened
	h        *sax.SAX2 // the handler structure, if that is what is used
	OnLookup func()
	Late     []string // callbacks made after one failed
	Lookups  int

	ctx interface{} // the context given to the callbacks

	busy turns // who is in a callback
}

// turns watches who calls, and when.
type turns struct {
	open, closed bool
	who          *zzsim.Task
	Over         string // calls that began while another goroutine was in one
	After        string // calls after everything should have been over
}

func (t *turns) enter(what string) (leave func()) {
	if zzsim.Over() {
		return func() {}
	}
	if t.closed && t.After == "" {
		t.After = what
	}
	me := zzsim.Self()
	if t.open && t.who != me && t.Over == "" {
		t.Over = what
	}
	was, who := t.open, t.who
	t.open, t.who = true, me
	return func() { t.open, t.who = was, who }
}

var _ sax.SAX2Handler = (*Rec)(nil)

func (r *Rec) done(kind string, data []byte, a []string, pass func() error) error {
	if r.failed {
		r.Late = append(r.Late, kind)
	}
	zzsim.Yield()
	defer r.busy.enter(kind)()
	zzsim.Yield()
	n := r.Calls
	r.Calls++
	if r.Before != nil {
		if err := r.calling(func() error { return r.Before(n, kind) }); err != nil {
			return err
		}
	}
	r.Raw = append(r.Raw, Ev{K: kind, A: a})
	if r.Keep && data != nil {
		r.Kept = append(r.Kept, kept{kind, string(data), data})
	}
	if pass != nil && r.inner != nil {
		if err := pass(); err != nil {
			if err != sax.ErrHandlerUnspecified {
				r.failed = true
			}
			return err
		}
	}
	if r.After != nil {
		return r.calling(func() error { return r.After(n, kind, data) })
	}
	return nil
}

func (r *Rec) calling(f func() error) (err error) {
	ok := false
	defer func() {
		if !ok || err != nil {
			r.failed = true
		}
	}()
	err = f()
	ok = true
	return err
}

func (r *Rec) SetDocumentLocator(ctx sax.Context, loc sax.DocumentLocator) error {
	r.ctx = ctx
	return r.done("locator", nil, nil, func() error { return r.inner.SetDocumentLocator(ctx, loc) })
}
func (r *Rec) StartDocument(ctx sax.Context) error {
	return r.done("startdoc", nil, nil, func() error { return r.inner.StartDocument(ctx) })
}
func (r *Rec) EndDocument(ctx sax.Context) error {
	return r.done("enddoc", nil, nil, func() error { return r.inner.EndDocument(ctx) })
}
func (r *Rec) ProcessingInstruction(ctx sax.Context, t, d string) error {
	return r.done("pi", nil, []string{t, d}, func() error { return r.inner.ProcessingInstruction(ctx, t, d) })
}
func attrString(a sax.Attribute) string {
	n := a.Name()
	if p := a.Prefix(); p != "" {
		if n != p+":"+a.LocalName() {
			n = n + "!" + p + "!" + a.LocalName()
		}
	} else if n != a.LocalName() {
		n = n + "!" + a.LocalName()
	}
	v := n + "=" + a.Value()
	if a.IsDefault() {
		v += " (default)"
	}
	return v
}
func nsString(n sax.Namespace) string {
	if n.Prefix() == "" {
		return "xmlns=" + n.URI()
	}
	return "xmlns:" + n.Prefix() + "=" + n.URI()
}
func (r *Rec) StartElementNS(ctx sax.Context, local, prefix, uri string, nss []sax.Namespace, attrs []sax.Attribute) error {
	a := []string{local, prefix, uri}
	for _, n := range nss {
		a = append(a, nsString(n))
	}
	for _, x := range attrs {
		a = append(a, attrString(x))
	}
	if r.Keep {
		for i := range nss {
			n := nss[i]
			r.KeptA = append(r.KeptA, keptAttr{nsString(n), func() string { return nsString(n) }})
		}
		for i := range attrs {
			x := attrs[i]
			r.KeptA = append(r.KeptA, keptAttr{attrString(x), func() string { return attrString(x) }})
		}
		if len(nss)+len(attrs) > 0 {
			all := func() string {
				var l []string
				for _, n := range nss {
					l = append(l, nsString(n))
				}
				for _, x := range attrs {
					l = append(l, attrString(x))
				}
				return strings.Join(l, " ")
			}
			r.KeptA = append(r.KeptA, keptAttr{all(), all})
		}
	}
	return r.done("start", nil, a, func() error { return r.inner.StartElementNS(ctx, local, prefix, uri, nss, attrs) })
}
func (r *Rec) EndElementNS(ctx sax.Context, local, prefix, uri string) error {
	return r.done("end", nil, []string{local, prefix, uri}, func() error { return r.inner.EndElementNS(ctx, local, prefix, uri) })
}
func (r *Rec) Characters(ctx sax.Context, b []byte) error {
	return r.done("text", b, []string{string(b)}, func() error { return r.inner.Characters(ctx, b) })
}
func (r *Rec) IgnorableWhitespace(ctx sax.Context, b []byte) error {
	return r.done("space", b, []string{string(b)}, func() error { return r.inner.IgnorableWhitespace(ctx, b) })
}
func (r *Rec) CDataBlock(ctx sax.Context, b []byte) error {
	return r.done("cdata", b, []string{string(b)}, func() error { return r.inner.CDataBlock(ctx, b) })
}
func (r *Rec) Comment(ctx sax.Context, b []byte) error {
	return r.done("comment", b, []string{string(b)}, func() error { return r.inner.Comment(ctx, b) })
}
func (r *Rec) InternalSubset(ctx sax.Context, name, eid, sid string) error {
	return r.done("intsubset", nil, []string{name, eid, sid}, func() error { return r.inner.InternalSubset(ctx, name, eid, sid) })
}
func (r *Rec) ExternalSubset(ctx sax.Context, name, eid, sid string) error {
	return r.done("extsubset", nil, []string{name, eid, sid}, func() error { return r.inner.ExternalSubset(ctx, name, eid, sid) })
}
func (r *Rec) ElementDecl(ctx sax.Context, name string, typ int, c sax.ElementContent) error {
	return r.done("elemdecl", nil, []string{name, fmt.Sprint(typ), contentOf(typ, c)}, func() error { return r.inner.ElementDecl(ctx, name, typ, c) })
}
func (r *Rec) AttributeDecl(ctx sax.Context, elem, name string, typ, def int, dv string, tree sax.Enumeration) error {
	t := ""
	if e, ok := tree.(helium.Enumeration); ok {
		t = strings.Join(e, "|")
		if r.Keep && len(e) > 0 {
			r.KeptA = append(r.KeptA, keptAttr{t, func() string { return strings.Join(e, "|") }})
		}
	}
	return r.done("attdecl", nil, []string{elem, name, fmt.Sprint(typ), fmt.Sprint(def), dv, t}, func() error { return r.inner.AttributeDecl(ctx, elem, name, typ, def, dv, tree) })
}
func (r *Rec) EntityDecl(ctx sax.Context, name string, typ int, pub, sys, content string) error {
	if r.inner == nil {
		key := name
		if typ == int(helium.InternalParameterEntity) || typ == int(helium.ExternalParameterEntity) {
			key = "%" + name
		}
		if _, ok := r.ents[key]; !ok {
			if r.ents == nil {
				r.ents = map[string]sax.Entity{}
			}
			r.ents[key] = &myEnt{name: name, typ: typ, content: content}
		}
	}
	return r.done("entdecl", nil, []string{name, fmt.Sprint(typ), pub, sys, content}, func() error { return r.inner.EntityDecl(ctx, name, typ, pub, sys, content) })
}
func (r *Rec) Reference(ctx sax.Context, name string) error {
	return r.done("ref", nil, []string{name}, func() error { return r.inner.Reference(ctx, name) })
}
func (r *Rec) NotationDecl(ctx sax.Context, name, pub, sys string) error {
	return r.done("notation", nil, []string{name, pub, sys}, func() error { return r.inner.NotationDecl(ctx, name, pub, sys) })
}
func (r *Rec) UnparsedEntityDecl(ctx sax.Context, name, pub, sys, not string) error {
	return r.done("unparsed", nil, []string{name, pub, sys, not}, func() error { return r.inner.UnparsedEntityDecl(ctx, name, pub, sys, not) })
}
func (r *Rec) Error(ctx sax.Context, msg string, args ...interface{}) error {
	return r.done("error", nil, []string{fmt.Sprintf(msg, args...)}, func() error { return r.inner.Error(ctx, msg, args...) })
}
func (r *Rec) HasExternalSubset(ctx sax.Context) (bool, error) {
	return false, sax.ErrHandlerUnspecified
}
func (r *Rec) HasInternalSubset(ctx sax.Context) (bool, error) {
	return false, sax.ErrHandlerUnspecified
}
func (r *Rec) IsStandalone(ctx sax.Context) (bool, error) { return false, sax.ErrHandlerUnspecified }
func (r *Rec) ResolveEntity(ctx sax.Context, pub, sys string) (sax.ParseInput, error) {
	return nil, sax.ErrHandlerUnspecified
}

func (r *Rec) lookup() {
	zzsim.Yield()
	r.Lookups++
	if r.failed {
		r.Late = append(r.Late, "lookup")
	}
	if r.OnLookup != nil {
		r.OnLookup()
	}
}

func (r *Rec) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	r.lookup()
	if r.inner != nil {
		return r.inner.GetEntity(ctx, name)
	}
	if e, ok := r.ents[name]; ok {
		return e, nil
	}
	return nil, sax.ErrHandlerUnspecified
}
func (r *Rec) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	r.lookup()
	if r.inner != nil {
		return r.inner.GetParameterEntity(ctx, name)
	}
	if e, ok := r.ents["%"+name]; ok {
		return e, nil
	}
	return nil, sax.ErrHandlerUnspecified
}

// myEnt is the application's own entity representation.
type myEnt struct {
	name, content string
	typ           int
	checked       bool
}

func (e *myEnt) Name() string    { return e.name }
func (e *myEnt) SetOrig(string)  {}
func (e *myEnt) EntityType() int { return e.typ }
func (e *myEnt) Content() []byte { return []byte(e.content) }
func (e *myEnt) Checked() bool   { return e.checked }
func (e *myEnt) MarkChecked()    { e.checked = true }

// kinds lists the callbacks that can be left out, in the order of bits.
var kinds = []string{"locator", "startdoc", "enddoc", "pi", "start", "end", "text", "space", "cdata", "comment",
	"intsubset", "extsubset", "elemdecl", "attdecl", "entdecl", "ref"}

// SAX makes the callback structure of the sax package with the handlers in
// set (nil: all).
func (r *Rec) SAX(set map[string]bool) *sax.SAX2 {
	h := sax.New()
	for _, k := range kinds {
		if set == nil || set[k] {
			r.Set(h, k, true)
		}
	}
	h.GetEntityHandler = r.GetEntity
	h.GetParameterEntityHandler = r.GetParameterEntity
	h.NotationDeclHandler = r.NotationDecl
	h.UnparsedEntityDeclHandler = r.UnparsedEntityDecl
	h.ErrorHandler = r.Error
	return h
}

// Set adds or removes one handler.
func (r *Rec) Set(h *sax.SAX2, k string, on bool) {
	switch k {
	case "locator":
		h.SetDocumentLocatorHandler = nil
		if on {
			h.SetDocumentLocatorHandler = r.SetDocumentLocator
		}
	case "startdoc":
		h.StartDocumentHandler = nil
		if on {
			h.StartDocumentHandler = r.StartDocument
		}
	case "enddoc":
		h.EndDocumentHandler = nil
		if on {
			h.EndDocumentHandler = r.EndDocument
		}
	case "pi":
		h.ProcessingInstructionHandler = nil
		if on {
			h.ProcessingInstructionHandler = r.ProcessingInstruction
		}
	case "start":
		h.StartElementNSHandler = nil
		if on {
			h.StartElementNSHandler = r.StartElementNS
		}
	case "end":
		h.EndElementNSHandler = nil
		if on {
			h.EndElementNSHandler = r.EndElementNS
		}
	case "text":
		h.CharactersHandler = nil
		if on {
			h.CharactersHandler = r.Characters
		}
	case "space":
		h.IgnorableWhitespaceHandler = nil
		if on {
			h.IgnorableWhitespaceHandler = r.IgnorableWhitespace
		}
	case "cdata":
		h.CDataBlockHandler = nil
		if on {
			h.CDataBlockHandler = r.CDataBlock
		}
	case "comment":
		h.CommentHandler = nil
		if on {
			h.CommentHandler = r.Comment
		}
	case "intsubset":
		h.InternalSubsetHandler = nil
		if on {
			h.InternalSubsetHandler = r.InternalSubset
		}
	case "extsubset":
		h.ExternalSubsetHandler = nil
		if on {
			h.ExternalSubsetHandler = r.ExternalSubset
		}
	case "elemdecl":
		h.ElementDeclHandler = nil
		if on {
			h.ElementDeclHandler = r.ElementDecl
		}
	case "attdecl":
		h.AttributeDeclHandler = nil
		if on {
			h.AttributeDeclHandler = r.AttributeDecl
		}
	case "entdecl":
		h.EntityDeclHandler = nil
		if on {
			h.EntityDeclHandler = r.EntityDecl
		}
	case "ref":
		h.ReferenceHandler = nil
		if on {
			h.ReferenceHandler = r.Reference
		}
	}
}

// norm merges adjacent text and maps whitespace reports to text. What is not
// white space stays apart: it must not be reported as if it were.
func norm(l []Ev) []Ev {
	var o []Ev
	for _, e := range l {
		if e.K == "space" && len(e.A) > 0 && strings.Trim(e.A[0], " \t\r\n") == "" {
			e.K = "text"
		}
		if e.K == "text" {
			if len(e.A) > 0 && e.A[0] == "" {
				continue
			}
			if n := len(o); n > 0 && o[n-1].K == "text" {
				o[n-1] = Ev{K: "text", A: []string{o[n-1].A[0] + e.A[0]}, Beg: o[n-1].Beg, End: e.End}
				continue
			}
		}
		o = append(o, e)
	}
	return o
}

// diffEvs describes the first difference ("" when equal).
func diffEvs(want, got []Ev) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) {
			return fmt.Sprintf("event %d: extra %v", i, got[i])
		}
		if i >= len(got) {
			return fmt.Sprintf("event %d: missing %v", i, want[i])
		}
		if !evEq(want[i], got[i]) {
			return fmt.Sprintf("event %d: want %v, got %v", i, want[i], got[i])
		}
	}
	return ""
}

// Outcome is everything observable about one parse.
type Outcome struct {
	Evs   []Ev // normalized
	Raw   []Ev
	Doc   *helium.Document
	Err   error
	Panic interface{}
	XML   string // of Doc
	XErr  string
	Rec   *Rec
}

func (o *Outcome) errText() string {
	if o.Panic != nil {
		return fmt.Sprintf("panic: %v", o.Panic)
	}
	if o.Err == nil {
		return ""
	}
	return o.Err.Error()
}

// guard runs f and returns what it panicked with; the simulator's own
// unwinding passes through.
func guard(f func()) (p interface{}) {
	if zzsim.Active() {
		return bare(f)
	}
	// what is called may start goroutines
	if v := ended(zzsim.Aside(func() { p = bare(f) })); v != nil && p == nil {
		p = v.Detail
	}
	return p
}

func bare(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if zzsim.IsAbort(r) {
				panic(r)
			}
			if _, ok := r.(runtime.Error); ok {
				// where from: said with the panic
				buf := make([]byte, 8<<10)
				p = rtPanic{r, digest(string(buf[:runtime.Stack(buf, false)]))}
				return
			}
			p = r
		}
	}()
	f()
	return nil
}

// rtPanic is a run-time panic and where it came from.
type rtPanic struct {
	v     interface{}
	where string
}

func (p rtPanic) String() string { return fmt.Sprintf("%v in %s", p.v, p.where) }

// modes of parsing
const (
	modeSAX  = 0 // only callbacks
	modeTree = 1 // callbacks in front of a TreeBuilder
	modeFree = 2 // helium.Parse, no callbacks seen
)

// parse runs one parse with a recorder.
func parse(p *helium.Parser, mode int, in []byte, r *Rec) *Outcome {
	if p == nil {
		p = helium.NewParser()
	}
	o := &Outcome{Rec: r}
	o.Panic = guard(func() {
		switch mode {
		case modeSAX:
			p.SetSAXHandler(r.SAX(nil))
			o.Doc, o.Err = p.Parse(in)
		case modeTree:
			r.inner = helium.NewTreeBuilder()
			p.SetSAXHandler(r)
			o.Doc, o.Err = p.Parse(in)
		default:
			o.Doc, o.Err = p.Parse(in)
		}
	})
	o.finish(mode)
	return o
}

func (o *Outcome) finish(mode int) {
	if o.Rec != nil {
		o.Raw = o.Rec.Raw
		o.Evs = norm(o.Rec.Raw)
	}
	if o.Doc != nil && mode != modeSAX {
		o.XML, o.XErr = xmlOf(o.Doc)
	}
}

// xmlOf serializes a document; a panic is an error of its own kind.
func xmlOf(d *helium.Document) (x, e string) {
	if p := guard(func() {
		var err error
		if x, err = d.XMLString(); err != nil {
			e = err.Error()
		}
	}); p != nil {
		e = fmt.Sprintf("panic: %v", p)
	}
	return x, e
}

// diffOut compares two outcomes of parsing the same thing.
func diffOut(a, b *Outcome) string {
	if (a.Err == nil) != (b.Err == nil) || a.errText() != b.errText() {
		return fmt.Sprintf("error %q became %q", a.errText(), b.errText())
	}
	if d := diffEvs(a.Evs, b.Evs); d != "" {
		return d
	}
	if (a.Doc == nil) != (b.Doc == nil) {
		return fmt.Sprintf("document returned: %v became %v", a.Doc != nil, b.Doc != nil)
	}
	if a.XML != b.XML || a.XErr != b.XErr {
		return fmt.Sprintf("document %q %s became %q %s", clip(a.XML), a.XErr, clip(b.XML), b.XErr)
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:200] + "…" + s[len(s)-80:]
	}
	return s
}
