package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"runtime"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zzsim"
)

func init() {
	register(&Prop{ID: "C04", Quick: 700000, Run: runC04,
		Rule: "documents with every kind of callback; one callback, chosen by number or kind, returns one of 14 error values or panics, before or after a tree builder got the event, in pure SAX, in front of a tree builder, and inside entity expansions, under drawn pool and map policies; one or several such parses share a parser."})
	register(&Prop{ID: "C05", Quick: 250000, Run: runC05,
		Rule: "a document generated together with the events it must produce is parsed with all handlers, random subsets, subsets that change in the middle, in front of a tree builder and without callbacks, under drawn pool and map policies."})
	register(&Prop{ID: "C06", Quick: 400000, Run: runC06,
		Rule: "a handler keeps everything it is given without copying (or overwrites and extends the slices) while pools recycle poisoned buffers; what it kept is compared in the middle of the parse, after it, and after later parses that may fail or panic."})
	register(&Prop{ID: "C07", Quick: 800000, Run: runC07,
		Rule: "documents damaged by 1 to 4 storage or transit faults (truncation, bit flips, lost, duplicated, reordered, misdirected, zeroed and garbage bytes), parsed with a bound on executed statements."})
	register(&Prop{ID: "C08", Quick: 300000, Run: runC08,
		Rule: "a generated document is cut at points before the end of its root element, biased to token boundaries and the middle of multi-byte characters and markup."})
	register(&Prop{ID: "C10", Quick: 200000, Run: runC10,
		Rule: "a parser executes 2 to 6 parses: good, damaged, stopped by a handler's error, unwound by its panic, with different handlers; other parsers run in between; every outcome is compared with that of a new parser."})
	register(&Prop{ID: "C12", Quick: 250000, Run: runC12,
		Rule: "the same parse (good, damaged or stopped) and dump repeated under three different pool policies, map orders and memory states with garbage collections in between; everything observable is compared."})
	register(&Prop{ID: "C15", Quick: 200000, Run: runC15,
		Rule: "inside a random callback (or Write call) of an outer operation nested parses with new parsers or the same one, dumps of finished documents, and nested operations that fail or panic are executed; both levels are compared with their solo outcome."})
}

// fits checks an outcome of an undamaged, unhindered parse against the model.
func fits(p *Plan, o *Outcome) *Violation {
	if v := sane(p, o); v != nil {
		return v
	}
	if o.Err != nil {
		return viol("rejected", "%v: a well-formed document was rejected: %v\n%s", p, o.Err, clip(string(p.In)))
	}
	if p.Mode != modeFree {
		want := norm(drop(p.Model.Evs, p.Drop))
		if d := diffEvs(want, o.Evs); d != "" {
			return viol("events", "%v: %s\n%s", p, d, clip(string(p.In)))
		}
	}
	if p.Mode != modeSAX {
		if o.Doc == nil {
			return viol("no document", "%v: neither document nor error", p)
		}
		if o.XErr != "" {
			return viol("dump", "%v: the document cannot be serialized: %s", p, o.XErr)
		}
	}
	return nil
}

func drop(l []Ev, d map[string]bool) []Ev {
	if len(d) == 0 {
		return l
	}
	var o []Ev
	for _, e := range l {
		if !d[e.K] {
			o = append(o, e)
		}
	}
	return o
}

// --- C04

func runC04(s *Src, c *Ctx) *Violation {
	n := 1
	if s.Chance(35) {
		n = 2 + s.N(2)
	}
	var ps []*Plan
	for i := 0; i < n; i++ {
		p := drawPlan(s, c, fmt.Sprintf("parse %d", i), 0, 0)
		drawFail(s, c, p, p.Model)
		ps = append(ps, p)
	}
	var outs []*Outcome
	sz := 0
	for _, p := range ps {
		sz += len(p.In)
	}
	shared := s.Chance(50)
	r := c.solo(drawPol(s), budget(sz), func() {
		var ps0 *helium.Parser
		if shared {
			ps0 = helium.NewParser()
		}
		for _, p := range ps {
			outs = append(outs, p.Exec(ps0))
		}
	})
	if v := ended(r); v != nil {
		return v
	}
	for i, p := range ps {
		o := outs[i]
		noteFail(c, p, o)
		c.note("%v -> %s", p, clip2(o.errText(), 120))
		if !o.Rec.Fired {
			if v := fits(p, o); v != nil {
				return v
			}
			continue
		}
		if v := sane(p, o); v != nil {
			return v
		}
		if o.Doc != nil {
			return viol("document", "%v: a document was returned although a callback failed", p)
		}
		// what was delivered before is what belongs there
		want, got := norm(p.Model.Evs), o.Evs
		if len(got) > len(want) {
			return viol("events", "%v: more events than the document has", p)
		}
		for j, e := range got {
			if j == len(got)-1 && e.K == "text" && want[j].K == "text" && len(want[j].A[0]) >= len(e.A[0]) && want[j].A[0][:len(e.A[0])] == e.A[0] {
				continue
			}
			if !evEq(want[j], e) {
				return viol("events", "%v: event %d before the failure: want %v, got %v", p, j, want[j], e)
			}
		}
		if p.Panic {
			if o.Panic == nil {
				return viol("panic lost", "%v: the callback's panic did not reach the caller, error %v", p, o.Err)
			}
			if !eq(o.Panic, p.Err) {
				return viol("panic changed", "%v: the caller saw another panic: %v", p, o.Panic)
			}
			continue
		}
		if o.Err == nil {
			return viol("error lost", "%v: the callback's error %q was dropped: Parse succeeded", p, p.Err.Error())
		}
		if !carries(o.Err, p.Err) {
			return viol("error changed", "%v: Parse's error %q does not carry the callback's %q", p, o.Err, p.Err)
		}
	}
	return nil
}

// --- C05

func runC05(s *Src, c *Ctx) *Violation {
	m := genDoc(s, c)
	var ps []*Plan
	add := func(name string, mode int, direct bool) *Plan {
		p := &Plan{Name: name, In: m.Bytes, Model: m, Mode: mode, FailAt: -1, Direct: direct}
		ps = append(ps, p)
		return p
	}
	add("all handlers", modeSAX, false)
	if s.Chance(40) {
		add("own handler type", modeSAX, true)
	}
	add("with tree", modeTree, false)
	add("tree only", modeFree, false)
	for i, n := 0, 1+s.N(2); i < n; i++ {
		p := add("subset", modeSAX, false)
		p.Drop = map[string]bool{}
		for _, k := range kinds {
			if s.Chance(30) {
				p.Drop[k] = true
			}
		}
		p.Drop["space"] = p.Drop["text"]
		// without declarations being seen entities cannot be looked up
		if p.Drop["entdecl"] && (m.Feat["entity"] || m.Feat["parameter entity"]) {
			p.Drop["entdecl"] = false
		}
		if len(p.Drop) > 0 {
			c.fault("handlers missing")
		}
	}
	var tog *toggler
	if s.Chance(50) {
		p := add("changing subset", modeSAX, false)
		tog = newToggler(s, m)
		p.Hook = tog.hook
		c.fault("handlers changed while parsing")
	}
	var outs []*Outcome
	r := c.solo(drawPol(s), budget(len(m.Bytes)*(len(ps)+1)), func() {
		for _, p := range ps {
			outs = append(outs, p.Exec(nil))
		}
	})
	c.note("%s", clip2(string(m.Bytes), 400))
	if v := ended(r); v != nil {
		return v
	}
	var free, tree *Outcome
	for i, p := range ps {
		o := outs[i]
		if p.Hook != nil {
			if v := sane(p, o); v != nil {
				return v
			}
			if o.Err != nil {
				return viol("rejected", "%v: a well-formed document was rejected: %v", p, o.Err)
			}
			if d := diffEvs(norm(tog.expect(m.Evs)), o.Evs); d != "" {
				return viol("events", "%v: %s\n%s", p, d, clip(string(p.In)))
			}
			continue
		}
		if v := fits(p, o); v != nil {
			return v
		}
		switch p.Mode {
		case modeTree:
			tree = o
		case modeFree:
			free = o
		}
	}
	if tree.XML != free.XML {
		return viol("tree", "watching the events changed the document: %q instead of %q", clip(tree.XML), clip(free.XML))
	}
	return nil
}

// toggler adds and removes handlers at anchors: events whose handlers stay.
type toggler struct {
	anchors map[string]bool
	at      map[int][]string // after anchor i these kinds change
	off     map[string]bool  // initially missing
	n       int
	cur     map[string]bool
}

func newToggler(s *Src, m *Model) *toggler {
	t := &toggler{anchors: map[string]bool{}, at: map[int][]string{}}
	all := []string{"start", "end", "pi", "comment", "intsubset", "startdoc"}
	for _, k := range all {
		if s.Chance(60) {
			t.anchors[k] = true
		}
	}
	cnt := 0
	for _, e := range m.Evs {
		if t.anchors[e.K] {
			cnt++
		}
	}
	var free []string
	for _, k := range kinds {
		if !t.anchors[k] && k != "space" && k != "entdecl" {
			free = append(free, k)
		}
	}
	for i, n := 0, 1+s.N(5); i < n; i++ {
		a := s.N(cnt + 1)
		t.at[a] = append(t.at[a], free[s.N(len(free))])
	}
	return t
}

func (t *toggler) hook(r *Rec, n int, kind string) {
	if t.cur == nil {
		t.cur = map[string]bool{}
	}
	if !t.anchors[kind] {
		return
	}
	for _, k := range t.at[t.n] {
		t.cur[k] = !t.cur[k]
		r.Set(r.h, k, !t.cur[k])
		if k == "text" {
			r.Set(r.h, "space", !t.cur[k])
		}
	}
	t.n++
}

func (t *toggler) expect(l []Ev) []Ev {
	off := map[string]bool{}
	var o []Ev
	n := 0
	for _, e := range l {
		if off[e.K] {
			continue
		}
		o = append(o, e)
		if t.anchors[e.K] {
			for _, k := range t.at[n] {
				off[k] = !off[k]
			}
			n++
		}
	}
	return o
}

// --- C06

func (r *Rec) intact() string {
	for _, k := range r.Kept {
		if string(k.b) != k.snap {
			return fmt.Sprintf("%s given as %q is now %q", k.kind, k.snap, k.b)
		}
	}
	for _, k := range r.KeptA {
		if g := k.get(); g != k.snap {
			return fmt.Sprintf("attributes given as %q are now %q", k.snap, g)
		}
	}
	return ""
}

func runC06(s *Src, c *Ctx) *Violation {
	p := drawPlan(s, c, "kept", 20, 0)
	if p.Mode == modeFree {
		p.Mode = modeSAX
	}
	p.Keep = true
	scrib := 0
	if s.Chance(40) {
		scrib = 1 + s.N(3)
		p.Keep = false
	}
	kept := p.Keep || scrib == scribExtend
	var bo *Outcome
	if scrib > 0 {
		var v *Violation
		if bo, v = c.base(p); v != nil {
			return v
		}
		if s.Chance(30) {
			zzsim.Reset()
		}
	}
	every := 1 + s.N(12)
	early := ""
	var rec *Rec
	p.Hook = func(r *Rec, n int, kind string) {
		rec = r
		if early == "" && n%every == every-1 && kept {
			if d := r.intact(); d != "" {
				early = fmt.Sprintf("in callback %d: %s", n, d)
			}
		}
	}
	var later []*Plan
	for i, n := 0, 1+s.N(3); i < n; i++ {
		later = append(later, drawPlan(s, c, "later", 25, 25))
	}
	var o *Outcome
	var lo []*Outcome
	var after []string
	sz := len(p.In)
	for _, l := range later {
		sz += len(l.In)
	}
	same := s.Chance(60)
	gc := s.Chance(5)
	r := c.solo(drawPol(s), budget(2*sz), func() {
		ps := helium.NewParser()
		o = execScribble(p, ps, scrib)
		if kept {
			after = append(after, o.Rec.intact())
		}
		for _, l := range later {
			if gc {
				runtime.GC()
			}
			if same {
				lo = append(lo, l.Exec(ps))
			} else {
				lo = append(lo, l.Exec(nil))
			}
			if kept {
				after = append(after, o.Rec.intact())
			}
		}
	})
	if v := ended(r); v != nil {
		return v
	}
	_ = rec
	noteFail(c, p, o)
	c.NonTriv = true
	c.note("%v, scribble %d, then %v: %s", p, scrib, later, clip2(string(p.In), 300))
	if early != "" {
		return viol("changed", "%v: %s", p, early)
	}
	for i, d := range after {
		if d != "" {
			return viol("changed", "%v: after %d later parses: %s", p, i, d)
		}
	}
	if v := sane(p, o); v != nil {
		return v
	}
	if scrib > 0 {
		c.fault([]string{"", "handler overwrites its slices", "handler extends its slices", "handler overwrites and extends its slices"}[scrib])
		if d := diffOut(bo, o); d != "" {
			return viol("disturbed", "%v: with a handler that changes the slices it gets: %s", p, d)
		}
	}
	if p.FailAt < 0 {
		if v := fits(p, o); v != nil {
			v.Detail += fmt.Sprintf(" (handler overwrote its slices: %v)", scrib > 0)
			return v
		}
	}
	for i, l := range later {
		noteFail(c, l, lo[i])
		if l.Model != nil && l.FailAt < 0 {
			if v := fits(l, lo[i]); v != nil {
				v.Detail += " (after another parse)"
				return v
			}
		}
	}
	return nil
}

// scribExtend is a handler that appends to its slices and keeps the result.
const scribExtend = 2

// execScribble executes p with a handler that overwrites the slices it gets.
func execScribble(p *Plan, ps *helium.Parser, how int) *Outcome {
	if how == 0 {
		return p.Exec(ps)
	}
	r := p.rec()
	after := r.After
	r.After = func(n int, kind string, data []byte) error {
		err := after(n, kind, data)
		switch how {
		case 1:
			for i := range data {
				data[i] = '#'
			}
		case scribExtend:
			ext := append(data, "<<scribble>>"...)
			r.Kept = append(r.Kept, kept{kind + " (extended)", string(ext), ext})
		default:
			for i := range data {
				data[i] = 0xff
			}
			full := data[:cap(data)]
			for i := range full {
				full[i] = 0xfe
			}
		}
		return err
	}
	o := &Outcome{Rec: r}
	o.Panic = guard(func() {
		ps.SetSAXHandler(p.handler(r))
		o.Doc, o.Err = ps.Parse(p.In)
	})
	o.finish(p.Mode)
	return o
}

// --- C07

// hard are inputs to damage that the generator does not make.
var hard = []string{
	`<!DOCTYPE a [<!ENTITY e "&e;">]><a b="&e;">&e;</a>`,
	`<!DOCTYPE a [<!ENTITY e "&f;"><!ENTITY f "&e;">]><a b="&e;">&f;</a>`,
	`<!DOCTYPE a [<!ENTITY e "<b>&f;</b>"><!ENTITY f "<c>x</c>&amp;">]><a>&e;&f;&e;</a>`,
	`<!DOCTYPE a [<!ENTITY % p "<!ENTITY e 'x'>">%p;]><a>&e;</a>`,
	`<!DOCTYPE a [<!ENTITY e SYSTEM "f"><!ENTITY u SYSTEM "g" NDATA n><!NOTATION n SYSTEM "n">]><a>&e;</a>`,
	`<!DOCTYPE a PUBLIC "p" "s" [<!ELEMENT a ((b|c)*,d+,(e?,f))>]><a/>`,
	`<!DOCTYPE a [<!ELEMENT a (#PCDATA|b|c)*><!ATTLIST a x (p|q) "p" y NOTATION (n|m) #IMPLIED z ENTITIES #IMPLIED>]><a x="q"/>`,
	`<!DOCTYPE a [<!ATTLIST a b CDATA "&lt;&#60;'x" c ID #REQUIRED d IDREFS "a b">]><a c="z">&lt;&#60;</a>`,
	`<?xml version="1.0" encoding="ISO-8859-1" standalone="yes"?><a>` + "\xe9" + `</a>`,
	`<?xml version="1.1" encoding="shift_jis"?><a/>`,
	"\xff\xfe<\x00a\x00/\x00>\x00", "\xfe\xff\x00<\x00a\x00/\x00>", "\xef\xbb\xbf<a/>", "\x00\x00\x00<",
	`<a xmlns="u" xmlns:p="v"><p:b p:c="d" e="f" xmlns:p="w"/></a>`,
	`<a xmlns:xml="x" xml:lang="e" xml:space="preserve"> <b/> </a>`,
	`<a><![CDATA[x]]]]><![CDATA[>]]></a>`, `<a>]]&gt;</a>`, `<a b='"' c="'" d="&quot;&apos;"/>`,
	`<!DOCTYPE a [<?pi x?><!--c-->]><a/>`, `<!DOCTYPE a [%undefined;]><a/>`, `<!DOCTYPE a [<![INCLUDE[<!ELEMENT a ANY>]]>]><a/>`,
	`<a>` + "\r\n\r" + `</a>`, `<?xml version="1.0"?><?xml-stylesheet href="x"?><a/>`, `<!DOCTYPE a SYSTEM "http://x/y.dtd"><a/>`,
	`<!DOCTYPE a [<!ENTITY e "]]>"><!ENTITY lt "&#38;#60;"><!ENTITY amp "&#38;#38;">]><a>&lt;&amp;&e;</a>`,
	`<!DOCTYPE a [<!ENTITY e "a<b c='&lt;'/>d">]><a x='&e;'>&e;</a>`,
	"<!DOCTYPE a [<!ATTLIST a x NMTOKENS #IMPLIED y ID #IMPLIED z (p|q) 'q' w ENTITY #IMPLIED>]><a x='\t' y='\r\n' z=' ' w='\n \n'/>",
	"<!DOCTYPE a [<!ATTLIST a x NMTOKENS ' \t\n' y CDATA '\t' z IDREFS ''>]><a x='&#9;' y='&#32;' z='&#x20; &#10;'/>",
	``, ` `, `<`, `<a`, `<!`, `<?`, `<!DOCTYPE`, `<!DOCTYPE a [`, `&`, `]]>`, `a`, `<a/><b/>`, `<a></b>`, `</a>`,
}

func runC07(s *Src, c *Ctx) *Violation {
	var in []byte
	name := "damaged"
	extra := 0
	if s.Chance(20) {
		in, extra = hostileDoc(s, c)
		if len(in) < 5000 && s.Chance(30) {
			m := &Model{Bytes: in}
			in = damage(s, c, m, 1+s.N(2))
		}
		name = "hostile"
	} else if s.Chance(25) {
		m := &Model{Bytes: []byte(hard[s.N(len(hard))])}
		for i := range m.Bytes {
			if x := m.Bytes[i]; x == '<' || x == '>' || x == '&' || x == ';' || x == '"' {
				m.Cuts = append(m.Cuts, i+1)
			}
		}
		if n := s.N(4); n > 0 {
			in = damage(s, c, m, n)
		} else {
			in = m.Bytes
			c.fault("hostile document")
		}
		name = "hostile"
	} else {
		m := genDoc(s, c)
		if s.Chance(10) {
			// a block of another document ends up in this one
			m2 := genDoc(s, c)
			i, j := s.N(len(m.Bytes)+1), s.N(len(m2.Bytes)+1)
			m = &Model{Bytes: append(append([]byte(nil), m.Bytes[:i]...), m2.Bytes[j:]...), Cuts: m.Cuts[:0]}
			c.fault("spliced")
		}
		in = damage(s, c, m, 1+s.N(4))
	}
	c.mark(strHash(string(in)))
	ps := []*Plan{{Name: name, In: in, Mode: modeFree, FailAt: -1}}
	switch s.N(3) {
	case 0:
		ps = append(ps, &Plan{Name: name, In: in, Mode: modeTree, FailAt: -1})
	case 1:
		ps = append(ps, &Plan{Name: name, In: in, Mode: modeSAX, FailAt: -1})
	default:
		ps = append(ps, &Plan{Name: name, In: in, Mode: modeSAX, FailAt: -1, Direct: true})
	}
	pol := drawPol(s)
	for _, p := range ps {
		var o *Outcome
		r := c.solo(pol, budget(len(in)+extra), func() { o = p.Exec(nil) })
		if v := ended(r); v != nil {
			v.Detail += fmt.Sprintf(" (%v: %q)", p, clip(string(in)))
			return v
		}
		c.note("%v %q -> %s", p, clip2(string(in), 200), clip2(o.errText(), 60))
		if v := sane(p, o); v != nil {
			v.Detail += fmt.Sprintf(" (%q)", clip(string(in)))
			return v
		}
		if o.Err == nil {
			c.tag("damage accepted")
		} else {
			c.tag("damage rejected")
		}
		if p.Mode == modeSAX {
			continue
		}
		if o.Err != nil && o.Doc != nil {
			return viol("both", "%v: document and error %v for %q", p, o.Err, clip(string(in)))
		}
		if o.Err == nil && o.Doc == nil {
			return viol("neither", "%v: neither document nor error for %q", p, clip(string(in)))
		}
		if o.XErr != "" {
			return viol("dump", "%v: the document returned for %q cannot be serialized: %s", p, clip(string(in)), o.XErr)
		}
	}
	return nil
}

// --- C08

func runC08(s *Src, c *Ctx) *Violation {
	m := genDoc(s, c)
	pol := drawPol(s)
	want := norm(m.Evs)
	for k, n := 0, 3+s.N(5); k < n; k++ {
		cut := 0
		switch s.N(3) {
		case 0:
			cut = m.Cuts[s.N(len(m.Cuts))] + s.N(7) - 3
		case 1:
			cut = m.RootEnd - 1 - s.N(12)
		default:
			cut = s.N(m.RootEnd)
		}
		if cut < 0 {
			cut = 0
		}
		if cut >= m.RootEnd {
			cut = m.RootEnd - 1
		}
		p := &Plan{Name: fmt.Sprintf("cut at %d of %d", cut, m.RootEnd), In: append([]byte(nil), m.Bytes[:cut]...), FailAt: -1, Mode: s.N(3), Direct: s.Chance(50)}
		c.fault("truncated")
		var o *Outcome
		r := c.solo(pol, budget(cut), func() { o = p.Exec(nil) })
		tail := m.Bytes[:cut]
		if len(tail) > 80 {
			tail = tail[len(tail)-80:]
		}
		if v := ended(r); v != nil {
			v.Detail += fmt.Sprintf(" (%v: …%q)", p, tail)
			return v
		}
		if v := sane(p, o); v != nil {
			return v
		}
		c.note("%v …%q -> %s", p, clip2(string(tail), 60), clip2(o.errText(), 60))
		if o.Err == nil {
			return viol("accepted", "%v: accepted although the root element ends later: …%q", p, tail)
		}
		if o.Doc != nil {
			return viol("document", "%v: a document was returned: …%q", p, tail)
		}
		if p.Mode == modeFree {
			continue
		}
		if len(o.Evs) > len(want) {
			return viol("events", "%v: more events than the whole document has", p)
		}
		for j, e := range o.Evs {
			w := want[j]
			if e.K == "enddoc" {
				return viol("enddoc", "%v: end of document reported: …%q", p, tail)
			}
			if w.K == e.K && (w.K == "text" || w.K == "cdata") {
				x := e.A[0]
				last := j == len(o.Evs)-1
				if last && cut > 0 && m.Bytes[cut-1] == '\r' {
					x = strings.TrimSuffix(x, "\r") // half a line end
				}
				if len(x) <= len(w.A[0]) && w.A[0][:len(x)] == x && (last || len(x) == len(w.A[0])) {
					if len(w.Seg) > 0 && len(x) > w.known(cut) {
						return viol("ahead", "%v: %d bytes of text reported, only %d are there: %q …%q", p, len(x), w.known(cut), clip(x), tail)
					}
					continue
				}
			}
			if !evEq(w, e) {
				return viol("events", "%v: event %d: the whole document has %v, got %v; …%q", p, j, w, e, tail)
			}
			if w.End > cut && e.K != "startdoc" && e.K != "locator" {
				return viol("incomplete", "%v: %v reported although it ends at %d: …%q", p, e, w.End, tail)
			}
		}
	}
	return nil
}

// --- C10

// near is in with some words exchanged by others of the same length,
// everywhere.
func near(s *Src, in []byte) []byte {
	b := append([]byte(nil), in...)
	isw := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= '0' && c <= '9' }
	for k := 1 + s.N(3); k > 0 && len(b) > 0; k-- {
		i := s.N(len(b))
		for n := 0; n < 40 && i < len(b)-1 && !isw(b[i]); n++ {
			i++
		}
		j := i
		for i > 0 && isw(b[i-1]) {
			i--
		}
		for j < len(b) && isw(b[j]) {
			j++
		}
		if i == j {
			continue
		}
		old := append([]byte(nil), b[i:j]...)
		repl := append([]byte(nil), old...)
		repl[s.N(len(repl))] = "abz01"[s.N(5)]
		b = bytes.Replace(b, old, repl, -1)
	}
	return b
}

func runC10(s *Src, c *Ctx) *Violation {
	var ps []*Plan
	n := 2 + s.N(5)
	for i := 0; i < n; i++ {
		fail, dam := 30, 30
		if i == n-1 {
			fail, dam = 10, 10
		}
		ps = append(ps, drawPlan(s, c, fmt.Sprintf("parse %d", i), fail, dam))
	}
	pristine := s.Chance(30)
	if s.Chance(30) { // the same input again
		ps[n-1].In, ps[n-1].Model = ps[0].In, ps[0].Model
		if s.Chance(40) { // or almost
			ps[n-1].In, ps[n-1].Model = near(s, ps[0].In), nil
			pristine = true
			c.tag("history with an almost equal input")
		}
	}
	var base []*Outcome
	sz := 0
	for _, p := range ps {
		if pristine { // as in a new process
			zzsim.Reset()
		}
		o, v := c.base(p)
		if v != nil {
			v.Detail += fmt.Sprintf(" (%v alone)", p)
			return v
		}
		base = append(base, o)
		sz += len(p.In)
	}
	if pristine {
		zzsim.Reset()
		c.tag("expectations from new processes")
	}
	if s.Chance(3) { // one of them, or some in turn, many times before the last one
		var mp []*Plan
		var mb []*Outcome
		k, msz := 1+s.N(2), 0
		for i, m := 0, manyTimes(s, 3*sz/n+300); i < m; i++ {
			j := i % k % (n - 1)
			mp, mb = append(mp, ps[j]), append(mb, base[j])
			msz += len(ps[j].In)
		}
		mp, mb = append(mp, ps[n-1]), append(mb, base[n-1])
		ps, base, n, sz = mp, mb, len(mp), msz+len(ps[n-1].In)
		c.tag("long history")
	}
	who := make([]int, n)
	for i := range who {
		who[i] = []int{0, 0, 0, 1, 2}[s.N(5)]
	}
	keep := s.Chance(30) // the handler is not set again when it is the default
	var outs []*Outcome
	r := c.solo(drawPol(s), budget(2*sz), func() {
		ps0, ps1 := helium.NewParser(), helium.NewParser()
		treeSet := map[int]bool{0: true, 1: true}
		for i, p := range ps {
			switch who[i] {
			case 0, 1:
				x := []*helium.Parser{ps0, ps1}[who[i]]
				if keep && p.Mode == modeFree && treeSet[who[i]] {
					o := &Outcome{}
					o.Panic = guard(func() { o.Doc, o.Err = x.Parse(p.In) })
					o.finish(modeFree)
					outs = append(outs, o)
					continue
				}
				treeSet[who[i]] = p.Mode == modeFree
				outs = append(outs, p.Exec(x))
			default:
				outs = append(outs, p.Exec(nil))
			}
		}
	})
	if v := ended(r); v != nil {
		return v
	}
	c.NonTriv = true
	if n > 8 {
		c.note("%d parses, first %v", n, ps[0])
	} else {
		c.note("%v", ps)
	}
	for i, p := range ps {
		noteFail(c, p, outs[i])
		if outs[i].Rec != nil && len(outs[i].Rec.Late) > 0 {
			return sane(p, outs[i])
		}
		if p.FailAt < 0 && p.Model != nil {
			if v := fits(p, outs[i]); v != nil {
				v.Detail += fmt.Sprintf(" (parse %d of %d)", i, n)
				return v
			}
		}
		if d := diffOut(base[i], outs[i]); d != "" {
			return viol("history", "%v: after %d other parses: %s", p, i, d)
		}
	}
	// documents of earlier parses are still what they were
	for i, o := range outs {
		if o.Doc != nil && ps[i].Mode != modeSAX {
			x, e := xmlOf(o.Doc)
			if e != o.XErr || x != o.XML {
				return viol("document changed", "%v: its document changed during later parses: %q became %q (%s %s)", ps[i], clip(o.XML), clip(x), o.XErr, e)
			}
		}
	}
	return nil
}

// --- C12

func runC12(s *Src, c *Ctx) *Violation {
	p := drawPlan(s, c, "parse", 15, 45)
	var first *Outcome
	for k := 0; k < 3; k++ {
		cfg := drawPol(s)
		if k == 0 {
			cfg = calm
		} else {
			cfg.MapMode = 1
			c.fault("other map order")
			cfg.Clock = []int64{0, 1e6, 3e9, 86400e9, 1e17}[s.N(5)] + int64(s.N(1000))
			c.fault("clock jumped")
			if cfg.Tick = []int64{1000, 1, 1e6, 1e9}[s.N(4)]; cfg.Tick > 1000 {
				c.fault("slow machine")
			}
			if s.Chance(40) { // as in another process
				zzsim.InitSeed(s.Seed())
				zzsim.Reset()
				c.fault("process restarted")
			}
			c.fault(fmt.Sprintf("pool policy %d", cfg.PoolMode))
		}
		warm := s.N(3)
		gc := s.Chance(4)
		var wp *Plan
		if k > 0 && warm > 0 {
			wp = drawPlan(s, c, "warm-up", 20, 30)
		}
		var o *Outcome
		var again string
		sz := len(p.In)
		if wp != nil {
			sz += len(wp.In)
		}
		r := c.solo(cfg, budget(2*sz), func() {
			if wp != nil { // fills the pools
				wp.Exec(nil)
			}
			if gc {
				runtime.GC()
				c.fault("garbage collection")
			}
			o = p.Exec(nil)
			if o.Doc != nil && p.Mode != modeSAX {
				if x, e := xmlOf(o.Doc); e == "" {
					again = x
				}
			}
		})
		if v := ended(r); v != nil {
			return v
		}
		if o.Doc != nil && p.Mode != modeSAX && o.XErr == "" && again != o.XML {
			return viol("dump", "%v: dumping twice gave %q and %q", p, clip(o.XML), clip(again))
		}
		if k == 0 {
			first = o
			c.note("%v %s -> %s", p, clip2(string(p.In), 300), clip2(o.errText(), 80))
			continue
		}
		if d := diffOut(first, o); d != "" {
			return viol("differs", "%v: the same parse under another memory and map state: %s", p, d)
		}
		if d := diffEvs(first.Raw, o.Raw); d != "" {
			return viol("differs", "%v: raw events: %s", p, d)
		}
		if fmt.Sprint(first.Panic) != fmt.Sprint(o.Panic) {
			return viol("differs", "%v: panic %v became %v", p, first.Panic, o.Panic)
		}
	}
	return nil
}

// --- C15

// swapper is a handler whose target changes for nested parses of one parser.
type swapper struct {
	sax.SAX2Handler
}

// tower is a parse inside of a callback of a parse inside of a callback, and
// so on, or the same with dumps and calls of Write.
func tower(s *Src, c *Ctx) *Violation {
	var ps []*Plan
	var base []*Outcome
	sz := 0
	for i, n := 0, 1+s.N(3); i < n; i++ {
		p := drawPlan(s, c, fmt.Sprintf("level %d", i), 20, 15)
		o, v := c.base(p)
		if v != nil {
			return v
		}
		ps, base, sz = append(ps, p), append(base, o), sz+len(p.In)
	}
	depth := []int{3, 6, 12, 20, 45, 70, 110}[s.N(7)]
	if max := 100000 / (sz/len(ps) + 1); depth > max {
		depth = max + 2
	}
	// how the parser of a level comes about, and when the next level starts
	same, at, lookup := s.Chance(50), make([]int, depth), s.Chance(20)
	for i := range at {
		at[i] = s.N(len(ps[i%len(ps)].Model1().Evs))
		if s.Chance(25) {
			at[i] = s.N(3)
		}
	}
	outs := make([]*Outcome, depth)
	var docs []*helium.Document
	var want []string
	var bad string
	dumps := s.Chance(25)
	if !dumps && s.Chance(30) {
		zzsim.Reset() // as the first thing a process does
	}
	r := c.solo(drawPol(s), budget(2*depth*(sz/len(ps)+1))+4000000, func() {
		if dumps {
			for i := range ps {
				if base[i].Doc != nil && ps[i].Mode != modeSAX && base[i].XErr == "" {
					docs, want = append(docs, base[i].Doc), append(want, base[i].XML)
				}
			}
			if len(docs) == 0 {
				return
			}
			var level func(i int)
			level = func(i int) {
				k := i % len(docs)
				done := false
				w := &hookW{}
				w.hook = func() {
					if !done && w.n > at[i]%7 && i+1 < depth {
						done = true
						level(i + 1)
					}
				}
				if err := docs[k].XML(w); (err != nil || string(w.buf) != want[k]) && bad == "" {
					bad = fmt.Sprintf("dump at level %d of %d gave %q (%v), not %q", i, depth, clip(string(w.buf)), err, clip(want[k]))
				}
			}
			level(0)
			c.fault("tower of dumps")
			return
		}
		shared := helium.NewParser()
		sw := &swapper{}
		shared.SetSAXHandler(sw)
		var level func(i int)
		level = func(i int) {
			p := *ps[i%len(ps)]
			if p.Mode == modeFree {
				p.Mode = modeTree
			}
			next := func(rec *Rec) {
				if i+1 < depth && outs[i+1] == nil {
					level(i + 1)
				}
			}
			p.Hook = func(rec *Rec, n int, kind string) {
				if n == at[i] && !lookup {
					next(rec)
				}
			}
			rec := p.rec()
			if lookup {
				rec.OnLookup = func() { next(rec) }
			}
			o := &Outcome{Rec: rec}
			outs[i] = o
			h := p.handler(rec)
			o.Panic = guard(func() {
				if same {
					old := sw.SAX2Handler
					sw.SAX2Handler = h
					defer func() { sw.SAX2Handler = old }()
					o.Doc, o.Err = shared.Parse(p.In)
					return
				}
				x := helium.NewParser()
				x.SetSAXHandler(h)
				o.Doc, o.Err = x.Parse(p.In)
			})
			o.finish(p.Mode)
		}
		level(0)
	})
	if v := ended(r); v != nil {
		return v
	}
	if bad != "" {
		return viol("nested dump", "%s", bad)
	}
	c.NonTriv = true
	n := 0
	for i, o := range outs {
		if o == nil {
			continue
		}
		n++
		p := ps[i%len(ps)]
		b := base[i%len(ps)]
		if p.Mode == modeFree { // was run with a recorder
			b = &Outcome{Doc: b.Doc, Err: b.Err, Panic: b.Panic, XML: b.XML, XErr: b.XErr}
			o.Evs, o.Raw, o.Rec = nil, nil, nil
		}
		if o.Rec != nil {
			noteFail(c, p, o)
		}
		if v := sane(p, o); v != nil {
			return v
		}
		if d := diffOut(b, o); d != "" {
			return viol("nested", "%v at level %d of %d: %s", p, i, depth, d)
		}
	}
	if n > 1 {
		c.fault(fmt.Sprintf("nested operation, %d levels or more", 1<<uint(bits.Len(uint(n))-1)))
	}
	c.note("tower of %d, reached %d, of %v", depth, n, ps)
	return nil
}

func runC15(s *Src, c *Ctx) *Violation {
	if s.Chance(8) {
		return tower(s, c)
	}
	outer := drawPlan(s, c, "outer", 15, 10)
	dumpOuter := s.Chance(30)
	everyCall := s.Chance(30) // a dump in every call of Write
	var docs []*helium.Document
	var docXML []string
	sz := len(outer.In)
	nd := 1 + s.N(2)
	var recipes []*recipe
	for i := 0; i < nd; i++ {
		r := drawRecipe(s, c)
		recipes = append(recipes, r)
		if r.in != nil {
			sz += len(r.in.Bytes)
		}
	}
	type nest struct {
		at   int
		kind int
		p    *Plan
		same bool
		fail int
		with bool // the nested parse has the outer one's tree builder
	}
	var nests []*nest
	for i, n := 0, 1+s.N(3); i < n; i++ {
		x := &nest{at: s.N(2 + 2*len(outer.Model1().Evs)), kind: s.N(4), same: s.Chance(40), with: s.Chance(50)}
		if x.kind < 3 {
			x.p = drawPlan(s, c, fmt.Sprintf("nested %d", i), 30, 20)
			if s.Chance(30) { // what is being parsed, inside itself
				x.p.In, x.p.Model = outer.In, outer.Model
			}
			sz += len(x.p.In)
		} else {
			x.fail = s.N(40)
		}
		nests = append(nests, x)
	}
	bo, v := c.base(outer)
	if v != nil {
		return v
	}
	var bn []*Outcome
	for _, x := range nests {
		var o *Outcome
		if x.p != nil {
			if o, v = c.base(x.p); v != nil {
				return v
			}
		}
		bn = append(bn, o)
	}
	no := make([]*Outcome, len(nests))
	bad := ""
	if outer.Mode == modeFree && !dumpOuter {
		outer.Mode = modeTree
		if bo, v = c.base(outer); v != nil {
			return v
		}
	}
	if s.Chance(30) {
		zzsim.Reset() // as the first thing a process does
	}
	calls := 0
	var oo *Outcome
	parser := helium.NewParser()
	var sw *swapper
	var outerRec *Rec
	nestDo := func(n int) {
		for i, x := range nests {
			if x.at != n || no[i] != nil {
				continue
			}
			c.fault("nested operation")
			if x.kind == 3 {
				no[i] = &Outcome{}
				d := docs[x.fail%len(docs)]
				if x.fail%3 == 0 {
					guard(func() { d.XML(&faultW{at: x.fail, err: plainErr{1}}) })
					continue
				}
				y, err := d.XMLString()
				if err != nil || y != docXML[x.fail%len(docs)] {
					bad = fmt.Sprintf("nested dump gave %q (%v)", clip(y), err)
				}
				continue
			}
			if x.same && sw != nil {
				// the same parser: its handler serves the nested parse meanwhile
				c.fault("nested parse on the same parser")
				r := x.p.rec()
				o := &Outcome{Rec: r}
				old := sw.SAX2Handler
				var h sax.SAX2Handler
				if x.p.Mode == modeFree {
					h = helium.NewTreeBuilder()
					if x.with && outerRec.inner != nil {
						h = outerRec.inner
					}
				} else {
					h = x.p.handler(r)
					if x.with && x.p.Mode == modeTree && outerRec.inner != nil {
						r.inner = outerRec.inner
					}
				}
				sw.SAX2Handler = h
				o.Panic = guard(func() { o.Doc, o.Err = parser.Parse(x.p.In) })
				sw.SAX2Handler = old
				o.finish(x.p.Mode)
				if x.p.Mode == modeFree {
					o.Rec, o.Evs, o.Raw = nil, nil, nil
				}
				no[i] = o
				continue
			}
			if x.with && x.p.Mode != modeSAX && outerRec != nil && outerRec.inner != nil {
				// another parser, the same tree builder
				c.fault("nested parse with the same tree builder")
				r := x.p.rec()
				o := &Outcome{Rec: r}
				h := outerRec.inner
				if x.p.Mode == modeTree {
					r.inner = h
					h = r
				}
				o.Panic = guard(func() {
					np := helium.NewParser()
					np.SetSAXHandler(h)
					o.Doc, o.Err = np.Parse(x.p.In)
				})
				o.finish(x.p.Mode)
				if x.p.Mode == modeFree {
					o.Rec, o.Evs, o.Raw = nil, nil, nil
				}
				no[i] = o
				continue
			}
			no[i] = x.p.Exec(nil)
		}
	}
	r := c.solo(drawPol(s), budget(3*sz)+int64(4000000), func() {
		ncalls := 0
		for _, r := range recipes {
			var d, ref *helium.Document
			if d, ref, v = r.pair(s, c); v != nil {
				return
			}
			w := &hookW{hook: func() {}}
			var err error
			if p := guard(func() { err = ref.XML(w) }); p != nil || err != nil {
				continue // cannot be dumped
			}
			if len(docs) == 0 {
				ncalls = w.n
			}
			docs = append(docs, d)
			docXML = append(docXML, string(w.buf))
		}
		if len(docs) == 0 {
			return
		}
		if dumpOuter {
			for _, x := range nests {
				x.at %= ncalls + 1
			}
			w := &hookW{hook: func() {
				nestDo(calls)
				calls++
				if everyCall && calls < 150 && bad == "" {
					k := calls % len(docs)
					if y, err := docs[k].XMLString(); err != nil || y != docXML[k] {
						bad = fmt.Sprintf("dump inside of Write gave %q (%v)", clip(y), err)
					}
				}
			}}
			err := docs[0].XML(w)
			if err != nil || string(w.buf) != docXML[0] {
				bad = fmt.Sprintf("dump with nested operations in Write gave %q (%v)", clip(string(w.buf)), err)
			}
			return
		}
		outer.Hook = func(rec *Rec, n int, kind string) { nestDo(2 * n) }
		rec := outer.rec()
		outerRec = rec
		oo = &Outcome{Rec: rec}
		rec.OnLookup = func() { nestDo(2*rec.Calls + 1) }
		sw = &swapper{outer.handler(rec)}
		parser.SetSAXHandler(sw)
		oo.Panic = guard(func() { oo.Doc, oo.Err = parser.Parse(outer.In) })
		oo.finish(outer.Mode)
	})
	if v := ended(r); v != nil {
		return v
	}
	c.note("outer %v, nested %d", outer, len(nests))
	if bad != "" {
		return viol("nested dump", "%s", bad)
	}
	if v != nil || len(docs) == 0 {
		return v
	}
	if oo != nil {
		if v := sane(outer, oo); v != nil {
			return v
		}
		if d := diffOut(bo, oo); d != "" {
			return viol("outer", "%v: with nested operations: %s", outer, d)
		}
	}
	for i, x := range nests {
		if no[i] == nil || x.p == nil {
			continue
		}
		noteFail(c, x.p, no[i])
		if v := sane(x.p, no[i]); v != nil {
			return v
		}
		if d := diffOut(bn[i], no[i]); d != "" {
			return viol("nested", "%v inside of %v: %s", x.p, outer, d)
		}
	}
	return nil
}

// Model1 is the model or an empty one.
func (p *Plan) Model1() *Model {
	if p.Model != nil {
		return p.Model
	}
	return &Model{Evs: make([]Ev, 10)}
}

// hookW runs something inside of Write.
type hookW struct {
	buf  []byte
	n    int
	hook func()
}

func (w *hookW) Write(b []byte) (int, error) {
	zzsim.Yield()
	w.buf = append(w.buf, b...)
	w.n++
	w.hook()
	return len(b), nil
}
