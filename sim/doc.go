package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
)

// Ev is one event of a parse, as a handler sees it. K is the kind, A the
// arguments rendered as strings.
type Ev struct {
	K   string
	A   []string
	End int // in a model: offset of the byte behind the construct
	Beg int // in a model: offset at which the first byte of the value may be known
	Seg []Seg
}

// Seg is a piece of text in a model: N bytes of it are known when the input up
// to End is, and one by one from Beg on.
// In another encoding than UTF-8 a byte can be up to three.
type Seg struct {
	Beg, End, N int
	Enc         bool
}

// known is how much of a text can be known from the first cut bytes.
func (e Ev) known(cut int) int {
	n := 0
	for _, s := range e.Seg {
		if cut >= s.End {
			n += s.N
		} else if cut > s.Beg {
			n += cut - s.Beg
			if s.Enc {
				n += 2 * (cut - s.Beg)
			}
			break
		} else {
			break
		}
	}
	return n
}

func (e Ev) String() string { return e.K + "(" + strings.Join(quoteAll(e.A), ",") + ")" }

func quoteAll(l []string) []string {
	o := make([]string, len(l))
	for i, s := range l {
		if len(s) > 60 {
			s = s[:40] + "…" + s[len(s)-15:]
		}
		o[i] = fmt.Sprintf("%q", s)
	}
	return o
}

func evEq(a, b Ev) bool {
	if a.K != b.K || len(a.A) != len(b.A) {
		return false
	}
	for i := range a.A {
		if a.A[i] != b.A[i] {
			return false
		}
	}
	return true
}

// Model is a generated document: its bytes, the events a handler must see,
// and what the generator knows about it.
type Model struct {
	Bytes   []byte
	Evs     []Ev
	RootEnd int   // offset behind the end of the root element
	Cuts    []int // offsets of token boundaries, for biased faults
	Feat    map[string]bool
	NElems  int
}

type entDef struct {
	Name string
	evs  []Ev // of a reference, itself excluded
	size int  // what it costs to parse
}

// GenOpt restricts what gen may use.
type GenOpt struct {
	MaxElems int
	NoDTD    bool
	NoEnt    bool
	NoCDATA  bool // TreeBuilder drops CDATA sections
	Big      bool // allow long texts
	Decl     bool // allow an XML declaration with encoding etc.
	Enc      bool // allow other encodings than UTF-8
}

type gen struct {
	s       *Src
	o       GenOpt
	b       bytes.Buffer
	m       *Model
	left    int
	ents    []entDef            // usable in content and attributes: plain text
	ments   []mentDef           // usable in content only: with markup
	defs    map[string][]defAtt // element -> defaults in declaration order
	elems   []string
	names   []string // of elements that are declared
	atts    []string
	ns      []nsDef
	dns     string // default namespace
	nsN     int
	npe     int
	npes    []string // parameter entities that are blank
	chain   int      // elements that only wrap the next one
	shallow int      // the depth at which content begins
	depth   int
	spent   int // on long values
	inEnt   bool
	enc     *docEnc
	types   map[string][]defAtt // element -> declared attributes and their types
}

type defAtt struct{ name, val string }
type mentDef struct {
	name string
	raw  string
	evs  []Ev
	size int
}
type nsDef struct{ prefix, uri string }

var elemNames = []string{"a", "b", "item", "doc", "p", "x1", "long-name.with_all", "é", "名前", "Z"}
var attNames = []string{"id", "k", "v", "a-b", "c.d", "lang", "ü", "属性", "q", "w", "e", "r", "t", "y"}
var words = []string{"x", "hello", "0", "a b", "é", "日本語", "😀", "long text with several words", "tail ", " lead", "\"", "'", "-", "]", "]]", "%", "#", ";", "/", "=", "!", "?", ")", "\u00a0", "foo\nbar", "foo\r\nbar", "\r\n", "\t", "~", "%pe;", "{}", "\\", "\u0085", "\ufffc", "\U0010fffd"}
var piTargets = []string{"pi", "xml-stylesheet", "php", "t", "goße"}
var piData = []string{"", "d", "href=\"a.css\" type='b'", "echo 1;", "? >", "é日", "a?b>c", "<x>&y;"}
var comments = []string{"c", "", " spaced ", "a-b", "<not a='tag'>", "é日本😀", "multi\nline", "&amp; &#65;", "]]>", "-x", "c\r\nd"}
var cdatas = []string{"c", "<x>&y;</x>", "]", "]]", "é日", "multi\nline", "&#65;", " ", "> ]> a", "q\r\n]]"}

func (g *gen) feat(f string) { g.m.Feat[f] = true }

func (g *gen) cut() { g.m.Cuts = append(g.m.Cuts, g.b.Len()) }

func (g *gen) w(s string) { g.b.WriteString(s) }

func (g *gen) ev(k string, a ...string) {
	g.m.Evs = append(g.m.Evs, Ev{K: k, A: a, End: g.b.Len()})
}

// eol is a text with its line ends as they are reported.
func eol(t string) string { return strings.Replace(t, "\r\n", "\n", -1) }

// text adds to the current text event (adjacent text is one event).
func (g *gen) text(s string, beg int) {
	s = eol(s)
	if s == "" {
		return
	}
	l := len(g.m.Evs)
	if l > 0 && g.m.Evs[l-1].K == "text" {
		e := &g.m.Evs[l-1]
		e.A[0] += s
		e.End = g.b.Len()
		e.Seg = append(e.Seg, Seg{Beg: beg, End: g.b.Len(), N: len(s)})
		return
	}
	g.m.Evs = append(g.m.Evs, Ev{K: "text", A: []string{s}, End: g.b.Len(), Beg: beg, Seg: []Seg{{Beg: beg, End: g.b.Len(), N: len(s)}}})
}

func (g *gen) space() string {
	return []string{" ", "\n", "  ", "\t", " \n ", "\r\n"}[g.s.N(6)]
}
func (g *gen) optSpace() string {
	if g.s.Chance(25) {
		return g.space()
	}
	return ""
}

// Gen makes a document.
func Gen(s *Src, o GenOpt) *Model {
	if o.MaxElems == 0 {
		o.MaxElems = 12
	}
	g := &gen{s: s, o: o, m: &Model{Feat: map[string]bool{}}, defs: map[string][]defAtt{}, types: map[string][]defAtt{}}
	g.left = 1 + s.N(o.MaxElems)
	g.ev("locator")
	decl := 0
	if s.Chance(40) {
		decl = 1
		g.w(`<?xml version=` + g.q("1.0"))
		if o.Decl {
			if o.Enc && s.Chance(30) {
				g.enc = docEncs[s.N(len(docEncs))]
				g.w(` encoding=` + g.q(s.Pick(g.enc.names)))
			} else if s.Chance(40) {
				g.w(` encoding=` + g.q(s.Pick([]string{"utf-8", "UTF-8"})))
				g.feat("encoding")
			}
			if s.Chance(20) {
				g.w(` standalone=` + g.q(s.Pick([]string{"yes", "no"})))
				g.feat("standalone")
			}
		}
		g.w("?>")
		g.cut()
		if s.Chance(60) {
			g.w("\n")
		}
	}
	_ = decl
	g.ev("startdoc")
	g.misc(2)
	g.names, g.atts = elemNames, attNames
	if s.Chance(12) { // names that look alike
		g.names, g.atts = g.alike(3+s.N(30)), g.alike(5+s.N(20))
		g.feat("names that look alike")
	}
	nn := 1 + s.N(len(g.names))
	g.elems = g.names[:nn]
	if o.Big && s.Chance(5) { // long names
		g.elems = append(g.elems[:nn:nn], g.long("n", 100, 700), g.long("é", 100, 300)+"m")
	}
	root := s.Pick(g.elems)
	if s.Chance(30) {
		n := 1 + s.N(3)
		if s.Chance(15) {
			n = 4 + s.N(5)
		}
		off := s.N(9)
		for i := 0; i < n; i++ {
			d := nsDef{prefix: []string{"p", "ns1", "q-q", "z", "é", "a", "m.n", "_", "xm"}[(i+off)%9], uri: fmt.Sprintf("urn:n%d", i)}
			g.ns = append(g.ns, d)
		}
		g.feat("namespaces")
	}
	if !o.NoDTD && s.Chance(45) {
		g.dtd(root)
		g.misc(2)
	}
	if s.Chance(15) {
		g.dns = "urn:default"
		g.feat("default namespace")
	}
	g.left--
	if s.Chance(2) {
		g.chain = 20 + s.N(100)
		if o.Big {
			switch k := s.N(40); {
			case k < 4:
				g.chain = 200 + s.N(400)
			case k < 5:
				g.chain = 1000 + s.N(1500)
			}
		}
		g.shallow = g.chain
		g.feat("deep nesting")
	}
	g.element(root, true)
	g.m.RootEnd = g.b.Len()
	g.cut()
	g.misc(2)
	if s.Chance(30) {
		g.w("\n")
	}
	g.ev("enddoc")
	g.m.Bytes = append([]byte(nil), g.b.Bytes()...)
	if g.enc != nil {
		if !g.enc.encode(g.m) {
			panic("document cannot be encoded: " + g.b.String())
		}
		g.feat("encoding " + g.enc.names[0])
	}
	for _, e := range g.m.Evs {
		if e.K == "elemdecl" && e.A[2] != "" {
			e.A[2] = canonContent(e.A[2])
		}
	}
	return g.m
}

// alike makes different names of few letters.
func (g *gen) alike(n int) []string {
	abc := g.s.Pick([]string{"ab", "aA", "a1", "xyz", "a-", "b.", "n_0"})
	seen := map[string]bool{}
	var l []string
	for i := 0; i < n; i++ {
		x := abc[:1]
		for j, k := 0, g.s.N(7); j < k; j++ {
			i := g.s.N(len(abc))
			x += abc[i : i+1]
		}
		if !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	return l
}

// word picks one of the list, or makes one that looks like others.
func (g *gen) word(l []string) string {
	if !g.s.Chance(8) {
		return g.s.Pick(l)
	}
	abc := []rune(g.s.Pick([]string{"ab", "a b", "abc", "xé", "日本", "01", ".ab"}))
	if g.enc != nil || g.inEnt {
		abc = []rune("ab")
	}
	x := make([]rune, 1+g.s.N(14))
	for i := range x {
		x[i] = abc[g.s.N(len(abc))]
	}
	if x[0] == ' ' {
		x[0] = 'b'
	}
	return string(x)
}

func (g *gen) q(v string) string {
	if g.s.Chance(30) {
		return "'" + v + "'"
	}
	return `"` + v + `"`
}

func (g *gen) misc(max int) {
	for i, n := 0, g.s.N(max+1); i < n; i++ {
		switch g.s.N(3) {
		case 0:
			g.w(g.space())
		case 1:
			g.comment()
		default:
			g.pi()
		}
	}
}

// around the sizes that buffers have
var sizes = []int{15, 31, 63, 100, 127, 255, 300, 511, 512, 1000, 1023, 2047, 4095, 4096}

// long makes something long of t, rarely.
func (g *gen) long(t string, pct, max int) string {
	if !g.o.Big || g.inEnt || t == "" || !g.s.Chance(pct) {
		return t
	}
	n := sizes[g.s.N(len(sizes))] + g.s.N(4)
	lim := 1030 // the parser needs time that grows with the square
	switch k := g.s.N(40); {
	case k < 3:
		lim = 4200
	case k < 12:
		lim = 2100
	}
	if max > lim {
		max = lim
	}
	for n > max {
		n /= 2
	}
	g.feat("long values")
	if len(t) >= n || g.spent+n*n > 2e7 {
		return t
	}
	g.spent += n * n
	x := strings.Repeat(t, n/len(t))
	return x + strings.Repeat("x", n-len(x))
}

func (g *gen) comment() {
	t := g.long(g.word(comments), 5, 30000)
	g.w("<!--" + t + "-->")
	g.ev("comment", eol(t))
	g.cut()
	g.feat("comment")
}

func (g *gen) pi() {
	t := g.s.Pick(piTargets)
	if g.b.Len() == 0 && strings.HasPrefix(t, "xml") {
		t = "pi" // would be taken for the XML declaration
	}
	d := g.long(g.word(piData), 5, 30000)
	g.w("<?" + t)
	if d != "" {
		g.w(" " + d)
	}
	g.w("?>")
	g.ev("pi", t, d)
	g.cut()
	g.feat("pi")
}

func (g *gen) dtd(root string) {
	s := g.s
	g.feat("dtd")
	g.w("<!DOCTYPE" + g.space() + root)
	if s.Chance(10) {
		g.w(g.optSpace() + ">")
		g.ev("intsubset", root, "", "")
		g.ev("extsubset", root, "", "")
		g.cut()
		return
	}
	g.w(g.space() + "[")
	g.ev("intsubset", root, "", "")
	seenElem := map[string]bool{}
	seenAtt := map[string]bool{}
	seenID := map[string]bool{}
	n := s.N(7)
	if g.o.Big && s.Chance(4) {
		n = 15 + s.N(50)
		g.feat("many declarations")
	}
	for i := 0; i < n; i++ {
		g.w(g.optSpace())
		switch s.N(6) {
		case 0: // element
			name := s.Pick(g.names)
			if s.Chance(12) {
				name = "q" + ":" + name
				g.feat("declaration with a prefix")
			}
			if seenElem[name] {
				continue
			}
			seenElem[name] = true
			g.elementDecl(name)
		case 1:
			name := s.Pick(g.elems)
			if len(g.ns) > 0 && s.Chance(25) {
				name = g.ns[s.N(len(g.ns))].prefix + ":" + name
				g.feat("declaration with a prefix")
			}
			g.attlist(name, seenAtt, seenID)
		case 2, 3:
			if g.o.NoEnt {
				g.comment()
			} else {
				g.entity()
			}
		case 4:
			g.comment()
		default:
			if len(g.npes) > 0 && s.Chance(40) {
				// its replacement text is blank
				g.w("%" + s.Pick(g.npes) + ";")
				g.feat("parameter entity reference")
			} else {
				g.pi()
			}
		}
		g.cut()
	}
	g.w(g.optSpace() + "]" + g.optSpace() + ">")
	g.ev("extsubset", root, "", "")
	g.cut()
}

// numbers as the SAX interface reports them
const (
	tEmpty    = int(helium.EmptyElementType)
	tAny      = int(helium.AnyElementType)
	tMixed    = int(helium.MixedElementType)
	tChildren = int(helium.ElementElementType)
)

func (g *gen) cp(depth int) string {
	s := g.s
	if depth > 2 || !s.Chance(30) {
		return g.declName() + s.Pick([]string{"", "?", "*", "+"})
	}
	sep := s.Pick([]string{",", "|"})
	var l []string
	for i, n := 0, 2+s.N(2); i < n; i++ {
		l = append(l, g.cp(depth+1))
	}
	return g.group(l, sep) + s.Pick([]string{"", "?"}) // more is rejected
}

// group is a group of a content model, rarely with blanks.
func (g *gen) group(l []string, sep string) string {
	if !g.s.Chance(15) {
		return "(" + strings.Join(l, sep) + ")"
	}
	g.feat("blanks in a content model")
	b := g.optSpace() + l[0]
	for _, x := range l[1:] {
		b += g.optSpace() + sep + g.optSpace() + x
	}
	return "(" + b + g.optSpace() + ")"
}

func (g *gen) declName() string {
	if g.s.Chance(10) {
		g.feat("declaration with a prefix")
		return "q:" + g.s.Pick(g.names)
	}
	return g.s.Pick(g.names)
}

func (g *gen) elementDecl(name string) {
	s := g.s
	g.w("<!ELEMENT" + g.space() + name + g.space())
	typ, content := 0, ""
	switch s.N(4) {
	case 0:
		g.w("EMPTY")
		typ = tEmpty
	case 1:
		g.w("ANY")
		typ = tAny
	case 2:
		typ = tMixed
		n := s.N(2) // more names are rejected
		if n == 0 {
			content = "(" + g.optSpace() + "#PCDATA)"
		} else {
			l := []string{}
			for i := 0; i < n; i++ {
				l = append(l, g.declName())
			}
			content = "(#PCDATA|" + strings.Join(l, "|") + ")*"
		}
	default:
		typ = tChildren
		sep := s.Pick([]string{",", "|"})
		var l []string
		n := 1 + s.N(3)
		for i := 0; i < n; i++ {
			l = append(l, g.cp(1))
		}
		content = g.group(l, sep) + s.Pick([]string{"", "?"})
	}
	if content != "" {
		g.w(content)
	}
	g.w(g.optSpace() + ">")
	g.ev("elemdecl", name, fmt.Sprint(typ), content)
	g.feat("elementdecl")
}

var attTypes = []struct {
	name string
	num  helium.AttributeType
}{{"CDATA", helium.AttrCDATA}, {"ID", helium.AttrID}, {"IDREF", helium.AttrIDRef}, {"NMTOKEN", helium.AttrNmtoken},
	{"NMTOKENS", helium.AttrNmtokens}, {"enum", helium.AttrEnumeration}, {"IDREFS", helium.AttrIDRefs}, {"ENTITY", helium.AttrEntity}, {"ENTITIES", helium.AttrEntities}, {"notation", helium.AttrNotation}}

func (g *gen) attlist(elem string, seen, seenID map[string]bool) {
	s := g.s
	n := 1
	if s.Chance(30) {
		n = 2 + s.N(2)
	}
	open := false
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("d%d", s.N(5))
		if len(g.ns) > 0 && s.Chance(20) {
			name = g.ns[s.N(len(g.ns))].prefix + ":" + name
			g.feat("declaration with a prefix")
		} else if s.Chance(4) {
			name = "xml:lang"
		}
		if seen[elem+" "+name] {
			continue
		}
		seen[elem+" "+name] = true
		if !open {
			g.w("<!ATTLIST" + g.space() + elem)
			open = true
		}
		g.attdef(elem, name, seenID)
	}
	if !open {
		g.comment()
		return
	}
	g.w(g.optSpace() + ">")
	g.feat("attlist")
}

func (g *gen) attdef(elem, name string, seenID map[string]bool) {
	s := g.s
	t := attTypes[s.N(len(attTypes))]
	if t.name == "ID" {
		if seenID[elem] {
			t = attTypes[0]
		}
		seenID[elem] = true
	}
	g.w(g.space() + name + g.space())
	val := s.Pick([]string{"v", "w1", "x-y"})
	src := val
	tree := ""
	if t.name == "notation" {
		g.w("NOTATION" + g.space())
	}
	if t.name == "enum" || t.name == "notation" {
		l := []string{"v", "w1", "x-y"}
		if s.Chance(60) { // other values, in another order
			for _, x := range []string{"u", "t2", "名前"} {
				if s.Chance(40) {
					l = append(l, x)
				}
			}
			for i := len(l) - 1; i > 0; i-- {
				j := s.N(i + 1)
				l[i], l[j] = l[j], l[i]
			}
			if s.Chance(30) {
				l = l[:1+s.N(len(l))]
			}
			val = l[s.N(len(l))]
			src = val
		}
		if t.name == "enum" {
			g.w(g.group(l, "|"))
		} else {
			g.w("(" + strings.Join(l, "|") + ")")
		}
		tree = strings.Join(l, "|")
	} else {
		g.w(t.name)
	}
	if t.name != "CDATA" && t.name != "enum" && t.name != "notation" && s.Chance(15) {
		src, val = " "+val+"  ", val
		if strings.HasSuffix(t.name, "S") && s.Chance(50) {
			src, val = src+val+" ", val+" "+val
		}
	}
	if t.name == "CDATA" {
		switch s.N(8) {
		case 0:
			src, val = "two  words&#65;", "two  wordsA"
		case 1:
			src, val = "é'\"&lt;", "é'\"<"
			src = strings.Replace(src, "\"", "&quot;", 1)
			src = strings.Replace(src, "'", "&#39;", 1)
		}
	}
	g.w(g.space())
	var def helium.AttributeDefault
	defv := ""
	k := s.N(4)
	if t.name == "ID" {
		k = s.N(2)
	}
	switch k {
	case 0:
		g.w("#IMPLIED")
		def = helium.AttrDefaultImplied
	case 1:
		g.w("#REQUIRED")
		def = helium.AttrDefaultRequired
	case 2:
		g.w(g.q(src))
		def, defv = helium.AttrDefaultNone, val
	default:
		g.w("#FIXED " + g.q(src))
		def, defv = helium.AttrDefaultFixed, val
	}
	if defv != "" {
		g.defs[elem] = append(g.defs[elem], defAtt{name, defv})
		g.feat("attdefault")
	}
	g.types[elem] = append(g.types[elem], defAtt{name, t.name})
	g.ev("attdecl", elem, name, fmt.Sprint(int(t.num)), fmt.Sprint(int(def)), defv, tree)
}

func (g *gen) entity() {
	s := g.s
	name := fmt.Sprintf("e%d", len(g.ents)+len(g.ments))
	if s.Chance(25) {
		v := s.Pick([]string{"a", "b'c", "", "é", "two words", "(x|y)", "", " "})
		if strings.TrimSpace(v) == "" {
			g.npes = append(g.npes, fmt.Sprintf("pe%d", g.npe))
		}
		g.w("<!ENTITY" + g.space() + "% " + fmt.Sprintf("pe%d", g.npe) + g.space())
		if strings.Contains(v, "'") {
			g.w(`"` + v + `"`)
		} else {
			g.w(g.q(v))
		}
		g.ev("entdecl", fmt.Sprintf("pe%d", g.npe), fmt.Sprint(int(helium.InternalParameterEntity)), "", "", v)
		g.w(g.optSpace() + ">")
		g.npe++
		g.feat("parameter entity")
		return
	}
	g.feat("entity")
	if s.Chance(60) {
		// plain text
		txt := g.long(g.word([]string{"ent", "x y", "é", "", "two words", "1"}), 5, 1500)
		src := txt
		if s.Chance(20) {
			src += "&#65;"
			txt += "A"
		}
		d := entDef{Name: name}
		add := func(t string) {
			if t != "" {
				d.evs = append(d.evs, Ev{K: "text", A: []string{t}})
			}
		}
		add(txt)
		if len(g.ents) > 0 && s.Chance(30) {
			// a reference inside an entity value is kept
			e := g.ents[s.N(len(g.ents))]
			d.size += e.size
			src += "&" + e.Name + "; z"
			txt += "&" + e.Name + "; z"
			d.evs = append(d.evs, e.evs...)
			d.evs = append(d.evs, Ev{K: "ref", A: []string{e.Name}})
			add(" z")
			g.feat("entity in entity")
		}
		g.w("<!ENTITY " + name + " " + g.q(src))
		g.ev("entdecl", name, fmt.Sprint(int(helium.InternalGeneralEntity)), "", "", txt)
		g.w(g.optSpace() + ">")
		d.size += len(src) * len(src)
		g.ents = append(g.ents, d)
		return
	}
	// with markup: generate content with a sub-generator
	sub := &gen{s: s, o: g.o, m: &Model{Feat: g.m.Feat}, elems: g.elems, names: g.names, atts: g.atts, enc: g.enc, inEnt: true, ns: g.ns}
	sub.left = 1 + s.N(2)
	sub.depth = 3
	sub.content()
	raw := sub.b.String()
	if strings.ContainsAny(raw, "\"%&") || raw == "" {
		raw = "<" + elemNames[0] + "/>t"
		sub.m.Evs = []Ev{{K: "start", A: []string{elemNames[0], "", ""}}, {K: "end", A: []string{elemNames[0], "", ""}}, {K: "text", A: []string{"t"}}}
	}
	g.w("<!ENTITY " + name + ` "` + raw + `"`)
	g.ev("entdecl", name, fmt.Sprint(int(helium.InternalGeneralEntity)), "", "", raw)
	g.w(g.optSpace() + ">")
	g.ments = append(g.ments, mentDef{name, raw, sub.m.Evs, len(raw) * len(raw)})
	g.feat("markup entity")
}

func (g *gen) defsFor(elem string, given ...string) []string {
	var l []string
next:
	for _, d := range g.defs[elem] {
		for _, x := range given {
			if strings.HasPrefix(x, d.name+"=") {
				continue next
			}
		}
		l = append(l, d.name+"="+d.val+" (default)")
	}
	return l
}

func (g *gen) attrs(elem string, root bool) (rendered []string, ev []string) {
	s := g.s
	n := 0
	if s.Chance(50) {
		n = s.N(4)
	}
	if s.Chance(4) {
		n = s.N(len(g.atts))
	}
	if l := g.types[elem]; len(l) > 0 && s.Chance(40) {
		d := l[s.N(len(l))]
		src, val := "w1", "w1"
		if d.val == "NMTOKENS" && s.Chance(40) {
			src, val = " w1   x-y ", "w1 x-y"
		}
		if d.val != "CDATA" && d.val != "enum" && d.val != "notation" && s.Chance(15) {
			src, val = s.Pick([]string{"", " ", "\t", "\n\t", "   ", "\r\n", " \t "}), ""
			if s.Chance(50) {
				src, val = src+"w1"+src, "w1"
			}
			g.feat("blank tokenized attribute")
		}
		if d.val == "CDATA" && s.Chance(40) {
			src, val = " w1  x-y ", " w1  x-y "
		}
		rendered = append(rendered, g.space()+d.name+"="+g.q(src))
		ev = append(ev, d.name+"="+val)
		g.feat("declared attribute")
	}
	if s.Chance(3) && !g.declared(elem, "xml:lang") {
		x := s.Pick([]string{"xml:lang=en", "xml:space=preserve", "xml:space=default", "xml:id=i7", "xml:base=urn:b"})
		i := strings.IndexByte(x, '=')
		rendered = append(rendered, g.space()+x[:i]+"="+g.q(x[i+1:]))
		ev = append(ev, x)
		g.feat("xml: attribute")
	}
	off := s.N(len(g.atts))
	if n > 0 && g.o.Big && !g.inEnt && s.Chance(2) {
		n = len(g.atts) + s.N(80)
		if k := s.N(30); k == 0 {
			n = 1000 + s.N(100)
		} else if k < 4 {
			n = 250 + s.N(300)
		}
		g.feat("many attributes")
	}
	for i := 0; i < n; i++ {
		name := g.atts[(off+i)%len(g.atts)]
		if i >= len(g.atts) {
			name = fmt.Sprintf("m%d", i)
		}
		if len(g.ns) > 0 && s.Chance(20) {
			name = g.ns[s.N(len(g.ns))].prefix + ":" + name
		}
		src, val := g.attval()
		sp := g.space()
		eq := "="
		if s.Chance(8) {
			eq = " = "
		}
		rendered = append(rendered, sp+name+eq+src)
		ev = append(ev, name+"="+val)
		g.feat("attributes")
	}
	return
}

func (g *gen) declared(elem, att string) bool {
	for _, d := range g.types[elem] {
		if d.name == att {
			return true
		}
	}
	return false
}

func (g *gen) attval() (src, val string) {
	s := g.s
	q := `"`
	if g.inEnt || s.Chance(30) {
		q = "'"
	}
	var a, b strings.Builder
	for i, n := 0, s.N(4); i < n; i++ {
		switch k := s.N(10); {
		case k < 6:
			w := g.word(words)
			if strings.Contains(w, q) || strings.ContainsAny(w, "<&\n\t") || (g.inEnt && strings.ContainsAny(w, "\"%'")) {
				w = "v"
			}
			w = g.long(w, 3, 20000)
			a.WriteString(w)
			b.WriteString(w)
		case k == 6 && !g.inEnt:
			c := []rune{'A', 'é', '😀', '<', '&', '"', '\''}[s.N(7)]
			if g.enc != nil && c > '~' {
				c = 'B' // the number would mean another character
			}
			if s.Chance(50) {
				fmt.Fprintf(&a, "&#x%X;", c)
			} else {
				fmt.Fprintf(&a, "&#%d;", c)
			}
			if c == '&' {
				b.WriteString("&#38;") // the tree needs to tell it from a reference
			} else {
				b.WriteRune(c)
			}
			g.feat("charref")
		case k == 7 && !g.inEnt:
			p := predef[s.N(len(predef))]
			a.WriteString("&" + p[0] + ";")
			if p[1] == "&" {
				b.WriteString("&#38;")
			} else {
				b.WriteString(p[1])
			}
			g.feat("predefined entity")
		case k == 8 && len(g.ents) > 0 && !g.inEnt:
			e := g.ents[s.N(len(g.ents))]
			a.WriteString("&" + e.Name + ";")
			b.WriteString("&" + e.Name + ";")
			g.feat("entity in attribute")
		case k == 9 && s.Chance(60):
			w := s.Pick([]string{"\t", "\n", " \n ", "\tx", "\n\n"})
			a.WriteString(w)
			b.WriteString(strings.Map(func(r rune) rune {
				if r == '\t' || r == '\n' {
					return ' '
				}
				return r
			}, w))
		default:
			a.WriteString("v")
			b.WriteString("v")
		}
	}
	return q + a.String() + q, b.String()
}

var predef = [][2]string{{"lt", "<"}, {"gt", ">"}, {"amp", "&"}, {"apos", "'"}, {"quot", `"`}}

// bound is what a prefix stands for here.
func (g *gen) bound(prefix string) (uri string) {
	for _, d := range g.ns {
		if d.prefix == prefix {
			uri = d.uri
		}
	}
	return
}

func (g *gen) element(name string, root bool) {
	s := g.s
	g.m.NElems++
	qn, prefix, uri := name, "", ""
	nsLen := len(g.ns)
	if !root && !g.inEnt && s.Chance(4) {
		// a prefix of its own, seen by what is below
		g.nsN++
		d := nsDef{fmt.Sprintf("own%d", g.nsN), fmt.Sprintf("urn:own%d", g.nsN)}
		if nsLen > 0 && s.Chance(40) {
			d.prefix = g.ns[s.N(nsLen)].prefix
			g.feat("prefix declared again")
		}
		g.ns = append(g.ns[:nsLen:nsLen], d)
		g.feat("nested namespace")
	}
	if len(g.ns) > 0 && s.Chance(40) {
		d := g.ns[s.N(len(g.ns))]
		prefix, uri = d.prefix, g.bound(d.prefix)
		qn = prefix + ":" + name
	}
	g.w("<" + qn)
	var decls []string // in document order
	if len(g.ns) > nsLen {
		d := g.ns[nsLen]
		decls = append(decls, "xmlns:"+d.prefix+"="+d.uri)
	}
	defer func() { g.ns = g.ns[:nsLen] }()
	own := root && g.dns != ""
	if !root && !g.inEnt && s.Chance(3) {
		old := g.dns
		defer func() { g.dns = old }()
		g.nsN++
		g.dns, own = fmt.Sprintf("urn:default%d", g.nsN), true
		g.feat("nested default namespace")
	}
	if root {
		for _, d := range g.ns {
			decls = append(decls, "xmlns:"+d.prefix+"="+d.uri)
		}
	}
	if own {
		decls = append(decls, "xmlns="+g.dns)
	}
	for i := len(decls) - 1; i > 0; i-- {
		j := s.N(i + 1)
		decls[i], decls[j] = decls[j], decls[i]
	}
	if prefix == "" {
		uri = g.dns
	}
	r, a := g.attrs(qn, root)
	among, k := !s.Chance(70), 0 // the attributes
	for i, d := range decls {
		j := strings.IndexByte(d, '=')
		d = g.space() + d[:j+1] + g.q(d[j+1:])
		if among {
			k += s.N(len(r) - i + 1)
			if k > len(r) {
				k = len(r)
			}
		}
		r = append(r, "")
		copy(r[k+1:], r[k:])
		r[k] = d
		k++
	}
	for _, x := range r {
		g.w(x)
		g.cut()
	}
	args := append([]string{name, prefix, uri}, decls...)
	args = append(args, a...)
	args = append(args, g.defsFor(qn, a...)...)
	g.w(g.optSpace())
	if s.Chance(25) && g.chain == 0 {
		g.w("/>")
		g.ev("start", args...)
		g.ev("end", name, prefix, uri)
		g.cut()
		g.feat("empty element")
		return
	}
	g.w(">")
	g.ev("start", args...)
	g.cut()
	g.depth++
	g.content()
	g.depth--
	g.w("</" + qn + ">")
	g.ev("end", name, prefix, uri)
	g.cut()
}

func (g *gen) content() {
	s := g.s
	if g.chain > 0 {
		g.chain--
		if s.Chance(3) {
			g.textRun()
		}
		g.element(s.Pick(g.elems), false)
		if s.Chance(3) {
			g.textRun()
		}
		return
	}
	n := s.N(6)
	if g.o.Big && !g.inEnt && g.depth < 8+g.shallow && s.Chance(2) {
		n = 20 + s.N(60)
		if k := s.N(40); k == 0 {
			n = 1000 + s.N(100)
		} else if k < 4 {
			n = 250 + s.N(300)
		}
		g.left += n / 3
		g.feat("many children")
	}
	for i := 0; i < n; i++ {
		switch k := s.N(12); {
		case k < 3:
			if g.left > 0 && g.depth < 40+g.shallow {
				g.left--
				g.element(s.Pick(g.elems), false)
			} else {
				g.textRun()
			}
		case k < 6:
			g.textRun()
		case k == 6:
			if g.o.NoCDATA || g.inEnt {
				g.comment2()
			} else {
				t := g.long(g.word(cdatas), 8, 30000)
				beg := g.b.Len() + 9
				g.w("<![CDATA[" + t + "]]>")
				g.ev("cdata", eol(t))
				e := &g.m.Evs[len(g.m.Evs)-1]
				e.Beg, e.Seg = beg, []Seg{{Beg: beg, End: g.b.Len() - 3, N: len(eol(t))}}
				g.cut()
				g.feat("cdata")
			}
		case k == 7:
			g.comment2()
		case k == 8:
			if g.inEnt {
				g.comment2()
			} else {
				g.pi()
			}
		case k == 9 && !g.inEnt:
			beg := g.b.Len()
			c := []rune{'A', 'é', '😀', '<', '&', '"', ' ', '\n'}[s.N(8)]
			if g.enc != nil && c > '~' {
				c = 'B'
			}
			if s.Chance(50) {
				g.w(fmt.Sprintf("&#x%x;", c))
			} else {
				g.w(fmt.Sprintf("&#%d;", c))
			}
			g.textRef(string(c), beg)
			g.feat("charref")
		case k == 10 && !g.inEnt:
			beg := g.b.Len()
			p := predef[s.N(len(predef))]
			g.w("&" + p[0] + ";")
			g.textRef(p[1], beg)
			g.feat("predefined entity")
		case k == 11 && !g.inEnt && len(g.ents)+len(g.ments) > 0:
			g.entref()
		default:
			g.textRun()
		}
	}
}

// textRef is text that is only known when the reference is complete.
func (g *gen) textRef(t string, beg int) {
	g.text(t, g.b.Len())
	g.cut()
}

func (g *gen) comment2() {
	if g.inEnt {
		g.w("<!--c-->")
		g.ev("comment", "c")
		return
	}
	g.comment()
}

func (g *gen) entref() {
	k := g.s.N(len(g.ents) + len(g.ments))
	g.feat("entity reference")
	var name string
	var evs []Ev
	size := 0
	if k < len(g.ents) {
		size = g.ents[k].size
	} else {
		size = g.ments[k-len(g.ents)].size
	}
	if g.spent += size; g.spent > 3e7 {
		g.textRun()
		return
	}
	if k < len(g.ents) {
		name, evs = g.ents[k].Name, g.ents[k].evs
	} else {
		name, evs = g.ments[k-len(g.ents)].name, g.ments[k-len(g.ents)].evs
	}
	g.w("&" + name + ";")
	for _, v := range evs {
		if v.K == "text" {
			g.text(v.A[0], g.b.Len())
			continue
		}
		v.A = append([]string(nil), v.A...)
		if v.K == "start" || v.K == "end" { // in scope at the reference
			q := v.A[0]
			if v.A[1] == "" {
				v.A[2] = g.dns
			} else {
				v.A[2], q = g.bound(v.A[1]), v.A[1]+":"+v.A[0]
				g.feat("prefix in an entity")
			}
			if v.K == "start" {
				v.A = append(v.A, g.defsFor(q, v.A[3:]...)...)
			}
		}
		v.End, v.Beg = g.b.Len(), g.b.Len()
		g.m.Evs = append(g.m.Evs, v)
	}
	g.ev("ref", name)
	g.cut()
}

func (g *gen) textRun() {
	s := g.s
	beg := g.b.Len()
	w := g.word(words)
	if g.inEnt && strings.ContainsAny(w, "\"%&'") {
		w = "t"
	}
	if g.o.Big && s.Chance(10) {
		w = strings.Repeat(w, 1+s.N(200))
	}
	// "]]" followed by ">" must not come together: ">" is never generated
	g.w(w)
	g.text(w, beg)
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
