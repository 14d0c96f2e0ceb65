package main

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
)

// snap renders everything the public API shows of a tree: nodes, contents,
// attributes, namespaces and links.
func snap(doc *helium.Document) string {
	var b strings.Builder
	fmt.Fprintf(&b, "doc %q %q %v %v %v\n", doc.Version(), doc.Encoding(), doc.Standalone(), doc.IntSubset() != nil, doc.ExtSubset() != nil)
	ids := map[helium.Node]int{doc: 0}
	n := 0
	snapKids(&b, doc, ids, 1, &n)
	return b.String()
}

// snapNode renders one node and what is below it.
func snapNode(x helium.Node) string {
	var b strings.Builder
	n := 0
	snapOne(&b, x, map[helium.Node]int{}, 0, &n)
	return b.String()
}

func snapKids(b *strings.Builder, p helium.Node, ids map[helium.Node]int, depth int, n *int) {
	var prev helium.Node
	for x := p.FirstChild(); !isNil(x); x = x.NextSibling() {
		if *n++; *n > 4000 {
			b.WriteString("too many nodes\n")
			return
		}
		if _, ok := ids[x]; ok {
			fmt.Fprintf(b, "%d seen before: node %d\n", depth, ids[x])
			return
		}
		if y := x.PrevSibling(); isNil(y) != isNil(prev) || !isNil(y) && y != prev {
			b.WriteString("(odd prev) ")
		}
		snapOne(b, x, ids, depth, n)
		prev = x
	}
	if l := p.LastChild(); !isNil(prev) && (isNil(l) || l != prev) {
		b.WriteString("(odd last)\n")
	}
}

func isNil(n helium.Node) bool {
	switch x := n.(type) {
	case nil:
		return true
	case *helium.Element:
		return x == nil
	case *helium.Text:
		return x == nil
	case *helium.DTD:
		return x == nil
	case *helium.Document:
		return x == nil
	case *helium.Entity:
		return x == nil
	case *helium.Attribute:
		return x == nil
	case *helium.Comment:
		return x == nil
	case *helium.EntityRef:
		return x == nil
	}
	return false
}

func snapOne(b *strings.Builder, x helium.Node, ids map[helium.Node]int, depth int, n *int) {
	ids[x] = len(ids)
	par := -1
	if p := x.Parent(); !isNil(p) {
		if i, ok := ids[p]; ok {
			par = i
		} else {
			par = -2
		}
	}
	fmt.Fprintf(b, "%d %T %v %q parent %d", depth, x, x.Type(), x.Name(), par)
	switch e := x.(type) {
	case *helium.Element:
		fmt.Fprintf(b, " {%s}%s:%s", e.URI(), e.Prefix(), e.LocalName())
		for _, ns := range e.Namespaces() {
			fmt.Fprintf(b, " xmlns:%s=%q", ns.Prefix(), ns.URI())
		}
		for _, a := range e.Attributes() {
			pre := "(none)"
			bare(func() { pre = a.Prefix() }) // there may be no namespace object
			fmt.Fprintf(b, " %s=%q/%q/%v", a.Name(), a.Value(), pre, a.IsDefault())
			for y := a.FirstChild(); !isNil(y); y = y.NextSibling() {
				fmt.Fprintf(b, "[%v %q %q]", y.Type(), y.Name(), y.Content())
				if *n++; *n > 4000 {
					break
				}
			}
		}
	case *helium.Text, *helium.Comment:
		fmt.Fprintf(b, " %q", x.Content())
	case *helium.Entity:
		fmt.Fprintf(b, " %d %q", e.EntityType(), e.Content())
	case *helium.EntityRef:
		b.WriteString("\n")
		return // below it is the entity itself
	}
	b.WriteString("\n")
	snapKids(b, x, ids, depth+1, n)
}

// nodesOf lists the nodes of a document that DumpNode accepts.
func nodesOf(doc *helium.Document) []helium.Node {
	var l []helium.Node
	var rec func(p helium.Node, d int)
	rec = func(p helium.Node, d int) {
		if d > 200 {
			return
		}
		for x := p.FirstChild(); !isNil(x) && len(l) < 500; x = x.NextSibling() {
			l = append(l, x)
			if x.Type() != helium.EntityRefNode {
				rec(x, d+1)
			}
		}
	}
	rec(doc, 0)
	return l
}

// domOp is one step that builds or changes a document. Byte arguments are
// taken from buf, which the caller reuses afterwards.
type domOp struct {
	k    int
	a, b int
	s, t string
	data string
}

const nDomOps = 30

var domTexts = []string{"x", "hello", "a<b>&c", "\"q\"'", "é日😀", "tab\tnl\ncr\r", "", " ", "long long long text that needs more room", "]]>", "\u0080\u00ff", "\r", "bad \x01 \ufffe \uffff", "not UTF-8 \xff\xfe\xc3", "\ud7ff\ue000\U0010ffff"}
var domAttrs = []string{"v", "", "a&amp;b", "&e0;", "x&e1;y", "\"'<>", "é", "&lt;&gt;", "1 2  3", "&#65;", "t\tn\n", "100%", "%pe0;", "ÀÁÂ", "Ж߿",
	"&#x41;&#xe9;", "&#233;&#x20;&#10;", "&nope;", "&e0;&e1;&e2;", "x&amp;&e0;y&lt;", "&unfinished", "&#x;", "&#zz;", "&", "\x01\ufffe", "\xff\xc3", "\r", "&#1114112;"}

// refNames are names that references are made of.
var refNames = []string{"&e0;", "&e1", "lt", "&amp;", "nope", "", "p:q", "&;", "quot"}

var declNames = []string{"a", "p:a", "b", "p:b", "c", "q:c", ":d", "e:"}

func drawDomOp(s *Src) domOp {
	return domOp{k: s.N(nDomOps), a: s.N(8), b: s.N(8), s: s.Pick(elemNames), t: s.Pick(domAttrs), data: s.Pick(domTexts)}
}

// universe is a document under construction and the nodes made for it.
type universe struct {
	doc   *helium.Document
	els   []*helium.Element // in the tree
	txts  []*helium.Text
	cmts  []*helium.Comment
	n     int
	log   []string
	loose int
}

func newUniverse(doc *helium.Document) *universe {
	u := &universe{doc: doc}
	u.collect()
	return u
}

// collect finds the nodes of a parsed document.
func (u *universe) collect() {
	for _, x := range nodesOf(u.doc) {
		switch e := x.(type) {
		case *helium.Element:
			u.els = append(u.els, e)
		case *helium.Text:
			u.txts = append(u.txts, e)
		case *helium.Comment:
			u.cmts = append(u.cmts, e)
		}
	}
}

// do applies an operation; buf is the caller's buffer for byte arguments.
func (u *universe) do(o domOp, buf []byte) {
	d := u.doc
	copy(buf, o.data)
	arg := buf[:len(o.data)]
	res := func(f string, a ...interface{}) { u.log = append(u.log, fmt.Sprintf(f, a...)) }
	el := func(i int) *helium.Element {
		if len(u.els) == 0 {
			return nil
		}
		return u.els[i%len(u.els)]
	}
	p := guard(func() {
		switch o.k {
		case 0, 1:
			e, err := d.CreateElement(o.s)
			if err != nil {
				res("%v", err)
				return
			}
			if x := el(o.a); x != nil {
				err = x.AddChild(e)
			} else {
				err = d.SetDocumentElement(e)
			}
			u.els = append(u.els, e)
			res("element %v", err)
		case 2, 3:
			t, err := d.CreateText(arg)
			if x := el(o.a); x != nil && err == nil {
				merged := !isNil(x.LastChild()) && x.LastChild().Type() == helium.TextNode
				err = x.AddChild(t)
				if !merged {
					u.txts = append(u.txts, t)
				}
			}
			res("text %v", err)
		case 4, 5:
			if x := el(o.a); x != nil {
				res("content %v", x.AddContent(arg))
			}
		case 6:
			c, err := d.CreateComment(arg)
			if x := el(o.a); x != nil && err == nil {
				err = x.AddChild(c)
			} else if err == nil {
				err = d.AddChild(c)
			}
			u.cmts = append(u.cmts, c)
			res("comment %v", err)
		case 7:
			if len(u.txts) > 0 {
				res("more text %v", u.txts[o.a%len(u.txts)].AddContent(arg))
			}
		case 8:
			if len(u.cmts) > 0 {
				res("more comment %v", u.cmts[o.a%len(u.cmts)].AddContent(arg))
			}
		case 9, 10:
			if x := el(o.a); x != nil && !strings.Contains(o.t, "textnoenc") {
				res("attribute %v", x.SetAttribute(fmt.Sprintf("n%d", o.b), o.t))
			}
		case 11:
			if x := el(o.a); x != nil {
				res("namespace %v", x.SetNamespace(fmt.Sprintf("p%d", o.b%3), fmt.Sprintf("urn:%d", o.b), o.b%2 == 0))
			}
		case 12:
			if x := el(o.a); x != nil {
				r, err := d.CreateReference(fmt.Sprintf("e%d", o.b%3))
				if err == nil {
					err = x.AddChild(r)
				}
				res("reference %v", err)
			}
		case 13:
			pi, err := d.CreatePI(o.s, o.data)
			if x := el(o.a); x != nil && err == nil {
				err = x.AddChild(pi)
			}
			res("pi %v", err)
		case 14:
			_, err := d.CreateInternalSubset(o.s, "", "")
			res("subset %v", err)
		case 15:
			typ := []helium.EntityType{helium.InternalGeneralEntity, helium.InternalParameterEntity, helium.ExternalGeneralParsedEntity, helium.ExternalGeneralUnparsedEntity, helium.InternalGeneralEntity}[o.a%5]
			_, err := d.AddEntity(fmt.Sprintf("e%d", o.b%3), typ, "", "sys", o.t)
			res("entity %v", err)
		case 17:
			r, err := d.CreateReference(refNames[o.a%len(refNames)])
			if x := el(o.b); x != nil && err == nil {
				err = x.AddChild(r)
			}
			res("reference %v", err)
		case 18, 19:
			// a sibling at the end of the siblings of a node
			var x helium.Node
			switch {
			case o.a%3 == 0 && len(u.txts) > 0:
				x = u.txts[o.a%len(u.txts)]
			case o.a%3 == 1 && len(u.cmts) > 0:
				x = u.cmts[o.a%len(u.cmts)]
			default:
				e := el(o.a)
				if e == nil || isNil(e.Parent()) || e.Parent() == helium.Node(d) && o.b%4 < 2 {
					res("no sibling")
					return
				}
				x = e
			}
			switch o.b % 4 {
			case 0:
				t, _ := d.CreateText(arg)
				res("text %v", x.AddSibling(t))
			case 1:
				e, _ := d.CreateElement(o.s)
				res("element %v", x.AddSibling(e))
				u.els = append(u.els, e)
			case 2:
				c, _ := d.CreateComment(arg)
				res("comment %v", x.AddSibling(c))
				u.cmts = append(u.cmts, c)
			default:
				pi, _ := d.CreatePI(o.s, o.data)
				res("pi %v", x.AddSibling(pi))
			}
		case 20:
			// a node is replaced by a new one
			if len(u.txts) > 0 && o.b%2 == 0 {
				c, _ := d.CreateComment(arg)
				u.txts[o.a%len(u.txts)].Replace(c)
				u.cmts = append(u.cmts, c)
			} else if x := el(o.a); x != nil {
				e, _ := d.CreateElement(o.s)
				x.Replace(e)
				u.els = append(u.els, e)
			}
			res("replaced")
		case 21:
			e, _ := d.CreateElement(o.s)
			res("root %v", d.SetDocumentElement(e))
			u.els = append(u.els, e)
		case 22, 23:
			dtd := d.IntSubset()
			if dtd == nil {
				dtd, _ = d.CreateInternalSubset("a", "", "")
			}
			if dtd == nil {
				res("no subset")
				return
			}
			name := declNames[o.b%len(declNames)]
			typ := []helium.ElementTypeVal{helium.MixedElementType, helium.ElementElementType, helium.EmptyElementType, helium.UndefinedElementType}[o.a%4]
			var ec *helium.ElementContent
			var err error
			switch typ {
			case helium.MixedElementType:
				ec, err = d.CreateElementContent("", helium.ElementContentPCDATA)
			case helium.ElementElementType:
				ec, err = d.CreateElementContent(declNames[(o.a+o.b)%len(declNames)], helium.ElementContentElement)
			}
			if err == nil {
				_, err = dtd.AddElementDecl(name, typ, ec)
			}
			res("element declaration %v", err)
		case 24:
			typ := []helium.EntityType{helium.ExternalGeneralParsedEntity, helium.ExternalParameterEntity, helium.ExternalGeneralUnparsedEntity, helium.InternalParameterEntity, helium.InternalPredefinedEntity, 99, helium.InternalGeneralEntity}[o.a%7]
			_, err := d.AddEntity(fmt.Sprintf("e%d", o.b%3), typ, []string{"", "-//x//y", "\"'"}[o.b%3], []string{"sys", "a'b", "a\"b\"", ""}[o.a%4], o.t)
			res("entity %v", err)
		case 25:
			_, err := d.CreateInternalSubset(o.s, []string{"", "-//X//Y"}[o.a%2], []string{"", "x.dtd"}[o.b%2])
			res("subset %v", err)
		case 26:
			// text and comments take over what is added to them
			t, _ := d.CreateText(arg)
			c, _ := d.CreateComment(arg)
			if len(u.txts) > 0 {
				x := u.txts[o.a%len(u.txts)]
				res("text in text %v %v", x.AddChild(t), x.AddChild(c))
			}
			if len(u.cmts) > 0 {
				x := u.cmts[o.b%len(u.cmts)]
				res("comment in comment %v %v", x.AddChild(c), x.AddChild(t))
			}
		case 27:
			if ent, ok := d.GetEntity(fmt.Sprintf("e%d", o.b%3)); ok && ent.OwnerDocument() == d {
				if o.a%2 == 0 {
					ent.SetOrig("\"" + o.t + "\"")
				} else {
					ent.MarkChecked()
				}
				res("entity %v", ent.Checked())
			}
		case 28:
			if x := el(o.a); x != nil {
				if as := x.Attributes(); len(as) > 0 {
					at := as[o.b%len(as)]
					if o.a%2 == 0 {
						res("attribute content %v", at.AddContent(arg))
					} else {
						at.SetDefault(o.b%2 == 0)
					}
				}
			}
		case 29:
			if dtd := d.IntSubset(); dtd != nil {
				dtd.RemoveElement(o.s, "")
				_, ok := dtd.LookupElement(o.s, "")
				res("removed %v", ok)
			}
		default:
			if dtd := d.IntSubset(); dtd != nil {
				typ := []helium.ElementTypeVal{helium.EmptyElementType, helium.AnyElementType}[o.a%2]
				_, err := dtd.AddElementDecl(o.s, typ, nil)
				res("element declaration %v", err)
			} else {
				res("no subset")
			}
		}
	})
	if p != nil {
		res("panic %v", p)
	}
	u.n++
}

// state is everything observable about a universe.
func (u *universe) state() string {
	var out, s string
	p := guard(func() {
		x, err := u.doc.XMLString()
		out = fmt.Sprintf("%q %v", x, err)
	})
	if p != nil {
		out = fmt.Sprintf("dump panics: %v", p)
	}
	if p := guard(func() { s = snap(u.doc) }); p != nil {
		s = fmt.Sprintf("walk panics: %v", p)
	}
	return out + "\n" + s + strings.Join(u.log, "\n")
}

// firstDiff shows where two texts part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if lo > len(s) {
			return ""
		}
		s = s[lo:]
		if len(s) > 160 {
			s = s[:160]
		}
		return s
	}
	return fmt.Sprintf("%q became %q", cut(a), cut(b))
}
