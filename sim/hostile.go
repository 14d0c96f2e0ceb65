package main

import (
	"fmt"
	"strings"
)

// hostileDoc makes an input that asks for much: entities that refer to each
// other in any way (also through character references, and in cycles), deep
// nesting, long lists and names. It returns the input and the size that it
// asks to be expanded to; what is recursive counts as nothing, as parsing ends
// there.
func hostileDoc(s *Src, c *Ctx) ([]byte, int) {
	c.fault("hostile document")
	var b strings.Builder
	if !s.Chance(35) {
		return entityGraph(s, c)
	}
	// sizes: usually moderate, rarely past what a parser may recurse for
	n := 1 + s.N(60)
	switch {
	case s.Chance(2):
		n = 60000 + s.N(20000)
		c.tag("very deep")
	case s.Chance(30):
		n = 100 + s.N(1500)
	}
	rep := strings.Repeat
	unclosed := s.Chance(30)
	kind := s.N(14)
	if n > 5000 && kind > 2 { // the others are quadratic
		kind = s.N(3)
	}
	c.tag(fmt.Sprintf("hostile %d", kind))
	switch kind {
	case 0: // elements
		b.WriteString(rep("<a>", n))
		if !unclosed {
			b.WriteString(rep("</a>", n))
		}
	case 1: // a long content model
		sep := s.Pick([]string{",b", "|b", ",b?", "|b*", ",(b|c)", "|(b,c)"})
		b.WriteString("<!DOCTYPE a [<!ELEMENT a (b" + rep(sep, n) + ")" + s.Pick([]string{"", "*", "?"}) + ">]><a/>")
	case 2: // a deep content model
		b.WriteString("<!DOCTYPE a [<!ELEMENT a " + rep("(", n) + "b")
		if !unclosed {
			b.WriteString(rep(s.Pick([]string{")", ")*", ",c)", "|c)?"}), n))
		}
		b.WriteString(">]><a/>")
	case 3: // elements in an entity
		b.WriteString("<!DOCTYPE a [<!ENTITY e '" + rep("<a>", n) + rep("</a>", n) + "'>]><a>&e;</a>")
	case 4: // a long enumeration
		b.WriteString("<!DOCTYPE a [<!ATTLIST a b (x")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "|x%d", i)
		}
		b.WriteString(") 'x'>]><a/>")
	case 5: // attributes
		b.WriteString("<a")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " x%d='%d'", i, i)
		}
		b.WriteString("/>")
	case 6: // a chain of entities
		b.WriteString("<!DOCTYPE a [<!ENTITY e0 'x'>")
		n = min(n, 100)
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, "<!ENTITY e%d '%s&e%d;'>", i, s.Pick([]string{"", "y"}), i-1)
		}
		fmt.Fprintf(&b, "]><a b='&e%d;'>&e%d;</a>", n, n)
	case 7: // namespaces
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "<p%d:a xmlns:p%d='u%d'>", i%7, i%7, i)
		}
		for i := n - 1; i >= 0 && !unclosed; i-- {
			fmt.Fprintf(&b, "</p%d:a>", i%7)
		}
	case 8: // a long name
		x := rep("n", min(n*4, 3000))
		b.WriteString("<" + x + " " + x + "='" + x + "'>&" + x + ";</" + x + ">")
	case 9: // brackets and dashes
		b.WriteString("<a><![CDATA[" + rep("]", n) + rep("]>", n) + "]]>" + rep("&gt;", n) + "<!--" + rep("- ", n) + "--></a>")
	case 10: // a chain of parameter entities
		b.WriteString("<!DOCTYPE a [<!ENTITY % p0 'x'>")
		n = min(n, 100)
		for i := 1; i <= n; i++ {
			fmt.Fprintf(&b, "<!ENTITY %% p%d '%s%sp%d;'>", i, s.Pick([]string{"", "y"}), s.Pick([]string{"%", "&#37;"}), i-1)
		}
		fmt.Fprintf(&b, "<!ENTITY e '%%p%d;'>]><a b='&e;'>&e;</a>", n)
	case 11: // instructions and comments
		b.WriteString(rep("<?p "+rep("?", s.N(4))+"?>", n) + "<a>" + rep("<!---->", n) + "</a>" + rep("<!--x-->", n))
	case 12: // declarations of the same things
		b.WriteString("<!DOCTYPE a [" + rep("<!ENTITY e 'x'>", n) + rep("<!ATTLIST a b CDATA 'x'>", n) + rep("<!ELEMENT a ANY>", s.N(2)*n) + "]><a>&e;</a>")
	default: // character references
		b.WriteString("<a b='" + rep("&#65;", n) + rep("&#x", s.N(2)) + rep("0", n) + "41;'>" + rep("&#", s.N(2)) + rep("0", n) + "65;" + rep("&amp;", n) + "</a>")
	}
	return []byte(b.String()), 0
}

// entityGraph makes entities with random references to each other, used in
// content, attribute values, default values and entity values.
func entityGraph(s *Src, c *Ctx) ([]byte, int) {
	ng, np := 1+s.N(6), s.N(5)
	fwd := s.Chance(40) // only references to what is declared before
	size := map[string]int{}
	refs := map[string][]string{}
	piece := func(self string, i, lim, plim int) string {
		g := func() string {
			k := s.N(max(lim, 1))
			r := fmt.Sprintf("e%d", k)
			refs[self] = append(refs[self], r)
			return r
		}
		p := func() string {
			if plim == 0 {
				return "q"
			}
			r := fmt.Sprintf("p%d", s.N(plim))
			refs[self] = append(refs[self], r)
			return r
		}
		switch s.N(16) {
		case 0, 1, 2:
			return "x"
		case 3, 4, 5, 6:
			if lim == 0 {
				return "y"
			}
			return "&" + g() + ";"
		case 7:
			if lim == 0 {
				return "y"
			}
			return "&#38;" + g() + ";"
		case 8, 9:
			return "%" + p() + ";"
		case 10, 11:
			return "&#37;" + p() + ";"
		case 12:
			if lim == 0 {
				return "<b/>"
			}
			return "<b c='&" + g() + ";'>&" + g() + ";</b>"
		case 13:
			return s.Pick([]string{"<b>", "</b>", "<![CDATA[", "]]>", "<!--", "<b", "<?p?>"})
		case 14:
			return s.Pick([]string{"&#60;b>", "&#60;/b>", "&amp;", "&lt;", "&#38;#60;", "&#x26;amp;"})
		default:
			return s.Pick([]string{" ", "é", "\r\n", "\t", ">", "]"})
		}
	}
	value := func(self string, i, lim, plim int) string {
		v := ""
		for n := s.N(5); n > 0; n-- {
			v += piece(self, i, lim, plim)
		}
		return strings.ReplaceAll(v, `"`, "'")
	}
	var b strings.Builder
	b.WriteString("<!DOCTYPE a [")
	pi, gi := 0, 0
	for pi < np || gi < ng {
		lim, plim := ng, np
		if fwd {
			lim, plim = gi, pi
		}
		if pi < np && (gi >= ng || s.Chance(50)) {
			n := fmt.Sprintf("p%d", pi)
			v := value(n, pi, lim, plim)
			size[n] = len(v)
			fmt.Fprintf(&b, `<!ENTITY %% %s "%s">`, n, v)
			pi++
			if s.Chance(20) {
				fmt.Fprintf(&b, "%%%s;", n)
			}
		} else {
			n := fmt.Sprintf("e%d", gi)
			v := value(n, gi, lim, plim)
			size[n] = len(v)
			fmt.Fprintf(&b, `<!ENTITY %s "%s">`, n, v)
			gi++
		}
		if s.Chance(15) {
			fmt.Fprintf(&b, `<!ATTLIST %s d%d CDATA "&e%d;">`, s.Pick([]string{"a", "b"}), gi, s.N(ng))
			c.tag("default with entity")
		}
	}
	b.WriteString("]><a")
	uses := ""
	for n := s.N(3); n > 0; n-- {
		r := fmt.Sprintf("e%d", s.N(ng))
		fmt.Fprintf(&b, " x%d='%s&%s;'", n, s.Pick([]string{"", "z"}), r)
		uses += r + " "
	}
	b.WriteString(">")
	for n := s.N(4); n > 0; n-- {
		r := fmt.Sprintf("e%d", s.N(ng))
		b.WriteString(s.Pick([]string{"", "t", "<b/>", "<b>"}) + "&" + r + ";")
		uses += r + " "
	}
	b.WriteString("</a>")
	// what it expands to
	var exp func(n string, path map[string]bool) int
	memo := map[string]int{}
	cyclic := false
	exp = func(n string, path map[string]bool) int {
		if path[n] {
			cyclic = true
			return 0
		}
		if v, ok := memo[n]; ok {
			return v
		}
		path[n] = true
		t := size[n]
		for _, r := range refs[n] {
			t += exp(r, path)
		}
		delete(path, n)
		memo[n] = min(t, 1<<20)
		return memo[n]
	}
	all := 0
	for i := 0; i < ng; i++ {
		all += exp(fmt.Sprintf("e%d", i), map[string]bool{})
	}
	for i := 0; i < np; i++ {
		all += exp(fmt.Sprintf("p%d", i), map[string]bool{})
	}
	if cyclic {
		c.tag("cyclic entities")
	} else {
		c.tag("acyclic entities")
	}
	return []byte(b.String()), min(all*len(strings.Fields(uses))+all, 1<<14)
}
