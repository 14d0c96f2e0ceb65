package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium"
)

// The content of an element declaration is compared by the language it
// describes, as there are many ways to write (and to keep) the same model:
// canonContent gives the minimal automaton of a content model as a string.

type cm struct { // positions of a part of a model
	null        bool
	first, last []int
}

type cmParser struct {
	s      string
	i      int
	names  []string
	follow [][]int
	bad    bool
}

func (p *cmParser) occur(n cm) cm {
	if p.i >= len(p.s) {
		return n
	}
	switch p.s[p.i] {
	case '?':
		n.null = true
	case '*':
		n.null = true
		p.link(n.last, n.first)
	case '+':
		p.link(n.last, n.first)
	default:
		return n
	}
	p.i++
	return n
}

func (p *cmParser) link(from, to []int) {
	for _, f := range from {
		p.follow[f] = append(p.follow[f], to...)
	}
}

func (p *cmParser) part() cm {
	if p.i < len(p.s) && p.s[p.i] == '(' {
		p.i++
		n := p.part()
		for p.i < len(p.s) && (p.s[p.i] == ',' || p.s[p.i] == '|') {
			sep := p.s[p.i]
			p.i++
			m := p.part()
			if sep == ',' {
				p.link(n.last, m.first)
				r := cm{null: n.null && m.null}
				r.first = append(r.first, n.first...)
				if n.null {
					r.first = append(r.first, m.first...)
				}
				r.last = append(r.last, m.last...)
				if m.null {
					r.last = append(r.last, n.last...)
				}
				n = r
			} else {
				n = cm{null: n.null || m.null, first: append(append([]int(nil), n.first...), m.first...), last: append(append([]int(nil), n.last...), m.last...)}
			}
		}
		if p.i >= len(p.s) || p.s[p.i] != ')' {
			p.bad = true
			return n
		}
		p.i++
		return p.occur(n)
	}
	j := p.i
	for p.i < len(p.s) && strings.IndexByte("(),|?*+", p.s[p.i]) < 0 {
		p.i++
	}
	if p.i == j {
		p.bad = true
		p.i++
	}
	if p.i > len(p.s) {
		p.i = len(p.s)
	}
	k := len(p.names)
	p.names = append(p.names, p.s[j:p.i])
	p.follow = append(p.follow, nil)
	return p.occur(cm{first: []int{k}, last: []int{k}})
}

func canonContent(s string) string {
	s = strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' || r == '\t' || r == '\r' {
			return -1
		}
		return r
	}, s)
	if len(s) > 400 {
		return s
	}
	p := &cmParser{s: s}
	if strings.HasPrefix(s, "(#PCDATA") { // text is allowed anywhere
		l := strings.Split(strings.Trim(s, "()*"), "|")
		sort.Strings(l)
		return strings.Join(l, "|")
	}
	n := p.part()
	if p.bad || p.i != len(s) {
		return "malformed " + s
	}
	// subsets of positions; the start is a position of its own
	type state struct {
		acc  bool
		next map[string]int
	}
	isLast := map[int]bool{}
	for _, x := range n.last {
		isLast[x] = true
	}
	key := func(l []int) string { return fmt.Sprint(l) }
	uniq := func(l []int) []int {
		l = append([]int(nil), l...)
		sort.Ints(l)
		k := 0
		for i, x := range l {
			if i == 0 || x != l[k-1] {
				l[k] = x
				k++
			}
		}
		return l[:k]
	}
	states := []*state{{acc: n.null, next: map[string]int{}}}
	sets := [][]int{nil}
	ids := map[string]int{}
	step := func(from int, to []int) {
		by := map[string][]int{}
		for _, x := range to {
			by[p.names[x]] = append(by[p.names[x]], x)
		}
		for name, l := range by {
			l = uniq(l)
			id, ok := ids[key(l)]
			if !ok {
				id = len(states)
				ids[key(l)] = id
				st := &state{next: map[string]int{}}
				for _, x := range l {
					st.acc = st.acc || isLast[x]
				}
				states = append(states, st)
				sets = append(sets, l)
			}
			states[from].next[name] = id
		}
	}
	step(0, n.first)
	for i := 1; i < len(states); i++ {
		var to []int
		for _, x := range sets[i] {
			to = append(to, p.follow[x]...)
		}
		step(i, uniq(to))
	}
	// Moore: split classes until nothing changes
	cls := make([]int, len(states))
	for i, st := range states {
		if st.acc {
			cls[i] = 1
		}
	}
	syms := func(st *state) []string {
		var l []string
		for k := range st.next {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	for count := 0; ; {
		m := map[string]int{}
		next := make([]int, len(states))
		for i, st := range states {
			k := fmt.Sprint(cls[i])
			for _, x := range syms(st) {
				k += fmt.Sprintf(" %s>%d", x, cls[st.next[x]])
			}
			if _, ok := m[k]; !ok {
				m[k] = len(m)
			}
			next[i] = m[k]
		}
		cls = next
		if len(m) == count {
			break
		}
		count = len(m)
	}
	// numbered as they are met
	num := map[int]int{cls[0]: 0}
	queue := []int{0}
	var b strings.Builder
	for len(queue) > 0 {
		st := states[queue[0]]
		queue = queue[1:]
		if st.acc {
			b.WriteByte('!')
		}
		for _, x := range syms(st) {
			t := st.next[x]
			if _, ok := num[cls[t]]; !ok {
				num[cls[t]] = len(num)
				queue = append(queue, t)
			}
			fmt.Fprintf(&b, "%s>%d ", x, num[cls[t]])
		}
		b.WriteByte(';')
	}
	return b.String()
}

// contentOf is the model that was delivered, as a document with it shows it.
func contentOf(typ int, c interface{}) string {
	ec, ok := c.(*helium.ElementContent)
	if !ok || ec == nil {
		return ""
	}
	d := helium.NewDocument("1.0", "", helium.StandaloneImplicitNo)
	dtd, err := d.CreateInternalSubset("x", "", "")
	if err != nil {
		return err.Error()
	}
	if _, err := dtd.AddElementDecl("x", helium.ElementTypeVal(typ), ec); err != nil {
		return err.Error()
	}
	var b strings.Builder
	if err := d.XML(&b); err != nil {
		return err.Error()
	}
	s := b.String()
	i := strings.Index(s, "<!ELEMENT x ")
	if i < 0 {
		return s
	}
	s = s[i+len("<!ELEMENT x "):]
	if j := strings.IndexByte(s, '>'); j >= 0 {
		s = s[:j]
	}
	return canonContent(s)
}
