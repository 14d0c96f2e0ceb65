package main

import (
	"fmt"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zzsim"
)

func init() {
	register(&Prop{ID: "C16", Quick: 100000, Run: runC16,
		Rule: "1 to 4 tasks walk one document (parsed, built, deep or wide) from the document and from random nodes with functions that return an error or panic at a random call, or walk, serialize or parse meanwhile; what each function saw is compared with the links of the tree."})
}

const (
	wkPlain = iota
	wkFail
	wkPanic
	wkRead
	wkWalk
	wkWalkFail
	wkDump
	wkParse
	nWk
)

var wkNames = []string{"nothing", "an error", "a panic", "reads", "a walk", "a failing walk", "a dump", "a parse"}

// linked lists a node and what is below it as the links show, and tells
// whether that was everything.
func linked(n helium.Node, max int) (l []helium.Node, all bool) {
	all = true
	var rec func(n helium.Node, d int)
	rec = func(n helium.Node, d int) {
		if len(l) >= max || d > 15000 {
			all = false
			return
		}
		l = append(l, n)
		for x := n.FirstChild(); x != nil && all; x = x.NextSibling() {
			rec(x, d+1)
		}
	}
	rec(n, 0)
	return
}

// walk is one walk and what its function does at one of its calls.
type walk struct {
	from  int // number of the node where it starts, 0: the document
	kind  int
	at    int // number of the call
	every bool
	err   error
	in    *walk // the walk that starts meanwhile
	give  []byte

	node  helium.Node
	saw   []helium.Node
	got   error
	p     interface{}
	fired bool
	inErr string
}

func (w *walk) String() string {
	return fmt.Sprintf("walk from node %d with %s at call %d (%v)", w.from, wkNames[w.kind], w.at, w.err)
}

const maxWalk = 20000

// run walks. The function itself must not be the one that never ends, so it
// gives up by itself at some time.
func (w *walk) run(doc *helium.Document, nodes []helium.Node) {
	w.node = doc
	if w.from > 0 && w.from <= len(nodes) {
		w.node = nodes[w.from-1]
	}
	w.p = guard(func() {
		w.got = helium.Walk(w.node, func(n helium.Node) error {
			i := len(w.saw)
			w.saw = append(w.saw, n)
			if i > maxWalk {
				panic(enough)
			}
			if i != w.at && !(w.every && i < 40 && w.kind > wkPanic) {
				return nil
			}
			w.fired = true
			switch w.kind {
			case wkFail:
				return w.err
			case wkPanic:
				panic(w.err)
			case wkRead:
				n.Content()
				n.Type()
				n.Parent()
				n.LastChild()
				n.OwnerDocument()
			case wkWalk, wkWalkFail:
				in := *w.in
				in.run(doc, nodes)
				if s := in.judge(); s != "" && w.inErr == "" {
					w.inErr = fmt.Sprintf("%v inside of it: %s", &in, s)
				}
			case wkDump:
				(&helium.Dumper{}).DumpDoc(&faultW{mode: wFail, at: 10 * i, err: w.err}, doc)
			case wkParse:
				helium.Parse(w.give)
			}
			return nil
		})
	})
}

var enough = fmt.Errorf("enough nodes")

// judge compares what happened with the links of the tree.
func (w *walk) judge() string {
	if w.inErr != "" {
		return w.inErr
	}
	want, all := linked(w.node, maxWalk)
	if !all && !(w.kind == wkFail || w.kind == wkPanic) {
		return ""
	}
	if w.kind == wkFail || w.kind == wkPanic {
		if w.at < len(want) {
			want = want[:w.at+1]
		} else if !all {
			return ""
		}
	}
	for i := range want {
		if i >= len(w.saw) {
			return fmt.Sprintf("the function was called for %d nodes, not for the %dth, %T %q (returned %v, panicked %v)", len(w.saw), i, want[i], clip2(want[i].Name(), 40), w.got, w.p)
		}
		if !eq(w.saw[i], want[i]) {
			return fmt.Sprintf("call %d was for %T %q, not for %T %q", i, w.saw[i], clip2(w.saw[i].Name(), 40), want[i], clip2(want[i].Name(), 40))
		}
	}
	if len(w.saw) > len(want) {
		x := w.saw[len(want)]
		return fmt.Sprintf("the function was called for %d nodes and not just for %d; the next one was %T %q", len(w.saw), len(want), x, clip2(x.Name(), 40))
	}
	switch {
	case w.fired && w.kind == wkPanic:
		if !eq(w.p, w.err) {
			return fmt.Sprintf("the function's panic came out as %v, returned %v", w.p, w.got)
		}
	case w.p != nil:
		return fmt.Sprintf("panicked: %v", w.p)
	case w.fired && w.kind == wkFail:
		if !eq(w.got, w.err) {
			return fmt.Sprintf("the function's error came out as %T %v", w.got, w.got)
		}
	case w.got != nil:
		return fmt.Sprintf("returned %v although the function never failed", w.got)
	}
	return ""
}

// bigTree builds a document that is deep, wide, or both.
func bigTree(s *Src, c *Ctx) func() *helium.Document {
	deep, wide := []int{0, 20, 70, 150, 300, 1100, 4100, 10500}[s.N(8)], []int{0, 3, 20, 70, 300, 1100}[s.N(6)]
	if s.Chance(50) {
		deep, wide = s.N(40), s.N(40)
	}
	at := s.N(deep + 1)
	c.tag("big tree")
	return func() *helium.Document {
		doc := helium.NewDocument("1.0", "", helium.StandaloneImplicitNo)
		e, _ := doc.CreateElement("r")
		doc.AddChild(e)
		for i := 0; i <= deep; i++ {
			if i == at {
				for j := 0; j < wide; j++ {
					if j%3 == 1 {
						e.AddContent([]byte{'a' + byte(j%26)})
						continue
					}
					x, _ := doc.CreateElement(fmt.Sprint("w", j))
					e.AddChild(x)
					if j%4 == 0 {
						x.AddContent([]byte("t"))
					}
				}
			}
			x, _ := doc.CreateElement(fmt.Sprint("d", i))
			e.AddChild(x)
			if i%5 == 0 {
				y, _ := doc.CreateElement("after")
				e.AddChild(y)
			}
			e = x
		}
		return doc
	}
}

func drawWalk(s *Src, n, calls, nested int, give []byte) *walk {
	w := &walk{kind: s.N(nWk), every: s.Chance(20), give: give, err: wErrs[s.N(len(wErrs))](s.N(50))}
	if s.Chance(60) {
		w.from = s.N(n + 1)
	}
	if w.at = s.N(calls + 2); s.Chance(30) {
		w.at = s.N(6)
	}
	if w.kind == wkWalk || w.kind == wkWalkFail {
		if nested == 0 {
			w.kind = wkRead
			return w
		}
		w.in = drawWalk(s, n, calls, nested-1, give)
		if w.kind == wkWalkFail {
			w.in.kind = wkFail
		}
		if w.in.kind > wkPanic {
			w.in.every = false
		}
		if calls > 100 {
			w.every = false
		}
	}
	return w
}

func runC16(s *Src, c *Ctx) *Violation {
	pol := drawPol(s)
	var v *Violation
	var doc, ref *helium.Document
	var nodes []helium.Node
	var before string
	give := genDoc(s, NewCtx()).Bytes
	if len(give) > 2000 {
		give = []byte("<a b='c'>d</a>")
	}
	r := c.solo(pol, 1<<32, func() {
		if s.Chance(12) {
			f := bigTree(s, c)
			doc, ref = f(), f()
		} else if doc, ref, v = drawRecipe(s, c).pair(s, c); v != nil {
			return
		}
		before = snap(ref)
		nodes = nodesOf(ref)
	})
	if e := ended(r); e != nil {
		return e
	}
	if v != nil {
		return v
	}
	n := len(nodes)
	whole, _ := linked(ref, maxWalk) // of the twin, if there is one
	if n < 500 {
		c.mark(strHash(before))
	}
	if s.Chance(3) {
		calls := 0
		var err error
		if p := guard(func() { err = helium.Walk(nil, func(helium.Node) error { calls++; return nil }) }); p != nil || err == nil || calls > 0 {
			return viol("nil", "walking nothing returned %v after %d calls (%v)", err, calls, p)
		}
	}
	nt := []int{1, 1, 2, 2, 3, 4}[s.N(6)]
	all := make([][]*walk, nt)
	for i := range all {
		k := 1 + s.N(4)
		if s.Chance(3) {
			k = manyTimes(s, 20*len(whole))
			c.tag("long history")
		}
		first := drawWalk(s, n, len(whole), 2, give)
		for j := 0; j < k; j++ {
			if k > 10 && j%5 > 0 {
				x := *first
				all[i] = append(all[i], &x)
				continue
			}
			all[i] = append(all[i], drawWalk(s, n, len(whole), 2, give))
		}
	}
	own := doc == ref // nobody may look for nodes in the document before
	if !own && s.Chance(50) {
		nodes = nodesOf(doc)
	} else if !own {
		nodes = nil
	}
	var tasks []zzsim.Named
	for i := range all {
		l := all[i]
		tasks = append(tasks, zzsim.Named{Name: fmt.Sprintf("walker %d", i), Fn: func() {
			for _, w := range l {
				w.run(doc, nodes)
			}
		}})
	}
	cfg := drawSched(s, pol)
	cfg.Budget = 1 << 32
	if nt > 1 {
		c.tag("interleaved walks")
	}
	if v := ended(c.sim(cfg, tasks...)); v != nil {
		return v
	}
	for _, l := range all {
		for _, w := range l {
			if w.fired {
				c.fault("walk: " + wkNames[w.kind])
				c.NonTriv = true
			}
			c.note("%v saw %d nodes", w, len(w.saw))
			c.mark(uint64(len(w.saw)))
			if s := w.judge(); s != "" {
				return viol("walk", "%v: %s", w, s)
			}
		}
	}
	if after := snap(doc); after != before {
		return viol("changed", "walking changed the document: %s", firstDiff(before, after))
	}
	return nil
}
