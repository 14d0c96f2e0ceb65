package main

import (
	"fmt"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zzsim"
)

func init() {
	register(&Prop{ID: "C01", Quick: 500000, Run: runC01,
		Rule: "parsed or built documents are serialized by every API (documents and random nodes) into writers that fail at a random byte or call: permanently, transiently, by accepting too little, or by accepting all and failing; small documents with every call failing once. Two dumps may run interleaved."})
	register(&Prop{ID: "C02", Quick: 500000, Run: runC02,
		Rule: "as C01, with the accepted bytes compared at every Write call with the text that a fault-free serialization gives, for writers that fail, panic, or accept partial writes, alone and with several dumps interleaved."})
	register(&Prop{ID: "C03", Quick: 200000, Run: runC03,
		Rule: "a document goes through 3 to 10 serializations of itself and its nodes into good, failing, panicking and re-entrant writers and other read-only uses, one after the other or interleaved in 2 to 3 tasks; walks, texts and node links are compared before and after."})
	register(&Prop{ID: "C11", Quick: 200000, Run: runC11,
		Rule: "two or more documents are parsed and built by interleaved operations that share input slices and buffers (overwritten after every use), with other parses, failing parses and dumps in between; each is compared with its twin, built alone from private copies."})
}

// recipe is how a document is made: parsed, built, or parsed and then
// extended. It can be followed more than once.
type recipe struct {
	version, enc string
	alone        helium.DocumentStandaloneType
	in           *Model
	ops          []domOp
}

func drawRecipe(s *Src, c *Ctx) *recipe {
	kind := s.N(4)
	r := &recipe{}
	if kind == 0 {
		r.version, r.enc = s.Pick([]string{"1.0", "", "1.1"}), s.Pick([]string{"", "utf-8"})
		r.alone = helium.DocumentStandaloneType([]int{helium.StandaloneImplicitNo, helium.StandaloneExplicitYes, helium.StandaloneExplicitNo}[s.N(3)])
		c.tag("document built")
	} else {
		r.in = genDoc(s, c)
		c.note("parsed %s", clip2(string(r.in.Bytes), 250))
	}
	if kind < 2 {
		for i, n := 0, 1+s.N(25); i < n; i++ {
			r.ops = append(r.ops, drawDomOp(s))
		}
	}
	return r
}

// make follows the recipe. Nobody has looked at the document afterwards.
func (r *recipe) make(c *Ctx) (*helium.Document, *Violation) {
	var doc *helium.Document
	if r.in == nil {
		doc = helium.NewDocument(r.version, r.enc, r.alone)
	} else {
		var err error
		if doc, err = helium.Parse(r.in.Bytes); err != nil || doc == nil {
			return nil, viol("rejected", "a well-formed document was rejected: %v\n%s", err, clip(string(r.in.Bytes)))
		}
	}
	if len(r.ops) > 0 {
		u := newUniverse(doc)
		buf := make([]byte, 64)
		for _, o := range r.ops {
			u.do(o, buf)
		}
		c.note("built %v", u.log)
	}
	return doc, nil
}

// pair makes a document that nobody has looked at and another one, from the
// same recipe, to take the expectations from; or one document for both.
func (r *recipe) pair(s *Src, c *Ctx) (fresh, ref *helium.Document, v *Violation) {
	if fresh, v = r.make(c); v != nil {
		return
	}
	if s.Chance(40) {
		return fresh, fresh, nil
	}
	c.tag("expectation from a twin")
	ref, v = r.make(c)
	return
}

// again makes the document once more for these targets.
func (r *recipe) again(c *Ctx, pol zzsim.Config, ts []*target) (doc *helium.Document, v *Violation) {
	res := c.solo(pol, 1<<32, func() {
		if doc, v = r.make(c); v == nil {
			nodes := nodesOf(doc)
			for _, t := range ts {
				t.bind(doc, nodes)
			}
		}
	})
	if e := ended(res); e != nil {
		v = e
	}
	return
}

func runC01(s *Src, c *Ctx) *Violation { return dumpFaults(s, c, false) }
func runC02(s *Src, c *Ctx) *Violation { return dumpFaults(s, c, true) }

type dumpRun struct {
	t     *target
	w     *faultW
	shape int
	err   error
	p     interface{}
}

func (d *dumpRun) String() string {
	return fmt.Sprintf("%s into a writer with fault %q at %d (%v)", d.t.name, wNames[d.w.mode], d.w.at, d.w.err)
}

func dumpFaults(s *Src, c *Ctx, prefix bool) *Violation {
	var v *Violation
	var runs []*dumpRun
	var doc *helium.Document
	var ts []*target
	var rec *recipe
	pol := drawPol(s)
	r := c.solo(pol, 1<<32, func() {
		var ref *helium.Document
		rec = drawRecipe(s, c)
		if doc, ref, v = rec.pair(s, c); v != nil {
			return
		}
		for i, t := range targets(s, doc, ref, 3, true) {
			ok, why := t.ref()
			if !ok {
				if i < 2 {
					c.tag("document that cannot be dumped: " + clip2(why, 40))
				}
				continue
			}
			ts = append(ts, t)
			c.mark(strHash(t.want))
		}
	})
	if e := ended(r); e != nil {
		return e
	}
	if v != nil || len(ts) == 0 {
		return v
	}
	if s.Chance(30) {
		// nothing has been serialized in this process
		zzsim.Reset()
		c.tag("fresh process")
		if doc, v = rec.again(c, pol, ts); v != nil {
			return v
		}
	}
	if s.Chance(12) {
		// every call of a small target fails once
		t := ts[s.N(len(ts))]
		if t.call <= 60 {
			m := []int{wTransient, wAllErr, wFailCall, wZero}[s.N(4)]
			for i := 0; i < t.call; i++ {
				runs = append(runs, &dumpRun{t: t, w: &faultW{mode: m, at: i, err: wErrs[i%len(wErrs)](i)}})
			}
		}
	}
	for i, n := 0, 4+s.N(6); i < n; i++ {
		t := ts[s.N(len(ts))]
		d := &dumpRun{t: t, shape: s.N(3)}
		mode := s.N(nWModes)
		at := 0
		switch mode {
		case wTransient, wAllErr, wFailCall, wZero:
			at = s.N(t.call + 1)
		default:
			at = s.N(len(t.want) + 1)
			if s.Chance(15) {
				at = len(t.want) - 1 - s.N(3)
			}
		}
		if at < 0 {
			at = 0
		}
		d.w = &faultW{mode: mode, at: at, err: wErrs[s.N(len(wErrs))](s.N(50))}
		runs = append(runs, d)
	}
	for _, d := range runs {
		d.w.want, d.w.check = d.t.want, prefix
	}
	exec := func(d *dumpRun) { d.p = guard(func() { d.err = d.t.dump(d.w.as(d.shape)) }) }
	if s.Chance(30) {
		// interleaved
		k := 2 + s.N(2)
		var tasks []zzsim.Named
		for i := 0; i < k; i++ {
			i := i
			tasks = append(tasks, zzsim.Named{Name: fmt.Sprintf("dumper %d", i), Fn: func() {
				for j := i; j < len(runs); j += k {
					exec(runs[j])
				}
			}})
		}
		cfg := drawSched(s, pol)
		cfg.Budget = 1 << 32
		c.tag("interleaved dumps")
		if v := ended(c.sim(cfg, tasks...)); v != nil {
			return v
		}
	} else {
		if s.Chance(25) {
			w := &sameW{}
			exec = func(d *dumpRun) {
				w.cur = d.w
				d.p = guard(func() { d.err = d.t.dump(w) })
			}
			c.tag("one writer, several dumps")
		}
		for _, d := range runs {
			d := d
			if v := ended(c.solo(pol, 1<<32, func() { exec(d) })); v != nil {
				v.Detail += fmt.Sprintf(" (%v)", d)
				return v
			}
		}
	}
	for _, d := range runs {
		w := d.w
		if w.fired {
			c.fault(wNames[w.mode])
		}
		c.mark(uint64(len(w.buf))<<20 ^ uint64(w.mode)<<8 ^ uint64(w.calls))
		c.note("%v -> %v", d, d.err)
		if prefix {
			if w.bad != "" {
				return viol("not a prefix", "%v: %s", d, w.bad)
			}
			if w.fired && w.after > 0 {
				return viol("write after failure", "%v: %d more writes were offered after the failure", d, w.after)
			}
			if d.p == nil && d.err == nil && string(w.buf) != w.want {
				return viol("incomplete", "%v: success was reported but the writer holds %s", d, firstDiff(w.want, string(w.buf)))
			}
			continue
		}
		if w.mode == wPanic {
			if d.p != nil && !(w.fired && eq(d.p, w.err)) {
				return viol("panic", "%v: panicked with %v", d, d.p)
			}
			if w.fired && d.p == nil && d.err == nil {
				return viol("error lost", "%v: the writer's panic was swallowed and success reported", d)
			}
			continue
		}
		if d.p != nil {
			return viol("panic", "%v: panicked with %v", d, d.p)
		}
		if !w.fired {
			if d.err != nil {
				return viol("spurious error", "%v: every write succeeded but the dump failed: %v", d, d.err)
			}
			continue
		}
		if d.err == nil {
			return viol("error lost", "%v: the failed write was reported as success (%d of %d bytes accepted)", d, len(w.buf), len(w.want))
		}
		if w.mode != wShort && w.mode != wZero && !carries(d.err, w.err) {
			return viol("error changed", "%v: the error %q is not the writer's", d, d.err)
		}
	}
	return nil
}

// drawSched draws how tasks are interleaved.
func drawSched(s *Src, pol zzsim.Config) zzsim.Config {
	pol.Seed = s.Seed()
	pol.Mean = []int{1000, 1, 4, 15, 60, 250, 4000, 0}[s.N(8)]
	pol.YieldPct = []int{20, 0, 50, 90}[s.N(4)]
	return pol
}

// manyTimes draws how often something of that size is repeated.
func manyTimes(s *Src, size int) int {
	n := []int{12, 20, 35, 45, 70, 105, 140, 270, 530, 1050}[s.N(10)]
	if max := 400000 / (size + 1); n > max {
		n = max
	}
	return n
}

// --- C03

func runC03(s *Src, c *Ctx) *Violation {
	pol := drawPol(s)
	var v *Violation
	var doc, ref *helium.Document
	var ts []*target
	var before string
	refs := map[*target]string{}
	var rec *recipe
	r := c.solo(pol, 1<<32, func() {
		rec = drawRecipe(s, c)
		if doc, ref, v = rec.pair(s, c); v != nil {
			return
		}
		before = snap(ref)
		for _, t := range targets(s, doc, ref, 4, true) {
			if ok, _ := t.ref(); ok {
				ts = append(ts, t)
				refs[t] = t.want
				c.mark(strHash(t.want))
			}
		}
	})
	if e := ended(r); e != nil {
		return e
	}
	if v != nil || len(ts) == 0 {
		return v
	}
	if d := snap(ref); d != before {
		return viol("changed", "the first serialization changed the document: %s", firstDiff(before, d))
	}
	if s.Chance(30) {
		// nothing has been serialized in this process
		zzsim.Reset()
		c.tag("fresh process")
		if doc, v = rec.again(c, pol, ts); v != nil {
			return v
		}
	}
	type act struct {
		t     *target
		mode  int
		at    int
		shape int
		bad   string
		fired bool
	}
	var acts []*act
	for i, n := 0, 3+s.N(8); i < n; i++ {
		t := ts[s.N(len(ts))]
		acts = append(acts, &act{t: t, mode: s.N(nWModes + 4), at: s.N(len(t.want) + 2), shape: s.N(3)})
	}
	if s.Chance(3) { // the same things many times
		k := len(acts)
		if k > 3 {
			k = 3
		}
		for n := manyTimes(s, len(before)+200); len(acts) < n; {
			x := *acts[len(acts)%k]
			acts = append(acts, &x)
		}
		c.tag("long history")
	}
	do := func(a *act) {
		switch {
		case a.mode < nWModes:
			at := a.at
			if a.mode == wTransient || a.mode == wAllErr || a.mode == wFailCall || a.mode == wZero {
				at = a.at % (a.t.call + 1)
			}
			w := &faultW{mode: a.mode, at: at, err: plainErr{9}}
			var err error
			p := guard(func() { err = a.t.dump(w.as(a.shape)) })
			a.fired = w.fired
			if !w.fired && (p != nil || err != nil || string(w.buf) != refs[a.t]) {
				a.bad = fmt.Sprintf("%s after other dumps: %s (%v %v)", a.t.name, firstDiff(refs[a.t], string(w.buf)), err, p)
			}
		case a.mode == nWModes:
			if x := snap(doc); x != before {
				a.bad = "the walk differs: " + firstDiff(before, x)
			}
		case a.mode == nWModes+1:
			// another dump of the same document starts inside of Write
			w := &hookW{}
			n := 0
			w.hook = func() {
				if n++; n == 1+a.at%7 {
					x := &faultW{mode: wFail, at: a.at / 2, err: plainErr{3}}
					a.t.dump(x)
				}
			}
			if err := a.t.dump(w); err != nil || string(w.buf) != refs[a.t] {
				a.bad = fmt.Sprintf("%s with a nested dump: %s (%v)", a.t.name, firstDiff(refs[a.t], string(w.buf)), err)
			}
		case a.mode == nWModes+2:
			cnt := 0
			helium.Walk(doc, func(n helium.Node) error {
				if cnt++; cnt > a.at {
					return plainErr{1}
				}
				n.Content()
				return nil
			})
		default:
			doc.Encoding()
			doc.GetEntity("e0")
			doc.GetParameterEntity("e0")
			doc.IsMixedElement("a")
			if dtd := doc.IntSubset(); dtd != nil {
				dtd.LookupElement("a", "")
				dtd.LookupAttribute("d0", "", "a")
			}
			for _, x := range nodesOf(doc) {
				if e, ok := x.(*helium.Element); ok {
					e.Attributes()
					e.XMLString()
				}
			}
		}
	}
	if s.Chance(40) {
		k := 2 + s.N(2)
		var tasks []zzsim.Named
		for i := 0; i < k; i++ {
			i := i
			tasks = append(tasks, zzsim.Named{Name: fmt.Sprintf("reader %d", i), Fn: func() {
				for j := i; j < len(acts); j += k {
					do(acts[j])
				}
			}})
		}
		cfg := drawSched(s, pol)
		cfg.Budget = 1 << 32
		c.tag("interleaved readers")
		r = c.sim(cfg, tasks...)
	} else {
		r = c.solo(pol, 1<<32, func() {
			for _, a := range acts {
				do(a)
			}
		})
	}
	if v := ended(r); v != nil {
		return v
	}
	for _, a := range acts {
		if a.fired {
			c.fault(wNames[a.mode])
		}
		if a.mode == nWModes+1 {
			c.fault("dump inside of a dump")
		}
		if a.bad != "" {
			return viol("changed", "%s", a.bad)
		}
	}
	if d := snap(doc); d != before {
		return viol("changed", "serializing changed the document: %s", firstDiff(before, d))
	}
	for _, t := range ts {
		t.refdump = t.dump
		if ok, why := t.ref(); !ok || t.want != refs[t] {
			return viol("changed", "%s later: %s %s", t.name, firstDiff(refs[t], t.want), why)
		}
	}
	c.NonTriv = true
	return nil
}

// --- C11

func runC11(s *Src, c *Ctx) *Violation {
	type member struct {
		in  []byte
		ops []domOp
		m   *Model
	}
	k := 2 + s.N(2)
	var ms []*member
	same := s.Chance(50)
	for i := 0; i < k; i++ {
		x := &member{}
		if s.Chance(75) {
			if same && i > 0 && ms[0].in != nil {
				x.in, x.m = ms[0].in, ms[0].m
			} else {
				m := genDoc(s, c)
				x.in, x.m = m.Bytes, m
			}
		}
		for j, n := 0, s.N(20); j < n; j++ {
			x.ops = append(x.ops, drawDomOp(s))
		}
		ms = append(ms, x)
	}
	mk := func(x *member, in []byte) (*universe, error) {
		if x.in == nil {
			d := helium.CreateDocument()
			u := newUniverse(d)
			return u, nil
		}
		d, err := helium.Parse(in)
		if err != nil {
			return nil, err
		}
		return newUniverse(d), nil
	}
	// alone
	var want []string
	for _, x := range ms {
		var st string
		var err error
		r := c.solo(calm, 1<<32, func() {
			var u *universe
			if u, err = mk(x, append([]byte(nil), x.in...)); err != nil {
				return
			}
			for _, o := range x.ops {
				u.do(o, make([]byte, len(o.data)))
			}
			st = u.state()
		})
		if v := ended(r); v != nil {
			return v
		}
		if err != nil {
			return viol("rejected", "a well-formed document was rejected: %v\n%s", err, clip(string(x.in)))
		}
		want = append(want, st)
	}
	// together
	var noise []*Plan
	for i, n := 0, s.N(3); i < n; i++ {
		noise = append(noise, drawPlan(s, c, "noise", 30, 40))
	}
	big := 0
	for _, x := range ms {
		if len(x.in) > big {
			big = len(x.in)
		}
	}
	shared := make([]byte, big)
	junk := byte("#<&\x00\xff"[s.N(5)])
	bufLen := 48 + s.N(3)*40
	us := make([]*universe, k)
	var got []string
	var err error
	r := c.solo(drawPol(s), 1<<32, func() {
		buf := make([]byte, bufLen)
		for i, x := range ms {
			b := shared[:len(x.in)]
			copy(b, x.in)
			if us[i], err = mk(x, b); err != nil {
				return
			}
			for j := range shared {
				shared[j] = junk
			}
		}
		c.fault("input overwritten after Parse")
		pos := make([]int, k)
		for {
			var live []int
			for i, x := range ms {
				if pos[i] < len(x.ops) {
					live = append(live, i)
				}
			}
			if len(live) == 0 {
				break
			}
			i := live[s.N(len(live))]
			us[i].do(ms[i].ops[pos[i]], buf)
			pos[i]++
			for j := range buf {
				buf[j] = junk
			}
			switch s.N(12) {
			case 0:
				if len(noise) > 0 {
					noise[0].Exec(nil)
					noise = noise[1:]
				}
			case 1:
				us[s.N(k)].doc.XML(&faultW{mode: wFail, at: s.N(100), err: plainErr{2}})
			}
		}
		c.fault("buffers overwritten after use")
		for _, u := range us {
			got = append(got, u.state())
		}
	})
	if v := ended(r); v != nil {
		return v
	}
	if err != nil {
		return viol("rejected", "a well-formed document was rejected: %v", err)
	}
	c.NonTriv = true
	for i := range ms {
		c.note("document %d: %dB parsed, %d operations", i, len(ms[i].in), len(ms[i].ops))
		if got[i] != want[i] {
			return viol("changed", "document %d of %d differs from its twin built alone: %s", i, k, firstDiff(want[i], got[i]))
		}
	}
	return nil
}
