package main

import (
	"fmt"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"github.com/lestrrat-go/helium/zzsim"
)

func init() {
	register(&Prop{ID: "C09", Quick: 40000, Race: 6000, Run: runC09,
		Rule: "2 to 5 tasks with 1 to 3 jobs each: parses with one shared parser (with and without a handler of its own per task), with own parsers and the free function, good, damaged, failing or panicking; serializations (also into failing writers), walks and lookups of shared finished documents. The seed decides every switch. Each job is compared with its solo outcome and, where it has one, its model. The same runs in a build with the race detector, which sees only the synchronisation the code itself does."})
}

type job struct {
	kind int // 0 own parser, 1 shared parser with a handler of its own, 2 shared parser as it is, 3 free, 4 dump, 5 walk, 6 lookups
	p    *Plan
	base *Outcome
	out  *Outcome
	doc  int
	t    int // target
	mode int
	at   int
	bad  string
	hit  bool
	came *bool // to the gate
}

func (j *job) String() string {
	switch j.kind {
	case 0, 1, 2, 3:
		return fmt.Sprintf("%s %v", []string{"own parser:", "shared parser:", "shared parser with its own handler:", "helium.Parse:"}[j.kind], j.p)
	case 4:
		return fmt.Sprintf("dump of document %d (%s)", j.doc, wNames[j.mode])
	}
	return []string{"walk", "lookups"}[j.kind-5] + fmt.Sprintf(" of document %d", j.doc)
}

func runC09(s *Src, c *Ctx) *Violation {
	pol := drawPol(s)
	// finished documents that everybody may read
	type shared struct {
		doc  *helium.Document
		rec  *recipe
		snap string
		look string
		ts   []*target
	}
	var docs []*shared
	var v *Violation
	nd := 1 + s.N(2)
	if s.Chance(30) {
		nd = 0
	}
	for i := 0; i < nd; i++ {
		r := c.solo(pol, 1<<32, func() {
			d := &shared{}
			var ref *helium.Document
			d.rec = drawRecipe(s, c)
			if d.doc, ref, v = d.rec.pair(s, c); v != nil {
				return
			}
			d.snap = snap(ref)
			d.look = lookups(ref)
			for _, t := range targets(s, d.doc, ref, 3, false) {
				if ok, _ := t.ref(); ok {
					d.ts = append(d.ts, t)
				}
			}
			docs = append(docs, d)
		})
		if e := ended(r); e != nil {
			return e
		}
		if v != nil {
			return v
		}
	}
	n := 2 + s.N(3)
	if s.Chance(10) {
		n = 5
	}
	crowd := s.Chance(2) // many small tasks
	if crowd {
		n = []int{8, 16, 30, 60}[s.N(4)]
		c.tag("crowd of tasks")
	}
	alike := 3 // of the crowd do the same as one of that many
	if crowd && s.Chance(60) {
		alike = 1
	}
	var jobs [][]*job
	var sum int64
	same := s.Chance(25) // everybody parses the same input
	var first *Plan
	sharedParser := s.Chance(70)
	for i := 0; i < n; i++ {
		var l []*job
		m := 1 + s.N(3)
		if crowd {
			m = 1
		}
		for k := 0; k < m; k++ {
			j := &job{}
			if crowd && i >= alike && s.Chance(96) { // as one of the first
				*j = *jobs[s.N(alike)][0]
				if j.base != nil {
					p := *j.p
					j.p = &p
					sum += budget(len(p.In))
				}
				l = append(l, j)
				continue
			}
			if len(docs) > 0 && s.Chance(35) {
				j.kind = 4 + s.N(3)
				j.doc = s.N(len(docs))
				if d := docs[j.doc]; j.kind == 4 && len(d.ts) > 0 {
					j.t = s.N(len(d.ts))
					if s.Chance(30) {
						j.mode = s.N(nWModes)
					}
					j.at = s.N(len(d.ts[j.t].want) + 2)
				} else if j.kind == 4 {
					j.kind = 5
				}
				l = append(l, j)
				continue
			}
			j.p = drawPlan(s, c, fmt.Sprintf("task %d parse %d", i, k), 15, 15)
			for t := 0; t < 3 && crowd && i < alike && len(inEntity(j.p)) == 0; t++ {
				j.p = drawPlan(s, c, fmt.Sprintf("task %d parse %d", i, k), 15, 15)
			}
			if crowd && i < alike && j.p.Mode == modeFree {
				j.p.Mode = modeTree
			}
			if same {
				if first == nil {
					first = j.p
				}
				j.p.In, j.p.Model = first.In, first.Model
			}
			j.kind = []int{1, 0, 2, 3}[s.N(4)]
			if crowd && i < alike {
				j.kind = s.N(2)
			}
			if !sharedParser {
				j.kind = []int{0, 3}[s.N(2)]
			}
			if j.kind >= 2 {
				j.p.Mode, j.p.FailAt = modeFree, -1
			}
			if j.base, v = c.base(j.p); v != nil {
				v.Detail += fmt.Sprintf(" (%v alone)", j)
				return v
			}
			sum += budget(len(j.p.In))
			l = append(l, j)
		}
		jobs = append(jobs, l)
	}
	var gate *zzsim.Gate
	if crowd && s.Chance(60) {
		// all are in a callback at the same time
		gate = &zzsim.Gate{}
		for _, l := range jobs {
			p := l[0].p
			if p == nil || p.Mode == modeFree {
				continue
			}
			gate.Want++
			at, came := gatePlace(s, p), false
			p.Hook = func(rec *Rec, n int, kind string) {
				if n == at && !came {
					came = true
					gate.Wait(300)
				}
			}
			l[0].came = &came
		}
	}
	if s.Chance(40) {
		// nothing has been parsed or serialized in this process, except for
		// what it takes to make the shared documents
		zzsim.Reset()
		c.tag("fresh process")
		for _, d := range docs {
			if d.doc, v = d.rec.again(c, pol, d.ts); v != nil {
				return v
			}
		}
	}
	cur := make([]sax.SAX2Handler, zzsim.MaxTasks)
	sp, spTree := helium.NewParser(), helium.NewParser()
	sp.SetSAXHandler(&demux{func() sax.SAX2Handler { return cur[zzsim.CurTask()] }})
	do := func(j *job) {
		switch j.kind {
		case 0:
			j.out = j.p.Exec(nil)
		case 1:
			rec := j.p.rec()
			o := &Outcome{Rec: rec}
			if j.p.Mode == modeFree {
				cur[zzsim.CurTask()] = helium.NewTreeBuilder()
			} else {
				cur[zzsim.CurTask()] = j.p.handler(rec)
			}
			o.Panic = guard(func() { o.Doc, o.Err = sp.Parse(j.p.In) })
			o.finish(j.p.Mode)
			if j.p.Mode == modeFree {
				o.Rec, o.Evs, o.Raw = nil, nil, nil
			}
			j.out = o
		case 2:
			o := &Outcome{}
			o.Panic = guard(func() { o.Doc, o.Err = spTree.Parse(j.p.In) })
			o.finish(modeFree)
			j.out = o
		case 3:
			o := &Outcome{}
			o.Panic = guard(func() { o.Doc, o.Err = helium.Parse(j.p.In) })
			o.finish(modeFree)
			j.out = o
		case 4:
			d := docs[j.doc]
			t := d.ts[j.t]
			w := &faultW{mode: j.mode, at: j.at, err: plainErr{4}, want: t.want, check: true}
			var err error
			p := guard(func() { err = t.dump(w) })
			j.hit = w.fired
			switch {
			case w.bad != "":
				j.bad = w.bad
			case w.fired:
				if err == nil && p == nil {
					j.bad = "the failed write was reported as success"
				}
			case p != nil || err != nil || string(w.buf) != t.want:
				j.bad = fmt.Sprintf("%s (%v %v)", firstDiff(t.want, string(w.buf)), err, p)
			}
		case 5:
			var x string
			if p := guard(func() { x = snap(docs[j.doc].doc) }); p != nil || x != docs[j.doc].snap {
				j.bad = fmt.Sprintf("%s (%v)", firstDiff(docs[j.doc].snap, x), p)
			}
		default:
			var x string
			if p := guard(func() { x = lookups(docs[j.doc].doc) }); p != nil || x != docs[j.doc].look {
				j.bad = fmt.Sprintf("%s (%v)", firstDiff(docs[j.doc].look, x), p)
			}
		}
	}
	var tasks []zzsim.Named
	for i := range jobs {
		l := jobs[i]
		tasks = append(tasks, zzsim.Named{Name: fmt.Sprintf("task %d", i), Fn: func() {
			for _, j := range l {
				do(j)
				if j.came != nil && !*j.came {
					gate.Gone()
				}
			}
		}})
	}
	cfg := drawSched(s, pol)
	if gate != nil {
		cfg.Mean = []int{250, 1000, 4000}[s.N(3)]
	}
	cfg.Budget = 2*sum + 1<<29
	r := c.sim(cfg, tasks...)
	if v := ended(r); v != nil {
		return v
	}
	if gate != nil && gate.Full() {
		c.fault("all tasks in callbacks at once")
	}
	for i, l := range jobs {
		for k, j := range l {
			c.note("task %d: %v", i, j)
			if j.p == nil {
				if j.hit {
					c.fault(wNames[j.mode])
				}
				if j.bad != "" {
					return viol("reader", "task %d: %v while others ran: %s", i, j, j.bad)
				}
				continue
			}
			noteFail(c, j.p, j.out)
			if v := sane(j.p, j.out); v != nil {
				v.Detail += fmt.Sprintf(" (task %d of %d)", i, n)
				return v
			}
			if j.p.FailAt < 0 && j.p.Model != nil {
				if v := fits(j.p, j.out); v != nil {
					v.Detail += fmt.Sprintf(" (task %d of %d)", i, n)
					return v
				}
			}
			if d := diffOut(j.base, j.out); d != "" {
				return viol("interference", "task %d job %d: %v while others ran: %s", i, k, j, d)
			}
		}
	}
	// what was returned stays what it was, and so do the shared documents
	for i, l := range jobs {
		for _, j := range l {
			if j.out != nil && j.out.Doc != nil && j.p.Mode != modeSAX && j.out.XErr == "" {
				if x, e := xmlOf(j.out.Doc); e != "" || x != j.out.XML {
					return viol("document changed", "task %d: %v: %s (%s)", i, j, firstDiff(j.out.XML, x), e)
				}
			}
		}
	}
	for i, d := range docs {
		if x := snap(d.doc); x != d.snap {
			return viol("document changed", "shared document %d: %s", i, firstDiff(d.snap, x))
		}
	}
	return nil
}

// gatePlace is the number of a callback, preferably in the middle of an
// expanded entity.
func gatePlace(s *Src, p *Plan) int {
	if in := inEntity(p); len(in) > 0 && s.Chance(80) {
		return in[s.N(len(in))]
	}
	return s.N(len(p.Model1().Evs))
}

// inEntity is the callbacks that come from the middle of an entity.
func inEntity(p *Plan) (in []int) {
	evs := p.Model1().Evs
	for i := 1; i < len(evs); i++ {
		if evs[i].End == evs[i-1].End && evs[i].Beg == evs[i].End && evs[i].End > 0 {
			in = append(in, i)
		}
	}
	return in
}

// lookups renders the answers of the lookup functions of a document.
func lookups(d *helium.Document) string {
	o := fmt.Sprintf("%q %q %v", d.Version(), d.Encoding(), d.Standalone())
	for _, n := range []string{"e0", "e1", "e2", "lt", "amp", "nope"} {
		if e, ok := d.GetEntity(n); ok && e != nil {
			o += fmt.Sprintf(" %s=%q %d", n, e.Content(), e.EntityType())
		}
		if e, ok := d.GetParameterEntity(n); ok && e != nil {
			o += fmt.Sprintf(" %%%s=%q", n, e.Content())
		}
	}
	for _, n := range elemNames[:4] {
		m, err := d.IsMixedElement(n)
		o += fmt.Sprintf(" %v %v", m, err)
	}
	if dtd := d.IntSubset(); dtd != nil {
		for _, n := range elemNames[:4] {
			_, ok := dtd.LookupElement(n, "")
			_, ok2 := dtd.LookupAttribute("d0", "", n)
			o += fmt.Sprintf(" %v %v", ok, ok2)
		}
	}
	return o
}
