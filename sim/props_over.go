package main

import (
	"fmt"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zzsim"
)

func init() {
	register(&Prop{ID: "C17", Quick: 100000, Run: runC17,
		Rule: "1 to 3 tasks parse (good, damaged, failing, panicking), serialize into good and faulty writers and walk; afterwards whatever is still running runs on until it ends or waits. Calls of handlers, writers and walk functions must come one at a time and not after the return. If goroutines wait for ever, everything is done twice as often: there must not be more of them."})
}

// op is something that calls the caller's code.
type op struct {
	name string
	run  func(o *once)
}

// once is one execution of an operation.
type once struct {
	op    *op
	turns []*turns
	fired bool
	doc   *helium.Document
	snap  string
}

func drawOp(s *Src, c *Ctx, sh *sharedDoc) (*op, int64) {
	k := s.N(10)
	if len(sh.ts) == 0 && k >= 5 && k < 8 {
		k = 8
	}
	switch {
	case k < 5:
		p := drawPlan(s, c, "parse", 40, 25)
		return &op{p.String(), func(o *once) {
			q := *p
			q.In = append([]byte(nil), p.In...)
			if p.Mode == modeFree {
				doc, err := helium.Parse(q.In)
				if err == nil && doc != nil {
					o.doc, o.snap = doc, snap(doc)
				}
			} else {
				out := q.Exec(nil)
				out.Rec.busy.closed = true
				o.turns = append(o.turns, &out.Rec.busy)
				o.fired = out.Rec.Fired
				if out.Err == nil && out.Panic == nil && out.Doc != nil {
					o.doc, o.snap = out.Doc, snap(out.Doc)
				}
			}
			for i := range q.In { // the caller's again
				q.In[i] = "<&;\"x"[i%5]
			}
		}}, budget(len(p.In))
	case k < 8:
		t := sh.ts[s.N(len(sh.ts))]
		mode, shape, err := s.N(nWModes), s.N(3), wErrs[s.N(len(wErrs))](s.N(50))
		at := s.N(len(t.want) + 2)
		if mode == wTransient || mode == wAllErr || mode == wFailCall || mode == wZero {
			at = s.N(t.call + 1)
		}
		return &op{fmt.Sprintf("%s into a writer with fault %q at %d", t.name, wNames[mode], at), func(o *once) {
			w := &faultW{mode: mode, at: at, err: err}
			guard(func() { t.dump(w.as(shape)) })
			w.busy.closed = true
			o.turns = append(o.turns, &w.busy)
			o.fired = w.fired
		}}, 1 << 24
	default:
		kind, at := s.N(3), s.N(len(sh.nodes)+2)
		return &op{fmt.Sprintf("walk with %s at call %d", wkNames[kind], at), func(o *once) {
			b := &turns{}
			n := 0
			guard(func() {
				helium.Walk(sh.doc, func(helium.Node) error {
					defer b.enter("call of the walk function")()
					zzsim.Yield()
					if n++; n == at+1 && kind != wkPlain {
						o.fired = true
						if kind == wkPanic {
							panic(enough)
						}
						return enough
					}
					if n > maxWalk {
						panic(enough)
					}
					return nil
				})
			})
			b.closed = true
			o.turns = append(o.turns, b)
		}}, 1 << 24
	}
}

type sharedDoc struct {
	doc   *helium.Document
	ts    []*target
	nodes []helium.Node
}

func runC17(s *Src, c *Ctx) *Violation {
	pol := drawPol(s)
	var v *Violation
	sh := &sharedDoc{}
	if e := ended(c.solo(pol, 1<<32, func() {
		var ref *helium.Document
		if sh.doc, ref, v = drawRecipe(s, c).pair(s, c); v != nil {
			return
		}
		sh.nodes = nodesOf(ref)
		for _, t := range targets(s, sh.doc, ref, 3, false) {
			if ok, _ := t.ref(); ok {
				sh.ts = append(sh.ts, t)
				c.mark(strHash(t.want))
			}
		}
	})); e != nil {
		return e
	}
	if v != nil {
		return v
	}
	var ops [][]*op
	sum := int64(0)
	nt := []int{1, 1, 1, 2, 3}[s.N(5)]
	for i := 0; i < nt; i++ {
		var l []*op
		for k := 1 + s.N(3); k > 0; k-- {
			o, b := drawOp(s, c, sh)
			sum += b
			l = append(l, o)
		}
		ops = append(ops, l)
	}
	cfg := drawSched(s, pol)
	cfg.Budget = 4*sum + 1<<30
	round := func(times int) (*zzsim.Result, *Violation) {
		did := make([][]*once, nt)
		var tasks []zzsim.Named
		for i := range ops {
			i := i
			tasks = append(tasks, zzsim.Named{Name: fmt.Sprintf("task %d", i), Fn: func() {
				for k := 0; k < times; k++ {
					for _, p := range ops[i] {
						o := &once{op: p}
						did[i] = append(did[i], o)
						p.run(o)
					}
				}
			}})
		}
		r := c.sim(cfg, tasks...)
		if v := ended(r); v != nil {
			return r, v
		}
		for i, l := range did {
			for _, o := range l {
				c.note("task %d: %s", i, o.op.name)
				if o.fired {
					c.fault("callback, write or walk function fails")
					c.NonTriv = true
				}
				for _, t := range o.turns {
					if t.After != "" {
						return r, viol("late call", "%s: %s after it had returned", o.op.name, t.After)
					}
					if t.Over != "" {
						return r, viol("overlap", "%s: %s while another goroutine was in such a call", o.op.name, t.Over)
					}
				}
				if o.doc != nil {
					if x := snap(o.doc); x != o.snap {
						return r, viol("late change", "%s: the document changed after it had been returned: %s", o.op.name, firstDiff(o.snap, x))
					}
				}
			}
		}
		return r, nil
	}
	zzsim.Reset()
	r, v := round(1)
	if v != nil || r.Idle == 0 {
		return v
	}
	c.tag("goroutines that go on waiting")
	zzsim.Reset()
	r2, v := round(2)
	if v != nil {
		return v
	}
	if r2.Idle > r.Idle {
		return viol("leak", "goroutines stay behind: %d wait for ever, and %d when everything is done twice: %s", r.Idle, r2.Idle, clip2(r2.Stuck, 300))
	}
	return nil
}
