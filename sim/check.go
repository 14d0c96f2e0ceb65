package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/helium/zzsim"
)

const nWorkers = 8

type batch struct {
	race bool
	outs []*WorkerOut
	viol *Found
	wall float64
}

// runBatch spreads the runs of a property over the workers and returns the
// violation with the smallest index.
func runBatch(self, tmp, knownFile string, p *Prop, seed, runs, secs int, deep, race bool) *batch {
	b := &batch{race: race, outs: make([]*WorkerOut, nWorkers)}
	name := "w"
	if race {
		name = "r"
	}
	start := time.Now()
	var wg sync.WaitGroup
	var mu sync.Mutex
	trouble := ""
	sem := make(chan bool, max(1, min(nWorkers, runtime.NumCPU())))
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out := filepath.Join(tmp, fmt.Sprintf("%s%d.json", name, w))
			os.Remove(out)
			d := "0"
			if deep {
				d = "1"
			}
			cmd := exec.Command(bin(self, race), "worker", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(w), "-n", fmt.Sprint(nWorkers),
				"-runs", fmt.Sprint(runs), "-secs", fmt.Sprint(secs), "-deep", d, "-known", knownFile, "-out", out)
			cmd.Env = raceEnv(filepath.Join(tmp, fmt.Sprintf("race-%s%d", name, w)))
			var eb bytes.Buffer
			cmd.Stderr = &eb
			err := cmd.Run()
			o := &WorkerOut{}
			if err == nil {
				if err = readJSON(out, o); err == nil {
					mu.Lock()
					b.outs[w] = o
					if o.Viol != nil && (b.viol == nil || o.Viol.Index < b.viol.Index) {
						b.viol = o.Viol
					}
					mu.Unlock()
					return
				}
			}
			// the worker died: because of what it ran?
			txt := fatalText(eb.String())
			ib, e2 := os.ReadFile(out + ".idx")
			mu.Lock()
			defer mu.Unlock()
			if txt == "" || e2 != nil || len(ib) < 8 {
				t := eb.String()
				if len(t) > 4000 {
					t = t[:4000]
				}
				trouble = fmt.Sprintf("worker %d failed: %v\n%s", w, err, t)
				return
			}
			i := int(binary.LittleEndian.Uint64(ib))
			f := &Found{Prop: p.ID, Seed: seed, Index: i, Deep: deep, Race: race, Class: "fatal", Detail: "the process dies: " + txt, Fatal: true}
			for j := w; j < i; j += nWorkers {
				f.History = append(f.History, j)
			}
			if b.viol == nil || i < b.viol.Index {
				b.viol = f
			}
		}(w)
	}
	wg.Wait()
	b.wall = time.Since(start).Seconds()
	if trouble != "" && b.viol == nil {
		die("%s", trouble)
	}
	return b
}

// pinDown turns a raw finding into a minimised one that fresh processes
// reproduce, or gives up (trouble).
func pinDown(self, tmp string, f *Found) *Found {
	if f.Fatal {
		// the choices are unknown: take them from the seed
		g := *f
		g.History = nil
		g.BySeed = true
		for _, h := range [][]int{nil, f.History} {
			g.History = h
			ok := 0
			for k := 0; k < 2; k++ {
				if _, died, msg := fresh(self, tmp, &g); died && msg != "" {
					ok++
				}
			}
			if ok == 2 {
				g.Minim = "none: the process does not survive"
				return &g
			}
		}
		die("worker died in run %d but the death does not reproduce: %s", f.Index, f.Detail)
	}
	g := *f
	g.History = nil
	g.Scheds = nil
	o, _, _ := fresh(self, tmp, &g)
	if o != nil && o.V != nil && o.V.Class == f.Class {
		g.Detail = o.V.Detail
		in, out := filepath.Join(tmp, "shr.in"), filepath.Join(tmp, "shr.out")
		os.Remove(out)
		writeJSON(in, &g)
		cmd := exec.Command(bin(self, f.Race), "shrink", "-in", in, "-out", out, "-secs", "40")
		cmd.Env = raceEnv(filepath.Join(tmp, "race-shr"))
		cmd.Run()
		s := &Found{}
		if readJSON(out, s) == nil {
			if confirm(self, tmp, s) {
				return s
			}
		}
		if confirm(self, tmp, &g) {
			g.Minim = "minimised variants depend on earlier executions; unminimised"
			return &g
		}
		die("violation in run %d does not repeat in fresh processes: %s %s", f.Index, f.Class, f.Detail)
	}
	// it needs earlier runs in the same process: find which
	h := f.History
	fails := func(l []int) bool {
		g.History = l
		o, _, _ := fresh(self, tmp, &g)
		if o != nil && o.V != nil && o.V.Class == f.Class {
			g.Detail = o.V.Detail
			return true
		}
		return false
	}
	if !fails(h) {
		die("violation in run %d does not repeat in a fresh process with the same history: %s %s", f.Index, f.Class, f.Detail)
	}
	n0 := len(h)
	for k := 1; k < len(h); k *= 4 {
		if fails(h[len(h)-k:]) {
			h = h[len(h)-k:]
			break
		}
	}
	end := time.Now().Add(60 * time.Second)
	for k := (len(h) + 1) / 2; k >= 1 && time.Now().Before(end); k /= 2 {
		for i := 0; i+k <= len(h) && time.Now().Before(end); {
			c := append(append([]int(nil), h[:i]...), h[i+k:]...)
			if fails(c) {
				h = c
			} else {
				i += k
			}
		}
	}
	if fails(h) && confirm(self, tmp, &g) {
		g.Minim = fmt.Sprintf("depends on %d of %d earlier runs of the same process", len(h), n0)
		return &g
	}
	die("violation in run %d does not repeat reliably: %s %s", f.Index, f.Class, f.Detail)
	return nil
}

// confirm runs f twice in fresh processes; both must fail identically.
func confirm(self, tmp string, f *Found) bool {
	for k := 0; k < 2; k++ {
		o, _, _ := fresh(self, tmp, f)
		if !same(f, o) {
			return false
		}
		f.Desc, f.Faults = o.Desc, o.Fault
	}
	return true
}

func checkMain(a map[string]string) {
	start := time.Now()
	p := getProp(a)
	self, _ := os.Executable()
	seed := geti(a, "seed", 1)
	tier := a["tier"]
	if tier != "thorough" {
		tier = "quick"
	}
	verif, work := a["verif"], a["work"]
	runs, secs := p.Quick, 240
	if tier == "thorough" {
		runs, secs = 1<<40, 600
	}
	runs = geti(a, "runs", runs)
	secs = geti(a, "secs", secs)
	tmp := filepath.Join(work, "run")
	os.MkdirAll(tmp, 0o755)
	kf := filepath.Join(verif, "known-findings.txt")
	fmt.Printf("property %s tier %s seed %d: seed of run i is mix(seed, hash(%q), i)\n", p.ID, tier, seed, p.ID)

	var bs []*batch
	bs = append(bs, runBatch(self, tmp, kf, p, seed, runs, secs, tier == "thorough", false))
	if _, err := os.Stat(bin(self, true)); err == nil && p.Race > 0 && bs[0].viol == nil {
		rr, rs := p.Race, 200
		if tier == "thorough" {
			rr, rs = 1<<40, 180
		}
		bs = append(bs, runBatch(self, tmp, kf, p, seed, rr, rs, tier == "thorough", true))
	}
	var f *Found
	for _, b := range bs {
		if b.viol != nil {
			f = b.viol
			break
		}
	}
	nv := 0
	replay := ""
	if f != nil {
		nv = 1
		fmt.Printf("run %d: %s: %s\n", f.Index, f.Class, clip2(f.Detail, 1500))
		f = pinDown(self, tmp, f)
		replay = filepath.Join(verif, "evidence", fmt.Sprintf("replay-%s-%d-%d.json", p.ID, seed, f.Index))
		os.MkdirAll(filepath.Dir(replay), 0o755)
		writeJSON(replay, f)
	}
	writeEvidence(filepath.Join(verif, "evidence", p.ID+".json"), p, tier, seed, bs, f, replay, time.Since(start).Seconds())
	knownHit := map[string]bool{}
	for _, b := range bs {
		for _, o := range b.outs {
			if o != nil {
				for k := range o.Known {
					knownHit[k] = true
				}
			}
		}
	}
	for _, k := range loadKnown(kf) {
		if k.prop == p.ID {
			s := ""
			if !knownHit[k.text] {
				s = " (not met in this run)"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", p.ID, k.text, s)
		}
	}
	if nv > 0 {
		fmt.Printf("minimised: %s: %s\n(%s)\n", f.Class, clip2(f.Detail, 2000), f.Minim)
		for _, s := range f.Desc {
			fmt.Println("  ", clip2(s, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		os.Exit(1)
	}
	n := 0
	for _, b := range bs {
		for _, o := range b.outs {
			n += o.Runs
		}
	}
	fmt.Printf("property %s held in %d simulated runs (%.0f s)\n", p.ID, n, time.Since(start).Seconds())
}

func writeEvidence(file string, p *Prop, tier string, seed int, bs []*batch, f *Found, replay string, wall float64) {
	os.MkdirAll(filepath.Dir(file), 0o755)
	runs, nontriv := 0, 0
	faults, tags := map[string]int{}, map[string]int{}
	distinct := map[uint64]bool{}
	var steps, sw, bl, maps int64
	var pool [3]int64
	sims := 0
	var samples []string
	cov := make([]byte, len(zzsim.Cov))
	batches := []map[string]interface{}{}
	for _, b := range bs {
		br := 0
		var bsteps int64
		for _, o := range b.outs {
			if o == nil {
				continue
			}
			br += o.Runs
			bsteps += o.Steps
			nontriv += o.NonTriv
			for k, v := range o.Faults {
				faults[k] += v
			}
			for k, v := range o.Tags {
				tags[k] += v
			}
			for _, h := range o.Hashes {
				distinct[h] = true
			}
			sw += o.Switches
			bl += o.Blocks
			sims += o.Sims
			maps += o.Maps
			for i := range pool {
				pool[i] += o.Pool[i]
			}
			if len(samples) < 4 {
				samples = append(samples, o.Samples...)
			}
			for i, x := range o.Cov {
				if i < len(cov) {
					cov[i] |= x
				}
			}
		}
		runs += br
		steps += bsteps
		ph := 0.0
		if b.wall > 0 {
			ph = float64(br) / b.wall * 3600
		}
		batches = append(batches, map[string]interface{}{"race_detector": b.race, "runs": br, "wall_s": b.wall, "runs_and_seeds_per_hour": int64(ph)})
	}
	covs := map[string]string{}
	for _, r := range zzsim.Files {
		n := 0
		for i := r.Lo; i <= r.Hi; i++ {
			if int(i) < len(cov) && cov[i] > 0 {
				n++
			}
		}
		if n > 0 {
			covs[strings.TrimPrefix(r.File, "github.com/lestrrat-go/")] = fmt.Sprintf("%d of %d statements", n, r.Hi-r.Lo+1)
		}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if len(samples) == 0 {
		samples = []string{"(the violation came before the first sample)"}
	}
	real := []string{"github.com/lestrrat-go/helium (all packages, instrumented copy of /repo's working tree)", "github.com/lestrrat-go/strcursor (instrumented)", "golang.org/x/text, github.com/pkg/errors, github.com/lestrrat-go/pdebug (as shipped)"}
	stub := []string{"goroutine scheduling", "channels, select and package sync (simulated with the same semantics)", "sync.Pool (policy drawn per run, recycled memory poisoned)", "map iteration order", "output writers and SAX handlers (the harness')"}
	if p.CLI {
		real = append(real, "cmd/helium-lint (instrumented, main called as a function)", "github.com/jessevdk/go-flags (only os and environment access rewritten)")
		stub = append(stub, "os: files, standard streams, process exit, terminal test", "time and log")
	}
	rules := "A run is one seed: " + p.Rule + " Non-trivial: a fault fired, tasks were interleaved, or the run reached what the rule names; distinct: by hash of all choices of the run, the sequence of (task, statement) pairs at every context switch, and what the faults did."
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": 0,
		"assumptions": []string{"seeded sampling, not enumeration: a clean batch is evidence, not proof",
			"interleavings switch at statement boundaries and at every channel, lock, pool, callback, and I/O operation of the instrumented code; inside the standard library and inside one statement nothing is interleaved",
			"the harness' document model covers the subset of XML that helium supports (DESIGN.md)"},
		"coverage": map[string]interface{}{
			"evaluations": runs, "distinct_nontrivial": len(distinct), "nontrivial": nontriv, "rule": rules, "samples": samples,
			"simulations": sims, "batches": batches,
			"simulated_time_steps": steps, "simulated_time_note": "logical clock: one step per executed statement; where code reads the clock one step is one microsecond",
			"context_switches": sw, "blocking_operations": bl,
			"faults_fired": faults, "conditions_reached": tags,
			"pool_gets_fresh": pool[0], "pool_gets_recycled": pool[1], "pool_buffers_poisoned": pool[2], "map_iterations_ordered": maps,
			"statements_reached": covs, "components_real": real, "components_stub": stub,
		},
	}
	if f != nil {
		ev["violations"] = 1
		ev["coverage"].(map[string]interface{})["violation"] = map[string]interface{}{"run": f.Index, "class": f.Class, "detail": f.Detail, "replay": replay}
	}
	writeJSON(file, ev)
}
