package main

import (
	"bufio"
	"fmt"
	"os"
	"runtime"
	"strings"
)

// digestMain executes runs from, from+step … below to (or in the reverse
// order) and prints a digest of everything that happened in each of them. Two
// such listings must agree whatever else the process executed.
func digestMain(a map[string]string) {
	p := getProp(a)
	seed, from, to, step := geti(a, "seed", 1), geti(a, "from", 0), geti(a, "to", 1000), geti(a, "step", 1)
	runtime.GOMAXPROCS(geti(a, "procs", 1))
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	var l []int
	for i := from; i < to; i += step {
		l = append(l, i)
	}
	if a["reverse"] == "1" {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	for _, i := range l {
		src := NewSrc(runSeed(seed, p, i))
		c := NewCtx()
		c.Trace = true
		c.Deep = a["deep"] == "1"
		v := exec1(p, src, c)
		if a["replay"] == "1" { // from the choices and schedules, not the seed
			used := c.Used
			src = ReplaySrc(src.Rec)
			c = NewCtx()
			c.Trace, c.Deep = true, a["deep"] == "1"
			c.Scheds, c.useSch = used, true
			v = exec1(p, src, c)
		}
		h := mix(c.Hash, uint64(c.Steps), uint64(c.Switch), uint64(c.Blocks), uint64(c.Sims), strHash(strings.Join(c.Sample, "\n")))
		for _, x := range src.Rec {
			h = mix(h, x)
		}
		for _, k := range sortedCounts(c.Faults) {
			h = mix(h, strHash(k), uint64(c.Faults[k]))
		}
		if v != nil {
			h = mix(h, strHash(v.Class), strHash(noAddr(v.Detail)))
		}
		fmt.Fprintf(w, "%d %016x %d\n", i, h, c.Steps)
	}
}
