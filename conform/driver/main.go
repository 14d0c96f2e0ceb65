//go:build zzdriver

// The driver runs the instrumented program under many schedules.
package main

import (
	"fmt"
	"os"
	"strconv"

	"conform/zzlint"
	"conform/zzsim"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	want, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	bad, hashes := 0, map[uint64]bool{}
	for i := 0; i < n && bad < 5; i++ {
		r := zzsim.NewRand(uint64(i))
		cfg := zzsim.Config{Seed: r.Uint64(), Mean: []int{0, 3, 30, 300}[r.Intn(4)], YieldPct: []int{0, 10, 50, 100}[r.Intn(4)],
			Budget: 1 << 24, Process: true, PoolMode: r.Intn(4), PolSeed: r.Uint64(), MapMode: r.Intn(2)}
		last := uint64(0)
		once := func() string {
			p := &zzsim.Proc{Args: []string{"p", "/tmp/verif-conform-in", "/tmp/verif-conform-none"}, Out: &zzsim.OutSpec{}, Err: &zzsim.OutSpec{},
				In:    &zzsim.InSpec{Data: []byte("in put\n")},
				Files: map[string]*zzsim.InSpec{"/tmp/verif-conform-in": {Data: []byte("one\ntwo\n"), Chunks: []int{1, 3, 2}}}}
			zzsim.SetProc(p)
			zzsim.Reset()
			res := zzsim.Run(cfg, zzsim.Named{Name: "main", Fn: zzlint.ZZMain})
			hashes[res.Hash] = true
			if last != 0 && last != res.Hash {
				fmt.Printf("run %d: its replay takes other turns\n", i)
				bad++
			}
			last = res.Hash
			s := string(p.Out.Buf) + string(p.Err.Buf) + fmt.Sprintf("exit %d\n", res.ExitCode)
			if res.Deadlock || res.OverRun {
				s += "stuck: " + res.Stuck
			}
			for _, t := range res.Tasks {
				if t.Panic != nil {
					s += fmt.Sprintf("%s panicked: %v\n%s", t.Name, t.Panic, t.Stack)
				}
			}
			cfg.UseRepl, cfg.Replay = true, res.Sched
			return s
		}
		a := once()
		if b := once(); a != b {
			fmt.Printf("run %d: its replay differs\n", i)
			bad++
		}
		if a != string(want) {
			fmt.Printf("run %d differs:\n%s\n", i, a)
			bad++
		}
	}
	fmt.Printf("%d schedules, %d distinct\n", n, len(hashes))
	if bad > 0 {
		os.Exit(1)
	}
}
