package main

import (
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"

	"github.com/lestrrat-go/helium/zzsim"
)

// Violation of a property in one run. Class identifies what kind of violation
// it is; minimisation keeps the class.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func viol(class, f string, a ...interface{}) *Violation {
	return &Violation{Class: class, Detail: fmt.Sprintf(f, a...)}
}

// Prop is one property with its workload.
type Prop struct {
	ID    string
	Quick int // runs
	Race  int // quick runs with the race detector
	CLI   bool
	Rule  string
	Run   func(s *Src, c *Ctx) *Violation
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx is the environment of one run.
type Ctx struct {
	Scheds [][]zzsim.Slice // explicit schedules (replay), one per simulation
	useSch bool
	nsim   int

	Used    [][]zzsim.Slice // the schedules of this run
	Faults  map[string]int
	Tags    map[string]int
	Steps   int64
	Switch  int64
	Blocks  int64
	Sims    int
	Hash    uint64 // of everything that distinguishes this run's execution
	Sample  []string
	Trace   bool
	Deep    bool // thorough tier: bigger cases
	NonTriv bool
}

func NewCtx() *Ctx {
	return &Ctx{Faults: map[string]int{}, Tags: map[string]int{}, Hash: 1469598103934665603}
}

func (c *Ctx) fault(k string) { c.Faults[k]++ }
func (c *Ctx) tag(k string)   { c.Tags[k]++ }
func (c *Ctx) note(f string, a ...interface{}) {
	if c.Trace {
		c.Sample = append(c.Sample, fmt.Sprintf(f, a...))
	}
}
func (c *Ctx) mark(v uint64) { c.Hash = mix(c.Hash, v) }

// Pol is the ambient policy of a run.
func drawPol(s *Src) zzsim.Config {
	return zzsim.Config{PoolMode: []int{0, 1, 2, 3}[s.N(4)], PolSeed: s.Seed(), MapMode: s.N(2)}
}

// calm is the reference environment: LIFO pools, sorted maps, no switches.
var calm = zzsim.Config{}

// sim runs tasks under the simulator.
func (c *Ctx) sim(cfg zzsim.Config, tasks ...zzsim.Named) *zzsim.Result {
	i := c.nsim
	c.nsim++
	if c.useSch {
		cfg.UseRepl = true
		cfg.Replay = nil
		if i < len(c.Scheds) {
			cfg.Replay = c.Scheds[i]
		}
	}
	if cfg.Budget == 0 {
		cfg.Budget = 30 << 20
	}
	r := zzsim.Run(cfg, tasks...)
	if len(tasks) > 1 || len(r.Tasks) > 1 {
		c.Used = append(c.Used, r.Sched)
		c.Switch += r.Switches
		c.mark(r.Hash)
	} else {
		c.Used = append(c.Used, nil)
	}
	c.Steps += r.Steps
	c.Blocks += r.Blocks
	c.Sims++
	return r
}

// solo runs one function as the only task.
func (c *Ctx) solo(cfg zzsim.Config, budget int64, f func()) *zzsim.Result {
	cfg.Budget = budget
	return c.sim(cfg, zzsim.Named{Name: "main", Fn: f})
}

// ended reports how a simulation failed to end properly. Panics that the tasks
// did not catch themselves are reported, too.
func ended(r *zzsim.Result) *Violation {
	if r.Runaway {
		return viol("recursion", "recursion deeper than %d frames after %d steps", zzsim.MaxDepth, r.Steps)
	}
	if r.OverRun {
		return viol("steps", "no end after %d steps", r.Steps)
	}
	if r.Deadlock {
		return viol("deadlock", "everybody is blocked: %s", r.Stuck)
	}
	for _, t := range r.Tasks {
		if t.Panic != nil {
			return viol("panic", "task %s panicked: %s; in %s", t.Name, reAddr.ReplaceAllString(fmt.Sprint(t.Panic), "0x…"), digest(t.Stack))
		}
	}
	return nil
}

// budget for parsing n bytes: far above what any input of that size needs,
// quadratic because looking ahead over text is.
func budget(n int) int64 { return 400000 + 6000*int64(n) + 40*int64(n)*int64(n) }

// runOne executes run i of a property. What the code under test panics with
// outside of a simulation is a violation; the harness' own panics are trouble.
func runOne(p *Prop, src *Src, c *Ctx) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 64<<10)
			buf = buf[:runtime.Stack(buf, false)]
			if blames(string(buf)) {
				v = viol("panic", "panicked: %s; in %s", reAddr.ReplaceAllString(fmt.Sprint(r), "0x…"), digest(string(buf)))
				return
			}
			panic(fmt.Sprintf("harness panicked: %v\n%s", r, buf))
		}
	}()
	zzsim.InitSeed(1)
	zzsim.Reset()
	return p.Run(src, c)
}

// blames tells whether the function that panicked belongs to the code under
// test.
func blames(stack string) bool {
	after := false
	for _, s := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(s, "\t"):
		case strings.HasPrefix(s, "panic("):
			after = true
		case !after || strings.HasPrefix(s, "runtime."):
		default:
			return strings.HasPrefix(s, "github.com/lestrrat-go/") && !strings.Contains(s, "/zzsim.")
		}
	}
	return false
}

var reAddr = regexp.MustCompile(`0x[0-9a-f]+`)

// digest names the functions of a panic's stack, topmost first.
func digest(stack string) string {
	var l []string
	for _, s := range strings.Split(stack, "\n") {
		if strings.HasPrefix(s, "github.com/lestrrat-go/") && !strings.Contains(s, "/zzsim.") {
			if i := strings.LastIndex(s, "("); i > 0 {
				s = s[:i]
			}
			l = append(l, strings.TrimPrefix(s, "github.com/lestrrat-go/"))
		}
		if len(l) >= 5 {
			break
		}
	}
	return strings.Join(l, " < ")
}

func sortedCounts(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
