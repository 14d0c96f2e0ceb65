//go:build go1.21

// Package zzsim is the simulator runtime. It is laid over /repo as a virtual
// package (go build -overlay) together with instrumented copies of the
// repository's files; the repository itself never contains it.
//
// One token exists per simulation: exactly one task runs at any time. Every
// statement of the instrumented code calls S, which counts it and hands the
// token over when the (seeded or replayed) schedule says so.
//
// All functions are go:norace, and hand the token over with race
// synchronisation events disabled: in the -race build the detector sees only
// the happens-before edges that the code under test itself creates.
package zzsim

import (
	"runtime"
	"runtime/debug"
)

// Rand is a splitmix64 generator: every choice of a run comes from one.
type Rand struct{ s uint64 }

//go:norace
func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

//go:norace
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Slice is one turn of the schedule: task T executes N steps.
type Slice struct {
	T int   `json:"t"`
	N int64 `json:"n"`
}

const (
	stIdle = iota
	stRunnable
	stBlocked
	stDone
)

const MaxTasks = 300

type Task struct {
	ID    int
	Root  int // the task that this one descends from
	Name  string
	state int
	wake  chan struct{}
	fn    func()
	dead  bool // unwinding after an abort
	on    string

	Panic interface{} // what escaped from fn (nil: returned normally)
	Stack string
	Ended bool
}

// abortPanic unwinds tasks after the run has been decided.
type abortPanic struct{ why string }

// IsAbort tells whether a recovered value is the simulator unwinding a task;
// whoever recovers it must panic with it again.
func IsAbort(r interface{}) bool {
	_, ok := r.(abortPanic)
	return ok
}

// ExitPanic unwinds a task that called os.Exit.
type ExitPanic struct{ Code int }

// Config is the part of a simulation the seed decides.
type Config struct {
	Seed     uint64  // scheduler PRNG
	Mean     int     // mean slice length in steps (0: switch only when blocked)
	YieldPct int     // percent chance to switch at explicit yield points
	Replay   []Slice // explicit schedule; used instead of the PRNG
	UseRepl  bool
	Budget   int64 // steps for the whole run
	Process  bool  // the run ends when task 0 returns, like a process does

	PoolMode int    // 0 LIFO, 1 always fresh, 2 random recycled, 3 random fresh/recycled
	PolSeed  uint64 // pool and map order PRNG
	MapMode  int    // 0 sorted, 1 shuffled
	Tick     int64  // nanoseconds per step (0: 1000)
	Clock    int64  // nanoseconds the clock has advanced when the run starts
}

// Result of a simulation.
type Result struct {
	Steps    int64
	Switches int64
	Sched    []Slice
	Hash     uint64 // of the sequence of (task, statement) at switch points
	Deadlock bool
	OverRun  bool
	Runaway  bool // recursion without end
	Exited   bool
	ExitCode int
	Stuck    string // what the blocked tasks wait for
	Tasks    []*Task
	Blocks   int64
	Idle     int // goroutines that would wait for ever when all else had ended
	Started  int // goroutines that were started
}

var schedBuf = make([]Slice, 0, 1<<17)

var (
	active  bool
	aborted bool // everybody has to unwind
	why     string
	cfg     Config
	rnd     *Rand
	pol     *Rand
	cur     *Task
	tasks   [MaxTasks]*Task
	retired []*Task
	ntasks  int
	left    int64 // steps left in the current slice
	slice0  int64 // length of the current slice
	pend    int64 // steps of this turn that come after the current slice
	total   int64 // steps of finished slices
	replPos int
	sched   []Slice
	selfEnd bool // the last slice ended in a block
	hash    uint64
	nswitch int64
	nblock  int64
	res     *Result
	allDone chan struct{}
	epoch   int64
	lastID  int32

	now int64 // simulated clock, nanoseconds
)

// Cov counts which statements were reached (sized by the instrumenter).
var Cov [NumStmts + 1]bool

// S is called before every statement.
//
//go:norace
func S(id int32) {
	if !active {
		return
	}
	Cov[id] = true
	lastID = id
	left--
	if left <= 0 {
		slow(false)
	}
}

// Yield is an explicit point where switching is interesting (callbacks,
// writes, simulated I/O).
//
//go:norace
func Yield() {
	if !active {
		return
	}
	left--
	if left <= 0 {
		slow(false)
		return
	}
	if !cfg.UseRepl && cfg.YieldPct > 0 && rnd.Intn(100) < cfg.YieldPct {
		slow(true)
	}
}

// Pass gives up the turn.
//
//go:norace
func Pass() {
	if !active {
		return
	}
	left--
	if left <= 0 {
		slow(false)
		return
	}
	if !cfg.UseRepl {
		slow(true)
	}
}

// Gate is where tasks wait for each other, for a while. It does not
// synchronize them.
type Gate struct{ Want, in, gone int }

//go:norace
func (g *Gate) Wait(max int) {
	g.in++
	for i := 0; i < max && g.in+g.gone < g.Want; i++ {
		Pass()
	}
}

// Gone tells that a task will not come.
//
//go:norace
func (g *Gate) Gone() { g.gone++ }

// Full tells whether all came.
//
//go:norace
func (g *Gate) Full() bool { return g.in >= g.Want && g.Want > 0 }

// endSlice closes the current slice. A task that gave up its turn by itself
// (blocked or ended) must not be stopped at its last step when the schedule is
// replayed, so its slice is one longer.
//
//go:norace
func endSlice(self bool) {
	n := slice0 - left
	total += n
	if self {
		n++
	}
	if k := len(sched); k > 0 && sched[k-1].T == cur.ID && !selfEnd {
		sched[k-1].N += n
	} else {
		sched = append(sched, Slice{cur.ID, n})
	}
	selfEnd = self
	slice0, left = 0, 0
}

//go:norace
func slow(force bool) {
	if cur.dead || aborted {
		cur.dead = true
		left, slice0 = 1, 1
		panic(abortPanic{why})
	}
	endSlice(false)
	if cfg.Budget > 0 && total >= cfg.Budget {
		res.OverRun = true
		abort("step budget exhausted")
		cur.dead = true
		left, slice0 = 1, 1
		panic(abortPanic{why})
	}
	if !force && pend > 0 {
		checkDepth()
		refill()
		return
	}
	me := cur
	next := pick()
	if next != me {
		handoff(me, next)
	}
}

// turnMax is how many steps go by between looks at the stack.
const turnMax = 200000

// MaxDepth is the number of stack frames that counts as runaway recursion.
const MaxDepth = 60000

//go:norace
func checkDepth() {
	var pcs [1]uintptr
	if runtime.Callers(MaxDepth, pcs[:]) > 0 {
		res.Runaway = true
		abort("runaway recursion")
		cur.dead = true
		left, slice0 = 1, 1
		panic(abortPanic{why})
	}
}

//go:norace
func refill() {
	k := pend
	if k > turnMax {
		k = turnMax
	}
	left, slice0 = k, k
	pend -= k
}

//go:norace
func nextMean() int64 {
	if cfg.Mean <= 0 {
		return 1 << 40
	}
	// a mix of short and long slices around the mean
	switch rnd.Intn(4) {
	case 0:
		return 1 + int64(rnd.Intn(cfg.Mean/4+1))
	case 1:
		return 1 + int64(rnd.Intn(4*cfg.Mean+1))
	default:
		return 1 + int64(rnd.Intn(2*cfg.Mean))
	}
}

// pick chooses the next task and its slice. There must be a runnable one.
//
//go:norace
func pick() *Task {
	if len(timers) > 0 {
		due()
	}
	var t *Task
	var n int64
	if cfg.UseRepl {
		for replPos < len(cfg.Replay) {
			s := cfg.Replay[replPos]
			replPos++
			if s.T >= 0 && s.T < ntasks && tasks[s.T].state == stRunnable {
				t, n = tasks[s.T], s.N
				break
			}
		}
		if t == nil {
			if cur != nil && cur.state == stRunnable {
				t = cur
			} else {
				for i := 0; i < ntasks; i++ {
					if tasks[i].state == stRunnable {
						t = tasks[i]
						break
					}
				}
			}
			n = 1 << 40
		}
	} else {
		cnt := 0
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stRunnable {
				cnt++
			}
		}
		k := rnd.Intn(cnt)
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stRunnable {
				if k == 0 {
					t = tasks[i]
					break
				}
				k--
			}
		}
		n = nextMean()
	}
	if cfg.Budget > 0 && n > cfg.Budget-total {
		n = cfg.Budget - total
	}
	if n < 1 {
		n = 1
	}
	pend = n
	refill()
	return t
}

//go:norace
func handoff(from, to *Task) {
	nswitch++
	hash = (hash ^ uint64(lastID)<<8 ^ uint64(to.ID)) * 0x100000001b3
	cur = to
	raceOff()
	to.wake <- struct{}{}
	<-from.wake
	raceOn()
	if from.dead || aborted {
		from.dead = true
		panic(abortPanic{why})
	}
}

// block suspends the current task until wakeup is called on it.
//
//go:norace
func block(on string) {
	me := cur
	if me.dead || aborted {
		me.dead = true
		panic(abortPanic{why})
	}
	nblock++
	me.state = stBlocked
	me.on = on
	endSlice(true)
	if !anyRunnable() && !idle() {
		res.Deadlock = true
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stBlocked {
				res.Stuck += "[" + tasks[i].Name + " blocked in " + tasks[i].on + "]"
			}
		}
		abort("deadlock")
		me.dead = true
		me.state = stRunnable
		left, slice0 = 1, 1
		panic(abortPanic{why})
	}
	if next := pick(); next != me {
		handoff(me, next)
	}
}

//go:norace
func anyRunnable() bool {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			return true
		}
	}
	return false
}

//go:norace
func ready(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		t.on = ""
	}
}

// abort makes every task unwind.
//
//go:norace
func abort(reason string) {
	if aborted {
		return
	}
	aborted = true
	why = reason
	for i := 0; i < ntasks; i++ {
		ready(tasks[i])
	}
}

// Exit ends the simulated process.
//
//go:norace
func Exit(code int) {
	if !active {
		panic(ExitPanic{code})
	}
	if !aborted {
		res.Exited = true
		res.ExitCode = code
		abort("exit")
	}
	cur.dead = true
	panic(abortPanic{why})
}

// Go starts a task. It is what "go f()" becomes.
//
//go:norace
func Go(fn func()) {
	if !active {
		panic("zzsim: go statement outside of a simulation")
	}
	t := addTask("go", fn)
	res.Started++
	raceGoStart(t)
	Yield()
}

//go:norace
func addTask(name string, fn func()) *Task {
	t := &Task{ID: ntasks, Name: name, state: stRunnable, wake: make(chan struct{}), fn: fn}
	if name == "go" {
		t.Name = "goroutine"
	}
	if ntasks == MaxTasks { // take the place of a goroutine that has ended
		for i := 0; i < ntasks; i++ {
			if o := tasks[i]; o.state == stDone && o.Name == "goroutine" && o.Panic == nil && o != cur {
				t.ID = i
				retired = append(retired, o)
				break
			}
		}
		if t.ID == MaxTasks {
			panic("zzsim: too many tasks")
		}
	} else {
		ntasks++
	}
	t.Root = t.ID
	if name == "go" && cur != nil {
		t.Root = cur.Root
	}
	tasks[t.ID] = t
	go t.run()
	return t
}

//go:norace
func (t *Task) run() {
	raceOff()
	<-t.wake
	raceOn()
	defer t.finish()
	if aborted {
		t.dead = true
		return
	}
	raceGoBegin(t)
	t.fn()
	t.Ended = true
}

//go:norace
func (t *Task) finish() {
	if r := recover(); r != nil {
		if _, ok := r.(abortPanic); !ok {
			t.Panic = r
			t.Stack = string(debug.Stack())
		}
	}
	t.state = stDone
	if cur == t {
		endSlice(true)
	}
	// a panic that escapes from a goroutine kills the process
	if t.Panic != nil && t.Name == "goroutine" {
		abort("goroutine panicked")
	}
	if t.ID == 0 && cfg.Process && !aborted {
		// the main function returned: the process is over
		abort("main returned")
	}
	raceTaskEnd(t)
	if !anyRunnable() && !idle() {
		pending, only := false, true
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stBlocked {
				pending = true
				if tasks[i].Name != "goroutine" {
					only = false
				}
			}
		}
		if !pending {
			raceOff()
			allDone <- struct{}{}
			raceOn()
			return
		}
		if only { // goroutines that wait for ever do no harm
			for i := 0; i < ntasks; i++ {
				if tasks[i].state == stBlocked {
					res.Idle++
					res.Stuck += "[" + tasks[i].Name + " blocked in " + tasks[i].on + "]"
				}
			}
			abort("only idle goroutines are left")
		} else {
			res.Deadlock = true
			for i := 0; i < ntasks; i++ {
				if tasks[i].state == stBlocked {
					res.Stuck += "[" + tasks[i].Name + " blocked in " + tasks[i].on + "]"
				}
			}
			abort("deadlock")
		}
	}
	cur = t
	next := pick()
	nswitch++
	hash = (hash ^ uint64(lastID)<<8 ^ uint64(next.ID)) * 0x100000001b3
	cur = next
	raceOff()
	next.wake <- struct{}{}
	raceOn()
}

// Named is a task of Run.
type Named struct {
	Name string
	Fn   func()
}

// Run executes the tasks under the scheduler until all have ended.
//
//go:norace
func Run(c Config, fns ...Named) *Result {
	if active {
		panic("zzsim: nested simulation")
	}
	epoch++
	cfg = c
	rnd = NewRand(c.Seed)
	pol = NewRand(c.PolSeed)
	aborted, why = false, ""
	ntasks = 0
	left, slice0, pend, total, replPos = 0, 0, 0, 0, 0
	sched, selfEnd = schedBuf[:0], false
	hash, nswitch, nblock = 14695981039346656037, 0, 0
	lastID = 0
	now = c.Clock
	if tick = c.Tick; tick <= 0 {
		tick = 1000
	}
	timers = nil
	res = &Result{}
	allDone = make(chan struct{})
	for _, f := range fns {
		addTask(f.Name, f.Fn)
	}
	cur = nil
	active = true
	first := pick()
	cur = first
	raceOff()
	first.wake <- struct{}{}
	<-allDone
	raceOn()
	active = false
	for i := 0; i < ntasks; i++ {
		raceTaskJoin(tasks[i])
	}
	for _, t := range retired {
		raceTaskJoin(t)
	}
	retired = nil
	r := res
	r.Steps = total
	r.Switches = nswitch
	r.Sched = append([]Slice(nil), sched...)
	r.Hash = hash
	r.Blocks = nblock
	r.Tasks = append(r.Tasks, tasks[:ntasks]...)
	timers = nil
	cur = nil
	return r
}

// Active reports whether a simulation runs.
//
//go:norace
func Active() bool { return active }

// CurTask is the ID of the running task, or of the one that the running
// goroutine descends from (-1 outside of simulations).
//
//go:norace
func CurTask() int {
	if !active || cur == nil {
		return -1
	}
	return cur.Root
}

// Aside runs a function as the only task of a simulation of its own, under the
// policies of the last one.
//
//go:norace
func Aside(fn func()) *Result {
	return Run(Config{Budget: 1 << 32, PoolMode: cfg.PoolMode, PolSeed: cfg.PolSeed, MapMode: cfg.MapMode}, Named{"main", fn})
}

// Over tells whether the simulation has been decided and what still runs is
// only being unwound.
//
//go:norace
func Over() bool { return active && aborted }

// Self identifies the task or goroutine that is running.
//
//go:norace
func Self() *Task {
	if !active {
		return nil
	}
	return cur
}

// Steps is the number of steps so far in this run.
//
//go:norace
func Steps() int64 { return Now() }

// Now is the number of steps executed so far in this run: the logical clock.
//
//go:norace
func Now() int64 {
	if !active {
		return 0
	}
	return total + slice0 - left
}

// SetPolicy switches pool and map-order behaviour outside of Run (baseline
// executions on the harness goroutine).
//
//go:norace
func SetPolicy(poolMode int, mapMode int, seed uint64) {
	cfg.PoolMode, cfg.MapMode = poolMode, mapMode
	pol = NewRand(seed)
	epoch++
}
