package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lestrrat-go/helium/zzsim"
)

// Exit codes of the check: 0 held, 1 violated, anything else: the check failed.
const exitTrouble = 2

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(exitTrouble)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: simrun check|worker|shrink|replay|one|trygen …")
	}
	args := map[string]string{}
	for i := 2; i+1 < len(os.Args); i += 2 {
		args[strings.TrimPrefix(os.Args[i], "-")] = os.Args[i+1]
	}
	debug.SetMaxStack(256 << 20)
	switch os.Args[1] {
	case "check":
		checkMain(args)
	case "worker":
		workerMain(args)
	case "shrink":
		shrinkMain(args)
	case "replay":
		replayMain(args)
	case "one":
		oneMain(args)
	case "digest":
		digestMain(args)
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "trygen":
		n, _ := strconv.Atoi(os.Args[2])
		tryGen(n)
	default:
		die("unknown command %s", os.Args[1])
	}
}

func propIDs() []string {
	var l []string
	for id := range props {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

func geti(a map[string]string, k string, def int) int {
	if s, ok := a[k]; ok {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			die("bad -%s %q", k, s)
		}
		return int(n)
	}
	return def
}

func getProp(a map[string]string) *Prop {
	p := props[a["prop"]]
	if p == nil {
		die("unknown property %q", a["prop"])
	}
	return p
}

func runSeed(seed int, p *Prop, i int) uint64 { return mix(uint64(seed), strHash(p.ID), uint64(i)) }

// Found is a violation and everything needed to repeat it.
type Found struct {
	Prop    string          `json:"property"`
	Seed    int             `json:"verif_seed"`
	Index   int             `json:"run"`
	Deep    bool            `json:"deep,omitempty"`
	Race    bool            `json:"race_detector,omitempty"`
	Class   string          `json:"class"`
	Detail  string          `json:"detail"`
	Choices []uint64        `json:"choices"`
	Scheds  [][]zzsim.Slice `json:"schedules,omitempty"` // explicit schedule per simulation
	UseSch  bool            `json:"use_schedules,omitempty"`
	History []int           `json:"history,omitempty"` // runs that have to come first in the same process
	Fatal   bool            `json:"fatal,omitempty"`   // the process dies
	BySeed  bool            `json:"choices_from_seed,omitempty"`
	Faults  []string        `json:"fault_trace,omitempty"`
	Desc    []string        `json:"execution,omitempty"`
	Minim   string          `json:"minimisation,omitempty"`
}

// WorkerOut is what one worker reports.
type WorkerOut struct {
	Runs, Next int
	Viol       *Found
	Known      map[string]int
	Faults     map[string]int
	Tags       map[string]int
	Steps      int64
	Switches   int64
	Blocks     int64
	Sims       int
	NonTriv    int
	Hashes     []uint64
	Samples    []string
	Cov        []byte
	Wall       float64
	Pool       [3]int64
	Maps       int64
	SimMicros  int64
}

type known struct {
	prop, class string
	re          *regexp.Regexp
	text        string
}

// loadKnown reads the known-findings file: lines
//
//	finding: property=<id> class=<class> match=/<regexp>/ <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(file string) []known {
	var l []known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)$`)
	for _, s := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(s); m != nil {
			l = append(l, known{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return l
}

func isKnown(l []known, prop string, v *Violation) string {
	for _, k := range l {
		if k.prop == prop && k.class == v.Class && k.re.MatchString(v.Detail) {
			return k.text
		}
	}
	return ""
}

// exec1 executes one run.
func exec1(p *Prop, s *Src, c *Ctx) *Violation {
	r0 := zzsim.RaceErrors()
	v := runOne(p, s, c)
	if n := zzsim.RaceErrors(); v == nil && n > r0 {
		v = viol("race", "data race: %s", raceReport())
	}
	return v
}

// raceReport digests what the race detector has logged. Only accesses made by
// the code under test count: a report without any is the harness' own trouble.
func raceReport() string {
	log := fmt.Sprintf("%s.%d", os.Getenv("ZZ_RACELOG"), os.Getpid()) // others may be left from earlier processes
	b, err := os.ReadFile(log)
	if err != nil {
		return "(no report)"
	}
	_ = os.Truncate(log, 0)
	sum, ok := raceDigest(string(b))
	if !ok {
		panic("harness panicked: data race outside the code under test:\n" + string(b))
	}
	return sum
}

// raceDigest names the first function of the code under test in each stack of
// the accesses of a report.
func raceDigest(text string) (string, bool) {
	var o []string
	ok := false
	open := false // in the stack of an access that has no function yet
	for _, s := range strings.Split(text, "\n") {
		t := strings.TrimSpace(s)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous read at"), strings.HasPrefix(t, "Previous write at"):
			if len(o) >= 2 && ok {
				return strings.Join(o, "; "), true
			}
			if len(o) >= 2 {
				o = nil
			}
			o = append(o, t[:strings.Index(t, " at 0x")]+" in ?")
			open = true
		case t == "":
			open = false
		case open && strings.HasPrefix(t, "github.com/lestrrat-go/") && !strings.Contains(t, "/zzsim.") && !strings.Contains(t, ".go:"):
			if i := strings.LastIndex(t, "("); i > 0 {
				t = t[:i]
			}
			o[len(o)-1] = strings.TrimSuffix(o[len(o)-1], "?") + strings.TrimPrefix(t, "github.com/lestrrat-go/")
			open = false
			ok = true
		}
	}
	return strings.Join(o, "; "), ok
}

func workerMain(a map[string]string) {
	p := getProp(a)
	seed, w, n, runs := geti(a, "seed", 1), geti(a, "w", 0), geti(a, "n", 1), geti(a, "runs", 1000)
	deep := a["deep"] == "1"
	deadline := time.Now().Add(time.Duration(geti(a, "secs", 60)) * time.Second)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	kn := loadKnown(a["known"])
	prog, err := os.OpenFile(a["out"]+".idx", os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		die("%v", err)
	}
	o := &WorkerOut{Faults: map[string]int{}, Tags: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	start := time.Now()
	var b8 [8]byte
	var curRun int64 = -1
	go func() { // a stalled harness is trouble, not a violation
		last, same := int64(-2), 0
		for {
			time.Sleep(5 * time.Second)
			if c := atomic.LoadInt64(&curRun); c == last {
				if same++; same > 36 {
					fmt.Fprintf(os.Stderr, "worker stalled in run %d\n", c)
					os.Exit(3)
				}
			} else {
				last, same = c, 0
			}
		}
	}()
	for i := w; i < runs; i += n {
		if time.Now().After(deadline) {
			break
		}
		atomic.StoreInt64(&curRun, int64(i))
		binary.LittleEndian.PutUint64(b8[:], uint64(i))
		prog.WriteAt(b8[:], 0)
		src := NewSrc(runSeed(seed, p, i))
		c := NewCtx()
		c.Deep = deep
		c.Trace = len(o.Samples) < 2 && i >= w+3*n
		v := exec1(p, src, c)
		o.Runs++
		o.Next = i + n
		for k, x := range c.Faults {
			o.Faults[k] += x
		}
		for k, x := range c.Tags {
			o.Tags[k] += x
		}
		o.Steps += c.Steps
		o.Switches += c.Switch
		o.Blocks += c.Blocks
		o.Sims += c.Sims
		o.SimMicros += c.Steps
		if len(c.Faults) > 0 || c.Switch > 1 || c.NonTriv {
			o.NonTriv++
			h := c.Hash
			for _, x := range src.Rec {
				h = mix(h, x)
			}
			if !seen[h] {
				seen[h] = true
				o.Hashes = append(o.Hashes, h)
			}
		}
		if c.Trace && len(c.Sample) > 0 {
			o.Samples = append(o.Samples, fmt.Sprintf("run %d: %s", i, clip2(strings.Join(c.Sample, " | "), 900)))
		}
		if v != nil {
			if t := isKnown(kn, p.ID, v); t != "" {
				o.Known[t]++
				continue
			}
			f := &Found{Prop: p.ID, Seed: seed, Index: i, Class: v.Class, Detail: v.Detail, Choices: src.Rec, Scheds: c.Used, Deep: deep, Race: zzsim.RaceEnabled}
			for j := w; j < i; j += n {
				f.History = append(f.History, j)
			}
			o.Viol = f
			break
		}
	}
	o.Cov = make([]byte, len(zzsim.Cov))
	for i, x := range zzsim.Cov {
		if x {
			o.Cov[i] = 1
		}
	}
	o.Wall = time.Since(start).Seconds()
	o.Pool = [3]int64{zzsim.PoolFresh, zzsim.PoolRecycled, zzsim.PoolPoisoned}
	o.Maps = zzsim.MapRanges
	writeJSON(a["out"], o)
}

func clip2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func writeJSON(file string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(file, b, 0o644)
	}
	if err != nil {
		die("%v", err)
	}
}

func readJSON(file string, v interface{}) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// repeat executes what f describes in this process, history first.
func repeat(f *Found, c *Ctx) *Violation {
	p := props[f.Prop]
	for _, j := range f.History {
		hc := NewCtx()
		hc.Deep = f.Deep
		exec1(p, NewSrc(runSeed(f.Seed, p, j)), hc)
	}
	c.Scheds, c.useSch, c.Deep = f.Scheds, f.UseSch, f.Deep
	if f.BySeed {
		return exec1(p, NewSrc(runSeed(f.Seed, p, f.Index)), c)
	}
	return exec1(p, ReplaySrc(f.Choices), c)
}

// OneOut is the result of repeating one execution.
type OneOut struct {
	V     *Violation
	Used  [][]zzsim.Slice
	Desc  []string
	Fault []string
}

func oneMain(a map[string]string) {
	f := &Found{}
	if err := readJSON(a["in"], f); err != nil {
		die("%v", err)
	}
	runtime.GOMAXPROCS(1)
	c := NewCtx()
	c.Trace = true
	v := repeat(f, c)
	o := OneOut{V: v, Used: c.Used, Desc: c.Sample}
	for _, k := range sortedCounts(c.Faults) {
		o.Fault = append(o.Fault, fmt.Sprintf("%s ×%d", k, c.Faults[k]))
	}
	writeJSON(a["out"], o)
}

// fresh repeats f in a fresh process. died tells that the process did not
// survive it.
func fresh(self, tmp string, f *Found) (o *OneOut, died bool, msg string) {
	in, out := filepath.Join(tmp, "one.in"), filepath.Join(tmp, "one.out")
	os.Remove(out)
	writeJSON(in, f)
	cmd := exec.Command(bin(self, f.Race), "one", "-in", in, "-out", out)
	cmd.Env = raceEnv(filepath.Join(tmp, "race-one"))
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		o = &OneOut{}
		if readJSON(out, o) == nil {
			return o, false, ""
		}
		return nil, err != nil, fatalText(eb.String())
	case <-time.After(200 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, false, "timeout"
	}
}

// fatalText is the line that tells why a Go process died; "" when it was not
// the program's own doing.
func fatalText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "harness panicked") {
			return ""
		}
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			if strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
				return ""
			}
			if i := strings.Index(l, " stack exceeds"); i > 0 {
				l = "stack overflow"
			}
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func bin(self string, race bool) string {
	if race {
		return strings.TrimSuffix(self, ".race") + ".race"
	}
	return strings.TrimSuffix(self, ".race")
}

func raceEnv(log string) []string {
	return append(os.Environ(), "ZZ_RACELOG="+log, "GORACE=log_path="+log+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4")
}

func same(f *Found, o *OneOut) bool {
	if o == nil || o.V == nil {
		return false
	}
	return o.V.Class == f.Class && (f.Class == "race" || noAddr(o.V.Detail) == noAddr(f.Detail))
}

var addr = regexp.MustCompile(`(0x)?[0-9a-fA-F]{8,}|0x[0-9a-fA-F]+`)

// noAddr is a text without addresses in memory, which are the only thing in a
// run that is not a function of its seed.
func noAddr(s string) string { return addr.ReplaceAllString(s, "0x") }

// shrinkMain minimises in-process; the parent verifies the result.
func shrinkMain(a map[string]string) {
	f := &Found{}
	if err := readJSON(a["in"], f); err != nil {
		die("%v", err)
	}
	runtime.GOMAXPROCS(1)
	g := shrink(f, time.Duration(geti(a, "secs", 30))*time.Second)
	writeJSON(a["out"], g)
}

func replayMain(a map[string]string) {
	self, _ := os.Executable()
	f := &Found{}
	if err := readJSON(a["file"], f); err != nil {
		die("%v", err)
	}
	if props[f.Prop] == nil {
		die("unknown property")
	}
	tmp, err := os.MkdirTemp("", "simreplay")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	o, died, msg := fresh(self, tmp, f)
	if o == nil {
		if died && f.Fatal {
			fmt.Printf("the process died: %s\nreproduced\n", msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, a["file"])
			os.RemoveAll(tmp)
			os.Exit(1)
		}
		die("replay failed: %s", msg)
	}
	for _, s := range o.Desc {
		fmt.Println("  ", s)
	}
	for _, s := range o.Fault {
		fmt.Println("   fault:", s)
	}
	if o.V == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("%s: %s\n", o.V.Class, o.V.Detail)
	if same(f, o) {
		fmt.Println("reproduced exactly")
	} else {
		fmt.Println("differs from the recorded violation")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, a["file"])
	os.RemoveAll(tmp)
	os.Exit(1)
}
