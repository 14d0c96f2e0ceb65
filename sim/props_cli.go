package main

import (
	"fmt"
	"strings"
	"syscall"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/zzlint"
	"github.com/lestrrat-go/helium/zzsim"
)

func init() {
	rule := "the command with one to five, at times hundreds of, inputs (good, damaged, empty, missing, forbidden, directories, read errors at any byte, reads of any size; or standard input), a full or closed standard output or error, few file descriptors. The seed decides inputs, faults and every switch between the opener and the main loop. "
	register(&Prop{ID: "C13", Quick: 80000, CLI: true, Run: runC13,
		Rule: rule + "Status and diagnostic are compared with what the faults that fired demand."})
	register(&Prop{ID: "C14", Quick: 80000, CLI: true, Run: runC14,
		Rule: rule + "Standard output is compared with the library's serializations, in order, up to the first failure."})
}

func runC13(s *Src, c *Ctx) *Violation { return runCLI(s, c, true) }
func runC14(s *Src, c *Ctx) *Violation { return runCLI(s, c, false) }

// cliIn is one input of the command and what should come of it.
type cliIn struct {
	spec *zzsim.InSpec
	name string
	out  string // its serialization
	bad  error  // why it cannot be opened, read, or parsed
	how  string
}

var openErrs = []error{syscall.EACCES, syscall.ENOENT, syscall.EIO, syscall.ELOOP, syscall.ENFILE, syscall.ENAMETOOLONG, syscall.EINVAL}

// inNames are patterns for names of files.
var inNames = []string{"%c.xml", "%c.xml", "%c.xml", "%c", "dir/%c b.xml", "/abs/../%c.xml", "100%%%c%%s.xml", "é%c日.xml", "%c'\"\\.xml", "%c\n.xml", "%c-long-" + strings.Repeat("name", 40)}

var readErrs = []error{syscall.EIO, syscall.ESTALE, syscall.ETIMEDOUT, syscall.ENXIO}

// drawInput draws an input. Its outcome comes from the library itself.
func drawInput(s *Src, c *Ctx, name string, trouble int) (*cliIn, *Violation) {
	in := &cliIn{name: name}
	m := genDoc(s, c)
	data := m.Bytes
	if s.Chance(15) { // more than one read buffer
		data = append(append([]byte(nil), data...), strings.Repeat("<!--more-->", 40+s.N(1200))...)
		c.tag("input of many buffers")
	}
	in.spec = &zzsim.InSpec{Name: name, Data: data}
	if s.Chance(trouble) {
		switch s.N(6) {
		case 0:
			in.spec.OpenErr = openErrs[s.N(len(openErrs))]
			in.bad, in.how = in.spec.OpenErr, "open"
		case 1:
			in.spec.Dir = true
			in.bad, in.how = syscall.EISDIR, "read"
		case 2, 3:
			in.spec.ReadErr = readErrs[s.N(len(readErrs))]
			switch s.N(4) {
			case 0: // all of it arrived
				in.spec.At = len(data)
			case 1: // the document is complete
				in.spec.At = len(m.Bytes)
			case 2:
				in.spec.At = 0
			default:
				in.spec.At = s.N(len(data) + 1)
			}
			in.bad, in.how = in.spec.ReadErr, "read"
		case 4:
			in.spec.Data = nil
		default:
			in.spec.Data = damage(s, c, m, 1)
		}
	}
	for i, n := 0, s.N(4); i < n; i++ {
		in.spec.Chunks = append(in.spec.Chunks, []int{1 + s.N(8), 1 + s.N(512), 511, 512, 1}[s.N(5)])
	}
	if in.bad != nil {
		return in, nil
	}
	r := c.solo(calm, budget(len(in.spec.Data)), func() {
		doc, err := helium.Parse(in.spec.Data)
		if err != nil {
			in.bad, in.how = err, "parse"
			return
		}
		w := &faultW{mode: wOK}
		if err := (&helium.Dumper{}).DumpDoc(w, doc); err != nil {
			in.bad, in.how = err, "dump"
		}
		in.out = string(w.buf)
	})
	return in, ended(r)
}

func runCLI(s *Src, c *Ctx, status bool) *Violation {
	pol := drawPol(s)
	p := &zzsim.Proc{Files: map[string]*zzsim.InSpec{}, Out: &zzsim.OutSpec{}, Err: &zzsim.OutSpec{}, Env: map[string]string{}}
	p.Args = []string{"helium-lint"}
	trouble := []int{12, 0, 40}[s.N(3)]
	var ins []*cliIn
	badOpt := ""
	total := 0
	stdin := s.Chance(20)
	switch {
	case stdin:
		in, v := drawInput(s, c, "-", trouble*2)
		if v != nil {
			return v
		}
		if in.how == "open" {
			in.spec.OpenErr, in.bad, in.how = nil, nil, ""
			in.spec.Dir, in.bad, in.how = true, syscall.EISDIR, "read"
		}
		p.In = in.spec
		ins = append(ins, in)
		c.tag("standard input")
	default:
		p.InTTY = s.Chance(30)
		p.In = &zzsim.InSpec{}
		var have []*cliIn
		dashes := false
		n := 1 + s.N(5)
		again := 20
		if s.Chance(2) {
			n, again = []int{12, 25, 70, 140, 300}[s.N(5)], 97
			c.tag("many inputs")
		}
		for i := 0; i < n; i++ {
			if len(have) > 0 && s.Chance(again) {
				ins = append(ins, have[s.N(len(have))])
				c.tag("input named twice")
			} else {
				in, v := drawInput(s, c, fmt.Sprintf(s.Pick(inNames), 'a'+len(have)), trouble)
				if v != nil {
					return v
				}
				have = append(have, in)
				ins = append(ins, in)
				if !(in.spec.OpenErr == syscall.ENOENT) {
					p.Files[in.name] = in.spec
				}
			}
			switch {
			case dashes:
			case badOpt == "" && i < 6 && s.Chance(1):
				badOpt = s.Pick([]string{"--bogus", "-x", "--noblanks=maybe", "--recover"})
				p.Args = append(p.Args, badOpt)
				c.fault("unknown option")
			case s.Chance(4):
				p.Args = append(p.Args, s.Pick([]string{"--noblanks", "--format"})) // accepted and without effect
			case s.Chance(2):
				p.Args = append(p.Args, "--")
				dashes = true // what follows are names
			}
			p.Args = append(p.Args, ins[i].name)
			if total += len(ins[i].spec.Data); total > 100000 {
				break
			}
		}
		if s.Chance(15) {
			p.MaxFDs = 1 + s.N(3)
		}
	}
	if stdin {
		total = len(p.In.Data)
	}
	// what all of it would print
	var want strings.Builder
	var ends []int
	for _, in := range ins {
		want.WriteString(in.out)
		ends = append(ends, want.Len())
	}
	if s.Chance(30) {
		p.Out.Err = []error{syscall.ENOSPC, syscall.EPIPE, syscall.EIO}[s.N(3)]
		p.Out.At = s.N(want.Len() + 1)
		if s.Chance(25) && len(ends) > 0 { // at the border of two documents
			p.Out.At = ends[s.N(len(ends))]
		}
		p.Out.Short = s.Chance(50)
		p.Out.Once = s.Chance(30)
	}
	if s.Chance(8) {
		p.Err.Err = []error{syscall.ENOSPC, syscall.EPIPE}[s.N(2)]
		p.Err.At = s.N(10)
	}
	cfg := drawSched(s, pol)
	cfg.Process = true
	cfg.Budget = 1 << 24
	for _, in := range ins {
		cfg.Budget += 2 * budget(len(in.spec.Data))
	}
	zzsim.SetProc(p)
	zzsim.Reset() // a new process
	r := c.sim(cfg, zzsim.Named{Name: "main", Fn: zzlint.ZZMain})
	zzsim.SetProc(nil)
	for k, n := range p.Fired {
		c.Faults[k] += n
	}
	if v := ended(r); v != nil {
		v.Detail += fmt.Sprintf(" (helium-lint %v)", p.Args[1:])
		return v
	}
	code := 0
	if r.Exited {
		code = r.ExitCode
	}
	if badOpt != "" { // nothing is done then
		name := strings.SplitN(strings.TrimLeft(badOpt, "-"), "=", 2)[0]
		if status && (code == 0 || !p.Err.Fired && !strings.Contains(string(p.Err.Buf), name)) {
			return viol("option", "helium-lint %q: status %d, stderr %q", p.Args[1:], code, clip2(string(p.Err.Buf), 200))
		}
		if !status && strings.Contains(string(p.Out.Buf), "<?xml") {
			return viol("option", "helium-lint %q: prints %q", p.Args[1:], clip2(string(p.Out.Buf), 200))
		}
		return nil
	}
	// which input is the first that cannot be handled
	first := len(ins)
	var cause error
	for i, in := range ins {
		if p.MaxFDs > 0 && openFailed(p, i) {
			first, cause = i, syscall.EMFILE
			break
		}
		if in.bad != nil {
			first, cause = i, in.bad
			break
		}
	}
	outFail := p.Out.Fired
	desc := func() string {
		var l []string
		for _, in := range ins {
			x := in.name
			if in.bad != nil {
				x += fmt.Sprintf(" (%s: %v)", in.how, in.bad)
			}
			l = append(l, x)
		}
		x := "helium-lint " + strings.Join(l, " ")
		if outFail {
			x += fmt.Sprintf(", output: %v at byte %d of %d", p.Out.Err, p.Out.At, want.Len())
		}
		if p.MaxFDs > 0 {
			x += fmt.Sprintf(", %d descriptors", p.MaxFDs)
		}
		return x
	}
	c.note("%s: status %d, %d of %d bytes, stderr %q", desc(), code, len(p.Out.Buf), want.Len(), clip2(string(p.Err.Buf), 120))
	if cause != nil {
		if cause == syscall.EMFILE {
			c.tag("fails: too many open files")
		} else {
			c.tag("fails: " + ins[first].how)
		}
	}
	if outFail {
		c.tag("fails: output")
	}
	if cause == nil && !outFail {
		c.tag("succeeds")
	}
	c.mark(uint64(code)<<32 | uint64(len(p.Out.Buf)))
	if status {
		fine := cause == nil && !outFail
		if fine != (code == 0) {
			return viol("status", "%s: status %d, stderr %q", desc(), code, clip2(string(p.Err.Buf), 200))
		}
		if fine || p.Err.Fired {
			return nil
		}
		msg := string(p.Err.Buf)
		if cause != nil && tells(msg, cause) || outFail && tells(msg, p.Out.Err) {
			return nil
		}
		return viol("diagnostic", "%s: status %d, but standard error has only %q", desc(), code, clip2(msg, 300))
	}
	// output
	got := string(p.Out.Buf)
	upto := want.String()
	if first < len(ins) {
		n := 0
		if first > 0 {
			n = ends[first-1]
		}
		upto = upto[:n]
	}
	if outFail {
		if len(got) > len(upto) || upto[:len(got)] != got {
			return viol("output", "%s: after the failed write: %s", desc(), firstDiff(upto, got))
		}
		if len(got) > p.Out.At {
			return viol("output", "%s: %d bytes after the failed write", desc(), len(got)-p.Out.At)
		}
		return nil
	}
	if got != upto {
		return viol("output", "%s: status %d: %s", desc(), code, firstDiff(upto, got))
	}
	return nil
}

// openFailed tells whether it was the i-th input that the process could not
// open for want of descriptors.
func openFailed(p *zzsim.Proc, i int) bool {
	if len(p.NoOpen) == 0 || p.NoOpen[0].Err != syscall.EMFILE {
		return false
	}
	return len(p.Opened) == i
}

// tells reports whether a diagnostic has the text of err, line breaks aside.
func tells(msg string, err error) bool {
	f := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	return strings.Contains(f(msg), f(err.Error()))
}
