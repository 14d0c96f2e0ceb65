// Command instr writes a copy of a Go module in which every source of
// nondeterminism is behind the simulator (package zzsim), and every statement
// reports to it.
//
//	instr -src /repo -out DIR -zzsim /verif/rt/zzsim -mod GO.MOD [-dep path=DIR ...]
//
// The copy behaves like the original while no simulation runs. What is
// rewritten, by type information and not by name:
//
//	statements            zzsim.S(id) before each one
//	go f(x)               zzsim.GoCall…(f)(x)
//	channels, select      zzsim.Send/Recv/Select/…
//	range over a map      an iterator whose order the seed decides
//	sync.X                zzsim.X
//	time.Now/Sleep/…      the simulated clock
//	os.X, fmt.Print…, log the simulated process environment
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path, Dir, GoMod string }
	Error      *struct{ Err string }
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

type fileCtx struct {
	fset  *token.FileSet
	tf    *token.File
	src   []byte
	info  *types.Info
	edits []edit
	steps bool
	uses  map[string]string // import path -> name
	n     int
}

var (
	stmtID   int32
	uniq     int
	ranges   []fileRange
	zzImport string
)

type fileRange struct {
	File   string
	Lo, Hi int32
}

func (c *fileCtx) off(p token.Pos) int { return c.tf.Offset(p) }

func (c *fileCtx) insert(p token.Pos, s string) { c.replace(p, p, s) }
func (c *fileCtx) replace(a, b token.Pos, s string) {
	c.n++
	c.edits = append(c.edits, edit{pos: c.off(a), end: c.off(b), text: s, seq: c.n})
}

// render applies the edits inside [a,b) and returns the text.
func (c *fileCtx) render(a, b int) string {
	var l []edit
	for _, e := range c.edits {
		if e.pos >= a && e.end <= b {
			l = append(l, e)
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].pos != l[j].pos {
			return l[i].pos < l[j].pos
		}
		return l[i].seq < l[j].seq
	})
	var o bytes.Buffer
	at := a
	for _, e := range l {
		if e.pos < at {
			continue // swallowed by an enclosing replacement
		}
		o.Write(c.src[at:e.pos])
		o.WriteString(e.text)
		at = e.end
	}
	o.Write(c.src[at:b])
	return o.String()
}

func (c *fileCtx) drop(a, b int) {
	k := 0
	for _, e := range c.edits {
		if e.pos >= a && e.end <= b {
			continue
		}
		c.edits[k] = e
		k++
	}
	c.edits = c.edits[:k]
}

func main() {
	src := flag.String("src", "", "")
	out := flag.String("out", "", "")
	zz := flag.String("zzsim", "", "")
	mod := flag.String("modfile", "", "")
	var deps multi
	flag.Var(&deps, "dep", "module=DIR, also instrumented; module:os=DIR, only the environment")
	flag.Parse()

	pkgs := list(*src, *mod)
	byPath := map[string]*pkgInfo{}
	modPath := ""
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
		if p.Module != nil && samePath(p.Module.Dir, *src) {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("cannot find the module of %s", *src)
	}
	zzImport = modPath + "/zzsim"

	lookup := func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}

	targets := map[string]struct {
		dir   string
		steps bool
	}{modPath: {*out, true}}
	for _, d := range deps {
		i := strings.Index(d, "=")
		m, dir := d[:i], d[i+1:]
		steps := true
		if strings.HasSuffix(m, ":os") {
			m, steps = strings.TrimSuffix(m, ":os"), false
		}
		targets[m] = struct {
			dir   string
			steps bool
		}{dir, steps}
	}

	done := map[string]bool{}
	for _, p := range pkgs {
		if p.Module == nil {
			continue
		}
		t, ok := targets[p.Module.Path]
		if !ok {
			continue
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dir := filepath.Join(t.dir, rel)
		mainPkg := p.Name == "main"
		if mainPkg {
			if filepath.Base(p.Dir) != "helium-lint" {
				continue
			}
			dir = filepath.Join(t.dir, "zzlint")
		}
		instrument(p, dir, lookup, t.steps, mainPkg)
		if !done[p.Module.Path] {
			done[p.Module.Path] = true
			writeMod(p.Module.GoMod, p.Module.Path, t.dir)
		}
	}

	// the runtime
	zzdir := filepath.Join(*out, "zzsim")
	must(os.MkdirAll(zzdir, 0o755))
	fs, err := filepath.Glob(filepath.Join(*zz, "*.go"))
	must(err)
	for _, f := range fs {
		if filepath.Base(f) == "ids.go" {
			continue
		}
		b, err := os.ReadFile(f)
		must(err)
		must(os.WriteFile(filepath.Join(zzdir, filepath.Base(f)), b, 0o644))
	}
	var o bytes.Buffer
	fmt.Fprintf(&o, "package zzsim\n\nconst NumStmts = %d\n\ntype FileRange struct {\n\tFile string\n\tLo, Hi int32\n}\n\nvar Files = []FileRange{\n", stmtID)
	for _, r := range ranges {
		fmt.Fprintf(&o, "\t{%q, %d, %d},\n", r.File, r.Lo, r.Hi)
	}
	o.WriteString("}\n")
	must(os.WriteFile(filepath.Join(zzdir, "ids.go"), o.Bytes(), 0o644))
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, " ") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func samePath(a, b string) bool {
	x, _ := filepath.EvalSymlinks(a)
	y, _ := filepath.EvalSymlinks(b)
	return x == y
}

func list(dir, mod string) []*pkgInfo {
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,ImportMap,Module,Error"}
	if mod != "" {
		args = append(args, "-modfile="+mod)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var l []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		l = append(l, p)
	}
	return l
}

// writeMod copies a go.mod with a language version that has generics (the
// runtime needs them); loop variables keep their per-loop meaning below 1.22.
func writeMod(from, path, dir string) {
	must(os.MkdirAll(dir, 0o755))
	b, err := os.ReadFile(from)
	if err != nil {
		b = []byte("module " + path + "\n")
	}
	var o []string
	seen := false
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			seen = true
			if older(f[1], 21) {
				l = "go 1.21"
			}
		}
		o = append(o, l)
	}
	if !seen {
		o = append(o, "go 1.21")
	}
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(strings.Join(o, "\n")+"\n"), 0o644))
}

func older(v string, minor int) bool {
	p := strings.Split(v, ".")
	if len(p) < 2 {
		return true
	}
	m, err := strconv.Atoi(p[1])
	return err != nil || m < minor
}

func instrument(p *pkgInfo, dir string, lookup func(string) (io.ReadCloser, error), steps, mainPkg bool) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(name)
		must(err)
		a, err := parser.ParseFile(fset, name, b, parser.ParseComments|parser.SkipObjectResolution)
		must(err)
		files = append(files, a)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	bad := false
	conf := types.Config{Importer: imp, Error: func(error) { bad = true }}
	pkg, _ := conf.Check(p.ImportPath, fset, files, info) // errors: the build will tell
	must(os.MkdirAll(dir, 0o755))
	rs := &resetter{pkg: pkg, info: info, files: files}
	if !bad {
		rs.find()
	}
	for i, a := range files {
		c := &fileCtx{fset: fset, tf: fset.File(a.Pos()), src: srcs[i], info: info, steps: steps, uses: map[string]string{}}
		lo := stmtID + 1
		c.file(a, mainPkg)
		if !bad {
			rs.file(c, a)
		}
		if steps && stmtID >= lo {
			ranges = append(ranges, fileRange{p.ImportPath + "/" + p.GoFiles[i], lo, stmtID})
		}
		o := c.render(0, len(c.src))
		o = "//line " + filepath.Join(p.Dir, p.GoFiles[i]) + ":1\n" + o
		must(os.WriteFile(filepath.Join(dir, p.GoFiles[i]), []byte(o), 0o644))
	}
	if !bad {
		name := p.Name
		if mainPkg {
			name = "zzlint"
		}
		must(os.WriteFile(filepath.Join(dir, "zzreset.go"), []byte(rs.text(name)), 0o644))
	}
}

// resetter makes a package able to return to the state it has when a process
// starts: every simulated run is the first thing its process does.
type resetter struct {
	pkg   *types.Package
	info  *types.Info
	files []*ast.File
	zero  []string
	order []*types.Initializer
	inits []string
	calls []string
}

// find lists the variables that can change.
func (r *resetter) find() {
	touched := map[types.Object]bool{}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.Ident:
				return r.info.Uses[x]
			default:
				return nil
			}
		}
	}
	for _, f := range r.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					touched[root(e)] = true
				}
			case *ast.IncDecStmt:
				touched[root(n.X)] = true
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					touched[root(n.X)] = true
				}
			case *ast.RangeStmt:
				if n.Key != nil {
					touched[root(n.Key)] = true
				}
				if n.Value != nil {
					touched[root(n.Value)] = true
				}
			}
			return true
		})
	}
	errType := types.Universe.Lookup("error").Type()
	// an error made of constants that nobody assigns to stays what it is
	still := map[types.Object]bool{}
	for _, i := range r.info.InitOrder {
		if len(i.Lhs) == 1 && !touched[i.Lhs[0]] && types.AssignableTo(i.Lhs[0].Type(), errType) && r.isNew(i.Rhs) {
			still[i.Lhs[0]] = true
		}
	}
	sc := r.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !still[v] {
			r.zero = append(r.zero, n)
		}
	}
	for _, i := range r.info.InitOrder {
		blank := true
		for _, l := range i.Lhs {
			if l.Name() != "_" && !still[l] {
				blank = false
			}
		}
		if !blank {
			r.order = append(r.order, i)
		}
	}
	r.calls = make([]string, len(r.order))
}

func (r *resetter) isNew(e ast.Expr) bool {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = u.X
	}
	if lit, ok := e.(*ast.CompositeLit); ok {
		for _, x := range lit.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				x = kv.Value
			}
			if r.info.Types[x].Value == nil {
				return false
			}
		}
		return true
	}
	call, ok := e.(*ast.CallExpr)
	if !ok || len(call.Args) == 0 {
		return false
	}
	for _, x := range call.Args {
		if r.info.Types[x].Value == nil {
			return false
		}
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok || sel.Sel.Name != "New" && sel.Sel.Name != "Errorf" {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	return ok && (strings.HasSuffix(pn.Imported().Path(), "errors") || pn.Imported().Path() == "fmt")
}

// file adds to a file functions that repeat its initializers, and gives names
// to its init functions. The file has been walked.
func (r *resetter) file(c *fileCtx, a *ast.File) {
	var o bytes.Buffer
	for k, i := range r.order {
		p := i.Rhs.Pos()
		if p < a.Pos() || p >= a.End() {
			continue
		}
		uniq++
		fn := fmt.Sprintf("zzinitvar%d", uniq)
		r.calls[k] = fn
		var l []string
		for _, v := range i.Lhs {
			l = append(l, v.Name())
		}
		fmt.Fprintf(&o, "\nfunc %s() { %s = %s }\n", fn, strings.Join(l, ", "), c.render(c.off(i.Rhs.Pos()), c.off(i.Rhs.End())))
	}
	for _, d := range a.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "init" && f.Body != nil {
			uniq++
			fn := fmt.Sprintf("zzinitfn%d", uniq)
			r.inits = append(r.inits, fn)
			c.replace(f.Name.Pos(), f.Name.End(), fn)
			fmt.Fprintf(&o, "\nfunc init() { %s() }\n", fn)
		}
	}
	c.n++
	c.edits = append(c.edits, edit{pos: len(c.src), end: len(c.src), text: o.String(), seq: c.n})
}

func (r *resetter) text(name string) string {
	var o bytes.Buffer
	fmt.Fprintf(&o, "package %s\n\nimport zzsim %q\n\nfunc init() {\n\tzzsim.OnReset(func() {\n", name, zzImport)
	for _, v := range r.zero {
		fmt.Fprintf(&o, "\t\tzzsim.Zero(&%s)\n", v)
	}
	o.WriteString("\t}, func() {\n")
	for _, f := range append(append([]string(nil), r.calls...), r.inits...) {
		fmt.Fprintf(&o, "\t\t%s()\n", f)
	}
	o.WriteString("\t})\n}\n")
	return o.String()
}

func (c *fileCtx) file(a *ast.File, mainPkg bool) {
	if mainPkg {
		c.replace(a.Name.Pos(), a.Name.End(), "zzlint")
	}
	c.insert(a.Name.End(), "; import zzsim "+strconv.Quote(zzImport))
	for _, d := range a.Decls {
		if f, ok := d.(*ast.FuncDecl); ok {
			if mainPkg && f.Recv == nil && f.Name.Name == "main" {
				c.replace(f.Name.Pos(), f.Name.End(), "ZZMain")
			}
		}
		c.walk(d)
	}
	// keep the imports used
	end := "\nvar _ = zzsim.Now\n"
	var paths []string
	for path := range c.uses {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if keep, ok := keepUse[path]; ok {
			end += fmt.Sprintf(keep, c.uses[path]) + "\n"
		}
	}
	c.n++
	c.edits = append(c.edits, edit{pos: len(c.src), end: len(c.src), text: end, seq: c.n})
}

var keepUse = map[string]string{
	"sync":         "var _ %s.Locker",
	"time":         "var _ %s.Duration",
	"os":           "var _ %s.FileMode",
	"fmt":          "var _ %s.Stringer",
	"io/ioutil":    "var _ = %s.Discard",
	"io":           "var _ %s.Reader",
	"log":          "var _ %s.Logger",
	"math/rand":    "var _ %s.Rand",
	"math/rand/v2": "var _ %s.Source",
	"hash/maphash": "var _ %s.Hash",
	"crypto/rand":  "var _ = %s.Reader",
	"syscall":      "var _ %s.Errno",
	"context":      "var _ %s.Context",
	"runtime":      "var _ %s.Error",
	"maps":         "var _ = %s.Clone[map[int]int]",
}

// what the simulator provides in place of package members
var subst = map[string]map[string]string{
	"sync": same("Mutex", "RWMutex", "Once", "WaitGroup", "Cond", "NewCond", "Pool", "Map", "OnceFunc", "OnceValue", "OnceValues", "Locker"),
	"time": {"Now": "TimeNow", "Sleep": "TimeSleep", "After": "TimeAfter", "Since": "TimeSince", "Until": "TimeUntil",
		"Timer": "Timer", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "TimeTick"},
	"context": {"WithCancel": "CtxWithCancel", "WithCancelCause": "CtxWithCancelCause", "WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline",
		"Cause": "CtxCause", "AfterFunc": "CtxAfterFunc", "WithoutCancel": "CtxWithoutCancel"},
	"runtime": {"Gosched": "Yield", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "NumGoroutine": "NumGoroutine"},
	"maps":    {"Keys": "MapsKeys", "Values": "MapsValues", "All": "MapsAll"},
	"os": {"Args": "OSArgs", "Exit": "Exit", "Stdin": "OSStdin", "Stdout": "OSStdout", "Stderr": "OSStderr",
		"Open": "OSOpen", "OpenFile": "OSOpenFile", "Create": "OSCreate", "ReadFile": "OSReadFile", "File": "OSFile", "Getenv": "OSGetenv", "LookupEnv": "OSLookupEnv", "Stat": "OSStat", "Lstat": "OSStat"},
	"fmt":       {"Print": "Print", "Printf": "Printf", "Println": "Println"},
	"io/ioutil": {"ReadFile": "OSReadFile"},
	"io":        {"Pipe": "IOPipe", "PipeReader": "PipeReader", "PipeWriter": "PipeWriter"},
	"log": {"Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrintln",
		"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatalln", "SetFlags": "LogSetFlags", "SetPrefix": "LogSetPrefix", "SetOutput": "LogSetOutput"},
	"math/rand": {"Int": "RandInt", "Intn": "RandIntn", "Int63": "RandInt63", "Float64": "RandFloat64", "Perm": "RandPerm", "Seed": "RandSeed", "Shuffle": "RandShuffle",
		"Uint64": "RandUint64", "Uint32": "RandUint32", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63n": "RandInt63n"},
	"math/rand/v2": {"Int": "RandInt", "IntN": "RandIntn", "Int64": "RandInt64", "Int64N": "RandInt63n", "Int32": "RandInt31", "Int32N": "RandInt31n", "Uint64": "RandUint64", "Uint32": "RandUint32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"hash/maphash": {"Hash": "Hash", "Seed": "HashSeed", "MakeSeed": "MakeSeed", "Bytes": "HashBytes", "String": "HashString"},
	"crypto/rand":  {"Read": "CryptoRead"},
	"syscall":      {"Syscall6": "Syscall6", "Syscall": "Syscall3"},
}

func same(l ...string) map[string]string {
	m := map[string]string{}
	for _, s := range l {
		m[s] = s
	}
	return m
}

func (c *fileCtx) typeOf(e ast.Expr) types.Type {
	if tv, ok := c.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := c.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (c *fileCtx) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = c.info.Uses[id].(*types.Builtin)
	return ok
}

func (c *fileCtx) step() string {
	if !c.steps {
		return ""
	}
	stmtID++
	return fmt.Sprintf("zzsim.S(%d); ", stmtID)
}

func (c *fileCtx) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause:
			c.walk(s)
			continue
		}
		if c.steps {
			c.insert(s.Pos(), c.step())
		}
		c.walk(s)
	}
}

func unlabel(s ast.Stmt) ast.Stmt {
	for {
		l, ok := s.(*ast.LabeledStmt)
		if !ok {
			return s
		}
		s = l.Stmt
	}
}

func (c *fileCtx) loopBody(b *ast.BlockStmt, prefix, suffix string) {
	c.insert(b.Lbrace+1, " "+prefix+c.step())
	c.stmts(b.List)
	if suffix != "" {
		c.insert(b.Rbrace, suffix)
	}
}

func (c *fileCtx) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case nil:
			return false
		case *ast.BlockStmt:
			c.stmts(n.List)
			return false
		case *ast.CaseClause:
			for _, e := range n.List {
				c.walk(e)
			}
			c.stmts(n.Body)
			return false
		case *ast.LabeledStmt:
			switch n.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.LabeledStmt, *ast.EmptyStmt:
			default:
				if c.steps {
					c.insert(n.Stmt.Pos(), c.step())
				}
			}
			c.walk(n.Stmt)
			return false
		case *ast.ForStmt:
			if n.Init != nil {
				c.walk(n.Init)
			}
			if n.Cond != nil {
				c.walk(n.Cond)
			}
			if n.Post != nil {
				c.walk(n.Post)
			}
			c.loopBody(n.Body, "", "")
			return false
		case *ast.RangeStmt:
			return c.rangeStmt(n)
		case *ast.GoStmt:
			c.goStmt(n)
			return false
		case *ast.SendStmt:
			c.insert(n.Chan.Pos(), "zzsim.SendTo(")
			c.walk(n.Chan)
			c.replace(n.Chan.End(), n.Value.Pos(), ")(")
			c.walk(n.Value)
			c.insert(n.Value.End(), ")")
			return false
		case *ast.SelectStmt:
			c.selectStmt(n)
			return false
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					for _, l := range n.Lhs {
						c.walk(l)
					}
					c.recv(u, "Recv2")
					return false
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					c.recv(u, "Recv2")
					return false
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				c.recv(n, "Recv")
				return false
			}
		case *ast.CallExpr:
			if len(n.Args) == 1 {
				_, isChan := under(c.typeOf(n.Args[0])).(*types.Chan)
				if isChan && c.isBuiltin(n.Fun, "close") {
					c.replace(n.Fun.Pos(), n.Fun.End(), "zzsim.Close")
					c.walk(n.Args[0])
					return false
				}
				if isChan && c.isBuiltin(n.Fun, "len") {
					c.replace(n.Fun.Pos(), n.Fun.End(), "zzsim.ChanLen")
					c.walk(n.Args[0])
					return false
				}
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := c.info.Uses[id].(*types.PkgName); ok {
					path := pn.Imported().Path()
					if to, ok := subst[path][n.Sel.Name]; ok {
						c.uses[path] = id.Name
						c.replace(n.Pos(), n.End(), "zzsim."+to)
					}
					return false
				}
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (c *fileCtx) recv(u *ast.UnaryExpr, fn string) {
	c.replace(u.OpPos, u.OpPos+2, "zzsim."+fn+"(")
	c.walk(u.X)
	c.insert(u.X.End(), ")")
}

func (c *fileCtx) rangeStmt(n *ast.RangeStmt) bool {
	_, isMap := under(c.typeOf(n.X)).(*types.Map)
	_, isChan := under(c.typeOf(n.X)).(*types.Chan)
	if !isMap && !isChan {
		if n.Key != nil && n.Tok == token.ASSIGN {
			c.walk(n.Key)
			if n.Value != nil {
				c.walk(n.Value)
			}
		}
		c.walk(n.X)
		c.loopBody(n.Body, "", "")
		return false
	}
	uniq++
	it := fmt.Sprintf("zzit%d", uniq)
	ctor := "MapIter"
	if isChan {
		ctor = "ChanIter"
	}
	text := func(e ast.Expr) string { return string(c.src[c.off(e.Pos()):c.off(e.End())]) }
	var l, r []string
	if n.Key != nil && text(n.Key) != "_" {
		l = append(l, text(n.Key))
		if isChan {
			r = append(r, it+".Val()")
		} else {
			r = append(r, it+".Key()")
		}
	}
	if n.Value != nil && text(n.Value) != "_" {
		l = append(l, text(n.Value))
		r = append(r, it+".Val()")
	}
	prefix := ""
	if len(l) > 0 {
		prefix = strings.Join(l, ", ") + " " + n.Tok.String() + " " + strings.Join(r, ", ") + "; "
	}
	c.replace(n.For+3, n.X.Pos(), " "+it+" := zzsim."+ctor+"(")
	c.walk(n.X)
	c.insert(n.X.End(), "); "+it+".Next(); ")
	c.loopBody(n.Body, prefix+"{ ", "}")
	return false
}

func (c *fileCtx) goStmt(n *ast.GoStmt) {
	call := n.Call
	sig, _ := under(c.typeOf(call.Fun)).(*types.Signature)
	simple := sig != nil && !sig.Variadic() && sig.Params().Len() <= 4 && sig.Results().Len() <= 2 && !call.Ellipsis.IsValid() &&
		sig.Params().Len() == len(call.Args)
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, b := c.info.Uses[id].(*types.Builtin); b {
			simple = false
		}
	}
	if simple {
		c.replace(n.Go, n.Go+2, "")
		c.insert(call.Fun.Pos(), fmt.Sprintf("zzsim.GoCall%d%d(", sig.Params().Len(), sig.Results().Len()))
		c.walk(call.Fun)
		c.insert(call.Fun.End(), ")")
		for _, a := range call.Args {
			c.walk(a)
		}
		return
	}
	c.replace(n.Go, n.Go+2, "zzsim.Go(func() {")
	c.walk(call)
	c.insert(call.End(), "})")
}

func (c *fileCtx) selectStmt(n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		c.replace(n.Pos(), n.End(), "zzsim.Select(false)")
		return
	}
	uniq++
	var names, inits []string
	hasDefault := false
	for _, s := range n.Body.List {
		if s.(*ast.CommClause).Comm == nil {
			hasDefault = true
		}
	}
	exprText := func(e ast.Expr) string {
		c.walk(e)
		t := c.render(c.off(e.Pos()), c.off(e.End()))
		c.drop(c.off(e.Pos()), c.off(e.End()))
		return t
	}
	k := 0
	for i, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			c.stmts(cc.Body)
			continue
		}
		name := fmt.Sprintf("zzc%d_%d", uniq, k)
		body := ""
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, "zzsim.SendCaseTo("+exprText(m.Chan)+")("+exprText(m.Value)+")")
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			inits = append(inits, "zzsim.RecvCaseOf("+exprText(u.X)+")")
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			inits = append(inits, "zzsim.RecvCaseOf("+exprText(u.X)+")")
			var l []string
			for _, e := range m.Lhs {
				l = append(l, exprText(e))
			}
			r := name + ".Val()"
			if len(l) == 2 {
				r += ", " + name + ".Ok()"
			}
			body = " " + strings.Join(l, ", ") + " " + m.Tok.String() + " " + r + ";"
		}
		names = append(names, name)
		head := fmt.Sprintf("case %d:", k)
		if !hasDefault && i == len(n.Body.List)-1 {
			head = "default:" // keeps the statement terminating
		}
		c.replace(cc.Case, cc.Colon+1, head+body)
		c.stmts(cc.Body)
		k++
	}
	if len(names) == 0 { // only default
		c.replace(n.Select, n.Body.Lbrace, "switch ")
		return
	}
	c.replace(n.Select, n.Body.Lbrace, fmt.Sprintf("switch %s := %s; zzsim.Select(%v, %s) ",
		strings.Join(names, ", "), strings.Join(inits, ", "), hasDefault, strings.Join(names, ", ")))
}
