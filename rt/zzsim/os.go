package zzsim

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"
)

// The simulated process environment: arguments, files, standard streams, and
// the clock. Outside of a simulated process everything fails with ENOSYS.

// InSpec is a simulated input file.
type InSpec struct {
	Name    string
	Data    []byte
	OpenErr error
	Dir     bool // reads fail with EISDIR
	// ReadErr is returned once At bytes were delivered (nil: never)
	ReadErr error
	At      int
	Chunks  []int // sizes of the reads; after that everything available
	Zero    bool  // sometimes (0, nil)
}

// OutSpec is a simulated output stream.
type OutSpec struct {
	Err   error // returned from the call that crosses byte At
	At    int
	Short bool // the failing call accepts the bytes before At
	Once  bool // only one call fails

	Buf    []byte
	Fired  bool
	After  int // bytes offered after the failure
	NWrite int
}

// Proc is the environment of a simulated process.
type Proc struct {
	Args   []string
	Files  map[string]*InSpec
	In     *InSpec
	InTTY  bool
	Out    *OutSpec
	Err    *OutSpec
	MaxFDs int // 0: unlimited
	Env    map[string]string

	Opened []string // in order
	NoOpen []NoOpen // what could not be opened
	Reads  int
	Fired  map[string]int
	Log    []string // what the process did, in order
}

// NoOpen is a failed open.
type NoOpen struct {
	Name string
	Err  error
}

func noOpen(name string, err error) (*OSFile, error) {
	proc.NoOpen = append(proc.NoOpen, NoOpen{name, err})
	return nil, &os.PathError{Op: "open", Path: name, Err: err}
}

var proc *Proc
var heapFDs int

// SetProc installs the environment of the next run.
func SetProc(p *Proc) {
	proc = p
	heapFDs = 0
	if p == nil {
		return
	}
	if p.Fired == nil {
		p.Fired = map[string]int{}
	}
	OSArgs = p.Args
	OSStdin = &OSFile{name: "/dev/stdin", in: p.In, tty: p.InTTY, fd: 0}
	OSStdout = &OSFile{name: "/dev/stdout", out: p.Out, fd: 1}
	OSStderr = &OSFile{name: "/dev/stderr", out: p.Err, fd: 2}
	logOut, logPrefix = OSStderr, ""
}

var (
	OSArgs                                = []string{"sim"}
	OSStdin, OSStdout, OSStderr           = &OSFile{}, &OSFile{}, &OSFile{}
	logOut                      io.Writer = OSStderr
	logPrefix                   string
)

// OSFile replaces os.File.
type OSFile struct {
	name   string
	in     *InSpec
	out    *OutSpec
	pos    int
	nread  int
	tty    bool
	fd     int
	closed bool
}

// fake descriptors are far away from real ones
const fdBase = 1 << 20

func (f *OSFile) Fd() uintptr  { return uintptr(fdBase + f.fd) }
func (f *OSFile) Name() string { return f.name }

func (f *OSFile) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	if f.fd > 2 {
		heapFDs--
	}
	return nil
}

func (f *OSFile) Sync() error                       { return nil }
func (f *OSFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *OSFile) Seek(off int64, wh int) (int64, error) {
	if f.in == nil || f.fd < 3 {
		return 0, &os.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	}
	switch wh {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.in.Data))
	}
	if off < 0 {
		return 0, &os.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.pos = int(off)
	return off, nil
}

func (f *OSFile) ReadAt(b []byte, off int64) (int, error) {
	if f == nil || f.in == nil || f.fd < 3 {
		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.ESPIPE}
	}
	g := *f
	g.pos = int(off)
	n := 0
	for n < len(b) {
		k, err := g.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *OSFile) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *OSFile) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *OSFile) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *OSFile) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *OSFile) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

func (f *OSFile) Stat() (os.FileInfo, error) {
	if f.in == nil {
		return &fileInfo{name: f.name, mode: os.ModeNamedPipe | 0o600}, nil
	}
	return f.in.stat(f.name, f.tty), nil
}

type fileInfo struct {
	name string
	size int64
	mode os.FileMode
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() os.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i *fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *fileInfo) Sys() interface{}   { return nil }

func (s *InSpec) stat(name string, tty bool) os.FileInfo {
	i := &fileInfo{name: name, size: int64(len(s.Data)), mode: 0o644}
	if s.Dir {
		i.mode |= os.ModeDir
	}
	if tty {
		i.mode |= os.ModeDevice | os.ModeCharDevice
	}
	return i
}

func (f *OSFile) Read(b []byte) (int, error) {
	Yield()
	if proc != nil {
		proc.Reads++
	}
	if f == nil || f.in == nil {
		return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EBADF}
	}
	if f.closed {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	s := f.in
	if s.Dir {
		proc.Fired["EISDIR"]++
		return 0, &os.PathError{Op: "read", Path: f.name, Err: syscall.EISDIR}
	}
	if len(b) == 0 {
		return 0, nil
	}
	limit := len(s.Data)
	if s.ReadErr != nil && s.At < limit {
		limit = s.At
	}
	if f.pos >= limit {
		if s.ReadErr != nil {
			proc.Fired["read error"]++
			return 0, &os.PathError{Op: "read", Path: f.name, Err: s.ReadErr}
		}
		return 0, io.EOF
	}
	n := limit - f.pos
	if f.nread < len(s.Chunks) && s.Chunks[f.nread] > 0 && n > s.Chunks[f.nread] {
		n = s.Chunks[f.nread]
		proc.Fired["short read"]++
	}
	f.nread++
	if n > len(b) {
		n = len(b)
	}
	copy(b, s.Data[f.pos:f.pos+n])
	f.pos += n
	Yield()
	return n, nil
}

func (f *OSFile) Write(b []byte) (int, error) {
	Yield()
	if f == nil || f.out == nil {
		return 0, &os.PathError{Op: "write", Path: f.Name(), Err: syscall.EBADF}
	}
	if f.closed {
		return 0, &os.PathError{Op: "write", Path: f.name, Err: os.ErrClosed}
	}
	o := f.out
	o.NWrite++
	if o.Fired && !o.Once {
		o.After += len(b)
		return 0, &os.PathError{Op: "write", Path: f.name, Err: o.Err}
	}
	if o.Err != nil && !o.Fired && len(o.Buf)+len(b) > o.At {
		n := 0
		if o.Short && o.At > len(o.Buf) {
			n = o.At - len(o.Buf)
		}
		o.Buf = append(o.Buf, b[:n]...)
		o.Fired = true
		proc.Fired[f.name[5:]+" error"]++
		return n, &os.PathError{Op: "write", Path: f.name, Err: o.Err}
	}
	o.Buf = append(o.Buf, b...)
	Yield()
	return len(b), nil
}

func OSOpen(name string) (*OSFile, error) { return OSOpenFile(name, os.O_RDONLY, 0) }

func OSOpenFile(name string, flag int, perm os.FileMode) (*OSFile, error) {
	Yield()
	if proc == nil {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOSYS}
	}
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
		proc.Log = append(proc.Log, "create "+name)
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EROFS}
	}
	s := proc.Files[name]
	if s == nil {
		proc.Fired["ENOENT"]++
		return noOpen(name, syscall.ENOENT)
	}
	if s.OpenErr != nil {
		proc.Fired["open error"]++
		return noOpen(name, s.OpenErr)
	}
	if proc.MaxFDs > 0 && heapFDs >= proc.MaxFDs {
		proc.Fired["EMFILE"]++
		return noOpen(name, syscall.EMFILE)
	}
	heapFDs++
	proc.Opened = append(proc.Opened, name)
	return &OSFile{name: name, in: s, fd: 2 + len(proc.Opened)}, nil
}

func OSCreate(name string) (*OSFile, error) {
	return OSOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OSReadFile(name string) ([]byte, error) {
	f, err := OSOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func OSStat(name string) (os.FileInfo, error) {
	if proc == nil || proc.Files[name] == nil {
		return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return proc.Files[name].stat(name, false), nil
}

func OSGetenv(k string) string { v, _ := OSLookupEnv(k); return v }
func OSLookupEnv(k string) (string, bool) {
	if proc == nil {
		return "", false
	}
	v, ok := proc.Env[k]
	return v, ok
}

// Syscall6 answers ioctl(TCGETS) and fails everything else.
func Syscall6(nr, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	if nr == syscall.SYS_IOCTL && a1 >= fdBase {
		if proc != nil && proc.InTTY && a1 == fdBase {
			return 0, 0, 0
		}
		return ^uintptr(0), 0, syscall.ENOTTY
	}
	return ^uintptr(0), 0, syscall.ENOSYS
}

func Syscall3(nr, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return Syscall6(nr, a1, a2, a3, 0, 0, 0)
}

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(OSStdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(OSStdout, f, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(OSStdout, a...) }

func logLine(s string) {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	io.WriteString(logOut, logPrefix+s)
}
func LogPrint(a ...interface{})            { logLine(fmt.Sprint(a...)) }
func LogPrintf(f string, a ...interface{}) { logLine(fmt.Sprintf(f, a...)) }
func LogPrintln(a ...interface{})          { logLine(fmt.Sprintln(a...)) }
func LogFatal(a ...interface{})            { logLine(fmt.Sprint(a...)); Exit(1) }
func LogFatalf(f string, a ...interface{}) { logLine(fmt.Sprintf(f, a...)); Exit(1) }
func LogFatalln(a ...interface{})          { logLine(fmt.Sprintln(a...)); Exit(1) }
func LogSetFlags(int)                      {}
func LogSetPrefix(s string)                { logPrefix = s }
func LogSetOutput(w io.Writer)             { logOut = w }

// --- clock and randomness

var t0 = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

// TimeNow advances by a microsecond per step plus what was slept.
func TimeNow() time.Time                  { return t0.Add(time.Duration(clock())) }
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func rrand() *Rand {
	if !active || pol == nil {
		return initRand
	}
	return pol
}

func RandInt() int         { return int(rrand().Uint64() >> 1) }
func RandInt63() int64     { return int64(rrand().Uint64() >> 1) }
func RandIntn(n int) int   { return rrand().Intn(n) }
func RandFloat64() float64 { return float64(rrand().Uint64()>>11) / (1 << 53) }
func RandSeed(int64)       {}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}

// ErrInjected is the base of the harness' own errors.
var ErrInjected = errors.New("injected fault")
