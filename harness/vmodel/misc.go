package vmodel

import (
	"errors"
	"flag"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"os/user"
	"sort"
	"sync"
	"syscall"
	"time"

	"github.com/hound-search/hound/verifh/verifrt"
)

// ---- time ----

var clock int64

//gosym:model time.Now
func timeNow() time.Time {
	clock++ // time never stands still
	return time.Unix(1600000000, clock)
}

//gosym:model time.Since
func timeSince(t time.Time) time.Duration { return timeNow().Sub(t) }

//gosym:model time.After
func timeAfter(d time.Duration) <-chan time.Time { return verifrt.NewTimer() }

//gosym:model time.Tick
func timeTick(d time.Duration) <-chan time.Time { return verifrt.NewTimer() }

//gosym:model time.NewTimer
func timeNewTimer(d time.Duration) *time.Timer { return &time.Timer{C: verifrt.NewTimer()} }

//gosym:model (*time.Timer).Stop
func timerStop(t *time.Timer) bool { return true }

//gosym:model (*time.Timer).Reset
func timerReset(t *time.Timer, d time.Duration) bool { t.C = verifrt.NewTimer(); return true }

//gosym:model time.NewTicker
func timeNewTicker(d time.Duration) *time.Ticker { return &time.Ticker{C: verifrt.NewTimer()} }

//gosym:model (*time.Ticker).Stop
func tickerStop(t *time.Ticker) {}

//gosym:model time.Sleep
func timeSleep(d time.Duration) { verifrt.SchedPoint() }

// ---- sync.Pool ----

//gosym:model (*sync.Pool).Get
func poolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

//gosym:model (*sync.Pool).Put
func poolPut(p *sync.Pool, x interface{}) {}

// ---- errors ----

//gosym:model errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

//gosym:model errors.As
func errorsAs(err error, target interface{}) bool {
	for err != nil {
		if verifrt.RKind(target) == "iface" {
			verifrt.Unsupported("errors.As with interface target")
		}
		if verifrt.RTypeID(verifrt.RNew(err)) == verifrt.RTypeID(target) {
			return verifrt.RAssign(target, verifrt.RNew(err))
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

// ---- sort ----

type rslice struct{ x interface{} }

//gosym:model sort.Slice
func sortSlice(x interface{}, less func(i, j int) bool) {
	r := verifrt.RNew(x)
	n := verifrt.RLen(r)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			rswap(r, j, j-1)
		}
	}
}

//gosym:model sort.SliceStable
func sortSliceStable(x interface{}, less func(i, j int) bool) { sortSlice(x, less) }

func rswap(r interface{}, i, j int) {
	a, b := verifrt.RIndex(r, i), verifrt.RIndex(r, j)
	t := verifrt.RNew(verifrt.RGet(a))
	if verifrt.RKind(a) == "iface" {
		x := verifrt.RGet(a)
		verifrt.RSetIface(a, verifrt.RGet(b))
		verifrt.RSetIface(b, x)
		return
	}
	verifrt.RAssign(a, b)
	verifrt.RAssign(b, t)
}

var _ = sort.Slice

// ---- os/exec ----

// Cmd describes one command a program runs.
type Cmd struct {
	Dir   string
	Args  []string
	Env   []string
	Stdin []byte
}

// ExecHook decides what a command prints and how it ends.
var ExecHook func(c *Cmd) (stdout string, stderr string, err error)

// Commands is the list of commands that were run.
var Commands []*Cmd

type runState struct {
	started, done bool
	out, errOut   string
	err           error
	pipe          *pipeR
	broken        bool
}

var runs = map[*exec.Cmd]*runState{}

type pipeR struct {
	c      *exec.Cmd
	data   []byte
	pos    int
	closed bool
	broken bool
}

func (p *pipeR) Read(b []byte) (int, error) {
	if p.closed {
		return 0, os.ErrClosed
	}
	if p.pos >= len(p.data) {
		if p.broken {
			readFailed(p.c)
			return 0, syscall.EIO
		}
		return 0, eof
	}
	n := copy(b, p.data[p.pos:])
	p.pos += n
	return n, nil
}

func (p *pipeR) Close() error { p.closed = true; return nil }

//gosym:model os/exec.Command
func execCommand(name string, args ...string) *exec.Cmd {
	c := &exec.Cmd{Path: name, Args: append([]string{name}, args...)}
	runs[c] = &runState{}
	return c
}

//gosym:model os/user.Current
func userCurrent() (*user.User, error) {
	return &user.User{Uid: "1000", Gid: "1000", Username: "u", Name: "u", HomeDir: "/home/u"}, nil
}

//gosym:model os/exec.LookPath
func execLookPath(name string) (string, error) { return "/usr/bin/" + name, nil }

// ErrExit is the error of a command that exits with a failure.
var ErrExit = errors.New("exit status 1")

func execRun(c *exec.Cmd, reads bool) *runState {
	s := runs[c]
	if s == nil {
		s = &runState{}
		runs[c] = s
	}
	if s.started {
		s.err = errors.New("exec: already started")
		return s
	}
	s.started = true
	verifrt.SchedPoint()
	cm := &Cmd{Dir: c.Dir, Args: c.Args, Env: c.Env}
	if c.Stdin != nil {
		var b [64]byte
		for {
			n, err := c.Stdin.Read(b[:])
			cm.Stdin = append(cm.Stdin, b[:n]...)
			if err != nil {
				break
			}
		}
	}
	Commands = append(Commands, cm)
	if ExecHook == nil {
		verifrt.Unsupported("command run without a handler")
	}
	broken := (s.pipe != nil || reads) && ReadErr != nil && ReadErr(cm)
	s.out, s.errOut, s.err = ExecHook(cm)
	if broken {
		s.broken = true
		s.out = s.out[:len(s.out)/2]
		if s.pipe == nil && s.err == nil {
			readFailed(c)
			s.err = syscall.EIO
		}
	}
	ps := new(os.ProcessState)
	c.ProcessState = ps
	if s.err == ErrExit {
		// which code a failure has is up to the tool; -1 is a signal
		code := verifrt.Int("exit", -1, 255)
		verifrt.Assume(code != 0)
		exits[ps] = code
		s.err = &exec.ExitError{ProcessState: ps}
	}
	return s
}

var exits = map[*os.ProcessState]int{}

//gosym:model (*os.ProcessState).ExitCode
func psExitCode(p *os.ProcessState) int {
	if p == nil {
		return -1
	}
	return exits[p]
}

//gosym:model (*os.ProcessState).Success
func psSuccess(p *os.ProcessState) bool { return exits[p] == 0 }

//gosym:model (*os.ProcessState).Exited
func psExited(p *os.ProcessState) bool { return exits[p] >= 0 }

//gosym:model (*os.ProcessState).String
func psString(p *os.ProcessState) string {
	if p == nil {
		return "<nil>"
	}
	if exits[p] == 0 {
		return "exit status 0"
	}
	return "exit status 1"
}

//gosym:model (*os.ProcessState).Sys
func psSys(p *os.ProcessState) interface{} {
	if exits[p] < 0 {
		return syscall.WaitStatus(9)
	}
	return syscall.WaitStatus(uint32(exits[p]) << 8)
}

//gosym:model (*os/exec.ExitError).Error
func exitErrorError(e *exec.ExitError) string { return psString(e.ProcessState) }

// notStarted tells whether a command is one that cannot be started at all.
func notStarted(c *exec.Cmd) error {
	if s := runs[c]; (s == nil || !s.started) && StartErr != nil && StartErr(&Cmd{Dir: c.Dir, Args: c.Args}) {
		return &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	return nil
}

//gosym:model (*os/exec.Cmd).Output
func cmdOutput(c *exec.Cmd) ([]byte, error) {
	if err := notStarted(c); err != nil {
		return nil, err
	}
	s := execRun(c, true)
	s.done = true
	return []byte(s.out), s.err
}

//gosym:model (*os/exec.Cmd).CombinedOutput
func cmdCombined(c *exec.Cmd) ([]byte, error) {
	if err := notStarted(c); err != nil {
		return nil, err
	}
	s := execRun(c, true)
	s.done = true
	return []byte(s.out + s.errOut), s.err
}

func cmdCopy(c *exec.Cmd, s *runState) {
	if s.pipe != nil {
		s.pipe.data = []byte(s.out)
		s.pipe.broken = s.broken
	} else if c.Stdout != nil {
		c.Stdout.Write([]byte(s.out))
	}
	if c.Stderr != nil {
		c.Stderr.Write([]byte(s.errOut))
	}
}

//gosym:model (*os/exec.Cmd).Run
func cmdRun(c *exec.Cmd) error {
	if err := notStarted(c); err != nil {
		return err
	}
	s := execRun(c, c.Stdout != nil || c.Stderr != nil)
	s.done = true
	cmdCopy(c, s)
	return s.err
}

// StartErr makes a command fail to start at all.
var StartErr func(c *Cmd) bool

func readFailed(c *exec.Cmd) {
	if OnReadErr != nil {
		OnReadErr(&Cmd{Dir: c.Dir, Args: c.Args})
	}
}

// PipeErr makes the creation of a pipe to a command fail.
var PipeErr func(c *Cmd) bool

// ReadErr makes the reading of a command's output fail halfway, although the command succeeds.
var ReadErr func(c *Cmd) bool

// OnReadErr is told when a program is shown such a failure.
var OnReadErr func(c *Cmd)

//gosym:model (*os/exec.Cmd).Start
func cmdStart(c *exec.Cmd) error {
	if err := notStarted(c); err != nil {
		return err
	}
	s := execRun(c, c.Stdout != nil || c.Stderr != nil)
	cmdCopy(c, s)
	return nil
}

//gosym:model (*os/exec.Cmd).Wait
func cmdWait(c *exec.Cmd) error {
	s := runs[c]
	if s == nil || !s.started {
		return errors.New("exec: not started")
	}
	if s.done {
		return errors.New("exec: Wait was already called")
	}
	s.done = true
	if s.pipe != nil {
		s.pipe.closed = true
	}
	return s.err
}

//gosym:model (*os/exec.Cmd).StdoutPipe
func cmdStdoutPipe(c *exec.Cmd) (ioReadCloser, error) {
	s := runs[c]
	if PipeErr != nil && PipeErr(&Cmd{Dir: c.Dir, Args: c.Args}) {
		return nil, syscall.EMFILE
	}
	s.pipe = &pipeR{c: c}
	return s.pipe, nil
}

//gosym:model (*os/exec.Cmd).StderrPipe
func cmdStderrPipe(c *exec.Cmd) (ioReadCloser, error) { return &pipeR{c: c}, nil }

//gosym:model (*os/exec.Cmd).String
func cmdString(c *exec.Cmd) string {
	r := ""
	for i, a := range c.Args {
		if i > 0 {
			r += " "
		}
		r += a
	}
	return r
}

//gosym:model os.runtime_args
func osArgs() []string { return []string{"verif"} }

// ---- signals ----

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var sigRegs []sigReg

//gosym:model os/signal.Notify
func sigNotify(c chan<- os.Signal, sig ...os.Signal) {
	verifrt.SchedPoint()
	sigRegs = append(sigRegs, sigReg{c, sig})
}

//gosym:model os/signal.Stop
func sigStop(c chan<- os.Signal) {
	verifrt.SchedPoint()
	for i := range sigRegs {
		if sigRegs[i].c == c {
			sigRegs[i].sigs = []os.Signal{nil}
		}
	}
}

//gosym:model os/signal.Reset
func sigReset(sig ...os.Signal) {
	verifrt.SchedPoint()
	if len(sig) == 0 {
		sigRegs = nil
	}
	for i := range sigRegs {
		sigRegs[i].sigs = without(sigRegs[i].sigs, sig)
	}
}

//gosym:model os/signal.Ignore
func sigIgnore(sig ...os.Signal) {
	sigReset(sig...)
	sigRegs = append(sigRegs, sigReg{nil, sig})
}

func without(s, rm []os.Signal) []os.Signal {
	r := []os.Signal{}
	for _, x := range s {
		keep := true
		for _, y := range rm {
			keep = keep && x != y
		}
		if keep {
			r = append(r, x)
		}
	}
	if len(r) == 0 && len(s) > 0 {
		r = append(r, nil)
	}
	return r
}

// Signal sends the process a signal; it reports whether the process handles it (or dies).
func Signal(s os.Signal) bool {
	handled := false
	for _, r := range sigRegs {
		ok := len(r.sigs) == 0
		for _, x := range r.sigs {
			ok = ok || x == s
		}
		if !ok {
			continue
		}
		handled = true
		if r.c == nil {
			continue
		}
		select {
		case r.c <- s:
		default:
		}
	}
	return handled
}

// ---- net/http ----

type muxEnt struct {
	pat string
	h   http.Handler
}

var muxes = map[*http.ServeMux][]muxEnt{}

//gosym:model net/http.NewServeMux
func httpNewServeMux() *http.ServeMux { return new(http.ServeMux) }

//gosym:model (*net/http.ServeMux).Handle
func muxHandle(m *http.ServeMux, pat string, h http.Handler) {
	verifrt.SchedPoint() // it takes the lock of the mux
	muxes[m] = append(muxes[m], muxEnt{pat, h})
}

//gosym:model (*net/http.ServeMux).HandleFunc
func muxHandleFunc(m *http.ServeMux, pat string, h func(http.ResponseWriter, *http.Request)) {
	muxHandle(m, pat, http.HandlerFunc(h))
}

//gosym:model (*net/http.ServeMux).ServeHTTP
func muxServe(m *http.ServeMux, w http.ResponseWriter, r *http.Request) {
	var best *muxEnt
	p := r.URL.Path
	for i := range muxes[m] {
		e := &muxes[m][i]
		n := len(e.pat)
		ok := e.pat == p || n > 0 && e.pat[n-1] == '/' && len(p) >= n && p[:n] == e.pat
		if ok && (best == nil || len(best.pat) < n) {
			best = e
		}
	}
	if best == nil {
		http.Error(w, "404 page not found", 404)
		return
	}
	best.h.ServeHTTP(w, r)
}

//gosym:model net/http.ListenAndServe
func httpListenAndServe(addr string, h http.Handler) error {
	if ListenHook != nil {
		return ListenHook(addr, h)
	}
	select {}
}

// ListenHook replaces the listening on an address.
var ListenHook func(addr string, h http.Handler) error

// ---- terminal test of package ansi ----

//gosym:model syscall.Syscall6
func sysSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	if trap == syscall.SYS_IOCTL {
		for _, h := range st.handles {
			if h.fd == a1 && h.tty {
				return 0, 0, 0
			}
		}
		return ^uintptr(0), 0, syscall.ENOTTY
	}
	verifrt.Unsupported("system call")
	return 0, 0, syscall.ENOSYS
}

//gosym:model syscall.Syscall
func sysSyscall(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
	return sysSyscall6(trap, a1, a2, a3, 0, 0, 0)
}

// HTTPDo answers the requests of HTTP clients.
var HTTPDo func(r *http.Request) (*http.Response, error)

//gosym:model (*net/http.Client).Do
func httpDo(c *http.Client, r *http.Request) (*http.Response, error) {
	verifrt.SchedPoint()
	if HTTPDo == nil {
		verifrt.Unsupported("a request without a server")
	}
	res, err := HTTPDo(r)
	if err != nil {
		return nil, &url.Error{Op: "Get", URL: "http://x", Err: err}
	}
	return res, nil
}

//gosym:model (*flag.FlagSet).PrintDefaults
func flagPrintDefaults(f *flag.FlagSet) {}
