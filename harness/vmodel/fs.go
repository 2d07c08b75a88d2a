package vmodel

import (
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"github.com/hound-search/hound/verifh/verifrt"
)

// In-memory model of the file system behind package os. Names are concrete or symbolic strings,
// contents are byte slices that may hold symbolic bytes. Every operation is a scheduling point and,
// when a harness enables it, a point at which the operation may fail (fault) or the process may
// stop (crash).

type Node struct {
	Mode   os.FileMode // type bits + permissions
	Data   []byte
	Kids   []*ent
	Target string
	RdErr  bool // reading fails
	Ino    int
	Nlink  int
	MTime  int64
}

type ent struct {
	name string
	n    *Node
}

type handle struct {
	n      *Node
	name   string
	pos    int
	flag   int
	closed bool
	dirPos int
	fd     uintptr
	out    *[]byte
	tty    bool
}

type fsState struct {
	root    *Node
	cwd     string
	ino     int
	handles map[*os.File]*handle
	byFd    map[int]*os.File
	nextFd  int
	tmpSeq  int
	env     map[string]string

	faults  int // remaining injected failures
	crash   bool
	crashed bool
	opN     int // operations that could have failed, and the one that fails next
	faultAt int
	crashN  int
	crashAt int
	ops     int
	opened  int
	filter  func(op, path string) bool
	Trace   []string
	trace   bool
	errno   syscall.Errno
}

var st = newFS()

func newFS() *fsState {
	s := &fsState{cwd: "/", handles: map[*os.File]*handle{}, byFd: map[int]*os.File{}, nextFd: 10, env: map[string]string{}, errno: syscall.EIO}
	s.root = s.newNode(os.ModeDir | 0755)
	return s
}

func (s *fsState) newNode(m os.FileMode) *Node {
	s.ino++
	return &Node{Mode: m, Ino: s.ino, Nlink: 1}
}

// SchedFilter selects the operations that are scheduling points (nil: all). Hook sees every operation.
var (
	SchedFilter func(op, path string) bool
	Hook        func(op, path string)
)

// StopBlocks makes a stop of the process (a crash or an exit) block every goroutine of that process
// for ever instead of unwinding the one that stopped.
var StopBlocks bool

var exitMsg string

// ExitMsg is what the process said when it exited.
func ExitMsg() string { return exitMsg }

func park() { select {} }

func stop(v interface{}) {
	st.crashed = true
	if x, ok := v.(ExitSentinel); ok {
		exitMsg = x.Msg
	}
	if StopBlocks {
		park()
	}
	panic(v)
}

// CrashSentinel unwinds the program when the modelled process stops.
type CrashSentinel struct{}

// ---- harness controls ----

// Faults lets up to n file-system operations selected by filter (nil: all) fail.
// Which ones fail is a symbolic variable: the number of the operation.
func Faults(n int, filter func(op, path string) bool) {
	st.faults = n
	st.filter = filter
	st.opN = 0
	st.nextFault()
}

const maxOps = 1 << 14

func (s *fsState) nextFault() {
	if s.faults > 0 {
		s.faultAt = verifrt.Int("fault", s.opN, maxOps)
	}
}

func (s *fsState) faultNow() bool {
	s.opN++
	if s.opN >= maxOps {
		verifrt.Bound("too many operations")
	}
	return s.opN-1 == s.faultAt
}

// CrashAt lets the process stop at any file-system mutation selected by filter.
// Where it stops is a symbolic variable: the number of the operation (or half operation).
func CrashAt(on bool, filter func(op, path string) bool) {
	st.crash = on
	st.filter = filter
	st.crashN = 0
	if on {
		st.crashAt = verifrt.Int("crash", 0, maxOps)
	}
}

func (s *fsState) crashNow() bool {
	s.crashN++
	if s.crashN >= maxOps {
		verifrt.Bound("too many operations")
	}
	return s.crashN-1 == s.crashAt
}

// Crashed reports whether the process stopped; Restart brings it up again on the same disk.
func Crashed() bool { return st.crashed }
func Restart() {
	st.crashed = false
	st.crash = false
	st.faults = 0
	st.handles = map[*os.File]*handle{}
	st.byFd = map[int]*os.File{}
}

// Pause stops the injection of failures until Resume.
func Pause() int { n := st.faults; st.faults = 0; return n }

func Resume(n int) { st.faults = n }

// FaultsLeft is the number of injected failures that have not happened.
func FaultsLeft() int { return st.faults }

// OpenHandles is the number of files that are open.
func OpenHandles() int {
	n := 0
	for _, h := range st.handles {
		if !h.closed {
			n++
		}
	}
	return n
}

func Setenv(k, v string) { st.env[k] = v }

// Lookup finds a node without side effects, or nil.
func Lookup(p string) *Node { n, _ := st.walk(p, true); return n }

func LLookup(p string) *Node { n, _ := st.walk(p, false); return n }

// Names lists a directory.
func (n *Node) Names() []string {
	var r []string
	for _, e := range n.Kids {
		r = append(r, e.name)
	}
	return r
}

// Put creates a file (and its parents) directly.
func Put(p string, data []byte) *Node { return PutMode(p, data, 0644) }

func PutMode(p string, data []byte, mode os.FileMode) *Node {
	dir, base := splitPath(p)
	d := MkdirP(dir)
	n := st.newNode(mode)
	n.Data = data
	for _, e := range d.Kids {
		if e.name == base {
			e.n = n
			return n
		}
	}
	d.insert(base, n)
	return n
}

func PutLink(p, target string) *Node {
	n := PutMode(p, nil, os.ModeSymlink|0777)
	n.Target = target
	return n
}

// MkdirP creates a directory and its parents directly.
func MkdirP(p string) *Node {
	d := st.root
	for _, c := range comps(p) {
		k := d.kid(c)
		if k == nil {
			k = st.newNode(os.ModeDir | 0755)
			d.insert(c, k)
		}
		d = k
	}
	return d
}

// Unlink removes a path directly.
func Unlink(p string) {
	dir, base := splitPath(p)
	if d, _ := st.walk(dir, true); d != nil {
		d.remove(base)
	}
}

// ---- paths ----

func comps(p string) []string {
	var r []string
	i := 0
	for i < len(p) {
		if p[i] == '/' {
			i++
			continue
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		c := p[i:j]
		i = j
		if c == "." {
			continue
		}
		if c == ".." {
			if len(r) > 0 {
				r = r[:len(r)-1]
			}
			continue
		}
		r = append(r, c)
	}
	return r
}

func splitPath(p string) (string, string) {
	cs := comps(st.abs(p))
	if len(cs) == 0 {
		return "/", ""
	}
	d := ""
	for _, c := range cs[:len(cs)-1] {
		d += "/" + c
	}
	if d == "" {
		d = "/"
	}
	return d, cs[len(cs)-1]
}

func (s *fsState) abs(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return p
	}
	return s.cwd + "/" + p
}

func (n *Node) kid(name string) *Node {
	for _, e := range n.Kids {
		if e.name == name {
			return e.n
		}
	}
	return nil
}

func (n *Node) insert(name string, k *Node) {
	i := 0
	for i < len(n.Kids) && n.Kids[i].name < name {
		i++
	}
	var r []*ent
	r = append(r, n.Kids[:i]...)
	r = append(r, &ent{name, k})
	n.Kids = append(r, n.Kids[i:]...)
}

func (n *Node) remove(name string) {
	var r []*ent
	for _, e := range n.Kids {
		if e.name != name {
			r = append(r, e)
		}
	}
	n.Kids = r
}

// walk resolves a path.
func (s *fsState) walk(p string, follow bool) (*Node, syscall.Errno) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	return s.walkFrom(comps2(s.abs(p)), follow, 0)
}

func comps2(p string) []string {
	var r []string
	i := 0
	for i < len(p) {
		if p[i] == '/' {
			i++
			continue
		}
		j := i
		for j < len(p) && p[j] != '/' {
			if p[j] == 0 {
				return []string{"\x00"}
			}
			j++
		}
		r = append(r, p[i:j])
		i = j
	}
	return r
}

func (s *fsState) walkFrom(cs []string, follow bool, depth int) (*Node, syscall.Errno) {
	if depth > 8 {
		return nil, syscall.ELOOP
	}
	stack := []*Node{s.root}
	var done []string
	for i, c := range cs {
		d := stack[len(stack)-1]
		if d.Mode&os.ModeDir == 0 {
			return nil, syscall.ENOTDIR
		}
		if c == "." {
			continue
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				done = done[:len(done)-1]
			}
			continue
		}
		k := d.kid(c)
		if k == nil {
			if c == "\x00" {
				return nil, syscall.EINVAL
			}
			return nil, syscall.ENOENT
		}
		if k.Mode&os.ModeSymlink != 0 && (follow || i < len(cs)-1) {
			var full []string
			if len(k.Target) == 0 || k.Target[0] != '/' {
				full = append(full, done...)
			}
			full = append(full, comps2(k.Target)...)
			full = append(full, cs[i+1:]...)
			return s.walkFrom(full, follow, depth+1)
		}
		stack = append(stack, k)
		done = append(done, c)
	}
	return stack[len(stack)-1], 0
}

func perr(op, p string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: p, Err: e}
}

// point is executed at every operation. It returns an error if the operation fails.
func (s *fsState) point(op, p string, mutates bool) syscall.Errno {
	if SchedFilter == nil || SchedFilter(op, p) {
		verifrt.SchedPoint()
	}
	s.ops++
	if Hook != nil {
		Hook(op, p)
	}
	if s.trace {
		s.Trace = append(s.Trace, op+" "+p)
	}
	if s.crashed {
		if StopBlocks {
			park()
		}
		return syscall.EIO
	}
	if s.crash && mutates && (s.filter == nil || s.filter(op, p)) {
		if st.crashNow() {
			verifrt.Log("crash before", op, p)
			stop(CrashSentinel{})
		}
	}
	if s.faults > 0 && (s.filter == nil || s.filter(op, p)) {
		if s.faultNow() {
			verifrt.Log("fault at", op, p)
			s.faults--
			s.nextFault()
			return s.errno
		}
	}
	return 0
}

// ---- file info ----

type memInfo struct {
	name string
	n    *Node
	size int64
	mode os.FileMode
	mt   int64
}

func (i *memInfo) Name() string       { return i.name }
func (i *memInfo) Size() int64        { return i.size }
func (i *memInfo) Mode() os.FileMode  { return i.mode }
func (i *memInfo) ModTime() time.Time { return time.Unix(i.mt, 0) }
func (i *memInfo) IsDir() bool        { return i.mode&os.ModeDir != 0 }
func (i *memInfo) Sys() interface{}   { return nil }

func info(name string, n *Node) *memInfo {
	if n.Mode&os.ModeDir == 0 || name != "/" {
		cs := comps2(name)
		if len(cs) > 0 {
			name = cs[len(cs)-1]
		}
	}
	return &memInfo{name, n, int64(len(n.Data)), n.Mode, n.MTime}
}

// ---- package os ----

//gosym:model os.Stat
func osStat(p string) (os.FileInfo, error) {
	if e := st.point("stat", p, false); e != 0 {
		return nil, perr("stat", p, e)
	}
	n, e := st.walk(p, true)
	if e != 0 {
		return nil, perr("stat", p, e)
	}
	return info(p, n), nil
}

//gosym:model os.Lstat
func osLstat(p string) (os.FileInfo, error) {
	if e := st.point("lstat", p, false); e != 0 {
		return nil, perr("lstat", p, e)
	}
	n, e := st.walk(p, false)
	if e != 0 {
		return nil, perr("lstat", p, e)
	}
	return info(p, n), nil
}

//gosym:model os.SameFile
func osSameFile(a, b os.FileInfo) bool {
	x, ok := a.(*memInfo)
	y, ok2 := b.(*memInfo)
	return ok && ok2 && x.n == y.n
}

//gosym:model os.Open
func osOpen(p string) (*os.File, error) { return osOpenFile(p, os.O_RDONLY, 0) }

//gosym:model os.Create
func osCreate(p string) (*os.File, error) {
	return osOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//gosym:model os.OpenFile
func osOpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	mut := flag&(os.O_CREATE|os.O_TRUNC) != 0
	if e := st.point("open", p, mut); e != 0 {
		return nil, perr("open", p, e)
	}
	n, e := st.walk(p, true)
	if e == syscall.ENOENT && flag&os.O_CREATE != 0 {
		dir, base := splitPath(p)
		d, e2 := st.walk(dir, true)
		if e2 != 0 {
			return nil, perr("open", p, e2)
		}
		if d.Mode&os.ModeDir == 0 {
			return nil, perr("open", p, syscall.ENOTDIR)
		}
		n = st.newNode(perm.Perm() &^ 022)
		d.insert(base, n)
	} else if e != 0 {
		return nil, perr("open", p, e)
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, perr("open", p, syscall.EEXIST)
	}
	if n.Mode&os.ModeDir != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", p, syscall.EISDIR)
	}
	if n.Mode.Perm()&0400 == 0 && flag&os.O_WRONLY == 0 {
		return nil, perr("open", p, syscall.EACCES)
	}
	if flag&os.O_TRUNC != 0 {
		n.Data = nil
	}
	return st.attach(n, p, flag), nil
}

func (s *fsState) attach(n *Node, p string, flag int) *os.File {
	f := new(os.File)
	s.nextFd++
	s.opened++
	s.handles[f] = &handle{n: n, name: p, flag: flag, fd: uintptr(s.nextFd)}
	s.byFd[s.nextFd] = f
	return f
}

// Capture is a writable file whose contents the harness can read.
func Capture(tty bool) (*os.File, *Node) {
	n := st.newNode(0644)
	f := st.attach(n, "capture", os.O_RDWR)
	st.handles[f].tty = tty
	return f, n
}

//gosym:model os.NewFile
func osNewFile(fd uintptr, name string) *os.File {
	f := new(os.File)
	st.handles[f] = &handle{n: st.newNode(0644), name: name, flag: os.O_RDWR, fd: fd}
	return f
}

//gosym:model os.Mkdir
func osMkdir(p string, perm os.FileMode) error {
	if e := st.point("mkdir", p, true); e != 0 {
		return perr("mkdir", p, e)
	}
	if _, e := st.walk(p, false); e == 0 {
		return perr("mkdir", p, syscall.EEXIST)
	}
	dir, base := splitPath(p)
	d, e := st.walk(dir, true)
	if e != 0 {
		return perr("mkdir", p, e)
	}
	if d.Mode&os.ModeDir == 0 {
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	d.insert(base, st.newNode(os.ModeDir|perm.Perm()&^022))
	return nil
}

//gosym:model os.MkdirAll
func osMkdirAll(p string, perm os.FileMode) error {
	cs := comps(st.abs(p))
	cur := ""
	for i := range cs {
		cur += "/" + cs[i]
		n, e := st.walk(cur, true)
		if e == 0 {
			if n.Mode&os.ModeDir == 0 {
				return perr("mkdir", cur, syscall.ENOTDIR)
			}
			continue
		}
		if err := osMkdir(cur, perm); err != nil {
			return err
		}
	}
	return nil
}

//gosym:model os.Remove
func osRemove(p string) error {
	if e := st.point("remove", p, true); e != 0 {
		return perr("remove", p, e)
	}
	n, e := st.walk(p, false)
	if e != 0 {
		return perr("remove", p, e)
	}
	if n.Mode&os.ModeDir != 0 && len(n.Kids) > 0 {
		return perr("remove", p, syscall.ENOTEMPTY)
	}
	dir, base := splitPath(p)
	d, _ := st.walk(dir, true)
	d.remove(base)
	return nil
}

//gosym:model os.RemoveAll
func osRemoveAll(p string) error {
	if p == "" {
		return nil
	}
	n, e := st.walk(p, false)
	if e != 0 {
		if e2 := st.point("removeall", p, false); e2 != 0 {
			return perr("unlinkat", p, e2)
		}
		if e == syscall.ENOENT {
			return nil
		}
		return perr("unlinkat", p, e)
	}
	if n.Mode&os.ModeDir != 0 {
		for len(n.Kids) > 0 {
			if err := osRemoveAll(p + "/" + n.Kids[0].name); err != nil {
				return err
			}
		}
	}
	if e := st.point("removeall", p, true); e != 0 {
		return perr("unlinkat", p, e)
	}
	dir, base := splitPath(p)
	d, _ := st.walk(dir, true)
	if d != nil {
		d.remove(base)
	}
	return nil
}

//gosym:model os.Rename
func osRename(a, b string) error {
	if e := st.point("rename", b, true); e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	n, e := st.walk(a, false)
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	db, bb := splitPath(b)
	d, e := st.walk(db, true)
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	if o := d.kid(bb); o != nil {
		if o.Mode&os.ModeDir != 0 && (len(o.Kids) > 0 || n.Mode&os.ModeDir == 0) {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOTEMPTY}
		}
		d.remove(bb)
	}
	da, ba := splitPath(a)
	d0, _ := st.walk(da, true)
	d0.remove(ba)
	d.insert(bb, n)
	return nil
}

//gosym:model os.Readlink
func osReadlink(p string) (string, error) {
	if e := st.point("readlink", p, false); e != 0 {
		return "", perr("readlink", p, e)
	}
	n, e := st.walk(p, false)
	if e != 0 {
		return "", perr("readlink", p, e)
	}
	if n.Mode&os.ModeSymlink == 0 {
		return "", perr("readlink", p, syscall.EINVAL)
	}
	return n.Target, nil
}

//gosym:model os.Symlink
func osSymlink(target, p string) error {
	if e := st.point("symlink", p, true); e != 0 {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: e}
	}
	if _, e := st.walk(p, false); e == 0 {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: syscall.EEXIST}
	}
	dir, base := splitPath(p)
	d, e := st.walk(dir, true)
	if e != 0 {
		return &os.LinkError{Op: "symlink", Old: target, New: p, Err: e}
	}
	n := st.newNode(os.ModeSymlink | 0777)
	n.Target = target
	d.insert(base, n)
	return nil
}

//gosym:model os.Getwd
func osGetwd() (string, error) { return st.cwd, nil }

//gosym:model os.Chdir
func osChdir(p string) error { st.cwd = p; return nil }

//gosym:model os.TempDir
func osTempDir() string { return "/tmp" }

//gosym:model os.Getpid
func osGetpid() int { return 4242 }

//gosym:model os.Hostname
func osHostname() (string, error) { return "host", nil }

//gosym:model os.Getenv
func osGetenv(k string) string { return st.env[k] }

//gosym:model os.LookupEnv
func osLookupEnv(k string) (string, bool) { v, ok := st.env[k]; return v, ok }

//gosym:model os.Environ
func osEnviron() []string {
	var r []string
	for k, v := range st.env {
		r = append(r, k+"="+v)
	}
	return r
}

//gosym:model os.Chmod
func osChmod(p string, m os.FileMode) error {
	n, e := st.walk(p, true)
	if e != 0 {
		return perr("chmod", p, e)
	}
	n.Mode = n.Mode&os.ModeType | m.Perm()
	return nil
}

//gosym:model os.ReadFile
func osReadFile(p string) ([]byte, error) {
	f, err := osOpen(p)
	if err != nil {
		return nil, err
	}
	defer fClose(f)
	h := st.handles[f]
	var r []byte
	for {
		buf := make([]byte, len(h.n.Data)-h.pos+1)
		n, err := fRead(f, buf)
		r = append(r, buf[:n]...)
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return r, err
		}
	}
}

//gosym:model os.WriteFile
func osWriteFile(p string, data []byte, perm os.FileMode) error {
	f, err := osOpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fWrite(f, data)
	if e := fClose(f); e != nil && err == nil {
		err = e
	}
	return err
}

//gosym:model os.ReadDir
func osReadDir(p string) ([]os.DirEntry, error) {
	f, err := osOpen(p)
	if err != nil {
		return nil, err
	}
	defer fClose(f)
	r, err := fReadDir(f, -1)
	return r, err
}

//gosym:model os.CreateTemp
func osCreateTemp(dir, pat string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	MkdirP("/tmp")
	st.tmpSeq++
	pre, suf := pat, ""
	for i := len(pat) - 1; i >= 0; i-- {
		if pat[i] == '*' {
			pre, suf = pat[:i], pat[i+1:]
			break
		}
	}
	return osOpenFile(dir+"/"+pre+itoa(int64(st.tmpSeq))+suf, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//gosym:model os.MkdirTemp
func osMkdirTemp(dir, pat string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	MkdirP("/tmp")
	st.tmpSeq++
	p := dir + "/" + pat + itoa(int64(st.tmpSeq))
	return p, osMkdir(p, 0700)
}

// ---- *os.File ----

func (s *fsState) h(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := s.handles[f]
	if h == nil {
		h = &handle{n: s.newNode(0644), name: "/dev/std", flag: os.O_RDWR}
		s.handles[f] = h
	}
	if h.closed {
		return nil, &os.PathError{Op: op, Path: h.name, Err: os.ErrClosed}
	}
	return h, nil
}

//gosym:model (*os.File).Close
func fClose(f *os.File) error {
	h, err := st.h(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	delete(st.byFd, int(h.fd))
	if e := st.point("close", h.name, h.flag&(os.O_WRONLY|os.O_RDWR) != 0); e != 0 {
		return perr("close", h.name, e)
	}
	return nil
}

//gosym:model (*os.File).Name
func fName(f *os.File) string {
	if h := st.handles[f]; h != nil {
		return h.name
	}
	return "/dev/std"
}

//gosym:model (*os.File).Fd
func fFd(f *os.File) uintptr {
	if h := st.handles[f]; h != nil {
		return h.fd
	}
	return 1
}

//gosym:model (*os.File).Stat
func fStat(f *os.File) (os.FileInfo, error) {
	h, err := st.h(f, "stat")
	if err != nil {
		return nil, err
	}
	if e := st.point("fstat", h.name, false); e != 0 {
		return nil, perr("stat", h.name, e)
	}
	return info(h.name, h.n), nil
}

//gosym:model (*os.File).Sync
func fSync(f *os.File) error {
	h, err := st.h(f, "sync")
	if err != nil {
		return err
	}
	if e := st.point("sync", h.name, true); e != 0 {
		return perr("sync", h.name, e)
	}
	return nil
}

//gosym:model (*os.File).Read
func fRead(f *os.File, b []byte) (int, error) {
	h, err := st.h(f, "read")
	if err != nil {
		return 0, err
	}
	n, err := h.readAt(b, h.pos)
	h.pos += n
	return n, err
}

func (h *handle) readAt(b []byte, pos int) (int, error) {
	if e := st.point("read", h.name, false); e != 0 {
		return 0, perr("read", h.name, e)
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.n.Mode&os.ModeDir != 0 {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.n.RdErr {
		return 0, perr("read", h.name, syscall.EIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if pos >= len(h.n.Data) {
		return 0, io.EOF
	}
	return copy(b, h.n.Data[pos:]), nil
}

//gosym:model (*os.File).ReadAt
func fReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := st.h(f, "read")
	if err != nil {
		return 0, err
	}
	n, err := h.readAt(b, int(off))
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

//gosym:model (*os.File).Write
func fWrite(f *os.File, b []byte) (int, error) {
	h, err := st.h(f, "write")
	if err != nil {
		return 0, err
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.n.Data)
	}
	n, err := h.writeAt(b, h.pos)
	h.pos += n
	return n, err
}

func (h *handle) writeAt(b []byte, pos int) (int, error) {
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if e := st.point("write", h.name, true); e != 0 {
		return 0, perr("write", h.name, e)
	}
	if st.crashed {
		return 0, perr("write", h.name, syscall.EIO)
	}
	if st.crash && len(b) > 1 && (st.filter == nil || st.filter("write", h.name)) {
		if st.crashNow() { // the first half reaches the disk
			verifrt.Log("crash in write", h.name)
			h.put(b[:len(b)/2], pos)
			stop(CrashSentinel{})
		}
	}
	h.put(b, pos)
	return len(b), nil
}

func (h *handle) put(b []byte, pos int) {
	if pos < len(h.n.Data) {
		// never modify what a mapping or an earlier reader may share
		d := make([]byte, len(h.n.Data))
		copy(d, h.n.Data)
		h.n.Data = d
		k := copy(d[pos:], b)
		h.n.Data = append(d, b[k:]...)
		return
	}
	for len(h.n.Data) < pos {
		h.n.Data = append(h.n.Data, 0)
	}
	h.n.Data = append(h.n.Data, b...)
}

//gosym:model (*os.File).WriteAt
func fWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := st.h(f, "write")
	if err != nil {
		return 0, err
	}
	return h.writeAt(b, int(off))
}

//gosym:model (*os.File).WriteString
func fWriteString(f *os.File, s string) (int, error) { return fWrite(f, []byte(s)) }

//gosym:model (*os.File).ReadFrom
func fReadFrom(f *os.File, r io.Reader) (int64, error) { return copyLoop(fileW{f}, r) }

//gosym:model (*os.File).WriteTo
func fWriteTo(f *os.File, w io.Writer) (int64, error) { return copyLoop(w, fileR{f}) }

type fileW struct{ f *os.File }

func (w fileW) Write(b []byte) (int, error) { return fWrite(w.f, b) }

type fileR struct{ f *os.File }

func (r fileR) Read(b []byte) (int, error) { return fRead(r.f, b) }

func copyLoop(dst io.Writer, src io.Reader) (written int64, err error) {
	buf := make([]byte, 32768)
	for {
		nr, er := src.Read(buf)
		if nr > 0 {
			nw, ew := dst.Write(buf[:nr])
			if nw < 0 || nr < nw {
				nw = 0
				if ew == nil {
					ew = io.ErrShortWrite
				}
			}
			written += int64(nw)
			if ew != nil {
				return written, ew
			}
			if nr != nw {
				return written, io.ErrShortWrite
			}
		}
		if er != nil {
			if er != io.EOF {
				err = er
			}
			return
		}
	}
}

//gosym:model (*os.File).Seek
func fSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := st.h(f, "seek")
	if err != nil {
		return 0, err
	}
	if e := st.point("seek", h.name, false); e != 0 {
		return 0, perr("seek", h.name, e)
	}
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.n.Data) + int(off)
	}
	return int64(h.pos), nil
}

//gosym:model (*os.File).Truncate
func fTruncate(f *os.File, n int64) error {
	h, err := st.h(f, "truncate")
	if err != nil {
		return err
	}
	if e := st.point("truncate", h.name, true); e != 0 {
		return perr("truncate", h.name, e)
	}
	if int(n) <= len(h.n.Data) {
		h.n.Data = append([]byte(nil), h.n.Data[:n]...)
	}
	return nil
}

//gosym:model (*os.File).Readdirnames
func fReaddirnames(f *os.File, n int) ([]string, error) {
	h, err := st.h(f, "readdir")
	if err != nil {
		return nil, err
	}
	if e := st.point("readdir", h.name, false); e != 0 {
		return nil, perr("readdirent", h.name, e)
	}
	if h.n.Mode&os.ModeDir == 0 {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	if h.n.RdErr {
		return nil, perr("readdirent", h.name, syscall.EIO)
	}
	all := h.n.Names()
	all = all[h.dirPos:]
	if n > 0 && len(all) > n {
		all = all[:n]
	}
	h.dirPos += len(all)
	if n > 0 && len(all) == 0 {
		return nil, io.EOF
	}
	return all, nil
}

//gosym:model (*os.File).Readdir
func fReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	names, err := fReaddirnames(f, n)
	var r []os.FileInfo
	h := st.handles[f]
	for _, nm := range names {
		if k := h.n.kid(nm); k != nil {
			r = append(r, info(nm, k))
		}
	}
	return r, err
}

//gosym:model (*os.File).ReadDir
func fReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	fi, err := fReaddir(f, n)
	var r []os.DirEntry
	for _, i := range fi {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, err
}

//gosym:model (*os.File).Chmod
func fChmod(f *os.File, m os.FileMode) error { return nil }

// ---- memory mapping ----

type mapping struct {
	b    []byte
	dead bool
}

var maps []*mapping

// LiveMaps is the number of mappings that are in place.
func LiveMaps() int {
	n := 0
	for _, m := range maps {
		if !m.dead {
			n++
		}
	}
	return n
}

//gosym:model syscall.Mmap
func sysMmap(fd int, off int64, length int, prot, flags int) ([]byte, error) {
	f := st.byFd[fd]
	if f == nil {
		return nil, syscall.EBADF
	}
	h := st.handles[f]
	if e := st.point("mmap", h.name, false); e != 0 {
		return nil, e
	}
	if length <= 0 {
		return nil, syscall.EINVAL
	}
	b := make([]byte, length)
	copy(b, h.n.Data)
	verifrt.MarkRO(b, "write to a read-only mapping")
	maps = append(maps, &mapping{b: b})
	return b, nil
}

//gosym:model syscall.Munmap
func sysMunmap(b []byte) error {
	if len(b) == 0 || cap(b) == 0 {
		return syscall.EINVAL
	}
	verifrt.SchedPoint()
	for _, m := range maps {
		if !m.dead && verifrt.SliceID(m.b) == verifrt.SliceID(b) {
			m.dead = true
			verifrt.FreeSlice(b, "access to unmapped index memory")
			return nil
		}
	}
	return syscall.EINVAL
}
