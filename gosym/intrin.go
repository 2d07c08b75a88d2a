package main

import (
	"crypto/sha1"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
)

type CallCtx struct {
	e        *Engine
	g        *G
	f        *Frame
	in       *Inst
	args     []Value
	dst      int32
	blocked  bool // instruction not executed (goroutine blocked or preempted)
	handled  bool // control transferred elsewhere (panic)
	deferred bool
}

type Intrinsic struct {
	name string
	fn   func(*CallCtx) Value
}

var intrinsics = map[string]*Intrinsic{}

const rtPath = "github.com/hound-search/hound/verifh/verifrt"

func reg(name string, fn func(*CallCtx) Value) { intrinsics[name] = &Intrinsic{name, fn} }
func rt(name string, fn func(*CallCtx) Value)  { reg(rtPath+"."+name, fn) }

func (c *CallCtx) str(i int) string {
	s, ok := c.args[i].cstr()
	if !ok {
		c.e.unsupported("symbolic string where a constant is needed")
	}
	return s
}

func (c *CallCtx) int(i int) int { return int(int64(c.e.concretize(c.args[i]))) }

func nop(*CallCtx) Value { return Value{} }

func boolV(b bool) Value { return Value{n: b2u(b)} }
func intV(i int) Value   { return Value{n: uint64(int64(i))} }

func (e *Engine) errVal(msg string) Value {
	return Value{p: &Iface{e.p.typeInfo(e.p.rtErr), strVal(msg)}}
}

// indexOf forks over the first position of pat in s.
func (e *Engine) indexOf(s, pat []Value) int {
	for i := 0; i+len(pat) <= len(s); i++ {
		if e.branch(e.bytesEq(s[i:i+len(pat)], pat)) {
			return i
		}
	}
	return -1
}

func (e *Engine) lastIndexOf(s, pat []Value) int {
	for i := len(s) - len(pat); i >= 0; i-- {
		if e.branch(e.bytesEq(s[i:i+len(pat)], pat)) {
			return i
		}
	}
	return -1
}

func (e *Engine) countOf(s []Value, b Value) Value {
	n := 0
	t := (*Term)(nil)
	for _, x := range s {
		if x.p == nil && b.p == nil {
			if x.n == b.n {
				n++
			}
			continue
		}
		c := e.tc.Eq(e.toTerm(x, 8), e.toTerm(b, 8))
		if v, ok := e.quick(c); ok {
			if v {
				n++
			}
			continue
		}
		k := e.tc.FromBool(c, 64)
		if t == nil {
			t = k
		} else {
			t = e.tc.Bin(OAdd, t, k)
		}
	}
	if t == nil {
		return intV(n)
	}
	return termVal(e.tc.Bin(OAdd, t, e.tc.Const(64, uint64(n))))
}

func (c *CallCtx) bytes(i int) []Value {
	if _, ok := c.args[i].p.(*Slice); ok || c.args[i].p == nil {
		return c.e.sliceVals(c.args[i])
	}
	return c.args[i].strBytes()
}

func one(b Value) []Value { return []Value{b} }

func init() {
	ib := func(c *CallCtx) Value { return intV(c.e.indexOf(c.bytes(0), one(c.args[1]))) }
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		reg(n, ib)
	}
	lib := func(c *CallCtx) Value { return intV(c.e.lastIndexOf(c.bytes(0), one(c.args[1]))) }
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, lib)
	}
	ix := func(c *CallCtx) Value {
		if a, ok := c.args[0].p.(string); ok {
			if b, ok := c.args[1].cstr(); ok {
				return intV(strings.Index(a, b))
			}
		}
		return intV(c.e.indexOf(c.bytes(0), c.bytes(1)))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		reg(n, ix)
	}
	lx := func(c *CallCtx) Value { return intV(c.e.lastIndexOf(c.bytes(0), c.bytes(1))) }
	reg("strings.LastIndex", lx)
	reg("bytes.LastIndex", lx)
	cnt := func(c *CallCtx) Value { return c.e.countOf(c.bytes(0), c.args[1]) }
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	eq := func(c *CallCtx) Value { return termVal(c.e.bytesEq(c.bytes(0), c.bytes(1))) }
	reg("internal/bytealg.Equal", eq)
	reg("bytes.Equal", eq)
	hp := func(c *CallCtx) Value {
		a, b := c.bytes(0), c.bytes(1)
		if len(a) < len(b) {
			return boolV(false)
		}
		return termVal(c.e.bytesEq(a[:len(b)], b))
	}
	reg("strings.HasPrefix", hp)
	reg("bytes.HasPrefix", hp)
	hs := func(c *CallCtx) Value {
		a, b := c.bytes(0), c.bytes(1)
		if len(a) < len(b) {
			return boolV(false)
		}
		return termVal(c.e.bytesEq(a[len(a)-len(b):], b))
	}
	reg("strings.HasSuffix", hs)
	reg("bytes.HasSuffix", hs)
	cmp := func(c *CallCtx) Value {
		a, b := c.bytes(0), c.bytes(1)
		e := c.e
		if e.branch(e.bytesEq(a, b)) {
			return intV(0)
		}
		if e.branch(e.bytesLess(a, b)) {
			return intV(-1)
		}
		return intV(1)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "cmp.Compare[string]"} {
		reg(n, cmp)
	}
	reg("internal/bytealg.MakeNoZero", func(c *CallCtx) Value {
		n := c.int(0)
		o := c.e.newObj(n, "slice")
		return Value{p: &Slice{o: o, len: n, cap: n, es: 1}}
	})
	reg("internal/stringslite.Clone", func(c *CallCtx) Value { return c.args[0] })
	reg("strings.Clone", func(c *CallCtx) Value { return c.args[0] })
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/abi.NoEscape", func(c *CallCtx) Value { return c.args[0] })
	reg("internal/abi.Escape", func(c *CallCtx) Value { return c.args[0] })

	// sync
	reg("(*sync.Mutex).Lock", iLock)
	reg("(*sync.Mutex).TryLock", iTryLock)
	reg("(*sync.Mutex).Unlock", iUnlock)
	reg("(*internal/sync.Mutex).Lock", iLock)
	reg("(*internal/sync.Mutex).Unlock", iUnlock)
	reg("(*sync.RWMutex).Lock", iLock)
	reg("(*sync.RWMutex).TryLock", iTryLock)
	reg("(*sync.RWMutex).Unlock", iUnlock)
	reg("(*sync.RWMutex).RLock", iRLock)
	reg("(*sync.RWMutex).RUnlock", iRUnlock)
	reg("(*sync.WaitGroup).Add", iWgAdd)
	reg("(*sync.WaitGroup).Done", iWgAdd)
	reg("(*sync.WaitGroup).Wait", iWgWait)
	regAtomics()

	// runtime
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.ReadMemStats", "runtime/debug.FreeOSMemory", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "os.runtime_beforeExit", "internal/race.Errors",
		"runtime.GOMAXPROCS", "math/rand.Seed", "internal/goos.init", "internal/godebugs.init"} {
		reg(n, nop)
	}
	reg("runtime.NumCPU", func(c *CallCtx) Value { return intV(4) })
	reg("runtime.NumGoroutine", func(c *CallCtx) Value { return intV(len(c.e.gs)) })
	reg("runtime.Gosched", func(c *CallCtx) Value { c.yield(); return Value{} })
	reg("runtime.Caller", func(c *CallCtx) Value {
		return tup(Value{}, strVal("/repo/verif.go"), intV(1), boolV(true))
	})
	reg("runtime.Callers", func(c *CallCtx) Value { return intV(0) })
	reg("runtime.GOROOT", func(c *CallCtx) Value { return strVal("/goroot") })
	reg("(*internal/godebug.Setting).Value", func(c *CallCtx) Value { return Value{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.New", func(c *CallCtx) Value { return Value{p: c.e.newObj(8, "godebug")} })
	reg("internal/bytealg.init", nop)
	reg("internal/cpu.Name", func(c *CallCtx) Value { return Value{} })
	reg("hash/maphash.runtime_rand", func(c *CallCtx) Value { return Value{n: 12345} })
	reg("math/rand.Uint32", func(c *CallCtx) Value {
		e := c.e
		n := e.randN
		e.randN++
		e.onUndo(func() { e.randN = n })
		return Value{n: uint64(0x10000000 + n)}
	})
	reg("math.archFloor", nop)
	mathf := func(n string, f func(float64) float64) {
		reg("math."+n, func(c *CallCtx) Value { return f2v(f(v2f(c.args[0]))) })
	}
	mathf("Sqrt", math.Sqrt)
	mathf("Floor", math.Floor)
	mathf("Ceil", math.Ceil)
	mathf("Trunc", math.Trunc)
	reg("math.Abs", func(c *CallCtx) Value { return f2v(math.Abs(v2f(c.args[0]))) })
	reg("syscall.Getpagesize", func(c *CallCtx) Value { return intV(4096) })
	reg("os.Getpagesize", func(c *CallCtx) Value { return intV(4096) })
	reg("syscall.runtime_envs", nop)
	reg("syscall.Errno.Error", func(c *CallCtx) Value { return strVal(fmt.Sprintf("errno %d", c.args[0].n)) })

	regRT()
	regReflect()
}

func regAtomics() {
	sizes := []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}, {"Bool", 0}}
	sync := func(c *CallCtx) bool {
		o, ok := c.args[0].p.(*Obj)
		if !ok {
			if c.args[0].p == nil {
				c.e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
				c.handled = true
				return false
			}
			c.e.unsupported("atomic on %T", c.args[0].p)
		}
		if c.yield() {
			return false
		}
		if c.e.concurrent && c.g.id >= 0 {
			k := lockKey{o, int(c.args[0].n)}
			s := c.e.lock(k)
			c.g.vc = join(c.g.vc, s.vc)
			s.vc = join(s.vc, c.e.release(c.g))
			c.e.setLock(k, s)
		}
		return true
	}
	ld := func(c *CallCtx) Value {
		if c.args[0].p.(*Obj).dead != "" {
			c.e.deadAccess(c.args[0].p.(*Obj))
		}
		return c.args[0].p.(*Obj).get(int(c.args[0].n))
	}
	st := func(c *CallCtx, v Value) { c.e.store(c.args[0].p.(*Obj), int(c.args[0].n), v) }
	for _, s := range sizes {
		s := s
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pk+"Load"+s.n, func(c *CallCtx) Value {
				if !sync(c) {
					return Value{}
				}
				return ld(c)
			})
			reg(pk+"Store"+s.n, func(c *CallCtx) Value {
				if sync(c) {
					st(c, c.args[1])
				}
				return Value{}
			})
			reg(pk+"Add"+s.n, func(c *CallCtx) Value {
				if !sync(c) {
					return Value{}
				}
				o := ld(c)
				var v Value
				if o.p == nil && c.args[1].p == nil {
					v = Value{n: (o.n + c.args[1].n) & mask(s.w)}
				} else {
					v = termVal(c.e.tc.Bin(OAdd, c.e.toTerm(o, int(s.w)), c.e.toTerm(c.args[1], int(s.w))))
				}
				st(c, v)
				return v
			})
			reg(pk+"Swap"+s.n, func(c *CallCtx) Value {
				if !sync(c) {
					return Value{}
				}
				o := ld(c)
				st(c, c.args[1])
				return o
			})
			reg(pk+"CompareAndSwap"+s.n, func(c *CallCtx) Value {
				if !sync(c) {
					return Value{}
				}
				o := ld(c)
				same := o == c.args[1]
				if !same && (o.term() != nil || c.args[1].term() != nil) {
					same = c.e.branch(c.e.tc.Eq(c.e.toTerm(o, int(s.w)), c.e.toTerm(c.args[1], int(s.w))))
				}
				if same {
					st(c, c.args[2])
				}
				return boolV(same)
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(c *CallCtx) Value {
		if !sync(c) {
			return Value{}
		}
		return ld(c)
	})
	reg("(*sync/atomic.Value).Store", func(c *CallCtx) Value {
		if sync(c) {
			st(c, c.args[1])
		}
		return Value{}
	})
}

func (e *Engine) orAnd(or bool, a, b Value) Value {
	x, y := e.toTerm(a, 0), e.toTerm(b, 0)
	if or {
		return termVal(e.tc.Or(x, y))
	}
	return termVal(e.tc.And(x, y))
}

func (e *Engine) ite(k Value, a, b Value, w int) Value {
	if k.p == nil {
		if k.n != 0 {
			return a
		}
		return b
	}
	return termVal(e.tc.Ite(e.toTerm(k, 0), e.toTerm(a, w), e.toTerm(b, w)))
}

func regRT() {
	rt("Byte", func(c *CallCtx) Value { return termVal(c.e.newVarW(8, c.str(0))) })
	rt("Uint32", func(c *CallCtx) Value { return termVal(c.e.newVarW(32, c.str(0))) })
	rt("Uint64", func(c *CallCtx) Value { return termVal(c.e.newVarW(64, c.str(0))) })
	rt("Int64", func(c *CallCtx) Value { return termVal(c.e.newVarW(64, c.str(0))) })
	rt("Int", func(c *CallCtx) Value {
		e := c.e
		lo, hi := c.args[1].n, c.args[2].n
		if c.args[1].p != nil || c.args[2].p != nil {
			e.unsupported("symbolic range")
		}
		if int64(lo) >= 0 && int64(hi) < 1<<15 {
			w := uint8(8)
			if hi > 255 {
				w = 16
			}
			v := e.newVarW(w, c.str(0))
			e.require(e.tc.And(e.tc.Cmp(OUle, e.tc.Const(w, lo), v), e.tc.Cmp(OUle, v, e.tc.Const(w, hi))))
			return termVal(e.tc.Zext(v, 64))
		}
		v := e.newVarW(64, c.str(0))
		e.require(e.tc.And(e.tc.Cmp(OSle, e.tc.Const(64, lo), v), e.tc.Cmp(OSle, v, e.tc.Const(64, hi))))
		return termVal(v)
	})
	rt("Bool", func(c *CallCtx) Value {
		v := c.e.newVarW(1, c.str(0))
		return termVal(c.e.tc.Eq(v, c.e.tc.Const(1, 1)))
	})
	rt("Bytes", func(c *CallCtx) Value {
		n := c.int(1)
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = termVal(c.e.newVarW(8, c.str(0)))
		}
		return c.e.newSlice(vals, 1)
	})
	rt("String", func(c *CallCtx) Value {
		n := c.int(1)
		vals := make([]Value, n)
		for i := range vals {
			vals[i] = termVal(c.e.newVarW(8, c.str(0)))
		}
		return mkStr(vals)
	})
	rt("Choose", func(c *CallCtx) Value {
		n := c.int(1)
		if n <= 0 {
			panic(pathEnd{kind: "assume"})
		}
		return intV(c.e.pickSym(c.str(0), n))
	})
	rt("Assume", func(c *CallCtx) Value { c.e.require(c.e.toTerm(c.args[0], 0)); return Value{} })
	rt("Assert", func(c *CallCtx) Value {
		m := c.args[1]
		msg := c.e.modelStr(m)
		c.e.assert(c.e.toTerm(c.args[0], 0), msg)
		return Value{}
	})
	rt("Fail", func(c *CallCtx) Value { c.e.violation("assert", c.e.modelStr(c.args[0])); return Value{} })
	rt("Abort", func(c *CallCtx) Value { panic(pathEnd{kind: "assume", msg: c.e.modelStr(c.args[0])}) })
	rt("Bound", func(c *CallCtx) Value { panic(pathEnd{kind: "bound", msg: c.e.modelStr(c.args[0])}) })
	rt("Unsupported", func(c *CallCtx) Value { c.e.unsupported("%s", c.e.modelStr(c.args[0])); return Value{} })
	rt("Reach", func(c *CallCtx) Value {
		l := c.str(0)
		if c.e.labels[l] == 0 {
			c.e.labels[l] = 1
			c.e.onUndo(func() { delete(c.e.labels, l) })
		}
		return Value{}
	})
	rt("And", func(c *CallCtx) Value { return c.e.orAnd(false, c.args[0], c.args[1]) })
	rt("Or", func(c *CallCtx) Value { return c.e.orAnd(true, c.args[0], c.args[1]) })
	rt("Implies", func(c *CallCtx) Value {
		return termVal(c.e.tc.Or(c.e.tc.Not(c.e.toTerm(c.args[0], 0)), c.e.toTerm(c.args[1], 0)))
	})
	rt("IteInt", func(c *CallCtx) Value { return c.e.ite(c.args[0], c.args[1], c.args[2], 64) })
	rt("IteByte", func(c *CallCtx) Value { return c.e.ite(c.args[0], c.args[1], c.args[2], 8) })
	rt("IteBool", func(c *CallCtx) Value { return c.e.ite(c.args[0], c.args[1], c.args[2], 0) })
	rt("EqBytes", func(c *CallCtx) Value { return termVal(c.e.bytesEq(c.bytes(0), c.bytes(1))) })
	rt("EqStr", func(c *CallCtx) Value { return termVal(c.e.strEq(c.args[0], c.args[1])) })
	rt("InEngine", func(c *CallCtx) Value { return boolV(true) })
	rt("IsSym", func(c *CallCtx) Value { return boolV(c.args[0].p != nil) })
	rt("IsConcrete", func(c *CallCtx) Value { return boolV(c.args[0].term() == nil) })
	rt("Opt", func(c *CallCtx) Value {
		e := c.e
		k, v := c.str(0), c.int(1)
		old := e.opts[k]
		e.opts[k] = v
		e.onUndo(func() { e.opts[k] = old })
		if strings.HasPrefix(k, "skipfn:") {
			e.nskip++
			e.onUndo(func() { e.nskip-- })
		}
		switch k {
		case "preempt":
			o := e.maxPre
			e.maxPre = v
			e.onUndo(func() { e.maxPre = o })
		case "timers":
			o := e.timerBud
			e.timerBud = v
			e.onUndo(func() { e.timerBud = o })
		case "delays":
			// how often another than the first runnable goroutine continues when one blocks; -1: always any
			o, d := e.delayMax, e.delays
			e.delayMax, e.delays = v, 0
			e.onUndo(func() { e.delayMax, e.delays = o, d })
		case "maxsteps":
			o := e.maxSteps
			e.maxSteps = int64(v)
			e.onUndo(func() { e.maxSteps = o })
		case "hang":
			o := e.hangIsViolation
			e.hangIsViolation = v > 0
			e.onUndo(func() { e.hangIsViolation = o })
		case "norace":
			o := e.raceOn
			e.raceOn = false
			e.onUndo(func() { e.raceOn = o })
		}
		return Value{}
	})
	rt("Tier", func(c *CallCtx) Value { return intV(c.e.opt.tierN) })
	rt("WaitIdle", func(c *CallCtx) Value {
		e := c.e
		if c.g.yielded {
			c.g.yielded = false
			// everything the others did happens before
			for _, o := range e.gs {
				c.g.vc = join(c.g.vc, o.vc)
			}
			n := 0
			for i, o := range e.gs {
				if i != e.curIdx && !o.done {
					n++
				}
			}
			return intV(n)
		}
		n := 0
		for i, o := range e.gs {
			if i != e.curIdx && !o.done {
				n++
			}
		}
		if n == 0 {
			for _, o := range e.gs {
				c.g.vc = join(c.g.vc, o.vc)
			}
			return intV(0)
		}
		return e.block(c, &waitInfo{why: "idle"})
	})
	rt("Live", func(c *CallCtx) Value {
		n := 0
		for i, o := range c.e.gs {
			if i != c.e.curIdx && !o.done {
				n++
			}
		}
		return intV(n)
	})
	rt("Goid", func(c *CallCtx) Value { return intV(c.g.id) })
	// SchedPoint is a scheduling point inside a model (I/O and the like).
	rt("SchedPoint", func(c *CallCtx) Value {
		e := c.e
		if !e.concurrent || c.deferred {
			return Value{}
		}
		if e.yieldAt(c.g, true) {
			c.blocked = true
		}
		return Value{}
	})
	rt("TimerFires", func(c *CallCtx) Value { return intV(c.e.timerFires) })
	rt("NewTimer", func(c *CallCtx) Value {
		c.e.objSeq++
		return Value{p: &ChanObj{id: c.e.objSeq, cap: 1, timer: true}}
	})
	rt("Log", func(c *CallCtx) Value {
		if c.e.opt.trace {
			var parts []string
			for _, a := range c.e.sliceVals(c.args[0]) {
				parts = append(parts, c.e.show(a, types.NewInterfaceType(nil, nil)))
			}
			c.e.shared.logf("log: %s", strings.Join(parts, " "))
		}
		return Value{}
	})
	rt("Shape", func(c *CallCtx) Value {
		e := c.e
		n := len(e.shape)
		e.shape = append(e.shape, e.modelStr(c.args[0]))
		e.onUndo(func() { e.shape = e.shape[:n] })
		return Value{}
	})
	// Free marks the object behind a slice as dead; MarkRO as read-only.
	rt("FreeSlice", func(c *CallCtx) Value {
		s, ok := c.args[0].p.(*Slice)
		if !ok {
			return Value{}
		}
		o := s.o
		old := o.dead
		o.dead = c.str(1)
		c.e.onUndo(func() { o.dead = old })
		return Value{}
	})
	rt("MarkRO", func(c *CallCtx) Value {
		s, ok := c.args[0].p.(*Slice)
		if !ok {
			return Value{}
		}
		o := s.o
		o.ro = true
		o.what = c.str(1)
		c.e.onUndo(func() { o.ro = false })
		return Value{}
	})
	rt("SliceID", func(c *CallCtx) Value {
		s, ok := c.args[0].p.(*Slice)
		if !ok {
			return intV(0)
		}
		return intV(int(s.o.id))
	})
	rt("Sha1", func(c *CallCtx) Value {
		var b []byte
		for _, v := range c.bytes(0) {
			b = append(b, byte(c.e.concretize(v)))
		}
		h := sha1.Sum(b)
		vals := make([]Value, 20)
		for i := range h {
			vals[i].n = uint64(h[i])
		}
		return c.e.newSlice(vals, 1)
	})
	// HostFile is a file of the repository, relative to its root; nil if there is none.
	rt("HostFile", func(c *CallCtx) Value {
		b, err := os.ReadFile(filepath.Join(c.e.p.repo, c.str(0)))
		if err != nil {
			return Value{}
		}
		vals := make([]Value, len(b))
		for i := range b {
			vals[i].n = uint64(b[i])
		}
		return c.e.newSlice(vals, 1)
	})
	rt("Show", func(c *CallCtx) Value {
		return strVal(c.e.show(c.args[0], types.NewInterfaceType(nil, nil)))
	})
	// Format formats a scalar, using its value on this path (forking on symbolic ones).
	rt("Format", func(c *CallCtx) Value {
		e := c.e
		verb := c.str(0)
		i, ok := c.args[1].p.(*Iface)
		if !ok {
			return strVal(fmt.Sprintf(verb, nil))
		}
		v := i.v
		switch u := i.t.t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				if strings.HasSuffix(verb, "s") || strings.HasSuffix(verb, "v") {
					if verb == "%s" || verb == "%v" {
						return v
					}
				}
				b := v.strBytes()
				raw := make([]byte, len(b))
				for k := range b {
					raw[k] = byte(e.concretize(b[k]))
				}
				return strVal(fmt.Sprintf(verb, string(raw)))
			case u.Info()&types.IsBoolean != 0:
				return strVal(fmt.Sprintf(verb, e.concretize(v) != 0))
			case u.Info()&types.IsFloat != 0:
				return strVal(fmt.Sprintf(verb, v2f(v)))
			case u.Info()&types.IsInteger != 0:
				w := intWidth(i.t.t)
				n := e.concretize(v)
				if u.Info()&types.IsUnsigned != 0 {
					return strVal(fmt.Sprintf(verb, n))
				}
				return strVal(fmt.Sprintf(verb, sext(n, uint8(w))))
			}
		case *types.Slice:
			if intWidth(u.Elem()) == 8 {
				b := e.sliceVals(v)
				if verb == "%s" {
					return mkStr(b)
				}
				raw := make([]byte, len(b))
				for k := range b {
					raw[k] = byte(e.concretize(b[k]))
				}
				return strVal(fmt.Sprintf(verb, raw))
			}
		}
		return strVal(e.show(c.args[1], types.NewInterfaceType(nil, nil)))
	})
}

// ---- builtins ----

func (e *Engine) builtin(g *G, f *Frame, in *Inst) {
	name := in.x.(string)
	arg := func(i int) Value { return e.get(f, in.args[i]) }
	done := func(v Value) {
		e.set(f, in.dst, v)
		f.pc++
	}
	switch name {
	case "len":
		v := arg(0)
		switch x := v.p.(type) {
		case nil:
			if at, ok := deref(in.t).Underlying().(*types.Array); ok {
				done(intV(int(at.Len())))
				return
			}
			done(Value{})
		case string:
			done(intV(len(x)))
		case *SymStr:
			done(intV(len(x.b)))
		case *Slice:
			done(intV(x.len))
		case *MapObj:
			e.raceAcc(x.o, 0, false)
			done(intV(x.n))
		case *ChanObj:
			done(intV(len(x.buf)))
		default:
			if at, ok := deref(in.t).Underlying().(*types.Array); ok {
				done(intV(int(at.Len())))
				return
			}
			e.unsupported("len of %T", v.p)
		}
	case "cap":
		v := arg(0)
		switch x := v.p.(type) {
		case nil:
			if at, ok := deref(in.t).Underlying().(*types.Array); ok {
				done(intV(int(at.Len())))
				return
			}
			done(Value{})
		case *Slice:
			done(intV(x.cap))
		case *ChanObj:
			done(intV(x.cap))
		default:
			if at, ok := deref(in.t).Underlying().(*types.Array); ok {
				done(intV(int(at.Len())))
				return
			}
			e.unsupported("cap of %T", v.p)
		}
	case "append":
		a, b := arg(0), arg(1)
		var vals []Value
		if in.flag {
			vals = b.strBytes()
		} else {
			if in.n == 0 {
				s, _ := a.p.(*Slice)
				t, _ := b.p.(*Slice)
				n := 0
				if s != nil {
					n += s.len
				}
				if t != nil {
					n += t.len
				}
				done(Value{p: &Slice{o: e.newObj(0, "slice"), len: n, cap: n, es: 0}})
				return
			}
			vals = e.sliceVals(b)
		}
		done(e.appendVals(a, vals, int(in.n)))
	case "copy":
		done(intV(e.copySlice(arg(0), arg(1), in.flag)))
	case "delete":
		m, _ := arg(0).p.(*MapObj)
		if m != nil {
			e.raceAcc(m.o, 0, true)
			e.mapDelete(m, arg(1))
		}
		done(Value{})
	case "clear":
		switch x := arg(0).p.(type) {
		case *MapObj:
			e.raceAcc(x.o, 0, true)
			for i := range x.ents {
				if !x.ents[i].dead {
					e.mapDelete(x, x.ents[i].k)
				}
			}
		case *Slice:
			el := in.t.Underlying().(*types.Slice).Elem()
			z := e.p.zero(el)
			for i := 0; i < x.len; i++ {
				if a, ok := z.p.(*Agg); ok {
					for k, v := range a.v {
						e.store(x.o, x.off+i*x.es+k, v)
					}
				} else {
					e.store(x.o, x.off+i*x.es, z)
				}
			}
		}
		done(Value{})
	case "print", "println":
		done(Value{})
	case "recover":
		done(e.doRecover(g, f))
	case "min", "max":
		if in.w == 0 {
			if isString(in.t) {
				r := arg(0)
				for i := 1; i < len(in.args); i++ {
					tok := token.LSS
					if name == "max" {
						tok = token.GTR
					}
					c := e.strBin(tok, arg(i), r)
					if e.branch(e.toTerm(c, 0)) {
						r = arg(i)
					}
				}
				done(r)
				return
			}
			r := v2f(arg(0))
			for i := 1; i < len(in.args); i++ {
				if name == "min" {
					r = math.Min(r, v2f(arg(i)))
				} else {
					r = math.Max(r, v2f(arg(i)))
				}
			}
			done(f2v(r))
			return
		}
		r := e.toTerm(arg(0), int(in.w))
		op := OUlt
		if in.sg {
			op = OSlt
		}
		for i := 1; i < len(in.args); i++ {
			x := e.toTerm(arg(i), int(in.w))
			c := e.tc.Cmp(op, x, r)
			if name == "max" {
				c = e.tc.Cmp(op, r, x)
			}
			r = e.tc.Ite(c, x, r)
		}
		done(termVal(r))
	case "close":
		if e.yieldPoint(g) {
			return
		}
		if e.closeChan(g, arg(0)) {
			f.pc++
		}
	case "panic":
		e.startPanic(arg(0), "")
	case "ssa:wrapnilchk":
		if arg(0).p == nil {
			e.rtPanic("value method called using nil pointer")
			return
		}
		done(arg(0))
	case "String": // unsafe.String(ptr, n)
		n := int(int64(e.concretize(arg(1))))
		if n == 0 {
			done(Value{})
			return
		}
		o, ok := arg(0).p.(*Obj)
		if !ok {
			e.unsupported("unsafe.String of %T", arg(0).p)
		}
		done(mkStr(e.sliceVals(Value{p: &Slice{o: o, off: int(arg(0).n), len: n, cap: n, es: 1}})))
	case "StringData":
		b := arg(0).strBytes()
		if len(b) == 0 {
			done(Value{})
			return
		}
		s := e.newSlice(b, 1).p.(*Slice)
		done(Value{p: s.o})
	case "SliceData":
		s, ok := arg(0).p.(*Slice)
		if !ok {
			done(Value{})
			return
		}
		done(Value{p: s.o, n: uint64(s.off)})
	case "Slice":
		n := int(int64(e.concretize(arg(1))))
		o, ok := arg(0).p.(*Obj)
		if !ok {
			if arg(0).p == nil {
				done(Value{})
				return
			}
			e.unsupported("unsafe.Slice of %T", arg(0).p)
		}
		es := int(in.n)
		if es == 0 {
			es = 1
		}
		done(Value{p: &Slice{o: o, off: int(arg(0).n), len: n, cap: n, es: es}})
	default:
		e.unsupported("builtin %s", name)
	}
}

func (e *Engine) copySlice(dst, src Value, fromStr bool) int {
	d, _ := dst.p.(*Slice)
	if d == nil {
		return 0
	}
	var vals []Value
	if fromStr {
		vals = src.strBytes()
	} else {
		vals = e.sliceVals(src)
	}
	n := d.len
	if d.es == 0 {
		if s, ok := src.p.(*Slice); ok && s.len < n {
			n = s.len
		}
		return n
	}
	if len(vals)/d.es < n {
		n = len(vals) / d.es
	}
	if n == 0 {
		return 0
	}
	if d.o.dead != "" {
		e.deadAccess(d.o)
	}
	if d.o.ro {
		panic(pathEnd{kind: "violation", msg: "fault: write to read-only memory " + d.o.what + e.where()})
	}
	if len(d.o.sym) > 0 {
		e.flattenSym(d.o)
	}
	for i := 0; i < n*d.es; i++ {
		if e.raceOn {
			e.raceAcc(d.o, d.off+i, true)
		}
		e.store(d.o, d.off+i, vals[i])
	}
	return n
}

func (e *Engine) doRecover(g *G, f *Frame) Value {
	if !f.isDefer || f.caller == nil || !f.caller.panicking || g.pan == nil || g.pan.recovered {
		return Value{}
	}
	np := *g.pan
	np.recovered = true
	g.pan = &np
	return np.val
}

func (e *Engine) builtinDeferred(g *G, f *Frame, in *Inst, args []Value) {
	switch in.x.(string) {
	case "close":
		e.closeChan(g, args[0])
	case "delete":
		if m, _ := args[0].p.(*MapObj); m != nil {
			e.mapDelete(m, args[1])
		}
	case "panic":
		e.startPanic(args[0], "")
	case "print", "println", "recover":
	default:
		e.unsupported("deferred builtin %v", in.x)
	}
}
