package main

// goroutines, channels, locks, happens-before race detection

import (
	"fmt"
	"go/types"
)

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func join(a, b vclock) vclock {
	if len(b) == 0 {
		return a
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(vclock, n)
	for i := range r {
		r[i] = a.at(i)
		if x := b.at(i); x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (g *G) tick() {
	n := len(g.vc)
	if n <= g.id {
		n = g.id + 1
	}
	r := make(vclock, n)
	copy(r, g.vc)
	r[g.id]++
	g.vc = r
}

// release returns the clock to publish and starts a new epoch.
func (e *Engine) release(g *G) vclock {
	vc := g.vc
	g.tick()
	return vc
}

type raceAccess struct {
	g     int
	clk   uint32
	where string
}

type raceCell struct {
	w     raceAccess
	reads []raceAccess
}

func (e *Engine) raceAcc(o *Obj, i int, write bool) {
	if !e.raceOn || e.initDepth > 0 || e.curFrame == nil || e.curFrame.fn.norace || o == nil {
		return
	}
	g := e.cur
	c := o.race[i]
	nc := &raceCell{}
	if c != nil {
		if c.w.clk > 0 && c.w.g != g.id && c.w.clk > g.vc.at(c.w.g) {
			e.raceViolation(o, write, "write", c.w)
		}
		nc.w = c.w
		if write {
			for _, r := range c.reads {
				if r.g != g.id && r.clk > g.vc.at(r.g) {
					e.raceViolation(o, write, "read", r)
				}
			}
		}
	}
	me := raceAccess{g: g.id, clk: g.vc.at(g.id)}
	if write {
		if c != nil && c.w.g == me.g && c.w.clk == me.clk && len(c.reads) == 0 {
			return
		}
		me.where = e.shortWhere()
		nc.w = me
	} else {
		for _, r := range c.readsOf() {
			if r.g == me.g {
				if r.clk == me.clk {
					return
				}
				continue
			}
			nc.reads = append(nc.reads, r)
		}
		me.where = e.shortWhere()
		nc.reads = append(nc.reads, me)
	}
	if o.race == nil {
		o.race = map[int]*raceCell{}
	}
	o.race[i] = nc
	e.onUndo(func() {
		if c == nil {
			delete(o.race, i)
		} else {
			o.race[i] = c
		}
	})
}

func (c *raceCell) readsOf() []raceAccess {
	if c == nil {
		return nil
	}
	return c.reads
}

func (e *Engine) shortWhere() string {
	if e.curInst == nil {
		return ""
	}
	pos := e.p.prog.Fset.Position(e.curInst.pos)
	return fmt.Sprintf("%s (%s:%d)", e.curFrame.fn.name, pos.Filename, pos.Line)
}

func (e *Engine) raceViolation(o *Obj, write bool, other string, a raceAccess) {
	k := "read"
	if write {
		k = "write"
	}
	panic(pathEnd{kind: "violation", msg: fmt.Sprintf("data race: %s in goroutine %d at %s; unsynchronised with %s in goroutine %d at %s (%s)", k, e.cur.id, e.shortWhere(), other, a.g, a.where, o.what)})
}

// ---- scheduling ----

func (e *Engine) spawn(ci *Inst, fnv Value, args []Value) {
	var fn *Fn
	var free []Value
	switch ci.op {
	case opCall:
		fn = ci.x.(*Fn)
	case opDyn:
		c, ok := fnv.p.(*Closure)
		if !ok {
			e.unsupported("go of %T", fnv.p)
		}
		if c.intr != nil {
			e.unsupported("go of intrinsic")
		}
		fn, free = c.fn, c.free
	case opInvoke:
		i, ok := fnv.p.(*Iface)
		if !ok {
			e.unsupported("go of nil interface")
		}
		fn = e.p.findMethod(i.t, ci.x.(*types.Func))
		args = append([]Value{i.v}, args...)
	default:
		e.unsupported("go statement form")
	}
	if fn.model != nil {
		fn = fn.model
	}
	if fn.intr != nil {
		e.unsupported("go of intrinsic %s", fn.name)
	}
	if e.initDepth > 0 {
		e.unsupported("go in package init")
	}
	parent := e.cur
	e.gseq++
	g := &G{id: e.gseq, name: fn.name}
	g.vc = append(vclock(nil), parent.vc...)
	g.tick()
	parent.tick()
	saved := e.cur.top
	e.pushFrame(g, fn, free, args, noReg, nil)
	e.cur.top = saved
	e.gs = append(e.gs, g)
	if !e.concurrent {
		e.concurrent = true
		e.onUndo(func() { e.concurrent = false })
	}
	if e.opts["race"] > 0 && !e.raceOn {
		e.raceOn = true
		e.onUndo(func() { e.raceOn = false })
	}
	n := 0
	for _, x := range e.gs {
		if !x.done {
			n++
		}
	}
	if n > 64 {
		panic(pathEnd{kind: "bound", msg: "more than 64 goroutines"})
	}
}

func (e *Engine) gDone(g *G) { g.done = true }

type runOpt struct {
	i     int
	timer *ChanObj
}

func (e *Engine) runnable(exclude int) []runOpt {
	var out []runOpt
	for i, g := range e.gs {
		if i == exclude || g.done {
			continue
		}
		if g.wait == nil {
			out = append(out, runOpt{i, nil})
			continue
		}
		if g.wait.ready != nil && g.wait.ready(e) {
			out = append(out, runOpt{i, nil})
		}
	}
	return out
}

func (e *Engine) timerOpts() []runOpt {
	var out []runOpt
	if e.timerBud <= 0 {
		return nil
	}
	for i, g := range e.gs {
		if g.done || g.wait == nil {
			continue
		}
		if g.wait.ch != nil && g.wait.ch.timer && !g.wait.send {
			out = append(out, runOpt{i, g.wait.ch})
		}
		for _, c := range g.wait.sel {
			if c.recv && c.ch != nil && c.ch.timer {
				out = append(out, runOpt{i, c.ch})
			}
		}
	}
	return out
}

// schedule picks the next goroutine when the current one cannot run. false: program over.
func (e *Engine) schedule() bool {
	if !e.inReplayInst() {
		e.beginInst()
	}
	e.isGIdx = -1 // no instruction is being executed: what the goroutines are is what to come back to
	opts := e.runnable(-1)
	nrun := len(opts)
	opts = append(opts, e.timerOpts()...)
	if nrun == 0 {
		// idle waiters run only when nothing else can
		var idle []runOpt
		for i, g := range e.gs {
			if !g.done && g.wait != nil && g.wait.why == "idle" {
				idle = append(idle, runOpt{i, nil})
			}
		}
		if len(idle) > 0 {
			opts = append(idle, opts...)
		} else if len(opts) == 0 {
			for _, g := range e.gs {
				if g.wait != nil && !g.done && g.waitsTimer() {
					panic(pathEnd{kind: "bound", msg: "timer budget"})
				}
			}
			e.deadlock()
		}
	}
	k := 0
	if len(opts) > 1 && e.opts["onesched"] == 0 && (e.delayMax < 0 || e.delays < e.delayMax) {
		k = e.pickSym("sched", len(opts))
		if k > 0 && e.delayMax >= 0 {
			e.delays++
			e.onUndo(func() { e.delays-- })
		}
	}
	o := opts[k]
	if o.timer != nil {
		e.fireTimer(o.timer)
	}
	e.switchTo(o.i)
	e.instForced = e.instForced[:0]
	e.instPos = 0
	return true
}

func (g *G) waitsTimer() bool {
	if g.wait.ch != nil && g.wait.ch.timer {
		return true
	}
	for _, c := range g.wait.sel {
		if c.ch != nil && c.ch.timer {
			return true
		}
	}
	return false
}

func (e *Engine) deadlock() {
	msg := "deadlock: all goroutines are blocked:"
	for _, g := range e.gs {
		if !g.done {
			why := "?"
			if g.wait != nil {
				why = g.wait.why
			}
			fn := ""
			for f := g.top; f != nil; f = f.caller {
				if !f.fn.norace {
					fn = f.fn.name
					break
				}
			}
			msg += fmt.Sprintf(" [goroutine %d %s in %s]", g.id, why, fn)
		}
	}
	panic(pathEnd{kind: "violation", msg: msg})
}

func (e *Engine) inReplayInst() bool { return e.instPos < len(e.instForced) }

func (e *Engine) fireTimer(c *ChanObj) {
	e.timerBud--
	e.timerFires++
	e.onUndo(func() { e.timerBud++; e.timerFires-- })
	c.fire = true
	e.onUndo(func() { c.fire = false })
	n := len(e.sched)
	e.sched = append(e.sched, fmt.Sprintf("timer %d fires", c.id))
	e.onUndo(func() { e.sched = e.sched[:n] })
}

func (e *Engine) switchTo(i int) {
	g := e.gs[i]
	if g.wait != nil {
		g.wait = nil
		g.yielded = true
	}
	e.curIdx = i
	e.cur = g
	n := len(e.sched)
	pos := ""
	for f := g.top; f != nil; f = f.caller {
		if !f.fn.norace || f.caller == nil {
			if len(f.fn.code) > f.pc {
				p := e.p.prog.Fset.Position(f.fn.code[f.pc].pos)
				pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
			pos = f.fn.name + " " + pos
			break
		}
	}
	e.sched = append(e.sched, fmt.Sprintf("goroutine %d at %s", g.id, pos))
	e.onUndo(func() { e.sched = e.sched[:n] })
}

// pickSym chooses one of n alternatives through a fresh symbolic variable.
func (e *Engine) pickSym(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if n > 256 {
		e.unsupported("choice over %d alternatives", n)
	}
	v := e.newVarW(8, name)
	e.require(e.tc.Cmp(OUlt, v, e.tc.Const(8, uint64(n))))
	return int(e.concretize(termVal(v)))
}

// yieldPoint lets another goroutine run before a synchronisation operation of g.
// It returns true when the current operation must not be executed now.
func (e *Engine) yieldPoint(g *G) bool {
	return e.yieldAt(g, false)
}

// yieldAt is yieldPoint that also counts inside of models.
func (e *Engine) yieldAt(g *G, force bool) bool {
	if !e.concurrent || e.initDepth > 0 || g.id < 0 {
		return false
	}
	if g.yielded {
		g.yielded = false
		return false
	}
	if !force && e.curFrame.fn.norace && e.opts["harnessyield"] == 0 {
		return false
	}
	if e.preempt >= e.maxPre {
		return false
	}
	opts := e.runnable(e.curIdx)
	opts = append(opts, e.timerOpts()...)
	if len(opts) == 0 {
		return false
	}
	// where the next preemption happens is a symbolic number of a scheduling point
	if e.preAt == nil {
		v := e.newVarW(16, "preempt")
		e.require(e.tc.Cmp(OUle, e.tc.Const(16, uint64(e.preN)), v))
		e.preAt = v
		e.onUndo(func() { e.preAt = nil })
	}
	n := e.preN
	if n >= 0xffff {
		panic(pathEnd{kind: "bound", msg: "too many scheduling points"})
	}
	now := e.branch(e.tc.Eq(e.preAt, e.tc.Const(16, uint64(n))))
	e.preN++
	e.onUndo(func() { e.preN = n })
	if !now {
		return false
	}
	old := e.preAt
	e.preAt = nil
	e.onUndo(func() { e.preAt = old })
	o := opts[e.pickSym("sched", len(opts))]
	if o.timer != nil {
		e.fireTimer(o.timer)
	}
	g.yielded = true
	e.preempt++
	e.onUndo(func() { e.preempt-- })
	e.switchTo(o.i)
	return true
}

// ---- locks ----

type lockKey struct {
	o   *Obj
	off int
}

type lockState struct {
	w   int // goroutine id+1 holding for writing
	r   int
	vc  vclock
	rvc vclock
	n   int64 // waitgroup counter
}

func (e *Engine) lock(k lockKey) lockState {
	if s := e.locks[k]; s != nil {
		return *s
	}
	return lockState{}
}

func (e *Engine) setLock(k lockKey, s lockState) {
	old := e.locks[k]
	e.locks[k] = &s
	e.onUndo(func() {
		if old == nil {
			delete(e.locks, k)
		} else {
			e.locks[k] = old
		}
	})
}

func (c *CallCtx) lockKey() lockKey {
	o, ok := c.args[0].p.(*Obj)
	if !ok {
		if c.args[0].p == nil {
			c.e.unsupported("lock on nil pointer")
		}
		c.e.unsupported("lock on %T", c.args[0].p)
	}
	return lockKey{o, int(c.args[0].n)}
}

func (e *Engine) block(c *CallCtx, w *waitInfo) Value {
	if e.initDepth > 0 {
		e.unsupported("blocking in package init")
	}
	c.g.wait = w
	c.blocked = true
	return Value{}
}

func (e *Engine) writerWaiting(k lockKey) bool {
	for _, g := range e.gs {
		if !g.done && g.wait != nil && g.wait.why == "wlock" && g.wait.lk == k {
			return true
		}
	}
	return false
}

func (c *CallCtx) yield() bool {
	if c.deferred {
		return false
	}
	if c.e.yieldPoint(c.g) {
		c.blocked = true
		return true
	}
	return false
}

func iLock(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	if c.yield() {
		return Value{}
	}
	s := e.lock(k)
	if s.w != 0 || s.r != 0 {
		return e.block(c, &waitInfo{why: "wlock", lk: k, ready: func(e *Engine) bool { s := e.lock(k); return s.w == 0 && s.r == 0 }})
	}
	s.w = c.g.id + 1
	c.g.vc = join(join(c.g.vc, s.vc), s.rvc)
	e.setLock(k, s)
	return Value{}
}

func iTryLock(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	if c.yield() {
		return Value{}
	}
	s := e.lock(k)
	if s.w != 0 || s.r != 0 {
		return Value{}
	}
	s.w = c.g.id + 1
	c.g.vc = join(join(c.g.vc, s.vc), s.rvc)
	e.setLock(k, s)
	return Value{n: 1}
}

func iUnlock(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	s := e.lock(k)
	if s.w == 0 {
		e.violation("fatal error", "sync: unlock of unlocked mutex"+e.where())
	}
	s.w = 0
	s.vc = e.release(c.g)
	s.rvc = nil
	e.setLock(k, s)
	return Value{}
}

func iRLock(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	if c.yield() {
		return Value{}
	}
	s := e.lock(k)
	if s.w != 0 || e.writerWaiting(k) {
		return e.block(c, &waitInfo{why: "rlock", lk: k, ready: func(e *Engine) bool { return e.lock(k).w == 0 && !e.writerWaiting(k) }})
	}
	s.r++
	c.g.vc = join(c.g.vc, s.vc)
	e.setLock(k, s)
	return Value{}
}

func iRUnlock(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	s := e.lock(k)
	if s.r == 0 {
		e.violation("fatal error", "sync: RUnlock of unlocked RWMutex"+e.where())
	}
	s.r--
	s.rvc = join(s.rvc, e.release(c.g))
	e.setLock(k, s)
	return Value{}
}

func iWgAdd(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	s := e.lock(k)
	d := int64(-1)
	if len(c.args) > 1 {
		d = int64(e.concretize(c.args[1]))
	}
	s.n += d
	if s.n < 0 {
		e.rtPanic("sync: negative WaitGroup counter")
		c.handled = true
		return Value{}
	}
	s.vc = join(s.vc, e.release(c.g))
	e.setLock(k, s)
	return Value{}
}

func iWgWait(c *CallCtx) Value {
	e := c.e
	k := c.lockKey()
	if c.yield() {
		return Value{}
	}
	s := e.lock(k)
	if s.n > 0 {
		return e.block(c, &waitInfo{why: "waitgroup", lk: k, ready: func(e *Engine) bool { return e.lock(k).n == 0 }})
	}
	c.g.vc = join(c.g.vc, s.vc)
	return Value{}
}

// ---- channels ----

type chanMsg struct {
	v  Value
	vc vclock
}

type ChanObj struct {
	id     int32
	cap    int
	buf    []chanMsg // immutable: replaced on change
	rvcs   []vclock  // clocks of completed receives, for buffered send edges
	closed bool
	cvc    vclock
	timer  bool
	fire   bool
}

func (e *Engine) chanSet(c *ChanObj, buf []chanMsg, rvcs []vclock, closed bool, cvc vclock) {
	o := *c
	c.buf, c.rvcs, c.closed, c.cvc = buf, rvcs, closed, cvc
	e.onUndo(func() { c.buf, c.rvcs, c.closed, c.cvc = o.buf, o.rvcs, o.closed, o.cvc })
}

func (e *Engine) ownTop(g *G) *Frame {
	f := g.top
	if f.epoch != e.serial {
		nf := new(Frame)
		*nf = *f
		nf.regs = append([]Value(nil), f.regs...)
		nf.epoch = e.serial
		g.top = nf
		f = nf
	}
	return f
}

// waiting partner on channel c (want: true = a sender), in order of arrival.
func (e *Engine) partner(c *ChanObj, sender bool, self *G) (*G, int) {
	var best *G
	bi := -1
	for _, g := range e.gs {
		if g == self || g.done || g.wait == nil {
			continue
		}
		w := g.wait
		k := -2
		if w.ch == c && w.send == sender {
			k = -1
		}
		for i, s := range w.sel {
			if s.ch == c && s.recv != sender {
				k = i
				break
			}
		}
		if k == -2 {
			continue
		}
		if best == nil || w.seq < best.wait.seq {
			best, bi = g, k
		}
	}
	return best, bi
}

// complete finishes the blocked channel operation of g.
func (e *Engine) complete(g *G, k int, v Value, ok bool) {
	f := e.ownTop(g)
	in := &f.fn.code[f.pc]
	switch in.op {
	case opRecv:
		if in.flag {
			f.regs[in.dst] = tup(v, Value{n: b2u(ok)})
		} else {
			f.regs[in.dst] = v
		}
	case opSelect:
		f.regs[in.dst] = e.selResult(in, k, v, ok)
	}
	f.pc++
	g.wait = nil
}

func (e *Engine) selResult(in *Inst, k int, v Value, ok bool) Value {
	st := in.x.([]selState)
	t := &Tup{v: []Value{{n: uint64(int64(k))}, {n: b2u(ok)}}}
	for i, s := range st {
		if s.recv {
			if i == k {
				t.v = append(t.v, v)
			} else {
				t.v = append(t.v, e.p.zero(s.et))
			}
		}
	}
	return Value{p: t}
}

func (e *Engine) nextSeq() int64 {
	e.waitSeq++
	return e.waitSeq
}

// trySend performs the send if possible. res: 0 would block, 1 done, 2 panicked
func (e *Engine) trySend(g *G, c *ChanObj, v Value) int {
	if c.closed {
		e.rtPanic("send on closed channel")
		return 2
	}
	if p, k := e.partner(c, false, g); p != nil {
		vc := e.release(g)
		pvc := p.vc
		p.vc = join(p.vc, vc)
		if c.cap == 0 {
			g.vc = join(g.vc, pvc)
		}
		p.tick()
		e.complete(p, k, v, true)
		return 1
	}
	if len(c.buf) < c.cap {
		rv := c.rvcs
		if len(rv) > 0 {
			g.vc = join(g.vc, rv[0])
			rv = rv[1:]
		}
		nb := append(append([]chanMsg(nil), c.buf...), chanMsg{v, e.release(g)})
		e.chanSet(c, nb, rv, c.closed, c.cvc)
		return 1
	}
	return 0
}

func (e *Engine) tryRecv(g *G, c *ChanObj, et types.Type) (v Value, ok bool, done bool) {
	if len(c.buf) > 0 {
		m := c.buf[0]
		g.vc = join(g.vc, m.vc)
		nb := append([]chanMsg(nil), c.buf[1:]...)
		rv := append(append([]vclock(nil), c.rvcs...), e.release(g))
		if len(rv) > c.cap {
			rv = rv[len(rv)-c.cap:]
		}
		if p, k := e.partner(c, true, g); p != nil {
			pv := p.sendVal(k)
			p.vc = join(p.vc, rv[0])
			rv = rv[1:]
			nb = append(nb, chanMsg{pv, e.release(p)})
			e.complete(p, k, Value{}, false)
		}
		e.chanSet(c, nb, rv, c.closed, c.cvc)
		return m.v, true, true
	}
	if p, k := e.partner(c, true, g); p != nil {
		pv := p.sendVal(k)
		pvc := p.vc
		p.tick()
		gvc := e.release(g)
		g.vc = join(g.vc, pvc)
		p.vc = join(p.vc, gvc)
		e.complete(p, k, Value{}, false)
		return pv, true, true
	}
	if c.closed {
		g.vc = join(g.vc, c.cvc)
		return e.p.zero(et), false, true
	}
	if c.timer && c.fire {
		c.fire = false
		e.onUndo(func() { c.fire = true })
		return e.p.zero(et), true, true
	}
	return Value{}, false, false
}

func (g *G) sendVal(k int) Value {
	if k >= 0 {
		return g.wait.sel[k].val
	}
	return g.wait.val
}

func chanOf(e *Engine, v Value) *ChanObj {
	if v.p == nil {
		return nil
	}
	c, ok := v.p.(*ChanObj)
	if !ok {
		e.unsupported("channel operation on %T", v.p)
	}
	return c
}

func (e *Engine) execSend(g *G, f *Frame, in *Inst) {
	c := chanOf(e, e.get(f, in.a))
	if e.yieldPoint(g) {
		return
	}
	if c == nil {
		g.wait = &waitInfo{why: "send on nil channel"}
		return
	}
	switch e.trySend(g, c, e.get(f, in.b)) {
	case 0:
		if e.initDepth > 0 {
			e.unsupported("channel block in init")
		}
		g.wait = &waitInfo{why: "chan send", ch: c, send: true, val: e.get(f, in.b), seq: e.nextSeq()}
	case 1:
		f.pc++
	}
}

func (e *Engine) execRecv(g *G, f *Frame, in *Inst) {
	c := chanOf(e, e.get(f, in.a))
	if e.yieldPoint(g) {
		return
	}
	if c == nil {
		g.wait = &waitInfo{why: "receive on nil channel"}
		return
	}
	v, ok, done := e.tryRecv(g, c, in.t)
	if !done {
		if e.initDepth > 0 {
			e.unsupported("channel block in init")
		}
		g.wait = &waitInfo{why: "chan receive", ch: c, seq: e.nextSeq()}
		return
	}
	if in.flag {
		f.regs[in.dst] = tup(v, Value{n: b2u(ok)})
	} else {
		f.regs[in.dst] = v
	}
	f.pc++
}

func (e *Engine) execSelect(g *G, f *Frame, in *Inst) {
	if e.yieldPoint(g) {
		return
	}
	st := in.x.([]selState)
	var ready []int
	var cases []selCase
	for i, s := range st {
		c := chanOf(e, e.get(f, s.ch))
		sc := selCase{recv: s.recv, ch: c}
		if !s.recv {
			sc.val = e.get(f, s.val)
		}
		cases = append(cases, sc)
		if c == nil {
			continue
		}
		p, _ := e.partner(c, s.recv, g)
		if s.recv {
			if len(c.buf) > 0 || c.closed || p != nil || c.timer && c.fire {
				ready = append(ready, i)
			}
		} else if c.closed || len(c.buf) < c.cap || p != nil {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !in.flag { // non-blocking
			f.regs[in.dst] = e.selResult(in, -1, Value{}, false)
			f.pc++
			return
		}
		g.wait = &waitInfo{why: "select", sel: cases, seq: e.nextSeq()}
		return
	}
	k := ready[e.pickSym("select", len(ready))]
	if st[k].recv {
		v, ok, done := e.tryRecv(g, cases[k].ch, st[k].et)
		if !done {
			e.unsupported("internal: select")
		}
		f.regs[in.dst] = e.selResult(in, k, v, ok)
		f.pc++
		return
	}
	if e.trySend(g, cases[k].ch, cases[k].val) == 1 {
		f.regs[in.dst] = e.selResult(in, k, Value{}, false)
		f.pc++
	}
}

func (e *Engine) closeChan(g *G, v Value) bool {
	c := chanOf(e, v)
	if c == nil {
		e.rtPanic("close of nil channel")
		return false
	}
	if c.closed {
		e.rtPanic("close of closed channel")
		return false
	}
	e.chanSet(c, c.buf, c.rvcs, true, e.release(g))
	for _, o := range e.gs {
		if o.done || o.wait == nil {
			continue
		}
		hit := o.wait.ch == c
		for _, s := range o.wait.sel {
			hit = hit || s.ch == c
		}
		if hit {
			o.wait = nil
			o.yielded = true
		}
	}
	return true
}
