package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const noReg = int32(-1 << 30)

type deferRec struct {
	in   *Inst
	fnv  Value   // closure value / receiver
	args []Value // evaluated
	next *deferRec
}

type panicRec struct {
	val       Value // interface value
	recovered bool
	frame     *Frame // frame being unwound (its id)
	fid       uint64
	rtmsg     string
	pos       token.Pos
	prev      *panicRec
	where     string
}

type Frame struct {
	fn     *Fn
	regs   []Value
	pc     int
	caller *Frame
	retDst int32
	epoch  uint32
	defers *deferRec
	id     uint64
	// deferred-call bookkeeping
	isDefer   bool // this frame runs a deferred call of the caller frame
	panicking bool // unwinding this frame
	exiting   bool // RunDefers in progress
	depth     int
	onRet     func(e *Engine, v Value) // native continuation
}

type G struct {
	id      int
	top     *Frame
	pan     *panicRec
	done    bool
	wait    *waitInfo
	vc      vclock
	daemon  bool
	name    string
	sleep   bool
	started bool
	yielded bool
}

type waitInfo struct {
	why   string
	ready func(e *Engine) bool
	ch    *ChanObj
	send  bool
	val   Value
	sel   []selCase
	lk    lockKey
	seq   int64
}

type selCase struct {
	recv bool
	ch   *ChanObj
	val  Value
}

type pathEnd struct {
	kind string // done assume violation unsupported limit bound
	msg  string
	pos  token.Pos
}

type restartSig struct{}

type choice struct {
	trail   int
	pcLen   int
	decLen  int
	nvars   int
	instLog []int32
	alts    []int32
	models  [][]uint64
	next    int // next alternative index in alts
	gs      []G
	cur     int
	doms    int
	steps   int64
	preempt int
	model   []uint64
	isIdle  bool
	gseq    int
}

type Violation struct {
	Kind, Msg string
	Pos       string
	Stack     []string
	Vars      []VarVal
	Decisions []int32
	Model     []uint64
	Sched     []string
	Shape     string
}

type VarVal struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	V    uint64 `json:"v"`
}

type Engine struct {
	p      *Program
	tc     *TermCtx
	sol    *Solver
	opt    *Options
	shared *Shared

	diverged bool // replay: the recorded variables do not fit this execution

	objSeq    int32
	serial    uint32
	initDepth int
	trail     []trailEnt
	pc        []*Term
	model     []uint64
	nvars     int
	varNames  []string
	varW      []uint8
	dom       [][4]uint64
	ent       []bool
	domOK     []bool

	gs      []*G
	cur     *G
	curIdx  int
	gseq    int
	frameID uint64

	choices   []*choice
	decisions []int32
	prefix    []int32
	prefModel []uint64

	// per-instruction bookkeeping
	isTrail, isPC, isDec, isVars int
	instForced                   []int32
	instPos                      int
	instLog                      []int32

	globals []*Obj
	pkgDone []int8

	steps    int64
	maxSteps int64
	preempt  int
	delays   int
	delayMax int
	preAt    *Term
	preN     int
	maxPre   int
	timerBud int
	timerFires int
	sched    []string

	opts       map[string]int
	raceOn     bool
	crashVar   *Term
	concurrent bool

	locks   map[lockKey]*lockState
	waitSeq int64
	xsol    *Solver
	xtc     bool
	randN   uint64
	isG     G
	isGIdx  int

	stats     Stats
	fnsUsed   map[*Fn]bool
	inPure    int
	pureSteps int
	nskip     int
	curInst   *Inst
	curFrame  *Frame
	deadMsg   string

	nativeState     map[string]any
	cow             bool
	forbidChoice    bool
	labels          map[string]int
	hangIsViolation bool
	shape           []string
}

type Stats struct {
	Paths, Done, Assumed, Bounded, Unsupported int
	Asserts, AssertsTrivial, AssertQ           int
	Forks, Merges, MergeBails                  int
	Steps                                      int64
	DomPrune                                   int
	Unknown                                    int
	Implicit                                   int
	MaxDepth                                   int
}

type Options struct {
	maxSteps  int64
	maxViol   int
	deadline  time.Time
	trace     bool
	preempt   int
	workers   int
	solver    []string
	timeoutMs int
	tier      string
	noMerge   bool
	xcheck    []string
	known     []string
	tierN     int
	replay    []VarVal
	nsamples  int
	seed      int64
}

func (e *Engine) unsupported(f string, a ...any) {
	panic(pathEnd{kind: "unsupported", msg: fmt.Sprintf(f, a...) + e.where()})
}

func (e *Engine) where() string {
	if e.cur == nil || e.cur.top == nil {
		return ""
	}
	s := " at"
	n := 0
	for f := e.cur.top; f != nil && n < 8; f = f.caller {
		s += " < " + f.fn.name
		if f == e.cur.top && e.curInst != nil {
			s += "(" + e.p.prog.Fset.Position(e.curInst.pos).String() + ")"
		}
		n++
	}
	return s
}

func (e *Engine) get(f *Frame, i int32) Value {
	if i >= 0 {
		return f.regs[i]
	}
	return f.fn.consts[^i]
}

func (e *Engine) globalObj(gi *GlobalInfo) *Obj {
	for len(e.globals) <= gi.idx {
		e.globals = append(e.globals, make([]*Obj, 256)...)
	}
	o := e.globals[gi.idx]
	if o == nil {
		e.initDepth++
		o = e.newObj(gi.size, "global "+gi.g.Name())
		e.initDepth--
		e.globals[gi.idx] = o
	}
	return o
}

func (e *Engine) ensureInit(pi *PkgInfo) {
	for len(e.pkgDone) <= pi.idx {
		e.pkgDone = append(e.pkgDone, make([]int8, 64)...)
	}
	if e.pkgDone[pi.idx] != 0 || pi.skip {
		return
	}
	e.pkgDone[pi.idx] = 1
	initf := pi.p.Func("init")
	if initf == nil {
		return
	}
	// run nested, concretely
	sv := *e
	e.initDepth++
	g := &G{id: -1}
	savedCur := e.cur
	savedSteps := e.steps
	e.cur = g
	fn := e.p.ready(e.p.fn(initf))
	g.top = &Frame{fn: fn, regs: make([]Value, fn.nregs), retDst: noReg, epoch: e.serial}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init %s: %s %s\n", pi.p.Pkg.Path(), pe.kind, pe.msg)
					}
					if !pi.tol {
						panic(pathEnd{kind: "unsupported", msg: "package init of " + pi.p.Pkg.Path() + ": " + pe.msg})
					}
					return
				}
				panic(r)
			}
		}()
		e.loopInit(g, pi)
	}()
	e.initDepth--
	e.cur = savedCur
	e.steps = savedSteps
	e.isTrail, e.isPC, e.isDec, e.isVars = sv.isTrail, sv.isPC, sv.isDec, sv.isVars
	e.instForced, e.instPos, e.instLog = sv.instForced, sv.instPos, sv.instLog
	e.curInst = sv.curInst
	e.curFrame = sv.curFrame
	e.pkgDone[pi.idx] = 2
}

// loopInit runs a package initialiser; unsupported instructions poison their result when tolerant.
func (e *Engine) loopInit(g *G, pi *PkgInfo) {
	for g.top != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					pe, ok := r.(pathEnd)
					if !ok || !pi.tol || g.top == nil {
						panic(r)
					}
					// unwind to the initialiser frame and poison
					f := g.top
					for f.caller != nil {
						f = f.caller
					}
					if f == g.top {
						in := &f.fn.code[f.pc]
						if in.dst >= 0 && in.op != opStore {
							f.regs[in.dst] = Value{p: &poison{pe.msg}}
						}
						f.pc++
					} else {
						in := &f.fn.code[f.pc-1]
						if in.dst >= 0 {
							f.regs[in.dst] = Value{p: &poison{pe.msg}}
						}
					}
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "init %s poisoned: %s\n", pi.p.Pkg.Path(), pe.msg)
					}
					g.top = f
					g.pan = nil
				}
			}()
			for g.top != nil {
				e.steps = 0
				e.step(g)
			}
		}()
	}
}

// ---- decisions ----

func (e *Engine) beginInst() {
	e.isTrail, e.isPC, e.isDec, e.isVars = len(e.trail), len(e.pc), len(e.decisions), e.nvars
	e.instPos = 0
	e.instForced = e.instForced[:0]
	e.instLog = e.instLog[:0]
	e.isGIdx = -1
}

func (e *Engine) logDec(d int32) {
	e.decisions = append(e.decisions, d)
	e.instLog = append(e.instLog, d)
}

// forced returns a decision that is already determined by replay.
func (e *Engine) forced() (int32, bool) {
	if e.instPos < len(e.instForced) {
		d := e.instForced[e.instPos]
		e.instPos++
		e.logDec(d)
		return d, true
	}
	if n := len(e.decisions); n < len(e.prefix) {
		d := e.prefix[n]
		e.logDec(d)
		if n+1 == len(e.prefix) {
			e.model = append(e.model[:0:0], e.prefModel...)
			e.tc.bumpModel()
		}
		return d, true
	}
	return 0, false
}

func (e *Engine) inReplay() bool {
	return e.instPos < len(e.instForced) || len(e.decisions) < len(e.prefix)
}

// fork creates a choice point over alts and restarts the current instruction.
func (e *Engine) fork(alts []int32, models [][]uint64) {
	if e.initDepth > 0 {
		e.unsupported("choice during package init")
	}
	cp := &choice{trail: e.isTrail, pcLen: e.isPC, decLen: e.isDec, nvars: e.isVars, instLog: append([]int32(nil), e.instLog...), alts: alts, models: models,
		steps: e.steps, preempt: e.preempt, cur: e.curIdx, gseq: e.gseq}
	cp.gs = make([]G, len(e.gs))
	for i, g := range e.gs {
		cp.gs[i] = *g
	}
	if e.concurrent && e.isGIdx >= 0 {
		cp.gs[e.isGIdx] = e.isG
		cp.cur = e.isGIdx
	}
	if models == nil {
		cp.model = append([]uint64(nil), e.model...)
	}
	e.stats.Forks++
	if forkProf {
		noteFork(e.where())
	}
	e.choices = append(e.choices, cp)
	panic(restartSig{})
}

func (e *Engine) pickFree(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := e.forced(); ok {
		return int(d)
	}
	alts := make([]int32, n)
	for i := range alts {
		alts[i] = int32(i)
	}
	e.fork(alts, nil)
	return 0
}

func (e *Engine) setModelVar(m []uint64, v int, x uint64) []uint64 {
	r := append([]uint64(nil), m...)
	for len(r) < e.nvars {
		r = append(r, e.defaultVal(len(r)))
	}
	r[v] = x
	return r
}

func (e *Engine) defaultVal(i int) uint64 {
	if i < len(e.domOK) && e.domOK[i] {
		return domFirst(&e.dom[i])
	}
	return 0
}

func (e *Engine) fullModel() []uint64 {
	for len(e.model) < e.nvars {
		e.model = append(e.model, e.defaultVal(len(e.model)))
		e.tc.bumpModel()
	}
	return e.model
}

// quick decides a condition from the value domains alone.
func (e *Engine) quick(t *Term) (val, known bool) {
	if t.op == OConst {
		return t.val != 0, true
	}
	if t.supp >= 0 && e.domOK[t.supp] {
		s := e.tc.truthSet(t)
		d := &e.dom[t.supp]
		tt, ff := false, false
		for i := 0; i < 4; i++ {
			if d[i]&s[i] != 0 {
				tt = true
			}
			if d[i]&^s[i] != 0 {
				ff = true
			}
		}
		if !ff {
			return true, true
		}
		if !tt {
			return false, true
		}
	}
	return false, false
}

// branch decides a symbolic condition, forking when both outcomes are possible.
func (e *Engine) branch(t *Term) bool {
	if v, ok := e.quick(t); ok {
		if t.op != OConst {
			e.stats.DomPrune++
		}
		return v
	}
	if e.inPure > 0 {
		panic(pureBail{})
	}
	if d, ok := e.forced(); ok {
		b := d == 1
		if b {
			e.assume(t)
		} else {
			e.assume(e.tc.Not(t))
		}
		return b
	}
	if t.supp >= 0 && e.domOK[t.supp] && !e.ent[t.supp] {
		s := e.tc.truthSet(t)
		d := e.dom[t.supp]
		var dt, df [4]uint64
		for i := 0; i < 4; i++ {
			dt[i] = d[i] & s[i]
			df[i] = d[i] &^ s[i]
		}
		m := e.fullModel()
		mt, mf := m, m
		if domHas(&dt, m[t.supp]) {
			mf = e.setModelVar(m, int(t.supp), domFirst(&df))
		} else {
			mt = e.setModelVar(m, int(t.supp), domFirst(&dt))
		}
		e.fork([]int32{1, 0}, [][]uint64{mt, mf})
	}
	m := e.fullModel()
	side := e.tc.eval(t, m) != 0
	other := t
	if side {
		other = e.tc.Not(t)
	}
	res, om := e.sol.check(e.pc, other, e.nvars)
	switch res {
	case "sat":
		e.fixModel(om)
		if side {
			e.fork([]int32{1, 0}, [][]uint64{m, om})
		}
		e.fork([]int32{0, 1}, [][]uint64{m, om})
	case "unknown":
		e.stats.Unknown++
		e.shared.incomplete("solver unknown on a branch" + e.where())
	case "unsat":
		// the other side is impossible: remember that in the domain of its variable
		if v := t.supp; v >= 0 && e.domOK[v] {
			s := e.tc.truthSet(t)
			old := e.dom[v]
			for i := 0; i < 4; i++ {
				if side {
					e.dom[v][i] &= s[i]
				} else {
					e.dom[v][i] &^= s[i]
				}
			}
			e.onUndo(func() { e.dom[v] = old })
		}
	}
	e.logDec(int32(b2u(side)))
	return side
}

// fixModel fills variables the solver did not mention.
func (e *Engine) fixModel(m []uint64) {
	for i := range m {
		if i < len(e.domOK) && e.domOK[i] && !domHas(&e.dom[i], m[i]) {
			m[i] = domFirst(&e.dom[i])
		}
	}
}

func (e *Engine) termVars(t *Term, seen map[uint32]bool, out map[int32]bool) {
	if t == nil || t.supp == -1 || seen[t.id] {
		return
	}
	if t.supp >= 0 {
		out[t.supp] = true
		return
	}
	seen[t.id] = true
	e.termVars(t.a, seen, out)
	e.termVars(t.b, seen, out)
	e.termVars(t.c, seen, out)
}

// assume adds t to the path condition (must be satisfied by the model unless replaying).
func (e *Engine) assume(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		e.assume(t.a)
		e.assume(t.b)
		return
	}
	e.pc = append(e.pc, t)
	if t.supp >= 0 && e.domOK[t.supp] {
		v := t.supp
		s := e.tc.truthSet(t)
		old := e.dom[v]
		for i := 0; i < 4; i++ {
			e.dom[v][i] &= s[i]
		}
		e.onUndo(func() { e.dom[v] = old })
		return
	}
	vs := map[int32]bool{}
	e.termVars(t, map[uint32]bool{}, vs)
	for v := range vs {
		v := v
		if !e.ent[v] {
			e.ent[v] = true
			e.onUndo(func() { e.ent[v] = false })
		}
	}
}

// require is the harness' assumption: prune the path when impossible.
func (e *Engine) require(t *Term) {
	if v, ok := e.quick(t); ok {
		if !v {
			panic(pathEnd{kind: "assume"})
		}
		return
	}
	if e.inReplay() {
		// decisions were taken under this assumption: just add it
		e.assume(t)
		return
	}
	if t.supp >= 0 && e.domOK[t.supp] && !e.ent[t.supp] {
		e.assume(t)
		m := e.fullModel()
		if !domHas(&e.dom[t.supp], m[t.supp]) {
			e.model = e.setModelVar(m, int(t.supp), domFirst(&e.dom[t.supp]))
			e.tc.bumpModel()
		}
		return
	}
	m := e.fullModel()
	if e.tc.eval(t, m) == 0 {
		res, om := e.sol.check(e.pc, t, e.nvars)
		if res == "unknown" {
			e.stats.Unknown++
			e.shared.incomplete("solver unknown on an assumption")
		}
		if res != "sat" {
			panic(pathEnd{kind: "assume"})
		}
		e.assume(t)
		e.fixModel(om)
		e.model = om
		e.tc.bumpModel()
		return
	}
	e.assume(t)
}

func (e *Engine) assert(t *Term, msg string) {
	e.stats.Asserts++
	if t == e.tc.True {
		e.stats.AssertsTrivial++
		return
	}
	if t.op == OConst {
		e.violation("assert", msg)
	}
	if len(e.decisions) < len(e.prefix) {
		return
	}
	e.stats.AssertQ++
	res, om := e.sol.check(e.pc, e.tc.Not(t), e.nvars)
	switch res {
	case "sat":
		e.fixModel(om)
		e.model = om
		e.tc.bumpModel()
		e.violation("assert", msg)
	case "unknown":
		e.stats.Unknown++
		e.shared.incomplete("solver unknown on an assertion: " + msg)
	}
	if e.opt.xcheck != nil {
		e.shared.xcheck(e, t)
	}
}

func (e *Engine) violation(kind, msg string) {
	panic(pathEnd{kind: "violation", msg: kind + ": " + msg})
}

// concretize enumerates the feasible values of a term by forking.
func (e *Engine) concretize(v Value) uint64 {
	t := v.term()
	if t == nil {
		if v.p != nil {
			e.unsupported("concretize %T", v.p)
		}
		return v.n
	}
	if t.w == 0 {
		return b2u(e.branch(t))
	}
	if t.supp >= 0 && e.domOK[t.supp] {
		// enumerate by domain, deterministic order
		for {
			d := e.dom[t.supp]
			if domCount(&d) == 1 {
				m := make([]uint64, t.supp+1)
				m[t.supp] = domFirst(&d)
				e.tc.bumpModel()
				x := e.tc.eval(t, m)
				e.tc.bumpModel()
				return x
			}
			m := make([]uint64, t.supp+1)
			m[t.supp] = domFirst(&d)
			e.tc.bumpModel()
			x := e.tc.eval(t, m)
			e.tc.bumpModel()
			if e.branch(e.tc.Eq(t, e.tc.Const(t.w, x))) {
				return x
			}
		}
	}
	if e.inPure > 0 {
		panic(pureBail{})
	}
	for {
		// decision carries the value itself (low 31 bits) through a replayable path
		x := e.concPick(t)
		if e.branch(e.tc.Eq(t, e.tc.Const(t.w, x))) {
			return x
		}
	}
}

// concPick picks a candidate value for t deterministically across replays.
func (e *Engine) concPick(t *Term) uint64 {
	if d, ok := e.forced(); ok {
		lo := uint64(uint32(d))
		d2, ok2 := e.forced()
		if !ok2 {
			// the value is two decisions; replay log always has both
			e.unsupported("concPick replay")
		}
		return lo | uint64(uint32(d2))<<32
	}
	x := e.tc.eval(t, e.fullModel())
	e.logDec(int32(uint32(x)))
	e.logDec(int32(uint32(x >> 32)))
	return x
}

func (e *Engine) newVarW(w uint8, name string) *Term {
	i := e.nvars
	e.nvars++
	if r := e.opt.replay; r != nil {
		if i >= len(r) {
			e.diverged = true
			return e.tc.Const(w, 0)
		}
		if r[i].Name != name {
			e.diverged = true
		}
		return e.tc.Const(w, r[i].V)
	}
	t := e.tc.newVar(i, w, name)
	if len(e.varNames) <= i {
		e.varNames = append(e.varNames, name)
		e.varW = append(e.varW, w)
		e.dom = append(e.dom, [4]uint64{})
		e.ent = append(e.ent, false)
		e.domOK = append(e.domOK, false)
	}
	e.varNames[i] = name
	e.varW[i] = w
	e.ent[i] = false
	e.domOK[i] = w <= 8 && w > 0
	if e.domOK[i] {
		e.dom[i] = domFull(w)
	}
	if len(e.model) > i && !e.inReplay() {
		e.model = e.model[:i]
	}
	if len(e.model) > i && len(e.decisions) < len(e.prefix) {
		e.model = e.model[:i]
	}
	e.tc.bumpModel()
	return t
}

// ---- path driver ----

func (e *Engine) restore(cp *choice, alt int) {
	e.undoTo(cp.trail)
	e.pc = e.pc[:cp.pcLen]
	e.decisions = e.decisions[:cp.decLen]
	e.nvars = cp.nvars
	e.gs = e.gs[:0]
	for i := range cp.gs {
		g := new(G)
		*g = cp.gs[i]
		e.gs = append(e.gs, g)
	}
	e.curIdx = cp.cur
	e.cur = e.gs[cp.cur]
	e.gseq = cp.gseq
	e.preempt = cp.preempt
	e.steps = cp.steps
	if cp.models != nil {
		e.model = append([]uint64(nil), cp.models[alt]...)
	} else {
		if cp.model == nil {
			cp.model = append([]uint64(nil), e.model...)
		}
		e.model = append([]uint64(nil), cp.model...)
	}
	e.tc.bumpModel()
	e.serial = e.shared.nextSerial(e)
	e.isTrail, e.isPC, e.isDec, e.isVars = cp.trail, cp.pcLen, cp.decLen, cp.nvars
	e.instForced = append(e.instForced[:0], cp.instLog...)
	e.instForced = append(e.instForced, cp.alts[alt])
	e.instPos = 0
	e.instLog = e.instLog[:0]
}

// run explores everything below the current prefix.
func (e *Engine) run() {
	first := true
	for {
		if first {
			first = false
			e.beginInst()
		} else if !e.nextAlt() {
			return
		}
		e.runPath()
		if e.shared.stopped() {
			return
		}
		e.shared.share(e)
	}
}

// nextAlt moves to the next unexplored alternative.
func (e *Engine) nextAlt() bool {
	for len(e.choices) > 0 {
		cp := e.choices[len(e.choices)-1]
		if cp.next < len(cp.alts) {
			a := cp.next
			cp.next++
			e.restore(cp, a)
			if cp.next == len(cp.alts) {
				e.choices = e.choices[:len(e.choices)-1]
			}
			return true
		}
		e.choices = e.choices[:len(e.choices)-1]
	}
	return false
}

func (e *Engine) runPath() {
	for {
		pe, restart := e.runUntil()
		if restart {
			if e.shared.stopped() {
				return
			}
			if !e.nextAlt() {
				fatalf("internal: restart without choice")
			}
			continue
		}
		e.endPath(pe)
		return
	}
}

func (e *Engine) runUntil() (pe pathEnd, restart bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				pe = x
			case restartSig:
				restart = true
			default:
				fmt.Fprintln(os.Stderr, "internal panic:", r, e.where())
				panic(r)
			}
		}
	}()
	e.inPure = 0
	e.loop()
	return pathEnd{kind: "done"}, false
}

func (e *Engine) endPath(pe pathEnd) {
	e.stats.Paths++
	if e.steps > 0 {
		e.stats.Steps += e.steps
	}
	if len(e.decisions) > e.stats.MaxDepth {
		e.stats.MaxDepth = len(e.decisions)
	}
	if e.opt.trace {
		fmt.Fprintf(os.Stderr, "path %d: %s %s steps=%d dec=%v\n", e.stats.Paths, pe.kind, pe.msg, e.steps, e.decisions)
	}
	switch pe.kind {
	case "done":
		e.stats.Done++
		for l := range e.labels {
			e.shared.reach(l)
		}
		e.shared.sampleShape(e)
		e.shared.samplePath(e)
	case "assume":
		e.stats.Assumed++
	case "stopped":
		e.stats.Paths--
	case "bound":
		e.stats.Bounded++
		e.shared.bound(pe.msg)
	case "violation":
		e.report(pe)
	case "limit":
		e.shared.incomplete("step limit: " + pe.msg)
		e.stats.Unsupported++
	default:
		e.stats.Unsupported++
		e.shared.incomplete(pe.msg)
	}
}

func (e *Engine) report(pe pathEnd) {
	v := &Violation{Kind: strings.SplitN(pe.msg, ":", 2)[0], Msg: pe.msg}
	if e.curInst != nil {
		v.Pos = e.p.prog.Fset.Position(e.curInst.pos).String()
	}
	if e.cur != nil {
		n := 0
		for f := e.cur.top; f != nil && n < 12; f = f.caller {
			pos := ""
			pc := f.pc
			if pc >= len(f.fn.code) {
				pc = len(f.fn.code) - 1
			}
			if pc >= 0 && len(f.fn.code) > 0 {
				pos = e.p.prog.Fset.Position(f.fn.code[pc].pos).String()
			}
			v.Stack = append(v.Stack, f.fn.name+" "+pos)
			n++
		}
	}
	m := e.fullModel()
	if e.opt.replay != nil {
		if e.diverged || e.nvars < len(e.opt.replay) {
			v.Msg = "diverged: " + v.Msg
		}
		e.shared.addViolation(v)
		return
	}
	// make sure the model satisfies the whole path condition
	e.tc.bumpModel()
	for _, t := range e.pc {
		if e.tc.eval(t, m) == 0 {
			res, om := e.sol.check(e.pc, nil, e.nvars)
			if res == "sat" {
				e.fixModel(om)
				m = om
				e.model = om
				e.tc.bumpModel()
			} else {
				e.shared.incomplete("internal: violating path has no model: " + res + " " + pe.msg)
				return
			}
			break
		}
	}
	for i := 0; i < e.nvars; i++ {
		x := uint64(0)
		if i < len(m) {
			x = m[i]
		}
		v.Vars = append(v.Vars, VarVal{e.varNames[i], int(e.varW[i]), x})
	}
	v.Model = append([]uint64(nil), m...)
	v.Decisions = append([]int32(nil), e.decisions...)
	v.Sched = append([]string(nil), e.sched...)
	e.shared.addViolation(v)
}

// ---- interpreter ----

func (e *Engine) loop() {
	for {
		if e.cur.done || e.cur.wait != nil {
			e.schedule()
		}
		e.step(e.cur)
		if e.gs[0].done {
			return
		}
	}
}

// step executes one instruction of g.
func (e *Engine) step(g *G) {
	f := g.top
	if f.epoch != e.serial {
		nf := new(Frame)
		*nf = *f
		nf.regs = append([]Value(nil), f.regs...)
		nf.epoch = e.serial
		g.top = nf
		f = nf
	}
	in := &f.fn.code[f.pc]
	if e.concurrent {
		e.isG = *g
		e.isGIdx = e.curIdx
	}
	if len(e.instForced) == 0 {
		e.isTrail, e.isPC, e.isDec, e.isVars = len(e.trail), len(e.pc), len(e.decisions), e.nvars
		e.instLog = e.instLog[:0]
	}
	e.curInst = in
	e.curFrame = f
	e.steps++
	if e.steps&0x3fff == 0 && e.shared.stopped() {
		panic(pathEnd{kind: "stopped"})
	}
	if e.steps > e.maxSteps {
		if e.hangIsViolation {
			e.violation("hang", fmt.Sprintf("no termination within %d instructions", e.maxSteps))
		}
		panic(pathEnd{kind: "limit", msg: fmt.Sprintf("%d steps", e.maxSteps) + e.where()})
	}
	e.exec(g, f, in)
	e.instForced = e.instForced[:0]
	e.instPos = 0
}

func (e *Engine) set(f *Frame, dst int32, v Value) {
	if dst >= 0 {
		f.regs[dst] = v
	}
}

func (e *Engine) jump(f *Frame, to, edge int32) {
	bi := &f.fn.blocks[to]
	switch len(bi.phis) {
	case 0:
	case 1:
		f.regs[bi.phis[0].dst] = e.phiVal(f, bi.phis[0].edges[edge])
	default:
		var tmp [16]Value
		t := tmp[:0]
		for i := range bi.phis {
			t = append(t, e.phiVal(f, bi.phis[i].edges[edge]))
		}
		for i := range bi.phis {
			f.regs[bi.phis[i].dst] = t[i]
		}
	}
	f.pc = bi.start
}

func (e *Engine) phiVal(f *Frame, i int32) Value {
	v := e.get(f, i)
	if gi, ok := v.p.(*GlobalInfo); ok {
		e.ensureInit(gi.pkg)
		return Value{p: e.globalObj(gi)}
	}
	return v
}

func (e *Engine) exec(g *G, f *Frame, in *Inst) {
	switch in.op {
	case opNop:
		f.pc++
	case opAlloc:
		what, _ := in.x.(string)
		f.regs[in.dst] = Value{p: e.newObj(int(in.n), what)}
		f.pc++
	case opGlobal:
		gi := in.x.(*GlobalInfo)
		e.ensureInit(gi.pkg)
		f.regs[in.dst] = Value{p: e.globalObj(gi)}
		f.pc++
	case opBinInt:
		a, b := e.get(f, in.a), e.get(f, in.b)
		if a.p == nil && b.p == nil {
			v, ok := intBin(in.tok, a.n, b.n, in.w, in.sg)
			if !ok {
				e.rtPanic("runtime error: integer divide by zero")
				return
			}
			f.regs[in.dst] = Value{n: v}
			f.pc++
			return
		}
		v, ok := e.symBin(in, a, b)
		if !ok {
			return
		}
		f.regs[in.dst] = v
		f.pc++
	case opShift:
		v, ok := e.shift(in, e.get(f, in.a), e.get(f, in.b))
		if !ok {
			return
		}
		f.regs[in.dst] = v
		f.pc++
	case opBinBool:
		a, b := e.get(f, in.a), e.get(f, in.b)
		if a.p == nil && b.p == nil {
			r := a.n == b.n
			switch in.tok {
			case token.NEQ:
				r = !r
			case token.AND:
				r = a.n&b.n != 0
			case token.OR:
				r = a.n|b.n != 0
			}
			f.regs[in.dst] = Value{n: b2u(r)}
		} else {
			x, y := e.toTerm(a, 0), e.toTerm(b, 0)
			var t *Term
			switch in.tok {
			case token.EQL:
				t = e.boolEq(x, y)
			case token.NEQ:
				t = e.tc.Not(e.boolEq(x, y))
			case token.AND:
				t = e.tc.And(x, y)
			case token.OR:
				t = e.tc.Or(x, y)
			}
			f.regs[in.dst] = termVal(t)
		}
		f.pc++
	case opBinStr:
		a, b := e.get(f, in.a), e.get(f, in.b)
		f.regs[in.dst] = e.strBin(in.tok, a, b)
		f.pc++
	case opBinFloat:
		a, b := e.get(f, in.a), e.get(f, in.b)
		if a.p != nil || b.p != nil {
			e.unsupported("symbolic float")
		}
		x, y := v2f(a), v2f(b)
		var r float64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.EQL:
			f.regs[in.dst] = Value{n: b2u(x == y)}
			f.pc++
			return
		case token.NEQ:
			f.regs[in.dst] = Value{n: b2u(x != y)}
			f.pc++
			return
		case token.LSS:
			f.regs[in.dst] = Value{n: b2u(x < y)}
			f.pc++
			return
		case token.LEQ:
			f.regs[in.dst] = Value{n: b2u(x <= y)}
			f.pc++
			return
		case token.GTR:
			f.regs[in.dst] = Value{n: b2u(x > y)}
			f.pc++
			return
		case token.GEQ:
			f.regs[in.dst] = Value{n: b2u(x >= y)}
			f.pc++
			return
		}
		if in.flag {
			r = float64(float32(r))
		}
		f.regs[in.dst] = f2v(r)
		f.pc++
	case opEqGen:
		t := e.eqVals(e.get(f, in.a), e.get(f, in.b), in.t)
		if in.tok == token.NEQ {
			t = e.tc.Not(t)
		}
		f.regs[in.dst] = termVal(t)
		f.pc++
	case opNot:
		a := e.get(f, in.a)
		if a.p == nil {
			f.regs[in.dst] = Value{n: a.n ^ 1}
		} else {
			f.regs[in.dst] = termVal(e.tc.Not(e.toTerm(a, 0)))
		}
		f.pc++
	case opNeg:
		a := e.get(f, in.a)
		if a.p == nil {
			f.regs[in.dst] = Value{n: -a.n & mask(in.w)}
		} else {
			f.regs[in.dst] = termVal(e.tc.Un(ONeg, e.toTerm(a, int(in.w))))
		}
		f.pc++
	case opCompl:
		a := e.get(f, in.a)
		if a.p == nil {
			f.regs[in.dst] = Value{n: ^a.n & mask(in.w)}
		} else {
			f.regs[in.dst] = termVal(e.tc.Un(OBvNot, e.toTerm(a, int(in.w))))
		}
		f.pc++
	case opNegF:
		f.regs[in.dst] = f2v(-v2f(e.get(f, in.a)))
		f.pc++
	case opLoad:
		v, ok := e.load(e.get(f, in.a), int(in.n), in.flag)
		if !ok {
			return
		}
		f.regs[in.dst] = v
		f.pc++
	case opStore:
		if e.storePtr(e.get(f, in.a), e.get(f, in.b), int(in.n), in.flag) {
			f.pc++
		}
	case opCopy:
		f.regs[in.dst] = e.get(f, in.a)
		f.pc++
	case opReint:
		f.regs[in.dst] = e.reinterpret(e.get(f, in.a), int(in.w), int(in.w2))
		f.pc++
	case opConv:
		f.regs[in.dst] = e.convert(in, e.get(f, in.a))
		f.pc++
	case opMakeIface:
		f.regs[in.dst] = Value{p: &Iface{in.x.(*TypeInfo), e.get(f, in.a)}}
		f.pc++
	case opMakeClosure:
		c := &Closure{fn: in.x.(*Fn)}
		for _, a := range in.args {
			c.free = append(c.free, e.get(f, a))
		}
		f.regs[in.dst] = Value{p: c}
		f.pc++
	case opMakeMap:
		f.regs[in.dst] = Value{p: e.newMap(in.t)}
		f.pc++
	case opMakeChan:
		n := e.concretize(e.get(f, in.a))
		e.objSeq++
		f.regs[in.dst] = Value{p: &ChanObj{id: e.objSeq, cap: int(n)}}
		f.pc++
	case opMakeSlice:
		n := int64(e.concretize(e.get(f, in.a)))
		c := int64(e.concretize(e.get(f, in.b)))
		if n < 0 || n > c || c > 1<<34 {
			e.rtPanic("runtime error: makeslice: len out of range")
			return
		}
		o := e.newObj(int(c)*int(in.n), "slice")
		f.regs[in.dst] = Value{p: &Slice{o: o, len: int(n), cap: int(c), es: int(in.n)}}
		f.pc++
	case opSlice:
		e.execSlice(f, in)
	case opField:
		a, ok := e.get(f, in.a).p.(*Agg)
		if !ok {
			e.unsupported("field of %T", e.get(f, in.a).p)
		}
		f.regs[in.dst] = aggSub(a, int(in.b), int(in.n), in.t)
		f.pc++
	case opFieldAddr:
		a := e.get(f, in.a)
		switch p := a.p.(type) {
		case *Obj:
			f.regs[in.dst] = Value{p: p, n: a.n + uint64(in.b)}
		case nil:
			e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			return
		case *SymPtr:
			q := *p
			q.base += int(in.b)
			f.regs[in.dst] = Value{p: &q}
		default:
			e.unsupported("fieldaddr of %T %v", a.p, a.p)
		}
		f.pc++
	case opIndex:
		e.execIndex(f, in)
	case opIndexAddr:
		e.execIndexAddr(f, in)
	case opLookup:
		m, _ := e.get(f, in.a).p.(*MapObj)
		if m != nil {
			e.raceAcc(m.o, 0, false)
		}
		i := -1
		if m != nil {
			i = e.mapFind(m, e.get(f, in.b))
		}
		var v Value
		if i >= 0 {
			v = m.ents[i].v
		} else {
			v = e.p.zero(in.t)
		}
		if in.flag {
			v = tup(v, Value{n: b2u(i >= 0)})
		}
		f.regs[in.dst] = v
		f.pc++
	case opMapUpdate:
		m, _ := e.get(f, in.a).p.(*MapObj)
		if m == nil {
			e.rtPanic("assignment to entry in nil map")
			return
		}
		e.raceAcc(m.o, 0, true)
		e.mapSet(m, e.get(f, in.b), e.get(f, in.c))
		f.pc++
	case opRange:
		if in.flag {
			f.regs[in.dst] = Value{p: &strIter{s: e.get(f, in.a)}}
		} else {
			m, _ := e.get(f, in.a).p.(*MapObj)
			it := &mapIter{m: m}
			if m != nil {
				e.raceAcc(m.o, 0, false)
				it.order = e.mapOrder(m)
			}
			f.regs[in.dst] = Value{p: it}
		}
		f.pc++
	case opNext:
		e.execNext(f, in)
	case opTypeAssert:
		e.execTypeAssert(f, in)
	case opExtract:
		t := e.get(f, in.a)
		tp, ok := t.p.(*Tup)
		if !ok {
			if ps, isP := t.p.(*poison); isP {
				e.unsupported("poison: %s", ps.why)
			}
			e.unsupported("extract of %T", t.p)
		}
		f.regs[in.dst] = tp.v[in.n]
		f.pc++
	case opJump:
		e.jump(f, in.a, in.b)
	case opIf:
		e.execIf(f, in)
	case opReturn:
		var v Value
		switch len(in.args) {
		case 0:
		case 1:
			v = e.get(f, in.args[0])
		default:
			t := &Tup{make([]Value, len(in.args))}
			for i, a := range in.args {
				t.v[i] = e.get(f, a)
			}
			v.p = t
		}
		e.ret(g, f, v)
	case opRunDefers:
		if f.defers == nil {
			f.exiting = false
			f.pc++
			return
		}
		d := f.defers
		f.defers = d.next
		f.exiting = true
		e.callDeferred(g, f, d)
	case opPanic:
		v := e.get(f, in.a)
		if v.p == nil {
			e.rtPanic("panic called with nil argument")
			return
		}
		e.startPanic(v, "")
	case opCall:
		fn := in.x.(*Fn)
		e.callFn(g, f, in, fn, nil, e.evalArgs(f, in.args), in.dst)
	case opDyn:
		v := e.get(f, in.a)
		c, ok := v.p.(*Closure)
		if !ok {
			if v.p == nil {
				e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
				return
			}
			e.unsupported("call of %T", v.p)
		}
		if c.intr != nil {
			e.callIntr(g, f, in, c.intr, e.evalArgs(f, in.args), in.dst)
			return
		}
		if c.fn == nil {
			e.unsupported("dynamic call of builtin %s", c.bi)
		}
		e.callFn(g, f, in, c.fn, c.free, e.evalArgs(f, in.args), in.dst)
	case opInvoke:
		recv := e.get(f, in.a)
		i, ok := recv.p.(*Iface)
		if !ok {
			if recv.p == nil {
				e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
				return
			}
			e.unsupported("invoke on %T", recv.p)
		}
		m := in.x.(*types.Func)
		fn := e.p.findMethod(i.t, m)
		if fn == nil {
			e.unsupported("no method %s on %s", m.Name(), i.t.t)
		}
		args := make([]Value, 0, len(in.args)+1)
		args = append(args, i.v)
		for _, a := range in.args {
			args = append(args, e.get(f, a))
		}
		e.callFn(g, f, in, fn, nil, args, in.dst)
	case opBuiltin:
		e.builtin(g, f, in)
	case opGo:
		ci := in.x.(*Inst)
		fnv, args := e.prepCall(f, ci)
		e.spawn(ci, fnv, args)
		f.pc++
	case opDefer:
		ci := in.x.(*Inst)
		fnv, args := e.prepCall(f, ci)
		f.defers = &deferRec{in: ci, fnv: fnv, args: args, next: f.defers}
		f.pc++
	case opSend:
		e.execSend(g, f, in)
	case opRecv:
		e.execRecv(g, f, in)
	case opSelect:
		e.execSelect(g, f, in)
	case opSliceToArr:
		a := e.get(f, in.a)
		s, _ := a.p.(*Slice)
		n := 0
		if s != nil {
			n = s.len
		}
		if n < int(in.n) {
			e.rtPanic("runtime error: cannot convert slice to array pointer: length too short")
			return
		}
		if s == nil {
			f.regs[in.dst] = Value{}
		} else {
			f.regs[in.dst] = Value{p: s.o, n: uint64(s.off)}
		}
		f.pc++
	default:
		e.unsupported("instruction %v", in.x)
	}
}

func (e *Engine) boolEq(x, y *Term) *Term {
	if y.op == OConst {
		x, y = y, x
	}
	if x.op == OConst {
		if x.val == 1 {
			return y
		}
		return e.tc.Not(y)
	}
	return e.tc.Eq(x, y)
}

type Tup struct{ v []Value }

func tup(v ...Value) Value { return Value{p: &Tup{v}} }

func (e *Engine) evalArgs(f *Frame, args []int32) []Value {
	r := make([]Value, len(args))
	for i, a := range args {
		r[i] = e.get(f, a)
	}
	return r
}

func (e *Engine) prepCall(f *Frame, ci *Inst) (Value, []Value) {
	var fnv Value
	switch ci.op {
	case opDyn, opInvoke:
		fnv = e.get(f, ci.a)
	}
	return fnv, e.evalArgs(f, ci.args)
}

func (e *Engine) pushFrame(g *G, fn *Fn, free, args []Value, dst int32, caller *Frame) *Frame {
	fn = e.p.ready(fn)
	if len(fn.code) == 0 {
		e.unsupported("function without body: %s", fn.name)
	}
	e.frameID++
	nf := &Frame{fn: fn, regs: make([]Value, fn.nregs), caller: caller, retDst: dst, epoch: e.serial, id: e.frameID}
	if caller != nil {
		nf.depth = caller.depth + 1
		if nf.depth > 5000 {
			e.violation("stack overflow", fn.name)
		}
	}
	copy(nf.regs, args)
	copy(nf.regs[len(args):], free)
	g.top = nf
	if e.initDepth == 0 && !e.fnsUsed[fn] {
		e.fnsUsed[fn] = true
	}
	return nf
}

func (e *Engine) callFn(g *G, f *Frame, in *Inst, fn *Fn, free, args []Value, dst int32) {
	if fn.model != nil && fn.model != f.fn {
		// a model may call the original by being the caller; otherwise redirect
		fn = fn.model
	}
	if fn.intr != nil {
		e.callIntr(g, f, in, fn.intr, args, dst)
		return
	}
	if e.nskip > 0 && e.opts["skipfn:"+fn.name] > 0 && fn.nres == 0 {
		f.pc++
		return
	}
	if fn.pkgInit && e.initDepth > 0 {
		// imports' initialisers run lazily; explicit init#n functions do run
		if fn.f.Synthetic == "package initializer" {
			f.pc++
			return
		}
	}
	f.pc++
	e.pushFrame(g, fn, free, args, dst, f)
}

func (e *Engine) callIntr(g *G, f *Frame, in *Inst, it *Intrinsic, args []Value, dst int32) {
	c := &CallCtx{e: e, g: g, f: f, in: in, args: args, dst: dst}
	v := it.fn(c)
	if c.blocked || c.handled {
		return
	}
	e.set(f, dst, v)
	f.pc++
}

// ret returns v from f.
func (e *Engine) ret(g *G, f *Frame, v Value) {
	cf := f.caller
	if f.onRet != nil {
		g.top = cf
		fn := f.onRet
		fn(e, v)
		return
	}
	if cf == nil {
		g.top = nil
		e.gDone(g)
		return
	}
	if cf.epoch != e.serial {
		nf := new(Frame)
		*nf = *cf
		nf.regs = append([]Value(nil), cf.regs...)
		nf.epoch = e.serial
		cf = nf
	}
	g.top = cf
	if f.isDefer {
		e.afterDefer(g, cf, f)
		return
	}
	if f.retDst >= 0 {
		cf.regs[f.retDst] = v
	}
}

// callDeferred runs d on behalf of frame f (which stays at its current pc).
func (e *Engine) callDeferred(g *G, f *Frame, d *deferRec) {
	in := d.in
	var fn *Fn
	var free []Value
	args := d.args
	switch in.op {
	case opCall:
		fn = in.x.(*Fn)
	case opDyn:
		c, ok := d.fnv.p.(*Closure)
		if !ok {
			e.startPanicAt(f, "runtime error: invalid memory address or nil pointer dereference")
			return
		}
		fn, free = c.fn, c.free
		if c.intr != nil {
			c2 := &CallCtx{e: e, g: g, f: f, in: in, args: args, dst: noReg, deferred: true}
			c.intr.fn(c2)
			e.afterDefer(g, f, nil)
			return
		}
	case opInvoke:
		i, ok := d.fnv.p.(*Iface)
		if !ok {
			e.startPanicAt(f, "runtime error: invalid memory address or nil pointer dereference")
			return
		}
		fn = e.p.findMethod(i.t, in.x.(*types.Func))
		args = append([]Value{i.v}, args...)
	case opBuiltin:
		e.builtinDeferred(g, f, in, args)
		if g.top == f {
			e.afterDefer(g, f, nil)
		}
		return
	}
	if fn.model != nil {
		fn = fn.model
	}
	if fn.intr != nil {
		c2 := &CallCtx{e: e, g: g, f: f, in: in, args: args, dst: noReg, deferred: true}
		fn.intr.fn(c2)
		if c2.blocked {
			// re-run this deferred call when unblocked
			f.defers = d
			return
		}
		if g.top == f {
			e.afterDefer(g, f, nil)
		}
		return
	}
	nf := e.pushFrame(g, fn, free, args, noReg, f)
	nf.isDefer = true
}

// afterDefer continues the caller after a deferred call completed.
func (e *Engine) afterDefer(g *G, cf *Frame, df *Frame) {
	if cf.panicking {
		e.unwind(g)
		return
	}
	// normal exit: opRunDefers is re-executed for the next deferred call
}

type rtErrT struct{ msg string }

func (e *Engine) rtPanic(msg string) {
	if e.inPure > 0 {
		panic(pureBail{})
	}
	var v Value
	if e.p.rtErr != nil {
		v = Value{p: &Iface{e.p.typeInfo(e.p.rtErr), strVal(msg)}}
	} else {
		v = Value{p: &Iface{e.p.typeInfo(types.Typ[types.String]), strVal(msg)}}
	}
	e.startPanic(v, msg)
}

func (e *Engine) startPanicAt(f *Frame, msg string) { e.rtPanic(msg) }

func (e *Engine) startPanic(v Value, msg string) {
	g := e.cur
	if msg == "" {
		msg = e.panicText(v)
	}
	if e.initDepth > 0 {
		e.unsupported("panic in package init: %s", msg)
	}
	g.pan = &panicRec{val: v, prev: g.pan, rtmsg: msg, where: e.where(), pos: e.curInst.pos}
	g.top.panicking = true
	e.unwind(g)
}

func (e *Engine) panicText(v Value) string {
	i, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	return fmt.Sprintf("%s(%s)", i.t.t.String(), e.show(i.v, i.t.t))
}

// unwind continues panicking in the top frame of g.
func (e *Engine) unwind(g *G) {
	for {
		f := g.top
		if f.epoch != e.serial {
			nf := new(Frame)
			*nf = *f
			nf.regs = append([]Value(nil), f.regs...)
			nf.epoch = e.serial
			g.top = nf
			f = nf
		}
		f.panicking = true
		if g.pan == nil || g.pan.recovered {
			// recovered: leave this frame normally
			if g.pan != nil {
				p := *g.pan.prevOrNil()
				_ = p
				g.pan = g.pan.prev
			}
			f.panicking = false
			if f.defers != nil {
				// remaining deferred calls run in normal mode, then the recover block
				d := f.defers
				f.defers = d.next
				f.exiting = true
				e.unsupportedIfRecoverPending(f)
				e.callDeferredRecovered(g, f, d)
				return
			}
			e.leaveRecovered(g, f)
			return
		}
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			e.callDeferred(g, f, d)
			if g.top != f || !f.panicking {
				return
			}
			return
		}
		// pop
		if f.onRet != nil || f.caller == nil {
			e.uncaught(g)
			return
		}
		if f.isDefer {
			// a deferred call panicked: the caller continues unwinding with the new panic
			g.top = f.caller
			continue
		}
		g.top = f.caller
	}
}

func (p *panicRec) prevOrNil() *panicRec { return p }

func (e *Engine) unsupportedIfRecoverPending(f *Frame) {}

func (e *Engine) callDeferredRecovered(g *G, f *Frame, d *deferRec) {
	// run d, and afterwards come back here: emulate by marking panicking with a recovered record
	g.pan = &panicRec{recovered: true, prev: g.pan}
	f.panicking = true
	e.callDeferred(g, f, d)
}

func (e *Engine) leaveRecovered(g *G, f *Frame) {
	if f.fn.recover >= 0 {
		f.pc = f.fn.blocks[f.fn.recover].start
		return
	}
	var v Value
	res := f.fn.f.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		v = e.p.zero(res.At(0).Type())
	default:
		t := &Tup{}
		for i := 0; i < res.Len(); i++ {
			t.v = append(t.v, e.p.zero(res.At(i).Type()))
		}
		v.p = t
	}
	e.ret(g, f, v)
}

func (e *Engine) uncaught(g *G) {
	p := g.pan
	panic(pathEnd{kind: "violation", msg: "panic: " + p.rtmsg + p.where})
}

// ---- integer ops ----

func intBin(tok token.Token, a, b uint64, w uint8, sg bool) (uint64, bool) {
	switch tok {
	case token.ADD:
		return (a + b) & mask(w), true
	case token.SUB:
		return (a - b) & mask(w), true
	case token.MUL:
		return (a * b) & mask(w), true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		if sg {
			return evalBin(OSDiv, w, a, b), true
		}
		return a / b, true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		if sg {
			return evalBin(OSRem, w, a, b), true
		}
		return a % b, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return a ^ b, true
	case token.AND_NOT:
		return a &^ b, true
	case token.EQL:
		return b2u(a == b), true
	case token.NEQ:
		return b2u(a != b), true
	}
	if sg {
		x, y := sext(a, w), sext(b, w)
		switch tok {
		case token.LSS:
			return b2u(x < y), true
		case token.LEQ:
			return b2u(x <= y), true
		case token.GTR:
			return b2u(x > y), true
		case token.GEQ:
			return b2u(x >= y), true
		}
	}
	switch tok {
	case token.LSS:
		return b2u(a < b), true
	case token.LEQ:
		return b2u(a <= b), true
	case token.GTR:
		return b2u(a > b), true
	case token.GEQ:
		return b2u(a >= b), true
	}
	panic("intBin " + tok.String())
}

func (e *Engine) symBin(in *Inst, a, b Value) (Value, bool) {
	// pointers held in uintptr
	if _, ok := a.p.(*Obj); ok {
		if b.p == nil && b.n == 0 {
			return a, true
		}
		e.unsupported("uintptr arithmetic")
	}
	c := e.tc
	x, y := e.toTerm(a, int(in.w)), e.toTerm(b, int(in.w))
	lt, le := OUlt, OUle
	if in.sg {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.ADD:
		return termVal(c.Bin(OAdd, x, y)), true
	case token.SUB:
		return termVal(c.Bin(OSub, x, y)), true
	case token.MUL:
		return termVal(c.Bin(OMul, x, y)), true
	case token.QUO, token.REM:
		if e.branch(c.Eq(y, c.Const(in.w, 0))) {
			e.rtPanic("runtime error: integer divide by zero")
			return Value{}, false
		}
		op := OUDiv
		switch {
		case in.tok == token.QUO && in.sg:
			op = OSDiv
		case in.tok == token.REM && in.sg:
			op = OSRem
		case in.tok == token.REM:
			op = OURem
		}
		return termVal(c.Bin(op, x, y)), true
	case token.AND:
		return termVal(c.Bin(OBvAnd, x, y)), true
	case token.OR:
		return termVal(c.Bin(OBvOr, x, y)), true
	case token.XOR:
		return termVal(c.Bin(OBvXor, x, y)), true
	case token.AND_NOT:
		return termVal(c.Bin(OBvAnd, x, c.Un(OBvNot, y))), true
	case token.EQL:
		return termVal(c.Eq(x, y)), true
	case token.NEQ:
		return termVal(c.Not(c.Eq(x, y))), true
	case token.LSS:
		return termVal(c.Cmp(lt, x, y)), true
	case token.LEQ:
		return termVal(c.Cmp(le, x, y)), true
	case token.GTR:
		return termVal(c.Cmp(lt, y, x)), true
	case token.GEQ:
		return termVal(c.Cmp(le, y, x)), true
	}
	e.unsupported("symBin %s", in.tok)
	return Value{}, false
}

func (e *Engine) shift(in *Inst, a, b Value) (Value, bool) {
	if b.p == nil {
		if in.flag && sext(b.n, in.w2) < 0 {
			e.rtPanic("runtime error: negative shift amount")
			return Value{}, false
		}
		if a.p == nil {
			op := OShl
			if in.tok == token.SHR {
				op = OLshr
				if in.sg {
					op = OAshr
				}
			}
			return Value{n: evalBin(op, in.w, a.n, b.n)}, true
		}
	}
	c := e.tc
	if in.flag && b.p != nil {
		if e.branch(c.Cmp(OSlt, e.toTerm(b, int(in.w2)), c.Const(in.w2, 0))) {
			e.rtPanic("runtime error: negative shift amount")
			return Value{}, false
		}
	}
	x := e.toTerm(a, int(in.w))
	y := e.toTerm(b, int(in.w2))
	if y.w < x.w {
		y = c.Zext(y, x.w)
	} else if y.w > x.w {
		// saturate
		big := c.Not(c.Cmp(OUlt, y, c.Const(y.w, uint64(x.w))))
		y = c.Ite(big, c.Const(x.w, uint64(x.w)), c.Extract(y, 0, x.w))
	}
	op := OShl
	if in.tok == token.SHR {
		op = OLshr
		if in.sg {
			op = OAshr
		}
	}
	return termVal(c.Bin(op, x, y)), true
}

func (e *Engine) strBin(tok token.Token, a, b Value) Value {
	switch tok {
	case token.ADD:
		return strCat(a, b)
	case token.EQL:
		return termVal(e.strEq(a, b))
	case token.NEQ:
		return termVal(e.tc.Not(e.strEq(a, b)))
	}
	x, ok1 := a.cstr()
	y, ok2 := b.cstr()
	if ok1 && ok2 {
		var r bool
		switch tok {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		}
		return Value{n: b2u(r)}
	}
	switch tok {
	case token.LSS:
		return termVal(e.bytesLess(a.strBytes(), b.strBytes()))
	case token.GTR:
		return termVal(e.bytesLess(b.strBytes(), a.strBytes()))
	case token.LEQ:
		return termVal(e.tc.Not(e.bytesLess(b.strBytes(), a.strBytes())))
	case token.GEQ:
		return termVal(e.tc.Not(e.bytesLess(a.strBytes(), b.strBytes())))
	}
	panic("strBin")
}

func (e *Engine) strEq(a, b Value) *Term {
	if a.strLen() != b.strLen() {
		return e.tc.False
	}
	x, ok1 := a.cstr()
	y, ok2 := b.cstr()
	if ok1 && ok2 {
		return e.tc.Bool(x == y)
	}
	return e.bytesEq(a.strBytes(), b.strBytes())
}

func (e *Engine) bytesEq(a, b []Value) *Term {
	if len(a) != len(b) {
		return e.tc.False
	}
	r := e.tc.True
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if a[i].n != b[i].n {
				return e.tc.False
			}
			continue
		}
		r = e.tc.And(r, e.tc.Eq(e.toTerm(a[i], 8), e.toTerm(b[i], 8)))
		if r == e.tc.False {
			return r
		}
	}
	return r
}

func (e *Engine) bytesLess(a, b []Value) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := e.tc.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := e.toTerm(a[i], 8), e.toTerm(b[i], 8)
		r = e.tc.Or(e.tc.Cmp(OUlt, x, y), e.tc.And(e.tc.Eq(x, y), r))
	}
	return r
}

// eqVals compares two values of static type t.
func (e *Engine) eqVals(a, b Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.strEq(a, b)
		case u.Info()&types.IsFloat != 0:
			return e.tc.Bool(v2f(a) == v2f(b))
		case u.Info()&types.IsBoolean != 0:
			if a.p == nil && b.p == nil {
				return e.tc.Bool(a.n == b.n)
			}
			return e.boolEq(e.toTerm(a, 0), e.toTerm(b, 0))
		}
		if a.p == nil && b.p == nil {
			return e.tc.Bool(a.n == b.n)
		}
		w := intWidth(t)
		_, at := a.p.(*Term)
		_, bt := b.p.(*Term)
		if w > 0 && (at || a.p == nil) && (bt || b.p == nil) {
			return e.tc.Eq(e.toTerm(a, w), e.toTerm(b, w))
		}
		return e.tc.Bool(a.p == b.p && a.n == b.n)
	case *types.Interface:
		i, ok1 := a.p.(*Iface)
		j, ok2 := b.p.(*Iface)
		if !ok1 || !ok2 {
			return e.tc.Bool(a.p == nil && b.p == nil)
		}
		if i.t != j.t {
			return e.tc.False
		}
		if i == j {
			return e.tc.True
		}
		if !types.Comparable(i.t.t) {
			e.rtPanic("runtime error: comparing uncomparable type " + i.t.t.String())
			panic(restartlessPanic{})
		}
		return e.eqVals(i.v, j.v, i.t.t)
	case *types.Struct:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := e.tc.True
		off := 0
		for k := 0; k < u.NumFields(); k++ {
			ft := u.Field(k).Type()
			n := e.p.slotsOf(ft)
			if u.Field(k).Name() != "_" {
				r = e.tc.And(r, e.eqVals(aggSub(x, off, n, ft), aggSub(y, off, n, ft), ft))
			}
			off += n
		}
		return r
	case *types.Array:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := e.tc.True
		n := e.p.slotsOf(u.Elem())
		for k := 0; k < int(u.Len()); k++ {
			r = e.tc.And(r, e.eqVals(aggSub(x, k*n, n, u.Elem()), aggSub(y, k*n, n, u.Elem()), u.Elem()))
		}
		return r
	case *types.Slice:
		// only comparison with nil is legal
		return e.tc.Bool((a.p == nil) == (b.p == nil) && (a.p == nil || a.p == b.p))
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		if _, ok := a.p.(*SymPtr); ok {
			if b.p == nil {
				return e.tc.False
			}
			e.unsupported("symbolic pointer comparison")
		}
		if _, ok := a.p.(*Closure); ok && b.p == nil {
			return e.tc.False
		}
		if a.p == nil || b.p == nil {
			return e.tc.Bool(a.p == nil && b.p == nil)
		}
		return e.tc.Bool(a.p == b.p && a.n == b.n)
	}
	e.unsupported("compare %s", t)
	return nil
}

type restartlessPanic struct{}

// ---- memory ----

func (e *Engine) load(ptr Value, n int, agg bool) (Value, bool) {
	switch p := ptr.p.(type) {
	case *Obj:
		if p.dead != "" {
			e.deadAccess(p)
		}
		off := int(ptr.n)
		if off+n > p.size {
			e.unsupported("load beyond object %s size %d off %d n %d", p.what, p.size, off, n)
		}
		if e.raceOn {
			for i := 0; i < n; i++ {
				e.raceAcc(p, off+i, false)
			}
		}
		if len(p.sym) > 0 {
			return e.loadSymLog(p, off, n, agg), true
		}
		if agg {
			a := &Agg{make([]Value, n)}
			if p.slots != nil {
				copy(a.v, p.slots[off:off+n])
			} else {
				for i := 0; i < n; i++ {
					a.v[i] = p.get(off + i)
				}
			}
			return Value{p: a}, true
		}
		return p.get(off), true
	case nil:
		if ptr.n == 0 {
			e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			return Value{}, false
		}
	case *SymPtr:
		return e.loadSym(p, n, agg), true
	case *poison:
		e.unsupported("load through poison: %s", p.why)
	}
	e.unsupported("load through %T", ptr.p)
	return Value{}, false
}

func (e *Engine) deadAccess(p *Obj) {
	panic(pathEnd{kind: "violation", msg: "use-after-free: access to " + p.dead + e.where()})
}

func (e *Engine) storePtr(ptr, v Value, n int, agg bool) bool {
	switch p := ptr.p.(type) {
	case *Obj:
		if p.dead != "" {
			e.deadAccess(p)
		}
		if p.ro {
			panic(pathEnd{kind: "violation", msg: "fault: write to read-only memory " + p.what + e.where()})
		}
		off := int(ptr.n)
		if off+n > p.size {
			e.unsupported("store beyond object %s", p.what)
		}
		if e.inPure > 0 {
			panic(pureBail{})
		}
		if e.raceOn {
			for i := 0; i < n; i++ {
				e.raceAcc(p, off+i, true)
			}
		}
		if len(p.sym) > 0 {
			s0 := &p.sym[0]
			if off+n > s0.base && off < s0.base+s0.n*s0.stride {
				if n == 1 && !agg && s0.stride == 1 && (v.p != nil || s0.n > bigArray) {
					if !isScalar(v) || s0.n > bigArray {
						k := len(p.sym)
						p.sym = append(p.sym[:k:k], symWrite{s0.base, 1, s0.n, e.tc.Const(s0.idx.w, uint64(off-s0.base)), v})
						e.onUndo(func() { p.sym = p.sym[:k:k] })
						return true
					}
				}
				e.flattenSym(p)
			}
		}
		if agg {
			a, ok := v.p.(*Agg)
			if !ok {
				e.unsupported("store of non-aggregate %T", v.p)
			}
			for i := 0; i < n; i++ {
				e.store(p, off+i, a.v[i])
			}
			return true
		}
		e.store(p, off, v)
		return true
	case nil:
		e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		return false
	case *SymPtr:
		e.storeSym(p, v, n, agg)
		return true
	case *poison:
		e.unsupported("store through poison: %s", p.why)
	}
	e.unsupported("store through %T", ptr.p)
	return false
}

func (e *Engine) idxCheck(v Value, w uint8, sg bool, n int) (idx int, sym *Term, ok bool) {
	if v.p == nil {
		i := v.n
		if sg {
			if s := sext(v.n, w); s < 0 || s >= int64(n) {
				e.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", s, n))
				return 0, nil, false
			}
		} else if i >= uint64(n) {
			e.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
			return 0, nil, false
		}
		return int(i), nil, true
	}
	t := e.toTerm(v, int(w))
	inb := e.tc.True
	if !(w < 64 && uint64(n) > mask(w)) {
		// unsigned comparison also catches negative signed values
		inb = e.tc.Cmp(OUlt, t, e.tc.Const(w, uint64(n)))
	} else if sg {
		inb = e.tc.Cmp(OSle, e.tc.Const(w, 0), t)
	}
	if !e.branch(inb) {
		e.rtPanic(fmt.Sprintf("runtime error: index out of range [symbolic] with length %d", n))
		return 0, nil, false
	}
	return 0, t, true
}

func (e *Engine) execIndexAddr(f *Frame, in *Inst) {
	a := e.get(f, in.a)
	var o *Obj
	off, n := 0, 0
	switch in.w {
	case 1:
		switch p := a.p.(type) {
		case *Obj:
			o = p
			off = int(a.n)
			n = in.x.(int)
		case nil:
			e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			return
		case *SymPtr:
			// array inside a symbolically indexed element: concretise the outer index
			k := e.concretize(termVal(p.idx))
			o = p.o
			off = p.base + int(k)*p.stride
			n = in.x.(int)
		default:
			e.unsupported("indexaddr of %T", a.p)
		}
	case 2:
		s, ok := a.p.(*Slice)
		if ok {
			o, off, n = s.o, s.off, s.len
		} else if a.p != nil {
			e.unsupported("indexaddr of %T", a.p)
		}
	}
	i, sym, ok := e.idxCheck(e.get(f, in.b), in.w2, in.flag, n)
	if !ok {
		return
	}
	if sym != nil {
		f.regs[in.dst] = Value{p: &SymPtr{o: o, base: off, stride: int(in.n), n: n, idx: sym}}
	} else {
		f.regs[in.dst] = Value{p: o, n: uint64(off + i*int(in.n))}
	}
	f.pc++
}

func (e *Engine) execIndex(f *Frame, in *Inst) {
	a := e.get(f, in.a)
	if in.w == 3 {
		n := a.strLen()
		i, sym, ok := e.idxCheck(e.get(f, in.b), in.w2, in.flag, n)
		if !ok {
			return
		}
		if sym != nil {
			f.regs[in.dst] = e.selectVals(a.strBytes(), sym)
		} else {
			f.regs[in.dst] = a.strAt(i)
		}
		f.pc++
		return
	}
	ag := a.p.(*Agg)
	n := in.x.(int)
	i, sym, ok := e.idxCheck(e.get(f, in.b), in.w2, in.flag, n)
	if !ok {
		return
	}
	if sym != nil {
		if in.n == 1 {
			f.regs[in.dst] = e.selectVals(ag.v[:n], sym)
			f.pc++
			return
		}
		i = int(e.concretize(termVal(sym)))
	}
	f.regs[in.dst] = aggSub(ag, i*int(in.n), int(in.n), in.t)
	f.pc++
}

// selectVals builds the value of vals[idx] (idx in range).
func (e *Engine) selectVals(vals []Value, idx *Term) Value {
	// restrict to feasible indices when the domain is known
	feas := func(i int) bool { return true }
	if idx.supp >= 0 && e.domOK[idx.supp] {
		set := map[uint64]bool{}
		d := e.dom[idx.supp]
		m := make([]uint64, idx.supp+1)
		for x := uint64(0); x < 256; x++ {
			if domHas(&d, x) {
				m[idx.supp] = x
				e.tc.bumpModel()
				set[e.tc.eval(idx, m)] = true
			}
		}
		e.tc.bumpModel()
		feas = func(i int) bool { return set[uint64(i)] }
	}
	type group struct {
		v    Value
		idxs []int
	}
	var groups []*group
	find := map[Value]*group{}
	for i, v := range vals {
		if !feas(i) {
			continue
		}
		k := v
		g := find[k]
		if g == nil {
			g = &group{v: v}
			find[k] = g
			groups = append(groups, g)
		}
		g.idxs = append(g.idxs, i)
	}
	if len(groups) == 0 {
		e.unsupported("select with no feasible index")
	}
	if len(groups) == 1 {
		return groups[0].v
	}
	scalar := true
	w := -1
	for _, g := range groups {
		switch p := g.v.p.(type) {
		case nil:
		case *Term:
			w = int(p.w)
		default:
			scalar = false
		}
	}
	cond := func(g *group) *Term {
		c := e.tc.False
		for i := 0; i < len(g.idxs); {
			j := i
			for j+1 < len(g.idxs) && g.idxs[j+1] == g.idxs[j]+1 {
				j++
			}
			lo, hi := e.tc.Const(idx.w, uint64(g.idxs[i])), e.tc.Const(idx.w, uint64(g.idxs[j]))
			var t *Term
			if i == j {
				t = e.tc.Eq(idx, lo)
			} else {
				t = e.tc.And(e.tc.Cmp(OUle, lo, idx), e.tc.Cmp(OUle, idx, hi))
			}
			c = e.tc.Or(c, t)
			i = j + 1
		}
		return c
	}
	// the most frequent value is the default
	best := 0
	for i, g := range groups {
		if len(g.idxs) > len(groups[best].idxs) {
			best = i
		}
	}
	groups[0], groups[best] = groups[best], groups[0]
	isPtr := false
	for _, g := range groups {
		if g.v.p != nil {
			if _, ok := g.v.p.(*Term); !ok {
				isPtr = true
			}
		}
	}
	_ = scalar
	if isPtr || len(groups) > 64 && e.inPure == 0 {
		for _, g := range groups[1:] {
			if e.branch(cond(g)) {
				return g.v
			}
		}
		return groups[0].v
	}
	if w < 0 {
		w = e.curScalarWidth()
	}
	r := e.toTerm(groups[0].v, w)
	for _, g := range groups[1:] {
		r = e.tc.Ite(cond(g), e.toTerm(g.v, w), r)
	}
	return termVal(r)
}

// curScalarWidth is the width of the scalar loaded by the current instruction.
func (e *Engine) curScalarWidth() int {
	in := e.curInst
	switch in.op {
	case opLoad, opIndex:
		if in.t != nil {
			if w := intWidth(in.t); w >= 0 {
				return w
			}
			if isString(in.t) {
				return 8
			}
		}
		if in.op == opIndex && in.w == 3 {
			return 8
		}
	}
	e.unsupported("symbolic select of unknown width (%v)", in.t)
	return 0
}

func (e *Engine) loadSym(p *SymPtr, n int, agg bool) Value {
	if p.o.dead != "" {
		e.deadAccess(p.o)
	}
	if agg || n != 1 {
		k := e.concretize(termVal(p.idx))
		v, _ := e.load(Value{p: p.o, n: uint64(p.base + int(k)*p.stride)}, n, agg)
		return v
	}
	if len(p.o.sym) > 0 {
		if s := &p.o.sym[0]; s.base != p.base || s.stride != p.stride {
			e.flattenSym(p.o)
		} else if p.n > bigArray {
			return e.loadBig(p.o, p.idx)
		} else if v, ok := e.loggedVal(p.o, p.idx); ok {
			return v
		}
	}
	if p.n > bigArray && p.o.slots == nil && p.base == 0 && p.stride == 1 {
		return e.loadBig(p.o, p.idx)
	}
	vals := make([]Value, p.n)
	for i := 0; i < p.n; i++ {
		vals[i] = p.o.get(p.base + i*p.stride)
	}
	if e.raceOn {
		for i := 0; i < p.n; i++ {
			e.raceAcc(p.o, p.base+i*p.stride, false)
		}
	}
	return e.selectVals(vals, p.idx)
}

const bigArray = 4096

// loadBig reads a huge, mostly zero array of integers at a symbolic index.
func (e *Engine) loadBig(o *Obj, idx *Term) Value {
	w := e.curScalarWidth()
	r := e.tc.Const(uint8(w), 0)
	for pi, pg := range o.pages {
		if pg == nil {
			continue
		}
		for k, v := range pg {
			if v.n == 0 && v.p == nil {
				continue
			}
			r = e.tc.Ite(e.tc.Eq(idx, e.tc.Const(idx.w, uint64(pi*pageSize+k))), e.toTerm(v, w), r)
		}
	}
	for i := range o.sym {
		s := &o.sym[i]
		r = e.tc.Ite(e.tc.Eq(s.idx, idx), e.toTerm(s.v, w), r)
	}
	return termVal(r)
}

// loggedVal resolves a read at idx against the write log: one branch per distinct value written.
func (e *Engine) loggedVal(o *Obj, idx *Term) (Value, bool) {
	var vals []Value
	guard := map[Value]*Term{}
	free := e.tc.True
	for i := len(o.sym) - 1; i >= 0; i-- {
		s := &o.sym[i]
		eq := e.tc.Eq(s.idx, idx)
		g := e.tc.And(free, eq)
		free = e.tc.And(free, e.tc.Not(eq))
		if old, ok := guard[s.v]; ok {
			g = e.tc.Or(old, g)
		} else {
			vals = append(vals, s.v)
		}
		guard[s.v] = g
	}
	for _, v := range vals {
		if e.branch(guard[v]) {
			return v, true
		}
	}
	return Value{}, false
}

func (e *Engine) storeSym(p *SymPtr, v Value, n int, agg bool) {
	if e.inPure > 0 {
		panic(pureBail{})
	}
	if p.o.dead != "" {
		e.deadAccess(p.o)
	}
	// single feasible index?
	if p.idx.supp >= 0 && e.domOK[p.idx.supp] {
		d := e.dom[p.idx.supp]
		if domCount(&d) == 1 {
			k := e.concretize(termVal(p.idx))
			e.storePtr(Value{p: p.o, n: uint64(p.base + int(k)*p.stride)}, v, n, agg)
			return
		}
	}
	// scalar terms: if-then-else update for small arrays
	if n == 1 && !agg && p.n <= 64 {
		_, isT := v.p.(*Term)
		if v.p == nil || isT {
			ok := true
			w := -1
			if isT {
				w = int(v.p.(*Term).w)
			}
			for i := 0; i < p.n; i++ {
				o := p.o.get(p.base + i*p.stride)
				if t, k := o.p.(*Term); k {
					w = int(t.w)
				} else if o.p != nil {
					ok = false
				}
			}
			if w < 0 {
				w = e.storeWidth()
			}
			if ok && w >= 0 && len(p.o.sym) == 0 {
				nv := e.toTerm(v, w)
				for i := 0; i < p.n; i++ {
					off := p.base + i*p.stride
					o := e.toTerm(p.o.get(off), w)
					e.store(p.o, off, termVal(e.tc.Ite(e.tc.Eq(p.idx, e.tc.Const(p.idx.w, uint64(i))), nv, o)))
				}
				return
			}
		}
	}
	if n == 1 && !agg && p.n > bigArray && p.o.slots == nil && p.base == 0 && p.stride == 1 && isScalar(v) {
		o := p.o
		k := len(o.sym)
		o.sym = append(o.sym[:k:k], symWrite{0, 1, p.n, p.idx, v})
		e.onUndo(func() { o.sym = o.sym[:k:k] })
		return
	}
	if n == 1 && !agg {
		if v.p != nil {
			if _, isT := v.p.(*Term); !isT {
				// pointer-like value: write log
				o := p.o
				if len(o.sym) == 0 || (o.sym[0].base == p.base && o.sym[0].stride == p.stride) {
					k := len(o.sym)
					o.sym = append(o.sym[:k:k], symWrite{p.base, p.stride, p.n, p.idx, v})
					e.onUndo(func() { o.sym = o.sym[:k:k] })
					return
				}
			}
		}
	}
	k := e.concretize(termVal(p.idx))
	e.storePtr(Value{p: p.o, n: uint64(p.base + int(k)*p.stride)}, v, n, agg)
}

func isScalar(v Value) bool {
	if v.p == nil {
		return true
	}
	_, ok := v.p.(*Term)
	return ok
}

func (e *Engine) storeWidth() int {
	return -1
}

// flattenSym resolves the symbolic write log of o by concretising the indices.
func (e *Engine) flattenSym(o *Obj) {
	old := o.sym
	var ks []int
	for _, s := range old {
		ks = append(ks, int(e.concretize(termVal(s.idx))))
	}
	o.sym = nil
	e.onUndo(func() { o.sym = old })
	for i, s := range old {
		e.store(o, s.base+ks[i]*s.stride, s.v)
	}
}

func (e *Engine) loadSymLog(o *Obj, off, n int, agg bool) Value {
	s0 := &o.sym[0]
	if off+n <= s0.base || off >= s0.base+s0.n*s0.stride {
		save := o.sym
		o.sym = nil
		v, _ := e.load(Value{p: o, n: uint64(off)}, n, agg)
		o.sym = save
		return v
	}
	if n == 1 && !agg && s0.stride == 1 && s0.n > bigArray {
		save := o.sym
		o.sym = nil
		v, _ := e.load(Value{p: o, n: uint64(off)}, n, agg)
		o.sym = save
		w := e.curScalarWidth()
		r := e.toTerm(v, w)
		for i := range o.sym {
			s := &o.sym[i]
			r = e.tc.Ite(e.tc.Eq(s.idx, e.tc.Const(s.idx.w, uint64(off))), e.toTerm(s.v, w), r)
		}
		return termVal(r)
	}
	if n == 1 && !agg && s0.stride == 1 {
		if v, ok := e.loggedVal(o, e.tc.Const(s0.idx.w, uint64(off-s0.base))); ok {
			return v
		}
		return o.get(off)
	}
	e.flattenSym(o)
	v, _ := e.load(Value{p: o, n: uint64(off)}, n, agg)
	return v
}

// ---- slices ----

func (e *Engine) execSlice(f *Frame, in *Inst) {
	a := e.get(f, in.a)
	arg := func(i int, def int) (int, bool) {
		if in.args[i] == noReg {
			return def, false
		}
		return int(int64(e.concretize(e.get(f, in.args[i])))), true
	}
	switch in.w {
	case 3:
		n := a.strLen()
		lo, _ := arg(0, 0)
		hi, _ := arg(1, n)
		if hi < 0 || hi > n {
			e.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", hi, n))
			return
		}
		if lo < 0 || lo > hi {
			e.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
			return
		}
		f.regs[in.dst] = strSub(a, lo, hi)
	case 1, 2:
		var o *Obj
		off, n, cp := 0, 0, 0
		if in.w == 1 {
			switch p := a.p.(type) {
			case *Obj:
				o = p
				off = int(a.n)
			case nil:
				e.rtPanic("runtime error: invalid memory address or nil pointer dereference")
				return
			default:
				e.unsupported("slice of %T", a.p)
			}
			n = in.x.(int)
			cp = n
			// an array pointer obtained through unsafe may claim more than the object holds
			if in.n > 0 && off+n*int(in.n) > o.size {
				cp = n
			}
		} else if s, ok := a.p.(*Slice); ok {
			o, off, n, cp = s.o, s.off, s.len, s.cap
		} else if a.p != nil {
			e.unsupported("slice of %T", a.p)
		}
		lo, _ := arg(0, 0)
		hi, _ := arg(1, n)
		mx, has := arg(2, cp)
		if has && (mx < 0 || mx > cp) {
			e.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [::%d] with capacity %d", mx, cp))
			return
		}
		if hi < 0 || hi > mx {
			e.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", hi, mx))
			return
		}
		if lo < 0 || lo > hi {
			e.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
			return
		}
		if o == nil {
			f.regs[in.dst] = Value{}
		} else {
			f.regs[in.dst] = Value{p: &Slice{o: o, off: off + lo*int(in.n), len: hi - lo, cap: mx - lo, es: int(in.n)}}
		}
	}
	f.pc++
}

func (e *Engine) sliceVals(v Value) []Value {
	s, ok := v.p.(*Slice)
	if !ok {
		if v.p != nil {
			e.unsupported("sliceVals of %T", v.p)
		}
		return nil
	}
	if s.o.dead != "" {
		e.deadAccess(s.o)
	}
	n := s.len * s.es
	if s.off+n > s.o.size {
		e.unsupported("slice beyond object")
	}
	if len(s.o.sym) > 0 {
		e.flattenSym(s.o)
	}
	r := make([]Value, n)
	if s.o.slots != nil {
		copy(r, s.o.slots[s.off:s.off+n])
	} else {
		for i := 0; i < n; i++ {
			r[i] = s.o.get(s.off + i)
		}
	}
	if e.raceOn {
		for i := 0; i < n; i++ {
			e.raceAcc(s.o, s.off+i, false)
		}
	}
	return r
}

func (e *Engine) newSlice(vals []Value, es int) Value {
	o := e.newObj(len(vals), "slice")
	for i, v := range vals {
		o.setRaw(i, v)
	}
	n := len(vals) / es
	return Value{p: &Slice{o: o, len: n, cap: n, es: es}}
}

func (e *Engine) appendVals(a Value, vals []Value, es int) Value {
	s, _ := a.p.(*Slice)
	if s == nil {
		if len(vals) == 0 {
			return a
		}
		s = &Slice{es: es}
	}
	if es == 0 {
		// zero-size elements: vals carries no slots; caller passes count via len
		e.unsupported("append of zero-size elements")
	}
	n := len(vals) / es
	if s.len+n <= s.cap {
		o := s.o
		if o.dead != "" {
			e.deadAccess(o)
		}
		if len(o.sym) > 0 {
			e.flattenSym(o)
		}
		base := s.off + s.len*es
		for i, v := range vals {
			if e.raceOn {
				e.raceAcc(o, base+i, true)
			}
			e.store(o, base+i, v)
		}
		return Value{p: &Slice{o: o, off: s.off, len: s.len + n, cap: s.cap, es: es}}
	}
	nc := s.cap * 2
	if s.cap >= 256 {
		nc = s.cap + (s.cap+3*256)/4
	}
	if nc < s.len+n {
		nc = s.len + n
	}
	if es == 1 && nc < 8 {
		nc = 8
	}
	o := e.newObj(nc*es, "slice")
	if s.o != nil {
		old := e.sliceVals(Value{p: s})
		for i, v := range old {
			o.setRaw(i, v)
		}
	}
	for i, v := range vals {
		o.setRaw(s.len*es+i, v)
	}
	return Value{p: &Slice{o: o, len: s.len + n, cap: nc, es: es}}
}

// ---- iteration ----

type strIter struct {
	s   Value
	pos int
}

type mapIter struct {
	m     *MapObj
	order []int
	i     int
}

func (e *Engine) mapOrder(m *MapObj) []int {
	var live []int
	for i := range m.ents {
		if !m.ents[i].dead {
			live = append(live, i)
		}
	}
	if e.opts["maporder"] > 0 && len(live) > 1 && len(live) <= e.opts["maporder"] && !e.curFrame.fn.norace {
		// any permutation
		var out []int
		rest := live
		for len(rest) > 1 {
			k := e.pickFree(len(rest))
			out = append(out, rest[k])
			rest = append(append([]int(nil), rest[:k]...), rest[k+1:]...)
		}
		return append(out, rest...)
	}
	return live
}

func (e *Engine) execNext(f *Frame, in *Inst) {
	v := e.get(f, in.a)
	if in.flag {
		it := v.p.(*strIter)
		n := it.s.strLen()
		if it.pos >= n {
			f.regs[in.dst] = tup(Value{}, Value{}, Value{})
			f.pc++
			return
		}
		r, sz := e.decodeRune(it.s, it.pos)
		// iterators are mutable: replace in register
		f.regs[in.dst] = tup(Value{n: 1}, Value{n: uint64(it.pos)}, r)
		f.regs[in.a] = Value{p: &strIter{s: it.s, pos: it.pos + sz}}
		f.pc++
		return
	}
	it := v.p.(*mapIter)
	tt := in.t.(*types.Tuple)
	i := it.i
	for it.m != nil && i < len(it.order) && (it.order[i] >= len(it.m.ents) || it.m.ents[it.order[i]].dead) {
		i++
	}
	if it.m == nil || i >= len(it.order) {
		f.regs[in.dst] = tup(Value{}, zeroOf(e, tt.At(1).Type()), zeroOf(e, tt.At(2).Type()))
		f.pc++
		return
	}
	en := it.m.ents[it.order[i]]
	f.regs[in.dst] = tup(Value{n: 1}, en.k, en.v)
	f.regs[in.a] = Value{p: &mapIter{m: it.m, order: it.order, i: i + 1}}
	f.pc++
}

func zeroOf(e *Engine, t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return e.p.zero(t)
}

// decodeRune decodes the rune of s at i, forking on symbolic bytes.
func (e *Engine) decodeRune(s Value, i int) (Value, int) {
	if c, ok := s.p.(string); ok {
		for k, r := range c[i:] {
			_ = k
			n := 1
			if r == 0xFFFD {
				if len(c) >= i+3 && c[i:i+3] == "\uFFFD" {
					n = 3
				}
			} else {
				n = len(string(r))
			}
			return Value{n: uint64(uint32(r))}, n
		}
	}
	b := s.strBytes()[i:]
	return e.decodeBytes(b)
}

func (e *Engine) decodeBytes(b []Value) (Value, int) {
	tc := e.tc
	bad := Value{n: 0xFFFD}
	b0 := e.toTerm(b[0], 8)
	in := func(t *Term, lo, hi uint64) *Term {
		return tc.And(tc.Cmp(OUle, tc.Const(8, lo), t), tc.Cmp(OUle, t, tc.Const(8, hi)))
	}
	if e.branch(tc.Cmp(OUlt, b0, tc.Const(8, 0x80))) {
		return termVal(tc.Zext(b0, 32)), 1
	}
	if !e.branch(in(b0, 0xC2, 0xF4)) {
		return bad, 1
	}
	z := func(t *Term, m uint64, sh uint64) *Term {
		return tc.Bin(OShl, tc.Zext(tc.Bin(OBvAnd, t, tc.Const(8, m)), 32), tc.Const(32, sh))
	}
	or := func(ts ...*Term) Value {
		r := ts[0]
		for _, t := range ts[1:] {
			r = tc.Bin(OBvOr, r, t)
		}
		return termVal(r)
	}
	if len(b) < 2 {
		return bad, 1
	}
	b1 := e.toTerm(b[1], 8)
	if e.branch(tc.Cmp(OUle, b0, tc.Const(8, 0xDF))) {
		if !e.branch(in(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(z(b0, 0x1F, 6), z(b1, 0x3F, 0)), 2
	}
	if e.branch(tc.Cmp(OUle, b0, tc.Const(8, 0xEF))) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.branch(tc.Eq(b0, tc.Const(8, 0xE0))) {
			lo = 0xA0
		} else if e.branch(tc.Eq(b0, tc.Const(8, 0xED))) {
			hi = 0x9F
		}
		if !e.branch(in(b1, lo, hi)) || len(b) < 3 {
			return bad, 1
		}
		b2 := e.toTerm(b[2], 8)
		if !e.branch(in(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		return or(z(b0, 0x0F, 12), z(b1, 0x3F, 6), z(b2, 0x3F, 0)), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if e.branch(tc.Eq(b0, tc.Const(8, 0xF0))) {
		lo = 0x90
	} else if e.branch(tc.Eq(b0, tc.Const(8, 0xF4))) {
		hi = 0x8F
	}
	if !e.branch(in(b1, lo, hi)) || len(b) < 4 {
		return bad, 1
	}
	b2, b3 := e.toTerm(b[2], 8), e.toTerm(b[3], 8)
	if !e.branch(in(b2, 0x80, 0xBF)) || !e.branch(in(b3, 0x80, 0xBF)) {
		return bad, 1
	}
	return or(z(b0, 0x07, 18), z(b1, 0x3F, 12), z(b2, 0x3F, 6), z(b3, 0x3F, 0)), 4
}

// encodeRune appends the UTF-8 bytes of r, forking on its size class.
func (e *Engine) encodeRune(out []Value, r Value) []Value {
	t := r.term()
	if t == nil {
		for _, b := range []byte(string(rune(int32(uint32(r.n))))) {
			out = append(out, Value{n: uint64(b)})
		}
		return out
	}
	tc := e.tc
	w := t.w
	lt := func(n uint64) bool { return e.branch(tc.Cmp(OUlt, t, tc.Const(w, n))) }
	by := func(sh uint64, or, m uint64) Value {
		x := tc.Extract(tc.Bin(OLshr, t, tc.Const(w, sh)), 0, 8)
		return termVal(tc.Bin(OBvOr, tc.Bin(OBvAnd, x, tc.Const(8, m)), tc.Const(8, or)))
	}
	if lt(0x80) {
		return append(out, termVal(tc.Extract(t, 0, 8)))
	}
	if lt(0x800) {
		return append(out, by(6, 0xC0, 0x1F), by(0, 0x80, 0x3F))
	}
	bad := []Value{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
	if !lt(0x110000) {
		return append(out, bad...)
	}
	if lt(0x10000) {
		if !lt(0xD800) && lt(0xE000) {
			return append(out, bad...)
		}
		return append(out, by(12, 0xE0, 0x0F), by(6, 0x80, 0x3F), by(0, 0x80, 0x3F))
	}
	return append(out, by(18, 0xF0, 0x07), by(12, 0x80, 0x3F), by(6, 0x80, 0x3F), by(0, 0x80, 0x3F))
}

// ---- type assertion ----

func (e *Engine) execTypeAssert(f *Frame, in *Inst) {
	v := e.get(f, in.a)
	i, ok := v.p.(*Iface)
	if v.p != nil && !ok {
		e.unsupported("type assert on %T %v", v.p, v.p)
	}
	match := false
	var res Value
	if ok {
		if in.w == 1 {
			match = e.p.implements(i.t, in.x.(*types.Interface))
			res = v
		} else {
			match = i.t == in.x.(*TypeInfo)
			res = i.v
		}
	}
	if in.flag {
		if !match {
			res = e.p.zero(in.t)
		}
		f.regs[in.dst] = tup(res, Value{n: b2u(match)})
		f.pc++
		return
	}
	if !match {
		dyn := "nil"
		if ok {
			dyn = i.t.t.String()
		}
		e.rtPanic("interface conversion: interface is " + dyn + ", not " + in.t.String())
		return
	}
	f.regs[in.dst] = res
	f.pc++
}

// ---- conversions ----

func (e *Engine) convert(in *Inst, v Value) Value {
	if ps, ok := v.p.(*poison); ok {
		e.unsupported("convert poison: %s", ps.why)
	}
	switch convKind(in.n) {
	case cvIntInt:
		if v.p == nil {
			if in.sg {
				return Value{n: uint64(sext(v.n, in.w)) & mask(in.w2)}
			}
			return Value{n: v.n & mask(in.w2)}
		}
		if _, ok := v.p.(*Obj); ok {
			return v
		}
		t := e.toTerm(v, int(in.w))
		switch {
		case in.w2 == in.w:
			return v
		case in.w2 < in.w:
			return termVal(e.tc.Extract(t, 0, in.w2))
		case in.sg:
			return termVal(e.tc.Sext(t, in.w2))
		default:
			return termVal(e.tc.Zext(t, in.w2))
		}
	case cvIntFloat:
		if v.p != nil {
			v = Value{n: e.concretize(v)}
		}
		var r float64
		if in.sg {
			r = float64(sext(v.n, in.w))
		} else {
			r = float64(v.n)
		}
		if in.flag {
			r = float64(float32(r))
		}
		return f2v(r)
	case cvFloatInt:
		x := v2f(v)
		if in.flag {
			return Value{n: uint64(int64(x)) & mask(in.w2)}
		}
		if x >= math.MaxInt64 {
			return Value{n: uint64(x) & mask(in.w2)}
		}
		return Value{n: uint64(int64(x)) & mask(in.w2)}
	case cvFloatFloat:
		if in.flag {
			return f2v(float64(float32(v2f(v))))
		}
		return v
	case cvIntStr:
		if v.p == nil {
			x := sext(v.n, in.w)
			if !in.sg {
				x = int64(v.n)
			}
			if x < 0 || x > 0x10FFFF {
				x = 0xFFFD
			}
			return strVal(string(rune(x)))
		}
		return mkStr(e.encodeRune(nil, v))
	case cvStrBytes:
		b := v.strBytes()
		return e.newSlice(append([]Value(nil), b...), 1)
	case cvBytesStr:
		return mkStr(e.sliceVals(v))
	case cvStrRunes:
		var out []Value
		n := v.strLen()
		for i := 0; i < n; {
			r, sz := e.decodeRune(v, i)
			out = append(out, r)
			i += sz
		}
		return e.newSlice(out, 1)
	case cvRunesStr:
		var out []Value
		for _, r := range e.sliceVals(v) {
			out = e.encodeRune(out, r)
		}
		return mkStr(out)
	}
	e.unsupported("conversion")
	return Value{}
}

func (f *Fn) ssaf() *ssa.Function { return f.f }

// reinterpret copies the integers from a pointer to the end of its object into an object of integers
// of another width, little-endian. It is a copy: a program that writes through the result is not modelled.
func (e *Engine) reinterpret(v Value, sw, dw int) Value {
	o, ok := v.p.(*Obj)
	if !ok {
		e.unsupported("reinterpreting %T", v.p)
	}
	if o.dead != "" {
		e.deadAccess(o)
	}
	if len(o.sym) > 0 {
		e.flattenSym(o)
	}
	off := int(v.n)
	n := o.size - off
	if n > 1<<20 {
		e.unsupported("reinterpreting a large object")
	}
	var out []Value
	if sw > dw {
		k := sw / dw
		for i := 0; i < n; i++ {
			x := o.get(off + i)
			for j := 0; j < k; j++ {
				if t, ok := x.p.(*Term); ok {
					out = append(out, termVal(e.tc.Extract(t, uint8(j*dw), uint8(dw))))
				} else {
					out = append(out, Value{n: x.n >> uint(j*dw) & (1<<uint(dw) - 1)})
				}
			}
		}
	} else {
		k := dw / sw
		for i := 0; i+k <= n; i += k {
			var t *Term
			c := uint64(0)
			for j := k - 1; j >= 0; j-- {
				x := o.get(off + i + j)
				if xt, ok := x.p.(*Term); ok {
					y := e.tc.Bin(OShl, e.tc.Zext(xt, uint8(dw)), e.tc.Const(uint8(dw), uint64(j*sw)))
					if t == nil {
						t = y
					} else {
						t = e.tc.Bin(OBvOr, t, y)
					}
				} else {
					c |= x.n & (1<<uint(sw) - 1) << uint(j*sw)
				}
			}
			if t == nil {
				out = append(out, Value{n: c})
			} else {
				out = append(out, termVal(e.tc.Bin(OBvOr, t, e.tc.Const(uint8(dw), c))))
			}
		}
	}
	r := e.newObj(len(out), "reinterpreted")
	for i, x := range out {
		r.setRaw(i, x)
	}
	return Value{p: r}
}

// ---- where forks happen (GOSYM_FORKPROF=1) ----

var (
	forkProf = os.Getenv("GOSYM_FORKPROF") != ""
	forkMu   sync.Mutex
	forkN    = map[string]int{}
)

func noteFork(s string) {
	forkMu.Lock()
	forkN[s]++
	forkMu.Unlock()
}

func printForks() {
	if !forkProf {
		return
	}
	var ks []string
	for k := range forkN {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkN[ks[i]] > forkN[ks[j]] })
	for i, k := range ks {
		if i > 20 {
			break
		}
		fmt.Fprintf(os.Stderr, "forks %d%s\n", forkN[k], k)
	}
}
