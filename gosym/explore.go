package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

type job struct {
	prefix []int32
	model  []uint64
}

type Shared struct {
	p    *Program
	opt  *Options
	main *Fn

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []job
	active  int
	idle    int32
	stop    int32
	timeout bool

	viol    []*Violation
	violKey map[string]bool
	incompl map[string]int
	bounds  map[string]int
	reached map[string]int
	shapes  map[string]int
	stats   Stats
	fns     map[*Fn]bool
	qs      [4]int
	solTime time.Duration
	xq      int
	nvars   int
	unconf  []string
	ndone   int
	samples [][]VarVal
	rnd     *rand.Rand
}

func newShared(p *Program, opt *Options, main *Fn) *Shared {
	s := &Shared{p: p, opt: opt, main: main, violKey: map[string]bool{}, incompl: map[string]int{}, bounds: map[string]int{}, reached: map[string]int{}, shapes: map[string]int{}, fns: map[*Fn]bool{}}
	s.cond = sync.NewCond(&s.mu)
	s.rnd = rand.New(rand.NewSource(opt.seed + 1))
	return s
}

func (s *Shared) nextSerial(e *Engine) uint32 { return e.serial + 1 }

func (s *Shared) stopped() bool {
	if atomic.LoadInt32(&s.stop) != 0 {
		return true
	}
	if time.Now().After(s.opt.deadline) {
		s.mu.Lock()
		s.timeout = true
		s.mu.Unlock()
		atomic.StoreInt32(&s.stop, 1)
		s.cond.Broadcast()
		return true
	}
	return false
}

func (s *Shared) incomplete(msg string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.incompl) < 200 || s.incompl[msg] > 0 {
		s.incompl[msg]++
	}
}

func (s *Shared) bound(msg string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.bounds[msg]++
}

func (s *Shared) reach(l string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reached[l]++
}

func (s *Shared) sampleShape(e *Engine) {
	if len(e.shape) == 0 {
		return
	}
	k := strings.Join(e.shape, "; ")
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.shapes) < 5000 || s.shapes[k] > 0 {
		s.shapes[k]++
	}
}

// samplePath keeps the variable values of a few completed paths (reservoir sampling).
func (s *Shared) samplePath(e *Engine) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.ndone++
	if s.opt.nsamples <= 0 || s.opt.replay != nil {
		return
	}
	k := len(s.samples)
	if k >= s.opt.nsamples {
		k = s.rnd.Intn(s.ndone)
		if k >= s.opt.nsamples {
			return
		}
	}
	m := e.fullModel()
	e.tc.bumpModel()
	for _, t := range e.pc {
		if e.tc.eval(t, m) == 0 {
			return
		}
	}
	var vs []VarVal
	for i := 0; i < e.nvars; i++ {
		x := uint64(0)
		if i < len(m) {
			x = m[i]
		}
		vs = append(vs, VarVal{e.varNames[i], int(e.varW[i]), x})
	}
	if k < len(s.samples) {
		s.samples[k] = vs
	} else {
		s.samples = append(s.samples, vs)
	}
}

func (s *Shared) logf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

func (s *Shared) addViolation(v *Violation) {
	s.mu.Lock()
	defer s.mu.Unlock()
	key := v.Msg
	if len(v.Stack) > 0 {
		key += v.Stack[0]
	}
	if s.violKey[key] {
		return
	}
	s.violKey[key] = true
	s.viol = append(s.viol, v)
	known := false
	for _, k := range s.opt.known {
		if strings.Contains(v.Msg, k) {
			known = true
		}
	}
	if !known || len(s.viol) >= 50 {
		atomic.StoreInt32(&s.stop, 1)
		s.cond.Broadcast()
	}
}

func (s *Shared) xcheck(e *Engine, t *Term) {
	if e.xsol == nil {
		e.xtc = true
		e.xsol = newSolver(e.tc, s.opt.xcheck, s.opt.timeoutMs)
	}
	// a separate definition epoch: terms carry one emit mark, so re-define everything
	r := e.xsol.oneShot(e.pc, e.tc.Not(t))
	s.mu.Lock()
	s.xq++
	s.mu.Unlock()
	if r == "sat" {
		s.incomplete("solvers disagree on an assertion")
	}
}

func (s *Shared) share(e *Engine) {
	if atomic.LoadInt32(&s.idle) == 0 {
		return
	}
	for k := 0; k < len(e.choices); k++ {
		cp := e.choices[k]
		if cp.next >= len(cp.alts) {
			continue
		}
		var js []job
		for a := cp.next; a < len(cp.alts); a++ {
			pre := append([]int32(nil), e.decisions[:cp.decLen]...)
			pre = append(pre, cp.instLog...)
			pre = append(pre, cp.alts[a])
			m := cp.model
			if cp.models != nil {
				m = cp.models[a]
			}
			js = append(js, job{pre, append([]uint64(nil), m...)})
		}
		cp.next = len(cp.alts)
		s.mu.Lock()
		s.queue = append(s.queue, js...)
		s.mu.Unlock()
		s.cond.Broadcast()
		return
	}
}

func (s *Shared) worker() {
	e := s.newEngine()
	defer func() {
		s.mu.Lock()
		s.merge(e)
		s.mu.Unlock()
		e.sol.close()
		if e.xsol != nil {
			e.xsol.close()
		}
	}()
	for {
		s.mu.Lock()
		for len(s.queue) == 0 && s.active > 0 && atomic.LoadInt32(&s.stop) == 0 {
			atomic.AddInt32(&s.idle, 1)
			s.cond.Wait()
			atomic.AddInt32(&s.idle, -1)
		}
		if len(s.queue) == 0 || atomic.LoadInt32(&s.stop) != 0 {
			s.mu.Unlock()
			s.cond.Broadcast()
			return
		}
		j := s.queue[len(s.queue)-1]
		s.queue = s.queue[:len(s.queue)-1]
		s.active++
		s.mu.Unlock()
		e.reset(j)
		e.run()
		s.mu.Lock()
		s.active--
		s.mu.Unlock()
		s.cond.Broadcast()
		if e.tc.n > 3000000 {
			s.mu.Lock()
			s.merge(e)
			s.mu.Unlock()
			e.sol.close()
			e = s.newEngine()
		}
	}
}

func (s *Shared) merge(e *Engine) {
	a, b := &s.stats, &e.stats
	a.Paths += b.Paths
	a.Done += b.Done
	a.Assumed += b.Assumed
	a.Bounded += b.Bounded
	a.Unsupported += b.Unsupported
	a.Asserts += b.Asserts
	a.AssertsTrivial += b.AssertsTrivial
	a.AssertQ += b.AssertQ
	a.Forks += b.Forks
	a.Steps += b.Steps
	a.DomPrune += b.DomPrune
	a.Unknown += b.Unknown
	a.Merges += b.Merges
	if b.MaxDepth > a.MaxDepth {
		a.MaxDepth = b.MaxDepth
	}
	for f := range e.fnsUsed {
		s.fns[f] = true
	}
	s.qs[0] += e.sol.Queries
	s.qs[1] += e.sol.Sat
	s.qs[2] += e.sol.Unsat
	s.qs[3] += e.sol.Unknown
	s.solTime += e.sol.Time
	if len(e.varNames) > s.nvars {
		s.nvars = len(e.varNames)
	}
}

func (s *Shared) newEngine() *Engine {
	e := &Engine{p: s.p, shared: s, opt: s.opt, tc: newTermCtx(), opts: map[string]int{}, locks: map[lockKey]*lockState{}, fnsUsed: map[*Fn]bool{}, labels: map[string]int{}}
	e.sol = newSolver(e.tc, s.opt.solver, s.opt.timeoutMs)
	e.maxSteps = s.opt.maxSteps
	e.maxPre = s.opt.preempt
	e.timerBud = 2
	e.timerFires = 0
	e.delayMax = -1
	e.serial = 1
	return e
}

func (e *Engine) reset(j job) {
	e.undoTo(0)
	e.serial++
	e.pc = nil
	e.nvars = 0
	e.choices = nil
	e.decisions = nil
	e.prefix = j.prefix
	e.prefModel = j.model
	e.model = nil
	e.tc.bumpModel()
	e.steps = 0
	e.preempt = 0
	e.preAt = nil
	e.preN = 0
	e.gseq = 0
	e.isGIdx = -1
	g := &G{id: 0, name: "main"}
	g.tick()
	fn := e.p.ready(e.shared.main)
	g.top = &Frame{fn: fn, regs: make([]Value, fn.nregs), retDst: noReg, epoch: e.serial}
	e.gs = []*G{g}
	e.cur = g
	e.curIdx = 0
	e.beginInst()
}

func (s *Shared) explore() {
	s.queue = []job{{}}
	var wg sync.WaitGroup
	// watchdog wakes idle workers at the deadline
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				s.stopped()
			}
		}
	}()
	for i := 0; i < s.opt.workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); s.worker() }()
	}
	wg.Wait()
	close(done)
}

type FnRef struct {
	Name string `json:"name"`
	File string `json:"file"`
	Line int    `json:"line"`
}

type Result struct {
	Harness    string         `json:"harness"`
	Stats      Stats          `json:"stats"`
	Violations []*Violation   `json:"violations"`
	Incomplete map[string]int `json:"incomplete"`
	Bounds     map[string]int `json:"bounds"`
	Reached    map[string]int `json:"reached"`
	Shapes     map[string]int `json:"shapes"`
	NumShapes  int            `json:"num_shapes"`
	Functions  []FnRef        `json:"functions"`
	OtherFns   int            `json:"other_functions"`
	Models     []string       `json:"models"`
	Queries    int            `json:"queries"`
	Sat        int            `json:"sat"`
	Unsat      int            `json:"unsat"`
	Unknown    int            `json:"unknown"`
	SolverSec  float64        `json:"solver_seconds"`
	XQueries   int            `json:"xcheck_queries"`
	Seconds    float64        `json:"seconds"`
	TimedOut   bool           `json:"timed_out"`
	Vars       int            `json:"max_symbolic_vars"`
	Samples    [][]VarVal     `json:"samples"`
}

func (s *Shared) result(name string, sec float64) *Result {
	r := &Result{Harness: name, Stats: s.stats, Violations: s.viol, Incomplete: s.incompl, Bounds: s.bounds, Reached: s.reached, Queries: s.qs[0], Sat: s.qs[1], Unsat: s.qs[2], Unknown: s.qs[3],
		SolverSec: s.solTime.Seconds(), XQueries: s.xq, Seconds: sec, TimedOut: s.timeout, Vars: s.nvars, NumShapes: len(s.shapes), Samples: s.samples}
	var ks []string
	for k := range s.shapes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.Shapes = map[string]int{}
	step := len(ks)/400 + 1
	for i := 0; i < len(ks); i += step {
		r.Shapes[ks[i]] = s.shapes[ks[i]]
	}
	for f := range s.fns {
		if f.hound {
			pos := s.p.prog.Fset.Position(f.f.Pos())
			r.Functions = append(r.Functions, FnRef{f.name, pos.Filename, pos.Line})
		} else {
			r.OtherFns++
			if f.norace && strings.Contains(f.name, "vmodel") {
				r.Models = append(r.Models, f.name)
			}
		}
	}
	sort.Slice(r.Functions, func(i, j int) bool { return r.Functions[i].Name < r.Functions[j].Name })
	sort.Strings(r.Models)
	return r
}
