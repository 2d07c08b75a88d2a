package main

// If-conversion: a symbolic branch whose two sides are free of side effects and meet again is
// executed on both sides and the results are joined with if-then-else terms instead of forking.

type pureBail struct{}

type mergeInfo struct {
	ok   bool
	join int // block where both sides meet; -1: function return
}

// execIf branches on a condition.
func (e *Engine) execIf(f *Frame, in *Inst) {
	c := e.get(f, in.a)
	var b bool
	if c.p == nil {
		b = c.n != 0
	} else {
		t := e.toTerm(c, 0)
		if v, ok := e.quick(t); ok {
			b = e.branch(t)
			_ = v
		} else {
			if e.inPure == 0 && len(e.instForced) == 0 && e.opts["nomerge"] == 0 && e.tryMerge(f, in, t) {
				return
			}
			b = e.branch(t)
		}
	}
	if b {
		e.jump(f, in.args[0], in.args[1])
	} else {
		e.jump(f, in.args[2], in.args[3])
	}
}

// mergeAt says whether the region after block blk can be joined.
func (x *Fn) mergeAt(blk int) *mergeInfo {
	x.mu.Lock()
	defer x.mu.Unlock()
	if m := x.mi[blk]; m != nil {
		return m
	}
	m := &mergeInfo{}
	x.mi[blk] = m
	x.findMerge(blk, m)
	return m
}

func (x *Fn) findMerge(blk int, m *mergeInfo) {
	if len(x.f.Blocks[blk].Succs) != 2 {
		return
	}
	// reachable region in topological order, stopping at impure blocks
	const maxBlocks = 40
	reach := map[int]bool{}
	var order []int
	state := map[int]int{}
	cyc := false
	var dfs func(b int)
	dfs = func(b int) {
		if len(order) > maxBlocks || cyc {
			return
		}
		state[b] = 1
		if x.pureBlock(b) {
			for _, s := range x.blocks[b].succs {
				if state[s] == 1 {
					// a back edge: s cannot be inside the region
					reach[-2-s] = true
					continue
				}
				if state[s] == 0 {
					dfs(s)
				}
			}
		}
		state[b] = 2
		order = append(order, b)
	}
	state[blk] = 1
	for _, s := range x.blocks[blk].succs {
		if s == blk {
			return
		}
		if state[s] == 0 {
			dfs(s)
		}
	}
	if len(order) > maxBlocks {
		return
	}
	// candidate joins in topological order: the first that every path from blk passes through
	// with only pure, acyclic blocks before it
	for i := len(order) - 1; i >= -1; i-- {
		j := -1
		if i >= 0 {
			j = order[i]
		}
		if x.allPathsTo(blk, j) {
			m.ok, m.join = true, j
			return
		}
	}
}

// allPathsTo: every path from blk reaches join (or returns, for -1) through pure blocks, without cycles.
func (x *Fn) allPathsTo(blk, join int) bool {
	state := map[int]int{blk: 1}
	n := 0
	var ok func(b int) bool
	ok = func(b int) bool {
		if b == join {
			return true
		}
		if state[b] == 1 {
			return false
		}
		if state[b] == 2 {
			return true
		}
		state[b] = 1
		n++
		if n > 40 || !x.pureBlock(b) {
			return false
		}
		last := &x.code[x.blocks[b].end-1]
		if last.op == opReturn {
			if join != -1 {
				return false
			}
		} else if len(x.blocks[b].succs) == 0 {
			return false
		}
		for _, s := range x.blocks[b].succs {
			if !ok(s) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	for _, s := range x.blocks[blk].succs {
		if !ok(s) {
			return false
		}
	}
	return true
}

func (x *Fn) pureBlock(b int) bool {
	bi := &x.blocks[b]
	if bi.end == bi.start || bi.end-bi.start > 40 {
		return false
	}
	for i := bi.start; i < bi.end; i++ {
		in := &x.code[i]
		switch in.op {
		case opNop, opBinInt, opShift, opBinBool, opNot, opNeg, opCompl, opCopy, opField, opExtract, opJump, opIf, opReturn, opEqGen, opLoad, opFieldAddr, opIndexAddr, opIndex, opGlobal:
		case opConv:
			if convKind(in.n) != cvIntInt {
				return false
			}
		case opBuiltin:
			if in.x != "len" {
				return false
			}
		case opCall:
			fn := in.x.(*Fn)
			if fn.intr != nil || fn.model != nil || fn.f.Blocks == nil || len(fn.f.Blocks) > 30 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) tryMerge(f *Frame, in *Inst, t *Term) (done bool) {
	blk := int(in.n)
	m := f.fn.mergeAt(blk)
	if !m.ok {
		return false
	}
	pc, ci := f.pc, e.curInst
	ntrail := len(e.trail)
	defer func() {
		e.inPure = 0
		e.curInst = ci
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pureBail:
			case pathEnd:
				if r.kind != "unsupported" {
					panic(r)
				}
			default:
				panic(r)
			}
			if len(e.trail) != ntrail {
				e.undoTo(ntrail)
			}
			f.pc = pc
			done = false
		}
	}()
	e.inPure = 1
	e.pureSteps = 0
	vals := e.pureIf(f, in, t, m.join)
	e.inPure = 0
	e.stats.Merges++
	if m.join < 0 {
		var v Value
		switch len(vals) {
		case 0:
		case 1:
			v = vals[0]
		default:
			v.p = &Tup{vals}
		}
		e.ret(e.cur, f, v)
		return true
	}
	bi := &f.fn.blocks[m.join]
	for i := range bi.phis {
		f.regs[bi.phis[i].dst] = vals[i]
	}
	f.pc = bi.start
	return true
}

// pureIf evaluates both sides of a branch up to join and joins the values that arrive there.
func (e *Engine) pureIf(f *Frame, in *Inst, t *Term, join int) []Value {
	a := e.pureEdge(f, in.args[0], in.args[1], join)
	b := e.pureEdge(f, in.args[2], in.args[3], join)
	if len(a) != len(b) {
		panic(pureBail{})
	}
	r := make([]Value, len(a))
	for i := range a {
		if a[i] == b[i] {
			r[i] = a[i]
			continue
		}
		w := -1
		if join >= 0 {
			w = intWidth(f.fn.blocks[join].phis[i].t)
		} else {
			w = intWidth(f.fn.f.Signature.Results().At(i).Type())
		}
		if w < 0 || w > mergeWidth(e) {
			panic(pureBail{})
		}
		r[i] = termVal(e.tc.Ite(t, e.toTerm(a[i], w), e.toTerm(b[i], w)))
	}
	return r
}

func (e *Engine) pureEdge(f *Frame, to, edge int32, join int) []Value {
	bi := &f.fn.blocks[to]
	if int(to) == join {
		r := make([]Value, len(bi.phis))
		for i := range bi.phis {
			r[i] = e.phiVal(f, bi.phis[i].edges[edge])
		}
		return r
	}
	e.jump(f, to, edge)
	return e.pureRun(f, join)
}

func (e *Engine) pureRun(f *Frame, join int) []Value {
	for {
		in := &f.fn.code[f.pc]
		e.curInst = in
		e.pureSteps++
		e.steps++
		if e.pureSteps > 4000 {
			panic(pureBail{})
		}
		switch in.op {
		case opReturn:
			if join >= 0 {
				panic(pureBail{})
			}
			r := make([]Value, len(in.args))
			for i, a := range in.args {
				r[i] = e.get(f, a)
			}
			return r
		case opJump:
			if int(in.a) == join {
				return e.pureEdge(f, in.a, in.b, join)
			}
			e.jump(f, in.a, in.b)
		case opIf:
			c := e.get(f, in.a)
			var b bool
			if c.p == nil {
				b = c.n != 0
			} else {
				t := e.toTerm(c, 0)
				v, known := e.quick(t)
				if !known {
					m := f.fn.mergeAt(int(in.n))
					if !m.ok {
						panic(pureBail{})
					}
					vals := e.pureIf(f, in, t, m.join)
					if m.join == join {
						return vals
					}
					if m.join < 0 {
						panic(pureBail{})
					}
					bi := &f.fn.blocks[m.join]
					for i := range bi.phis {
						f.regs[bi.phis[i].dst] = vals[i]
					}
					f.pc = bi.start
					continue
				}
				b = v
			}
			k := 0
			if !b {
				k = 2
			}
			if int(in.args[k]) == join {
				return e.pureEdge(f, in.args[k], in.args[k+1], join)
			}
			e.jump(f, in.args[k], in.args[k+1])
		case opCall:
			fn := e.p.ready(in.x.(*Fn))
			if len(fn.blocks) == 0 || e.inPure > 6 || !fn.pureCallee() {
				panic(pureBail{})
			}
			e.fnsUsed[fn] = true
			nf := &Frame{fn: fn, regs: make([]Value, fn.nregs), epoch: e.serial}
			for i, a := range in.args {
				nf.regs[i] = e.get(f, a)
			}
			nf.pc = fn.blocks[0].start
			e.inPure++
			r := e.pureRun(nf, -1)
			e.inPure--
			e.curInst = in
			switch len(r) {
			case 0:
			case 1:
				e.set(f, in.dst, r[0])
			default:
				e.set(f, in.dst, Value{p: &Tup{r}})
			}
			f.pc++
		case opLoad, opIndexAddr, opIndex, opFieldAddr, opGlobal:
			if e.raceOn && in.op == opLoad {
				panic(pureBail{})
			}
			if in.op == opGlobal {
				if pi := in.x.(*GlobalInfo).pkg; !pi.skip && (pi.idx >= len(e.pkgDone) || e.pkgDone[pi.idx] == 0) {
					panic(pureBail{})
				}
			}
			pc := f.pc
			e.exec(e.cur, f, in)
			if f.pc != pc+1 {
				panic(pureBail{})
			}
		case opNop, opBinInt, opShift, opBinBool, opNot, opNeg, opCompl, opCopy, opField, opExtract, opEqGen, opConv, opBuiltin:
			pc := f.pc
			e.exec(e.cur, f, in)
			if f.pc != pc+1 {
				panic(pureBail{})
			}
		default:
			panic(pureBail{})
		}
	}
}

// mergeWidth is the widest integer that is joined; booleans and bytes by default.
func mergeWidth(e *Engine) int {
	if w := e.opts["mergewidth"]; w > 0 {
		return w
	}
	return 8
}

// pureCallee: no block of the function has side effects.
func (x *Fn) pureCallee() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.pureOK == 0 {
		x.pureOK = 1
		for b := range x.blocks {
			if !x.pureBlock(b) {
				x.pureOK = -1
			}
		}
	}
	return x.pureOK == 1
}
