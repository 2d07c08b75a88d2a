package main

// SSA -> compact instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opcode uint8

const (
	opNop opcode = iota
	opAlloc
	opGlobal
	opBinInt
	opBinStr
	opBinFloat
	opBinBool
	opEqGen
	opShift
	opNot
	opNeg
	opCompl
	opNegF
	opLoad
	opStore
	opRecv
	opCall
	opDyn
	opInvoke
	opIntr
	opBuiltin
	opCopy
	opConv
	opReint
	opMakeIface
	opMakeClosure
	opMakeMap
	opMakeChan
	opMakeSlice
	opSlice
	opField
	opFieldAddr
	opIndex
	opIndexAddr
	opLookup
	opRange
	opNext
	opTypeAssert
	opExtract
	opJump
	opIf
	opReturn
	opRunDefers
	opPanic
	opGo
	opDefer
	opSend
	opMapUpdate
	opSelect
	opSliceToArr
	opUnsupported
)

type Inst struct {
	op      opcode
	tok     token.Token
	w       uint8
	w2      uint8
	sg      bool
	flag    bool
	dst     int32
	a, b, c int32
	n       int32
	args    []int32
	x       any
	t       types.Type
	pos     token.Pos
}

type phiInfo struct {
	dst   int32
	edges []int32
	t     types.Type
}

type BlockInfo struct {
	start, end int
	phis       []phiInfo
	preds      []int
	succs      []int
	merge      *mergeInfo
	mergeDone  bool
}

type Fn struct {
	f       *ssa.Function
	name    string
	once    sync.Once
	mu      sync.Mutex
	code    []Inst
	nregs   int
	consts  []Value
	blocks  []BlockInfo
	intr    *Intrinsic
	model   *Fn
	recover int // block index of recover block or -1
	norace  bool
	nparams int
	nres    int
	hound   bool
	pureOK  int8 // 0 unknown 1 pure -1 not
	pkgInit bool
	mi      map[int]*mergeInfo
}

type GlobalInfo struct {
	g    *ssa.Global
	idx  int
	pkg  *PkgInfo
	size int
}

type PkgInfo struct {
	idx  int
	p    *ssa.Package
	init *Fn
	skip bool
	tol  bool
}

type Program struct {
	prog    *ssa.Program
	mu      sync.RWMutex
	fns     map[*ssa.Function]*Fn
	slots   map[types.Type]int
	tids    typeutil.Map
	ntid    int
	tinfo   map[types.Type]*TypeInfo
	globals map[*ssa.Global]*GlobalInfo
	nglob   int
	pkgs    map[*ssa.Package]*PkgInfo
	npkg    int
	models  map[string]*ssa.Function
	repo    string
	msets   map[msKey]*Fn
	modPath string
	hpath   string
	assertM sync.Map
	rtErr   types.Type
}

type msKey struct {
	t *TypeInfo
	m string
}

func newProgram(prog *ssa.Program) *Program {
	return &Program{prog: prog, fns: map[*ssa.Function]*Fn{}, slots: map[types.Type]int{}, tinfo: map[types.Type]*TypeInfo{},
		globals: map[*ssa.Global]*GlobalInfo{}, pkgs: map[*ssa.Package]*PkgInfo{}, models: map[string]*ssa.Function{}, msets: map[msKey]*Fn{}}
}

func (p *Program) slotsOf(t types.Type) int {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
	default:
		return 1
	}
	p.mu.RLock()
	n, ok := p.slots[t]
	p.mu.RUnlock()
	if ok {
		return n
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += p.slotsOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * p.slotsOf(u.Elem())
	}
	p.mu.Lock()
	p.slots[t] = n
	p.mu.Unlock()
	return n
}

func (p *Program) typeInfo(t types.Type) *TypeInfo {
	p.mu.RLock()
	ti := p.tinfo[t]
	p.mu.RUnlock()
	if ti != nil {
		return ti
	}
	n := p.slotsOf(t)
	p.mu.Lock()
	defer p.mu.Unlock()
	if x := p.tids.At(t); x != nil {
		ti = x.(*TypeInfo)
	} else {
		p.ntid++
		ti = &TypeInfo{t: t, id: p.ntid, slots: n}
		p.tids.Set(t, ti)
	}
	p.tinfo[t] = ti
	return ti
}

func (p *Program) fieldOff(st *types.Struct, i int) int {
	off := 0
	for k := 0; k < i; k++ {
		off += p.slotsOf(st.Field(k).Type())
	}
	return off
}

func (p *Program) pkgInfo(pk *ssa.Package) *PkgInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	pi := p.pkgs[pk]
	if pi == nil {
		pi = &PkgInfo{idx: p.npkg, p: pk}
		p.npkg++
		path := pk.Pkg.Path()
		pi.tol = !strings.HasPrefix(path, p.modPath)
		switch path {
		case "runtime", "syscall", "reflect", "unsafe", "internal/poll", "internal/cpu", "net", "crypto/tls", "internal/godebug", "runtime/debug", "internal/runtime/maps":
			pi.skip = true
		}
		p.pkgs[pk] = pi
	}
	return pi
}

func (p *Program) global(g *ssa.Global) *GlobalInfo {
	pk := p.pkgInfo(g.Pkg)
	size := p.slotsOf(g.Type().(*types.Pointer).Elem())
	p.mu.Lock()
	defer p.mu.Unlock()
	gi := p.globals[g]
	if gi == nil {
		gi = &GlobalInfo{g: g, idx: p.nglob, pkg: pk, size: size}
		p.nglob++
		p.globals[g] = gi
	}
	return gi
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.RLock()
	x := p.fns[f]
	p.mu.RUnlock()
	if x != nil {
		return x
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.fnLocked(f)
}

func (p *Program) fnLocked(f *ssa.Function) *Fn {
	if x := p.fns[f]; x != nil {
		return x
	}
	name := fnName(f)
	x := &Fn{f: f, name: name, intr: intrinsics[name], recover: -1, mi: map[int]*mergeInfo{}}
	x.nparams = len(f.Params)
	x.nres = f.Signature.Results().Len()
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg
	} else if ob := f.Object(); ob != nil {
		pk = ob.Pkg()
	}
	if pk != nil {
		path := pk.Path()
		x.norace = strings.HasPrefix(path, p.hpath) && !strings.HasPrefix(path, p.hpath+"/selftest")
		x.hound = strings.HasPrefix(path, p.modPath) && !x.norace
	}
	if f.Synthetic == "package initializer" {
		x.pkgInit = true
	}
	if m := p.models[name]; m != nil && m != f {
		x.model = p.fnLocked(m)
	}
	p.fns[f] = x
	return x
}

func (p *Program) ready(x *Fn) *Fn {
	x.once.Do(func() { p.compile(x) })
	return x
}

type compiler struct {
	p    *Program
	x    *Fn
	regs map[ssa.Value]int32
	cidx map[string]int32
}

func (c *compiler) newReg() int32 {
	r := int32(c.x.nregs)
	c.x.nregs++
	return r
}

func (c *compiler) konst(v Value) int32 {
	c.x.consts = append(c.x.consts, v)
	return ^int32(len(c.x.consts) - 1)
}

func (c *compiler) emit(i Inst) { c.x.code = append(c.x.code, i) }

func (p *Program) zero(t types.Type) Value {
	if isAgg(t) {
		return Value{p: &Agg{make([]Value, p.slotsOf(t))}}
	}
	return Value{}
}

func (p *Program) constValue(k *ssa.Const) Value {
	if k.Value == nil {
		return p.zero(k.Type())
	}
	t := k.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return strVal(constant.StringVal(k.Value))
		case b.Info()&types.IsBoolean != 0:
			return Value{n: b2u(constant.BoolVal(k.Value))}
		case b.Info()&types.IsInteger != 0:
			w := intWidth(t)
			if w < 0 {
				w = 64
			}
			v := constant.ToInt(k.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return Value{n: u & mask(uint8(w))}
			}
			i, _ := constant.Int64Val(v)
			return Value{n: uint64(i) & mask(uint8(w))}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(k.Value))
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f2v(f)
		case b.Kind() == types.UnsafePointer:
			return Value{}
		}
	}
	return Value{p: &poison{"const " + k.String()}}
}

func (c *compiler) val(v ssa.Value) int32 {
	switch v := v.(type) {
	case *ssa.Const:
		return c.konst(c.p.constValue(v))
	case *ssa.Global:
		r := c.newReg()
		c.emit(Inst{op: opGlobal, dst: r, x: c.p.global(v)})
		return r
	case *ssa.Function:
		return c.konst(Value{p: &Closure{fn: c.p.fn(v)}})
	case *ssa.Builtin:
		return c.konst(Value{p: &Closure{bi: v.Name()}})
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.newReg()
	c.regs[v] = r
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Program) compile(x *Fn) {
	f := x.f
	if f.Blocks == nil {
		return
	}
	c := &compiler{p: p, x: x, regs: map[ssa.Value]int32{}}
	for _, v := range f.Params {
		c.regs[v] = c.newReg()
	}
	for _, v := range f.FreeVars {
		c.regs[v] = c.newReg()
	}
	x.blocks = make([]BlockInfo, len(f.Blocks))
	for i, b := range f.Blocks {
		bi := &x.blocks[i]
		for _, q := range b.Preds {
			bi.preds = append(bi.preds, q.Index)
		}
		for _, q := range b.Succs {
			bi.succs = append(bi.succs, q.Index)
		}
	}
	if f.Recover != nil {
		x.recover = f.Recover.Index
	}
	for i, b := range f.Blocks {
		bi := &x.blocks[i]
		bi.start = len(x.code)
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				_ = c.val(phi)
				continue
			}
			c.instr(in, i)
		}
		bi.end = len(x.code)
	}
	// phis: edge operands must not emit code (globals): handled through a preamble register
	for i, b := range f.Blocks {
		bi := &x.blocks[i]
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			pi := phiInfo{dst: c.val(phi), t: phi.Type()}
			for _, ed := range phi.Edges {
				if g, ok := ed.(*ssa.Global); ok {
					pi.edges = append(pi.edges, c.konst(Value{p: p.global(g)}))
				} else {
					pi.edges = append(pi.edges, c.val(ed))
				}
			}
			bi.phis = append(bi.phis, pi)
		}
	}
}

func (c *compiler) callArgs(args []ssa.Value) []int32 {
	var r []int32
	for _, a := range args {
		r = append(r, c.val(a))
	}
	return r
}

type convKind uint8

const (
	cvCopy convKind = iota
	cvIntInt
	cvIntFloat
	cvFloatInt
	cvFloatFloat
	cvIntStr
	cvStrBytes
	cvBytesStr
	cvStrRunes
	cvRunesStr
	cvBad
)

func elemWidth(t types.Type) int {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return intWidth(s.Elem())
	}
	return -1
}

func convOf(from, to types.Type) convKind {
	fw, tw := intWidth(from), intWidth(to)
	switch {
	case fw > 0 && tw > 0:
		return cvIntInt
	case fw > 0 && isFloat(to):
		return cvIntFloat
	case isFloat(from) && tw > 0:
		return cvFloatInt
	case isFloat(from) && isFloat(to):
		return cvFloatFloat
	case fw > 0 && isString(to):
		return cvIntStr
	case isString(from) && elemWidth(to) == 8:
		return cvStrBytes
	case elemWidth(from) == 8 && isString(to):
		return cvBytesStr
	case isString(from) && elemWidth(to) == 32:
		return cvStrRunes
	case elemWidth(from) == 32 && isString(to):
		return cvRunesStr
	case isString(from) && isString(to):
		return cvCopy
	}
	return cvCopy // pointer <-> unsafe.Pointer <-> uintptr
}

func (c *compiler) edge(from, to, k int) int32 {
	// k: ordinal of this edge among from's edges to the same block
	n := 0
	for i, p := range c.x.f.Blocks[to].Preds {
		if p.Index == from {
			if n == k {
				return int32(i)
			}
			n++
		}
	}
	return 0
}

func (c *compiler) instr(in ssa.Instruction, blk int) {
	p := c.p
	pos := in.Pos()
	un := func(what string) {
		d := int32(-1 << 30)
		if v, ok := in.(ssa.Value); ok {
			d = c.val(v)
		}
		c.emit(Inst{op: opUnsupported, dst: d, x: what + ": " + in.String(), pos: pos})
	}
	switch v := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c.emit(Inst{op: opAlloc, dst: c.val(v), n: int32(p.slotsOf(deref(v.Type()))), x: v.Comment, pos: pos})
	case *ssa.BinOp:
		a, b := c.val(v.X), c.val(v.Y)
		t := v.X.Type()
		i := Inst{tok: v.Op, dst: c.val(v), a: a, b: b, t: t, pos: pos}
		w := intWidth(t)
		switch {
		case v.Op == token.SHL || v.Op == token.SHR:
			i.op = opShift
			i.w = uint8(w)
			i.sg = isSigned(t)
			i.w2 = uint8(intWidth(v.Y.Type()))
			i.flag = isSigned(v.Y.Type())
		case w > 0:
			i.op = opBinInt
			i.w = uint8(w)
			i.sg = isSigned(t)
		case w == 0:
			i.op = opBinBool
		case isString(t):
			i.op = opBinStr
		case isFloat(t):
			i.op = opBinFloat
			i.flag = t.Underlying().(*types.Basic).Kind() == types.Float32
		case v.Op == token.EQL || v.Op == token.NEQ:
			i.op = opEqGen
		default:
			un("binop")
			return
		}
		c.emit(i)
	case *ssa.UnOp:
		a := c.val(v.X)
		i := Inst{dst: c.val(v), a: a, t: v.Type(), pos: pos}
		switch v.Op {
		case token.NOT:
			i.op = opNot
		case token.SUB:
			if isFloat(v.Type()) {
				i.op = opNegF
			} else {
				i.op = opNeg
				i.w = uint8(intWidth(v.Type()))
			}
		case token.XOR:
			i.op = opCompl
			i.w = uint8(intWidth(v.Type()))
		case token.MUL:
			i.op = opLoad
			i.n = int32(p.slotsOf(v.Type()))
			i.flag = isAgg(v.Type())
		case token.ARROW:
			i.op = opRecv
			i.flag = v.CommaOk
			i.t = v.X.Type().Underlying().(*types.Chan).Elem()
		default:
			un("unop")
			return
		}
		c.emit(i)
	case *ssa.Store:
		a, b := c.val(v.Addr), c.val(v.Val)
		t := v.Val.Type()
		c.emit(Inst{op: opStore, a: a, b: b, n: int32(p.slotsOf(t)), flag: isAgg(t), pos: pos, dst: -1 << 30})
	case *ssa.Call:
		c.call(&v.Call, c.val(v), pos, v.Type())
	case *ssa.Go:
		i := c.callInst(&v.Call, pos)
		c.emit(Inst{op: opGo, x: &i, pos: pos})
	case *ssa.Defer:
		if v.DeferStack != nil {
			un("defer stack")
			return
		}
		i := c.callInst(&v.Call, pos)
		c.emit(Inst{op: opDefer, x: &i, pos: pos})
	case *ssa.ChangeType:
		c.emit(Inst{op: opCopy, a: c.val(v.X), dst: c.val(v), pos: pos})
	case *ssa.ChangeInterface:
		c.emit(Inst{op: opCopy, a: c.val(v.X), dst: c.val(v), pos: pos})
	case *ssa.Convert:
		c.conv(v.X, v, pos)
	case *ssa.MultiConvert:
		c.conv(v.X, v, pos)
	case *ssa.SliceToArrayPointer:
		at := deref(v.Type()).Underlying().(*types.Array)
		c.emit(Inst{op: opSliceToArr, a: c.val(v.X), dst: c.val(v), n: int32(at.Len()), pos: pos})
	case *ssa.MakeInterface:
		if _, ok := v.X.Type().Underlying().(*types.Interface); ok {
			c.emit(Inst{op: opCopy, a: c.val(v.X), dst: c.val(v), pos: pos})
			return
		}
		c.emit(Inst{op: opMakeIface, a: c.val(v.X), dst: c.val(v), x: p.typeInfo(v.X.Type()), pos: pos})
	case *ssa.MakeClosure:
		c.emit(Inst{op: opMakeClosure, x: p.fn(v.Fn.(*ssa.Function)), args: c.callArgs(v.Bindings), dst: c.val(v), pos: pos})
	case *ssa.MakeMap:
		c.emit(Inst{op: opMakeMap, dst: c.val(v), t: v.Type().Underlying().(*types.Map).Key(), pos: pos})
	case *ssa.MakeChan:
		c.emit(Inst{op: opMakeChan, a: c.val(v.Size), dst: c.val(v), pos: pos})
	case *ssa.MakeSlice:
		c.emit(Inst{op: opMakeSlice, a: c.val(v.Len), b: c.val(v.Cap), dst: c.val(v), n: int32(p.slotsOf(v.Type().Underlying().(*types.Slice).Elem())), pos: pos})
	case *ssa.Slice:
		i := Inst{op: opSlice, a: c.val(v.X), dst: c.val(v), pos: pos, t: v.X.Type()}
		opt := func(x ssa.Value) int32 {
			if x == nil {
				return -1 << 30
			}
			return c.val(x)
		}
		i.args = []int32{opt(v.Low), opt(v.High), opt(v.Max)}
		switch u := v.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			i.n = int32(p.slotsOf(at.Elem()))
			i.x = int(at.Len())
			i.w = 1
		case *types.Slice:
			i.n = int32(p.slotsOf(u.Elem()))
			i.w = 2
		default:
			if isString(v.X.Type()) {
				i.w = 3
			} else {
				un("slice of")
				return
			}
		}
		c.emit(i)
	case *ssa.Field:
		st := v.X.Type().Underlying().(*types.Struct)
		ft := st.Field(v.Field).Type()
		c.emit(Inst{op: opField, a: c.val(v.X), dst: c.val(v), b: int32(p.fieldOff(st, v.Field)), n: int32(p.slotsOf(ft)), t: ft, pos: pos})
	case *ssa.FieldAddr:
		st := deref(v.X.Type()).Underlying().(*types.Struct)
		c.emit(Inst{op: opFieldAddr, a: c.val(v.X), dst: c.val(v), b: int32(p.fieldOff(st, v.Field)), pos: pos})
	case *ssa.Index:
		i := Inst{op: opIndex, a: c.val(v.X), b: c.val(v.Index), dst: c.val(v), t: v.Type(), pos: pos, w2: uint8(intWidth(v.Index.Type())), flag: isSigned(v.Index.Type())}
		switch u := v.X.Type().Underlying().(type) {
		case *types.Array:
			i.n = int32(p.slotsOf(u.Elem()))
			i.x = int(u.Len())
			i.w = 1
		default:
			i.w = 3
		}
		c.emit(i)
	case *ssa.IndexAddr:
		i := Inst{op: opIndexAddr, a: c.val(v.X), b: c.val(v.Index), dst: c.val(v), pos: pos, w2: uint8(intWidth(v.Index.Type())), flag: isSigned(v.Index.Type())}
		switch u := v.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			i.n = int32(p.slotsOf(at.Elem()))
			i.x = int(at.Len())
			i.w = 1
		case *types.Slice:
			i.n = int32(p.slotsOf(u.Elem()))
			i.w = 2
		default:
			un("indexaddr")
			return
		}
		c.emit(i)
	case *ssa.Lookup:
		if isString(v.X.Type()) {
			c.emit(Inst{op: opIndex, a: c.val(v.X), b: c.val(v.Index), dst: c.val(v), w: 3, pos: pos, w2: uint8(intWidth(v.Index.Type())), flag: isSigned(v.Index.Type())})
			return
		}
		mt := v.X.Type().Underlying().(*types.Map)
		c.emit(Inst{op: opLookup, a: c.val(v.X), b: c.val(v.Index), dst: c.val(v), flag: v.CommaOk, t: mt.Elem(), pos: pos})
	case *ssa.Range:
		c.emit(Inst{op: opRange, a: c.val(v.X), dst: c.val(v), flag: isString(v.X.Type()), pos: pos})
	case *ssa.Next:
		c.emit(Inst{op: opNext, a: c.val(v.Iter), dst: c.val(v), flag: v.IsString, pos: pos, t: v.Type()})
	case *ssa.TypeAssert:
		i := Inst{op: opTypeAssert, a: c.val(v.X), dst: c.val(v), flag: v.CommaOk, t: v.AssertedType, pos: pos}
		if it, ok := v.AssertedType.Underlying().(*types.Interface); ok {
			i.w = 1
			i.x = it
		} else {
			i.x = p.typeInfo(v.AssertedType)
		}
		c.emit(i)
	case *ssa.Extract:
		c.emit(Inst{op: opExtract, a: c.val(v.Tuple), dst: c.val(v), n: int32(v.Index), pos: pos})
	case *ssa.Jump:
		to := in.Block().Succs[0].Index
		c.emit(Inst{op: opJump, a: int32(to), b: c.edge(blk, to, 0), n: int32(blk), pos: pos})
	case *ssa.If:
		t, f := in.Block().Succs[0].Index, in.Block().Succs[1].Index
		k := 0
		if t == f {
			k = 1
		}
		c.emit(Inst{op: opIf, a: c.val(v.Cond), n: int32(blk), args: []int32{int32(t), c.edge(blk, t, 0), int32(f), c.edge(blk, f, k)}, pos: v.Cond.Pos()})
	case *ssa.Return:
		c.emit(Inst{op: opReturn, args: c.callArgs(v.Results), pos: pos, n: int32(blk)})
	case *ssa.RunDefers:
		c.emit(Inst{op: opRunDefers, pos: pos})
	case *ssa.Panic:
		c.emit(Inst{op: opPanic, a: c.val(v.X), pos: pos})
	case *ssa.Send:
		c.emit(Inst{op: opSend, a: c.val(v.Chan), b: c.val(v.X), pos: pos})
	case *ssa.MapUpdate:
		c.emit(Inst{op: opMapUpdate, a: c.val(v.Map), b: c.val(v.Key), c: c.val(v.Value), pos: pos})
	case *ssa.Select:
		i := Inst{op: opSelect, dst: c.val(v), flag: v.Blocking, pos: pos}
		var st []selState
		for _, s := range v.States {
			x := selState{recv: s.Dir == types.RecvOnly, ch: c.val(s.Chan)}
			if !x.recv {
				x.val = c.val(s.Send)
			} else {
				x.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
			}
			st = append(st, x)
		}
		i.x = st
		c.emit(i)
	default:
		un(fmt.Sprintf("%T", in))
	}
}

type selState struct {
	recv    bool
	ch, val int32
	et      types.Type
}

// reintWidths recognises (*[N]T)(unsafe.Pointer(p)) for p of type *S, S and T integers.
func reintWidths(x ssa.Value, to types.Type) (int, int) {
	cv, ok := x.(*ssa.Convert)
	if !ok {
		return 0, 0
	}
	if b, ok := cv.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
		return 0, 0
	}
	fp, ok1 := cv.X.Type().Underlying().(*types.Pointer)
	tp, ok2 := to.Underlying().(*types.Pointer)
	if !ok1 || !ok2 {
		return 0, 0
	}
	at, ok := tp.Elem().Underlying().(*types.Array)
	if !ok {
		return 0, 0
	}
	sw, dw := intWidth(fp.Elem()), intWidth(at.Elem())
	if sw <= 0 || dw <= 0 {
		return 0, 0
	}
	return sw, dw
}

func (c *compiler) conv(x ssa.Value, v ssa.Value, pos token.Pos) {
	from, to := x.Type(), v.Type()
	i := Inst{op: opConv, a: c.val(x), dst: c.val(v), pos: pos, t: to}
	k := convOf(from, to)
	i.n = int32(k)
	if k == cvCopy {
		i.op = opCopy
		if sw, dw := reintWidths(x, to); sw != dw {
			// the elements from here on, seen as elements of another width
			i.op = opReint
			i.w, i.w2 = uint8(sw), uint8(dw)
			c.emit(i)
			return
		}
	}
	if fw := intWidth(from); fw > 0 {
		i.w = uint8(fw)
		i.sg = isSigned(from)
	}
	if tw := intWidth(to); tw > 0 {
		i.w2 = uint8(tw)
		i.flag = isSigned(to)
	}
	if k == cvFloatFloat || k == cvIntFloat {
		i.flag = to.Underlying().(*types.Basic).Kind() == types.Float32
	}
	c.emit(i)
}

func (c *compiler) callInst(cc *ssa.CallCommon, pos token.Pos) Inst {
	if cc.IsInvoke() {
		a := c.val(cc.Value)
		return Inst{op: opInvoke, a: a, args: c.callArgs(cc.Args), x: cc.Method, pos: pos}
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		return Inst{op: opCall, args: c.callArgs(cc.Args), x: c.p.fn(f), pos: pos}
	case *ssa.Builtin:
		i := Inst{op: opBuiltin, args: c.callArgs(cc.Args), x: f.Name(), pos: pos}
		var ts []types.Type
		for _, a := range cc.Args {
			ts = append(ts, a.Type())
		}
		if len(ts) > 0 {
			i.t = ts[0]
			switch u := ts[0].Underlying().(type) {
			case *types.Slice:
				i.n = int32(c.p.slotsOf(u.Elem()))
			}
		}
		if f.Name() == "append" && len(ts) == 2 && isString(ts[1]) || f.Name() == "copy" && isString(ts[1]) {
			i.flag = true
		}
		if len(ts) > 0 && (f.Name() == "min" || f.Name() == "max") {
			w := intWidth(ts[0])
			if w > 0 {
				i.w = uint8(w)
			}
			i.sg = isSigned(ts[0])
		}
		if f.Name() == "String" || f.Name() == "Slice" || f.Name() == "SliceData" || f.Name() == "Add" {
			if pt, ok := f.Type().(*types.Signature); ok && pt.Params().Len() > 0 {
				if q, ok := pt.Params().At(0).Type().Underlying().(*types.Pointer); ok {
					i.n = int32(c.p.slotsOf(q.Elem()))
				}
			}
		}
		return i
	}
	a := c.val(cc.Value)
	return Inst{op: opDyn, a: a, args: c.callArgs(cc.Args), pos: pos}
}

func (c *compiler) call(cc *ssa.CallCommon, dst int32, pos token.Pos, t types.Type) {
	i := c.callInst(cc, pos)
	i.dst = dst
	if i.op == opBuiltin {
		if cc.Value.(*ssa.Builtin).Name() == "ssa:deferstack" {
			i.op = opUnsupported
		}
	}
	_ = t
	c.emit(i)
}

// findMethod returns the function implementing method m on dynamic type ti.
func (p *Program) findMethod(ti *TypeInfo, m *types.Func) *Fn {
	key := msKey{ti, m.Id()}
	p.mu.RLock()
	f := p.msets[key]
	p.mu.RUnlock()
	if f != nil {
		return f
	}
	sel := p.prog.MethodSets.MethodSet(ti.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	sf := p.prog.MethodValue(sel)
	if sf == nil {
		return nil
	}
	f = p.fn(sf)
	p.mu.Lock()
	p.msets[key] = f
	p.mu.Unlock()
	return f
}

type implKey struct {
	ti *TypeInfo
	it *types.Interface
}

func (p *Program) implements(ti *TypeInfo, it *types.Interface) bool {
	k := implKey{ti, it}
	if v, ok := p.assertM.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(ti.t, it)
	p.assertM.Store(k, r)
	return r
}
