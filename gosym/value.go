package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Value is one slot. Scalars: n holds the bits (masked to the type's width) when p==nil, otherwise
// p is a *Term. Other kinds use p (nil is the zero value of every kind).
type Value struct {
	n uint64
	p any
}

type SymStr struct{ b []Value } // string whose bytes may be symbolic

type Slice struct {
	o             *Obj
	off, len, cap int // off in slots; len, cap in elements
	es            int // slots per element
}

// SymPtr points at base + idx*stride (0 <= idx < n, already checked).
type SymPtr struct {
	o      *Obj
	base   int
	stride int
	n      int
	idx    *Term
}

type Iface struct {
	t *TypeInfo
	v Value
}

type Closure struct {
	fn   *Fn
	free []Value
	intr *Intrinsic // native function value
	bi   string
}

type Agg struct{ v []Value }

type poison struct{ why string }

const pageSize = 256

type page [pageSize]Value

type Obj struct {
	id    int32
	birth uint32 // choice serial at creation
	size  int
	slots []Value
	pages []*page
	dead  string // non-empty: accesses are errors
	sym   []symWrite
	race  map[int]*raceCell
	what  string
	ro    bool
}

type symWrite struct {
	base, stride, n int
	idx             *Term
	v               Value
}

func (o *Obj) get(i int) Value {
	if o.slots != nil {
		return o.slots[i]
	}
	pg := o.pages[i/pageSize]
	if pg == nil {
		return Value{}
	}
	return pg[i%pageSize]
}

func (o *Obj) setRaw(i int, v Value) {
	if o.slots != nil {
		o.slots[i] = v
		return
	}
	pg := o.pages[i/pageSize]
	if pg == nil {
		if v.n == 0 && v.p == nil {
			return
		}
		pg = new(page)
		o.pages[i/pageSize] = pg
	}
	pg[i%pageSize] = v
}

type trailEnt struct {
	o  *Obj
	i  int
	v  Value
	fn func()
}

func (e *Engine) newObj(size int, what string) *Obj {
	e.objSeq++
	o := &Obj{id: e.objSeq, size: size, birth: e.serial, what: what}
	if e.initDepth > 0 {
		o.birth = 0
	}
	if size <= 1024 {
		o.slots = make([]Value, size)
		if size == 0 {
			o.slots = emptySlots
		}
	} else {
		o.pages = make([]*page, (size+pageSize-1)/pageSize)
	}
	return o
}

var emptySlots = make([]Value, 0, 1)

func (e *Engine) store(o *Obj, i int, v Value) {
	if o.birth != e.serial && e.initDepth == 0 {
		e.trail = append(e.trail, trailEnt{o: o, i: i, v: o.get(i)})
	}
	o.setRaw(i, v)
}

func (e *Engine) onUndo(fn func()) {
	if e.initDepth > 0 {
		return
	}
	e.trail = append(e.trail, trailEnt{fn: fn})
}

func (e *Engine) undoTo(n int) {
	for len(e.trail) > n {
		t := &e.trail[len(e.trail)-1]
		if t.fn != nil {
			fn := t.fn
			t.fn = nil
			e.trail = e.trail[:len(e.trail)-1]
			fn()
			continue
		}
		t.o.setRaw(t.i, t.v)
		t.o = nil
		t.v = Value{}
		e.trail = e.trail[:len(e.trail)-1]
	}
}

// ---- types ----

type TypeInfo struct {
	t     types.Type
	id    int
	ptr   *TypeInfo
	slots int
}

type layoutCache struct {
	slots map[types.Type]int
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// width returns bit width for scalar ints (0 for bool), -1 otherwise.
func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- strings ----

func strVal(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}

func (v Value) strLen() int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func (v Value) strAt(i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func (v Value) strBytes() []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := true
	for i := range b {
		if b[i].p != nil {
			conc = false
			break
		}
	}
	if conc {
		bb := make([]byte, len(b))
		for i := range b {
			bb[i] = byte(b[i].n)
		}
		return Value{p: string(bb)}
	}
	return Value{p: &SymStr{b}}
}

func strSub(v Value, i, j int) Value {
	if i == j {
		return Value{}
	}
	switch s := v.p.(type) {
	case string:
		return Value{p: s[i:j]}
	case *SymStr:
		return mkStr(s.b[i:j:j])
	}
	panic("strSub")
}

func strCat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return Value{p: x + y}
	}
	bb := append(append([]Value(nil), a.strBytes()...), b.strBytes()...)
	return Value{p: &SymStr{bb}}
}

// concrete string or false
func (v Value) cstr() (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (v Value) term() *Term {
	t, _ := v.p.(*Term)
	return t
}

func (e *Engine) toTerm(v Value, w int) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	if v.p != nil {
		e.unsupported("toTerm of %T", v.p)
	}
	return e.tc.Const(uint8(w), v.n)
}

func termVal(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.val}
	}
	return Value{p: t}
}

func f2v(f float64) Value { return Value{n: math.Float64bits(f)} }
func v2f(v Value) float64 { return math.Float64frombits(v.n) }

// ---- maps ----

type mapEntry struct {
	k, v Value
	dead bool
}

type MapObj struct {
	id    int32
	ents  []mapEntry
	index map[any]int // concrete keys only
	nsym  int         // live or dead entries with symbolic keys
	n     int
	kt    types.Type
	vs    int
	o     *Obj // for race detection
}

type pairKey struct{ a, b any }

// mapKey returns a comparable Go value for a fully concrete key.
func (e *Engine) mapKey(v Value, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := v.cstr()
			return s, ok
		}
		if v.p == nil {
			return v.n, true
		}
		if _, ok := v.p.(*Term); ok {
			return nil, false
		}
		return pairKey{v.p, v.n}, true
	case *types.Interface:
		i, ok := v.p.(*Iface)
		if !ok {
			return nil, true
		}
		k, ok := e.mapKey(i.v, i.t.t)
		return pairKey{i.t.id, k}, ok
	case *types.Struct:
		a := v.p.(*Agg)
		var k any = "S"
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := e.p.slotsOf(ft)
			fk, ok := e.mapKey(aggSub(a, off, n, ft), ft)
			if !ok {
				return nil, false
			}
			k = pairKey{k, fk}
			off += n
		}
		return k, true
	case *types.Array:
		a := v.p.(*Agg)
		n := e.p.slotsOf(u.Elem())
		var k any = "A"
		for i := 0; i < int(u.Len()); i++ {
			fk, ok := e.mapKey(aggSub(a, i*n, n, u.Elem()), u.Elem())
			if !ok {
				return nil, false
			}
			k = pairKey{k, fk}
		}
		return k, true
	default:
		return pairKey{v.p, v.n}, true
	}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func aggSub(a *Agg, off, n int, t types.Type) Value {
	if isAgg(t) {
		return Value{p: &Agg{a.v[off : off+n : off+n]}}
	}
	return a.v[off]
}

func (e *Engine) newMap(kt types.Type) *MapObj {
	e.objSeq++
	m := &MapObj{id: e.objSeq, index: map[any]int{}, kt: kt}
	m.o = e.newObj(0, "map")
	return m
}

// mapFind locates k; may fork on equality with symbolic keys. Returns -1 when absent.
func (e *Engine) mapFind(m *MapObj, k Value) int {
	ck, ok := e.mapKey(k, m.kt)
	if ok {
		if i, hit := m.index[ck]; hit {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		en := &m.ents[i]
		if en.dead {
			continue
		}
		if ok {
			if _, conc := e.mapKey(en.k, m.kt); conc {
				continue
			}
		}
		if e.branch(e.eqVals(en.k, k, m.kt)) {
			return i
		}
	}
	return -1
}

func (e *Engine) mapSet(m *MapObj, k, v Value) {
	i := e.mapFind(m, k)
	if i >= 0 {
		old := m.ents[i].v
		m.ents[i].v = v
		e.onUndo(func() { m.ents[i].v = old })
		return
	}
	ck, ok := e.mapKey(k, m.kt)
	idx := len(m.ents)
	m.ents = append(m.ents, mapEntry{k: k, v: v})
	m.n++
	if ok {
		old, had := m.index[ck]
		m.index[ck] = idx
		e.onUndo(func() {
			m.ents = m.ents[:idx]
			m.n--
			if had {
				m.index[ck] = old
			} else {
				delete(m.index, ck)
			}
		})
	} else {
		m.nsym++
		e.onUndo(func() { m.ents = m.ents[:idx]; m.n--; m.nsym-- })
	}
}

func (e *Engine) mapDelete(m *MapObj, k Value) {
	i := e.mapFind(m, k)
	if i < 0 {
		return
	}
	ck, ok := e.mapKey(m.ents[i].k, m.kt)
	m.ents[i].dead = true
	m.n--
	if ok {
		delete(m.index, ck)
	}
	e.onUndo(func() {
		m.ents[i].dead = false
		m.n++
		if ok {
			m.index[ck] = i
		}
	})
}

// ---- printing (diagnostics and %v) ----

func (e *Engine) show(v Value, t types.Type) string {
	return e.showD(v, t, 3)
}

func (e *Engine) showD(v Value, t types.Type, d int) string {
	if d == 0 {
		return "…"
	}
	if tm, ok := v.p.(*Term); ok {
		return fmt.Sprint(e.tc.eval(tm, e.model))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.modelStr(v)
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprint(v.n != 0)
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprint(v2f(v))
		case u.Info()&types.IsUnsigned != 0:
			return fmt.Sprint(v.n)
		}
		w := intWidth(t)
		if w > 0 {
			return fmt.Sprint(sext(v.n, uint8(w)))
		}
	case *types.Slice:
		s, ok := v.p.(*Slice)
		if !ok {
			return "[]"
		}
		var parts []string
		for i := 0; i < s.len && i < 50; i++ {
			parts = append(parts, e.showD(e.loadAt(s.o, s.off+i*s.es, u.Elem()), u.Elem(), d-1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case *types.Struct:
		a, ok := v.p.(*Agg)
		if !ok {
			return "{}"
		}
		var parts []string
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := e.p.slotsOf(ft)
			parts = append(parts, e.showD(aggSub(a, off, n, ft), ft, d-1))
			off += n
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *types.Map:
		m, ok := v.p.(*MapObj)
		if !ok {
			return "map[]"
		}
		var parts []string
		for _, en := range m.ents {
			if !en.dead {
				parts = append(parts, e.showD(en.k, u.Key(), d-1)+":"+e.showD(en.v, u.Elem(), d-1))
			}
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case *types.Interface:
		i, ok := v.p.(*Iface)
		if !ok {
			return "<nil>"
		}
		return e.showD(i.v, i.t.t, d)
	case *types.Pointer:
		if v.p == nil {
			return "<nil>"
		}
		if o, ok := v.p.(*Obj); ok {
			if isAgg(u.Elem()) && o.dead == "" {
				return "&" + e.showD(e.loadAt(o, int(v.n), u.Elem()), u.Elem(), d-1)
			}
			return fmt.Sprintf("0xc%06x", int(o.id)*16+int(v.n))
		}
	}
	return fmt.Sprintf("%T", v.p)
}

// modelStr renders a string under the current model.
func (e *Engine) modelStr(v Value) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			if t := x.term(); t != nil {
				b[i] = byte(e.tc.eval(t, e.model))
			} else {
				b[i] = byte(x.n)
			}
		}
		return string(b)
	}
	return fmt.Sprintf("%T", v.p)
}

func (e *Engine) loadAt(o *Obj, off int, t types.Type) Value {
	if isAgg(t) {
		n := e.p.slotsOf(t)
		a := &Agg{make([]Value, n)}
		for i := 0; i < n; i++ {
			a.v[i] = o.get(off + i)
		}
		return Value{p: a}
	}
	return o.get(off)
}
