package main

// Reflection primitives used by the Go models of encoding/json and encoding/gob.
// A "ref" is an interface value whose dynamic type is a pointer to the place.

import (
	"go/types"
)

func (e *Engine) ptrType(t types.Type) *TypeInfo {
	ti := e.p.typeInfo(t)
	e.p.mu.RLock()
	r := ti.ptr
	e.p.mu.RUnlock()
	if r == nil {
		r = e.p.typeInfo(types.NewPointer(t))
		e.p.mu.Lock()
		ti.ptr = r
		e.p.mu.Unlock()
	}
	return r
}

func (e *Engine) mkRef(t types.Type, o *Obj, off int) Value {
	return Value{p: &Iface{e.ptrType(t), Value{p: o, n: uint64(off)}}}
}

func (e *Engine) newRef(t types.Type, v Value) Value {
	n := e.p.slotsOf(t)
	o := e.newObj(n, "ref")
	if a, ok := v.p.(*Agg); ok && isAgg(t) {
		for i := 0; i < n; i++ {
			o.setRaw(i, a.v[i])
		}
	} else if n > 0 {
		o.setRaw(0, v)
	}
	return e.mkRef(t, o, 0)
}

type refT struct {
	t   types.Type
	o   *Obj
	off int
}

func (c *CallCtx) ref(i int) refT {
	f, ok := c.args[i].p.(*Iface)
	if !ok {
		c.e.unsupported("reflect helper on nil")
	}
	pt, ok := f.t.t.Underlying().(*types.Pointer)
	if !ok {
		c.e.unsupported("reflect helper on non-pointer %s", f.t.t)
	}
	o, ok := f.v.p.(*Obj)
	if !ok {
		c.e.unsupported("reflect helper on nil pointer of %s", f.t.t)
	}
	return refT{pt.Elem(), o, int(f.v.n)}
}

func (e *Engine) rload(r refT) Value {
	v, _ := e.load(Value{p: r.o, n: uint64(r.off)}, e.p.slotsOf(r.t), isAgg(r.t))
	return v
}

func (e *Engine) rstore(r refT, v Value) {
	e.storePtr(Value{p: r.o, n: uint64(r.off)}, v, e.p.slotsOf(r.t), isAgg(r.t))
}

func kindOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsFloat != 0:
			return "float"
		case u.Info()&types.IsUnsigned != 0:
			return "uint"
		case u.Info()&types.IsInteger != 0:
			return "int"
		}
	case *types.Slice:
		return "slice"
	case *types.Array:
		return "array"
	case *types.Map:
		return "map"
	case *types.Struct:
		return "struct"
	case *types.Pointer:
		return "ptr"
	case *types.Interface:
		return "iface"
	}
	return "other"
}

func (e *Engine) toIface(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Value{p: &Iface{e.p.typeInfo(t), v}}
}

func (e *Engine) deepCopy(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := v.p.(*Slice)
		if !ok || s.len == 0 {
			return Value{}
		}
		vals := e.sliceVals(v)
		out := make([]Value, 0, len(vals))
		for i := 0; i < s.len; i++ {
			x := e.deepCopy(u.Elem(), aggSub(&Agg{vals}, i*s.es, s.es, u.Elem()))
			if a, ok := x.p.(*Agg); ok && isAgg(u.Elem()) {
				out = append(out, a.v...)
			} else {
				out = append(out, x)
			}
		}
		return e.newSlice(out, s.es)
	case *types.Struct:
		a := v.p.(*Agg)
		r := &Agg{make([]Value, len(a.v))}
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := e.p.slotsOf(ft)
			if u.Field(i).Exported() {
				x := e.deepCopy(ft, aggSub(a, off, n, ft))
				if xa, ok := x.p.(*Agg); ok && isAgg(ft) {
					copy(r.v[off:], xa.v)
				} else if n > 0 {
					r.v[off] = x
				}
			} else if isAgg(ft) {
				// unexported aggregates stay zero
			}
			off += n
		}
		return Value{p: r}
	case *types.Pointer:
		o, ok := v.p.(*Obj)
		if !ok {
			return Value{}
		}
		x := e.deepCopy(u.Elem(), e.rload(refT{u.Elem(), o, int(v.n)}))
		return e.newRef(u.Elem(), x).p.(*Iface).v
	case *types.Map:
		m, ok := v.p.(*MapObj)
		if !ok {
			return Value{}
		}
		nm := e.newMap(u.Key())
		for _, en := range m.ents {
			if !en.dead {
				e.mapSet(nm, en.k, e.deepCopy(u.Elem(), en.v))
			}
		}
		return Value{p: nm}
	case *types.Interface:
		i, ok := v.p.(*Iface)
		if !ok {
			return Value{}
		}
		return Value{p: &Iface{i.t, e.deepCopy(i.t.t, i.v)}}
	}
	return v
}

func regReflect() {
	rt("RNew", func(c *CallCtx) Value { // copy of v behind a fresh pointer
		i, ok := c.args[0].p.(*Iface)
		if !ok {
			return Value{}
		}
		return c.e.newRef(i.t.t, i.v)
	})
	rt("RKind", func(c *CallCtx) Value { return strVal(kindOf(c.ref(0).t)) })
	rt("RIsPtr", func(c *CallCtx) Value {
		i, ok := c.args[0].p.(*Iface)
		if !ok {
			return boolV(false)
		}
		_, isP := i.t.t.Underlying().(*types.Pointer)
		return boolV(isP && i.v.p != nil)
	})
	rt("RTypeName", func(c *CallCtx) Value { return strVal(c.ref(0).t.String()) })
	rt("RTypeID", func(c *CallCtx) Value { return intV(c.e.p.typeInfo(c.ref(0).t).id) })
	rt("RGet", func(c *CallCtx) Value { r := c.ref(0); return c.e.toIface(r.t, c.e.rload(r)) })
	rt("RNumField", func(c *CallCtx) Value { return intV(c.ref(0).t.Underlying().(*types.Struct).NumFields()) })
	rt("RField", func(c *CallCtx) Value {
		r := c.ref(0)
		st := r.t.Underlying().(*types.Struct)
		i := c.int(1)
		return c.e.mkRef(st.Field(i).Type(), r.o, r.off+c.e.p.fieldOff(st, i))
	})
	rt("RFieldName", func(c *CallCtx) Value {
		return strVal(c.ref(0).t.Underlying().(*types.Struct).Field(c.int(1)).Name())
	})
	rt("RFieldTag", func(c *CallCtx) Value { return strVal(c.ref(0).t.Underlying().(*types.Struct).Tag(c.int(1))) })
	rt("RExported", func(c *CallCtx) Value {
		return boolV(c.ref(0).t.Underlying().(*types.Struct).Field(c.int(1)).Exported())
	})
	rt("REmbedded", func(c *CallCtx) Value {
		return boolV(c.ref(0).t.Underlying().(*types.Struct).Field(c.int(1)).Embedded())
	})
	rt("RIsNil", func(c *CallCtx) Value { return boolV(c.e.rload(c.ref(0)).p == nil) })
	rt("RSetZero", func(c *CallCtx) Value { r := c.ref(0); c.e.rstore(r, c.e.p.zero(r.t)); return Value{} })
	rt("RStr", func(c *CallCtx) Value { return c.e.rload(c.ref(0)) })
	rt("RSetStr", func(c *CallCtx) Value { c.e.rstore(c.ref(0), c.args[1]); return Value{} })
	rt("RBool", func(c *CallCtx) Value { return c.e.rload(c.ref(0)) })
	rt("RSetBool", func(c *CallCtx) Value { c.e.rstore(c.ref(0), c.args[1]); return Value{} })
	rt("RFloat", func(c *CallCtx) Value { return c.e.rload(c.ref(0)) })
	rt("RSetFloat", func(c *CallCtx) Value { c.e.rstore(c.ref(0), c.args[1]); return Value{} })
	rt("RInt", func(c *CallCtx) Value {
		r := c.ref(0)
		w := uint8(intWidth(r.t))
		v := c.e.rload(r)
		if v.p == nil {
			if isSigned(r.t) {
				return Value{n: uint64(sext(v.n, w))}
			}
			return v
		}
		if isSigned(r.t) {
			return termVal(c.e.tc.Sext(c.e.toTerm(v, int(w)), 64))
		}
		return termVal(c.e.tc.Zext(c.e.toTerm(v, int(w)), 64))
	})
	// RSetInt reports whether the value fits.
	rt("RSetInt", func(c *CallCtx) Value {
		r := c.ref(0)
		w := uint8(intWidth(r.t))
		v := c.args[1]
		if v.p != nil {
			t := c.e.toTerm(v, 64)
			lo := t
			if w < 64 {
				lo = c.e.tc.Extract(t, 0, w)
				back := c.e.tc.Zext(lo, 64)
				if isSigned(r.t) {
					back = c.e.tc.Sext(lo, 64)
				}
				if !c.e.branch(c.e.tc.Eq(back, t)) {
					return boolV(false)
				}
			} else if !isSigned(r.t) && !c.e.branch(c.e.tc.Eq(c.e.tc.Extract(t, 63, 1), c.e.tc.Const(1, 0))) {
				return boolV(false)
			}
			c.e.rstore(r, termVal(lo))
			return boolV(true)
		}
		if isSigned(r.t) {
			if sext(v.n&mask(w), w) != int64(v.n) {
				return boolV(false)
			}
		} else if v.n&mask(w) != v.n || int64(v.n) < 0 {
			return boolV(false)
		}
		c.e.rstore(r, Value{n: v.n & mask(w)})
		return boolV(true)
	})
	rt("RLen", func(c *CallCtx) Value {
		r := c.ref(0)
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return intV(int(at.Len()))
		}
		v := c.e.rload(r)
		switch x := v.p.(type) {
		case *Slice:
			return intV(x.len)
		case *MapObj:
			return intV(x.n)
		}
		return intV(0)
	})
	rt("RIndex", func(c *CallCtx) Value {
		r := c.ref(0)
		i := c.int(1)
		if at, ok := r.t.Underlying().(*types.Array); ok {
			return c.e.mkRef(at.Elem(), r.o, r.off+i*c.e.p.slotsOf(at.Elem()))
		}
		s := c.e.rload(r).p.(*Slice)
		return c.e.mkRef(r.t.Underlying().(*types.Slice).Elem(), s.o, s.off+i*s.es)
	})
	rt("RElemKind", func(c *CallCtx) Value {
		r := c.ref(0)
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return strVal("byte")
			}
			return strVal(kindOf(u.Elem()))
		case *types.Map:
			return strVal(kindOf(u.Elem()))
		case *types.Pointer:
			return strVal(kindOf(u.Elem()))
		}
		return strVal("")
	})
	rt("RBytes", func(c *CallCtx) Value { return c.e.rload(c.ref(0)) })
	rt("RSetBytes", func(c *CallCtx) Value { c.e.rstore(c.ref(0), c.args[1]); return Value{} })
	// RSetLen gives the slice n fresh zero elements.
	rt("RSetLen", func(c *CallCtx) Value {
		r := c.ref(0)
		n := c.int(1)
		el := r.t.Underlying().(*types.Slice).Elem()
		es := c.e.p.slotsOf(el)
		o := c.e.newObj(n*es, "slice")
		c.e.rstore(r, Value{p: &Slice{o: o, len: n, cap: n, es: es}})
		return Value{}
	})
	rt("RMapMake", func(c *CallCtx) Value {
		r := c.ref(0)
		c.e.rstore(r, Value{p: c.e.newMap(r.t.Underlying().(*types.Map).Key())})
		return Value{}
	})
	rt("RMapKeys", func(c *CallCtx) Value { // []any of refs
		r := c.ref(0)
		m, _ := c.e.rload(r).p.(*MapObj)
		if m == nil {
			return Value{}
		}
		var vals []Value
		for _, en := range m.ents {
			if !en.dead {
				vals = append(vals, c.e.newRef(r.t.Underlying().(*types.Map).Key(), en.k))
			}
		}
		if len(vals) == 0 {
			return Value{}
		}
		return c.e.newSlice(vals, 1)
	})
	rt("RMapGet", func(c *CallCtx) Value { // ref to a copy of the element
		r := c.ref(0)
		m, _ := c.e.rload(r).p.(*MapObj)
		k := c.e.rload(c.ref(1))
		i := -1
		if m != nil {
			i = c.e.mapFind(m, k)
		}
		if i < 0 {
			return Value{}
		}
		return c.e.newRef(r.t.Underlying().(*types.Map).Elem(), m.ents[i].v)
	})
	rt("RMapSet", func(c *CallCtx) Value {
		r := c.ref(0)
		m, _ := c.e.rload(r).p.(*MapObj)
		c.e.mapSet(m, c.e.rload(c.ref(1)), c.e.rload(c.ref(2)))
		return Value{}
	})
	rt("RMapNewElem", func(c *CallCtx) Value {
		t := c.ref(0).t.Underlying().(*types.Map).Elem()
		return c.e.newRef(t, c.e.p.zero(t))
	})
	rt("RMapNewKey", func(c *CallCtx) Value {
		t := c.ref(0).t.Underlying().(*types.Map).Key()
		return c.e.newRef(t, c.e.p.zero(t))
	})
	rt("RPtrElem", func(c *CallCtx) Value { // the pointer stored at the place, as a ref
		r := c.ref(0)
		v := c.e.rload(r)
		o, ok := v.p.(*Obj)
		if !ok {
			return Value{}
		}
		return c.e.mkRef(r.t.Underlying().(*types.Pointer).Elem(), o, int(v.n))
	})
	rt("RPtrAlloc", func(c *CallCtx) Value {
		r := c.ref(0)
		t := r.t.Underlying().(*types.Pointer).Elem()
		n := c.e.newRef(t, c.e.p.zero(t))
		c.e.rstore(r, n.p.(*Iface).v)
		return n
	})
	rt("RSetIface", func(c *CallCtx) Value { c.e.rstore(c.ref(0), c.args[1]); return Value{} })
	rt("RAssign", func(c *CallCtx) Value { // *dst = *src when the types agree
		d, s := c.ref(0), c.ref(1)
		if !types.Identical(d.t, s.t) {
			return boolV(false)
		}
		c.e.rstore(d, c.e.rload(s))
		return boolV(true)
	})
	rt("DeepCopy", func(c *CallCtx) Value {
		i, ok := c.args[0].p.(*Iface)
		if !ok {
			return Value{}
		}
		return Value{p: &Iface{i.t, c.e.deepCopy(i.t.t, i.v)}}
	})
}
