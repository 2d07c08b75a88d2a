package main

// Hash-consed bit-vector / boolean terms with light simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OBvNot
	ONeg
	OBvAnd
	OBvOr
	OBvXor
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = lo, width = w
	OZext
	OSext
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OBvNot: "bvnot", ONeg: "bvneg",
	OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

// Term is a node; w==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	supp    int32 // -1 none, >=0 the only variable, -2 several
	id      uint32
	val     uint64
	a, b, c *Term
	mEpoch  uint32
	mVal    uint64
	dom     *[4]uint64 // truth set for Bool terms over one byte-sized variable
	emit    uint32     // solver epoch in which it was defined
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

type VarInfo struct {
	name string
	w    uint8
	dom  [4]uint64 // initial domain when w<=8
	t    *Term
}

type TermCtx struct {
	tab    map[termKey]*Term
	n      uint32
	vars   []*VarInfo
	True   *Term
	False  *Term
	mEpoch uint32
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}}
	c.mEpoch = 1
	c.True = c.mk(OConst, 0, 1, nil, nil, nil)
	c.False = c.mk(OConst, 0, 0, nil, nil, nil)
	return c
}

func (c *TermCtx) mk(op Op, w uint8, val uint64, x, y, z *Term) *Term {
	k := termKey{op: op, w: w, val: val}
	if x != nil {
		k.a = x.id
	}
	if y != nil {
		k.b = y.id
	}
	if z != nil {
		k.c = z.id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, w: w, val: val, a: x, b: y, c: z, id: c.n, supp: -1}
	if op == OVar {
		t.supp = int32(val)
	} else {
		for _, s := range []*Term{x, y, z} {
			if s == nil || s.supp == -1 || s.supp == t.supp {
				continue
			}
			if t.supp == -1 {
				t.supp = s.supp
			} else {
				t.supp = -2
			}
		}
	}
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	return c.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(i int) *Term { return c.vars[i].t }

// variables are created in path order; index i is reused across paths when width agrees.
func (c *TermCtx) newVar(i int, w uint8, name string) *Term {
	for len(c.vars) <= i {
		c.vars = append(c.vars, nil)
	}
	vi := c.vars[i]
	if vi != nil && vi.w == w {
		return vi.t
	}
	// different width at the same index: give it a distinct identity through op val high bits
	t := c.mk(OVar, w, uint64(i), nil, nil, nil)
	c.vars[i] = &VarInfo{name: name, w: w, t: t}
	return t
}

func varName(t *Term) string { return fmt.Sprintf("v%d_%d", t.val, t.w) }

func (c *TermCtx) Not(x *Term) *Term {
	if x.op == OConst {
		return c.Bool(x.val == 0)
	}
	if x.op == ONot {
		return x.a
	}
	return c.mk(ONot, 0, 0, x, nil, nil)
}

func (c *TermCtx) And(x, y *Term) *Term {
	if x == c.False || y == c.False {
		return c.False
	}
	if x == c.True || x == y {
		return y
	}
	if y == c.True {
		return x
	}
	if x.op == ONot && x.a == y || y.op == ONot && y.a == x {
		return c.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OAnd, 0, 0, x, y, nil)
}

func (c *TermCtx) Or(x, y *Term) *Term {
	if x == c.True || y == c.True {
		return c.True
	}
	if x == c.False || x == y {
		return y
	}
	if y == c.False {
		return x
	}
	if x.op == ONot && x.a == y || y.op == ONot && y.a == x {
		return c.True
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OOr, 0, 0, x, y, nil)
}

func (c *TermCtx) Ite(k, x, y *Term) *Term {
	if k == c.True {
		return x
	}
	if k == c.False {
		return y
	}
	if x == y {
		return x
	}
	if k.op == ONot {
		return c.Ite(k.a, y, x)
	}
	if x.w == 0 {
		if x == c.True {
			return c.Or(k, y)
		}
		if x == c.False {
			return c.And(c.Not(k), y)
		}
		if y == c.True {
			return c.Or(c.Not(k), x)
		}
		if y == c.False {
			return c.And(k, x)
		}
	}
	if x.op == OIte && x.a == k {
		x = x.b
	}
	if y.op == OIte && y.a == k {
		y = y.c
	}
	if x == y {
		return x
	}
	return c.mk(OIte, x.w, 0, k, x, y)
}

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.op == OConst && y.op == OConst {
		return c.Bool(x.val == y.val)
	}
	if x.op == OConst {
		x, y = y, x
	}
	if y.op == OConst {
		if x.w == 0 {
			if y.val == 1 {
				return x
			}
			return c.Not(x)
		}
		switch x.op {
		case OZext:
			if y.val > mask(x.a.w) {
				return c.False
			}
			return c.Eq(x.a, c.Const(x.a.w, y.val))
		case OSext:
			if uint64(sext(y.val&mask(x.a.w), x.a.w))&mask(x.w) != y.val {
				return c.False
			}
			return c.Eq(x.a, c.Const(x.a.w, y.val))
		case OAdd:
			if x.b.op == OConst {
				return c.Eq(x.a, c.Const(x.w, y.val-x.b.val))
			}
		case OIte:
			if x.b.op == OConst && x.c.op == OConst {
				tb, fb := x.b.val == y.val, x.c.val == y.val
				switch {
				case tb && fb:
					return c.True
				case tb:
					return x.a
				case fb:
					return c.Not(x.a)
				default:
					return c.False
				}
			}
			if x.b.op == OConst || x.c.op == OConst {
				return c.Ite(x.a, c.Eq(x.b, y), c.Eq(x.c, y))
			}
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		return c.Eq(x.a, y.a)
	}
	return c.mk(OEq, 0, 0, x, y, nil)
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	switch op {
	case OBvAnd:
		return a & b
	case OBvOr:
		return a | b
	case OBvXor:
		return a ^ b
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & mask(w)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, w) < sext(b, w))
	case OSle:
		return b2u(sext(a, w) <= sext(b, w))
	}
	panic("evalBin")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) Cmp(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return c.Bool(evalBin(op, x.w, x.val, y.val) != 0)
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	w := x.w
	// push comparison through zero extension
	if x.op == OZext && y.op == OConst {
		n := x.a.w
		if (op == OSlt || op == OSle) && sext(y.val, w) < 0 {
			return c.False
		}
		if y.val > mask(n) {
			return c.True
		}
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return c.Cmp(op, x.a, c.Const(n, y.val))
	}
	if y.op == OZext && x.op == OConst {
		n := y.a.w
		if (op == OSlt || op == OSle) && sext(x.val, w) < 0 {
			return c.True
		}
		if x.val > mask(n) {
			return c.False
		}
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return c.Cmp(op, c.Const(n, x.val), y.a)
	}
	if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
		if op == OSlt {
			op = OUlt
		} else if op == OSle {
			op = OUle
		}
		return c.Cmp(op, x.a, y.a)
	}
	if op == OUlt && y.op == OConst {
		if y.val == 0 {
			return c.False
		}
		if y.val == 1 {
			return c.Eq(x, c.Const(w, 0))
		}
	}
	if op == OUle && y.op == OConst && y.val == mask(w) {
		return c.True
	}
	if op == OUle && x.op == OConst && x.val == 0 {
		return c.True
	}
	if op == OUlt && x.op == OConst && x.val == mask(w) {
		return c.False
	}
	return c.mk(op, 0, 0, x, y, nil)
}

func (c *TermCtx) Bin(op Op, x, y *Term) *Term {
	switch op {
	case OUlt, OUle, OSlt, OSle:
		return c.Cmp(op, x, y)
	case OEq:
		return c.Eq(x, y)
	}
	w := x.w
	if x.op == OConst && y.op == OConst {
		return c.Const(w, evalBin(op, w, x.val, y.val))
	}
	switch op {
	case OAdd, OMul, OBvAnd, OBvOr, OBvXor:
		if x.op == OConst || (y.op != OConst && x.id > y.id) {
			x, y = y, x
		}
	}
	if y.op == OConst {
		switch op {
		case OAdd, OSub, OBvOr, OBvXor, OShl, OLshr, OAshr:
			if y.val == 0 {
				return x
			}
		case OBvAnd:
			if y.val == 0 {
				return y
			}
			if y.val == mask(w) {
				return x
			}
			if x.op == OZext && y.val&mask(x.a.w) == mask(x.a.w) {
				return x
			}
			if x.op == OBvAnd && x.b.op == OConst {
				return c.Bin(OBvAnd, x.a, c.Const(w, x.b.val&y.val))
			}
		case OMul:
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
		case OUDiv, OSDiv:
			if y.val == 1 {
				return x
			}
		}
		if op == OSub {
			return c.Bin(OAdd, x, c.Const(w, -y.val))
		}
		if op == OAdd && x.op == OAdd && x.b.op == OConst {
			return c.Bin(OAdd, x.a, c.Const(w, x.b.val+y.val))
		}
		if op == OLshr && x.op == OZext && y.val >= uint64(x.a.w) {
			return c.Const(w, 0)
		}
		// arithmetic on an ite of constants stays an ite of constants
		if x.op == OIte && x.b.op == OConst && x.c.op == OConst {
			return c.Ite(x.a, c.Const(w, evalBin(op, w, x.b.val, y.val)), c.Const(w, evalBin(op, w, x.c.val, y.val)))
		}
	}
	if x == y {
		switch op {
		case OSub, OBvXor:
			return c.Const(w, 0)
		case OBvAnd, OBvOr:
			return x
		}
	}
	return c.mk(op, w, 0, x, y, nil)
}

func (c *TermCtx) Un(op Op, x *Term) *Term {
	if x.op == OConst {
		if op == OBvNot {
			return c.Const(x.w, ^x.val)
		}
		return c.Const(x.w, -x.val)
	}
	return c.mk(op, x.w, 0, x, nil, nil)
}

func (c *TermCtx) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return c.Const(w, x.val)
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	return c.mk(OZext, w, 0, x, nil, nil)
}

func (c *TermCtx) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.op == OConst {
		return c.Const(w, uint64(sext(x.val, x.w)))
	}
	if x.op == OZext {
		return c.Zext(x.a, w)
	}
	return c.mk(OSext, w, 0, x, nil, nil)
}

func (c *TermCtx) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && x.w == w {
		return x
	}
	if x.op == OConst {
		return c.Const(w, x.val>>lo)
	}
	if x.op == OZext || x.op == OSext {
		if lo+w <= x.a.w {
			return c.Extract(x.a, lo, w)
		}
		if lo == 0 && x.a.w <= w {
			if x.op == OZext {
				return c.Zext(x.a, w)
			}
			return c.Sext(x.a, w)
		}
		if x.op == OZext && lo >= x.a.w {
			return c.Const(w, 0)
		}
	}
	if x.op == OExtract {
		return c.Extract(x.a, lo+uint8(x.val), w)
	}
	if x.op == OIte && x.b.op == OConst && x.c.op == OConst {
		return c.Ite(x.a, c.Const(w, x.b.val>>lo), c.Const(w, x.c.val>>lo))
	}
	if lo == 0 && (x.op == OBvAnd || x.op == OBvOr || x.op == OBvXor || x.op == OAdd) && x.b.op == OConst {
		return c.Bin(x.op, c.Extract(x.a, 0, w), c.Const(w, x.b.val))
	}
	return c.mk(OExtract, w, uint64(lo), x, nil, nil)
}

// FromBool turns a Bool term into a 0/1 bit-vector.
func (c *TermCtx) FromBool(x *Term, w uint8) *Term {
	return c.Ite(x, c.Const(w, 1), c.Const(w, 0))
}

// eval evaluates t under model m; results are memoised per c.mEpoch.
func (c *TermCtx) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(m) {
			return m[t.val] & mask(t.w)
		}
		return 0
	}
	if t.mEpoch == c.mEpoch {
		return t.mVal
	}
	var r uint64
	switch t.op {
	case ONot:
		r = c.eval(t.a, m) ^ 1
	case OAnd:
		r = c.eval(t.a, m)
		if r != 0 {
			r = c.eval(t.b, m)
		}
	case OOr:
		r = c.eval(t.a, m)
		if r == 0 {
			r = c.eval(t.b, m)
		}
	case OEq:
		r = b2u(c.eval(t.a, m) == c.eval(t.b, m))
	case OIte:
		if c.eval(t.a, m) != 0 {
			r = c.eval(t.b, m)
		} else {
			r = c.eval(t.c, m)
		}
	case OBvNot:
		r = ^c.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -c.eval(t.a, m) & mask(t.w)
	case OExtract:
		r = (c.eval(t.a, m) >> t.val) & mask(t.w)
	case OZext:
		r = c.eval(t.a, m)
	case OSext:
		r = uint64(sext(c.eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.a.w, c.eval(t.a, m), c.eval(t.b, m))
	}
	t.mEpoch = c.mEpoch
	t.mVal = r
	return r
}

func (c *TermCtx) bumpModel() { c.mEpoch++ }

// truthSet returns the set of values of the single byte-sized variable for which t holds.
func (c *TermCtx) truthSet(t *Term) *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	v := int(t.supp)
	vi := c.vars[v]
	m := make([]uint64, v+1)
	var s [4]uint64
	n := 1 << vi.w
	for x := 0; x < n; x++ {
		m[v] = uint64(x)
		c.mEpoch++
		if c.eval(t, m) != 0 {
			s[x>>6] |= 1 << (x & 63)
		}
	}
	c.mEpoch++
	t.dom = &s
	return &s
}

func domEmpty(d *[4]uint64) bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func domCount(d *[4]uint64) int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func domFirst(d *[4]uint64) uint64 {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(d[i]))
		}
	}
	return 0
}
func domHas(d *[4]uint64, v uint64) bool { return v < 256 && d[v>>6]>>(v&63)&1 == 1 }
func domFull(w uint8) (d [4]uint64) {
	n := 1 << w
	for i := 0; i < 4; i++ {
		if n >= 64*(i+1) {
			d[i] = ^uint64(0)
		} else if n > 64*i {
			d[i] = 1<<(n-64*i) - 1
		}
	}
	return
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constName(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			sb.WriteString(constName(t))
		} else {
			fmt.Fprintf(sb, "%d", t.val)
		}
		return
	case OVar:
		sb.WriteString(varName(t))
		return
	}
	if d == 0 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "(extract%d:%d", t.val, t.w)
	case OZext:
		fmt.Fprintf(sb, "(zext%d", t.w)
	case OSext:
		fmt.Fprintf(sb, "(sext%d", t.w)
	default:
		sb.WriteString("(" + opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d-1)
		}
	}
	sb.WriteByte(')')
}
