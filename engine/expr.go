package main

import (
	"fmt"
	"math/bits"
)

// Op is the operator of a symbolic expression.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OZext
	OSext
	OExtract // k = low bit
	OIte
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvshl", "bvlshr", "bvashr",
	"bvand", "bvor", "bvxor", "bvnot", "bvneg", "zext", "sext", "extract", "ite"}

// VarSet is a conservative set of variables (indices over 126 share one bit).
type VarSet [2]uint64

func (v VarSet) intersects(o VarSet) bool { return v[0]&o[0] != 0 || v[1]&o[1] != 0 }
func (v VarSet) or(o VarSet) VarSet       { return VarSet{v[0] | o[0], v[1] | o[1]} }
func (v VarSet) empty() bool              { return v[0] == 0 && v[1] == 0 }
func (v VarSet) count() int               { return bits.OnesCount64(v[0]) + bits.OnesCount64(v[1]) }
func (v VarSet) single() int {
	if v[0] != 0 {
		return bits.TrailingZeros64(v[0])
	}
	return 64 + bits.TrailingZeros64(v[1])
}

// Expr is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Expr struct {
	op      Op
	w       uint8
	cl      bool // tree of ite with constant leaves
	size    int32
	k       uint64
	a, b, c *Expr
	vars    VarSet
	h       [2]uint64
	ev      uint64
	evs     uint32
	ps      uint32 // print stamp
	pref    int32
	vec     *[256]uint64
}

type ekey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Expr
}

// EB builds expressions; one per path.
type EB struct {
	tab   map[ekey]*Expr
	tru   *Expr
	fls   *Expr
	stamp uint32
	vars  []*Expr
}

func newEB() *EB {
	e := &EB{}
	e.reset()
	return e
}

func (e *EB) reset() {
	if e.tab == nil || len(e.tab) > 20000 {
		e.tab = make(map[ekey]*Expr, 256)
	} else {
		clear(e.tab)
	}
	e.vars = e.vars[:0]
	e.tru = e.raw(OConst, 0, 1, nil, nil, nil)
	e.fls = e.raw(OConst, 0, 0, nil, nil, nil)
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

func (e *EB) raw(op Op, w uint8, k uint64, a, b, c *Expr) *Expr {
	key := ekey{op, w, k, a, b, c}
	if x, ok := e.tab[key]; ok {
		return x
	}
	x := &Expr{op: op, w: w, k: k, a: a, b: b, c: c, size: 1}
	h0 := mix(uint64(op)<<8|uint64(w), k)
	h1 := mix(h0+0x1234567, k+77)
	for _, y := range [3]*Expr{a, b, c} {
		if y != nil {
			x.vars = x.vars.or(y.vars)
			h0 = mix(h0, y.h[0])
			h1 = mix(h1, y.h[1])
			if x.size < 1<<28 {
				x.size += y.size
			}
		} else {
			h0 = mix(h0, 3)
			h1 = mix(h1, 5)
		}
	}
	x.h = [2]uint64{h0, h1}
	switch op {
	case OConst:
		x.cl = true
	case OIte:
		x.cl = b.cl && c.cl && x.size < 400
	}
	e.tab[key] = x
	return x
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (e *EB) Const(v uint64, w uint8) *Expr { return e.raw(OConst, w, v&mask(w), nil, nil, nil) }
func (e *EB) Bool(b bool) *Expr {
	if b {
		return e.tru
	}
	return e.fls
}

// NewVar creates the next variable of the path.
func (e *EB) NewVar(w uint8) *Expr {
	idx := len(e.vars)
	x := &Expr{op: OVar, w: w, k: uint64(idx), size: 1}
	b := idx
	if b > 127 {
		b = 127
	}
	x.vars[b/64] |= 1 << (b % 64)
	x.h = [2]uint64{mix(uint64(w)+1000, uint64(idx)), mix(uint64(w)+99, uint64(idx)+5)}
	e.vars = append(e.vars, x)
	e.tab[ekey{OVar, w, uint64(idx), nil, nil, nil}] = x
	return x
}

func (x *Expr) isC() bool     { return x.op == OConst }
func (x *Expr) isTrue() bool  { return x.op == OConst && x.w == 0 && x.k == 1 }
func (x *Expr) isFalse() bool { return x.op == OConst && x.w == 0 && x.k == 0 }

func evalOp(op Op, w uint8, ow uint8, k uint64, a, b, c uint64) uint64 {
	// w = result width, ow = operand width (of a)
	switch op {
	case ONot:
		return a ^ 1
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		if a == b {
			return 1
		}
		return 0
	case OUlt:
		if a < b {
			return 1
		}
		return 0
	case OUle:
		if a <= b {
			return 1
		}
		return 0
	case OSlt:
		if sext64(a, ow) < sext64(b, ow) {
			return 1
		}
		return 0
	case OSle:
		if sext64(a, ow) <= sext64(b, ow) {
			return 1
		}
		return 0
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, ow), sext64(b, ow)
		if y == 0 {
			if x >= 0 {
				return mask(w)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sext64(a, ow), sext64(b, ow)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sext64(a, ow)
		if b >= uint64(w) {
			b = 63
		}
		return uint64(x>>b) & mask(w)
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OBNot:
		return ^a & mask(w)
	case ONeg:
		return (-a) & mask(w)
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, ow)) & mask(w)
	case OExtract:
		return (a >> k) & mask(w)
	case OIte:
		if a != 0 {
			return b
		}
		return c
	}
	panic("evalOp")
}

// Eval evaluates x under a model (missing variables are 0).
func (e *EB) Eval(x *Expr, model []uint64) uint64 {
	e.stamp++
	return e.eval(x, model)
}

func (e *EB) eval(x *Expr, model []uint64) uint64 {
	switch x.op {
	case OConst:
		return x.k
	case OVar:
		if int(x.k) < len(model) {
			return model[x.k] & mask(x.w)
		}
		return 0
	}
	if x.evs == e.stamp {
		return x.ev
	}
	var r uint64
	switch x.op {
	case OIte:
		if e.eval(x.a, model) != 0 {
			r = e.eval(x.b, model)
		} else {
			r = e.eval(x.c, model)
		}
	case OAnd:
		r = e.eval(x.a, model)
		if r != 0 {
			r = e.eval(x.b, model)
		}
	case OOr:
		r = e.eval(x.a, model)
		if r == 0 {
			r = e.eval(x.b, model)
		}
	default:
		a := e.eval(x.a, model)
		var b uint64
		if x.b != nil {
			b = e.eval(x.b, model)
		}
		r = evalOp(x.op, x.w, x.a.w, x.k, a, b, 0)
	}
	x.ev = r
	x.evs = e.stamp
	return r
}

// vec256 evaluates a unary expression over all values of its (<=8 bit) variable.
func vec256(x *Expr) *[256]uint64 {
	if x.vec != nil {
		return x.vec
	}
	v := new([256]uint64)
	switch x.op {
	case OConst:
		for i := range v {
			v[i] = x.k
		}
	case OVar:
		m := mask(x.w)
		for i := range v {
			v[i] = uint64(i) & m
		}
	default:
		a := vec256(x.a)
		var b, c *[256]uint64
		if x.b != nil {
			b = vec256(x.b)
		}
		if x.c != nil {
			c = vec256(x.c)
		}
		for i := range v {
			var bb, cc uint64
			if b != nil {
				bb = b[i]
			}
			if c != nil {
				cc = c[i]
			}
			v[i] = evalOp(x.op, x.w, x.a.w, x.k, a[i], bb, cc)
		}
	}
	x.vec = v
	return v
}

func (e *EB) Not(a *Expr) *Expr {
	if a.w != 0 {
		panic("Not on bv")
	}
	switch a.op {
	case OConst:
		return e.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return e.Ule(a.b, a.a)
	case OUle:
		return e.Ult(a.b, a.a)
	case OSlt:
		return e.Sle(a.b, a.a)
	case OSle:
		return e.Slt(a.b, a.a)
	}
	return e.raw(ONot, 0, 0, a, nil, nil)
}

func (e *EB) And(a, b *Expr) *Expr {
	if a.isC() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return e.fls
	}
	// x==c1 && x==c2
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.isC() && b.b.isC() && a.b != b.b {
		return e.fls
	}
	return e.raw(OAnd, 0, 0, a, b, nil)
}

func (e *EB) Or(a, b *Expr) *Expr {
	if a.isC() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return e.tru
	}
	// (g && c) || (g && !c)
	if a.op == OAnd && b.op == OAnd && a.a == b.a && ((a.b.op == ONot && a.b.a == b.b) || (b.b.op == ONot && b.b.a == a.b)) {
		return a.a
	}
	return e.raw(OOr, 0, 0, a, b, nil)
}

// distribute op over an ite-tree of constants
func (e *EB) mapLeaves(x *Expr, f func(k *Expr) *Expr) *Expr {
	memo := map[*Expr]*Expr{}
	var rec func(x *Expr) *Expr
	rec = func(x *Expr) *Expr {
		if x.op == OConst {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := e.Ite(x.a, rec(x.b), rec(x.c))
		memo[x] = r
		return r
	}
	return rec(x)
}

func (e *EB) Ite(c, a, b *Expr) *Expr {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return e.Ite(c.a, b, a)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isC() {
			if a.k == 1 {
				return e.Or(c, b)
			}
			return e.And(e.Not(c), b)
		}
		if b.isC() {
			if b.k == 1 {
				return e.Or(e.Not(c), a)
			}
			return e.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return e.raw(OIte, a.w, 0, c, a, b)
}

func (e *EB) Eq(a, b *Expr) *Expr {
	if a == b {
		return e.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return e.Bool(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return e.Not(a)
		}
		return e.raw(OEq, 0, 0, a, b, nil)
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return e.fls
			}
			return e.Eq(a.a, e.Const(b.k, a.a.w))
		case OSext:
			if uint64(sext64(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return e.fls
			}
			return e.Eq(a.a, e.Const(b.k, a.a.w))
		case OAdd:
			if a.b.isC() {
				return e.Eq(a.a, e.Const(b.k-a.b.k, a.w))
			}
		case OSub:
			if a.b.isC() {
				return e.Eq(a.a, e.Const(b.k+a.b.k, a.w))
			}
		case OBXor:
			if a.b.isC() {
				return e.Eq(a.a, e.Const(b.k^a.b.k, a.w))
			}
		case OIte:
			if a.cl {
				return e.mapLeaves(a, func(k *Expr) *Expr { return e.Bool(k.k == b.k) })
			}
			if a.b.isC() || a.c.isC() {
				return e.Ite(a.a, e.Eq(a.b, b), e.Eq(a.c, b))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return e.Eq(a.a, b.a)
	} else if a.h[0] > b.h[0] {
		a, b = b, a
	}
	return e.raw(OEq, 0, 0, a, b, nil)
}

func (e *EB) cmp(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic("cmp width")
	}
	if a.isC() && b.isC() {
		return e.Bool(evalOp(op, 0, a.w, 0, a.k, b.k, 0) == 1)
	}
	if a == b {
		return e.Bool(op == OUle || op == OSle)
	}
	if b.isC() && a.cl {
		return e.mapLeaves(a, func(k *Expr) *Expr { return e.Bool(evalOp(op, 0, a.w, 0, k.k, b.k, 0) == 1) })
	}
	if a.isC() && b.cl {
		return e.mapLeaves(b, func(k *Expr) *Expr { return e.Bool(evalOp(op, 0, a.w, 0, a.k, k.k, 0) == 1) })
	}
	// narrow zext
	if op == OSlt || op == OSle {
		uop := OUlt
		if op == OSle {
			uop = OUle
		}
		nonneg := func(x *Expr) bool {
			return (x.op == OConst && sext64(x.k, x.w) >= 0) || x.op == OZext || (x.op == OLShr && x.b.isC() && x.b.k > 0) ||
				(x.op == OBAnd && x.b.isC() && sext64(x.b.k, x.w) >= 0)
		}
		if nonneg(a) && nonneg(b) {
			return e.cmp(uop, a, b)
		}
		if a.op == OZext && b.isC() && sext64(b.k, b.w) < 0 {
			return e.fls
		}
		if b.op == OZext && a.isC() && sext64(a.k, a.w) < 0 {
			return e.tru
		}
		if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return e.cmp(op, a.a, b.a)
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return e.cmp(op, a.a, b.a)
		}
		if a.op == OZext && b.isC() {
			if b.k > mask(a.a.w) {
				return e.tru
			}
			return e.cmp(op, a.a, e.Const(b.k, a.a.w))
		}
		if b.op == OZext && a.isC() {
			if a.k > mask(b.a.w) {
				return e.fls
			}
			return e.cmp(op, e.Const(a.k, b.a.w), b.a)
		}
		if op == OUlt {
			if b.isC() && b.k == 0 {
				return e.fls
			}
			if b.isC() && b.k == 1 {
				return e.Eq(a, e.Const(0, a.w))
			}
			if a.isC() && a.k == mask(a.w) {
				return e.fls
			}
		} else {
			if a.isC() && a.k == 0 {
				return e.tru
			}
			if b.isC() && b.k == mask(b.w) {
				return e.tru
			}
			if b.isC() && b.k == 0 {
				return e.Eq(a, b)
			}
		}
	}
	return e.raw(op, 0, 0, a, b, nil)
}

func (e *EB) Ult(a, b *Expr) *Expr { return e.cmp(OUlt, a, b) }
func (e *EB) Ule(a, b *Expr) *Expr { return e.cmp(OUle, a, b) }
func (e *EB) Slt(a, b *Expr) *Expr { return e.cmp(OSlt, a, b) }
func (e *EB) Sle(a, b *Expr) *Expr { return e.cmp(OSle, a, b) }

// Bin builds a bit-vector binary operation.
func (e *EB) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width %d %d", opNames[op], a.w, b.w))
	}
	if a.isC() && b.isC() {
		return e.Const(evalOp(op, w, w, 0, a.k, b.k, 0), w)
	}
	if b.isC() && a.cl {
		return e.mapLeaves(a, func(k *Expr) *Expr { return e.Const(evalOp(op, w, w, 0, k.k, b.k, 0), w) })
	}
	if a.isC() && b.cl {
		return e.mapLeaves(b, func(k *Expr) *Expr { return e.Const(evalOp(op, w, w, 0, a.k, k.k, 0), w) })
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isC() {
			a, b = b, a
		}
	}
	if b.isC() {
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return e.Bin(OAdd, a.a, e.Const(a.b.k+b.k, w))
			}
			if a.op == OSub && a.b.isC() {
				return e.Bin(OAdd, a.a, e.Const(b.k-a.b.k, w))
			}
		case OSub:
			if b.k == 0 {
				return a
			}
			return e.Bin(OAdd, a, e.Const(-b.k, w))
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZext && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OZext {
				return e.Zext(e.Bin(OBAnd, a.a, e.Const(b.k, a.a.w)), w)
			}
		case OBOr:
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		case OBXor:
			if b.k == 0 {
				return a
			}
		case OShl, OLShr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return e.Const(0, w)
			}
			if op == OLShr && a.op == OZext && b.k >= uint64(a.a.w) {
				return e.Const(0, w)
			}
		case OAShr:
			if b.k == 0 {
				return a
			}
		case OUDiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return e.Bin(OLShr, a, e.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
			if a.op == OZext && b.k <= mask(a.a.w) {
				return e.Zext(e.Bin(OUDiv, a.a, e.Const(b.k, a.a.w)), w)
			}
		case OURem:
			if b.k == 1 {
				return e.Const(0, w)
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return e.Bin(OBAnd, a, e.Const(b.k-1, w))
			}
			if a.op == OZext && b.k <= mask(a.a.w) {
				return e.Zext(e.Bin(OURem, a.a, e.Const(b.k, a.a.w)), w)
			}
		}
	}
	if a.isC() && a.k == 0 {
		switch op {
		case OShl, OLShr, OAShr, OUDiv, OURem:
			if op != OUDiv && op != OURem {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return e.Const(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OBOr {
		if r := e.joinBytes(a, b); r != nil {
			return r
		}
	}
	return e.raw(op, w, 0, a, b, nil)
}

// joinBytes recognises the reassembly of x from its low bytes: (x & lowmask) | (zext(extract(x)) << k).
func (e *EB) joinBytes(a, b *Expr) *Expr {
	// interpret an expression as bits [lo, lo+n) of some base placed at position lo
	part := func(x *Expr) (base *Expr, lo, n uint64, ok bool) {
		sh := uint64(0)
		if x.op == OShl && x.b.isC() {
			sh = x.b.k
			x = x.a
		}
		if x.op == OZext {
			y := x.a
			if y.op == OExtract {
				if y.k == sh {
					return y.a, sh, uint64(y.w), true
				}
			} else if sh == 0 && y.op != OVar {
				return y, 0, uint64(y.w), false
			}
		}
		return nil, 0, 0, false
	}
	b1, l1, n1, ok1 := part(a)
	b2, l2, n2, ok2 := part(b)
	if !ok1 || !ok2 || b1 != b2 {
		return nil
	}
	if l1+n1 == l2 {
		return e.shlz(e.Extract(b1, l1, uint8(n1+n2)), l1, a.w)
	}
	if l2+n2 == l1 {
		return e.shlz(e.Extract(b1, l2, uint8(n1+n2)), l2, a.w)
	}
	return nil
}

func (e *EB) shlz(x *Expr, sh uint64, w uint8) *Expr {
	x = e.Zext(x, w)
	if sh == 0 {
		return x
	}
	return e.Bin(OShl, x, e.Const(sh, w))
}

func (e *EB) BNot(a *Expr) *Expr {
	if a.isC() {
		return e.Const(^a.k, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return e.raw(OBNot, a.w, 0, a, nil, nil)
}

func (e *EB) Neg(a *Expr) *Expr {
	if a.isC() {
		return e.Const(-a.k, a.w)
	}
	return e.raw(ONeg, a.w, 0, a, nil, nil)
}

func (e *EB) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		return e.Extract(a, 0, w)
	}
	if a.isC() {
		return e.Const(a.k, w)
	}
	if a.cl {
		return e.mapLeaves(a, func(k *Expr) *Expr { return e.Const(k.k, w) })
	}
	if a.op == OZext {
		return e.Zext(a.a, w)
	}
	return e.raw(OZext, w, 0, a, nil, nil)
}

func (e *EB) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.w > w {
		return e.Extract(a, 0, w)
	}
	if a.isC() {
		return e.Const(uint64(sext64(a.k, a.w)), w)
	}
	if a.cl {
		return e.mapLeaves(a, func(k *Expr) *Expr { return e.Const(uint64(sext64(k.k, a.w)), w) })
	}
	if a.op == OZext {
		return e.Zext(a.a, w)
	}
	return e.raw(OSext, w, 0, a, nil, nil)
}

// Extract takes w bits starting at lo.
func (e *EB) Extract(a *Expr, lo uint64, w uint8) *Expr {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isC() {
		return e.Const(a.k>>lo, w)
	}
	if a.cl {
		return e.mapLeaves(a, func(k *Expr) *Expr { return e.Const(k.k>>lo, w) })
	}
	switch a.op {
	case OZext, OSext:
		if lo+uint64(w) <= uint64(a.a.w) {
			return e.Extract(a.a, lo, w)
		}
		if a.op == OZext && lo >= uint64(a.a.w) {
			return e.Const(0, w)
		}
		if lo == 0 && a.op == OZext {
			return e.Zext(a.a, w)
		}
		if lo == 0 && a.op == OSext {
			return e.Sext(a.a, w)
		}
	case OExtract:
		return e.Extract(a.a, a.k+lo, w)
	case OLShr:
		if a.b.isC() && a.b.k+lo+uint64(w) <= uint64(a.w) {
			return e.Extract(a.a, a.b.k+lo, w)
		}
	case OBAnd:
		if a.b.isC() && (a.b.k>>lo)&mask(w) == mask(w) {
			return e.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return e.Bin(OBAnd, e.Extract(a.a, 0, w), e.Extract(a.b, 0, w))
		}
	case OBOr, OBXor:
		return e.Bin(a.op, e.Extract(a.a, lo, w), e.Extract(a.b, lo, w))
	case OShl:
		if a.b.isC() {
			if lo >= a.b.k {
				return e.Extract(a.a, lo-a.b.k, w)
			}
			if lo+uint64(w) <= a.b.k {
				return e.Const(0, w)
			}
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return e.Bin(a.op, e.Extract(a.a, 0, w), e.Extract(a.b, 0, w))
		}
	case OIte:
		return e.Ite(a.a, e.Extract(a.b, lo, w), e.Extract(a.c, lo, w))
	}
	return e.raw(OExtract, w, lo, a, nil, nil)
}
