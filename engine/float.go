package main

import (
	"go/token"
	"math"
	"strconv"
	"strings"
)

// Symbolic floats. Floating point arithmetic is not encoded; what is encoded are the floats that are
// the nearest to a decimal with symbolic digits, and the floats that are symbolic integers.
//
// A decimal of at most 15 significant digits (6 for a float32) in the normal range is the unique
// shortest decimal that reads back as its nearest float, so formatting such a float "as short as
// possible" gives the digits back, and comparing two of them compares their decimals. Everything
// else done to a symbolic float pins its digits to a few concrete values and is counted as outside
// of the supported fragment.
type SymF struct {
	neg  bool
	dig  []Value // '0'..'9', first and last not '0'
	exp  int     // the value is 0.d1d2d3 times 10 to this power
	prec uint8   // it is the nearest float32 or float64
	i    *Expr   // or: the value is this 64 bit integer
	sgn  bool    // i is signed
}

func symF(v Value) *SymF {
	s, _ := v.o.(*SymF)
	return s
}

// pinF chooses concrete digits for a symbolic float.
func (m *Machine) pinF(s *SymF) float64 {
	if m.spec > 0 {
		panic(specAbort{})
	}
	m.X.notePinned(m.where())
	if s.i != nil {
		n := m.pin(s.i)
		if s.sgn {
			return float64(int64(n))
		}
		return float64(n)
	}
	all := func(c byte) *Expr {
		x := m.eb.tru
		for _, d := range s.dig {
			x = m.eb.And(x, m.eb.Eq(m.toExpr(d, 8), m.eb.Const(uint64(c), 8)))
		}
		return x
	}
	a, b := all('3'), all('7')
	m.nway([]*Expr{a, b, m.eb.And(m.eb.Not(a), m.eb.Not(b))})
	txt := []byte("0.")
	for _, d := range s.dig {
		if d.o == nil {
			txt = append(txt, byte(d.n))
		} else {
			txt = append(txt, byte(m.pin(d.o.(*Expr))))
		}
	}
	f, _ := strconv.ParseFloat(string(txt)+"e"+strconv.Itoa(s.exp), int(s.prec))
	if s.neg {
		f = -f
	}
	return f
}

// pin fixes e to one value of the path: the other values are not explored.
func (m *Machine) pin(e *Expr) uint64 {
	if e.isC() {
		return e.k
	}
	if v, ok := m.conc[e]; ok {
		return v
	}
	v := uint64(0)
	if d, ok := m.nextDecision(1); ok {
		v = d.v
	} else {
		v = m.eb.Eval(e, m.model)
		m.record(Decision{kind: 1, v: v})
	}
	m.addPC(m.eb.Eq(e, m.eb.Const(v, e.w)))
	m.conc[e] = v
	return v
}

// decF makes a float out of decimal digits: zeros at both ends are removed, forking over them.
func (m *Machine) decF(neg bool, dig []Value, exp int, w uint8) (Value, bool) {
	zero := func(d Value) bool {
		if d.o == nil {
			return d.n == '0'
		}
		return m.branch(m.eb.Eq(m.toExpr(d, 8), m.eb.Const('0', 8)))
	}
	for len(dig) > 0 && zero(dig[0]) {
		dig, exp = dig[1:], exp-1
	}
	for len(dig) > 0 && zero(dig[len(dig)-1]) {
		dig = dig[:len(dig)-1]
	}
	sym := false
	txt := []byte("0.")
	for _, d := range dig {
		sym = sym || d.o != nil
		txt = append(txt, byte(d.n))
	}
	if !sym {
		if len(dig) == 0 {
			txt = append(txt, '0')
		}
		f, err := strconv.ParseFloat(string(txt)+"e"+strconv.Itoa(exp), int(w))
		if err != nil {
			return Value{}, false
		}
		if neg {
			f = -f
			if f == 0 {
				f = math.Copysign(0, -1)
			}
		}
		return fromF(f, w), true
	}
	s := &SymF{neg: neg, dig: append([]Value(nil), dig...), exp: exp, prec: w}
	if w == 32 && (len(dig) > 6 || exp < -30 || exp > 35) || w == 64 && (len(dig) > 15 || exp < -290 || exp > 300) {
		return Value{}, false
	}
	return Value{o: s}, true
}

// floatTo is the conversion to a float of w bits.
func (m *Machine) floatTo(v Value, w uint8) Value {
	s := symF(v)
	if s == nil {
		return fromF(toF(m, v), w)
	}
	if w == 64 || s.i == nil && s.prec == 32 {
		return v
	}
	if s.i != nil {
		if m.intWithin(s, 1<<24) {
			return v
		}
		return fromF(m.pinF(s), w)
	}
	// rounding twice gives the float32 nearest to such a decimal: it is never within half a unit of
	// a float64 of the middle of two float32s without being that middle
	if len(s.dig) <= 6 && len(s.dig)-s.exp <= 8 && s.exp <= 12 {
		t := *s
		t.prec = 32
		return Value{o: &t}
	}
	return fromF(m.pinF(s), w)
}

func (m *Machine) intWithin(s *SymF, lim uint64) bool {
	if s.sgn {
		return m.branch(m.eb.And(m.eb.Sle(m.eb.Const(-lim, 64), s.i), m.eb.Sle(s.i, m.eb.Const(lim, 64))))
	}
	return m.branch(m.eb.Ule(s.i, m.eb.Const(lim, 64)))
}

// intToFloat converts a symbolic integer.
func (m *Machine) intToFloat(v Value, from *TInfo, w uint8) Value {
	e := m.toExpr(v, from.w)
	if k, ok := m.conc[e]; ok {
		if from.signed {
			return fromF(float64(sext64(k, from.w)), w)
		}
		return fromF(float64(k), w)
	}
	s := &SymF{i: e, sgn: from.signed}
	if from.w < 64 && from.signed {
		s.i = m.eb.Sext(e, 64)
	} else if from.w < 64 {
		s.i = m.eb.Zext(e, 64)
	}
	lim := uint64(1 << 53)
	if w == 32 {
		lim = 1 << 24
	}
	if m.intWithin(s, lim) {
		return Value{o: s}
	}
	return fromF(m.pinF(s), w)
}

// floatToInt gives the integer part of a symbolic float.
func (m *Machine) floatToInt(s *SymF, to *TInfo) Value {
	if s.i != nil {
		if to.w == 64 {
			return exprVal(s.i)
		}
		return exprVal(m.eb.Extract(s.i, 0, to.w))
	}
	if s.exp > 18 || s.prec == 32 && (s.exp > 7 || len(s.dig) > s.exp) || s.neg && !to.signed || to.w < 64 {
		f := m.pinF(s)
		if to.signed {
			return Value{n: uint64(int64(f)) & mask(to.w)}
		}
		return Value{n: uint64(f) & mask(to.w)}
	}
	x := m.eb.Const(0, 64)
	for k := 0; k < s.exp; k++ {
		d := m.eb.Const('0', 64)
		if k < len(s.dig) {
			d = m.eb.Zext(m.toExpr(s.dig[k], 8), 64)
		}
		x = m.eb.Bin(OAdd, m.eb.Bin(OMul, x, m.eb.Const(10, 64)), m.eb.Bin(OSub, d, m.eb.Const('0', 64)))
	}
	if s.neg {
		x = m.eb.Neg(x)
	}
	return exprVal(x)
}

// truncF cuts the fraction off.
func (m *Machine) truncF(s *SymF) Value {
	if s.i != nil || s.exp >= len(s.dig) && s.prec == 64 {
		return Value{o: s}
	}
	if s.exp <= 0 && s.prec == 64 {
		if s.neg {
			return Value{n: 1 << 63}
		}
		return Value{}
	}
	if s.prec == 64 {
		if v, ok := m.decF(s.neg, s.dig[:s.exp], s.exp, 64); ok {
			return v
		}
	}
	return fromF(math.Trunc(m.pinF(s)), 64)
}

func (m *Machine) negF(v Value, w uint8) Value {
	if s := symF(v); s != nil && s.i == nil {
		t := *s
		t.neg = !t.neg
		return Value{o: &t}
	}
	return fromF(-toF(m, v), w)
}

func (m *Machine) absF(v Value) Value {
	s := symF(v)
	if s == nil {
		return fromF(math.Abs(toF(m, v)), 64)
	}
	t := *s
	t.neg = false
	if s.i != nil {
		if !s.sgn {
			return v
		}
		t.i = m.eb.Ite(m.eb.Slt(s.i, m.eb.Const(0, 64)), m.eb.Neg(s.i), s.i)
	}
	return Value{o: &t}
}

// shortDigits gives the shortest decimal of a finite c > 0.
func shortDigits(c float64, w int) (string, int) {
	t := strconv.FormatFloat(c, 'e', -1, w)
	e := strings.IndexByte(t, 'e')
	x, _ := strconv.Atoi(t[e+1:])
	return strings.TrimRight(strings.Replace(t[:e], ".", "", 1), "0"), x + 1
}

// cmpDec compares 0.a × 10^ae to 0.b × 10^be: less, equal.
func (m *Machine) cmpDec(a []Value, ae int, b []Value, be int) (*Expr, *Expr) {
	if ae != be {
		return m.eb.Bool(ae < be), m.eb.fls
	}
	lt, eq := m.eb.fls, m.eb.tru
	at := func(x []Value, i int) *Expr {
		if i < len(x) {
			return m.toExpr(x[i], 8)
		}
		return m.eb.Const('0', 8)
	}
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := at(a, i), at(b, i)
		lt = m.eb.Or(lt, m.eb.And(eq, m.eb.Ult(x, y)))
		eq = m.eb.And(eq, m.eb.Eq(x, y))
	}
	return lt, eq
}

// cmpFC compares a symbolic float to a constant, for a comparison made in w bits.
func (m *Machine) cmpFC(s *SymF, c float64, w uint8) (lt, eq *Expr, ok bool) {
	if math.IsNaN(c) {
		return m.eb.fls, m.eb.fls, true
	}
	if s.i != nil {
		f := math.Ceil(c)
		if math.Abs(f) > 1<<60 {
			return m.eb.Bool(f > 0), m.eb.fls, true
		}
		if !s.sgn && f < 0 {
			return m.eb.fls, m.eb.fls, true
		}
		k := m.eb.Const(uint64(int64(f)), 64)
		eq = m.eb.fls
		if f == c {
			eq = m.eb.Eq(s.i, k)
		}
		if s.sgn {
			return m.eb.Slt(s.i, k), eq, true
		}
		return m.eb.Ult(s.i, k), eq, true
	}
	if c == 0 || math.IsInf(c, 0) || (c < 0) != s.neg {
		switch {
		case math.IsInf(c, 0):
			return m.eb.Bool(c > 0), m.eb.fls, true
		case c == 0:
			return m.eb.Bool(s.neg), m.eb.fls, true
		}
		return m.eb.Bool(s.neg), m.eb.fls, true
	}
	bits, mag, exact := 64, math.Abs(c), true
	if s.prec == 32 {
		bits = 32
		if f := float32(mag); float64(f) != mag {
			// compare to the largest float32 below it: less or equal to that is less than c
			if math.IsInf(float64(f), 0) {
				return m.eb.Bool(!s.neg), m.eb.fls, true
			}
			if float64(f) > mag {
				f = math.Nextafter32(f, 0)
			}
			if f == 0 {
				return m.eb.Bool(s.neg), m.eb.fls, true
			}
			mag, exact = float64(f), false
		}
	} else if w == 32 {
		return nil, nil, false
	}
	d, e := shortDigits(mag, bits)
	lt, eq = m.cmpDec(s.dig, s.exp, strCells(makeStr(d)), e)
	if !exact {
		lt, eq = m.eb.Or(lt, eq), m.eb.fls
	}
	if s.neg {
		lt = m.eb.Not(m.eb.Or(lt, eq))
	}
	return lt, eq, true
}

// cmpF gives a < b and a == b.
func (m *Machine) cmpF(a, b Value, w uint8) (*Expr, *Expr) {
	s, t := symF(a), symF(b)
	switch {
	case s != nil && t == nil:
		if lt, eq, ok := m.cmpFC(s, toF(m, b), w); ok {
			return lt, eq
		}
	case s == nil && t != nil:
		c := toF(m, a)
		if lt, eq, ok := m.cmpFC(t, c, w); ok {
			if math.IsNaN(c) {
				return m.eb.fls, m.eb.fls
			}
			return m.eb.Not(m.eb.Or(lt, eq)), eq
		}
	case s != nil && s == t:
		return m.eb.fls, m.eb.tru
	case s != nil && s.i != nil && t.i != nil && s.sgn == t.sgn:
		eq := m.eb.Eq(s.i, t.i)
		if s.sgn {
			return m.eb.Slt(s.i, t.i), eq
		}
		return m.eb.Ult(s.i, t.i), eq
	case s != nil && s.i == nil && t.i == nil && s.prec == t.prec:
		if s.neg != t.neg {
			return m.eb.Bool(s.neg), m.eb.fls
		}
		lt, eq := m.cmpDec(s.dig, s.exp, t.dig, t.exp)
		if s.neg {
			lt = m.eb.Not(m.eb.Or(lt, eq))
		}
		return lt, eq
	}
	if s != nil && t != nil && (s.i == nil) != (t.i == nil) {
		d, n := s, t
		if s.i != nil {
			d, n = t, s
		}
		if d.exp <= 17 && n.sgn && (d.prec == 64 || d.exp <= 7 && len(d.dig) <= d.exp) {
			x := m.floatToInt(d, intTI).o
			if e, ok := x.(*Expr); ok {
				eq, lt := m.eb.Eq(e, n.i), m.eb.Slt(e, n.i)
				if d.exp < len(d.dig) { // d has a fraction
					eq = m.eb.fls
					if !d.neg {
						lt = m.eb.Slt(e, n.i)
					} else {
						lt = m.eb.Sle(e, n.i)
					}
				}
				if d == t {
					lt = m.eb.Not(m.eb.Or(lt, eq))
				}
				return lt, eq
			}
			if d.exp <= 0 && d.dig != nil {
				z := m.eb.Const(0, 64)
				lt := m.eb.Slt(z, n.i)
				if d.neg {
					lt = m.eb.Sle(z, n.i)
				}
				if d == t {
					lt = m.eb.Not(lt)
				}
				return lt, m.eb.fls
			}
		}
	}
	x, y := toF(m, a), toF(m, b)
	return m.eb.Bool(x < y), m.eb.Bool(x == y)
}

// floatOp is a binary operator with a symbolic operand.
func (m *Machine) floatOp(tok token.Token, a, b Value, w uint8) (Value, bool) {
	switch tok {
	case token.EQL:
		_, eq := m.cmpF(a, b, w)
		return exprVal(eq), true
	case token.NEQ:
		_, eq := m.cmpF(a, b, w)
		return exprVal(m.eb.Not(eq)), true
	case token.LSS:
		lt, _ := m.cmpF(a, b, w)
		return exprVal(lt), true
	case token.LEQ:
		lt, eq := m.cmpF(a, b, w)
		return exprVal(m.eb.Or(lt, eq)), true
	case token.GTR:
		lt, _ := m.cmpF(b, a, w)
		return exprVal(lt), true
	case token.GEQ:
		lt, eq := m.cmpF(b, a, w)
		return exprVal(m.eb.Or(lt, eq)), true
	}
	return Value{}, false
}

// floatFmt is strconv.FormatFloat.
func (m *Machine) floatFmt(v Value, f byte, prec, bits int) Value {
	s := symF(v)
	if s == nil || prec != -1 || strings.IndexByte("feEgG", f) < 0 || s.i == nil && int(s.prec) != bits {
		return makeStr(strconv.FormatFloat(toF(m, v), f, prec, bits))
	}
	if s.i != nil {
		if f != 'f' {
			return makeStr(strconv.FormatFloat(toF(m, v), f, prec, bits))
		}
		name := "FormatUint"
		if s.sgn {
			name = "FormatInt"
		}
		return intrins["strconv."+name](m, nil, []Value{exprVal(s.i), cInt(10)})
	}
	var out []Value
	put := func(t string) { out = append(out, strCells(makeStr(t))...) }
	if s.neg {
		put("-")
	}
	n := len(s.dig)
	if f == 'g' || f == 'G' {
		f -= 'g' - 'e'
		if x := s.exp - 1; x >= -4 && x < 6 {
			f = 'f'
		}
	}
	if f == 'f' {
		if s.exp <= 0 {
			put("0." + strings.Repeat("0", -s.exp))
			out = append(out, s.dig...)
		} else if s.exp >= n {
			out = append(out, s.dig...)
			put(strings.Repeat("0", s.exp-n))
		} else {
			out = append(out, s.dig[:s.exp]...)
			put(".")
			out = append(out, s.dig[s.exp:]...)
		}
		return m.bytesVal(out)
	}
	out = append(out, s.dig[0])
	if n > 1 {
		put(".")
		out = append(out, s.dig[1:]...)
	}
	e := s.exp - 1
	t := string(f)
	if e < 0 {
		t += "-"
		e = -e
	} else {
		t += "+"
	}
	if e < 10 {
		t += "0"
	}
	put(t + strconv.Itoa(e))
	return m.bytesVal(out)
}

// parseFloat is strconv.ParseFloat for text with symbolic digits; ok is false when the text is not
// a plain decimal.
func (m *Machine) parseFloat(cs []Value, w uint8, plain bool) (Value, bool) {
	var dig []Value
	neg, dot, exp := false, false, 0
	i := 0
	is := func(c Value, lo, hi byte) bool {
		if c.o == nil {
			return byte(c.n) >= lo && byte(c.n) <= hi
		}
		x := m.toExpr(c, 8)
		return m.branch(m.eb.And(m.eb.Ule(m.eb.Const(uint64(lo), 8), x), m.eb.Ule(x, m.eb.Const(uint64(hi), 8))))
	}
	if i < len(cs) && (is(cs[i], '-', '-') || !plain && is(cs[i], '+', '+')) {
		neg = is(cs[i], '-', '-')
		i++
	}
	ndig := 0
	for ; i < len(cs); i++ {
		if is(cs[i], '0', '9') {
			dig = append(dig, cs[i])
			ndig++
			if !dot {
				exp++
			}
			continue
		}
		if !dot && is(cs[i], '.', '.') {
			dot = true
			continue
		}
		break
	}
	if ndig == 0 || dot && plain && exp == ndig {
		return Value{}, false
	}
	if i < len(cs) {
		if plain || !is(cs[i], 'e', 'e') && !is(cs[i], 'E', 'E') {
			return Value{}, false
		}
		i++
		t := ""
		for ; i < len(cs); i++ {
			b := byte(cs[i].n)
			if cs[i].o != nil {
				b = byte(m.concretizeN(m.toExpr(cs[i], 8), 300))
			}
			t += string(rune(b))
		}
		x, err := strconv.Atoi(t)
		if err != nil || len(t) > 5 {
			return Value{}, false
		}
		exp += x
	}
	return m.decF(neg, dig, exp, w)
}

// floatIn32 tells if a symbolic float is within the range of a float32.
func (m *Machine) floatIn32(v Value) *Expr {
	lo, _ := m.cmpF(v, Value{n: math.Float64bits(-math.MaxFloat32)}, 64)
	hi, _ := m.cmpF(Value{n: math.Float64bits(math.MaxFloat32)}, v, 64)
	return m.eb.Not(m.eb.Or(lo, hi))
}

// realBody runs the code of a function that has a summary.
func (m *Machine) realBody(fn *Fn, a []Value) Value {
	m.P.ready(fn)
	if fn.bad != "" {
		m.unsupported(fn.bad)
	}
	return m.callBody(fn, a, nil)
}
