package main

import (
	"go/types"
)

// Value is a register or memory cell. Concrete scalars live in n, symbolic ones as *Expr in o.
//
//	pointer: o=*Obj, n=cell offset      slice/string: o=*Obj, n=pack(off,len,cap)
//	iface:   o=*Iface                   map: o=*Map   func: o=*Closure
//	struct/array register: o=*Agg       tuple: o=*Agg (one Value per component)
type Value struct {
	n uint64
	o any
}

type Agg struct{ c []Value }

type Obj struct {
	cells []Value
	id    int64
	path  bool // allocated on the current path: writes need no trail
	ro    bool
	label string
}

// SymAddr is the address of one of len elements selected by a symbolic index.
type SymAddr struct {
	obj    *Obj
	base   int
	stride int
	n      int
	idx    *Expr
}

type Iface struct {
	rt *RType
	v  Value
}

type Closure struct {
	fn   *Fn
	free []Value
	// bound method made by reflection
	recv    *Value
	builtin string
	native  func(m *Machine, args []Value) Value
}

type Map struct {
	id      int64
	path    bool
	keys    []Value
	vals    []Value
	live    []bool
	n       int
	idx     map[string]int
	sym     bool // some key has symbolic content
	touched bool // saved on the trail during this path
}

type MapIter struct {
	m   *Map
	pos int
	ord []int
	str Value
}

const (
	offShift = 42
	lenShift = 21
	fldMask  = 1<<21 - 1
)

func pack(off, ln, cp int) uint64 {
	if off > fldMask || ln > fldMask || cp > fldMask {
		panic(pathAbort{kind: "unsupported", msg: "slice too large"})
	}
	return uint64(off)<<offShift | uint64(ln)<<lenShift | uint64(cp)
}

func (v Value) sOff() int { return int(v.n >> offShift) }
func (v Value) sLen() int { return int(v.n >> lenShift & fldMask) }
func (v Value) sCap() int { return int(v.n & fldMask) }

func cInt(n uint64) Value { return Value{n: n} }
func cBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func (v Value) expr() *Expr {
	e, _ := v.o.(*Expr)
	return e
}

// obj returns the object behind a pointer, slice or string.
func (v Value) obj() *Obj {
	o, _ := v.o.(*Obj)
	return o
}

func exprVal(e *Expr) Value {
	if e.op == OConst {
		return Value{n: e.k}
	}
	return Value{o: e}
}

func zeroValue(ti *TInfo) Value {
	if ti.agg {
		return Value{o: &Agg{c: make([]Value, ti.n)}}
	}
	if ti.k == kTuple {
		a := &Agg{}
		for _, f := range ti.fields {
			a.c = append(a.c, zeroValue(f))
		}
		return Value{o: a}
	}
	return Value{}
}

// makeStr makes an immutable string value.
func makeStr(s string) Value {
	if len(s) == 0 {
		return Value{}
	}
	o := &Obj{cells: make([]Value, len(s)), ro: true, label: "string"}
	for i := 0; i < len(s); i++ {
		o.cells[i].n = uint64(s[i])
	}
	return Value{n: pack(0, len(s), len(s)), o: o}
}

// strCells gives the byte cells of a string or byte slice.
func strCells(v Value) []Value {
	if v.o == nil {
		return nil
	}
	o := v.o.(*Obj)
	off := v.sOff()
	return o.cells[off : off+v.sLen()]
}

// concStr returns the Go string if every byte is concrete.
func concStr(v Value) (string, bool) {
	cs := strCells(v)
	b := make([]byte, len(cs))
	for i, c := range cs {
		if c.o != nil {
			return "", false
		}
		b[i] = byte(c.n)
	}
	return string(b), true
}

func fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
