package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
)

// RVal is the content of a reflect.Value.
type RVal struct {
	typ  *RType
	v    Value // when not addressable
	obj  *Obj  // storage when addressable
	off  int
	addr bool
	ro   uint8 // 1 sticky, 2 embedded
}

func (m *Machine) rv(v Value) *RVal {
	r, _ := v.o.(*RVal)
	return r
}

func rvVal(r *RVal) Value { return Value{o: r} }

func (m *Machine) rget(r *RVal) Value {
	if r.addr {
		return m.loadCells(r.obj, r.off, r.typ.ti.n, r.typ.ti)
	}
	return r.v
}

func (m *Machine) reflectPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	p := &GoPanic{msg: "panic: " + msg, stack: m.where()}
	p.v = Value{o: &Iface{rt: m.P.errRT(), v: makeStr(msg)}}
	panic(p)
}

func (p *Program) stdType(pkg, name string) types.Type {
	k := pkg + "." + name
	if x, ok := p.typCache.Load(k); ok {
		return x.(types.Type)
	}
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(pathAbort{"unsupported", "package " + pkg + " not loaded"})
	}
	t := sp.Type(name).Type()
	p.typCache.Store(k, t)
	return t
}

func (m *Machine) typeIface(rt *RType) Value {
	return Value{o: &Iface{rt: m.P.rtypeRT, v: Value{o: rt}}}
}

func (m *Machine) rtOf(v Value) *RType {
	switch x := v.o.(type) {
	case *RType:
		return x
	case *Iface:
		if x == nil {
			m.rtPanic("nil reflect.Type")
		}
		if rt, ok := x.v.o.(*RType); ok {
			return rt
		}
	}
	if v.o == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil reflect.Type)")
	}
	m.unsupported("foreign reflect.Type")
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Chan:
		return reflect.Chan
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	}
	return reflect.Invalid
}

// exported gives the exported methods of a type, sorted by name.
func (m *Machine) exported(rt *RType) []*types.Selection {
	rt.mu.Lock()
	defer rt.mu.Unlock()
	if rt.exOK {
		return rt.ex
	}
	ms := m.P.prog.MethodSets.MethodSet(rt.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Exported() {
			rt.ex = append(rt.ex, s)
		}
	}
	sort.Slice(rt.ex, func(i, j int) bool { return rt.ex[i].Obj().Name() < rt.ex[j].Obj().Name() })
	rt.exOK = true
	return rt.ex
}

func sigNoRecv(sel *types.Selection) *types.Signature {
	s := sel.Obj().Type().(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func sigWithRecv(rt *RType, sel *types.Selection) *types.Signature {
	s := sel.Obj().Type().(*types.Signature)
	ps := []*types.Var{types.NewParam(0, nil, "", rt.t)}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, s.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), s.Results(), s.Variadic())
}

func (m *Machine) methodVal(r *RVal, sel *types.Selection) Value {
	recv := m.rget(r)
	ft := rtype(sigNoRecv(sel))
	if _, isI := r.typ.t.Underlying().(*types.Interface); isI {
		i, _ := recv.o.(*Iface)
		if i == nil {
			m.reflectPanic("reflect: Method on nil interface value")
		}
		sf := m.P.lookupMethod(i.rt.t, sel.Obj().Pkg(), sel.Obj().Name())
		v := i.v
		return rvVal(&RVal{typ: ft, v: Value{o: &Closure{fn: m.P.fn(sf), recv: &v}}, ro: r.ro})
	}
	sf := m.P.prog.MethodValue(sel)
	return rvVal(&RVal{typ: ft, v: Value{o: &Closure{fn: m.P.fn(sf), recv: &recv}}, ro: r.ro})
}

func (m *Machine) mustRV(v Value, what string) *RVal {
	r := m.rv(v)
	if r == nil {
		m.reflectPanic("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return r
}

func (m *Machine) assignable(r *RVal, what string) {
	if r.ro != 0 {
		m.reflectPanic("reflect: reflect.Value." + what + " using value obtained using unexported field")
	}
	if !r.addr {
		m.reflectPanic("reflect: reflect.Value." + what + " using unaddressable value")
	}
}

// assignTo gives the register value of x as a value of type t.
func (m *Machine) assignTo(x *RVal, t *RType, what string) Value {
	v := m.rget(x)
	if t.ti.k == kIface {
		if x.typ.ti.k == kIface {
			i, _ := v.o.(*Iface)
			if i != nil && !m.implements(i.rt, t) {
				m.reflectPanic(what + ": value of type " + x.typ.t.String() + " is not assignable to type " + t.t.String())
			}
			return v
		}
		if !m.implements(x.typ, t) {
			m.reflectPanic(what + ": value of type " + x.typ.t.String() + " is not assignable to type " + t.t.String())
		}
		return Value{o: &Iface{rt: x.typ, v: v}}
	}
	if x.typ != t && !types.AssignableTo(x.typ.t, t.t) {
		m.reflectPanic(what + ": value of type " + x.typ.t.String() + " is not assignable to type " + t.t.String())
	}
	return v
}

func reflStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		n := u.Obj().Name()
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			n += "["
			for i := 0; i < ta.Len(); i++ {
				if i > 0 {
					n += ","
				}
				n += types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() })
			}
			n += "]"
		}
		return n
	case *types.Basic:
		return kindOf(u).String()
	}
	return ""
}

func (m *Machine) sliceOfRV(vs []*RVal) Value {
	o := m.newObj(len(vs))
	for i, r := range vs {
		o.cells[i] = rvVal(r)
	}
	return Value{o: o, n: pack(0, len(vs), len(vs))}
}

func (m *Machine) rElem(r *RVal) Value {
	switch r.typ.ti.k {
	case kIface:
		i, _ := m.rget(r).o.(*Iface)
		if i == nil {
			return Value{}
		}
		return rvVal(&RVal{typ: i.rt, v: i.v, ro: r.ro})
	case kPtr:
		p := m.rget(r)
		if p.o == nil {
			return Value{}
		}
		o, ok := p.o.(*Obj)
		if !ok {
			m.unsupported("reflect Elem of symbolic address")
		}
		et := rtype(r.typ.t.Underlying().(*types.Pointer).Elem())
		return rvVal(&RVal{typ: et, obj: o, off: int(p.n), addr: true, ro: r.ro})
	}
	m.reflectPanic("reflect: call of reflect.Value.Elem on " + kindOf(r.typ.t).String() + " Value")
	return Value{}
}

func (m *Machine) rField(r *RVal, i int) Value {
	st, ok := r.typ.t.Underlying().(*types.Struct)
	if !ok {
		m.reflectPanic("reflect: call of reflect.Value.Field on " + kindOf(r.typ.t).String() + " Value")
	}
	if i < 0 || i >= st.NumFields() {
		m.reflectPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	ro := r.ro & 1
	if !f.Exported() {
		if f.Embedded() {
			ro |= 2
		} else {
			ro |= 1
		}
	}
	ft := rtype(f.Type())
	off := r.typ.ti.offs[i]
	if r.addr {
		return rvVal(&RVal{typ: ft, obj: r.obj, off: r.off + off, addr: true, ro: ro})
	}
	return rvVal(&RVal{typ: ft, v: aggGet(r.v.o.(*Agg), off, r.typ.ti.fields[i]), ro: ro})
}

func (m *Machine) rIndex(r *RVal, i int) Value {
	switch r.typ.ti.k {
	case kSlice:
		s := m.rget(r)
		if i < 0 || i >= s.sLen() {
			m.reflectPanic("reflect: slice index out of range")
		}
		et := rtype(r.typ.t.Underlying().(*types.Slice).Elem())
		return rvVal(&RVal{typ: et, obj: s.obj(), off: (s.sOff() + i) * et.ti.n, addr: true, ro: r.ro})
	case kArray:
		if i < 0 || i >= r.typ.ti.alen {
			m.reflectPanic("reflect: array index out of range")
		}
		et := rtype(r.typ.t.Underlying().(*types.Array).Elem())
		if r.addr {
			return rvVal(&RVal{typ: et, obj: r.obj, off: r.off + i*et.ti.n, addr: true, ro: r.ro})
		}
		return rvVal(&RVal{typ: et, v: aggGet(r.v.o.(*Agg), i*et.ti.n, et.ti), ro: r.ro})
	case kString:
		s := m.rget(r)
		if i < 0 || i >= s.sLen() {
			m.reflectPanic("reflect: string index out of range")
		}
		return rvVal(&RVal{typ: rtype(types.Typ[types.Uint8]), v: strCells(s)[i], ro: r.ro})
	}
	m.reflectPanic("reflect: call of reflect.Value.Index on " + kindOf(r.typ.t).String() + " Value")
	return Value{}
}

func (m *Machine) rIsZero(ti *TInfo, v Value) *Expr {
	switch ti.k {
	case kBool:
		return m.eb.Not(m.toBool(v))
	case kInt:
		if v.o == nil {
			return m.eb.Bool(v.n == 0)
		}
		if e := v.expr(); e != nil {
			return m.eb.Eq(e, m.eb.Const(0, ti.w))
		}
		return m.eb.fls
	case kFloat:
		if s := symF(v); s != nil {
			_, eq := m.cmpF(v, Value{}, ti.w)
			return eq
		}
		return m.eb.Bool(toF(m, v) == 0 && !math.Signbit(toF(m, v)))
	case kString:
		return m.eb.Bool(v.sLen() == 0)
	case kStruct:
		e := m.eb.tru
		for i, f := range ti.fields {
			e = m.eb.And(e, m.rIsZero(f, aggGet(v.o.(*Agg), ti.offs[i], f)))
		}
		return e
	case kArray:
		e := m.eb.tru
		for i := 0; i < ti.alen; i++ {
			e = m.eb.And(e, m.rIsZero(ti.elem, aggGet(v.o.(*Agg), i*ti.elem.n, ti.elem)))
		}
		return e
	}
	return m.eb.Bool(v.o == nil)
}

func (m *Machine) structField(rt *RType, i int) Value {
	st, ok := rt.t.Underlying().(*types.Struct)
	if !ok {
		m.reflectPanic("reflect: Field of non-struct type " + rt.t.String())
	}
	if i < 0 || i >= st.NumFields() {
		m.reflectPanic("reflect: Field index out of bounds")
	}
	f := st.Field(i)
	sft := m.P.stdType("reflect", "StructField")
	sti := tinfo(sft)
	a := &Agg{c: make([]Value, sti.n)}
	set := func(name string, v Value) { a.c[sti.offs[fieldIndex(sft, name)]] = v }
	set("Name", makeStr(f.Name()))
	if !f.Exported() && f.Pkg() != nil {
		set("PkgPath", makeStr(f.Pkg().Path()))
	}
	set("Type", m.typeIface(rtype(f.Type())))
	set("Tag", makeStr(st.Tag(i)))
	set("Offset", cInt(uint64(rt.ti.offs[i])))
	idx := m.newObj(1)
	idx.cells[0] = cInt(uint64(i))
	set("Index", Value{o: idx, n: pack(0, 1, 1)})
	set("Anonymous", cBool(f.Embedded()))
	return Value{o: a}
}

func (m *Machine) typeMethod(rt *RType, sel *types.Selection, i int) Value {
	mt := m.P.stdType("reflect", "Method")
	mti := tinfo(mt)
	a := &Agg{c: make([]Value, mti.n)}
	set := func(name string, v Value) { a.c[mti.offs[fieldIndex(mt, name)]] = v }
	set("Name", makeStr(sel.Obj().Name()))
	if _, isI := rt.t.Underlying().(*types.Interface); isI {
		set("Type", m.typeIface(rtype(sigNoRecv(sel))))
	} else {
		ft := rtype(sigWithRecv(rt, sel))
		set("Type", m.typeIface(ft))
		set("Func", rvVal(&RVal{typ: ft, v: Value{o: &Closure{fn: m.P.fn(m.P.prog.MethodValue(sel))}}}))
	}
	set("Index", cInt(uint64(i)))
	return Value{o: a}
}

func (m *Machine) rCall(r *RVal, args []*RVal) Value {
	sig, ok := r.typ.t.Underlying().(*types.Signature)
	if !ok {
		m.reflectPanic("reflect: call of Call on " + kindOf(r.typ.t).String() + " Value")
	}
	if r.ro != 0 {
		m.reflectPanic("reflect: reflect.Value.Call using value obtained using unexported field")
	}
	f := m.rget(r)
	if f.o == nil {
		m.reflectPanic("reflect: call of nil function")
	}
	n := sig.Params().Len()
	var in []Value
	if sig.Variadic() {
		if len(args) < n-1 {
			m.reflectPanic("reflect: Call with too few input arguments")
		}
		st := sig.Params().At(n - 1).Type()
		et := rtype(st.Underlying().(*types.Slice).Elem())
		var cells []Value
		for _, a := range args[n-1:] {
			v := m.assignTo(a, et, "reflect.Value.Call")
			if et.ti.agg {
				cells = append(cells, v.o.(*Agg).c...)
			} else {
				cells = append(cells, v)
			}
		}
		for i := 0; i < n-1; i++ {
			in = append(in, m.assignTo(args[i], rtype(sig.Params().At(i).Type()), "reflect.Value.Call"))
		}
		o := m.newObj(len(cells))
		copy(o.cells, cells)
		k := len(args) - (n - 1)
		in = append(in, Value{o: o, n: pack(0, k, k)})
	} else {
		if len(args) < n {
			m.reflectPanic("reflect: Call with too few input arguments")
		}
		if len(args) > n {
			m.reflectPanic("reflect: Call with too many input arguments")
		}
		for i, a := range args {
			if a == nil {
				m.reflectPanic("reflect: Call using zero Value argument")
			}
			in = append(in, m.assignTo(a, rtype(sig.Params().At(i).Type()), "reflect.Value.Call"))
		}
	}
	ret := m.callClosure(f, in)
	res := sig.Results()
	var out []*RVal
	switch res.Len() {
	case 0:
	case 1:
		out = append(out, &RVal{typ: rtype(res.At(0).Type()), v: ret})
	default:
		for i, v := range ret.o.(*Agg).c {
			out = append(out, &RVal{typ: rtype(res.At(i).Type()), v: v})
		}
	}
	return m.sliceOfRV(out)
}

func (m *Machine) packIface(r *RVal) Value {
	v := m.rget(r)
	if r.typ.ti.k == kIface {
		return v
	}
	return Value{o: &Iface{rt: r.typ, v: v}}
}

func (m *Machine) extInt(v Value, ti *TInfo, signed bool) Value {
	if v.o == nil {
		if signed {
			return Value{n: uint64(sext64(v.n, ti.w))}
		}
		return v
	}
	e, ok := v.o.(*Expr)
	if !ok {
		return v
	}
	if signed {
		return exprVal(m.eb.Sext(e, 64))
	}
	return exprVal(m.eb.Zext(e, 64))
}

func (m *Machine) truncInt(v Value, w uint8) Value {
	if v.o == nil {
		return Value{n: v.n & mask(w)}
	}
	return exprVal(m.eb.Extract(m.toExpr(v, 64), 0, w))
}

func (m *Machine) kindPanic(r *RVal, what string) {
	m.reflectPanic("reflect: call of reflect.Value." + what + " on " + kindOf(r.typ.t).String() + " Value")
}

type rIter struct {
	mp  *Map
	ord []int
	pos int
	typ *types.Map
}

func init() {
	I := intrins
	I["reflect.TypeOf"] = func(m *Machine, fn *Fn, a []Value) Value {
		i, _ := a[0].o.(*Iface)
		if i == nil {
			return Value{}
		}
		return m.typeIface(i.rt)
	}
	I["reflect.ValueOf"] = func(m *Machine, fn *Fn, a []Value) Value {
		i, _ := a[0].o.(*Iface)
		if i == nil {
			return Value{}
		}
		return rvVal(&RVal{typ: i.rt, v: i.v})
	}
	I["reflect.Indirect"] = func(m *Machine, fn *Fn, a []Value) Value {
		r := m.rv(a[0])
		if r == nil || r.typ.ti.k != kPtr {
			return a[0]
		}
		return m.rElem(r)
	}
	I["reflect.New"] = func(m *Machine, fn *Fn, a []Value) Value {
		rt := m.rtOf(a[0])
		o := m.newObj(rt.ti.n)
		return rvVal(&RVal{typ: rtype(types.NewPointer(rt.t)), v: Value{o: o}})
	}
	I["reflect.Zero"] = func(m *Machine, fn *Fn, a []Value) Value {
		rt := m.rtOf(a[0])
		return rvVal(&RVal{typ: rt, v: zeroValue(rt.ti)})
	}
	ptrTo := func(m *Machine, fn *Fn, a []Value) Value {
		return m.typeIface(rtype(types.NewPointer(m.rtOf(a[0]).t)))
	}
	I["reflect.PtrTo"], I["reflect.PointerTo"] = ptrTo, ptrTo
	I["reflect.SliceOf"] = func(m *Machine, fn *Fn, a []Value) Value {
		return m.typeIface(rtype(types.NewSlice(m.rtOf(a[0]).t)))
	}
	I["reflect.MakeSlice"] = func(m *Machine, fn *Fn, a []Value) Value {
		rt := m.rtOf(a[0])
		l, c := m.intOf(a[1], intTI), m.intOf(a[2], intTI)
		if l < 0 || c < l {
			m.reflectPanic("reflect.MakeSlice: bad len or cap")
		}
		if c > 1<<20 {
			m.abort("unsupported", "huge MakeSlice")
		}
		o := m.newObj(c * rt.ti.el().n)
		return rvVal(&RVal{typ: rt, v: Value{o: o, n: pack(0, l, c)}})
	}
	I["reflect.MakeMap"] = func(m *Machine, fn *Fn, a []Value) Value {
		return rvVal(&RVal{typ: m.rtOf(a[0]), v: Value{o: m.newMap()}})
	}
	I["reflect.Append"] = func(m *Machine, fn *Fn, a []Value) Value {
		r := m.mustRV(a[0], "Append")
		if r.typ.ti.k != kSlice {
			m.kindPanic(r, "Append")
		}
		s := m.rget(r)
		et := rtype(r.typ.t.Underlying().(*types.Slice).Elem())
		for _, c := range strCells(a[1]) {
			v := m.assignTo(m.mustRV(c, "Append"), et, "reflect.Append")
			cells := []Value{v}
			if et.ti.agg {
				cells = v.o.(*Agg).c
			}
			s = m.appendCells(s, cells, et.ti.n, et.ti)
		}
		return rvVal(&RVal{typ: r.typ, v: s})
	}
	I["reflect.DeepEqual"] = func(m *Machine, fn *Fn, a []Value) Value {
		x, _ := a[0].o.(*Iface)
		y, _ := a[1].o.(*Iface)
		if x == nil || y == nil {
			return cBool(x == nil && y == nil)
		}
		if x.rt != y.rt {
			return cBool(false)
		}
		return exprVal(m.deepEq(x.rt.ti, x.v, y.v, 0))
	}

	V := func(name string, f func(m *Machine, r *RVal, a []Value) Value) {
		I["(reflect.Value)."+name] = func(m *Machine, fn *Fn, a []Value) Value {
			return f(m, m.mustRV(a[0], name), a)
		}
	}
	I["(reflect.Value).IsValid"] = func(m *Machine, fn *Fn, a []Value) Value { return cBool(m.rv(a[0]) != nil) }
	I["(reflect.Value).Kind"] = func(m *Machine, fn *Fn, a []Value) Value {
		r := m.rv(a[0])
		if r == nil {
			return Value{}
		}
		return cInt(uint64(kindOf(r.typ.t)))
	}
	V("Type", func(m *Machine, r *RVal, a []Value) Value { return m.typeIface(r.typ) })
	V("Elem", func(m *Machine, r *RVal, a []Value) Value { return m.rElem(r) })
	V("Field", func(m *Machine, r *RVal, a []Value) Value { return m.rField(r, m.intOf(a[1], intTI)) })
	V("FieldByName", func(m *Machine, r *RVal, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			m.unsupported("FieldByName of symbolic name")
		}
		i := fieldIndex(r.typ.t, s)
		if i < 0 {
			return Value{}
		}
		return m.rField(r, i)
	})
	V("NumField", func(m *Machine, r *RVal, a []Value) Value {
		st, ok := r.typ.t.Underlying().(*types.Struct)
		if !ok {
			m.kindPanic(r, "NumField")
		}
		return cInt(uint64(st.NumFields()))
	})
	V("Index", func(m *Machine, r *RVal, a []Value) Value { return m.rIndex(r, m.intOf(a[1], intTI)) })
	V("Len", func(m *Machine, r *RVal, a []Value) Value {
		switch r.typ.ti.k {
		case kSlice, kString:
			return cInt(uint64(m.rget(r).sLen()))
		case kArray:
			return cInt(uint64(r.typ.ti.alen))
		case kMap:
			v := m.rget(r)
			if v.o == nil {
				return Value{}
			}
			return cInt(uint64(v.o.(*Map).n))
		}
		m.kindPanic(r, "Len")
		return Value{}
	})
	V("Cap", func(m *Machine, r *RVal, a []Value) Value {
		if r.typ.ti.k != kSlice {
			m.kindPanic(r, "Cap")
		}
		return cInt(uint64(m.rget(r).sCap()))
	})
	V("IsNil", func(m *Machine, r *RVal, a []Value) Value {
		switch r.typ.ti.k {
		case kPtr, kSlice, kMap, kFunc, kIface, kChan:
			return cBool(m.rget(r).o == nil)
		}
		m.kindPanic(r, "IsNil")
		return Value{}
	})
	V("IsZero", func(m *Machine, r *RVal, a []Value) Value { return exprVal(m.rIsZero(r.typ.ti, m.rget(r))) })
	V("CanSet", func(m *Machine, r *RVal, a []Value) Value { return cBool(r.addr && r.ro == 0) })
	V("CanAddr", func(m *Machine, r *RVal, a []Value) Value { return cBool(r.addr) })
	V("CanInterface", func(m *Machine, r *RVal, a []Value) Value { return cBool(r.ro == 0) })
	V("Addr", func(m *Machine, r *RVal, a []Value) Value {
		if !r.addr {
			m.reflectPanic("reflect.Value.Addr of unaddressable value")
		}
		return rvVal(&RVal{typ: rtype(types.NewPointer(r.typ.t)), v: Value{o: r.obj, n: uint64(r.off)}, ro: r.ro})
	})
	V("Interface", func(m *Machine, r *RVal, a []Value) Value {
		if r.ro != 0 {
			m.reflectPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.packIface(r)
	})
	V("Int", func(m *Machine, r *RVal, a []Value) Value {
		if r.typ.ti.k != kInt || !r.typ.ti.signed {
			m.kindPanic(r, "Int")
		}
		return m.extInt(m.rget(r), r.typ.ti, true)
	})
	V("Uint", func(m *Machine, r *RVal, a []Value) Value {
		if r.typ.ti.k != kInt || r.typ.ti.signed {
			m.kindPanic(r, "Uint")
		}
		return m.extInt(m.rget(r), r.typ.ti, false)
	})
	V("Float", func(m *Machine, r *RVal, a []Value) Value {
		if r.typ.ti.k != kFloat {
			m.kindPanic(r, "Float")
		}
		return m.rget(r)
	})
	V("Bool", func(m *Machine, r *RVal, a []Value) Value {
		if r.typ.ti.k != kBool {
			m.kindPanic(r, "Bool")
		}
		return m.rget(r)
	})
	V("String", func(m *Machine, r *RVal, a []Value) Value {
		if r.typ.ti.k == kString {
			return m.rget(r)
		}
		return makeStr("<" + reflStr(r.typ.t) + " Value>")
	})
	I["(reflect.Value).String"] = func(m *Machine, fn *Fn, a []Value) Value {
		r := m.rv(a[0])
		if r == nil {
			return makeStr("<invalid Value>")
		}
		if r.typ.ti.k == kString {
			return m.rget(r)
		}
		return makeStr("<" + reflStr(r.typ.t) + " Value>")
	}
	V("Bytes", func(m *Machine, r *RVal, a []Value) Value { return m.rget(r) })
	ptrf := func(m *Machine, r *RVal, a []Value) Value {
		v := m.rget(r)
		switch r.typ.ti.k {
		case kPtr:
			return v
		case kSlice:
			if v.o == nil {
				return Value{}
			}
			return Value{o: v.o, n: uint64(v.sOff() * r.typ.ti.el().n)}
		case kMap, kChan:
			if v.o == nil {
				return Value{}
			}
			return Value{n: uint64(0xc000000000)}
		case kFunc:
			if v.o == nil {
				return Value{}
			}
			return Value{n: uint64(0x400000)}
		}
		m.kindPanic(r, "Pointer")
		return Value{}
	}
	V("Pointer", ptrf)
	V("UnsafePointer", ptrf)
	V("UnsafeAddr", func(m *Machine, r *RVal, a []Value) Value { return Value{o: r.obj, n: uint64(r.off)} })
	V("Set", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "Set")
		x := m.mustRV(a[1], "Set")
		if x.ro != 0 {
			m.reflectPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		m.storeAt(r.obj, r.off, m.assignTo(x, r.typ, "reflect.Set"), r.typ.ti)
		return Value{}
	})
	V("SetZero", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetZero")
		m.storeAt(r.obj, r.off, zeroValue(r.typ.ti), r.typ.ti)
		return Value{}
	})
	V("SetInt", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetInt")
		if r.typ.ti.k != kInt || !r.typ.ti.signed {
			m.kindPanic(r, "SetInt")
		}
		m.write(r.obj, r.off, m.truncInt(a[1], r.typ.ti.w))
		return Value{}
	})
	V("SetUint", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetUint")
		if r.typ.ti.k != kInt || r.typ.ti.signed {
			m.kindPanic(r, "SetUint")
		}
		m.write(r.obj, r.off, m.truncInt(a[1], r.typ.ti.w))
		return Value{}
	})
	V("SetFloat", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetFloat")
		if r.typ.ti.k != kFloat {
			m.kindPanic(r, "SetFloat")
		}
		m.write(r.obj, r.off, m.floatTo(a[1], r.typ.ti.w))
		return Value{}
	})
	V("SetBool", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetBool")
		if r.typ.ti.k != kBool {
			m.kindPanic(r, "SetBool")
		}
		m.write(r.obj, r.off, a[1])
		return Value{}
	})
	V("SetString", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetString")
		if r.typ.ti.k != kString {
			m.kindPanic(r, "SetString")
		}
		m.write(r.obj, r.off, a[1])
		return Value{}
	})
	V("SetLen", func(m *Machine, r *RVal, a []Value) Value {
		m.assignable(r, "SetLen")
		s := m.rget(r)
		n := m.intOf(a[1], intTI)
		if n < 0 || n > s.sCap() {
			m.reflectPanic("reflect: slice length out of range in SetLen")
		}
		m.write(r.obj, r.off, Value{o: s.o, n: pack(s.sOff(), n, s.sCap())})
		return Value{}
	})
	overflow := func(name string, signed bool) {
		V(name, func(m *Machine, r *RVal, a []Value) Value {
			w := r.typ.ti.w
			if r.typ.ti.k != kInt || r.typ.ti.signed != signed {
				m.kindPanic(r, name)
			}
			x := m.toExpr(a[1], 64)
			if w == 64 {
				return cBool(false)
			}
			t := m.eb.Extract(x, 0, w)
			if signed {
				t = m.eb.Sext(t, 64)
			} else {
				t = m.eb.Zext(t, 64)
			}
			return exprVal(m.eb.Not(m.eb.Eq(t, x)))
		})
	}
	overflow("OverflowInt", true)
	overflow("OverflowUint", false)
	V("OverflowFloat", func(m *Machine, r *RVal, a []Value) Value {
		if symF(a[1]) != nil {
			return cBool(r.typ.ti.w == 32 && m.boolOf(exprVal(m.eb.Not(m.floatIn32(a[1])))))
		}
		f := toF(m, a[1])
		return cBool(reflect.New(map[uint8]reflect.Type{32: reflect.TypeOf(float32(0)), 64: reflect.TypeOf(float64(0))}[r.typ.ti.w]).Elem().OverflowFloat(f))
	})
	V("Slice", func(m *Machine, r *RVal, a []Value) Value {
		s := m.rget(r)
		i, j := m.intOf(a[1], intTI), m.intOf(a[2], intTI)
		c := s.sCap()
		if r.typ.ti.k == kString {
			c = s.sLen()
		}
		if i < 0 || j < i || j > c {
			m.reflectPanic("reflect.Value.Slice: slice index out of bounds")
		}
		return rvVal(&RVal{typ: r.typ, v: Value{o: s.o, n: pack(s.sOff()+i, j-i, s.sCap()-i)}, ro: r.ro})
	})
	V("Convert", func(m *Machine, r *RVal, a []Value) Value {
		t := m.rtOf(a[1])
		if t.ti.k == kIface {
			return rvVal(&RVal{typ: t, v: m.assignTo(r, t, "reflect.Value.Convert"), ro: r.ro})
		}
		if !types.ConvertibleTo(r.typ.t, t.t) {
			m.reflectPanic("reflect.Value.Convert: value of type " + r.typ.t.String() + " cannot be converted to type " + t.t.String())
		}
		return rvVal(&RVal{typ: t, v: m.convert(m.rget(r), r.typ.ti, t.ti), ro: r.ro})
	})
	V("NumMethod", func(m *Machine, r *RVal, a []Value) Value { return cInt(uint64(len(m.exported(r.typ)))) })
	V("Method", func(m *Machine, r *RVal, a []Value) Value {
		ms := m.exported(r.typ)
		i := m.intOf(a[1], intTI)
		if i < 0 || i >= len(ms) {
			m.reflectPanic("reflect: Method index out of range")
		}
		return m.methodVal(r, ms[i])
	})
	V("MethodByName", func(m *Machine, r *RVal, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			m.unsupported("MethodByName of symbolic name")
		}
		for _, sel := range m.exported(r.typ) {
			if sel.Obj().Name() == s {
				return m.methodVal(r, sel)
			}
		}
		return Value{}
	})
	V("Call", func(m *Machine, r *RVal, a []Value) Value {
		var args []*RVal
		for _, c := range strCells(a[1]) {
			args = append(args, m.rv(c))
		}
		return m.rCall(r, args)
	})
	V("MapIndex", func(m *Machine, r *RVal, a []Value) Value {
		mt, ok := r.typ.t.Underlying().(*types.Map)
		if !ok {
			m.kindPanic(r, "MapIndex")
		}
		k := m.assignTo(m.mustRV(a[1], "MapIndex"), rtype(mt.Key()), "reflect.Value.MapIndex")
		v, found := m.mapGet(m.rget(r), k, r.typ.ti)
		if !found {
			return Value{}
		}
		return rvVal(&RVal{typ: rtype(mt.Elem()), v: v, ro: r.ro})
	})
	V("SetMapIndex", func(m *Machine, r *RVal, a []Value) Value {
		mt := r.typ.t.Underlying().(*types.Map)
		k := m.assignTo(m.mustRV(a[1], "SetMapIndex"), rtype(mt.Key()), "reflect.Value.SetMapIndex")
		x := m.rv(a[2])
		if x == nil {
			m.mapDelete(m.rget(r), k, r.typ.ti)
			return Value{}
		}
		m.mapSet(m.rget(r), k, m.assignTo(x, rtype(mt.Elem()), "reflect.Value.SetMapIndex"), r.typ.ti)
		return Value{}
	})
	iter := func(m *Machine, r *RVal) *rIter {
		mt, ok := r.typ.t.Underlying().(*types.Map)
		if !ok {
			m.kindPanic(r, "MapRange")
		}
		it := &rIter{typ: mt, pos: -1}
		if v := m.rget(r); v.o != nil {
			it.mp = v.o.(*Map)
			rev := false
			if m.mapOrd && it.mp.n >= 2 && m.inPath && m.spec == 0 {
				rev = m.mapReversed("reflect")
			}
			for i := range it.mp.keys {
				if it.mp.live[i] {
					it.ord = append(it.ord, i)
				}
			}
			if rev {
				for i, j := 0, len(it.ord)-1; i < j; i, j = i+1, j-1 {
					it.ord[i], it.ord[j] = it.ord[j], it.ord[i]
				}
			}
		}
		return it
	}
	V("MapRange", func(m *Machine, r *RVal, a []Value) Value {
		o := m.newObj(tinfo(m.P.stdType("reflect", "MapIter")).n)
		if len(o.cells) == 0 {
			o.cells = make([]Value, 1)
		}
		o.cells[0] = Value{o: iter(m, r)}
		return Value{o: o}
	})
	V("MapKeys", func(m *Machine, r *RVal, a []Value) Value {
		it := iter(m, r)
		var out []*RVal
		for _, i := range it.ord {
			out = append(out, &RVal{typ: rtype(it.typ.Key()), v: it.mp.keys[i], ro: r.ro})
		}
		return m.sliceOfRV(out)
	})
	getIter := func(a Value) *rIter {
		o := a.o.(*Obj)
		return o.cells[a.n].o.(*rIter)
	}
	I["(*reflect.MapIter).Next"] = func(m *Machine, fn *Fn, a []Value) Value {
		it := getIter(a[0])
		n := *it
		n.pos++
		m.write(a[0].o.(*Obj), int(a[0].n), Value{o: &n})
		return cBool(n.pos < len(n.ord))
	}
	I["(*reflect.MapIter).Key"] = func(m *Machine, fn *Fn, a []Value) Value {
		it := getIter(a[0])
		return rvVal(&RVal{typ: rtype(it.typ.Key()), v: it.mp.keys[it.ord[it.pos]]})
	}
	I["(*reflect.MapIter).Value"] = func(m *Machine, fn *Fn, a []Value) Value {
		it := getIter(a[0])
		return rvVal(&RVal{typ: rtype(it.typ.Elem()), v: it.mp.vals[it.ord[it.pos]]})
	}

	T := func(name string, f func(m *Machine, t *RType, a []Value) Value) {
		I["(*reflect.rtype)."+name] = func(m *Machine, fn *Fn, a []Value) Value {
			return f(m, m.rtOf(a[0]), a)
		}
	}
	T("Name", func(m *Machine, t *RType, a []Value) Value { return makeStr(typeName(t.t)) })
	T("String", func(m *Machine, t *RType, a []Value) Value { return makeStr(reflStr(t.t)) })
	T("PkgPath", func(m *Machine, t *RType, a []Value) Value {
		if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return makeStr(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	T("Kind", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(kindOf(t.t))) })
	T("Size", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(stdSizes.Sizeof(t.t))) })
	T("Bits", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(stdSizes.Sizeof(t.t) * 8)) })
	T("Comparable", func(m *Machine, t *RType, a []Value) Value { return cBool(types.Comparable(t.t)) })
	T("Elem", func(m *Machine, t *RType, a []Value) Value {
		switch u := t.t.Underlying().(type) {
		case *types.Pointer:
			return m.typeIface(rtype(u.Elem()))
		case *types.Slice:
			return m.typeIface(rtype(u.Elem()))
		case *types.Array:
			return m.typeIface(rtype(u.Elem()))
		case *types.Map:
			return m.typeIface(rtype(u.Elem()))
		case *types.Chan:
			return m.typeIface(rtype(u.Elem()))
		}
		m.reflectPanic("reflect: Elem of invalid type " + reflStr(t.t))
		return Value{}
	})
	T("Key", func(m *Machine, t *RType, a []Value) Value {
		u, ok := t.t.Underlying().(*types.Map)
		if !ok {
			m.reflectPanic("reflect: Key of non-map type " + reflStr(t.t))
		}
		return m.typeIface(rtype(u.Key()))
	})
	T("Len", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(t.ti.alen)) })
	T("NumField", func(m *Machine, t *RType, a []Value) Value {
		st, ok := t.t.Underlying().(*types.Struct)
		if !ok {
			m.reflectPanic("reflect: NumField of non-struct type " + reflStr(t.t))
		}
		return cInt(uint64(st.NumFields()))
	})
	T("Field", func(m *Machine, t *RType, a []Value) Value { return m.structField(t, m.intOf(a[1], intTI)) })
	T("FieldByName", func(m *Machine, t *RType, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			m.unsupported("FieldByName of symbolic name")
		}
		i := fieldIndex(t.t, s)
		if i < 0 {
			return Value{o: &Agg{c: []Value{zeroValue(tinfo(m.P.stdType("reflect", "StructField"))), cBool(false)}}}
		}
		return Value{o: &Agg{c: []Value{m.structField(t, i), cBool(true)}}}
	})
	T("NumMethod", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(len(m.exported(t)))) })
	T("Method", func(m *Machine, t *RType, a []Value) Value {
		i := m.intOf(a[1], intTI)
		ms := m.exported(t)
		if i < 0 || i >= len(ms) {
			m.reflectPanic("reflect: Method index out of range")
		}
		return m.typeMethod(t, ms[i], i)
	})
	T("MethodByName", func(m *Machine, t *RType, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok {
			m.unsupported("MethodByName of symbolic name")
		}
		for i, sel := range m.exported(t) {
			if sel.Obj().Name() == s {
				return Value{o: &Agg{c: []Value{m.typeMethod(t, sel, i), cBool(true)}}}
			}
		}
		return Value{o: &Agg{c: []Value{zeroValue(tinfo(m.P.stdType("reflect", "Method"))), cBool(false)}}}
	})
	sig := func(m *Machine, t *RType) *types.Signature {
		s, ok := t.t.Underlying().(*types.Signature)
		if !ok {
			m.reflectPanic("reflect: not a function type " + reflStr(t.t))
		}
		return s
	}
	T("NumIn", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(sig(m, t).Params().Len())) })
	T("NumOut", func(m *Machine, t *RType, a []Value) Value { return cInt(uint64(sig(m, t).Results().Len())) })
	T("In", func(m *Machine, t *RType, a []Value) Value {
		p := sig(m, t).Params()
		i := m.intOf(a[1], intTI)
		if i < 0 || i >= p.Len() {
			m.rtPanic("index out of range")
		}
		return m.typeIface(rtype(p.At(i).Type()))
	})
	T("Out", func(m *Machine, t *RType, a []Value) Value {
		p := sig(m, t).Results()
		i := m.intOf(a[1], intTI)
		if i < 0 || i >= p.Len() {
			m.rtPanic("index out of range")
		}
		return m.typeIface(rtype(p.At(i).Type()))
	})
	T("IsVariadic", func(m *Machine, t *RType, a []Value) Value { return cBool(sig(m, t).Variadic()) })
	T("Implements", func(m *Machine, t *RType, a []Value) Value {
		u := m.rtOf(a[1])
		if u.ti.k != kIface {
			m.reflectPanic("reflect: non-interface type passed to Type.Implements")
		}
		return cBool(m.implements(t, u))
	})
	T("AssignableTo", func(m *Machine, t *RType, a []Value) Value {
		return cBool(types.AssignableTo(t.t, m.rtOf(a[1]).t))
	})
	T("ConvertibleTo", func(m *Machine, t *RType, a []Value) Value {
		return cBool(types.ConvertibleTo(t.t, m.rtOf(a[1]).t))
	})
}

func (m *Machine) deepEq(ti *TInfo, a, b Value, depth int) *Expr {
	if depth > 50 {
		m.unsupported("deep DeepEqual")
	}
	switch ti.k {
	case kPtr:
		if a == b {
			return m.eb.tru
		}
		if a.o == nil || b.o == nil {
			return m.eb.fls
		}
		et := ti.el()
		return m.deepEq(et, m.load(a, et), m.load(b, et), depth+1)
	case kSlice:
		if (a.o == nil) != (b.o == nil) || a.sLen() != b.sLen() {
			return m.eb.fls
		}
		et := ti.el()
		e := m.eb.tru
		for i := 0; i < a.sLen(); i++ {
			x := m.loadCells(a.obj(), (a.sOff()+i)*et.n, et.n, et)
			y := m.loadCells(b.obj(), (b.sOff()+i)*et.n, et.n, et)
			e = m.eb.And(e, m.deepEq(et, x, y, depth+1))
		}
		return e
	case kStruct:
		e := m.eb.tru
		for i, f := range ti.fields {
			e = m.eb.And(e, m.deepEq(f, aggGet(a.o.(*Agg), ti.offs[i], f), aggGet(b.o.(*Agg), ti.offs[i], f), depth+1))
		}
		return e
	case kArray:
		e := m.eb.tru
		for i := 0; i < ti.alen; i++ {
			e = m.eb.And(e, m.deepEq(ti.elem, aggGet(a.o.(*Agg), i*ti.elem.n, ti.elem), aggGet(b.o.(*Agg), i*ti.elem.n, ti.elem), depth+1))
		}
		return e
	case kIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return m.eb.Bool(x == nil && y == nil)
		}
		if x.rt != y.rt {
			return m.eb.fls
		}
		return m.deepEq(x.rt.ti, x.v, y.v, depth+1)
	case kFunc:
		return m.eb.Bool(a.o == nil && b.o == nil)
	case kMap:
		m.unsupported("DeepEqual of maps")
	}
	return m.toBool(m.eq(ti, a, b))
}

var _ = fmt.Sprint
