package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	byteTI   = tinfo(types.Typ[types.Uint8])
	intTI    = tinfo(types.Typ[types.Int])
	boolTI   = tinfo(types.Typ[types.Bool])
	stringTI = tinfo(types.Typ[types.String])
	int32TI  = tinfo(types.Typ[types.Int32])
)

// ---- conversions ----

func (m *Machine) convInt(v Value, from, to *TInfo) Value {
	if v.o == nil {
		n := v.n
		if from.signed && to.w > from.w {
			n = uint64(sext64(n, from.w))
		}
		return Value{n: n & mask(to.w)}
	}
	e, ok := v.o.(*Expr)
	if !ok {
		return v // pointer bits in uintptr
	}
	if to.w > from.w {
		if from.signed {
			return exprVal(m.eb.Sext(e, to.w))
		}
		return exprVal(m.eb.Zext(e, to.w))
	}
	return exprVal(m.eb.Extract(e, 0, to.w))
}

func (m *Machine) convert(v Value, from, to *TInfo) Value {
	switch {
	case from.k == kInt && to.k == kInt:
		return m.convInt(v, from, to)
	case from.k == kInt && to.k == kFloat:
		if v.o != nil {
			return m.intToFloat(v, from, to.w)
		}
		if from.signed {
			return fromF(float64(sext64(v.n, from.w)), to.w)
		}
		return fromF(float64(v.n), to.w)
	case from.k == kFloat && to.k == kInt:
		if s := symF(v); s != nil {
			return m.floatToInt(s, to)
		}
		f := toF(m, v)
		if to.signed {
			return Value{n: uint64(int64(f)) & mask(to.w)}
		}
		return Value{n: uint64(f) & mask(to.w)}
	case from.k == kFloat && to.k == kFloat:
		return m.floatTo(v, to.w)
	case from.k == kString && to.k == kSlice:
		if to.el().w == 8 {
			return m.bytesVal(m.readStr(v))
		}
		var out []Value
		pos := 0
		for pos < v.sLen() {
			r, n := m.decodeRune(v, pos)
			out = append(out, r)
			pos += n
		}
		return m.bytesVal(out)
	case from.k == kSlice && to.k == kString:
		if from.el().w == 8 {
			if v.sLen() == 0 {
				return Value{}
			}
			return m.bytesVal(m.readStr(v))
		}
		s := Value{}
		for _, c := range strCells(v) {
			s = m.concat(s, m.runeStr(c, int32TI))
		}
		return s
	case from.k == kInt && to.k == kString:
		return m.runeStr(v, from)
	case from.k == kPtr || to.k == kPtr:
		if to.k == kPtr && from.k == kPtr {
			if pt, ok := to.t.Underlying().(*types.Pointer); ok {
				if _, isP := from.t.Underlying().(*types.Pointer); !isP && v.o != nil {
					et := tinfo(pt.Elem())
					if (et.k == kInt && et.w > 8 && et.w < 64) || et.k == kFloat || (et.k == kArray && et.elem.k == kInt) {
						m.unsupported("unsafe reinterpretation as " + et.t.String())
					}
				}
			}
		}
		return v
	case from.k == to.k:
		return v
	}
	m.unsupported("conversion " + from.t.String() + " to " + to.t.String())
	return Value{}
}

func (m *Machine) stdFn(pkg, name string) *Fn {
	p := m.P.prog.ImportedPackage(pkg)
	if p == nil {
		m.unsupported("package " + pkg + " not loaded")
	}
	f := p.Func(name)
	if f == nil {
		m.unsupported("function " + pkg + "." + name)
	}
	return m.P.fn(f)
}

func (m *Machine) modelFn(name string) *Fn { return m.stdFn(modelPkg, name) }

func (m *Machine) runeStr(v Value, from *TInfo) Value {
	if v.o == nil {
		var n int64
		if from.signed {
			n = sext64(v.n, from.w)
		} else {
			n = int64(v.n)
		}
		if n < 0 || n > 0x10ffff {
			n = 0xfffd
		}
		return makeStr(string(rune(n)))
	}
	e := m.toExpr(v, from.w)
	if from.w < 32 {
		if from.signed {
			e = m.eb.Sext(e, 32)
		} else {
			e = m.eb.Zext(e, 32)
		}
	} else if from.w > 32 {
		if !m.branch(m.eb.Ule(e, m.eb.Const(0x10ffff, from.w))) {
			return makeStr("\uFFFD")
		}
		e = m.eb.Extract(e, 0, 32)
	}
	r := m.call(m.stdFn("unicode/utf8", "AppendRune"), []Value{{}, exprVal(e)}, nil)
	return r
}

func (m *Machine) decodeRune(s Value, pos int) (Value, int) {
	cs := strCells(s)
	c := cs[pos]
	if c.o == nil {
		if c.n < 0x80 {
			return Value{n: c.n}, 1
		}
	} else {
		e := m.toExpr(c, 8)
		if m.branch(m.eb.Ult(e, m.eb.Const(0x80, 8))) {
			return exprVal(m.eb.Zext(e, 32)), 1
		}
	}
	sub := Value{o: s.o, n: pack(s.sOff()+pos, s.sLen()-pos, s.sLen()-pos)}
	r := m.call(m.stdFn("unicode/utf8", "DecodeRuneInString"), []Value{sub}, nil).o.(*Agg)
	return r.c[0], m.intOf(r.c[1], intTI)
}

func (m *Machine) next(fr *Frame, in *Instr) {
	it := m.val(fr, in.a).o.(*MapIter)
	if in.commaOk { // string
		if it.pos >= it.str.sLen() {
			fr.regs[in.dst] = Value{o: &Agg{c: []Value{cBool(false), {}, {}}}}
			return
		}
		r, n := m.decodeRune(it.str, it.pos)
		fr.regs[in.dst] = Value{o: &Agg{c: []Value{cBool(true), cInt(uint64(it.pos)), r}}}
		it.pos += n
		return
	}
	if it.m != nil {
		for it.pos < len(it.ord) {
			i := it.ord[it.pos]
			it.pos++
			if i < len(it.m.keys) && it.m.live[i] {
				fr.regs[in.dst] = Value{o: &Agg{c: []Value{cBool(true), it.m.keys[i], it.m.vals[i]}}}
				return
			}
		}
	}
	k, v := Value{}, Value{}
	if f := in.ti2.fields; len(f) == 3 {
		k, v = zeroValue(f[1]), zeroValue(f[2])
	}
	fr.regs[in.dst] = Value{o: &Agg{c: []Value{cBool(false), k, v}}}
}

// ---- interfaces ----

type invKey struct {
	rt *RType
	f  *types.Func
}

func (m *Machine) findMethod(rt *RType, f *types.Func) *Fn {
	k := invKey{rt, f}
	if x, ok := m.P.invCache.Load(k); ok {
		return x.(*Fn)
	}
	sf := m.P.lookupMethod(rt.t, f.Pkg(), f.Name())
	if sf == nil {
		m.abort("internal", "method "+f.Name()+" not found on "+rt.t.String())
	}
	fn := m.P.fn(sf)
	m.P.invCache.Store(k, fn)
	return fn
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (m *Machine) invoke(recv Value, f *types.Func, args []Value) Value {
	i, _ := recv.o.(*Iface)
	if i == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (nil interface, method " + f.Name() + ")")
	}
	fn := m.findMethod(i.rt, f)
	a := make([]Value, 0, len(args)+1)
	a = append(a, i.v)
	a = append(a, args...)
	return m.call(fn, a, nil)
}

type implKey struct {
	t  *RType
	it *RType
}

func (m *Machine) implements(rt, it *RType) bool {
	k := implKey{rt, it}
	if x, ok := m.P.implCache.Load(k); ok {
		return x.(bool)
	}
	iface, ok := it.t.Underlying().(*types.Interface)
	r := ok && types.Implements(rt.t, iface)
	m.P.implCache.Store(k, r)
	return r
}

func (m *Machine) typeAssert(v Value, in *Instr) Value {
	i, _ := v.o.(*Iface)
	want := in.aux.(*RType)
	ok := false
	res := Value{}
	if want.ti.k == kIface {
		ok = i != nil && m.implements(i.rt, want)
		if ok {
			res = v
		}
	} else {
		ok = i != nil && i.rt == want
		if ok {
			res = i.v
		} else {
			res = zeroValue(in.ti2)
		}
	}
	if in.commaOk {
		return Value{o: &Agg{c: []Value{res, cBool(ok)}}}
	}
	if !ok {
		d := "nil"
		if i != nil {
			d = i.rt.t.String()
		}
		m.rtPanic("interface conversion: interface is " + d + ", not " + want.t.String())
	}
	return res
}

// ---- maps ----

func (m *Machine) newMap() *Map {
	m.nextObj++
	return &Map{id: m.nextObj, path: m.inPath, idx: map[string]int{}}
}

func (m *Machine) keyStr(ti *TInfo, v Value, sb *strings.Builder) bool {
	switch ti.k {
	case kString:
		s, ok := concStr(v)
		if !ok {
			return false
		}
		sb.WriteString(strconv.Itoa(len(s)))
		sb.WriteByte(':')
		sb.WriteString(s)
	case kInt, kBool, kFloat:
		if v.o != nil {
			return false
		}
		sb.WriteString(strconv.FormatUint(v.n, 10))
		sb.WriteByte(';')
	case kPtr, kChan:
		switch o := v.o.(type) {
		case nil:
			sb.WriteString("nil;")
		case *Obj:
			fmt.Fprintf(sb, "o%p+%d;", o, v.n)
		case *RType:
			fmt.Fprintf(sb, "t%d;", o.id)
		default:
			m.unsupported(fmt.Sprintf("map key %T", v.o))
		}
	case kIface:
		i, _ := v.o.(*Iface)
		if i == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "i%d,", i.rt.id)
		return m.keyStr(i.rt.ti, i.v, sb)
	case kStruct:
		a := v.o.(*Agg)
		for i, f := range ti.fields {
			if !m.keyStr(f, aggGet(a, ti.offs[i], f), sb) {
				return false
			}
		}
	case kArray:
		a := v.o.(*Agg)
		for i := 0; i < ti.alen; i++ {
			if !m.keyStr(ti.elem, aggGet(a, i*ti.elem.n, ti.elem), sb) {
				return false
			}
		}
	default:
		m.unsupported("map key type " + ti.t.String())
	}
	return true
}

// mapFind returns the entry index or -1; forks on symbolic keys.
func (m *Machine) mapFind(mp *Map, key Value, kt *TInfo) (int, string, bool) {
	var sb strings.Builder
	conc := m.keyStr(kt, key, &sb)
	ks := ""
	if conc {
		ks = sb.String()
		if !mp.sym {
			if i, ok := mp.idx[ks]; ok {
				return i, ks, true
			}
			return -1, ks, true
		}
	}
	var gs []*Expr
	var ids []int
	any := m.eb.fls
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		e := m.toBool(m.eq(kt, mp.keys[i], key))
		if e.isTrue() {
			return i, ks, conc
		}
		if e.isFalse() {
			continue
		}
		gs = append(gs, e)
		ids = append(ids, i)
		any = m.eb.Or(any, e)
	}
	if len(gs) == 0 {
		return -1, ks, conc
	}
	gs = append(gs, m.eb.Not(any))
	ids = append(ids, -1)
	return ids[m.nway(gs)], ks, conc
}

func (m *Machine) mapGet(mv Value, key Value, ti *TInfo) (Value, bool) {
	if mv.o == nil {
		return Value{}, false
	}
	mp := mv.o.(*Map)
	if m.fp != nil {
		m.fp.rm(mp)
	}
	i, _, _ := m.mapFind(mp, key, ti.keyT())
	if i < 0 {
		return Value{}, false
	}
	return mp.vals[i], true
}

func (m *Machine) mapTouch(mp *Map) {
	if m.fp != nil {
		m.fp.wm(mp)
	}
	if mp.path || !m.inPath || mp.touched {
		return
	}
	s := *mp
	s.keys = append([]Value(nil), mp.keys...)
	s.vals = append([]Value(nil), mp.vals...)
	s.live = append([]bool(nil), mp.live...)
	s.idx = make(map[string]int, len(mp.idx))
	for k, v := range mp.idx {
		s.idx[k] = v
	}
	m.mtrail = append(m.mtrail, mapSave{mp, s})
	mp.touched = true
}

func (m *Machine) mapSet(mv Value, key, val Value, ti *TInfo) {
	if mv.o == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	mp := mv.o.(*Map)
	i, ks, conc := m.mapFind(mp, key, ti.keyT())
	m.mapTouch(mp)
	if i >= 0 {
		mp.vals[i] = val
		return
	}
	mp.keys = append(mp.keys, key)
	mp.vals = append(mp.vals, val)
	mp.live = append(mp.live, true)
	mp.n++
	if conc {
		mp.idx[ks] = len(mp.keys) - 1
	} else {
		mp.sym = true
	}
}

func (m *Machine) mapDelete(mv Value, key Value, ti *TInfo) {
	if mv.o == nil {
		return
	}
	mp := mv.o.(*Map)
	i, ks, conc := m.mapFind(mp, key, ti.keyT())
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	mp.live[i] = false
	mp.n--
	if conc {
		delete(mp.idx, ks)
	}
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, need int, esize int64) int {
	nc := oldCap
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esize <= 0 {
		return need
	}
	bytes := nc * int(esize)
	if bytes <= 32768 {
		for _, s := range sizeClasses {
			if s >= bytes {
				bytes = s
				break
			}
		}
	} else {
		bytes = (bytes + 8191) &^ 8191
	}
	return bytes / int(esize)
}

func (m *Machine) appendCells(s Value, cells []Value, en int, et *TInfo) Value {
	if len(cells) == 0 {
		return s
	}
	add := len(cells) / max(en, 1)
	l, c := s.sLen(), s.sCap()
	if l+add <= c && s.o != nil {
		o := s.obj()
		base := (s.sOff() + l) * en
		if m.fp == nil && o.path {
			copy(o.cells[base:], cells)
		} else {
			tmp := cells
			for i, x := range tmp {
				m.write(o, base+i, x)
			}
		}
		return Value{o: o, n: pack(s.sOff(), l+add, c)}
	}
	nc := growCap(c, l+add, stdSizes.Sizeof(et.t))
	o := m.newObj(nc * en)
	if s.o != nil {
		if m.fp != nil {
			m.fp.r(s.obj())
		}
		copy(o.cells, s.obj().cells[s.sOff()*en:(s.sOff()+l)*en])
	}
	copy(o.cells[l*en:], cells)
	return Value{o: o, n: pack(0, l+add, nc)}
}

func (m *Machine) builtin(fr *Frame, in *Instr, name string, args []Value) Value {
	switch name {
	case "len":
		v := args[0]
		switch in.ti2.k {
		case kString, kSlice:
			return cInt(uint64(v.sLen()))
		case kMap:
			if v.o == nil {
				return Value{}
			}
			mp := v.o.(*Map)
			if m.fp != nil {
				m.fp.rm(mp)
			}
			return cInt(uint64(mp.n))
		case kArray:
			return cInt(uint64(in.ti2.alen))
		case kPtr:
			return cInt(uint64(in.ti2.el().alen))
		}
	case "cap":
		switch in.ti2.k {
		case kSlice:
			return cInt(uint64(args[0].sCap()))
		case kArray:
			return cInt(uint64(in.ti2.alen))
		case kPtr:
			return cInt(uint64(in.ti2.el().alen))
		}
	case "append":
		s, t := args[0], args[1]
		var cells []Value
		en := in.n
		if t.o != nil {
			if m.fp != nil {
				m.fp.r(t.obj())
			}
			cells = t.obj().cells[t.sOff()*en : (t.sOff()+t.sLen())*en]
		}
		return m.appendCells(s, cells, en, in.ti2.el())
	case "copy":
		d, s := args[0], args[1]
		en := in.n
		n := d.sLen()
		if s.sLen() < n {
			n = s.sLen()
		}
		if n == 0 {
			return Value{}
		}
		if m.fp != nil {
			m.fp.r(s.obj())
		}
		src := s.obj().cells[s.sOff()*en : (s.sOff()+n)*en]
		tmp := append([]Value(nil), src...)
		for i, x := range tmp {
			m.write(d.obj(), d.sOff()*en+i, x)
		}
		return cInt(uint64(n))
	case "delete":
		m.mapDelete(args[0], args[1], in.ti2)
		return Value{}
	case "clear":
		if in.ti2.k == kMap {
			if args[0].o != nil {
				mp := args[0].o.(*Map)
				m.mapTouch(mp)
				mp.keys, mp.vals, mp.live, mp.n, mp.sym = nil, nil, nil, 0, false
				mp.idx = map[string]int{}
			}
			return Value{}
		}
		s := args[0]
		en := in.ti2.el().n
		for i := 0; i < s.sLen()*en; i++ {
			m.write(s.obj(), s.sOff()*en+i, Value{})
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		if len(m.panics) == 0 {
			return Value{}
		}
		p := m.panics[len(m.panics)-1]
		if p.recovered {
			return Value{}
		}
		p.recovered = true
		return p.v
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := m.intOf(args[1], intTI)
		if n == 0 {
			return Value{}
		}
		return Value{o: args[0].o, n: pack(int(args[0].n), n, n)}
	case "StringData", "SliceData":
		v := args[0]
		if v.o == nil {
			return Value{}
		}
		en := 1
		if in.ti2.k == kSlice {
			en = in.ti2.el().n
		}
		return Value{o: v.o, n: uint64(v.sOff() * en)}
	case "Slice":
		n := m.intOf(args[1], intTI)
		if args[0].o == nil {
			return Value{}
		}
		en := in.ti2.el().n
		return Value{o: args[0].o, n: pack(int(args[0].n)/en, n, n)}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			switch in.ti2.k {
			case kInt:
				a, b := m.toExpr(r, in.ti2.w), m.toExpr(x, in.ti2.w)
				var lt *Expr
				if in.ti2.signed {
					lt = m.eb.Slt(a, b)
				} else {
					lt = m.eb.Ult(a, b)
				}
				if name == "max" {
					lt = m.eb.Not(m.eb.Or(lt, m.eb.Eq(a, b)))
				}
				r = exprVal(m.eb.Ite(lt, a, b))
			case kFloat:
				f, g := toF(m, r), toF(m, x)
				if name == "min" {
					f = math.Min(f, g)
				} else {
					f = math.Max(f, g)
				}
				r = fromF(f, in.ti2.w)
			default:
				m.unsupported(name)
			}
		}
		return r
	}
	m.unsupported("builtin " + name)
	return Value{}
}
