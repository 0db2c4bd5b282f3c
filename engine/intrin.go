package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type intrinFn func(m *Machine, fn *Fn, args []Value) Value

func addStat(p *int64) { atomic.AddInt64(p, 1) }

var intrins = map[string]intrinFn{}

// redirects run a Go model (package sym/models, interpreted like everything else) instead of an assembly routine.
var redirects = map[string]string{
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"internal/bytealg.Count":               "Count",
	"internal/bytealg.CountString":         "CountString",
	"internal/bytealg.Index":               "Index",
	"internal/bytealg.IndexString":         "IndexString",
	"internal/bytealg.Compare":             "Compare",
	"internal/bytealg.CompareString":       "CompareString",
	"internal/stringslite.Index":           "IndexString",
	"strings.Index":                        "IndexString",
	"bytes.Index":                          "Index",
	"strings.Count":                        "StringsCount",
	"bytes.Count":                          "BytesCount",
	"errors.Is":                            "ErrorsIs",
	"errors.As":                            "ErrorsAs",
	"errors.Unwrap":                        "ErrorsUnwrap",
	"unicode/utf8.ValidString":             "ValidString",
	"unicode/utf8.Valid":                   "Valid",
	"context.WithValue":                    "WithValue",
	"encoding/json.Unmarshal":              "JSONUnmarshal",
}

const symPkg = "yarqlverif/harness/sym"
const modelPkg = "yarqlverif/harness/models"

func lookupIntrin(name string, f *ssa.Function) intrinFn {
	if fn, ok := intrins[name]; ok {
		return fn
	}
	if r, ok := redirects[name]; ok {
		return func(m *Machine, fn *Fn, args []Value) Value {
			// context, error types etc. keep their own code when the model is missing
			mp := m.P.prog.ImportedPackage(modelPkg)
			if mp == nil || mp.Func(r) == nil {
				m.unsupported("no model for " + name)
			}
			return m.call(m.P.fn(mp.Func(r)), args, nil)
		}
	}
	if f.Pkg != nil || f.Origin() != nil {
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Pkg != nil {
			switch o.Pkg.Pkg.Path() {
			case "sync/atomic", "internal/runtime/atomic":
				if x := atomicIntrin(o.Name(), f); x != nil {
					return x
				}
			}
		}
	}
	return nil
}

func atomicIntrin(name string, f *ssa.Function) intrinFn {
	sig := f.Signature
	if sig.Recv() != nil && !strings.HasPrefix(sig.Recv().Type().String(), "*sync/atomic.Pointer") && !strings.HasPrefix(sig.Recv().Type().String(), "*sync/atomic.Value") {
		return nil
	}
	if sig.Recv() != nil {
		// atomic.Pointer[T] and atomic.Value: one cell of content
		cell := func(m *Machine, a Value) (*Obj, int) {
			if a.o == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			o := a.o.(*Obj)
			return o, int(a.n)
		}
		isVal := strings.HasPrefix(sig.Recv().Type().String(), "*sync/atomic.Value")
		_ = isVal
		switch name {
		case "Load":
			return func(m *Machine, fn *Fn, a []Value) Value { o, i := cell(m, a[0]); return o.cells[i+lastCell(fn)] }
		case "Store":
			return func(m *Machine, fn *Fn, a []Value) Value {
				o, i := cell(m, a[0])
				m.writeSync(o, i+lastCell(fn), a[1])
				return Value{}
			}
		case "Swap":
			return func(m *Machine, fn *Fn, a []Value) Value {
				o, i := cell(m, a[0])
				old := o.cells[i+lastCell(fn)]
				m.writeSync(o, i+lastCell(fn), a[1])
				return old
			}
		case "CompareAndSwap":
			return func(m *Machine, fn *Fn, a []Value) Value {
				o, i := cell(m, a[0])
				if o.cells[i+lastCell(fn)] == a[1] {
					m.writeSync(o, i+lastCell(fn), a[2])
					return cBool(true)
				}
				return cBool(false)
			}
		}
		return nil
	}
	if sig.Params().Len() == 0 {
		return nil
	}
	pt, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	ti := tinfo(pt.Elem())
	if ti.n != 1 {
		return nil
	}
	get := func(m *Machine, a Value) Value {
		if a.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o := a.o.(*Obj)
		return o.cells[a.n]
	}
	set := func(m *Machine, a Value, v Value) { m.writeSync(a.o.(*Obj), int(a.n), v) }
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(m *Machine, fn *Fn, a []Value) Value { return get(m, a[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(m *Machine, fn *Fn, a []Value) Value { get(m, a[0]); set(m, a[0], a[1]); return Value{} }
	case strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "Xadd"):
		return func(m *Machine, fn *Fn, a []Value) Value {
			v := exprVal(m.eb.Bin(OAdd, m.toExpr(get(m, a[0]), ti.w), m.toExpr(a[1], ti.w)))
			set(m, a[0], v)
			return v
		}
	case strings.HasPrefix(name, "Swap"):
		return func(m *Machine, fn *Fn, a []Value) Value { old := get(m, a[0]); set(m, a[0], a[1]); return old }
	case strings.HasPrefix(name, "CompareAndSwap"), strings.HasPrefix(name, "Cas"):
		return func(m *Machine, fn *Fn, a []Value) Value {
			if m.boolOf(m.eq(ti, get(m, a[0]), a[1])) {
				set(m, a[0], a[2])
				return cBool(true)
			}
			return cBool(false)
		}
	}
	return nil
}

// lastCell: the content of atomic.Pointer and atomic.Value is their last cell.
func lastCell(fn *Fn) int {
	t := fn.f.Signature.Recv().Type().(*types.Pointer).Elem()
	return tinfo(t).n - 1
}

// writeSync writes without counting as an unsynchronised access.
func (m *Machine) writeSync(o *Obj, i int, v Value) {
	fp := m.fp
	m.fp = nil
	m.write(o, i, v)
	m.fp = fp
}

func (m *Machine) mkError(msg Value) Value {
	return m.call(m.stdFn("errors", "New"), []Value{msg}, nil)
}

// ---- formatting ----

type fbuf struct{ c []Value }

func (b *fbuf) str(s string) {
	for i := 0; i < len(s); i++ {
		b.c = append(b.c, Value{n: uint64(s[i])})
	}
}

func (m *Machine) methodOn(i *Iface, name string, res string) *Fn {
	sel := m.P.prog.MethodSets.MethodSet(i.rt.t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig := sel.Obj().Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != res {
		return nil
	}
	return m.P.fn(m.P.prog.MethodValue(sel))
}

func (m *Machine) fmtInt(v Value, ti *TInfo, base int) Value {
	if v.o == nil {
		if ti.signed {
			return makeStr(strconv.FormatInt(sext64(v.n, ti.w), base))
		}
		return makeStr(strconv.FormatUint(v.n, base))
	}
	b := cInt(uint64(base))
	if ti.signed {
		return m.call(m.stdFn("strconv", "FormatInt"), []Value{m.extInt(v, ti, true), b}, nil)
	}
	return m.call(m.stdFn("strconv", "FormatUint"), []Value{m.extInt(v, ti, false), b}, nil)
}

func (m *Machine) fmtVal(b *fbuf, verb byte, plus, sharp bool, ti *TInfo, rt *RType, v Value, depth int) {
	if depth > 8 {
		b.str("...")
		return
	}
	if verb == 'T' {
		b.str(reflStr(rt.t))
		return
	}
	if strings.IndexByte("vsqxX", verb) >= 0 && !sharp {
		i := &Iface{rt: rt, v: v}
		f := m.methodOn(i, "Error", "string")
		if f == nil {
			f = m.methodOn(i, "String", "string")
		}
		if f != nil {
			s := m.call(f, []Value{v}, nil)
			m.fmtVal(b, verb, plus, sharp, stringTI, rtype(types.Typ[types.String]), s, depth+1)
			return
		}
	}
	switch ti.k {
	case kString:
		switch verb {
		case 'q':
			b.c = append(b.c, strCells(m.call(m.stdFn("strconv", "Quote"), []Value{v}, nil))...)
		case 'x', 'X', 'd':
			m.unsupported("fmt of string with %" + string(verb))
		default:
			b.c = append(b.c, m.readStr(v)...)
		}
	case kBool:
		if m.boolOf(v) {
			b.str("true")
		} else {
			b.str("false")
		}
	case kInt:
		switch verb {
		case 'x':
			b.c = append(b.c, strCells(m.fmtInt(v, ti, 16))...)
		case 'U':
			sh := Value{}
			if sharp {
				sh.n = 1
			}
			b.c = append(b.c, strCells(m.call(m.modelFn("FmtU"), []Value{m.convInt(v, ti, int32TI), sh}, nil))...)
		case 'c':
			b.c = append(b.c, strCells(m.runeStr(v, ti))...)
		case 'q':
			b.c = append(b.c, strCells(m.call(m.stdFn("strconv", "QuoteRune"), []Value{m.convInt(v, ti, int32TI)}, nil))...)
		case 's':
			b.str("%!s(" + reflStr(rt.t) + "=")
			b.c = append(b.c, strCells(m.fmtInt(v, ti, 10))...)
			b.str(")")
		default:
			b.c = append(b.c, strCells(m.fmtInt(v, ti, 10))...)
		}
	case kFloat:
		b.c = append(b.c, strCells(m.floatFmt(v, 'g', -1, int(ti.w)))...)
	case kPtr:
		if v.o == nil {
			b.str("<nil>")
		} else if et := ti.el(); depth == 0 && (et.k == kStruct || et.k == kArray) {
			b.str("&")
			m.fmtVal(b, verb, plus, sharp, et, rtype(et.t), m.load(v, et), depth+1)
		} else {
			b.str("0xc000010000")
		}
	case kIface:
		i, _ := v.o.(*Iface)
		if i == nil {
			b.str("<nil>")
		} else {
			m.fmtVal(b, verb, plus, sharp, i.rt.ti, i.rt, i.v, depth+1)
		}
	case kSlice:
		et := ti.el()
		if et.k == kInt && et.w == 8 && (verb == 's' || verb == 'q') {
			m.fmtVal(b, verb, plus, sharp, stringTI, rtype(types.Typ[types.String]), v, depth+1)
			return
		}
		b.str("[")
		for i := 0; i < v.sLen(); i++ {
			if i > 0 {
				b.str(" ")
			}
			m.fmtVal(b, verb, plus, sharp, et, rtype(et.t), m.loadCells(v.obj(), (v.sOff()+i)*et.n, et.n, et), depth+1)
		}
		b.str("]")
	case kArray:
		b.str("[")
		for i := 0; i < ti.alen; i++ {
			if i > 0 {
				b.str(" ")
			}
			m.fmtVal(b, verb, plus, sharp, ti.elem, rtype(ti.elem.t), aggGet(v.o.(*Agg), i*ti.elem.n, ti.elem), depth+1)
		}
		b.str("]")
	case kStruct:
		st := ti.t.Underlying().(*types.Struct)
		b.str("{")
		for i, f := range ti.fields {
			if i > 0 {
				b.str(" ")
			}
			if plus {
				b.str(st.Field(i).Name() + ":")
			}
			m.fmtVal(b, verb, plus, sharp, f, rtype(f.t), aggGet(v.o.(*Agg), ti.offs[i], f), depth+1)
		}
		b.str("}")
	case kMap:
		b.str("map[...]")
	default:
		if v.o == nil {
			b.str("<nil>")
		} else {
			b.str("0x123456")
		}
	}
}

func (m *Machine) sprintf(format Value, args []Value) (Value, *Iface) {
	f, ok := concStr(format)
	if !ok {
		m.unsupported("symbolic format string")
	}
	b := &fbuf{}
	var wrapped *Iface
	ai := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			b.str(f[i : i+1])
			continue
		}
		i++
		plus, sharp := false, false
		pad, width := byte(' '), 0
		prec := -1
		for i < len(f) && strings.IndexByte("+#-0 ", f[i]) >= 0 {
			switch f[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '0':
				pad = '0'
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			b.str("%!(NOVERB)")
			break
		}
		verb := f[i]
		if verb == '%' {
			b.str("%")
			continue
		}
		if ai >= len(args) {
			b.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		iv, _ := args[ai].o.(*Iface)
		ai++
		if iv == nil {
			if verb == 'v' || verb == 'T' {
				b.str("<nil>")
			} else {
				b.str("%!" + string(verb) + "(<nil>)")
			}
			continue
		}
		if verb == 'w' {
			wrapped = iv
			verb = 'v'
		}
		t := &fbuf{}
		if prec >= 0 && iv.rt.ti.k == kFloat {
			t.str(strconv.FormatFloat(toF(m, iv.v), 'f', prec, int(iv.rt.ti.w)))
		} else {
			m.fmtVal(t, verb, plus, sharp, iv.rt.ti, iv.rt, iv.v, 0)
		}
		for k := len(t.c); k < width; k++ {
			b.c = append(b.c, Value{n: uint64(pad)})
		}
		b.c = append(b.c, t.c...)
	}
	if len(b.c) == 0 {
		return Value{}, wrapped
	}
	return m.bytesVal(b.c), wrapped
}

func (m *Machine) sprint(args []Value, ln bool) Value {
	b := &fbuf{}
	prevStr := true
	for i, a := range args {
		iv, _ := a.o.(*Iface)
		isStr := iv != nil && iv.rt.ti.k == kString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			b.str(" ")
		}
		if iv == nil {
			b.str("<nil>")
		} else {
			m.fmtVal(b, 'v', false, false, iv.rt.ti, iv.rt, iv.v, 0)
		}
		prevStr = isStr
	}
	if ln {
		b.str("\n")
	}
	if len(b.c) == 0 {
		return Value{}
	}
	return m.bytesVal(b.c)
}

// ---- encoding/json.Marshal (output only) ----

func (m *Machine) jsonEnc(b *fbuf, ti *TInfo, v Value) {
	rt := rtype(ti.t)
	if ti.k != kIface {
		if sel := m.P.prog.MethodSets.MethodSet(rt.t).Lookup(nil, "MarshalJSON"); sel != nil {
			r := m.call(m.P.fn(m.P.prog.MethodValue(sel)), []Value{v}, nil).o.(*Agg)
			if r.c[1].o != nil {
				m.unsupported("MarshalJSON error")
			}
			b.c = append(b.c, strCells(r.c[0])...)
			return
		}
	}
	switch ti.k {
	case kBool:
		if m.boolOf(v) {
			b.str("true")
		} else {
			b.str("false")
		}
	case kInt:
		b.c = append(b.c, strCells(m.fmtInt(v, ti, 10))...)
	case kFloat:
		b.c = append(b.c, strCells(m.floatFmt(v, 'g', -1, int(ti.w)))...)
	case kString:
		mp := m.P.prog.ImportedPackage(modelPkg)
		s := m.call(m.P.fn(mp.Func("JSONString")), []Value{v}, nil)
		b.c = append(b.c, strCells(s)...)
	case kPtr:
		if v.o == nil {
			b.str("null")
			return
		}
		m.jsonEnc(b, ti.el(), m.load(v, ti.el()))
	case kIface:
		i, _ := v.o.(*Iface)
		if i == nil {
			b.str("null")
			return
		}
		m.jsonEnc(b, i.rt.ti, i.v)
	case kSlice:
		if v.o == nil {
			b.str("null")
			return
		}
		et := ti.el()
		b.str("[")
		for i := 0; i < v.sLen(); i++ {
			if i > 0 {
				b.str(",")
			}
			m.jsonEnc(b, et, m.loadCells(v.obj(), (v.sOff()+i)*et.n, et.n, et))
		}
		b.str("]")
	case kMap:
		mp, _ := v.o.(*Map)
		if mp == nil {
			b.str("null")
			return
		}
		if ti.keyT().k != kString {
			m.unsupported("json of a map with other keys")
		}
		var ks []string
		at := map[string]Value{}
		for i, k := range mp.keys {
			if mp.live[i] {
				c, ok := concStr(k)
				if !ok {
					m.unsupported("json of a map with symbolic keys")
				}
				ks = append(ks, c)
				at[c] = mp.vals[i]
			}
		}
		sort.Strings(ks)
		b.str("{")
		for i, k := range ks {
			if i > 0 {
				b.str(",")
			}
			m.jsonEnc(b, stringTI, makeStr(k))
			b.str(":")
			m.jsonEnc(b, ti.el(), at[k])
		}
		b.str("}")
	case kStruct:
		st := ti.t.Underlying().(*types.Struct)
		b.str("{")
		first := true
		for i, f := range ti.fields {
			fld := st.Field(i)
			if !fld.Exported() {
				continue
			}
			if fld.Embedded() {
				m.unsupported("json of embedded field")
			}
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name := fld.Name()
			omit := false
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			if parts[0] != "" {
				name = parts[0]
			}
			for _, o := range parts[1:] {
				if o == "omitempty" {
					omit = true
				}
			}
			fv := aggGet(v.o.(*Agg), ti.offs[i], f)
			if omit {
				empty := false
				switch f.k {
				case kString, kSlice:
					empty = fv.sLen() == 0
				case kPtr, kIface:
					empty = fv.o == nil
				case kMap:
					empty = fv.o == nil || fv.o.(*Map).n == 0
				case kBool, kInt:
					empty = m.branch(m.rIsZero(f, fv))
				}
				if empty {
					continue
				}
			}
			if !first {
				b.str(",")
			}
			first = false
			b.str("\"" + name + "\":")
			m.jsonEnc(b, f, fv)
		}
		b.str("}")
	default:
		m.unsupported("json of " + ti.t.String())
	}
}

func (m *Machine) tuple(vs ...Value) Value { return Value{o: &Agg{c: vs}} }

func variadic(v Value) []Value { return strCells(v) }

func (m *Machine) newInput(kind string, w uint8) *Expr {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if !m.inPath {
		m.abort("internal", "symbolic input outside of Run")
	}
	e := m.eb.NewVar(w)
	m.inputs = append(m.inputs, Input{Kind: kind, e: e})
	return e
}

// freshVal is an auxiliary variable with a known value in the current model.
func (m *Machine) freshVal(w uint8, val uint64) *Expr {
	e := m.eb.NewVar(w)
	mod := m.copyModel()
	for int(e.k) >= len(mod) {
		mod = append(mod, 0)
	}
	mod[e.k] = val & mask(w)
	m.model = mod
	return e
}

// formatSym writes a symbolic unsigned number in base 10: the digits are auxiliary
// variables defined by the (unique) positional expansion.
func (m *Machine) decDigits(x *Expr) []Value {
	w := x.w
	n := 1
	for p := uint64(10); n < 20; n++ {
		if mask(w) < p || m.branch(m.eb.Ult(x, m.eb.Const(p, w))) {
			break
		}
		if n == 19 {
			n = 20
			break
		}
		p *= 10
	}
	out := make([]Value, n)
	val := m.eb.Eval(x, m.model)
	ww := w
	sum := m.eb.Const(0, ww)
	pow := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := m.freshVal(8, val%10)
		val /= 10
		m.assume(m.eb.Ult(d, m.eb.Const(10, 8)))
		dd := d
		if ww > 8 {
			dd = m.eb.Zext(d, ww)
		}
		sum = m.eb.Bin(OAdd, sum, m.eb.Bin(OMul, dd, m.eb.Const(pow, ww)))
		pow *= 10
		out[i] = exprVal(m.eb.Bin(OAdd, d, m.eb.Const('0', 8)))
	}
	if n > 1 {
		// no leading zero: follows from the range of x, stated to help the solver
		m.assume(m.eb.Not(m.eb.Eq(m.toExpr(out[0], 8), m.eb.Const('0', 8))))
	}
	if n == 20 {
		// 20 digits of 64 bits: exclude wrap-around of the sum
		m.assume(m.eb.Eq(m.toExpr(out[0], 8), m.eb.Const('1', 8)))
		rest := m.eb.Bin(OSub, sum, m.eb.Const(10000000000000000000, ww))
		m.assume(m.eb.Ule(rest, m.eb.Const(8446744073709551615, ww)))
	}
	m.assume(m.eb.Eq(sum, x))
	return out
}

// pow2Digits writes a symbolic unsigned number in base 2 to the power bits.
func (m *Machine) pow2Digits(x *Expr, bits uint8) []Value {
	n := 1
	for n*int(bits) < 64 && !m.branch(m.eb.Ult(x, m.eb.Const(1<<(n*int(bits)), 64))) {
		n++
	}
	out := make([]Value, n)
	for i := range out {
		lo := (n - 1 - i) * int(bits)
		w := bits
		if lo+int(w) > 64 {
			w = uint8(64 - lo)
		}
		d := m.eb.Zext(m.eb.Extract(x, uint64(lo), w), 8)
		out[i] = exprVal(m.eb.Bin(OAdd, d, m.eb.Ite(m.eb.Ult(d, m.eb.Const(10, 8)), m.eb.Const('0', 8), m.eb.Const('a'-10, 8))))
	}
	return out
}

func init() {
	I := intrins
	nop := func(m *Machine, fn *Fn, a []Value) Value { return Value{} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer",
		"log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "time.initLocal", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReadRange", "internal/race.WriteRange", "time.Sleep", "debug.PrintStack", "runtime/debug.PrintStack",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "internal/godebug.registerMetric"} {
		I[n] = nop
	}
	// locks: note the lock in the footprint machinery
	I["(*sync.Mutex).Lock"] = func(m *Machine, fn *Fn, a []Value) Value { m.locks++; return Value{} }
	I["(*sync.Mutex).Unlock"] = func(m *Machine, fn *Fn, a []Value) Value { m.locks--; return Value{} }
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).RUnlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.Mutex).TryLock"] = func(m *Machine, fn *Fn, a []Value) Value { m.locks++; return cBool(true) }
	fatal := func(m *Machine, fn *Fn, a []Value) Value { m.reflectPanic("log.Fatal"); return Value{} }
	I["log.Fatal"], I["log.Fatalf"], I["log.Fatalln"] = fatal, fatal, fatal
	I["os.Exit"] = fatal
	I["(*sync.Once).Do"] = func(m *Machine, fn *Fn, a []Value) Value {
		o := a[0].o.(*Obj)
		if o.cells[a[0].n].n == 0 {
			m.writeSync(o, int(a[0].n), cInt(1))
			m.locks++
			m.callClosure(a[1], nil)
			m.locks--
		}
		return Value{}
	}
	I["(*sync.Once).doSlow"] = I["(*sync.Once).Do"]
	// sync.Pool as a stack kept in its first cell
	I["(*sync.Pool).Get"] = func(m *Machine, fn *Fn, a []Value) Value {
		o := a[0].o.(*Obj)
		pt := tinfo(m.P.stdType("sync", "Pool"))
		cell := int(a[0].n)
		if st := o.cells[cell]; st.o != nil {
			n := st.sLen()
			so := st.obj()
			v := so.cells[n-1]
			if n == 1 {
				m.writeSync(o, cell, Value{})
			} else {
				m.writeSync(o, cell, Value{o: so, n: pack(0, n-1, st.sCap())})
			}
			return v
		}
		nf := o.cells[cell+pt.offs[fieldIndex(pt.t, "New")]]
		if nf.o == nil {
			return Value{}
		}
		return m.callClosure(nf, nil)
	}
	I["(*sync.Pool).Put"] = func(m *Machine, fn *Fn, a []Value) Value {
		if a[1].o == nil {
			return Value{}
		}
		o := a[0].o.(*Obj)
		cell := int(a[0].n)
		st := o.cells[cell]
		n := 0
		no := m.newObj(0)
		if st.o != nil {
			n = st.sLen()
			no.cells = append(no.cells, st.obj().cells[:n]...)
		}
		no.cells = append(no.cells, a[1])
		m.writeSync(o, cell, Value{o: no, n: pack(0, n+1, n+1)})
		return Value{}
	}
	// sync.Map on an ordinary map held in its first cell
	anyMap := func(m *Machine) *TInfo {
		return tinfo(types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)))
	}
	smap := func(m *Machine, a Value, mk bool) Value {
		o := a.o.(*Obj)
		v := o.cells[a.n]
		if v.o == nil && mk {
			v = Value{o: m.newMap()}
			m.writeSync(o, int(a.n), v)
		}
		return v
	}
	locked := func(f intrinFn) intrinFn {
		return func(m *Machine, fn *Fn, a []Value) Value {
			fp := m.fp
			m.fp = nil
			r := f(m, fn, a)
			m.fp = fp
			return r
		}
	}
	I["(*sync.Map).Load"] = locked(func(m *Machine, fn *Fn, a []Value) Value {
		v, ok := m.mapGet(smap(m, a[0], false), a[1], anyMap(m))
		return m.tuple(v, cBool(ok))
	})
	I["(*sync.Map).Store"] = locked(func(m *Machine, fn *Fn, a []Value) Value {
		m.mapSet(smap(m, a[0], true), a[1], a[2], anyMap(m))
		return Value{}
	})
	I["(*sync.Map).LoadOrStore"] = locked(func(m *Machine, fn *Fn, a []Value) Value {
		mp := smap(m, a[0], true)
		v, ok := m.mapGet(mp, a[1], anyMap(m))
		if ok {
			return m.tuple(v, cBool(true))
		}
		m.mapSet(mp, a[1], a[2], anyMap(m))
		return m.tuple(a[2], cBool(false))
	})
	I["(*sync.Map).Delete"] = locked(func(m *Machine, fn *Fn, a []Value) Value {
		m.mapDelete(smap(m, a[0], false), a[1], anyMap(m))
		return Value{}
	})
	I["(*sync.Map).Range"] = func(m *Machine, fn *Fn, a []Value) Value {
		v := smap(m, a[0], false)
		if v.o == nil {
			return Value{}
		}
		mp := v.o.(*Map)
		for i := 0; i < len(mp.keys); i++ {
			if mp.live[i] && !m.boolOf(m.callClosure(a[1], []Value{mp.keys[i], mp.vals[i]})) {
				break
			}
		}
		return Value{}
	}
	// time
	I["time.Now"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.clock += 1000003
		return m.call(m.stdFn("time", "Unix"), []Value{cInt(1700000000), cInt(uint64(m.clock))}, nil)
	}
	I["time.runtimeNano"] = func(m *Machine, fn *Fn, a []Value) Value { m.clock += 1000003; return cInt(uint64(m.clock)) }
	I["time.runtimeNow"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.clock += 1000003
		return m.tuple(cInt(1700000000), cInt(uint64(m.clock)%1000000000), cInt(uint64(m.clock)))
	}
	I["time.Since"] = func(m *Machine, fn *Fn, a []Value) Value {
		now := I["time.Now"](m, fn, nil)
		tt := m.P.stdType("time", "Time")
		sub := m.P.fn(m.P.prog.LookupMethod(tt, nil, "Sub"))
		return m.call(sub, []Value{now, a[0]}, nil)
	}
	// fmt
	I["fmt.Sprintf"] = func(m *Machine, fn *Fn, a []Value) Value {
		s, _ := m.sprintf(a[0], variadic(a[1]))
		return s
	}
	I["fmt.Sprint"] = func(m *Machine, fn *Fn, a []Value) Value { return m.sprint(variadic(a[0]), false) }
	I["fmt.Sprintln"] = func(m *Machine, fn *Fn, a []Value) Value { return m.sprint(variadic(a[0]), true) }
	I["fmt.Errorf"] = func(m *Machine, fn *Fn, a []Value) Value {
		s, w := m.sprintf(a[0], variadic(a[1]))
		if w != nil {
			wt := m.P.stdType("fmt", "wrapError")
			ti := tinfo(wt)
			o := m.newObj(ti.n)
			o.cells[ti.offs[fieldIndex(wt, "msg")]] = s
			o.cells[ti.offs[fieldIndex(wt, "err")]] = Value{o: w}
			return Value{o: &Iface{rt: rtype(types.NewPointer(wt)), v: Value{o: o}}}
		}
		return m.mkError(s)
	}
	fpr := func(m *Machine, w Value, s Value) Value {
		b := m.bytesVal(strCells(s))
		i, _ := w.o.(*Iface)
		if i == nil {
			m.rtPanic("nil writer")
		}
		sel := m.P.prog.MethodSets.MethodSet(i.rt.t).Lookup(nil, "Write")
		return m.call(m.P.fn(m.P.prog.MethodValue(sel)), []Value{i.v, b}, nil)
	}
	I["fmt.Fprintf"] = func(m *Machine, fn *Fn, a []Value) Value {
		s, _ := m.sprintf(a[1], variadic(a[2]))
		return fpr(m, a[0], s)
	}
	I["fmt.Fprint"] = func(m *Machine, fn *Fn, a []Value) Value { return fpr(m, a[0], m.sprint(variadic(a[1]), false)) }
	I["fmt.Fprintln"] = func(m *Machine, fn *Fn, a []Value) Value { return fpr(m, a[0], m.sprint(variadic(a[1]), true)) }
	appendB := func(m *Machine, dst, s Value) Value { return m.appendCells(dst, strCells(s), 1, byteTI) }
	I["fmt.Appendf"] = func(m *Machine, fn *Fn, a []Value) Value {
		s, _ := m.sprintf(a[1], variadic(a[2]))
		return appendB(m, a[0], s)
	}
	I["encoding/json.Marshal"] = func(m *Machine, fn *Fn, a []Value) Value {
		b := &fbuf{}
		i, _ := a[0].o.(*Iface)
		if i == nil {
			b.str("null")
		} else {
			m.jsonEnc(b, i.rt.ti, i.v)
		}
		return m.tuple(m.bytesVal(b.c), Value{})
	}
	// sort
	sortSlice := func(m *Machine, a []Value, unstable bool) Value {
		i, _ := a[0].o.(*Iface)
		if i == nil || i.rt.ti.k != kSlice {
			m.reflectPanic("sort.Slice of non-slice")
		}
		s := i.v
		n := s.sLen()
		en := i.rt.ti.el().n
		less := a[1]
		for x := 1; x < n; x++ {
			for y := x; y > 0; y-- {
				if !m.boolOf(m.callClosure(less, []Value{cInt(uint64(y)), cInt(uint64(y - 1))})) {
					break
				}
				o := s.obj()
				p, q := (s.sOff()+y)*en, (s.sOff()+y-1)*en
				for k := 0; k < en; k++ {
					u, v := o.cells[p+k], o.cells[q+k]
					m.write(o, p+k, v)
					m.write(o, q+k, u)
				}
			}
		}
		if unstable && n > 12 && m.mapOrd {
			// Beyond 12 elements sort.Slice says nothing of the order of equal ones: those are kept in order or turned around
			swap := func(x, y int) {
				o := s.obj()
				p, q := (s.sOff()+y)*en, (s.sOff()+x)*en
				for k := 0; k < en; k++ {
					u, v := o.cells[p+k], o.cells[q+k]
					m.write(o, p+k, v)
					m.write(o, q+k, u)
				}
			}
			for x := 1; x < n; x++ {
				y := x
				for ; y < n && !m.boolOf(m.callClosure(less, []Value{cInt(uint64(y - 1)), cInt(uint64(y))})); y++ {
				}
				if y > x && m.mapReversed("equal elements of sort.Slice") {
					for i, j := x-1, y-1; i < j; i, j = i+1, j-1 {
						swap(i, j)
					}
				}
				x = y
			}
		}
		return Value{}
	}
	I["sort.Slice"] = func(m *Machine, fn *Fn, a []Value) Value { return sortSlice(m, a, true) }
	I["sort.SliceStable"] = func(m *Machine, fn *Fn, a []Value) Value { return sortSlice(m, a, false) }
	// math
	id := func(m *Machine, fn *Fn, a []Value) Value { return a[0] }
	I["math.Float64bits"] = func(m *Machine, fn *Fn, a []Value) Value { return Value{n: math.Float64bits(toF(m, a[0]))} }
	I["math.Float64frombits"] = func(m *Machine, fn *Fn, a []Value) Value {
		if a[0].o != nil {
			m.unsupported("symbolic float")
		}
		return a[0]
	}
	I["math.Signbit"] = func(m *Machine, fn *Fn, a []Value) Value {
		if s := symF(a[0]); s != nil {
			lt, _ := m.cmpF(a[0], Value{}, 64)
			return exprVal(lt)
		}
		return cBool(math.Signbit(toF(m, a[0])))
	}
	I["math.Float32bits"] = func(m *Machine, fn *Fn, a []Value) Value {
		return Value{n: uint64(math.Float32bits(float32(toF(m, a[0]))))}
	}
	I["math.Float32frombits"] = func(m *Machine, fn *Fn, a []Value) Value {
		if a[0].o != nil {
			m.unsupported("symbolic float")
		}
		return fromF(float64(math.Float32frombits(uint32(a[0].n))), 32)
	}
	f1 := func(f func(float64) float64) intrinFn {
		return func(m *Machine, fn *Fn, a []Value) Value { return fromF(f(toF(m, a[0])), 64) }
	}
	I["math.Floor"], I["math.Ceil"], I["math.Sqrt"] = f1(math.Floor), f1(math.Ceil), f1(math.Sqrt)
	I["math.Abs"] = func(m *Machine, fn *Fn, a []Value) Value { return m.absF(a[0]) }
	I["math.Trunc"] = func(m *Machine, fn *Fn, a []Value) Value {
		if s := symF(a[0]); s != nil {
			return m.truncF(s)
		}
		return fromF(math.Trunc(toF(m, a[0])), 64)
	}
	I["internal/abi.NoEscape"] = id
	I["internal/abi.Escape"] = id
	I["internal/bytealg.MakeNoZero"] = func(m *Machine, fn *Fn, a []Value) Value {
		n := m.intOf(a[0], intTI)
		if n < 0 || n > 1<<20 {
			m.abort("unsupported", "huge MakeNoZero")
		}
		return Value{o: m.newObj(n), n: pack(0, n, n)}
	}
	eqf := func(m *Machine, fn *Fn, a []Value) Value { return m.eqCells(m.readStr(a[0]), m.readStr(a[1])) }
	I["bytes.Equal"], I["internal/bytealg.Equal"] = eqf, eqf
	I["github.com/valyala/fastjson.s2b"] = id
	I["strings.Clone"] = func(m *Machine, fn *Fn, a []Value) Value {
		if a[0].sLen() == 0 {
			return Value{}
		}
		return m.bytesVal(m.readStr(a[0]))
	}
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["runtime.Callers"] = nop
	I["runtime.NumGoroutine"] = func(m *Machine, fn *Fn, a []Value) Value { return cInt(1) }
	I["runtime.GOMAXPROCS"] = func(m *Machine, fn *Fn, a []Value) Value { return cInt(8) }
	I["runtime/debug.Stack"] = func(m *Machine, fn *Fn, a []Value) Value { return m.bytesVal(strCells(makeStr("stack"))) }
	I["internal/reflectlite.TypeOf"] = func(m *Machine, fn *Fn, a []Value) Value {
		m.unsupported("reflectlite")
		return Value{}
	}
	// numbers: only symbolic wide integers need the summary
	wrapNum := func(name string, app, signed bool) {
		I["strconv."+name] = func(m *Machine, fn *Fn, a []Value) Value {
			var dst Value
			v := a[0]
			base := a[1]
			if app {
				dst, v, base = a[0], a[1], a[2]
			}
			var digits []Value
			if v.o == nil {
				if base.o != nil {
					m.unsupported("symbolic base")
				}
				s := ""
				if signed {
					s = strconv.FormatInt(int64(v.n), int(base.n))
				} else {
					s = strconv.FormatUint(v.n, int(base.n))
				}
				digits = strCells(makeStr(s))
			} else {
				bits := uint8(0)
				if base.o == nil {
					bits = map[uint64]uint8{2: 1, 4: 2, 8: 3, 16: 4, 32: 5}[base.n]
				}
				if base.o != nil || base.n != 10 && bits == 0 {
					m.unsupported("symbolic number in base other than 10 or a power of 2")
				}
				x := m.toExpr(v, 64)
				if bits != 0 {
					neg := signed && m.branch(m.eb.Slt(x, m.eb.Const(0, 64)))
					if neg {
						x = m.eb.Neg(x)
					}
					digits = m.pow2Digits(x, bits)
					if neg {
						digits = append([]Value{{n: '-'}}, digits...)
					}
					if app {
						return m.appendCells(dst, digits, 1, byteTI)
					}
					return m.bytesVal(digits)
				}
				if k, ok := m.conc[x]; ok {
					if signed {
						digits = strCells(makeStr(strconv.FormatInt(int64(k), 10)))
					} else {
						digits = strCells(makeStr(strconv.FormatUint(k, 10)))
					}
				} else if signed && m.branch(m.eb.Slt(x, m.eb.Const(0, 64))) {
					digits = append([]Value{{n: '-'}}, m.decDigits(m.eb.Neg(x))...)
				} else {
					digits = m.decDigits(x)
				}
			}
			if app {
				return m.appendCells(dst, digits, 1, byteTI)
			}
			return m.bytesVal(digits)
		}
	}
	wrapNum("FormatInt", false, true)
	wrapNum("FormatUint", false, false)
	wrapNum("AppendInt", true, true)
	wrapNum("AppendUint", true, false)
	I["strconv.Itoa"] = func(m *Machine, fn *Fn, a []Value) Value {
		return I["strconv.FormatInt"](m, fn, []Value{a[0], cInt(10)})
	}
	floatFmt := func(m *Machine, v, f, prec, bits Value) Value {
		return m.floatFmt(v, byte(m.intOf(f, byteTI)), m.intOf(prec, intTI), m.intOf(bits, intTI))
	}
	I["strconv.FormatFloat"] = func(m *Machine, fn *Fn, a []Value) Value { return floatFmt(m, a[0], a[1], a[2], a[3]) }
	I["strconv.AppendFloat"] = func(m *Machine, fn *Fn, a []Value) Value {
		return appendB(m, a[0], floatFmt(m, a[1], a[2], a[3], a[4]))
	}
	symbolic := func(cs []Value) bool {
		for _, c := range cs {
			if c.o != nil {
				return true
			}
		}
		return false
	}
	for _, n := range []string{"64", "32"} {
		I["internal/strconv.float"+n+"frombits"], I["internal/strconv.float"+n+"bits"] = I["math.Float"+n+"frombits"], I["math.Float"+n+"bits"]
	}
	I["strconv.ParseFloat"] = func(m *Machine, fn *Fn, a []Value) Value {
		if cs := m.readStr(a[0]); symbolic(cs) && m.spec == 0 {
			if v, ok := m.parseFloat(cs, uint8(m.intOf(a[1], intTI)), false); ok {
				return Value{o: &Agg{c: []Value{v, {}}}}
			}
		} else if t, ok := concStr(a[0]); ok && a[1].o == nil && (a[1].n == 64 || a[1].n == 32) {
			if f, err := strconv.ParseFloat(t, int(a[1].n)); err == nil {
				return Value{o: &Agg{c: []Value{fromF(f, uint8(a[1].n)), {}}}}
			}
		}
		return m.realBody(fn, a)
	}
	I["github.com/valyala/fastjson/fastfloat.ParseBestEffort"] = func(m *Machine, fn *Fn, a []Value) Value {
		if cs := m.readStr(a[0]); symbolic(cs) && m.spec == 0 {
			if v, ok := m.parseFloat(cs, 64, true); ok {
				return v
			}
		}
		return m.realBody(fn, a)
	}
	I["github.com/valyala/fastjson/fastfloat.Parse"] = func(m *Machine, fn *Fn, a []Value) Value {
		if cs := m.readStr(a[0]); symbolic(cs) && m.spec == 0 {
			if v, ok := m.parseFloat(cs, 64, true); ok {
				return Value{o: &Agg{c: []Value{v, {}}}}
			}
		}
		return m.realBody(fn, a)
	}

	// ---- sym ----
	S := func(name string, f intrinFn) { I[symPkg+"."+name] = f }
	kind := func(name, kind string, w uint8) {
		S(name, func(m *Machine, fn *Fn, a []Value) Value { return exprVal(m.newInput(kind, w)) })
	}
	kind("Byte", "u8", 8)
	kind("Bool", "bool", 0)
	kind("Int64", "i64", 64)
	kind("Uint64", "u64", 64)
	kind("Int32", "i32", 32)
	kind("Uint32", "u32", 32)
	kind("Int16", "i16", 16)
	kind("Uint16", "u16", 16)
	kind("Int8", "i8", 8)
	S("Range", func(m *Machine, fn *Fn, a []Value) Value { // small non-negative range as an int
		lo, hi := m.intOf(a[0], intTI), m.intOf(a[1], intTI)
		if lo < 0 || hi > 255 || lo > hi {
			m.abort("internal", "sym.Range bounds")
		}
		e := m.newInput("u8", 8)
		m.model = m.copyModel()
		for int(e.k) >= len(m.model) {
			m.model = append(m.model, 0)
		}
		if v := m.model[e.k]; v < uint64(lo) || v > uint64(hi) {
			m.model[e.k] = uint64(lo)
		}
		m.assume(m.eb.And(m.eb.Ule(m.eb.Const(uint64(lo), 8), e), m.eb.Ule(e, m.eb.Const(uint64(hi), 8))))
		return exprVal(m.eb.Zext(e, 64))
	})
	S("Choose", func(m *Machine, fn *Fn, a []Value) Value {
		c := m.choose(m.intOf(a[0], intTI))
		m.inputs = append(m.inputs, Input{Kind: "choose", V: uint64(c)})
		return cInt(uint64(c))
	})
	S("Pick", func(m *Machine, fn *Fn, a []Value) Value { // a byte out of a set
		set, ok := concStr(a[0])
		if !ok || set == "" {
			m.abort("internal", "sym.Pick needs a concrete set")
		}
		e := m.newInput("u8", 8)
		c := m.eb.fls
		var in [256]bool
		for i := 0; i < len(set); i++ {
			in[set[i]] = true
		}
		for lo := 0; lo < 256; lo++ {
			if !in[lo] {
				continue
			}
			hi := lo
			for hi < 255 && in[hi+1] {
				hi++
			}
			if lo == hi {
				c = m.eb.Or(c, m.eb.Eq(e, m.eb.Const(uint64(lo), 8)))
			} else {
				c = m.eb.Or(c, m.eb.And(m.eb.Ule(m.eb.Const(uint64(lo), 8), e), m.eb.Ule(e, m.eb.Const(uint64(hi), 8))))
			}
			lo = hi
		}
		mod := m.copyModel()
		for int(e.k) >= len(mod) {
			mod = append(mod, 0)
		}
		if !in[byte(mod[e.k])] {
			mod[e.k] = uint64(set[0])
		}
		m.model = mod
		m.assume(c)
		return exprVal(e)
	})
	S("Assume", func(m *Machine, fn *Fn, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		m.assume(m.toBool(a[0]))
		return Value{}
	})
	S("Assert", func(m *Machine, fn *Fn, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		s, _ := concStr(a[1])
		m.assert(m.toBool(a[0]), s)
		return Value{}
	})
	S("Cover", func(m *Machine, fn *Fn, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		s, _ := concStr(a[0])
		m.covers[s] = true
		return Value{}
	})
	S("Observe", func(m *Machine, fn *Fn, a []Value) Value {
		if m.spec > 0 {
			panic(specAbort{})
		}
		s, _ := concStr(a[0])
		m.obs = append(m.obs, Obs{label: s, cells: append([]Value(nil), strCells(a[1])...)})
		return Value{}
	})
	flt := func(w uint8) intrinFn { // neg, digits, exponent: 0.digits times a power of ten
		return func(m *Machine, fn *Fn, a []Value) Value {
			neg := m.boolOf(a[0])
			v, ok := m.decF(neg, m.readStr(a[1]), m.intOf(a[2], intTI), w)
			if !ok {
				m.abort("internal", "sym.Float digits or exponent")
			}
			return v
		}
	}
	S("Float64", flt(64))
	S("Float32", flt(32))
	S("Debug", func(m *Machine, fn *Fn, a []Value) Value { return Value{} })
	S("Fork", func(m *Machine, fn *Fn, a []Value) Value { return cBool(m.boolOf(a[0])) })
	S("Conc", func(m *Machine, fn *Fn, a []Value) Value { return cInt(uint64(int64(m.intOf(a[0], intTI)))) })
	S("MapOrder", func(m *Machine, fn *Fn, a []Value) Value { m.mapOrd = a[0].n != 0; return Value{} })
	S("Tier", func(m *Machine, fn *Fn, a []Value) Value { return cInt(uint64(m.X.tier)) })
	S("Symbolic", func(m *Machine, fn *Fn, a []Value) Value { return cBool(true) })
	S("Track", func(m *Machine, fn *Fn, a []Value) Value {
		i := m.intOf(a[0], intTI)
		if m.fps == nil {
			m.fps = map[int]*Footprint{}
		}
		if m.fps[i] == nil {
			m.fps[i] = &Footprint{m: m, rd: map[any]string{}, wr: map[any]string{}}
		}
		m.fp = m.fps[i]
		return Value{}
	})
	S("TrackEnd", func(m *Machine, fn *Fn, a []Value) Value { m.fp = nil; return Value{} })
	S("Disjoint", func(m *Machine, fn *Fn, a []Value) Value {
		x, y := m.fps[m.intOf(a[0], intTI)], m.fps[m.intOf(a[1], intTI)]
		s, _ := concStr(a[2])
		if x == nil || y == nil {
			return Value{}
		}
		if w := overlap(x, y); w != "" {
			m.X.violation(m, "race", s+": "+w, m.model)
			m.abort("violation", s)
		}
		return Value{}
	})
	_ = fmt.Sprint
}

// Footprint records the shared objects a piece of execution reads and writes outside of locks.
type Footprint struct {
	m      *Machine
	rd, wr map[any]string
}

func (f *Footprint) r(o *Obj) {
	if o.path && false {
		return
	}
	if f.m.locks == 0 && !o.ro {
		if _, ok := f.rd[o]; !ok {
			f.rd[o] = f.m.where()
		}
	}
}
func (f *Footprint) w(o *Obj) {
	if f.m.locks == 0 {
		if _, ok := f.wr[o]; !ok {
			f.wr[o] = f.m.where()
		}
	}
}
func (f *Footprint) rm(o *Map) {
	if f.m.locks == 0 {
		if _, ok := f.rd[o]; !ok {
			f.rd[o] = f.m.where()
		}
	}
}
func (f *Footprint) wm(o *Map) {
	if f.m.locks == 0 {
		if _, ok := f.wr[o]; !ok {
			f.wr[o] = f.m.where()
		}
	}
}

func overlap(x, y *Footprint) string {
	best := ""
	chk := func(a, b map[any]string, what string) {
		for o, wa := range a {
			if wb, ok := b[o]; ok {
				l := ""
				if ob, ok := o.(*Obj); ok {
					l = ob.label
				}
				s := what + " " + l + ": " + short(wa) + " / " + short(wb)
				if best == "" || s < best {
					best = s
				}
			}
		}
	}
	chk(x.wr, y.wr, "written by both")
	chk(x.wr, y.rd, "written by the first, read by the second")
	chk(y.wr, x.rd, "written by the second, read by the first")
	return best
}

func short(s string) string {
	if i := strings.Index(s, " < "); i >= 0 {
		if j := strings.Index(s[i+3:], " < "); j >= 0 {
			return s[:i+3+j]
		}
	}
	return s
}
