package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type tkind uint8

const (
	kInvalid tkind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kFunc
	kIface
	kStruct
	kArray
	kChan
	kOpaque
	kTuple
)

// TInfo is the memory layout of a type: scalars take one cell, structs and arrays are flattened.
type TInfo struct {
	t      types.Type
	k      tkind
	w      uint8
	signed bool
	n      int
	agg    bool
	offs   []int
	fields []*TInfo
	elem   *TInfo
	alen   int
}

var tinfoCache sync.Map // types.Type -> *TInfo

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

func tinfo(t types.Type) *TInfo {
	if x, ok := tinfoCache.Load(t); ok {
		return x.(*TInfo)
	}
	ti := makeTInfo(t)
	x, _ := tinfoCache.LoadOrStore(t, ti)
	return x.(*TInfo)
}

func makeTInfo(t types.Type) *TInfo {
	ti := &TInfo{t: t, n: 1}
	t = types.Unalias(t)
	if isReflectValue(t) {
		ti.k = kOpaque
		return ti
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.k = kBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.k, ti.w, ti.signed = kInt, 64, true
		case types.Int8:
			ti.k, ti.w, ti.signed = kInt, 8, true
		case types.Int16:
			ti.k, ti.w, ti.signed = kInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.k, ti.w, ti.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.k, ti.w = kInt, 64
		case types.Uint8:
			ti.k, ti.w = kInt, 8
		case types.Uint16:
			ti.k, ti.w = kInt, 16
		case types.Uint32:
			ti.k, ti.w = kInt, 32
		case types.Float32:
			ti.k, ti.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.k, ti.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.k = kComplex
		case types.String, types.UntypedString:
			ti.k = kString
		case types.UnsafePointer, types.UntypedNil:
			ti.k = kPtr
		}
	case *types.Pointer:
		ti.k = kPtr
	case *types.Slice:
		ti.k = kSlice
	case *types.Map:
		ti.k = kMap
	case *types.Signature:
		ti.k = kFunc
	case *types.Interface:
		ti.k = kIface
	case *types.Chan:
		ti.k = kChan
	case *types.Tuple:
		ti.k = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tinfo(u.At(i).Type()))
		}
	case *types.Struct:
		ti.k, ti.agg = kStruct, true
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := tinfo(u.Field(i).Type())
			ti.offs = append(ti.offs, n)
			ti.fields = append(ti.fields, f)
			n += f.n
		}
		ti.n = n
	case *types.Array:
		ti.k, ti.agg = kArray, true
		ti.elem = tinfo(u.Elem())
		ti.alen = int(u.Len())
		ti.n = ti.elem.n * ti.alen
	}
	return ti
}

// el is the layout of the element of a slice, array, pointer or map value type.
func (ti *TInfo) el() *TInfo {
	if ti.elem != nil {
		return ti.elem
	}
	var e *TInfo
	switch u := types.Unalias(ti.t).Underlying().(type) {
	case *types.Slice:
		e = tinfo(u.Elem())
	case *types.Pointer:
		e = tinfo(u.Elem())
	case *types.Map:
		e = tinfo(u.Elem())
	case *types.Array:
		return ti.elem
	default:
		panic(pathAbort{kind: "unsupported", msg: "elem of " + ti.t.String()})
	}
	return e
}

func (ti *TInfo) keyT() *TInfo {
	return tinfo(types.Unalias(ti.t).Underlying().(*types.Map).Key())
}

// RType is the interned identity of a type (the dynamic type of interfaces, and reflect.Type).
type RType struct {
	t    types.Type
	ti   *TInfo
	id   int
	mset *types.MethodSet
	mu   sync.Mutex
	ex   []*types.Selection // exported methods sorted by name
	exOK bool
}

var (
	rtypeMu   sync.Mutex
	rtypeMap  typeutil.Map
	rtypeList []*RType
	rtypeFast sync.Map
)

func rtype(t types.Type) *RType {
	if x, ok := rtypeFast.Load(t); ok {
		return x.(*RType)
	}
	rtypeMu.Lock()
	defer rtypeMu.Unlock()
	if x := rtypeMap.At(t); x != nil {
		rtypeFast.Store(t, x)
		return x.(*RType)
	}
	r := &RType{t: types.Unalias(t), id: len(rtypeList)}
	r.ti = tinfo(r.t)
	rtypeList = append(rtypeList, r)
	rtypeMap.Set(t, r)
	rtypeFast.Store(t, r)
	return r
}
