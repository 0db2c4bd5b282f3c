package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	iNop opcode = iota
	iBin
	iCmpGen
	iConcat
	iNot
	iNeg
	iBNot
	iLoad
	iStore
	iAlloc
	iFieldAddr
	iIndexAddrSlice
	iIndexAddrArr
	iField
	iIndexStr
	iIndexArr
	iSlice
	iConvert
	iMove
	iCall
	iCallDyn
	iInvoke
	iBuiltin
	iIntrin
	iMakeIface
	iTypeAssert
	iExtract
	iLookup
	iMapUpdate
	iMakeMap
	iMakeSlice
	iMakeClosure
	iRange
	iNext
	iDefer
	iRunDefers
	iPanic
	iIf
	iJump
	iReturn
	iUnsupported
	iSliceToArr
	iGo
)

type Instr struct {
	op         opcode
	tok        token.Token
	signed     bool
	commaOk    bool
	dst        int32
	a, b, c, d int32
	n          int
	n2         int
	ti         *TInfo
	ti2        *TInfo
	args       []int32
	callee     *Fn
	intrin     intrinFn
	aux        any
	src        ssa.Instruction
}

type PhiC struct {
	dst   int32
	edges []int32
	ti    *TInfo
}

type Block struct {
	idx     int
	phis    []PhiC
	ins     []Instr
	succs   [2]*Block
	succIdx [2]int // index of this edge in the successor's preds
	npreds  int
	preds   []*Block
	pure    bool
}

// Fn is a compiled SSA function.
type Fn struct {
	f        *ssa.Function
	name     string
	once     sync.Once
	blocks   []*Block
	nregs    int
	consts   []Value
	nparams  int
	nfree    int
	recoverB *Block
	hasDefer bool
	intrin   intrinFn
	pureSt   int32 // 0 unknown, 1 pure, 2 impure
	executed int32
	pkg      *ssa.Package
	isInit   bool
	bad      string
}

type Program struct {
	prog                          *ssa.Program
	fns                           sync.Map // *ssa.Function -> *Fn
	fset                          *token.FileSet
	globMu                        sync.Mutex
	globs                         map[*ssa.Global]int
	invCache, implCache, typCache sync.Map
	rtypeRT                       *RType
}

func (p *Program) fn(f *ssa.Function) *Fn {
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	n := &Fn{f: f, name: f.String(), pkg: f.Pkg}
	n.isInit = f.Name() == "init" && f.Synthetic == "package initializer"
	n.intrin = lookupIntrin(n.name, f)
	x, _ := p.fns.LoadOrStore(f, n)
	return x.(*Fn)
}

func (p *Program) ready(fn *Fn) {
	fn.once.Do(func() { p.compile(fn) })
}

func (p *Program) globalIdx(g *ssa.Global) int {
	p.globMu.Lock()
	defer p.globMu.Unlock()
	if i, ok := p.globs[g]; ok {
		return i
	}
	i := len(p.globs)
	p.globs[g] = i
	return i
}

// GlobalRef is a constant operand naming a package variable.
type GlobalRef struct {
	g   *ssa.Global
	idx int
}

type compiler struct {
	p      *Program
	fn     *Fn
	regs   map[ssa.Value]int32
	consts map[ssa.Value]int32
}

func (p *Program) compile(fn *Fn) {
	f := fn.f
	if f.Pkg != nil {
		f.Pkg.Build()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if f.Blocks == nil {
		fn.bad = "no body: " + fn.name
		return
	}
	c := &compiler{p: p, fn: fn, regs: map[ssa.Value]int32{}, consts: map[ssa.Value]int32{}}
	r := int32(0)
	for _, x := range f.Params {
		c.regs[x] = r
		r++
	}
	fn.nparams = int(r)
	for _, x := range f.FreeVars {
		c.regs[x] = r
		r++
	}
	fn.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = r
				r++
			}
		}
	}
	fn.nregs = int(r)
	bm := map[*ssa.BasicBlock]*Block{}
	for _, b := range f.Blocks {
		nb := &Block{idx: b.Index, npreds: len(b.Preds)}
		bm[b] = nb
		fn.blocks = append(fn.blocks, nb)
	}
	for _, b := range f.Blocks {
		nb := bm[b]
		for _, q := range b.Preds {
			nb.preds = append(nb.preds, bm[q])
		}
		for i, s := range b.Succs {
			nb.succs[i] = bm[s]
			// position of the edge among s.Preds
			k := 0
			for j := 0; j < i; j++ {
				if b.Succs[j] == s {
					k++
				}
			}
			for pi, q := range s.Preds {
				if q == b {
					if k == 0 {
						nb.succIdx[i] = pi
						break
					}
					k--
				}
			}
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pc := PhiC{dst: c.regs[ph], ti: tinfo(ph.Type())}
				for _, e := range ph.Edges {
					pc.edges = append(pc.edges, c.use(e))
				}
				nb.phis = append(nb.phis, pc)
				continue
			}
			c.instr(nb, in)
		}
		nb.pure = true
		for i := range nb.ins {
			if !pureInstr(&nb.ins[i]) {
				nb.pure = false
				break
			}
		}
	}
	if f.Recover != nil {
		fn.recoverB = bm[f.Recover]
	}
}

func pureInstr(in *Instr) bool {
	switch in.op {
	case iNop, iNot, iNeg, iBNot, iMove, iFieldAddr, iIndexAddrSlice, iIndexAddrArr, iField, iIndexStr, iIndexArr, iExtract, iIf, iJump, iReturn, iLoad, iCmpGen:
		return true
	case iBin:
		if in.tok == token.QUO || in.tok == token.REM {
			return in.aux == "nz"
		}
		return true
	case iConvert:
		return in.ti.k == kInt && in.ti2.k == kInt
	case iBuiltin:
		return in.aux == "len" || in.aux == "cap"
	case iCall:
		return true // decided by pureFn at run time
	}
	return false
}

func (c *compiler) constant(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return -int32(len(c.fn.consts))
}

func (c *compiler) use(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	if r, ok := c.consts[v]; ok {
		return r
	}
	var val Value
	switch x := v.(type) {
	case *ssa.Const:
		val = constValue(x)
	case *ssa.Function:
		val = Value{o: &Closure{fn: c.p.fn(x)}}
	case *ssa.Global:
		val = Value{o: &GlobalRef{g: x, idx: c.p.globalIdx(x)}}
	case *ssa.Builtin:
		val = Value{o: &Closure{builtin: x.Name()}}
	default:
		panic(fmt.Sprintf("use of %T %s in %s", v, v.Name(), c.fn.name))
	}
	r := c.constant(val)
	c.consts[v] = r
	return r
}

func constValue(x *ssa.Const) Value {
	ti := tinfo(x.Type())
	if x.Value == nil {
		return zeroValue(ti)
	}
	switch ti.k {
	case kBool:
		return cBool(constant.BoolVal(x.Value))
	case kInt:
		if ti.signed {
			i, ok := constant.Int64Val(constant.ToInt(x.Value))
			if !ok {
				u, _ := constant.Uint64Val(constant.ToInt(x.Value))
				return Value{n: u & mask(ti.w)}
			}
			return Value{n: uint64(i) & mask(ti.w)}
		}
		u, ok := constant.Uint64Val(constant.ToInt(x.Value))
		if !ok {
			i, _ := constant.Int64Val(constant.ToInt(x.Value))
			u = uint64(i)
		}
		return Value{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case kString:
		if x.Value.Kind() == constant.String {
			return makeStr(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return makeStr(string(rune(i)))
	case kIface:
		// untyped constant in interface: not produced by ssa
	case kPtr:
		return Value{}
	}
	return Value{o: unsupportedConst(x.String())}
}

type unsupportedConst string

func (c *compiler) uses(vs []ssa.Value) []int32 {
	out := make([]int32, len(vs))
	for i, v := range vs {
		out[i] = c.use(v)
	}
	return out
}

func (c *compiler) instr(nb *Block, in ssa.Instruction) {
	I := Instr{src: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		I.dst = c.regs[v]
		if v.Type() != nil {
			I.ti = tinfo(v.Type())
		}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.BinOp:
		I.a, I.b = c.use(x.X), c.use(x.Y)
		I.tok = x.Op
		ti := tinfo(x.X.Type())
		I.ti2 = ti
		I.ti = tinfo(x.Y.Type())
		switch ti.k {
		case kInt:
			I.op = iBin
			I.signed = ti.signed
			if x.Op == token.QUO || x.Op == token.REM {
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
					I.aux = "nz"
				}
			}
		case kFloat:
			I.op = iBin
		case kString:
			if x.Op == token.ADD {
				I.op = iConcat
			} else {
				I.op = iCmpGen
			}
		default:
			if x.Op == token.EQL || x.Op == token.NEQ {
				I.op = iCmpGen
				// comparing an interface with a concrete value does not occur in ssa (MakeInterface is explicit)
				if _, ok := x.X.(*ssa.Const); ok && ti.k == kPtr {
					I.ti2 = tinfo(x.Y.Type())
				}
			} else if ti.k == kBool {
				I.op = iBin
			} else {
				I.op = iUnsupported
				I.aux = "binop " + x.String()
			}
		}
	case *ssa.UnOp:
		I.a = c.use(x.X)
		switch x.Op {
		case token.NOT:
			I.op = iNot
		case token.SUB:
			I.op = iNeg
		case token.XOR:
			I.op = iBNot
		case token.MUL:
			I.op = iLoad
			I.ti = tinfo(x.Type())
			I.n = I.ti.n
		default:
			I.op = iUnsupported
			I.aux = "unop " + x.String()
		}
	case *ssa.Store:
		I.op = iStore
		I.a, I.b = c.use(x.Addr), c.use(x.Val)
		I.ti = tinfo(x.Val.Type())
		I.n = I.ti.n
	case *ssa.Alloc:
		I.op = iAlloc
		I.ti = tinfo(x.Type().Underlying().(*types.Pointer).Elem())
		I.n = I.ti.n
	case *ssa.FieldAddr:
		I.op = iFieldAddr
		I.a = c.use(x.X)
		st := tinfo(x.X.Type().Underlying().(*types.Pointer).Elem())
		if st.k == kOpaque {
			I.op = iUnsupported
			I.aux = "field of reflect.Value"
		} else {
			I.n = st.offs[x.Field]
		}
	case *ssa.Field:
		I.op = iField
		I.a = c.use(x.X)
		st := tinfo(x.X.Type())
		if st.k == kOpaque {
			I.op = iUnsupported
			I.aux = "field of reflect.Value"
		} else {
			I.n = st.offs[x.Field]
			I.ti = st.fields[x.Field]
		}
	case *ssa.IndexAddr:
		I.a, I.b = c.use(x.X), c.use(x.Index)
		I.ti2 = tinfo(x.Index.Type())
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			I.op = iIndexAddrArr
			at := tinfo(pt.Elem())
			I.n = at.elem.n
			I.n2 = at.alen
		} else {
			I.op = iIndexAddrSlice
			I.n = tinfo(x.X.Type()).el().n
		}
	case *ssa.Index:
		I.a, I.b = c.use(x.X), c.use(x.Index)
		I.ti2 = tinfo(x.Index.Type())
		if tinfo(x.X.Type()).k == kString {
			I.op = iIndexStr
		} else {
			I.op = iIndexArr
			I.n2 = tinfo(x.X.Type()).alen
			I.n = I.ti.n
		}
	case *ssa.Slice:
		I.op = iSlice
		I.a = c.use(x.X)
		I.b, I.c, I.d = -1<<30, -1<<30, -1<<30
		var bt [3]*TInfo
		for i, v := range [3]ssa.Value{x.Low, x.High, x.Max} {
			if v == nil {
				continue
			}
			bt[i] = tinfo(v.Type())
			r := c.use(v)
			switch i {
			case 0:
				I.b = r
			case 1:
				I.c = r
			case 2:
				I.d = r
			}
		}
		I.aux = bt
		xt := tinfo(x.X.Type())
		I.ti2 = xt
		if xt.k == kPtr {
			at := tinfo(x.X.Type().Underlying().(*types.Pointer).Elem())
			I.n = at.elem.n
			I.n2 = at.alen
		} else if xt.k == kSlice {
			I.n = xt.el().n
		} else {
			I.n = 1
		}
	case *ssa.Convert:
		I.op = iConvert
		I.a = c.use(x.X)
		I.ti2 = tinfo(x.X.Type())
		if tp, ok := x.Type().(*types.TypeParam); ok {
			_ = tp
			I.op = iUnsupported
			I.aux = "generic convert"
		}
	case *ssa.ChangeType:
		I.op = iMove
		I.a = c.use(x.X)
	case *ssa.ChangeInterface:
		I.op = iMove
		I.a = c.use(x.X)
	case *ssa.MultiConvert:
		I.op = iConvert
		I.a = c.use(x.X)
		I.ti2 = tinfo(x.X.Type())
	case *ssa.SliceToArrayPointer:
		I.op = iSliceToArr
		I.a = c.use(x.X)
		at := tinfo(x.Type().Underlying().(*types.Pointer).Elem())
		I.n = at.alen
	case *ssa.MakeInterface:
		I.op = iMakeIface
		I.a = c.use(x.X)
		I.aux = rtype(x.X.Type())
	case *ssa.TypeAssert:
		I.op = iTypeAssert
		I.a = c.use(x.X)
		I.commaOk = x.CommaOk
		I.ti2 = tinfo(x.AssertedType)
		I.aux = rtype(x.AssertedType)
	case *ssa.Extract:
		I.op = iExtract
		I.a = c.use(x.Tuple)
		I.n = x.Index
	case *ssa.Lookup:
		I.a, I.b = c.use(x.X), c.use(x.Index)
		if tinfo(x.X.Type()).k == kString {
			I.op = iIndexStr
			I.ti2 = tinfo(x.Index.Type())
		} else {
			I.op = iLookup
			I.commaOk = x.CommaOk
			I.ti2 = tinfo(x.X.Type())
		}
	case *ssa.MapUpdate:
		I.op = iMapUpdate
		I.a, I.b, I.c = c.use(x.Map), c.use(x.Key), c.use(x.Value)
		I.ti2 = tinfo(x.Map.Type())
	case *ssa.MakeMap:
		I.op = iMakeMap
	case *ssa.MakeSlice:
		I.op = iMakeSlice
		I.a, I.b = c.use(x.Len), c.use(x.Cap)
		I.n = tinfo(x.Type()).el().n
	case *ssa.MakeClosure:
		I.op = iMakeClosure
		I.callee = c.p.fn(x.Fn.(*ssa.Function))
		I.args = c.uses(x.Bindings)
	case *ssa.Range:
		I.op = iRange
		I.a = c.use(x.X)
		I.ti2 = tinfo(x.X.Type())
	case *ssa.Next:
		I.op = iNext
		I.a = c.use(x.Iter)
		I.commaOk = x.IsString
		I.ti2 = tinfo(x.Type())
	case *ssa.Call:
		c.call(&I, x.Common())
	case *ssa.Defer:
		c.fn.hasDefer = true
		D := Instr{src: in, dst: -1}
		c.call(&D, x.Common())
		I.op = iDefer
		I.aux = &D
	case *ssa.RunDefers:
		I.op = iRunDefers
	case *ssa.Panic:
		I.op = iPanic
		I.a = c.use(x.X)
	case *ssa.If:
		I.op = iIf
		I.a = c.use(x.Cond)
	case *ssa.Jump:
		I.op = iJump
	case *ssa.Return:
		I.op = iReturn
		I.args = c.uses(x.Results)
	case *ssa.Go:
		I.op = iGo
		I.aux = "go statement"
	default:
		I.op = iUnsupported
		I.aux = fmt.Sprintf("%T", in)
	}
	nb.ins = append(nb.ins, I)
}

func (c *compiler) call(I *Instr, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		I.op = iInvoke
		I.a = c.use(cc.Value)
		I.args = c.uses(cc.Args)
		I.aux = cc.Method
		return
	}
	I.args = c.uses(cc.Args)
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		I.op = iBuiltin
		I.aux = f.Name()
		if len(cc.Args) > 0 {
			I.ti2 = tinfo(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			I.n = 0
		}
		if f.Name() == "append" || f.Name() == "copy" || f.Name() == "Slice" || f.Name() == "Add" || f.Name() == "min" || f.Name() == "max" {
			switch f.Name() {
			case "append", "copy":
				I.n = I.ti2.el().n
			case "Slice":
				I.n = I.ti2.el().n
			}
		}
	case *ssa.Function:
		fn := c.p.fn(f)
		I.callee = fn
		if fn.intrin != nil {
			I.op = iIntrin
			I.intrin = fn.intrin
		} else {
			I.op = iCall
		}
	default:
		I.op = iCallDyn
		I.a = c.use(cc.Value)
	}
}

var pureMu sync.Mutex

// pureFn: small, loop-free functions of pure instructions can be evaluated without forking.
// The answer does not depend on the order of questions.
func (p *Program) pureFn(fn *Fn) bool {
	switch atomic.LoadInt32(&fn.pureSt) {
	case 1:
		return true
	case 2:
		return false
	}
	pureMu.Lock()
	defer pureMu.Unlock()
	return p.pureRec(fn, map[*Fn]bool{})
}

func (p *Program) pureRec(fn *Fn, visiting map[*Fn]bool) bool {
	switch atomic.LoadInt32(&fn.pureSt) {
	case 1:
		return true
	case 2:
		return false
	}
	if visiting[fn] {
		return false
	}
	visiting[fn] = true
	p.ready(fn)
	ok := fn.bad == "" && fn.intrin == nil && len(fn.blocks) <= 40 && !fn.hasDefer
	if ok {
	outer:
		for _, b := range fn.blocks {
			if !b.pure {
				ok = false
				break
			}
			for i := range b.ins {
				if b.ins[i].op == iCall && !p.pureRec(b.ins[i].callee, visiting) {
					ok = false
					break outer
				}
			}
			for _, s := range b.succs {
				if s != nil && reaches(s, b, map[*Block]bool{}) {
					ok = false
					break outer
				}
			}
		}
	}
	delete(visiting, fn)
	if ok {
		atomic.StoreInt32(&fn.pureSt, 1)
	} else {
		atomic.StoreInt32(&fn.pureSt, 2)
	}
	return ok
}

func reaches(from, to *Block, seen map[*Block]bool) bool {
	if from == to {
		return true
	}
	if from == nil || seen[from] {
		return false
	}
	seen[from] = true
	for _, s := range from.succs {
		if s != nil && reaches(s, to, seen) {
			return true
		}
	}
	return false
}
