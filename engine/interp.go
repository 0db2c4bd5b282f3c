package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice of a path.
type Decision struct {
	v      uint64
	kind   uint8 // 0 branch, 1 value eq, 2 value ne, 3 choose, 4 n-way
	forced bool
}

type pathAbort struct{ kind, msg string }
type specAbort struct{}

// GoPanic is a panic of the interpreted program.
type GoPanic struct {
	v         Value // interface
	msg       string
	stack     string
	recovered bool
}

type trailEnt struct {
	o   *Obj
	i   int
	old Value
}

type mapSave struct {
	m *Map
	s Map
}

// Input is one value handed to the harness, in order, for native replay.
type Input struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
	e    *Expr
}

type Obs struct {
	label string
	cells []Value
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, steplimit, depth
	Stack   string
	Inputs  []Input
	Prefix  []Decision
}

// Machine interprets the compiled program symbolically.
type Machine struct {
	P   *Program
	eb  *EB
	sol *Solver
	X   *Explorer

	globals  []*Obj
	pkgState map[*ssa.Package]int
	partial  map[string]string

	nextObj   int64
	baseObj   int64
	trail     []trailEnt
	mtrail    []mapSave
	inPath    bool
	initDepth int

	prefix []Decision
	pos    int
	pc     []*Expr
	pcset  map[*Expr]bool
	model  []uint64
	dom    map[int]*[4]uint64
	conc   map[*Expr]uint64
	inputs []Input
	obs    []Obs
	covers map[string]bool
	steps  int64
	limit  int64
	depth  int
	spec   int
	stack  []Value
	sp     int
	cur    *Instr
	frames []*Frame
	panics []*GoPanic
	clock  int64
	mapOrd bool
	mapRev map[any]bool // iteration order per place in the code
	fp     *Footprint
	fps    map[int]*Footprint
	locks  int
}

type Frame struct {
	fn     *Fn
	regs   []Value
	defers []deferred
	ret    Value
	cur    *Instr
}

type deferred struct {
	f func(m *Machine)
}

func newMachine(p *Program, sol *Solver, x *Explorer) *Machine {
	m := &Machine{P: p, eb: newEB(), X: x, pkgState: map[*ssa.Package]int{}, partial: map[string]string{}}
	m.sol = sol
	m.stack = make([]Value, 1<<16)
	m.limit = 200_000_000
	m.resetPath()
	return m
}

func (m *Machine) resetPath() {
	m.eb.reset()
	m.pos = 0
	m.pc = m.pc[:0]
	m.pcset = map[*Expr]bool{}
	m.dom = map[int]*[4]uint64{}
	m.conc = map[*Expr]uint64{}
	m.inputs = nil
	m.obs = nil
	m.covers = map[string]bool{}
	m.steps = 0
	m.depth = 0
	m.spec = 0
	clear(m.stack[:m.sp])
	m.sp = 0
	m.frames = m.frames[:0]
	m.panics = m.panics[:0]
	m.clock = 0
	m.mapOrd = false
	m.mapRev = nil
	m.fp = nil
	m.fps = nil
	m.locks = 0
}

// undo restores the heap to the snapshot.
func (m *Machine) undo() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		t := &m.trail[i]
		t.o.cells[t.i] = t.old
	}
	clear(m.trail)
	m.trail = m.trail[:0]
	for i := len(m.mtrail) - 1; i >= 0; i-- {
		t := &m.mtrail[i]
		*t.m = t.s
	}
	clear(m.mtrail)
	m.mtrail = m.mtrail[:0]
	m.nextObj = m.baseObj
}

func (m *Machine) newObj(n int) *Obj {
	m.nextObj++
	return &Obj{cells: make([]Value, n), id: m.nextObj, path: m.inPath}
}

func (m *Machine) write(o *Obj, i int, v Value) {
	if !o.path {
		if o.ro {
			m.rtPanic("write to read-only memory (string data)")
		}
		if m.inPath {
			m.trail = append(m.trail, trailEnt{o, i, o.cells[i]})
		}
	}
	if m.fp != nil {
		m.fp.w(o)
	}
	o.cells[i] = v
}

func (m *Machine) abort(kind, msg string) {
	panic(pathAbort{kind, msg})
}

func (m *Machine) unsupported(msg string) {
	panic(pathAbort{"unsupported", msg + " at " + m.where()})
}

func (m *Machine) where() string {
	var sb strings.Builder
	n := 0
	for i := len(m.frames) - 1; i >= 0 && n < 8; i-- {
		fr := m.frames[i]
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.name)
		if fr.cur != nil && fr.cur.src != nil {
			p := m.P.fset.Position(fr.cur.src.Pos())
			if p.IsValid() {
				f := p.Filename
				if k := strings.LastIndexByte(f, '/'); k >= 0 {
					f = f[k+1:]
				}
				fmt.Fprintf(&sb, "(%s:%d)", f, p.Line)
			}
		}
		n++
	}
	return sb.String()
}

func (m *Machine) rtPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	p := &GoPanic{msg: "runtime error: " + msg, stack: m.where()}
	p.v = Value{o: &Iface{rt: m.P.errRT(), v: makeStr(p.msg)}}
	panic(p)
}

// errRT: the dynamic type given to runtime errors (a plain string type implementing nothing else).
func (p *Program) errRT() *RType { return rtype(types.Typ[types.String]) }

func (m *Machine) toExpr(v Value, w uint8) *Expr {
	if v.o == nil {
		return m.eb.Const(v.n, w)
	}
	if e, ok := v.o.(*Expr); ok {
		return e
	}
	m.unsupported(fmt.Sprintf("pointer used as integer (%T)", v.o))
	return nil
}

func (m *Machine) toBool(v Value) *Expr {
	if v.o == nil {
		return m.eb.Bool(v.n != 0)
	}
	return v.o.(*Expr)
}

// ---- decisions ----

func (m *Machine) addPC(c *Expr) {
	if c.isTrue() || m.pcset[c] {
		return
	}
	m.pcset[c] = true
	m.pc = append(m.pc, c)
	if c.op == OAnd {
		// also remember conjuncts for the unary domains
		m.addDom(c.a)
		m.addDom(c.b)
		return
	}
	m.addDom(c)
}

func (m *Machine) addDom(c *Expr) {
	if c.op == OAnd {
		m.addDom(c.a)
		m.addDom(c.b)
		return
	}
	v, ok := m.unary(c)
	if !ok {
		return
	}
	bs := boolBits(c)
	d := m.dom[v]
	if d == nil {
		x := bs
		m.dom[v] = &x
		return
	}
	for i := range d {
		d[i] &= bs[i]
	}
}

// unary reports whether c depends on exactly one variable of at most 8 bits.
func (m *Machine) unary(c *Expr) (int, bool) {
	if c.vars.count() != 1 {
		return 0, false
	}
	v := c.vars.single()
	if v >= 127 || v >= len(m.eb.vars) || m.eb.vars[v].w > 8 || c.size > 3000 {
		return 0, false
	}
	return v, true
}

func boolBits(c *Expr) [4]uint64 {
	v := vec256(c)
	var r [4]uint64
	for i, x := range v {
		if x != 0 {
			r[i>>6] |= 1 << (i & 63)
		}
	}
	return r
}

func (m *Machine) fullDom(v int) [4]uint64 {
	if d := m.dom[v]; d != nil {
		return *d
	}
	switch m.eb.vars[v].w {
	case 8:
		return [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	case 0:
		return [4]uint64{3}
	}
	var r [4]uint64
	for i := uint64(0); i <= mask(m.eb.vars[v].w) && i < 256; i++ {
		r[i>>6] |= 1 << (i & 63)
	}
	return r
}

// feasible decides whether pc && c is satisfiable, with a model if so.
func (m *Machine) feasible(c *Expr) (Result, []uint64) {
	if c.isFalse() {
		return Unsat, nil
	}
	if c.isTrue() {
		return Sat, m.model
	}
	st := &m.sol.sh.stats
	// slice of relevant constraints
	vs := c.vars
	used := make([]bool, len(m.pc))
	var rel []*Expr
	onlyUnary := true
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if !used[i] && p.vars.intersects(vs) {
				used[i] = true
				rel = append(rel, p)
				nv := vs.or(p.vars)
				if nv != vs {
					vs = nv
					changed = true
				}
			}
		}
	}
	for _, p := range rel {
		if _, ok := m.unary(p); !ok {
			onlyUnary = false
			break
		}
	}
	if v, ok := m.unary(c); ok {
		d := m.fullDom(v)
		bs := boolBits(c)
		found := -1
		for i := range d {
			if x := d[i] & bs[i]; x != 0 {
				for k := 0; k < 64; k++ {
					if x>>k&1 == 1 {
						found = i*64 + k
						break
					}
				}
				break
			}
		}
		if found < 0 {
			addStat(&st.domainHits)
			if r := m.auditDomain(v, c); r != Unsat {
				return r, nil
			}
			return Unsat, nil
		}
		if onlyUnary {
			addStat(&st.domainHits)
			mod := m.copyModel()
			mod[v] = uint64(found)
			return Sat, mod
		}
	}
	cs := append(rel, c)
	res, vars, vals := m.sol.Check(cs)
	if res != Sat {
		return res, nil
	}
	mod := m.copyModel()
	for i, v := range vars {
		mod[v.k] = vals[i]
	}
	return Sat, mod
}

// mapReversed decides once per path and place in the code whether maps are iterated backwards.
func (m *Machine) mapReversed(at any) bool {
	if r, ok := m.mapRev[at]; ok {
		return r
	}
	r := m.choose(2) == 1
	m.inputs = append(m.inputs, Input{Kind: "maporder"})
	if m.mapRev == nil {
		m.mapRev = map[any]bool{}
	}
	m.mapRev[at] = r
	return r
}

// auditDomain asks the solver for the branches that the byte domains ruled out: every distinct one, up to a limit per harness.
func (m *Machine) auditDomain(v int, c *Expr) Result {
	cs := []*Expr{c}
	var collect func(p *Expr)
	collect = func(p *Expr) {
		if p.op == OAnd {
			collect(p.a)
			collect(p.b)
			return
		}
		if p.vars.count() == 1 && p.vars.single() == v {
			if _, ok := m.unary(p); ok {
				cs = append(cs, p)
			}
		}
	}
	for _, p := range m.pc {
		collect(p)
	}
	if len(cs) == 1 && c.isFalse() {
		return Unsat
	}
	var key [2]uint64
	for _, p := range cs {
		key[0] += mix(p.h[0], 17)
		key[1] += mix(p.h[1], 19)
	}
	sh := m.sol.sh
	if _, dup := sh.audited.LoadOrStore(key, true); dup {
		return Unsat
	}
	lim := int64(1000)
	if m.X.tier > 0 {
		lim = 10000
	}
	if n := atomic.AddInt64(&sh.stats.audits, 1); n > lim {
		return Unsat
	}
	atomic.AddInt64(&sh.stats.auditsDone, 1)
	res, _, _ := m.sol.Check(cs)
	return res
}

func (m *Machine) copyModel() []uint64 {
	n := len(m.eb.vars)
	if len(m.model) > n {
		n = len(m.model)
	}
	mod := make([]uint64, n)
	copy(mod, m.model)
	return mod
}

func (m *Machine) nextDecision(kind uint8) (Decision, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.kind != kind && !(kind == 1 && d.kind == 2) {
			panic(pathAbort{"internal", fmt.Sprintf("decision mismatch: have kind %d want %d at %s", d.kind, kind, m.where())})
		}
		m.pos++
		return d, true
	}
	return Decision{}, false
}

func (m *Machine) record(d Decision) {
	m.prefix = append(m.prefix, d)
	m.pos++
}

func (m *Machine) push(d Decision, model []uint64) {
	p := make([]Decision, m.pos+1)
	copy(p, m.prefix[:m.pos])
	p[m.pos] = d
	m.X.push(p, model)
}

// branch decides a symbolic condition, forking if both sides are feasible.
func (m *Machine) branch(c *Expr) bool {
	if c.isC() {
		return c.k == 1
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if !m.inPath {
		m.abort("internal", "symbolic branch outside of a path")
	}
	if m.pcset[c] {
		return true
	}
	nc := m.eb.Not(c)
	if m.pcset[nc] {
		return false
	}
	if d, ok := m.nextDecision(0); ok {
		t := d.v == 1
		if !d.forced {
			if t {
				m.addPC(c)
			} else {
				m.addPC(nc)
			}
		}
		return t
	}
	t := m.eb.Eval(c, m.model) == 1
	other := nc
	if !t {
		other = c
	}
	res, mod := m.feasible(other)
	switch res {
	case Sat:
		d := Decision{kind: 0}
		if !t {
			d.v = 1
		}
		m.push(d, mod)
	case Unknown:
		m.X.noteUnknown(m.where())
	}
	d := Decision{kind: 0, forced: res == Unsat}
	if t {
		d.v = 1
	}
	m.record(d)
	if res != Unsat {
		if t {
			m.addPC(c)
		} else {
			m.addPC(nc)
		}
	}
	return t
}

// nway picks one of several exhaustive guards.
func (m *Machine) nway(gs []*Expr) int {
	if m.spec > 0 {
		panic(specAbort{})
	}
	for i, g := range gs {
		if g.isTrue() {
			return i
		}
	}
	if d, ok := m.nextDecision(4); ok {
		if !d.forced {
			m.addPC(gs[d.v])
		}
		return int(d.v)
	}
	pick := -1
	for i, g := range gs {
		if pick < 0 && m.eb.Eval(g, m.model) == 1 {
			pick = i
		}
	}
	if pick < 0 {
		m.abort("internal", "no guard holds")
	}
	forced := true
	for i := len(gs) - 1; i >= 0; i-- {
		if i == pick || gs[i].isFalse() {
			continue
		}
		// guards may overlap only if equal targets were split: exclude the picked one
		res, mod := m.feasible(gs[i])
		switch res {
		case Sat:
			forced = false
			m.push(Decision{kind: 4, v: uint64(i)}, mod)
		case Unknown:
			forced = false
			m.X.noteUnknown(m.where())
		}
	}
	m.record(Decision{kind: 4, v: uint64(pick), forced: forced})
	if !forced {
		m.addPC(gs[pick])
	}
	return pick
}

// concretize forks over the feasible values of e.
func (m *Machine) concretize(e *Expr) uint64 { return m.concretizeN(e, 1<<30) }

// concretizeN forks over the values of e, at most max of them.
func (m *Machine) concretizeN(e *Expr, max int) uint64 {
	if e.isC() {
		return e.k
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	if v, ok := m.conc[e]; ok {
		return v
	}
	for n := 0; ; n++ {
		if n == max {
			m.unsupported("more than " + fmt.Sprint(max) + " values to enumerate")
		}
		if d, ok := m.nextDecision(1); ok {
			eq := m.eb.Eq(e, m.eb.Const(d.v, e.w))
			if d.kind == 1 {
				if !d.forced {
					m.addPC(eq)
				}
				m.conc[e] = d.v
				return d.v
			}
			m.addPC(m.eb.Not(eq))
			continue
		}
		v := m.eb.Eval(e, m.model)
		eq := m.eb.Eq(e, m.eb.Const(v, e.w))
		res, mod := m.feasible(m.eb.Not(eq))
		switch res {
		case Sat:
			m.push(Decision{kind: 2, v: v}, mod)
		case Unknown:
			m.X.noteUnknown(m.where())
		}
		m.record(Decision{kind: 1, v: v, forced: res == Unsat})
		if res != Unsat {
			m.addPC(eq)
		}
		m.conc[e] = v
		return v
	}
}

// choose forks n ways without a constraint.
func (m *Machine) choose(n int) int {
	if m.spec > 0 {
		panic(specAbort{})
	}
	if n <= 0 {
		m.abort("infeasible", "empty choice")
	}
	if n == 1 {
		return 0
	}
	if d, ok := m.nextDecision(3); ok {
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		m.push(Decision{kind: 3, v: uint64(i)}, m.model)
	}
	m.record(Decision{kind: 3, v: 0})
	return 0
}

func (m *Machine) assume(c *Expr) {
	if c.isTrue() || m.pcset[c] {
		return
	}
	if c.isFalse() {
		m.abort("infeasible", "assume")
	}
	if m.eb.Eval(c, m.model) == 1 {
		m.addPC(c)
		return
	}
	res, mod := m.feasible(c)
	switch res {
	case Sat:
		m.model = mod
		m.addPC(c)
	case Unsat:
		m.abort("infeasible", "assume")
	default:
		m.X.noteUnknown(m.where())
		m.abort("infeasible", "assume unknown")
	}
}

func (m *Machine) assert(c *Expr, msg string) {
	addStat(&m.sol.sh.stats.asserts)
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		m.X.violation(m, "assert", msg, m.model)
		m.abort("violation", msg)
	}
	addStat(&m.sol.sh.stats.assertQueries)
	nc := m.eb.Not(c)
	res, mod := m.feasible(nc)
	switch res {
	case Sat:
		m.X.violation(m, "assert", msg, mod)
		m.assume(c)
	case Unknown:
		m.X.noteUnknown("assert " + msg)
		m.assume(c)
	}
}

// intOf gives a concrete signed integer, forking if needed.
func (m *Machine) intOf(v Value, ti *TInfo) int {
	if v.o == nil {
		if ti.signed {
			return int(sext64(v.n, ti.w))
		}
		return int(v.n)
	}
	e := m.toExpr(v, ti.w)
	n := m.concretize(e)
	if ti.signed {
		return int(sext64(n, ti.w))
	}
	return int(n)
}

func (m *Machine) boolOf(v Value) bool {
	if v.o == nil {
		return v.n != 0
	}
	return m.branch(v.o.(*Expr))
}

// ---- globals and package initialisation ----

func (m *Machine) global(r *GlobalRef) Value {
	for r.idx >= len(m.globals) {
		m.globals = append(m.globals, make([]*Obj, r.idx+64-len(m.globals))...)
	}
	if o := m.globals[r.idx]; o != nil {
		if r.g.Pkg != nil && m.pkgState[r.g.Pkg] == 0 {
			m.initPkg(r.g.Pkg)
		}
		return Value{o: o}
	}
	ti := tinfo(r.g.Type().Underlying().(*types.Pointer).Elem())
	save := m.inPath
	m.inPath = false
	o := m.newObj(ti.n)
	m.inPath = save
	o.label = r.g.String()
	m.globals[r.idx] = o
	if r.g.Pkg != nil && m.pkgState[r.g.Pkg] == 0 {
		m.initPkg(r.g.Pkg)
	}
	return Value{o: o}
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "net": true, "net/http": true, "internal/poll": true,
	"reflect": true, "crypto/tls": true, "internal/godebug": true, "internal/cpu": true, "sync": true, "internal/runtime/atomic": true, "testing": true, "log": true, "flag": true}

func (m *Machine) initPkg(p *ssa.Package) {
	m.pkgState[p] = 1
	if skipInit[p.Pkg.Path()] {
		m.pkgState[p] = 2
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	p.Build()
	if m.spec > 0 {
		// initialisation is concrete and permanent: leave speculation for it
		s := m.spec
		m.spec = 0
		defer func() { m.spec = s }()
	}
	savePath, saveFP, saveSteps, saveDepth, saveFrames := m.inPath, m.fp, m.steps, m.depth, len(m.frames)
	m.inPath = false
	m.fp = nil
	m.steps = 0
	m.initDepth++
	defer func() {
		m.inPath, m.fp, m.steps, m.depth = savePath, saveFP, saveSteps, saveDepth
		m.frames = m.frames[:saveFrames]
		m.initDepth--
		m.pkgState[p] = 2
		m.baseObj = m.nextObj // ids of base objects stay unique
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				m.partial[p.Pkg.Path()] = x.kind + ": " + x.msg
			case *GoPanic:
				m.partial[p.Pkg.Path()] = x.msg + " " + x.stack
			default:
				panic(r)
			}
			if strings.Contains(p.Pkg.Path(), "yarql") {
				panic(pathAbort{"internal", "initialisation of " + p.Pkg.Path() + ": " + m.partial[p.Pkg.Path()]})
			}
		}
	}()
	fn := m.P.fn(f)
	m.invokeInit(fn)
}

func (m *Machine) invokeInit(fn *Fn) {
	m.P.ready(fn)
	m.callBody(fn, nil, nil)
}

// ---- calls ----

const maxDepth = 6000

func (m *Machine) call(fn *Fn, args []Value, free []Value) Value {
	if fn.intrin != nil {
		return fn.intrin(m, fn, args)
	}
	if fn.isInit {
		return Value{} // packages initialise lazily
	}
	m.P.ready(fn)
	if fn.bad != "" {
		m.unsupported(fn.bad)
	}
	return m.callBody(fn, args, free)
}

func (m *Machine) callBody(fn *Fn, args []Value, free []Value) Value {
	m.depth++
	if m.depth > maxDepth {
		panic(pathAbort{"depth", "call depth exceeds " + fmt.Sprint(maxDepth) + ": " + m.where()})
	}
	if fn.executed == 0 {
		fn.executed = 1
	}
	var regs []Value
	sp := m.sp
	if sp+fn.nregs <= len(m.stack) {
		regs = m.stack[sp : sp+fn.nregs : sp+fn.nregs]
		m.sp += fn.nregs
	} else {
		regs = make([]Value, fn.nregs)
	}
	copy(regs, args)
	copy(regs[fn.nparams:], free)
	fr := &Frame{fn: fn, regs: regs}
	m.frames = append(m.frames, fr)
	var ret Value
	if fn.hasDefer {
		ret = m.runDefer(fr)
	} else {
		ret = m.run(fr, fn.blocks[0])
	}
	m.frames = m.frames[:len(m.frames)-1]
	m.depth--
	clear(regs)
	m.sp = sp
	return ret
}

func (m *Machine) runDefer(fr *Frame) (ret Value) {
	depth, sp, nfr := m.depth, m.sp, len(m.frames)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*GoPanic)
		if !ok {
			panic(r)
		}
		m.depth, m.sp = depth, sp
		m.frames = m.frames[:nfr]
		m.panics = append(m.panics, gp)
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			d.f(m)
		}
		m.panics = m.panics[:len(m.panics)-1]
		if !gp.recovered {
			panic(gp)
		}
		if fr.fn.recoverB != nil {
			ret = m.run(fr, fr.fn.recoverB)
		} else {
			res := fr.fn.f.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				ret = zeroValue(tinfo(res.At(0).Type()))
			default:
				ret = zeroValue(tinfo(res))
			}
		}
	}()
	return m.run(fr, fr.fn.blocks[0])
}

func (m *Machine) callClosure(f Value, args []Value) Value {
	c, ok := f.o.(*Closure)
	if !ok || c == nil {
		m.rtPanic("call of nil function")
	}
	if c.native != nil {
		return c.native(m, args)
	}
	if c.builtin != "" {
		m.unsupported("dynamic builtin " + c.builtin)
	}
	if c.recv != nil {
		a := make([]Value, 0, len(args)+1)
		a = append(a, *c.recv)
		a = append(a, args...)
		return m.call(c.fn, a, c.free)
	}
	return m.call(c.fn, args, c.free)
}

func (m *Machine) val(fr *Frame, i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	v := fr.fn.consts[-i-1]
	switch g := v.o.(type) {
	case *GlobalRef:
		return m.global(g)
	case unsupportedConst:
		m.unsupported("constant " + string(g))
	}
	return v
}

func (m *Machine) takeEdge(fr *Frame, b *Block, slot int) *Block {
	t := b.succs[slot]
	if len(t.phis) == 0 {
		return t
	}
	pi := b.succIdx[slot]
	if len(t.phis) == 1 {
		fr.regs[t.phis[0].dst] = m.val(fr, t.phis[0].edges[pi])
		return t
	}
	var buf [16]Value
	tmp := buf[:0]
	for i := range t.phis {
		tmp = append(tmp, m.val(fr, t.phis[i].edges[pi]))
	}
	for i := range t.phis {
		fr.regs[t.phis[i].dst] = tmp[i]
	}
	return t
}

func (m *Machine) run(fr *Frame, b *Block) Value {
	for {
		var next *Block
		for i := range b.ins {
			in := &b.ins[i]
			fr.cur = in
			m.steps++
			switch in.op {
			case iIf:
				c := m.val(fr, in.a)
				if c.o == nil {
					if c.n != 0 {
						next = m.takeEdge(fr, b, 0)
					} else {
						next = m.takeEdge(fr, b, 1)
					}
				} else {
					var ret Value
					var done bool
					next, ret, done = m.symIf(fr, b, c.o.(*Expr))
					if done {
						return ret
					}
				}
			case iJump:
				next = m.takeEdge(fr, b, 0)
			case iReturn:
				return m.retVal(fr, in)
			default:
				m.step(fr, in)
			}
		}
		if m.steps > m.limit {
			panic(pathAbort{"steplimit", "no end after " + fmt.Sprint(m.limit) + " steps: " + m.where()})
		}
		if next == nil {
			panic(pathAbort{"internal", "block without end in " + fr.fn.name})
		}
		b = next
	}
}

func (m *Machine) retVal(fr *Frame, in *Instr) Value {
	switch len(in.args) {
	case 0:
		return Value{}
	case 1:
		return m.val(fr, in.args[0])
	}
	a := &Agg{c: make([]Value, len(in.args))}
	for i, x := range in.args {
		a.c[i] = m.val(fr, x)
	}
	return Value{o: a}
}

func (m *Machine) args(fr *Frame, in *Instr) []Value {
	out := make([]Value, len(in.args))
	for i, x := range in.args {
		out[i] = m.val(fr, x)
	}
	return out
}

func (m *Machine) loadCells(o *Obj, off, n int, ti *TInfo) Value {
	if off < 0 || off+n > len(o.cells) {
		m.unsupported(fmt.Sprintf("load outside of object (%d+%d of %d)", off, n, len(o.cells)))
	}
	if m.fp != nil {
		m.fp.r(o)
	}
	if ti.agg {
		a := &Agg{c: make([]Value, n)}
		copy(a.c, o.cells[off:off+n])
		return Value{o: a}
	}
	return o.cells[off]
}

func (m *Machine) load(p Value, ti *TInfo) Value {
	switch o := p.o.(type) {
	case *Obj:
		return m.loadCells(o, int(p.n), ti.n, ti)
	case *SymAddr:
		return m.loadSym(o, ti)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	default:
		m.unsupported(fmt.Sprintf("load through %T", p.o))
	}
	return Value{}
}

func (m *Machine) loadSym(s *SymAddr, ti *TInfo) Value {
	if m.fp != nil {
		m.fp.r(s.obj)
	}
	if ti.k == kInt || ti.k == kBool {
		w := ti.w
		if ti.k == kBool {
			w = 0
		}
		at := func(i int) (v Value, ok bool) {
			v = s.obj.cells[s.base+i*s.stride]
			if v.o != nil {
				_, ok = v.o.(*Expr)
				return v, ok
			}
			return v, true
		}
		ok := true
		for i := 0; i < s.n; i++ {
			if _, o := at(i); !o {
				ok = false
				break
			}
		}
		if ok && s.n <= 1024 {
			lo, hi := 0, s.n-1
			// narrow by the unary domain of the index
			if v, isU := m.unary(s.idx); isU {
				d := m.fullDom(v)
				vec := vec256(s.idx)
				l, h := s.n, -1
				for k := 0; k < 256; k++ {
					if d[k>>6]>>(k&63)&1 == 1 && vec[k] < uint64(s.n) {
						if int(vec[k]) < l {
							l = int(vec[k])
						}
						if int(vec[k]) > h {
							h = int(vec[k])
						}
					}
				}
				if h >= l {
					lo, hi = l, h
				}
			}
			var build func(lo, hi int) *Expr
			build = func(lo, hi int) *Expr {
				v, _ := at(lo)
				e := m.toExprB(v, w)
				same := true
				for i := lo + 1; i <= hi; i++ {
					x, _ := at(i)
					if m.toExprB(x, w) != e {
						same = false
						break
					}
				}
				if same {
					return e
				}
				mid := (lo + hi + 1) / 2
				return m.eb.Ite(m.eb.Ult(s.idx, m.eb.Const(uint64(mid), s.idx.w)), build(lo, mid-1), build(mid, hi))
			}
			return exprVal(build(lo, hi))
		}
	}
	i := int(m.concretize(s.idx))
	return m.loadCells(s.obj, s.base+i*s.stride, ti.n, ti)
}

func (m *Machine) toExprB(v Value, w uint8) *Expr {
	if w == 0 {
		return m.toBool(v)
	}
	return m.toExpr(v, w)
}

func (m *Machine) store(p Value, v Value, ti *TInfo) {
	var o *Obj
	off := 0
	switch x := p.o.(type) {
	case *Obj:
		o, off = x, int(p.n)
	case *SymAddr:
		o = x.obj
		off = x.base + int(m.concretize(x.idx))*x.stride
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	default:
		m.unsupported(fmt.Sprintf("store through %T", p.o))
	}
	m.storeAt(o, off, v, ti)
}

func (m *Machine) storeAt(o *Obj, off int, v Value, ti *TInfo) {
	if off < 0 || off+ti.n > len(o.cells) {
		m.unsupported("store outside of object")
	}
	if ti.agg {
		a := v.o.(*Agg)
		if len(a.c) != ti.n {
			m.abort("internal", fmt.Sprintf("aggregate size %d != %d (%s)", len(a.c), ti.n, ti.t))
		}
		for i, x := range a.c {
			m.write(o, off+i, x)
		}
		return
	}
	m.write(o, off, v)
}

// idxAddr checks an index and gives the concrete index, or a symbolic expression of 64 bits.
func (m *Machine) checkIdx(iv Value, ti *TInfo, n int) (int, *Expr) {
	if iv.o == nil {
		i := int(iv.n)
		if ti.signed {
			i = int(sext64(iv.n, ti.w))
		}
		if i < 0 || i >= n {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i, nil
	}
	e := m.toExpr(iv, ti.w)
	if v, ok := m.conc[e]; ok {
		return m.checkIdx(Value{n: v}, ti, n)
	}
	var e64 *Expr
	if ti.signed {
		e64 = m.eb.Sext(e, 64)
	} else {
		e64 = m.eb.Zext(e, 64)
	}
	if !m.branch(m.eb.Ult(e64, m.eb.Const(uint64(n), 64))) {
		m.rtPanic(fmt.Sprintf("index out of range (symbolic) with length %d", n))
	}
	if n == 1 {
		return 0, nil
	}
	return 0, e64
}

func (m *Machine) step(fr *Frame, in *Instr) {
	switch in.op {
	case iNop:
	case iBin:
		fr.regs[in.dst] = m.binop(in, m.val(fr, in.a), m.val(fr, in.b))
	case iCmpGen:
		a, b := m.val(fr, in.a), m.val(fr, in.b)
		var r Value
		switch in.tok {
		case token.EQL:
			r = m.eq(in.ti2, a, b)
		case token.NEQ:
			r = m.notV(m.eq(in.ti2, a, b))
		case token.LSS:
			r = m.strLess(a, b)
		case token.GTR:
			r = m.strLess(b, a)
		case token.LEQ:
			r = m.notV(m.strLess(b, a))
		case token.GEQ:
			r = m.notV(m.strLess(a, b))
		}
		fr.regs[in.dst] = r
	case iConcat:
		fr.regs[in.dst] = m.concat(m.val(fr, in.a), m.val(fr, in.b))
	case iNot:
		fr.regs[in.dst] = m.notV(m.val(fr, in.a))
	case iNeg:
		v := m.val(fr, in.a)
		if in.ti.k == kFloat {
			fr.regs[in.dst] = m.negF(v, in.ti.w)
		} else if v.o == nil {
			fr.regs[in.dst] = cInt((-v.n) & mask(in.ti.w))
		} else {
			fr.regs[in.dst] = exprVal(m.eb.Neg(m.toExpr(v, in.ti.w)))
		}
	case iBNot:
		v := m.val(fr, in.a)
		if v.o == nil {
			fr.regs[in.dst] = cInt(^v.n & mask(in.ti.w))
		} else {
			fr.regs[in.dst] = exprVal(m.eb.BNot(m.toExpr(v, in.ti.w)))
		}
	case iLoad:
		p := m.val(fr, in.a)
		if o, ok := p.o.(*Obj); ok && !in.ti.agg && m.fp == nil && int(p.n) < len(o.cells) {
			fr.regs[in.dst] = o.cells[p.n]
			return
		}
		fr.regs[in.dst] = m.load(p, in.ti)
	case iStore:
		m.store(m.val(fr, in.a), m.val(fr, in.b), in.ti)
	case iAlloc:
		fr.regs[in.dst] = Value{o: m.newObj(in.n)}
	case iFieldAddr:
		p := m.val(fr, in.a)
		switch o := p.o.(type) {
		case *Obj:
			fr.regs[in.dst] = Value{n: p.n + uint64(in.n), o: o}
		case *SymAddr:
			c := *o
			c.base += in.n
			fr.regs[in.dst] = Value{o: &c}
		case nil:
			m.rtPanic("invalid memory address or nil pointer dereference")
		default:
			m.unsupported(fmt.Sprintf("field address of %T", p.o))
		}
	case iIndexAddrSlice:
		s := m.val(fr, in.a)
		i, e := m.checkIdx(m.val(fr, in.b), in.ti2, s.sLen())
		if e != nil {
			fr.regs[in.dst] = Value{o: &SymAddr{obj: s.obj(), base: s.sOff() * in.n, stride: in.n, n: s.sLen(), idx: e}}
		} else {
			fr.regs[in.dst] = Value{o: s.o, n: uint64((s.sOff() + i) * in.n)}
		}
	case iIndexAddrArr:
		p := m.val(fr, in.a)
		if p.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, ok := p.o.(*Obj)
		if !ok {
			if sa, isS := p.o.(*SymAddr); isS {
				k := int(m.concretize(sa.idx))
				o = sa.obj
				p = Value{o: o, n: uint64(sa.base + k*sa.stride)}
			} else {
				m.unsupported("array address")
			}
		}
		i, e := m.checkIdx(m.val(fr, in.b), in.ti2, in.n2)
		if e != nil {
			fr.regs[in.dst] = Value{o: &SymAddr{obj: o, base: int(p.n), stride: in.n, n: in.n2, idx: e}}
		} else {
			fr.regs[in.dst] = Value{o: o, n: p.n + uint64(i*in.n)}
		}
	case iField:
		a := m.val(fr, in.a).o.(*Agg)
		if in.ti.agg {
			fr.regs[in.dst] = Value{o: &Agg{c: a.c[in.n : in.n+in.ti.n : in.n+in.ti.n]}}
		} else {
			fr.regs[in.dst] = a.c[in.n]
		}
	case iIndexStr:
		s := m.val(fr, in.a)
		i, e := m.checkIdx(m.val(fr, in.b), in.ti2, s.sLen())
		if e != nil {
			fr.regs[in.dst] = m.loadSym(&SymAddr{obj: s.obj(), base: s.sOff(), stride: 1, n: s.sLen(), idx: e}, byteTI)
		} else {
			fr.regs[in.dst] = s.obj().cells[s.sOff()+i]
		}
	case iIndexArr:
		a := m.val(fr, in.a).o.(*Agg)
		i, e := m.checkIdx(m.val(fr, in.b), in.ti2, in.n2)
		if e != nil {
			fr.regs[in.dst] = m.loadSym(&SymAddr{obj: &Obj{cells: a.c, path: true}, stride: in.n, n: in.n2, idx: e}, in.ti)
		} else if in.ti.agg {
			fr.regs[in.dst] = Value{o: &Agg{c: a.c[i*in.n : (i+1)*in.n]}}
		} else {
			fr.regs[in.dst] = a.c[i]
		}
	case iSlice:
		m.sliceOp(fr, in)
	case iConvert:
		fr.regs[in.dst] = m.convert(m.val(fr, in.a), in.ti2, in.ti)
	case iMove:
		fr.regs[in.dst] = m.val(fr, in.a)
	case iCall:
		r := m.call(in.callee, m.args(fr, in), nil)
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case iIntrin:
		r := in.intrin(m, in.callee, m.args(fr, in))
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case iCallDyn:
		f := m.val(fr, in.a)
		if f.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil function)")
		}
		r := m.callClosure(f, m.args(fr, in))
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case iInvoke:
		r := m.invoke(m.val(fr, in.a), in.aux.(*types.Func), m.args(fr, in))
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case iBuiltin:
		r := m.builtin(fr, in, in.aux.(string), m.args(fr, in))
		if in.dst >= 0 {
			fr.regs[in.dst] = r
		}
	case iMakeIface:
		fr.regs[in.dst] = Value{o: &Iface{rt: in.aux.(*RType), v: m.val(fr, in.a)}}
	case iTypeAssert:
		fr.regs[in.dst] = m.typeAssert(m.val(fr, in.a), in)
	case iExtract:
		fr.regs[in.dst] = m.val(fr, in.a).o.(*Agg).c[in.n]
	case iLookup:
		v, ok := m.mapGet(m.val(fr, in.a), m.val(fr, in.b), in.ti2)
		if !ok {
			v = zeroValue(in.ti2.el())
		}
		if in.commaOk {
			fr.regs[in.dst] = Value{o: &Agg{c: []Value{v, cBool(ok)}}}
		} else {
			fr.regs[in.dst] = v
		}
	case iMapUpdate:
		m.mapSet(m.val(fr, in.a), m.val(fr, in.b), m.val(fr, in.c), in.ti2)
	case iMakeMap:
		fr.regs[in.dst] = Value{o: m.newMap()}
	case iMakeSlice:
		l := m.intOf(m.val(fr, in.a), intTI)
		c := m.intOf(m.val(fr, in.b), intTI)
		if l < 0 || c < l {
			m.rtPanic("makeslice: len out of range")
		}
		if c > 1<<20 {
			m.abort("unsupported", "huge make")
		}
		fr.regs[in.dst] = Value{o: m.newObj(c * in.n), n: pack(0, l, c)}
	case iMakeClosure:
		fr.regs[in.dst] = Value{o: &Closure{fn: in.callee, free: m.args(fr, in)}}
	case iRange:
		v := m.val(fr, in.a)
		it := &MapIter{}
		if in.ti2.k == kString {
			it.str = v
		} else {
			if v.o != nil {
				it.m = v.o.(*Map)
				n := len(it.m.keys)
				it.ord = make([]int, n)
				rev := false
				if m.mapOrd && it.m.n >= 2 && m.inPath && m.spec == 0 {
					rev = m.mapReversed(in)
				}
				for i := range it.ord {
					if rev {
						it.ord[i] = n - 1 - i
					} else {
						it.ord[i] = i
					}
				}
				if m.fp != nil {
					m.fp.rm(it.m)
				}
			}
		}
		fr.regs[in.dst] = Value{o: it}
	case iNext:
		m.next(fr, in)
	case iDefer:
		D := in.aux.(*Instr)
		args := m.args(fr, D)
		switch D.op {
		case iCall, iIntrin:
			callee := D.callee
			fr.defers = append(fr.defers, deferred{func(m *Machine) { m.call(callee, args, nil) }})
		case iCallDyn:
			f := m.val(fr, D.a)
			fr.defers = append(fr.defers, deferred{func(m *Machine) { m.callClosure(f, args) }})
		case iInvoke:
			r := m.val(fr, D.a)
			meth := D.aux.(*types.Func)
			fr.defers = append(fr.defers, deferred{func(m *Machine) { m.invoke(r, meth, args) }})
		case iBuiltin:
			name := D.aux.(string)
			fr.defers = append(fr.defers, deferred{func(m *Machine) { m.builtin(fr, D, name, args) }})
		}
	case iRunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			d.f(m)
		}
	case iPanic:
		if m.spec > 0 {
			panic(specAbort{})
		}
		v := m.val(fr, in.a)
		panic(&GoPanic{v: v, msg: "panic: " + m.panicText(v), stack: m.where()})
	case iSliceToArr:
		s := m.val(fr, in.a)
		if s.sLen() < in.n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		n := 0
		if o := s.obj(); o != nil {
			n = s.sOff()
		}
		fr.regs[in.dst] = Value{o: s.o, n: uint64(n)}
	default:
		m.unsupported(fmt.Sprintf("instruction %v", in.aux))
	}
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.o.(*Iface)
	if !ok || i == nil {
		return "nil"
	}
	if i.rt.ti.k == kString {
		s, ok := concStr(i.v)
		if ok {
			return s
		}
		return "<symbolic string>"
	}
	return i.rt.t.String()
}

func (m *Machine) notV(v Value) Value {
	if v.o == nil {
		return cBool(v.n == 0)
	}
	return exprVal(m.eb.Not(v.o.(*Expr)))
}

func toF(m *Machine, v Value) float64 {
	if s := symF(v); s != nil {
		return m.pinF(s)
	}
	if v.o != nil {
		m.unsupported("symbolic float")
	}
	return math.Float64frombits(v.n)
}

func fromF(f float64, w uint8) Value {
	if w == 32 {
		f = float64(float32(f))
	}
	return Value{n: math.Float64bits(f)}
}

func (m *Machine) binop(in *Instr, a, b Value) Value {
	ti := in.ti2
	if ti.k == kFloat {
		if a.o != nil || b.o != nil {
			if r, ok := m.floatOp(in.tok, a, b, ti.w); ok {
				return r
			}
		}
		x, y := toF(m, a), toF(m, b)
		switch in.tok {
		case token.ADD:
			return fromF(x+y, ti.w)
		case token.SUB:
			return fromF(x-y, ti.w)
		case token.MUL:
			return fromF(x*y, ti.w)
		case token.QUO:
			return fromF(x/y, ti.w)
		case token.EQL:
			return cBool(x == y)
		case token.NEQ:
			return cBool(x != y)
		case token.LSS:
			return cBool(x < y)
		case token.LEQ:
			return cBool(x <= y)
		case token.GTR:
			return cBool(x > y)
		case token.GEQ:
			return cBool(x >= y)
		}
		m.unsupported("float op")
	}
	w := ti.w
	if ti.k == kBool {
		x, y := m.toBool(a), m.toBool(b)
		switch in.tok {
		case token.EQL:
			return exprVal(m.eb.Eq(x, y))
		case token.NEQ:
			return exprVal(m.eb.Not(m.eb.Eq(x, y)))
		case token.AND, token.LAND:
			return exprVal(m.eb.And(x, y))
		case token.OR, token.LOR:
			return exprVal(m.eb.Or(x, y))
		}
		m.unsupported("bool op")
	}
	if a.o == nil && b.o == nil {
		x, y := a.n, b.n
		switch in.tok {
		case token.ADD:
			return cInt((x + y) & mask(w))
		case token.SUB:
			return cInt((x - y) & mask(w))
		case token.MUL:
			return cInt((x * y) & mask(w))
		case token.QUO, token.REM:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			op := OUDiv
			if in.tok == token.REM {
				op = OURem
			}
			if ti.signed {
				op++
				if op == OUDiv+1 {
					op = OSDiv
				} else {
					op = OSRem
				}
			}
			return cInt(evalOp(op, w, w, 0, x, y, 0))
		case token.AND:
			return cInt(x & y)
		case token.OR:
			return cInt(x | y)
		case token.XOR:
			return cInt(x ^ y)
		case token.AND_NOT:
			return cInt(x &^ y)
		case token.SHL, token.SHR:
			if in.ti.signed && sext64(y, in.ti.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			if y >= 64 {
				y = 64
			}
			if in.tok == token.SHL {
				return cInt(evalOp(OShl, w, w, 0, x, y, 0))
			}
			if ti.signed {
				return cInt(evalOp(OAShr, w, w, 0, x, y, 0))
			}
			return cInt(evalOp(OLShr, w, w, 0, x, y, 0))
		case token.EQL:
			return cBool(x == y)
		case token.NEQ:
			return cBool(x != y)
		}
		if ti.signed {
			sx, sy := sext64(x, w), sext64(y, w)
			switch in.tok {
			case token.LSS:
				return cBool(sx < sy)
			case token.LEQ:
				return cBool(sx <= sy)
			case token.GTR:
				return cBool(sx > sy)
			case token.GEQ:
				return cBool(sx >= sy)
			}
		} else {
			switch in.tok {
			case token.LSS:
				return cBool(x < y)
			case token.LEQ:
				return cBool(x <= y)
			case token.GTR:
				return cBool(x > y)
			case token.GEQ:
				return cBool(x >= y)
			}
		}
		m.unsupported("int op " + in.tok.String())
	}
	// pointers held in uintptr
	if _, ok := a.o.(*Obj); ok {
		switch in.tok {
		case token.EQL:
			return cBool(a == b)
		case token.NEQ:
			return cBool(a != b)
		case token.XOR:
			if b.o == nil && b.n == 0 {
				return a
			}
		}
		m.unsupported("pointer arithmetic")
	}
	eb := m.eb
	x := m.toExpr(a, w)
	if in.tok == token.SHL || in.tok == token.SHR {
		yw := in.ti.w
		y := m.toExpr(b, yw)
		if in.ti.signed && !y.isC() {
			if m.branch(eb.Slt(y, eb.Const(0, yw))) {
				m.rtPanic("negative shift amount")
			}
		}
		if yw > w {
			big := eb.Ule(eb.Const(uint64(w), yw), y)
			y = eb.Ite(big, eb.Const(uint64(w), w), eb.Extract(y, 0, w))
			if w == 8 || true {
				_ = big
			}
		} else {
			y = eb.Zext(y, w)
		}
		if in.tok == token.SHL {
			return exprVal(eb.Bin(OShl, x, y))
		}
		if ti.signed {
			return exprVal(eb.Bin(OAShr, x, y))
		}
		return exprVal(eb.Bin(OLShr, x, y))
	}
	y := m.toExpr(b, w)
	switch in.tok {
	case token.ADD:
		return exprVal(eb.Bin(OAdd, x, y))
	case token.SUB:
		return exprVal(eb.Bin(OSub, x, y))
	case token.MUL:
		return exprVal(eb.Bin(OMul, x, y))
	case token.QUO, token.REM:
		if m.branch(eb.Eq(y, eb.Const(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		op := OUDiv
		if in.tok == token.REM {
			op = OURem
		}
		if ti.signed {
			if in.tok == token.REM {
				op = OSRem
			} else {
				op = OSDiv
			}
			// unsigned operation when both are known non-negative
			if x.op == OZext && y.isC() && sext64(y.k, w) > 0 {
				if op == OSRem {
					op = OURem
				} else {
					op = OUDiv
				}
			}
		}
		return exprVal(eb.Bin(op, x, y))
	case token.AND:
		return exprVal(eb.Bin(OBAnd, x, y))
	case token.OR:
		return exprVal(eb.Bin(OBOr, x, y))
	case token.XOR:
		return exprVal(eb.Bin(OBXor, x, y))
	case token.AND_NOT:
		return exprVal(eb.Bin(OBAnd, x, eb.BNot(y)))
	case token.EQL:
		return exprVal(eb.Eq(x, y))
	case token.NEQ:
		return exprVal(eb.Not(eb.Eq(x, y)))
	case token.LSS:
		if ti.signed {
			return exprVal(eb.Slt(x, y))
		}
		return exprVal(eb.Ult(x, y))
	case token.LEQ:
		if ti.signed {
			return exprVal(eb.Sle(x, y))
		}
		return exprVal(eb.Ule(x, y))
	case token.GTR:
		if ti.signed {
			return exprVal(eb.Slt(y, x))
		}
		return exprVal(eb.Ult(y, x))
	case token.GEQ:
		if ti.signed {
			return exprVal(eb.Sle(y, x))
		}
		return exprVal(eb.Ule(y, x))
	}
	m.unsupported("int op " + in.tok.String())
	return Value{}
}

func (m *Machine) concat(a, b Value) Value {
	la, lb := a.sLen(), b.sLen()
	if la == 0 {
		return b
	}
	if lb == 0 {
		return a
	}
	if m.fp != nil {
		m.fp.r(a.obj())
		m.fp.r(b.obj())
	}
	o := m.newObj(la + lb)
	copy(o.cells, strCells(a))
	copy(o.cells[la:], strCells(b))
	return Value{o: o, n: pack(0, la+lb, la+lb)}
}

// bytesVal makes a string or []byte value of the cells (copied).
func (m *Machine) bytesVal(cs []Value) Value {
	o := m.newObj(len(cs))
	copy(o.cells, cs)
	return Value{o: o, n: pack(0, len(cs), len(cs))}
}

func (m *Machine) goStr(s string) Value { return makeStr(s) }

func (m *Machine) eqCells(a, b []Value) Value {
	if len(a) != len(b) {
		return cBool(false)
	}
	for i := range a {
		if a[i].o == nil && b[i].o == nil && a[i].n != b[i].n {
			return cBool(false)
		}
	}
	e := m.eb.tru
	for i := range a {
		if a[i].o == nil && b[i].o == nil {
			continue
		}
		e = m.eb.And(e, m.eb.Eq(m.toExpr(a[i], 8), m.toExpr(b[i], 8)))
		if e.isFalse() {
			break
		}
	}
	return exprVal(e)
}

func (m *Machine) readStr(v Value) []Value {
	if m.fp != nil && v.o != nil {
		m.fp.r(v.o.(*Obj))
	}
	return strCells(v)
}

func (m *Machine) eq(ti *TInfo, a, b Value) Value {
	switch ti.k {
	case kString:
		return m.eqCells(m.readStr(a), m.readStr(b))
	case kBool:
		return exprVal(m.eb.Eq(m.toBool(a), m.toBool(b)))
	case kInt:
		if a.o == nil && b.o == nil {
			return cBool(a.n == b.n)
		}
		if _, ok := a.o.(*Obj); ok {
			return cBool(a == b)
		}
		return exprVal(m.eb.Eq(m.toExpr(a, ti.w), m.toExpr(b, ti.w)))
	case kFloat:
		_, eq := m.cmpF(a, b, ti.w)
		return exprVal(eq)
	case kPtr, kChan:
		if sa, ok := a.o.(*SymAddr); ok {
			if b.o == nil {
				return cBool(false)
			}
			_ = sa
			m.unsupported("comparison of symbolic addresses")
		}
		return cBool(a.o == b.o && a.n == b.n)
	case kSlice, kMap, kFunc:
		return cBool((a.o == nil) == (b.o == nil))
	case kIface:
		ia, _ := a.o.(*Iface)
		ib, _ := b.o.(*Iface)
		if ia == nil || ib == nil {
			return cBool(ia == nil && ib == nil)
		}
		if ia.rt != ib.rt {
			return cBool(false)
		}
		switch ia.rt.ti.k {
		case kSlice, kMap, kFunc:
			m.rtPanic("comparing uncomparable type " + ia.rt.t.String())
		}
		return m.eq(ia.rt.ti, ia.v, ib.v)
	case kStruct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		e := m.eb.tru
		for i, f := range ti.fields {
			e = m.eb.And(e, m.toBool(m.eq(f, aggGet(x, ti.offs[i], f), aggGet(y, ti.offs[i], f))))
		}
		return exprVal(e)
	case kArray:
		x, y := a.o.(*Agg), b.o.(*Agg)
		e := m.eb.tru
		for i := 0; i < ti.alen; i++ {
			e = m.eb.And(e, m.toBool(m.eq(ti.elem, aggGet(x, i*ti.elem.n, ti.elem), aggGet(y, i*ti.elem.n, ti.elem))))
		}
		return exprVal(e)
	}
	m.unsupported("comparison of " + ti.t.String())
	return Value{}
}

func aggGet(a *Agg, off int, ti *TInfo) Value {
	if ti.agg {
		return Value{o: &Agg{c: a.c[off : off+ti.n : off+ti.n]}}
	}
	return a.c[off]
}

func (m *Machine) strLess(a, b Value) Value {
	x, y := m.readStr(a), m.readStr(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	lt := m.eb.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.toExpr(x[i], 8), m.toExpr(y[i], 8)
		lt = m.eb.Or(m.eb.Ult(p, q), m.eb.And(m.eb.Eq(p, q), lt))
	}
	return exprVal(lt)
}

func (m *Machine) sliceOp(fr *Frame, in *Instr) {
	x := m.val(fr, in.a)
	bt := in.aux.([3]*TInfo)
	geti := func(i int32, k int, def int) int {
		if i == -1<<30 {
			return def
		}
		return m.intOf(m.val(fr, i), bt[k])
	}
	switch in.ti2.k {
	case kString:
		l := x.sLen()
		lo := geti(in.b, 0, 0)
		hi := geti(in.c, 1, l)
		if lo < 0 || hi < lo || hi > l {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, l))
		}
		if hi == lo {
			fr.regs[in.dst] = Value{}
			return
		}
		fr.regs[in.dst] = Value{o: x.o, n: pack(x.sOff()+lo, hi-lo, hi-lo)}
	case kSlice:
		c := x.sCap()
		lo := geti(in.b, 0, 0)
		hi := geti(in.c, 1, x.sLen())
		mx := geti(in.d, 2, c)
		if lo < 0 || hi < lo || mx < hi || mx > c {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, c))
		}
		if x.o == nil {
			fr.regs[in.dst] = Value{}
			return
		}
		fr.regs[in.dst] = Value{o: x.o, n: pack(x.sOff()+lo, hi-lo, mx-lo)}
	case kPtr:
		if x.o == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, ok := x.o.(*Obj)
		if !ok {
			m.unsupported("slice of symbolic array address")
		}
		c := in.n2
		lo := geti(in.b, 0, 0)
		hi := geti(in.c, 1, c)
		mx := geti(in.d, 2, c)
		if lo < 0 || hi < lo || mx < hi || mx > c {
			m.rtPanic("slice bounds out of range")
		}
		if in.n == 0 {
			fr.regs[in.dst] = Value{o: o, n: pack(0, hi-lo, mx-lo)}
			return
		}
		if int(x.n)%in.n != 0 {
			// the array does not start at a multiple of its element size: give the slice its own view
			m.unsupported("slice of a misaligned array field")
		}
		fr.regs[in.dst] = Value{o: o, n: pack(int(x.n)/in.n+lo, hi-lo, mx-lo)}
	}
}
