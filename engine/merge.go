package main

// Merging of pure control flow: the region of side-effect free blocks behind a
// symbolic condition is evaluated under guards, so that only exits to different
// places with incompatible values fork the path.

type medge struct {
	target *Block
	guard  *Expr
	phis   []Value
	isRet  bool
	ret    Value
	retIns *Instr
	nret   int
}

const maxRegion = 48

func (m *Machine) edgePhis(fr *Frame, b *Block, slot int) []Value {
	t := b.succs[slot]
	if len(t.phis) == 0 {
		return nil
	}
	pi := b.succIdx[slot]
	out := make([]Value, len(t.phis))
	for i := range t.phis {
		out[i] = m.val(fr, t.phis[i].edges[pi])
	}
	return out
}

// mergeVal merges two values under a guard; ok is false if they cannot be merged.
func (m *Machine) mergeVal(ti *TInfo, g *Expr, a, b Value) (Value, bool) {
	if a == b {
		return a, true
	}
	switch ti.k {
	case kInt:
		if (a.o != nil && a.expr() == nil) || (b.o != nil && b.expr() == nil) {
			return Value{}, false
		}
		if ti.w == 64 && ti.signed && !mergeInts {
			return Value{}, false
		}
		return exprVal(m.eb.Ite(g, m.toExpr(a, ti.w), m.toExpr(b, ti.w))), true
	case kBool:
		return exprVal(m.eb.Ite(g, m.toBool(a), m.toBool(b))), true
	}
	return Value{}, false
}

var mergeInts = false

// sameVal is == on Values without panicking on uncomparable content.
func (m *Machine) runPure(fr *Frame, x *Block) (ok bool) {
	depth, sp, nfr := m.depth, m.sp, len(m.frames)
	m.spec++
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			if _, is := r.(specAbort); !is {
				panic(r)
			}
			m.depth, m.sp = depth, sp
			m.frames = m.frames[:nfr]
			ok = false
		}
	}()
	for i := range x.ins {
		in := &x.ins[i]
		switch in.op {
		case iIf, iJump, iReturn:
			return true
		}
		fr.cur = in
		m.steps++
		m.step(fr, in)
	}
	return true
}

func (m *Machine) enterable(x *Block) bool {
	if !x.pure || len(x.ins) > 40 {
		return false
	}
	for i := range x.ins {
		if x.ins[i].op == iCall && !m.P.pureFn(x.ins[i].callee) {
			return false
		}
	}
	return true
}

type mnode struct {
	b        *Block
	edges    []medge
	resolved int
	done     bool
	exit     bool
}

func (m *Machine) symIf(fr *Frame, b *Block, c *Expr) (*Block, Value, bool) {
	// already decided on this path
	if m.pcset[c] {
		return m.takeEdge(fr, b, 0), Value{}, false
	}
	if m.pcset[m.eb.Not(c)] {
		return m.takeEdge(fr, b, 1), Value{}, false
	}
	// decided by what is known about its only variable
	if v, ok := m.unary(c); ok && m.dom[v] != nil {
		d, bs := m.dom[v], boolBits(c)
		yes, no := false, false
		for i := range d {
			yes = yes || d[i]&bs[i] != 0
			no = no || d[i]&^bs[i] != 0
		}
		if yes != no {
			addStat(&m.sol.sh.stats.domainHits)
			slot, dead := 0, m.eb.Not(c)
			if no {
				slot, dead = 1, c
			}
			if m.auditDomain(v, dead) == Unsat {
				return m.takeEdge(fr, b, slot), Value{}, false
			}
		}
	}
	exits := m.explore(fr, b, c)
	groups := m.group(fr, exits)
	pick := 0
	if len(groups) > 1 {
		if m.spec > 0 {
			panic(specAbort{})
		}
		gs := make([]*Expr, len(groups))
		for i := range groups {
			gs[i] = groups[i].guard
		}
		if len(groups) == 2 {
			// a plain two-way branch
			if !m.branch(gs[0]) {
				pick = 1
			}
		} else {
			pick = m.nway(gs)
		}
	}
	g := &groups[pick]
	if g.isRet {
		return nil, g.ret, true
	}
	for i := range g.target.phis {
		fr.regs[g.target.phis[i].dst] = g.phis[i]
	}
	return g.target, Value{}, false
}

func (m *Machine) explore(fr *Frame, b *Block, c *Expr) []medge {
	var nodes []*mnode
	find := func(t *Block) *mnode {
		for _, n := range nodes {
			if n.b == t {
				return n
			}
		}
		n := &mnode{b: t}
		nodes = append(nodes, n)
		return n
	}
	var rets []medge
	addEdge := func(from *Block, slot int, g *Expr) {
		t := from.succs[slot]
		n := find(t)
		n.resolved++
		if g.isFalse() {
			return
		}
		if n.done {
			n.exit = true // back edge into the region: exit again
		}
		n.edges = append(n.edges, medge{target: t, guard: g, phis: m.edgePhis(fr, from, slot)})
	}
	addEdge(b, 0, c)
	addEdge(b, 1, m.eb.Not(c))
	count := 0
	for {
		var x *mnode
		for _, n := range nodes {
			if !n.done && !n.exit && n.b != b && n.resolved == n.b.npreds && m.enterable(n.b) {
				x = n
				break
			}
		}
		if x == nil || count >= maxRegion {
			break
		}
		count++
		if len(x.edges) == 0 {
			// unreachable under the guards: its out edges are dead
			x.done = true
			for s, t := range x.b.succs {
				if t != nil {
					_ = s
					find(t).resolved++
				}
			}
			continue
		}
		g := m.eb.fls
		for i := range x.edges {
			g = m.eb.Or(g, x.edges[i].guard)
		}
		ok := true
		vals := make([]Value, len(x.b.phis))
		for pi := range x.b.phis {
			v := x.edges[len(x.edges)-1].phis[pi]
			for i := len(x.edges) - 2; i >= 0 && ok; i-- {
				v, ok = m.mergeVal(x.b.phis[pi].ti, x.edges[i].guard, x.edges[i].phis[pi], v)
			}
			if !ok {
				break
			}
			vals[pi] = v
		}
		if !ok {
			x.exit = true
			continue
		}
		for pi := range x.b.phis {
			fr.regs[x.b.phis[pi].dst] = vals[pi]
		}
		if !m.runPure(fr, x.b) {
			x.exit = true
			continue
		}
		x.done = true
		x.edges = nil
		last := &x.b.ins[len(x.b.ins)-1]
		switch last.op {
		case iJump:
			addEdge(x.b, 0, g)
		case iReturn:
			rets = append(rets, medge{guard: g, isRet: true, ret: m.retVal(fr, last), retIns: last, nret: len(last.args)})
		case iIf:
			cv := m.val(fr, last.a)
			ce := m.toBool(cv)
			addEdge(x.b, 0, m.eb.And(g, ce))
			addEdge(x.b, 1, m.eb.And(g, m.eb.Not(ce)))
		}
	}
	var out []medge
	for _, n := range nodes {
		out = append(out, n.edges...)
	}
	return append(out, rets...)
}

// group merges exits with the same destination.
func (m *Machine) group(fr *Frame, exits []medge) []medge {
	var groups []medge
next:
	for _, e := range exits {
		for i := range groups {
			g := &groups[i]
			if g.isRet != e.isRet || g.target != e.target {
				continue
			}
			if e.isRet {
				res := fr.fn.f.Signature.Results()
				switch e.nret {
				case 0:
					g.guard = m.eb.Or(g.guard, e.guard)
					continue next
				case 1:
					v, ok := m.mergeVal(tinfo(res.At(0).Type()), e.guard, e.ret, g.ret)
					if ok {
						g.ret = v
						g.guard = m.eb.Or(g.guard, e.guard)
						continue next
					}
				default:
					ga, ea := g.ret.o.(*Agg), e.ret.o.(*Agg)
					na := &Agg{c: make([]Value, e.nret)}
					ok := true
					for k := 0; k < e.nret && ok; k++ {
						na.c[k], ok = m.mergeVal(tinfo(res.At(k).Type()), e.guard, ea.c[k], ga.c[k])
					}
					if ok {
						g.ret = Value{o: na}
						g.guard = m.eb.Or(g.guard, e.guard)
						continue next
					}
				}
				continue
			}
			ok := true
			vals := make([]Value, len(e.phis))
			for k := range e.phis {
				vals[k], ok = m.mergeVal(e.target.phis[k].ti, e.guard, e.phis[k], g.phis[k])
				if !ok {
					break
				}
			}
			if ok {
				g.phis = vals
				g.guard = m.eb.Or(g.guard, e.guard)
				continue next
			}
		}
		groups = append(groups, e)
	}
	return groups
}
