package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// A schema whose values are nested as deep as one likes, through every kind of item.

type DepIface interface{ ResolveK() string }

type DepNode struct {
	S *DepNode
	L []DepNode
	P **DepNode
	I DepIface
	F func() *DepNode
	D []([]*DepNode)
	N int
}

var depRan int

func (DepNode) ResolveK() string { depRan++; return "k" }
func (d DepNode) ResolveM() DepNode {
	depRan++
	return depNode()
}
func (d DepNode) ResolveO() DepIface { return depNode() }
func (d DepNode) ResolveX(c *yarql.Ctx, a struct{ N int }) (*DepNode, error) {
	n := depNode()
	return &n, nil
}

var _ = yarql.Implements((*DepIface)(nil), DepNode{})

// depBase is a node whose fields lead back to it.
var depBase *DepNode

func depNode() DepNode { return *depBase }

func depInit() {
	b := &DepNode{N: 1}
	depBase = b
	b.S = b
	b.P = &b.S
	b.I = b2iface(b)
	b.F = func() *DepNode { return depBase }
	b.D = [][]*DepNode{{b}}
	b.L = make([]DepNode, 1)
	b.L[0] = DepNode{N: 2, S: b, F: b.F, P: b.P, D: b.D, L: []DepNode{{N: 3, S: b}}}
	b.L[0].I = b2iface(b)
	b.L[0].L[0].L = b.L
}

func b2iface(b *DepNode) DepIface { return *b }

type DepQ struct {
	S DepNode
	I DepIface
	L []DepNode
	A int
}

func (DepQ) ResolveM() *DepNode { return depBase }

type depState struct{ s *yarql.Schema }

func Setup_dep() *depState {
	depInit()
	return &depState{build(DepQ{S: depNode(), I: depNode(), L: []DepNode{depNode()}, A: 1}, NoM{})}
}

// Run_C16_limit: chains of every kind of item against every limit.
func Run_C16_limit(st *depState) {
	limit := byte(sym.Range(0, 8+2*sym.Tier()))
	st.s.MaxDepth = limit
	n := 1 + sym.Choose(4+sym.Tier())
	q, end := "{", "}"
	for i := 0; i < n; i++ {
		var f string
		if i == 0 {
			f = []string{"s", "i", "l", "m"}[sym.Choose(4)]
			q += f + "{"
			if f == "i" {
				q += "...on DepNode{"
				end += "}"
			}
		} else {
			f = []string{"s", "m", "x(n:1)", "p", "f", "d", "o"}[sym.Choose(5+2*sym.Tier())]
			q += f + "{"
			if f == "o" {
				q += "...on DepNode{"
				end += "}"
			} else if f == "f" {
				q += "...on DepNode{n "
				end += "}"
			}
		}
		end += "}"
	}
	depRan = 0
	r := execOpt(st.s, q+"n k"+end, yarql.ResolveOptions{Tracing: sym.Bool()})
	// the operation itself is no level, every selection below it is one
	if byte(n) >= limit {
		sym.Assert(r.failed(), "a query deeper than the limit was answered")
		sym.Cover("refused")
		return
	}
	sym.Assert(!r.failed(), "a query within the limit was refused")
	sym.Cover("answered")
}

// Run_C16_siblings: the levels of neighbours do not add up.
func Run_C16_siblings(st *depState) {
	limit := byte(sym.Range(0, 8))
	st.s.MaxDepth = limit
	parts := []struct {
		q string
		d byte
	}{{"s{n}", 1}, {"s{s{n}}", 2}, {"m{x(n:1){d{n}}}", 3}, {"l{f{p{m{n}}}}", 4}, {"i{...on DepNode{s{n}}}", 2}, {"a", 0}, {"...F", 2}, {"...on DepQ{s{n}}", 1}}
	q, max, ok := "{", byte(0), true
	for i := 0; i < 3; i++ {
		p := parts[sym.Choose(len(parts))]
		if p.q[0] >= 'a' {
			q += "k" + itoa(i) + ":"
		}
		q += p.q + " "
		if p.d > max {
			max = p.d
		}
	}
	_ = ok
	r := exec(st.s, q+"}fragment F on DepQ{s{...G}}fragment G on DepNode{s{n}}")
	if max >= limit && max > 0 {
		sym.Assert(r.failed(), "a query deeper than the limit was answered")
		sym.Cover("refused")
		return
	}
	sym.Assert(!r.failed(), "a query within the limit was refused")
	sym.Cover("answered")
}

// Run_C16_deep: queries around the largest limit, and far beyond it.
func Run_C16_deep(st *depState) {
	lens := []int{100, 126, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 514}
	n := lens[sym.Choose(len(lens))]
	f := []string{"s", "m", "d", "p", "x(n:1)", "o"}[sym.Choose(6)]
	st.s.MaxDepth = []byte{255, 255, 254, 128, 200}[sym.Choose(5)]
	leaf := sym.StrOf(1, "nk")
	q := []byte{'{'}
	end := []byte{}
	q = append(q, 's', '{')
	for i := 1; i < n; i++ {
		q = append(q, f...)
		q = append(q, '{')
		end = append(end, '}')
		if f == "o" {
			q = append(q, "...on DepNode{"...)
			end = append(end, '}')
		}
	}
	depRan = 0
	r := exec(st.s, string(q)+leaf+string(end)+"} a}")
	if n >= int(st.s.MaxDepth) {
		sym.Assert(r.failed(), "a query deeper than the limit was answered")
		sym.Assert(f == "m" || depRan == 0, "a resolver below the limit ran")
		sym.Assert(f != "m" || depRan <= int(st.s.MaxDepth), "resolvers below the limit ran")
		sym.Cover("refused")
		return
	}
	sym.Assert(!r.failed(), "a query within the limit was refused")
	v := r.data.get("s")
	for i := 1; i < n; i++ {
		v = v.get(f[:1])
		if f == "d" {
			v = v.at(0).at(0)
		}
	}
	if leaf == "n" {
		sym.Assert(v.get("n").isNum("1"), "a deep value is wrong")
	} else {
		sym.Assert(v.get("k").isStr("k"), "a deep value is wrong")
	}
	sym.Assert(r.data.get("a").isNum("1"), "the field behind deep values is wrong")
	sym.Cover("answered")
}
