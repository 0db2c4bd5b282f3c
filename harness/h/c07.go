package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the selection checks: every kind of item, with values that depend on inputs.

type SelLeaf struct {
	V int16
	W string
	N *SelLeaf
}

type SelIface interface{ ResolveV() int16 }

type SelImpl struct{ X string }

func (s SelImpl) ResolveV() int16 { return 5 }

type SelImplTwo struct{ Y []int8 }

func (s SelImplTwo) ResolveV() int16 { return 6 }

// SelStranger is not registered: it is answered as null.
type SelStranger struct {
	V int16
	W string
}

func (s SelStranger) ResolveV() int16 { return 7 }

var _ = yarql.Implements((*SelIface)(nil), SelImpl{})
var _ = yarql.Implements((*SelIface)(nil), SelImplTwo{})

type SelQ struct {
	Str  string
	Num  int16
	Leaf SelLeaf
	Ptr  *SelLeaf
	List []SelLeaf
	PL   []*SelLeaf `gq:"pl"`
	LL   [][]int8   `gq:"ll"`
	Arr  [2]int8
	Fn   func() SelLeaf
	NilF func() int
	Ifc  SelIface
	IL   []SelIface `gq:"il"`
	LL2  [][]SelLeaf
	Str2 SelIface
	IL2  []SelIface   `gq:"il2"`
	IL3  [][]SelIface `gq:"il3"`
	Mix  struct {
		A SelIface
		B *SelLeaf
		C []SelIface
		D int8
	}
}

func (q SelQ) ResolveMeth() SelLeaf { return q.Leaf }
func (q SelQ) ResolveMethList() []SelLeaf {
	return []SelLeaf{q.Leaf, {V: selV, W: "ml"}}
}
func (q SelQ) ResolveArg(a struct{ N int16 }) int16 { return a.N }

type selState struct {
	s *yarql.Schema
}

// selV and selW are read by function fields and methods at request time.
var selV int16
var selW string

func (q SelQ) ResolveLive() SelLeaf { return SelLeaf{V: selV, W: selW} }
func (q SelQ) ResolveLiveList() []SelLeaf {
	var r []SelLeaf
	for i := 0; i < selN; i++ {
		r = append(r, SelLeaf{V: int16(i), W: "e" + itoa(i)})
	}
	return r
}
func (q SelQ) ResolveLiveMap() [][]*SelLeaf {
	return [][]*SelLeaf{{{V: selV, W: "a"}, nil}, nil, {}, {{V: 3, W: selW}}}
}

var selN int

func selValue() SelQ {
	two := SelLeaf{V: 20, W: "two"}
	q := selBase(two)
	q.Str2 = SelStranger{V: 1}
	q.IL2 = []SelIface{SelStranger{V: 1}, SelImpl{X: "k"}, SelStranger{V: 2}, SelImplTwo{Y: []int8{3}}}
	q.IL3 = [][]SelIface{{SelStranger{V: 1}}, {nil, SelImpl{X: "k"}}}
	q.Mix.A, q.Mix.B, q.Mix.C, q.Mix.D = SelStranger{}, &two, []SelIface{SelStranger{}, nil, SelImpl{X: "m"}}, 11
	return q
}

func selBase(two SelLeaf) SelQ {
	return SelQ{
		Str: "str", Num: -7,
		Leaf: SelLeaf{V: 1, W: "leaf", N: &two},
		Ptr:  &SelLeaf{V: 2, W: "ptr"},
		List: []SelLeaf{{V: 3, W: "l0"}, {V: 4, W: "l1", N: &two}},
		PL:   []*SelLeaf{nil, {V: 5, W: "pl1"}},
		LL:   [][]int8{{1, 2}, nil, {}, {-3}},
		Arr:  [2]int8{8, 9},
		Fn:   func() SelLeaf { return SelLeaf{V: 6, W: "fn"} },
		Ifc:  SelImpl{X: "ix"},
		IL:   []SelIface{SelImplTwo{Y: []int8{1}}, nil, SelImpl{X: "j"}},
		LL2:  [][]SelLeaf{{{V: 1, W: "q"}}, {}},
	}
}

func Setup_sel() *selState { return &selState{build(selValue(), NoM{})} }

// sel is one selection with what it has to give.
type sel struct{ name, rest, want string }

func leafWant(v int16, w string) string { return "{\"v\":" + i64(int64(v)) + ",\"w\":\"" + w + "\"}" }

// sels are selections of the query root.
func sels() []sel {
	two := leafWant(20, "two")
	return []sel{
		{"str", "", "\"str\""},
		{"num", "", "-7"},
		{"leaf", "{v w}", leafWant(1, "leaf")},
		{"leaf", "{n{v w}w}", "{\"n\":" + two + ",\"w\":\"leaf\"}"},
		{"leaf", "{n{n{v}}}", "{\"n\":{\"n\":null}}"},
		{"ptr", "{v w}", leafWant(2, "ptr")},
		{"list", "{v w}", "[" + leafWant(3, "l0") + "," + leafWant(4, "l1") + "]"},
		{"list", "{n{v w}}", "[{\"n\":null},{\"n\":" + two + "}]"},
		{"pl", "{v w}", "[null," + leafWant(5, "pl1") + "]"},
		{"ll", "", "[[1,2],null,[],[-3]]"},
		{"arr", "", "[8,9]"},
		{"fn", "{v w}", leafWant(6, "fn")},
		{"nilF", "", "null"},
		{"ifc", "{v}", "{\"v\":5}"},
		{"ifc", "{v ...on SelImpl{x}...on SelImplTwo{y}}", "{\"v\":5,\"x\":\"ix\"}"},
		{"il", "{v ...on SelImplTwo{y}__typename}", "[{\"v\":6,\"y\":[1],\"__typename\":\"SelImplTwo\"},null,{\"v\":5,\"__typename\":\"SelImpl\"}]"},
		{"LL2", "{v}", "[[{\"v\":1}],[]]"},
		{"meth", "{w v}", "{\"w\":\"leaf\",\"v\":1}"},
		{"arg", "(n:12)", "12"},
		{"__typename", "", "\"SelQ\""},
		{"str2", "{v}", "null"},
		{"il2", "{v ...on SelImpl{x}}", "[null,{\"v\":5,\"x\":\"k\"},null,{\"v\":6}]"},
		{"il3", "{v}", "[[null],[null,{\"v\":5}]]"},
		{"mix", "{a{v}b{v w}c{v}d}", "{\"a\":null,\"b\":" + two + ",\"c\":[null,null,{\"v\":5}],\"d\":11}"},
		{"mix", "{c{v}a{v}b{n{v}v}}", "{\"c\":[null,null,{\"v\":5}],\"a\":null,\"b\":{\"n\":null,\"v\":20}}"},
		{"live", "{v w}", ""},
		{"methList", "{v}", ""},
		{"liveMap", "{v w}", ""},
		{"liveList", "{v a:w}", ""},
	}
}

func selWant(k int, s sel) string {
	switch s.name {
	case "live":
		return leafWant(selV, selW)
	case "methList":
		return "[{\"v\":1},{\"v\":" + i64(int64(selV)) + "}]"
	case "liveMap":
		return "[[" + leafWant(selV, "a") + ",null],null,[],[" + leafWant(3, selW) + "]]"
	case "liveList":
		if selN == 0 {
			return "null"
		}
		t := "["
		for i := 0; i < selN; i++ {
			if i > 0 {
				t += ","
			}
			t += "{\"v\":" + itoa(i) + ",\"a\":\"e" + itoa(i) + "\"}"
		}
		return t + "]"
	}
	return s.want
}

const nameStart = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const nameRest = nameStart + "0123456789"

// symName is a symbolic name of n bytes.
func symName(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte()
		c := b[i]
		sym.Assume(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9')
	}
	return string(b)
}

// Run_C07_select: sequences of selections with symbolic aliases and values.
func Run_C07_select(st *selState) {
	all := sels()
	n := 2 + sym.Tier()
	selV = int16(sym.Pick("0123456789") - '0')
	selW = sym.StrOf(1, "abcxyz")
	selN = 2
	q, want := "{", "{"
	names := []string{}
	for i := 0; i < n; i++ {
		k := sym.Choose(len(all))
		if i == 2 {
			k = (k + i) % len(all)
		}
		s := all[k]
		key := s.name
		if sym.Bool() {
			key = symName(1 + i)
			q += key + ":"
		}
		for _, o := range names {
			sym.Assume(o != key)
		}
		names = append(names, key)
		q += s.name + s.rest + " "
		if i > 0 {
			want += ","
		}
		want += "\"" + key + "\":" + selWant(k, s)
	}
	r := exec(st.s, q+"}")
	sym.Assert(!r.failed(), "a valid selection failed")
	sym.Assert(r.raw == "{\"data\":"+want+"}}", "the answer does not mirror the selection")
	sym.Cover("mirrored")
}

// Run_C07_lists: lists of every length.
func Run_C07_lists(st *selState) {
	selN = sym.Choose(5 + 4*sym.Tier())
	selV = int16(sym.Pick("0123456789") - '0')
	selW = sym.StrOf(1, "abc")
	al := symName(1)
	r := exec(st.s, "{x:liveList{v a:w}"+al+":num y:liveList{v a:w}}")
	sym.Assume(al != "x" && al != "y")
	w := selWant(0, sel{name: "liveList"})
	sym.Assert(!r.failed() && r.raw == "{\"data\":{\"x\":"+w+",\""+al+"\":-7,\"y\":"+w+"}}", "a list is not answered element by element")
	sym.Cover("mirrored")
}

// Run_C07_alias: aliases of every length that can be written.
func Run_C07_alias(st *selState) {
	lens := []int{1, 2, 3, 63, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 513, 600}
	n := lens[sym.Choose(len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	t := symName(1)
	al := string(b[1:]) + t
	pick := []sel{{"num", "", "-7"}, {"leaf", "{v w}", leafWant(1, "leaf")}, {"arg", "(n:3)", "3"}}
	s := pick[sym.Choose(3)]
	var r *resp
	want := "{\"data\":{\"str\":\"str\",\"" + al + "\":" + s.want + ",\"list\":[{\"v\":3},{\"v\":4}]}}"
	if sym.Bool() {
		// a name, not an alias, of that length exists nowhere
		r = exec(st.s, "{str "+al+" list{v}}")
		sym.Assert(r.failed(), "an unknown long name was answered")
		sym.Cover("rejected")
		return
	}
	r = exec(st.s, "{str "+al+":"+s.name+s.rest+" list{v}}")
	if r.failed() {
		sym.Assert(n > 254, "an alias was refused")
		sym.Cover("rejected")
		return
	}
	sym.Assert(r.raw == want, "the answer does not mirror the selection")
	sym.Cover("mirrored")
}
