package h

import (
	"errors"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the interface checks.

type IfA interface{ ResolveName() string }

// IfB is another interface that shares an implementation.
type IfB interface {
	ResolveName() string
	ResolveNext() IfA
}

type IfOne struct{ X string }

func (o IfOne) ResolveName() string { return "1" + o.X }

type IfTwo struct {
	Y  int8
	X  string
	N  IfA
	L  []IfA
	as string
}

func (o IfTwo) ResolveName() string { return "2" + o.X }
func (o IfTwo) ResolveNext() IfA    { return o.N }

// IfThree has the fields of IfTwo in another order and another name in GraphQL.
type IfThree struct {
	L []IfB
	X string
	N *IfOne
}

func (o IfThree) ResolveName() string { return "3" + o.X }
func (o IfThree) ResolveNext() IfA {
	if o.N == nil {
		return nil
	}
	return *o.N
}

// IfOther implements both and is not registered.
type IfOther struct{ X string }

func (o IfOther) ResolveName() string { return "SECRET" + o.X }
func (o IfOther) ResolveNext() IfA    { return o }

// ifNamed has the methods for types that are declared in functions.
type ifNamed struct{}

func (ifNamed) ResolveName() string { return "SECRET" }
func (ifNamed) ResolveNext() IfA    { return nil }

// ifNamesake is a value of an unregistered type with the name of a registered one.
func ifNamesake(x string) IfB {
	type IfOne struct {
		ifNamed
		X string
	}
	return IfOne{X: x}
}

type IfQ struct{}

var ifOne IfA
var ifTwo IfB
var ifList []IfA

type IfHold struct {
	V  IfA
	W  IfB
	L  []IfA
	LL [][]IfA `gq:"ll"`
	M  []IfB
}

func (IfQ) ResolveV() IfA          { return ifOne }
func (IfQ) ResolveW() (IfB, error) { return ifTwo, nil }
func (IfQ) ResolveL() []IfA        { return ifList }
func (IfQ) ResolveE() (IfA, error) { return ifOne, errors.New("failed") }
func (IfQ) ResolveH() *IfHold {
	return &IfHold{V: ifOne, W: ifTwo, L: ifList, LL: [][]IfA{ifList, nil, {ifOne}}, M: []IfB{ifTwo, nil}}
}

type ifState struct{ s *yarql.Schema }

func Setup_if() *ifState {
	yarql.Implements((*IfA)(nil), IfOne{})
	yarql.Implements((*IfA)(nil), IfTwo{})
	yarql.Implements((*IfA)(nil), IfThree{})
	yarql.Implements((*IfB)(nil), IfTwo{})
	yarql.Implements((*IfB)(nil), IfThree{})
	yarql.TypeRename(IfThree{}, "Drei")
	return &ifState{build(IfQ{}, NoM{})}
}

// ifValue chooses what is behind an interface.
func ifValue(depth int, x string) IfA {
	n := 5
	if depth == 0 {
		n = 4
	}
	switch sym.Choose(n) {
	case 0:
		return nil
	case 1:
		return IfOne{x}
	case 2:
		if depth == 0 {
			return ifNamesake(x)
		}
		return IfOther{x}
	case 3:
		return IfThree{X: x, L: []IfB{IfThree{X: x}, nil, IfOther{}}, N: &IfOne{x}}
	}
	return IfTwo{X: x, Y: -3, N: ifValue(depth-1, x), L: []IfA{nil, ifValue(depth-1, x)}, as: "SECRET"}
}

func ifSecond(x string) IfB {
	switch sym.Choose(4) {
	case 0:
		return nil
	case 1:
		return IfTwo{X: x, Y: 5, N: IfThree{X: x}}
	case 2:
		return IfOther{x}
	}
	return IfThree{X: x}
}

// ifItem is one item of a selection with what it adds for a value.
type ifItem struct {
	q   string
	add func(v IfA, o *jv)
}

func str(s string) *jv { return &jv{k: 's', s: s} }
func null() *jv        { return &jv{k: 'n'} }

func (o *jv) set(k string, v *jv) { o.keys, o.vals = append(o.keys, k), append(o.vals, v) }

func ifType(v IfA) string {
	switch v.(type) {
	case IfOne:
		return "IfOne"
	case IfTwo:
		return "IfTwo"
	case IfThree:
		return "Drei"
	}
	return ""
}

// ifWant is the answer for a value behind an interface.
func ifWant(v IfA, items []ifItem) *jv {
	if v == nil || ifType(v) == "" {
		return null()
	}
	o := &jv{k: 'o'}
	for _, it := range items {
		it.add(v, o)
	}
	return o
}

func ifSel(items []ifItem) string {
	q := "{"
	for _, it := range items {
		q += it.q + " "
	}
	return q + "}"
}

const ifFrags = " fragment One on IfOne{f1:x f2:name} fragment Drei on Drei{f3:x} fragment Two on IfTwo{f4:x ...T2} fragment T2 on IfTwo{f5:y} fragment IfOne on IfTwo{f6:y}"

func ifItems() []ifItem {
	tn := ifItem{"t:__typename", func(v IfA, o *jv) { o.set("t", str(ifType(v))) }}
	name := ifItem{"name", func(v IfA, o *jv) { o.set("name", str(v.ResolveName())) }}
	one := func(f func(x IfOne, o *jv)) func(v IfA, o *jv) {
		return func(v IfA, o *jv) {
			if x, ok := v.(IfOne); ok {
				f(x, o)
			}
		}
	}
	two := func(f func(x IfTwo, o *jv)) func(v IfA, o *jv) {
		return func(v IfA, o *jv) {
			if x, ok := v.(IfTwo); ok {
				f(x, o)
			}
		}
	}
	three := func(f func(x IfThree, o *jv)) func(v IfA, o *jv) {
		return func(v IfA, o *jv) {
			if x, ok := v.(IfThree); ok {
				f(x, o)
			}
		}
	}
	sub := []ifItem{tn, name}
	return []ifItem{
		tn,
		name,
		{"...on IfOne{x}", one(func(x IfOne, o *jv) { o.set("x", str(x.X)) })},
		{"...on IfTwo{z:x y}", two(func(x IfTwo, o *jv) { o.set("z", str(x.X)); o.set("y", &jv{k: '0', s: itoa(int(x.Y))}) })},
		{"...on Drei{x1:x}", three(func(x IfThree, o *jv) { o.set("x1", str(x.X)) })},
		{"...One", one(func(x IfOne, o *jv) { o.set("f1", str(x.X)); o.set("f2", str("1"+x.X)) })},
		{"...Two", two(func(x IfTwo, o *jv) { o.set("f4", str(x.X)); o.set("f5", &jv{k: '0', s: itoa(int(x.Y))}) })},
		{"...Drei", three(func(x IfThree, o *jv) { o.set("f3", str(x.X)) })},
		{"...IfOne", two(func(x IfTwo, o *jv) { o.set("f6", &jv{k: '0', s: itoa(int(x.Y))}) })},
		{"...on IfThree{n0:name}", func(v IfA, o *jv) {}},
		{"...on IfOther{n1:name}", func(v IfA, o *jv) {}},
		{"...on IfTwo{n{t:__typename name}}", two(func(x IfTwo, o *jv) { o.set("n", ifWant(x.N, sub)) })},
		{"...on IfTwo{l{t:__typename name} n2:next{name}}", two(func(x IfTwo, o *jv) {
			l := &jv{k: 'a'}
			if x.L == nil {
				l = null()
			}
			for _, e := range x.L {
				l.vals = append(l.vals, ifWant(e, sub))
			}
			o.set("l", l)
			o.set("n2", ifWant(x.N, sub[1:]))
		})},
		{"...on Drei{l3:l{name t:__typename} n3:n{x} n4:next{t:__typename}}", three(func(x IfThree, o *jv) {
			l := &jv{k: 'a'}
			if x.L == nil {
				l = null()
			}
			for _, e := range x.L {
				l.vals = append(l.vals, ifWant(e, []ifItem{name, tn}))
			}
			o.set("l3", l)
			if x.N == nil {
				o.set("n3", null())
				o.set("n4", null())
				return
			}
			n := &jv{k: 'o'}
			n.set("x", str(x.N.X))
			o.set("n3", n)
			o.set("n4", ifWant(*x.N, sub[:1]))
		})},
	}
}

func ifSelection(max int) []ifItem {
	all := ifItems()
	items := []ifItem{all[sym.Choose(2)]}
	for i := 1; i < max; i++ {
		k := sym.Choose(len(all))
		if k > 1 || i > 1 {
			for _, it := range items {
				if it.q == all[k].q {
					sym.Assume(false)
				}
			}
			items = append(items, all[k])
		} else if all[k].q != items[0].q {
			items = append(items, all[k])
		}
	}
	return items
}

// Run_C28_value: every value behind an interface (nil, three registered types of which one is renamed, an unregistered one, nested twice) and every selection of up to three items (names, typename, inline and named fragments on each type): exactly the fields of the own type, from a method, a method with error, and members of a struct.
func Run_C28_value(st *ifState) {
	x := sym.StrOf(1, "vw")
	ifOne, ifTwo, ifList = ifValue(1+sym.Tier(), x), nil, nil
	items := ifSelection(3)
	sel := ifSel(items)
	place := sym.Choose(2)
	var r *resp
	var got *jv
	if place == 0 {
		r = exec(st.s, "{v"+sel+"z:__typename}"+ifFrags)
		got = r.data.get("v")
	} else {
		r = exec(st.s, "{h{b:v"+sel+"}z:__typename}"+ifFrags)
		got = r.data.get("h").get("b")
	}
	sym.Assert(!r.failed(), "a query over interfaces fails")
	want := ifWant(ifOne, items)
	sym.Assert(got != nil && got.String() == want.String(), "a value behind an interface is answered wrong")
	sym.Assert(r.data.get("z").isStr("IfQ") && len(r.data.keys) == 2, "the selection behind the interface is lost")
	sym.Cover("k" + string([]byte{want.k}) + ifType(ifOne))
}

// Run_C28_list: lists of two or three values behind one interface, one behind another, nested lists and failing resolvers, with the same selection for all of them.
func Run_C28_list(st *ifState) {
	x := sym.StrOf(1, "vw")
	ifOne, ifTwo = ifValue(0, x), ifSecond(x)
	ifList = []IfA{ifValue(0, x), ifValue(sym.Tier(), x)}
	items := ifSelection(2)
	sel := ifSel(items)
	r := exec(st.s, "{l"+sel+"w"+sel+"h{ll"+sel+"m"+sel+"}v"+sel+"}"+ifFrags)
	sym.Assert(!r.failed(), "a query over interfaces fails")
	l := &jv{k: 'a'}
	for _, e := range ifList {
		l.vals = append(l.vals, ifWant(e, items))
	}
	w := ifWant(ifTwo, items)
	v := ifWant(ifOne, items)
	sym.Assert(r.data.get("l").String() == l.String(), "a list of interfaces is answered wrong")
	sym.Assert(r.data.get("w").String() == w.String(), "a value behind another interface is answered wrong")
	sym.Assert(r.data.get("h").get("ll").String() == "["+l.String()+",null,["+v.String()+"]]", "a list of lists of interfaces is answered wrong")
	sym.Assert(r.data.get("h").get("m").String() == "["+w.String()+",null]", "a list of another interface is answered wrong")
	sym.Assert(r.data.get("v").String() == v.String(), "the selection behind the lists is answered wrong")
	sym.Cover("list")
}

// Run_C28_cond: a fragment with a condition of a symbolic type name contributes exactly if it is the name of the own type.
func Run_C28_cond(st *ifState) {
	names := []string{"IfOne", "IfTwo", "Drei"}
	n := []byte(names[sym.Choose(3)])
	switch sym.Choose(4) {
	case 0:
		n[sym.Choose(len(n))] = sym.Byte()
	case 1:
		n = append(n, sym.Byte())
	case 2:
		n = n[:len(n)-1]
	}
	for _, c := range n {
		sym.Assume(nameByte(c))
	}
	sym.Assume(n[0] > '9')
	name := string(n)
	sym.Assume(name != "IfA" && name != "IfB")
	ifOne = ifValue(1, "v")
	sym.Assume(ifOne != nil)
	own := ifType(ifOne)
	for i := 0; i < 2; i++ {
		q := "{v{name ...on " + name + "{y:name}a:name}}"
		if i == 1 {
			q = "{v{name ...F a:name}}fragment F on " + name + "{y:name}"
		}
		r := exec(st.s, q)
		sym.Assert(!r.failed(), "a query over interfaces fails")
		d := r.data.get("v")
		if own == "" {
			sym.Assert(d.isNull(), "an unregistered implementation is answered")
			continue
		}
		nm := ifOne.ResolveName()
		sym.Assert(d.get("name").isStr(nm) && d.get("a").isStr(nm), "the selection around a fragment is lost")
		if name == own {
			sym.Assert(d.get("y").isStr(nm), "a fragment on the own type is not applied")
			sym.Cover("applied")
		} else {
			sym.Assert(d.get("y") == nil, "a fragment on another type is applied")
			sym.Cover("not applied")
		}
	}
}

// Run_C28_fail: a failing resolver of an interface gives null and one error, whatever value it returned besides; fields of other types are errors.
func Run_C28_fail(st *ifState) {
	ifOne = ifValue(0, "v")
	r := exec(st.s, "{e{name}v{t:__typename}}")
	sym.Assert(len(r.errs) == 1 && r.errs[0].Error() == "failed", "the error of a resolver is lost")
	sym.Assert(r.data.get("e").isNull(), "a failed resolver is answered")
	if t := ifType(ifOne); t != "" {
		sym.Assert(r.data.get("v").get("t").isStr(t), "a value behind an interface is answered wrong")
		f := []string{"y", "as2", "x", "resolveName", "SECRET"}[sym.Choose(5)]
		r = exec(st.s, "{v{"+f+"}}")
		if f == "x" {
			sym.Assert(!r.failed() && r.data.get("v").get("x").isStr("v"), "a field of the own type is refused")
		} else if f != "y" || t != "IfTwo" {
			sym.Assert(r.failed(), "a field of another type is answered")
		}
		sym.Cover("answered")
	} else {
		sym.Assert(r.data.get("v").isNull(), "an unregistered implementation is answered")
		sym.Cover("null")
	}
}

// Run_C28_pointer: a pointer behind an interface (nil or not, registered type or not) is null or answered as the value it points to, and never changes what is next to it.
func Run_C28_pointer(st *ifState) {
	x := sym.StrOf(1, "vw")
	var val IfA
	null1 := false
	switch sym.Choose(5) {
	case 0:
		ifOne, val = &IfOne{x}, IfOne{x}
	case 1:
		ifOne, val = &IfTwo{X: x, L: []IfA{&IfOne{x}}}, IfTwo{X: x, L: []IfA{IfOne{x}}}
	case 2:
		ifOne, null1 = (*IfOne)(nil), true
	case 3:
		ifOne, null1 = (*IfTwo)(nil), true
	default:
		ifOne, null1 = &IfOther{x}, true
	}
	ifList = []IfA{ifOne, IfOne{x}, ifOne}
	ifTwo = nil
	items := ifItems()[:2]
	sel := ifSel(items)
	r := exec(st.s, "{v"+sel+"l"+sel+"h{ll"+sel+"}w"+sel+"}")
	sym.Assert(!r.failed(), "a query over interfaces fails")
	one := ifWant(IfOne{x}, items).String()
	got := r.data.get("v")
	sym.Assert(got.isNull() || !null1 && got.String() == ifWant(val, items).String(), "a pointer behind an interface is answered wrong")
	l := "[" + got.String() + "," + one + "," + got.String() + "]"
	sym.Assert(r.data.get("l").String() == l && r.data.get("h").get("ll").String() == "["+l+",null,["+got.String()+"]]", "a pointer in a list of interfaces changes the others")
	sym.Assert(r.data.get("w").isNull(), "nil behind an interface is not null")
	sym.Cover("pointer")
}

// The types of Run_C28_global: nothing of them is registered before a run.

type GiA interface{ ResolveA() string }
type GiB interface {
	ResolveA() string
	ResolveB() GiA
}
type GiC interface {
	ResolveB() GiA
	ResolveC() []GiA
}
type GiD interface {
	ResolveA() string
	ResolveC() []GiA
	ResolveE() int
}

type GtX struct{ N string }

func (o GtX) ResolveA() string { return "x" + o.N }
func (o GtX) ResolveB() GiA    { return o }
func (o GtX) ResolveC() []GiA  { return []GiA{o, GtY{o.N}} }
func (o GtX) ResolveE() int    { return 1 }

type GtY struct{ M string }

func (o GtY) ResolveA() string { return "y" + o.M }
func (o GtY) ResolveB() GiA    { return GtX{o.M} }
func (o GtY) ResolveC() []GiA  { return nil }
func (o GtY) ResolveE() int    { return 2 }

type GiQ struct {
	A GiA
	B GiB
	C GiC
	D GiD
	X GtX
}

// Run_C28_global: two types implement up to four interfaces of one to three methods each, registered one after the other in any order: every registered pair answers with the own fields of the type, every other one with null, whatever else is registered and in which order.
func Run_C28_global() {
	has := [2][4]bool{}
	reg := func(typ, k int) {
		has[typ][k] = true
		var v interface{} = GtX{}
		if typ == 1 {
			v = GtY{}
		}
		switch k {
		case 0:
			yarql.Implements((*GiA)(nil), v)
		case 1:
			yarql.Implements((*GiB)(nil), v)
		case 2:
			yarql.Implements((*GiC)(nil), v)
		default:
			yarql.Implements((*GiD)(nil), v)
		}
	}
	// every interface has an implementation
	first := sym.Choose(2)
	left := []int{0, 1, 2, 3}
	var second []int
	for len(left) > 0 {
		i := 0
		if len(left) > 1 {
			i = sym.Choose(len(left))
		}
		k := left[i]
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
		switch sym.Choose(3 + sym.Tier()) {
		case 0:
			reg(first, k)
		case 1:
			reg(1-first, k)
			second = append(second, k)
		case 3:
			reg(first, k)
			reg(1-first, k)
		default:
			reg(first, k)
			second = append(second, k)
		}
	}
	for _, k := range second {
		reg(1-first, k)
	}
	v := sym.StrOf(1, "vw")
	val := sym.Choose(2)
	q := GiQ{X: GtX{v}}
	if val == 0 {
		x := GtX{v}
		q.A, q.B, q.C, q.D = x, x, x, x
	} else {
		y := GtY{v}
		q.A, q.B, q.C, q.D = y, y, y, y
	}
	s := yarql.NewSchema()
	err := s.Parse(q, NoM{}, nil)
	sym.Assert(err == nil, "registered implementations are refused")
	one := func(typ, k int, ok, bad string) string {
		if has[typ][k] {
			sym.Cover("registered")
			return ok
		}
		sym.Cover("not registered")
		return bad
	}
	tn := []string{"GtX", "GtY"}[val]
	t := "xy"[val:val+1] + v
	own := []string{"\"n\":\"" + v + "\"", "\"m\":\"" + v + "\""}[val]
	a := func(typ int) string {
		return one(typ, 0, "{\"__typename\":\""+tn[:2]+"XY"[typ:typ+1]+"\",\"a\":\""+"xy"[typ:typ+1]+v+"\"}", "null")
	}
	cList := "[" + a(0) + "," + a(1) + "]"
	if val == 1 {
		cList = "null"
	}
	want := "{\"a\":" + one(val, 0, "{\"__typename\":\""+tn+"\",\"a\":\""+t+"\","+own+"}", "null") +
		",\"b\":" + one(val, 1, "{"+own+",\"a\":\""+t+"\",\"b\":"+a(0)+"}", "null") +
		",\"c\":" + one(val, 2, "{\"b\":"+a(0)+",\"c\":"+cList+",\"__typename\":\""+tn+"\"}", "null") +
		",\"d\":" + one(val, 3, "{\"c\":"+cList+","+own+",\"e\":"+itoa(val+1)+",\"a\":\""+t+"\"}", "null") +
		",\"x\":{\"n\":\"" + v + "\",\"a\":\"x" + v + "\",\"e\":1}}"
	frag := "...on GtX{n}...on GtY{m}"
	r := exec(s, "{a{__typename a "+frag+"}b{"+frag+" a b{__typename a}}c{b{__typename a}c{__typename a}__typename}d{c{__typename a}"+frag+" e a}x{n a e}}")
	sym.Assert(!r.failed() && r.data.String() == want, "a value behind an interface is not answered as registered")
}
