package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type ImplA interface{ ResolveA() string }
type ImplB interface{ ResolveB() string }
type ImplE interface{}
type implU interface{ ResolveA() string }
type ImplOne struct{ N int }
type ImplTwo struct{ N int }
type ImplInt int
type ImplPtr struct{ N int }
type ImplQ struct {
	A  ImplA
	L  []ImplA
	B  *ImplB
	Fn func() ImplA
}

func (ImplOne) ResolveA() string  { return "one" }
func (ImplTwo) ResolveA() string  { return "two" }
func (ImplTwo) ResolveB() string  { return "b" }
func (ImplInt) ResolveA() string  { return "int" }
func (*ImplPtr) ResolveA() string { return "ptr" }

// implDone are the accepted registrations of this process, which outlive a schema.
var implDone [4][2]bool

// Run_C34_implements: whatever is registered as implementation of whatever is accepted exactly if the first is a pointer to a named interface and the second a named struct that has its methods, and refused with a panic otherwise, leaving no trace: the schema lists and serves exactly the accepted ones, each once, however often they were registered. Bounds: 12 interfaces, 12 types, before or after the registrations that the schema needs, once or twice.
func Run_C34_implements() {
	ifaces := []interface{}{
		(*ImplA)(nil), (*ImplB)(nil), (*implU)(nil), (*ImplE)(nil),
		nil, (*interface{ ResolveA() string })(nil), (*interface{})(nil), ImplA(ImplOne{}), (**ImplA)(nil), (*ImplOne)(nil), 1, (*error)(nil),
	}
	types := []interface{}{
		ImplOne{}, ImplTwo{}, ImplPtr{}, struct{ ImplOne }{}, struct{}{}, ImplInt(1), &ImplOne{}, (*ImplOne)(nil), (*ImplPtr)(nil), nil, "x", []ImplOne{},
	}
	i, t := sym.Choose(len(ifaces)), sym.Choose(len(types))
	ok := false
	switch i {
	case 0, 2:
		ok = t < 2
	case 1:
		ok = t == 1
	case 3:
		ok = t < 3
	}
	when := sym.Choose(3)
	need := func() {
		yarql.Implements((*ImplA)(nil), ImplOne{})
		yarql.Implements((*ImplB)(nil), ImplTwo{})
	}
	if when == 1 {
		need()
	}
	for n := 0; n < 2; n++ {
		panicked := try(func() {
			sym.Assert(yarql.Implements(ifaces[i], types[t]), "an implementation is neither accepted nor refused")
		})
		sym.Assert(panicked != ok, "something that is no implementation is accepted, or the other way around")
		if when == 2 {
			break
		}
	}
	need()
	s := build(ImplQ{A: ImplOne{1}, L: []ImplA{ImplOne{1}, ImplTwo{2}, ImplInt(3), &ImplPtr{4}}, Fn: func() ImplA { return ImplOne{} }}, NoM{})
	if ok && t < 2 {
		implDone[i][t] = true
	}
	two := implDone[0][1]
	r := exec(s, "{a{a...on ImplOne{n}}l{__typename a}fn{a}b{b}}")
	want := "{\"a\":{\"a\":\"one\",\"n\":1},\"l\":[{\"__typename\":\"ImplOne\",\"a\":\"one\"},"
	if two {
		want += "{\"__typename\":\"ImplTwo\",\"a\":\"two\"}"
	} else {
		want += "null"
	}
	sym.Assert(r.data.String() == want+",null,null],\"fn\":{\"a\":\"one\"},\"b\":null}", "an interface value is answered differently")
	l := exec(s, "{a:__type(name:\"ImplA\"){possibleTypes{name}}b:__type(name:\"ImplB\"){possibleTypes{name}}one:__type(name:\"ImplOne\"){interfaces{name}}two:__type(name:\"ImplTwo\"){interfaces{name}}}").data
	names := func(v *jv) string {
		s := ""
		for _, n := range []string{"ImplA", "ImplB", "ImplE", "implU", "ImplOne", "ImplTwo", "ImplPtr", "ImplInt"} {
			for _, x := range v.list() {
				if x.get("name").isStr(n) {
					s += n + " "
				}
			}
		}
		return s + itoa(len(v.list()))
	}
	wa := "ImplOne 1"
	if two {
		wa = "ImplOne ImplTwo 2"
	}
	of := [2]string{}
	for t := range of {
		n := 0
		for i, name := range []string{"ImplA ", "ImplB ", "ImplE ", "implU "} {
			if implDone[[]int{0, 1, 3, 2}[i]][t] || i == t {
				of[t] += name
				n++
			}
		}
		of[t] += itoa(n)
	}
	sym.Assert(names(l.get("a").get("possibleTypes")) == wa && names(l.get("b").get("possibleTypes")) == "ImplTwo 1", "an interface lists other implementations")
	sym.Assert(names(l.get("one").get("interfaces")) == of[0] && names(l.get("two").get("interfaces")) == of[1], "a type lists other interfaces")
	if ok {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}
