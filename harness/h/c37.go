package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// sameState are schemas built in the given order of maps.
type sameState struct{ wild, shapes *yarql.Schema }

func Setup_same() *sameState { return &sameState{buildWild(), shSchema()} }

// sameRequest is a request of one of the kinds that are asked.
func sameRequest() request {
	switch sym.Choose(3) {
	case 0:
		return probes[sym.Choose(len(probes))]
	case 1:
		return request{q: "{__type(name:\"W" + sym.StrOf(1, "QEIOM") + "\"){name kind fields{name type{name}args{name}}inputFields{name}enumValues{name}possibleTypes{name}interfaces{name}}}"}
	}
	fs := [][2]string{{"{", " b{a}}"}, {"{m(p:[X ", "])}"}, {"{b{...on W", "Obj{a}}}"}, {"{e@skip(if:", ")a}"}, {"{i{n ...on WImpl", "{a}}}"}}
	f := fs[sym.Choose(len(fs))]
	return request{q: f[0] + sym.UpTo(0, 1) + f[1]}
}

// Run_C37_build: a schema built with the maps of Go in any order answers like another one. Bounds: two schemas with types of every kind; every place of the library that goes through a map while building does so forwards or backwards; requests of 16 kinds, questions for types, 5 frames with 0..1 bytes of any value.
func Run_C37_build(st *sameState) {
	sym.MapOrder(true)
	s := buildWild()
	sym.MapOrder(sym.Tier() > 0)
	(&pair{s, st.wild}).ask(sameRequest(), "the order of maps changes an answer")
	sym.MapOrder(false)
	sym.Cover("same")
}

// Run_C37_copy: a schema copied, and asked, with the maps of Go in any order.
func Run_C37_copy(st *sameState) {
	s := buildWild()
	sym.MapOrder(true)
	s = s.Copy()
	if sym.Tier() == 0 {
		sym.MapOrder(false)
	}
	(&pair{s, st.wild}).ask(sameRequest(), "the order of maps changes an answer")
	sym.MapOrder(false)
	sym.Cover("same")
}

// Run_C37_all: introspection of everything, after building, copying or asking with the maps of Go in any order (thorough: after all of them).
func Run_C37_all(st *sameState) {
	on := sym.Choose(3)
	ref := st.wild
	if on == 0 || sym.Tier() > 0 {
		sym.MapOrder(true)
	}
	var s *yarql.Schema
	if sym.Bool() {
		s = buildWild()
	} else {
		s, ref = shSchema(), st.shapes
	}
	sym.MapOrder(on == 1 || sym.Tier() > 0)
	if on == 1 {
		s = s.Copy()
	}
	sym.MapOrder(on == 2 || sym.Tier() > 0)
	a := exec(s, introspectAll)
	sym.MapOrder(false)
	b := exec(ref, introspectAll)
	sym.Assert(!b.failed() && a.raw == b.raw, "the order of maps changes the introspection")
	sym.Cover("same")
}

// dirsSchema has directives of every place, registered in the given order, of which two share their name at different places.
func dirsSchema() *yarql.Schema {
	s := yarql.NewSchema()
	reg := func(name string, m interface{}, where ...yarql.DirectiveLocation) {
		if err := s.RegisterDirective(yarql.Directive{Name: name, Where: where, Method: m, Description: "of " + name}); err != nil {
			panic(err.Error())
		}
	}
	no := func() yarql.DirectiveModifier { return yarql.DirectiveModifier{} }
	s1 := func(a struct {
		S, T string
		B    []int
	}) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{Skip: a.S == "x"}
	}
	n1 := func(a struct{ N int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{Skip: a.N > 0} }
	reg("zulu", s1, yarql.DirectiveLocationField)
	reg("both", s1, yarql.DirectiveLocationFragmentInline)
	reg("mike", n1, yarql.DirectiveLocationFragmentInline, yarql.DirectiveLocationFragment)
	reg("both", n1, yarql.DirectiveLocationField, yarql.DirectiveLocationFragment)
	reg("alfa", no, yarql.DirectiveLocationFragment)
	reg("kilo", n1, yarql.DirectiveLocationFragment, yarql.DirectiveLocationField, yarql.DirectiveLocationFragmentInline)
	return parse(s, RegQ{A: "a"}, NoM{})
}

type dirsState struct{ s *yarql.Schema }

func Setup_dirs() *dirsState { return &dirsState{dirsSchema()} }

// Run_C37_dirs: directives of every place, two of one name, in a schema that is built, copied or asked with the maps of Go in any order: introspection and requests that use them are answered the same.
func Run_C37_dirs(st *dirsState) {
	on := sym.Choose(3)
	q := "{__schema{directives{name description locations args{name type{kind name ofType{name}}}}}}"
	if sym.Bool() {
		n := []string{"zulu(s:\"x\")", "both(n:1)", "both(s:\"x\")", "mike(n:1)", "mike(n:0)", "alfa", "kilo(n:1)"}[sym.Choose(7)]
		q = []string{"{a@" + n + " e}", "{...on RegQ@" + n + "{a}e}", "{...F@" + n + " e}fragment F on RegQ{a}"}[sym.Choose(3)]
	}
	sym.MapOrder(on == 0)
	s := dirsSchema()
	sym.MapOrder(on == 1)
	if on == 1 {
		s = s.Copy()
	}
	sym.MapOrder(on == 2)
	a := exec(s, q)
	sym.MapOrder(false)
	b := exec(st.s, q)
	sym.Assert(a.raw == b.raw, "the order of maps changes an answer")
	sym.Cover("same")
}
