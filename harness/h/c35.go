package h

import (
	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/tester"

	"yarqlverif/harness/sym"
)

// tsType is a type of the schema as its Go declaration says.
type tsType struct {
	name, kind string
	fields     []string
}

// tsTypes are the types of buildWild.
var tsTypes = []tsType{
	{"WQ", "OBJECT", []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "o", "p", "r", "m", "n", "s", "t"}},
	{"WM", "OBJECT", []string{"a", "b"}},
	{"WObj", "OBJECT", []string{"a", "b", "c", "i", "m"}},
	{"WImpl", "OBJECT", []string{"a", "b", "n"}},
	{"WImpl2", "OBJECT", []string{"a", "i", "n"}},
	{"WI", "INTERFACE", []string{"n"}},
	{"WIn", "INPUT_OBJECT", nil},
	{"WEnum", "ENUM", nil},
	{"String", "SCALAR", nil},
	{"Int", "SCALAR", nil},
	{"Float", "SCALAR", nil},
	{"Boolean", "SCALAR", nil},
	{"ID", "SCALAR", nil},
	{"Time", "SCALAR", nil},
	{"File", "SCALAR", nil},
}

// tsGone are names of Go types that are no types of the schema.
var tsGone = []string{"WArgs", "WImpl3", "wKey", "WQ ", "[WObj]", "WObj!", "", "Query", "wObj", "RegEnum", "a\"b", "\\u0057Q", "WQ\x00", "W\xffQ", "__WQ"}

// Setup_tester: the schema of buildWild.
type tsState struct{ s *yarql.Schema }

func Setup_tester() *tsState { return &tsState{buildWild()} }

func tsFind(name string) *tsType {
	for i := range tsTypes {
		if tsTypes[i].name == name {
			return &tsTypes[i]
		}
	}
	return nil
}

func tsHas(l []string, f string) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}
	return false
}

// mutated is a word with a byte of any value in place of one, added or left out.
func mutated(w string) string {
	b := []byte(w)
	switch k := sym.Choose(4); {
	case k == 1 && len(b) > 0:
		b[sym.Choose(len(b))] = sym.Byte()
	case k == 2:
		b = append(b, sym.Byte())
	case k == 3 && len(b) > 0:
		i := sym.Choose(len(b))
		b = append(b[:i], b[i+1:]...)
	}
	return string(b)
}

// Run_C35_type: a type is found, with its kind and fields, exactly if the schema has one of that name. Bounds: the 15 types of a schema and 15 names that are none, each with a byte of any value replaced, added or left out, and names of 0..2 (thorough 3) bytes of any value; after a request that answered, failed or was cached.
func Run_C35_type(st *tsState) {
	var name string
	switch sym.Choose(3) {
	case 0:
		name = mutated(tsTypes[sym.Choose(len(tsTypes))].name)
	case 1:
		name = tsGone[sym.Choose(len(tsGone))]
		if sym.Tier() > 0 {
			name = mutated(name)
		}
	default:
		name = sym.UpTo(0, 2+sym.Tier())
	}
	// names of the introspection itself are types as well
	sym.Assume(len(name) < 2 || name[0] != '_' || name[1] != '_')
	switch sym.Choose(4) {
	case 1:
		exec(st.s, "query($typename:Int=3){m(b:$typename)}")
	case 2:
		exec(st.s, "{a zz")
	case 3:
		st.s.SetCacheRules(min1(0))
		tester.HasType(st.s, "WObj")
	}
	want := tsFind(name)
	got := tester.GetTypeByName(st.s, name)
	sym.Assert((got != nil) == (want != nil), "a type is found that is none, or the other way around")
	sym.Assert(tester.HasType(st.s, name) == (want != nil), "HasType is wrong")
	kind := tester.TypeKind(st.s, name)
	if want == nil {
		sym.Assert(kind == "", "a type that is none has a kind")
		sym.Assert(tester.HasFields(st.s, name, nil) != nil && tester.OnlyHasFields(st.s, name, nil) != nil, "a type that is none has fields")
		sym.Cover("none")
		return
	}
	sym.Assert(kind == want.kind && got.Kind == want.kind, "a type has another kind")
	sym.Assert(len(got.Fields) == len(want.fields), "a type has other fields")
	for _, f := range got.Fields {
		sym.Assert(tsHas(want.fields, f.Name), "a type has other fields")
	}
	ok := want.fields != nil
	sym.Assert((tester.HasFields(st.s, name, nil) == nil) == ok, "HasFields accepts what has no fields")
	sym.Assert((tester.HasFields(st.s, name, want.fields) == nil) == ok, "HasFields is wrong")
	sym.Assert((tester.OnlyHasFields(st.s, name, want.fields) == nil) == ok, "OnlyHasFields is wrong")
	sym.Assert(tester.OnlyHasFields(st.s, name, nil) != nil, "OnlyHasFields ignores fields")
	sym.Cover(want.kind)
}

// Run_C35_fields: HasFields accepts exactly the lists of names that are all fields, OnlyHasFields exactly those that name all of them. Bounds: the fields of each of the 6 types in order or in reverse, one left out, one twice, one with a byte of any value replaced, added or left out, or a name of 0..2 bytes of any value put in front or behind.
func Run_C35_fields(st *tsState) {
	t := tsTypes[sym.Choose(6)]
	var l []string
	l = append(l, t.fields...)
	if sym.Bool() {
		for i := range t.fields {
			l[len(l)-1-i] = t.fields[i]
		}
	}
	pick := func() int {
		if len(l) < 5 || sym.Tier() > 0 {
			return sym.Choose(len(l))
		}
		return []int{0, 1, len(l) / 2, len(l) - 1}[sym.Choose(4)]
	}
	switch sym.Choose(7) {
	case 0:
	case 1:
		i := pick()
		l = append(l[:i:i], l[i+1:]...)
	case 2:
		l = append(l, l[pick()])
	case 3:
		i := pick()
		l[i] = mutated(l[i])
	case 4:
		l = append(l, sym.UpTo(0, 1+sym.Tier()))
	case 5:
		l = append([]string{sym.UpTo(0, 2)}, l...)
	default:
		l = []string{mutated(l[pick()])}
	}
	all, only := true, true
	for _, f := range l {
		if !tsHas(t.fields, f) {
			all = false
		}
	}
	for _, f := range t.fields {
		if !tsHas(l, f) {
			only = false
		}
	}
	sym.Assert((tester.HasFields(st.s, t.name, l) == nil) == all, "HasFields is wrong")
	sym.Assert((tester.OnlyHasFields(st.s, t.name, l) == nil) == (all && only), "OnlyHasFields is wrong")
	switch {
	case all && only:
		sym.Cover("all")
	case all:
		sym.Cover("some")
	default:
		sym.Cover("others")
	}
}

// Run_C35_answer: the answer of a request is the same whether the tester was asked before it or not, and the tester leaves no trace in the next answer. Bounds: the framed documents of C02 with 0..1 bytes of any value.
func Run_C35_answer(p *pair) {
	f := c02frames[sym.Choose(len(c02frames))]
	q := f[0] + sym.UpTo(0, 1) + f[1]
	tester.OnlyHasFields(p.used, []string{"WObj", "WEnum", "Nope"}[sym.Choose(3)], []string{"a"})
	p.ask(request{q: q, vars: "{\"a\":[1]}"}, "asking the tester changes an answer")
	sym.Cover("same")
}
