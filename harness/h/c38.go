package h

import (
	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// bdSchema is a schema that is not built yet.
func bdSchema() *yarql.Schema {
	yarql.Implements((*bdImpl)(nil), bdImpls{})
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]bdEnum{"ONE": "1", "NONE": ""}); err != nil {
		panic(err)
	}
	return s
}

type bdGood struct {
	A string
	E bdEnum
}

func (bdGood) ResolveB(a struct{ N []int }) int { return len(a.N) }

// bdRefused checks a schema that was refused: requests are answered with an error, and it can be built of other types.
func bdRefused(s *yarql.Schema, q, m interface{}) {
	errs := s.Resolve([]byte("{f a}"), yarql.ResolveOptions{})
	sym.Assert(len(errs) == 1, "a schema that was refused answers requests")
	s.Resolve([]byte("{f a}"), yarql.ResolveOptions{NoMeta: true})
	sym.Assert(string(s.Result) == "{}", "a schema that was refused has data")
	res, errs := s.HandleRequest("POST", noQuery, noForm, func() []byte { return []byte("{\"query\":\"{f a}\"}") }, "application/json", nil)
	v, ok := parseJSON(string(res))
	sym.Debug("response", string(res))
	sym.Debug("errors", errTexts(errs))
	errsListed := v.get("errors")
	sym.Assert(ok && len(errsListed.list()) == 1 && v.get("data").String() == "{}" && len(errs) == 1, "a schema that was refused answers requests")
	sym.Assert(s.Parse(q, m, nil) != nil, "what was refused is accepted the second time")
	sym.Assert(s.Parse(bdGood{A: "x"}, NoM{}, nil) == nil, "after a refusal nothing is accepted anymore")
	r := exec(s, "{a b(n:[1,2]) e w:__type(name:\"bdGood\"){fields{name}}}")
	sym.Assert(r.data.String() == "{\"a\":\"x\",\"b\":2,\"e\":\"NONE\",\"w\":{\"fields\":[{\"name\":\"a\"},{\"name\":\"b\"},{\"name\":\"e\"}]}}", "a schema built after a refusal answers differently")
	sym.Cover("refused")
}

// Run_C38_roles: a Go type of every kind (scalars, times, files, own types, enums, objects, lists, pointers, arrays, interfaces with and without implementations, functions, channels, maps, complex numbers, types that contain themselves in any way) in every role (member, item, result, nested ones, argument, member of an input object, only parameter, ignored, unexported), of queries or mutations: building the schema is refused exactly if the role cannot have it, otherwise its field is listed and can be asked. Bounds: 44 kinds, 22 roles, both roots.
func Run_C38_roles() {
	roles := bdRoles()
	c := roles[sym.Choose(len(roles))]
	mutation := sym.Bool()
	s := bdSchema()
	q, m := c.root, interface{}(NoM{})
	if mutation {
		q, m = bdGood{}, c.root
	}
	sym.Debug("type", c.name)
	err := s.Parse(q, m, nil)
	sym.Assert((err == nil) == c.ok, "a type that cannot be used is accepted, or the other way around")
	if err != nil {
		bdRefused(s, q, m)
		return
	}
	bdAsk(s, c.q, mutation)
	bdAsk(s.Copy(), c.q, mutation)
	sym.Cover("accepted")
}

func bdAsk(s *yarql.Schema, q string, mutation bool) {
	if q != "" {
		if mutation {
			q = "mutation" + q
		}
		r := exec(s, q)
		sym.Assert(len(r.errs) == 0, "a field of an accepted type cannot be asked")
	}
	r := exec(s, "{__schema{types{name kind fields{name type{name kind ofType{name kind ofType{name kind}}}args{name type{name kind ofType{name kind}}}}inputFields{name type{name kind ofType{name kind}}}possibleTypes{name}}}}")
	sym.Assert(len(r.errs) == 0, "the types of an accepted schema cannot be listed")
}

// Run_C38_directives: a type of every kind as argument of a directive. Bounds: 44 kinds.
func Run_C38_directives() {
	c := bdDirs[sym.Choose(len(bdDirs))]
	s := bdSchema()
	err := s.RegisterDirective(yarql.Directive{Name: "d", Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField}, Method: c.f})
	sym.Debug("type", c.name)
	sym.Assert(err == nil, "a directive is refused")
	err = s.Parse(bdGood{A: "x"}, NoM{}, nil)
	sym.Assert((err == nil) == c.ok, "a directive is accepted with an argument of a type that cannot be used, or the other way around")
	if err != nil {
		sym.Assert(s.Parse(bdGood{A: "x"}, NoM{}, nil) != nil, "what was refused is accepted the second time")
		sym.Cover("refused")
		return
	}
	r := exec(s, "{a@d b}")
	sym.Assert(len(r.errs) == 0 && r.data.String() == "{\"a\":\"x\",\"b\":0}", "a directive without its arguments changes the answer")
	sym.Cover("accepted")
}

// Run_C38_shapes: functions of every shape as resolver, as member of a root and of a nested list. Bounds: 41 shapes.
func Run_C38_shapes() {
	c := bdShapes[sym.Choose(len(bdShapes))]
	s := bdSchema()
	sym.Debug("type", c.name)
	err := s.Parse(c.root, NoM{}, nil)
	sym.Assert((err == nil) == c.ok, "a function that cannot be a resolver is accepted, or the other way around")
	if err != nil {
		bdRefused(s, c.root, NoM{})
		return
	}
	r := exec(s, "{a}")
	sym.Assert(len(r.errs) == 0 && r.data.String() == "{\"a\":1}", "a member next to a resolver is answered differently")
	bdAsk(s, "", false)
	sym.Cover("accepted")
}

type bdM0 struct{ A int }

func (bdM0) ResolveA1() string            { return "a1" }
func (bdM0) Resolve() int                 { return 1 }
func (bdM0) Resolvelower() chan int       { return nil }
func (bdM0) Resolvelow() chan int         { return nil }
func (bdM0) Other(map[string]int) float64 { return 1 }
func (bdM0) ResolveURL() string           { return "url" }
func (bdM0) ResolveX() string             { return "x" }
func (bdM0) Resolve_y() string            { return "y" }
func (bdM0) resolveZ() string             { return "z" }
func (*bdM0) ResolvePtr() string          { return "ptr" }
func (b bdM0) ResolveIt(c *yarql.Ctx) (r bdM1, err error) {
	return bdM1{b}, nil
}

type bdM1 struct{ bdM0 }

type bdV1 struct{}

func (bdV1) ResolveV(...int) string { return "" }

type bdV2 struct{}

func (bdV2) ResolveV() {}

type bdV3 struct{}

func (bdV3) ResolveV(int) string { return "" }

type bdV4 struct{}

func (bdV4) ResolveV() (int, string) { return 0, "" }

type bdV5 struct{}

func (bdV5) ResolveV() error { return nil }

type bdV6 struct{}

func (bdV6) ResolveV() map[int]int { return nil }

type bdV7 struct{}

func (bdV7) ResolveV(yarql.Ctx) int { return 1 }

type bdV8 struct{ bdV2 }

type bdV9 struct{}

func (*bdV9) ResolveV() {}

// Run_C38_methods: the methods of a type are resolvers exactly if they are exported, have a value receiver, and their name continues with an upper-case letter after Resolve; a resolver of another shape is refused, an embedded one as well.
func Run_C38_methods() {
	s := bdSchema()
	k := sym.Choose(11)
	if k > 1 {
		q := []interface{}{bdV1{}, bdV2{}, bdV3{}, bdV4{}, bdV5{}, bdV6{}, bdV7{}, bdV8{}, bdV9{}}[k-2]
		err := s.Parse(q, NoM{}, nil)
		sym.Assert((err == nil) == (k == 10), "a method that cannot be a resolver is accepted, or the other way around")
		if err != nil {
			bdRefused(s, q, NoM{})
		}
		return
	}
	var q interface{} = bdM0{5}
	if k == 1 {
		q = bdM1{bdM0{5}}
	}
	sym.Assert(s.Parse(q, NoM{}, nil) == nil, "a type with methods is refused")
	n := sym.UpTo(1, 3)
	fs := []string{"a", "a1", "A1", "uRL", "URL", "url", "x", "X", "_y", "y", "it", "resolve", "resolvelow", "other", "low", "z", "ptr", "Resolve", "ResolveX", "bdM0"}
	if w := sym.Choose(len(fs) + 1); w < len(fs) {
		n = fs[w]
	} else {
		for i := 0; i < len(n); i++ {
			if !(n[i] >= 'a' && n[i] <= 'z' || n[i] >= 'A' && n[i] <= 'Z' || i > 0 && (n[i] >= '0' && n[i] <= '9' || n[i] == '_')) {
				sym.Assume(false)
			}
		}
	}
	sub := ""
	if n == "it" {
		sub = "{A1}"
	}
	r := exec(s, "{"+n+sub+"}")
	want := ""
	switch n {
	case "a":
		if k == 0 {
			want = "{\"a\":5}"
		}
	case "A1":
		want = "{\"A1\":\"a1\"}"
	case "URL":
		want = "{\"URL\":\"url\"}"
	case "x":
		want = "{\"x\":\"x\"}"
	case "X":
		// a name of one letter is lower case
	case "it":
		want = "{\"it\":{\"A1\":\"a1\"}}"
	case "_y":
		want = "{\"_y\":\"y\"}"
	}
	sym.Assert((want != "") == (len(r.errs) == 0), "a method that is no resolver can be asked, or the other way around")
	if want != "" {
		sym.Assert(r.data.String() == want, "a resolver gives another value")
		sym.Cover("resolver")
	} else {
		sym.Cover("none")
	}
}

// Run_C38_tags: a member with every kind of tag, as member of an object, a nested one, as argument and as member of an input object: refused exactly if the name is none or a modifier is unknown, otherwise it has exactly that name and kind. Bounds: 45 tags.
func Run_C38_tags() {
	c := bdTags[sym.Choose(len(bdTags))]
	where := sym.Choose(4)
	q := []interface{}{c.out, c.nested, c.arg, c.in}[where]
	s := bdSchema()
	sym.Debug("tag", c.tag)
	err := s.Parse(q, NoM{}, nil)
	sym.Assert((err == nil) == c.ok, "a tag that means nothing is accepted, or the other way around")
	if err != nil {
		bdRefused(s, q, NoM{})
		return
	}
	names := []string{c.name, "foo", "bar", "Foo"}
	name := names[sym.Choose(4)]
	there := name == c.name && name != "-"
	if name == "-" {
		name = "foo"
	}
	val, arg := "7", "7"
	if c.id {
		val = "\"7\""
		if sym.Bool() {
			arg = val
		}
	}
	ask := []string{"{" + name + " z}", "{o{" + name + " z}}", "{f(" + name + ":" + arg + ",z:1)}", "{f(o:[{" + name + ":" + arg + " z:1}])}"}[where]
	want := []string{"{\"" + name + "\":" + val + ",\"z\":8}", "{\"o\":[{\"" + name + "\":" + val + ",\"z\":8}]}", "{\"f\":17}", "{\"f\":17}"}[where]
	r := exec(s, ask)
	sym.Assert((len(r.errs) == 0) == there, "a member has another name than its tag says")
	if there {
		sym.Assert(r.data.String() == want, "a member with a tag has another value")
	} else {
		other := []string{"{z}", "{o{z}}", "{f(z:1)}", "{f(o:[{z:1}])}"}[where]
		w2 := []string{"{\"z\":8}", "{\"o\":[{\"z\":8}]}", "{\"f\":10}", "{\"f\":10}"}[where]
		sym.Assert(exec(s, other).data.String() == w2, "a member next to one with a tag has another value")
	}
	l := exec(s, []string{"{__schema{queryType{fields{name type{kind name ofType{name}}}}}}", "{__type(name:\"__UnknownType2\"){fields{name type{kind name ofType{name}}}}}", "{__schema{queryType{fields{name args{name type{kind name ofType{name}}}}}}}", "{__type(name:\"__UnknownInput1\"){inputFields{name type{kind name ofType{name}}}}}"}[where])
	d := l.v.get("data")
	var fs *jv
	switch where {
	case 0:
		fs = d.get("__schema").get("queryType").get("fields")
	case 1:
		fs = d.get("__type").get("fields")
	case 2:
		fs = d.get("__schema").get("queryType").get("fields").at(0).get("args")
	case 3:
		fs = d.get("__type").get("inputFields")
	}
	n, found := 1, false
	for _, f := range fs.list() {
		if f.get("name").isStr(c.name) {
			found = true
			t := "Int"
			if c.id {
				t = "ID"
			}
			sym.Assert(f.get("type").get("kind").isStr("NON_NULL") && f.get("type").get("ofType").get("name").isStr(t), "a member with a tag is listed with another type")
		}
	}
	if c.name != "-" {
		n = 2
	}
	sym.Assert(len(fs.list()) == n && found == (c.name != "-"), "a member with a tag is listed under another name")
	sym.Cover("accepted")
}

type bdOther struct{ A string }

// Run_C38_roots: whatever is given as queries and as mutations, nothing at all included, is accepted exactly if both are structs of different types; never a crash. Bounds: 22 values for each.
func Run_C38_roots() {
	var e interface{}
	var np *bdGood
	var ni bdImpl
	vals := []interface{}{
		bdGood{A: "x"}, bdOther{A: "x"}, struct{ A string }{"x"}, struct{ B, A string }{"b", "x"}, NoM{}, struct{}{},
		nil, e, ni, np, &bdGood{A: "x"}, 1, "x", true, 1.5, []bdGood{{A: "x"}}, map[string]int{}, func() bdGood { return bdGood{A: "x"} }, (chan int)(nil), time.Time{}, &multipart.FileHeader{}, [1]bdGood{},
	}
	const structs = 6
	i, j := sym.Choose(len(vals)), sym.Choose(len(vals))
	s := bdSchema()
	err := s.Parse(vals[i], vals[j], nil)
	ok := i < structs && j < structs && i != j
	sym.Assert((err == nil) == ok, "a root that is no struct is accepted, or the other way around")
	if !ok {
		bdRefused(s, vals[i], vals[j])
		return
	}
	r := exec(s, "{a}")
	if i < 4 {
		sym.Assert(r.data.String() == "{\"a\":\"x\"}", "a query gives another value")
	}
	r = exec(s, "mutation{a}")
	if j < 4 {
		sym.Assert(r.data.String() == "{\"a\":\"x\"}", "a mutation gives another value")
	}
	sym.Cover("accepted")
}

// Run_C38_options: without the introspection types a schema answers everything else alike, and introspection with an error. Bounds: 8 requests with a free byte, on the schema and its copy.
func Run_C38_options() {
	x := sym.StrOf(1, "abe_\"{ ")
	r := request{q: fill([]string{"{a e}", "{~}", "{a:~ b}", "{b(n:[1,2])__typename}", "query~{a}", "{...F}fragment F on bdGood{~}", "{a@skip(if:true)b@include(if:false)e}", "mutation{~}"}[sym.Choose(8)], x), trace: sym.Bool()}
	s, t := bdSchema(), bdSchema()
	sym.Assert(s.Parse(bdGood{A: "x"}, bdOther{A: "y"}, &yarql.SchemaOptions{SkipGraphqlTypesInjection: true}) == nil, "a schema without introspection is refused")
	sym.Assert(t.Parse(bdGood{A: "x"}, bdOther{A: "y"}, &yarql.SchemaOptions{}) == nil, "a schema is refused")
	c := s
	if sym.Bool() {
		c = s.Copy()
	}
	equalAnswers(c, t, r, "without introspection another request is answered differently")
	q := []string{"{__schema{queryType{name}}}", "{__type(name:\"bdGood\"){name}}"}[sym.Choose(2)]
	sym.Assert(len(exec(c, q).errs) == 1, "introspection that was left out is answered")
	sym.Assert(len(exec(t, q).errs) == 0, "introspection is not answered")
	sym.Cover("same")
}

type (
	__Schema            struct{ A string }
	__Type              struct{ A string }
	__Field             struct{ A string }
	__EnumValue         struct{ A string }
	__InputValue        struct{ A string }
	__Directive         struct{ A string }
	__TypeKind          uint8
	__DirectiveLocation uint8
	__Mine              struct{ A string }
)

// Run_C38_reserved: a type that has the name of a type of the introspection is refused with an error, wherever the schema has it, and as argument never confused with it. Bounds: 8 names and a free one, as member, list, result, argument, root or enum.
func Run_C38_reserved() {
	s := bdSchema()
	i := sym.Choose(9)
	if i >= 7 {
		var err error
		if i == 7 {
			_, err = s.RegisterEnum(map[string]__TypeKind{"A": 1})
		} else {
			_, err = s.RegisterEnum(map[string]__DirectiveLocation{"A": 1})
		}
		if err == nil {
			err = s.Parse(struct{ A string }{"x"}, NoM{}, nil)
		}
		sym.Assert(err != nil, "a type with the name of another one is accepted")
		return
	}
	role := sym.Choose(5)
	q := [][5]interface{}{
		{__Schema{"x"}, struct{ V __Schema }{}, struct{ V []*__Schema }{}, struct{ V func() __Schema }{}, struct {
			V func(struct{ O __Schema }) string
		}{func(a struct{ O __Schema }) string { return a.O.A }}},
		{__Type{"x"}, struct{ V __Type }{}, struct{ V []*__Type }{}, struct{ V func() __Type }{}, struct {
			V func(struct{ O __Type }) string
		}{func(a struct{ O __Type }) string { return a.O.A }}},
		{__Field{"x"}, struct{ V __Field }{}, struct{ V []*__Field }{}, struct{ V func() __Field }{}, struct {
			V func(struct{ O __Field }) string
		}{func(a struct{ O __Field }) string { return a.O.A }}},
		{__EnumValue{"x"}, struct{ V __EnumValue }{}, struct{ V []*__EnumValue }{}, struct{ V func() __EnumValue }{}, struct {
			V func(struct{ O __EnumValue }) string
		}{func(a struct{ O __EnumValue }) string { return a.O.A }}},
		{__InputValue{"x"}, struct{ V __InputValue }{}, struct{ V []*__InputValue }{}, struct{ V func() __InputValue }{}, struct {
			V func(struct{ O __InputValue }) string
		}{func(a struct{ O __InputValue }) string { return a.O.A }}},
		{__Directive{"x"}, struct{ V __Directive }{}, struct{ V []*__Directive }{}, struct{ V func() __Directive }{}, struct {
			V func(struct{ O __Directive }) string
		}{func(a struct{ O __Directive }) string { return a.O.A }}},
		{__Mine{"x"}, struct{ V __Mine }{}, struct{ V []*__Mine }{}, struct{ V func() __Mine }{}, struct {
			V func(struct{ O __Mine }) string
		}{func(a struct{ O __Mine }) string { return a.O.A }}},
	}[i][role]
	mutation := sym.Bool()
	var err error
	if mutation {
		err = s.Parse(bdGood{A: "x"}, q, nil)
	} else {
		err = s.Parse(q, NoM{}, nil)
	}
	sym.Assert((err == nil) == (role == 4 || i == 6), "a type with the name of another one is accepted, or the other way around")
	if err != nil {
		if !mutation {
			bdRefused(s, q, NoM{})
		}
		return
	}
	bdAsk(s, []string{"{a}", "{v{a}}", "{v{a}}", "{v{a}}", "{v(o:{a:\"x\"})}"}[role], mutation)
	n := 0
	for _, t := range exec(s, "{__schema{types{name}}}").data.get("__schema").get("types").list() {
		if t.get("name").isStr("__Type") || t.get("name").isStr("__Schema") {
			n++
		}
	}
	sym.Assert(n == 2, "two types are listed under one name")
	sym.Cover("accepted")
}
