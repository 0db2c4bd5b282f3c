package h

import (
	"strings"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/h/alike"
	"yarqlverif/harness/sym"
)

// goodName tells whether a text is a name in the sense of the library.
func goodName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || !(c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return true
}

type RegEnum uint8

type RegQ struct {
	E RegEnum
	A string
	T RegType
}

func (RegQ) ResolveEcho(a struct{ E RegEnum }) RegEnum { return a.E }
func (RegQ) ResolveEchoL(a struct{ E []RegEnum }) []RegEnum {
	return a.E
}

type RegType struct{ F string }
type RegTwo struct{ G string }

// try runs f and tells whether it panicked.
func try(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// Run_C34_enumkey: a key of an enum is refused exactly if it is no name that a request could use, and every accepted one works in and out and is listed. Bounds: keys of 0..3 (thorough 4) bytes of any value, next to another key, and the words that are no enum values with a byte of any value replaced or added.
func Run_C34_enumkey() {
	var key string
	if sym.Bool() {
		key = sym.UpTo(0, 3+sym.Tier())
	} else {
		w := []byte([]string{"true", "false", "null", "Other"}[sym.Choose(4)])
		switch k := sym.Choose(len(w) + 2); {
		case k < len(w):
			w[k] = sym.Byte()
		case k == len(w):
			w = append(w, sym.Byte())
		}
		key = string(w)
	}
	s := yarql.NewSchema()
	added, err := s.RegisterEnum(map[string]RegEnum{key: 7, "Other": 8})
	ok := goodName(key) && key != "true" && key != "false" && key != "null"
	sym.Assert((err == nil) == ok && added == ok, "an enum key that cannot be used is accepted, or the other way around")
	if !ok {
		sym.Cover("refused")
		return
	}
	parse(s, RegQ{E: 7}, NoM{})
	if key == "Other" {
		return // a single key
	}
	r := exec(s, "{e echo(e:"+key+")echoL(e:[Other "+key+"])}")
	sym.Assert(!r.failed() && r.data.get("e").isStr(key) && r.data.get("echo").isStr(key) && r.data.get("echoL").at(1).isStr(key) && r.data.get("echoL").at(0).isStr("Other"), "an accepted enum key does not work")
	r = execVars(s, "query($e:RegEnum){echo(e:$e)}", "{\"e\":\""+key+"\"}")
	sym.Assert(!r.failed() && r.data.get("echo").isStr(key), "an accepted enum key does not work")
	r = exec(s, "{__type(name:\"RegEnum\"){enumValues{name}}}")
	l := r.data.get("__type").get("enumValues")
	sym.Assert(len(l.vals) == 2 && member(l, key) != nil && member(l, "Other") != nil, "an accepted enum key is not listed")
	sym.Cover("accepted")
}

type regText string
type RegFn func()

// Run_C34_enumkind: whatever is registered as enum is accepted, skipped or refused, and never a crash; nothing is accepted twice.
func Run_C34_enumkind() {
	v := sym.Byte()
	s := yarql.NewSchema()
	ok, empty := false, false
	var in interface{}
	switch sym.Choose(18) {
	case 0:
		in = nil
	case 1:
		in = int(v)
	case 2:
		in = v != 0
	case 3:
		in = string([]byte{v})
	case 4:
		in = []RegEnum{RegEnum(v)}
	case 5:
		in = map[int]RegEnum{int(v): 1}
	case 6:
		in = map[string]string{"A": string([]byte{v})}
	case 7:
		in = map[string]uint8{"A": v}
	case 8:
		in, empty = map[string]RegEnum{}, true
	case 9:
		in = map[string]RegEnum(nil)
	case 10:
		in = map[string]RegType{"A": {}}
	case 11:
		in, ok = map[regText]RegEnum{"A": RegEnum(v)}, true
	case 12:
		in = RegType{F: string([]byte{v})}
	case 13:
		in = &map[string]RegEnum{"A": RegEnum(v)}
	case 14:
		in = RegFn(func() {})
	case 15:
		in = float64(1)
	case 16:
		in = [2]RegEnum{RegEnum(v), 1}
	default:
		in, ok = map[string]RegEnum{"A": RegEnum(v)}, true
	}
	added, err := s.RegisterEnum(in)
	sym.Assert(added == ok && (err == nil) == (ok || empty), "something that is no enum is accepted, or the other way around")
	if ok {
		again, err := s.RegisterEnum(map[string]RegEnum{"A": 1, "B": 2})
		sym.Assert(!again && err != nil, "an enum is registered twice")
		parse(s, RegQ{E: RegEnum(v)}, NoM{})
		r := exec(s, "{e echo(e:A)}")
		sym.Assert(!r.failed() && r.data.get("e").isStr("A") && r.data.get("echo").isStr("A"), "an accepted enum does not work")
		added, err = s.RegisterEnum(map[string]OutEnum{"A": 1})
		sym.Assert(!added && err != nil, "an enum is registered after the schema was built")
		sym.Cover("accepted")
		return
	}
	sym.Cover("refused")
}

// Run_C34_directive: a directive is refused exactly if its name could not be used or is taken where it is registered, and an accepted one works under exactly its name. Bounds: names of 0..3 (thorough 4) bytes of any value and the names of the built in ones with a byte replaced or added, every set of places.
func Run_C34_directive() {
	var name string
	if sym.Bool() {
		name = sym.UpTo(0, 3+sym.Tier())
	} else {
		w := []byte([]string{"skip", "include", "own"}[sym.Choose(3)])
		switch k := sym.Choose(len(w) + 2); {
		case k < len(w):
			w[k] = sym.Byte()
		case k == len(w):
			w = append(w, sym.Byte())
		}
		name = string(w)
	}
	s := yarql.NewSchema()
	places := sym.Choose(4)
	where := [][]yarql.DirectiveLocation{
		{yarql.DirectiveLocationField},
		{yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline},
		{yarql.DirectiveLocationFragmentInline, yarql.DirectiveLocationField},
		{yarql.DirectiveLocationField, yarql.DirectiveLocationFragment, yarql.DirectiveLocationFragmentInline},
	}[places]
	got := ""
	d := yarql.Directive{Name: name, Where: where, Method: func(a struct{ S string }) yarql.DirectiveModifier {
		got += a.S
		return yarql.DirectiveModifier{Skip: a.S == "x"}
	}}
	err := s.RegisterDirective(d)
	ok := name != "skip" && name != "include" && goodName("a"+name) && name != "" && (name[0] > '9')
	if err == nil {
		sym.Assert(name != "skip" && name != "include" && name != "", "a directive is registered twice")
	} else {
		sym.Assert(!ok, "a usable directive is refused")
	}
	sym.Assert(s.RegisterDirective(yarql.Directive{Name: "late", Where: where, Method: d.Method}) == nil, "a usable directive is refused")
	parse(s, RegQ{A: "a"}, NoM{})
	d2 := d
	d2.Name = "a" + name
	sym.Assert(s.RegisterDirective(d) != nil && s.RegisterDirective(d2) != nil, "a directive is registered after the schema was built")
	if err != nil {
		// nothing of it may be left
		r := exec(s, "{__schema{directives{name}}}")
		sym.Assert(len(r.data.get("__schema").get("directives").vals) == 3, "a refused directive is listed")
		sym.Cover("refused")
		return
	}
	if !ok {
		sym.Assert(false, "a directive that no request can use is accepted")
		return
	}
	at := func(field, spread, inline bool) {
		for i, c := range []bool{field, spread, inline} {
			q := []string{"{a@~(s:\"y\") e}", "{...F@~(s:\"y\") e}fragment F on RegQ{a}", "{...on RegQ@~(s:\"y\"){a}e}"}[i]
			got = ""
			r := exec(s, fill(q, name))
			sym.Assert(r.failed() == !c && (got == "y") == c, "a directive works somewhere else than registered")
			if c {
				got = ""
				r = exec(s, fill([]string{"{a@~(s:\"x\") e}", "{...F@~(s:\"x\") e}fragment F on RegQ{a}", "{...on RegQ@~(s:\"x\"){a}e}"}[i], name))
				sym.Assert(!r.failed() && got == "x" && r.data.get("a") == nil, "an accepted directive does not work")
			}
		}
	}
	at(places != 1, places == 1 || places == 3, places > 0)
	r := exec(s, "{__schema{directives{name locations args{name}}}}")
	x := member(r.data.get("__schema").get("directives"), name)
	sym.Assert(x != nil && len(x.get("locations").vals) == len(where) && member(x.get("args"), "s") != nil, "an accepted directive is not listed")
	sym.Cover("accepted")
}

// DirectiveModifier is not the one of the library.
type DirectiveModifier struct{ Skip bool }

// Run_C34_directivekind: whatever is registered as directive is accepted or refused with an error, and never a crash.
func Run_C34_directivekind() {
	f := []yarql.DirectiveLocation{yarql.DirectiveLocationField}
	good := func() yarql.DirectiveModifier { return yarql.DirectiveModifier{} }
	name := sym.StrOf(1, "abcdefg")
	d := yarql.Directive{Name: name, Where: f, Method: good}
	ok, either := false, false
	switch sym.Choose(18) {
	case 14:
		d.Method = func() DirectiveModifier { return DirectiveModifier{} }
	case 15:
		d.Method = func() yarql.AttrIsID { return 0 }
	case 16:
		// a place named twice is refused, or counts once
		d.Where = append(f, yarql.DirectiveLocationFragment, yarql.DirectiveLocationField)
		either = true
	case 0:
		d.Method = nil
	case 1:
		d.Method = 1
	case 2:
		d.Method = "x"
	case 3:
		d.Method = yarql.DirectiveModifier{}
	case 4:
		d.Method = func() {}
	case 5:
		d.Method = func() string { return "" }
	case 6:
		d.Method = func() (yarql.DirectiveModifier, error) { return yarql.DirectiveModifier{}, nil }
	case 7:
		d.Method = (func() yarql.DirectiveModifier)(nil)
	case 8:
		d.Where = nil
	case 9:
		d.Method = func(a ...struct{ A string }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }
	case 10:
		d.Method = func() *yarql.DirectiveModifier { return nil }
	case 11:
		d.Method = []int{1}
	case 12:
		d.Method = struct{}{}
	default:
		ok = true
	}
	s := yarql.NewSchema()
	err := s.RegisterDirective(d)
	if either {
		ok = err == nil
	}
	sym.Assert((err == nil) == ok, "something that is no directive is accepted, or the other way around")
	parse(s, RegQ{A: "a"}, NoM{})
	r := exec(s, "{a@"+name+"}")
	sym.Assert(r.failed() == !ok, "a refused directive works")
	if either {
		x := member(exec(s, "{__schema{directives{name locations}}}").data.get("__schema").get("directives"), name)
		if ok {
			sym.Assert(len(x.get("locations").vals) == 2, "a place is listed twice")
		} else {
			sym.Assert(x == nil, "a refused directive is listed")
		}
	}
	sym.Cover("asked")
}

// Run_C34_rename: a type is found under its new name only; names no request could use are refused. Bounds: new names of 0..3 bytes of any value.
func Run_C34_rename() {
	if sym.Choose(8) == 7 {
		// only a forced name is not looked at
		name := sym.UpToOf(0, 3, "aB_ -.1")
		trimmed := strings.TrimSpace(name)
		bad := try(func() { yarql.TypeRename(RegType{}, name, true) })
		sym.Assert(bad == (trimmed == ""), "a forced name is refused, or an empty one accepted")
		if !bad {
			s := yarql.NewSchema()
			parse(s, RegQ{T: RegType{"f"}}, NoM{})
			r := exec(s, "{t{__typename f}}")
			t := r.data.get("t")
			sym.Assert(!r.failed() && t.get("__typename").isStr(trimmed) && t.get("f").isStr("f"), "a renamed type goes by another name")
			sym.Cover("forced")
		}
		return
	}
	name := sym.UpTo(0, 3)
	force := sym.Choose(3)
	bad := try(func() {
		switch force {
		case 0:
			yarql.TypeRename(RegType{}, name)
		case 1:
			yarql.TypeRename(RegType{}, name, false)
		default:
			yarql.TypeRename(RegType{}, name, []bool{}...)
		}
	})
	trimmed := strings.TrimSpace(name)
	if trimmed == "ID" || trimmed == "Int" {
		return // the names of built in scalars
	}
	if bad {
		sym.Assert(!goodName(trimmed), "a usable name is refused")
		sym.Cover("refused")
		return
	}
	sym.Assert(goodName(trimmed), "a name that cannot be used is accepted")
	s := yarql.NewSchema()
	err := s.Parse(RegQ{T: RegType{"f"}}, NoM{}, nil)
	sym.Assert((err == nil) == (trimmed != "NoM"), "a type is given the name of another one")
	if err != nil {
		return
	}
	r := exec(s, "{t{__typename ...on RegType{x:f}...on "+trimmed+"{f}}a:__type(name:\"RegType\"){name}b:__type(name:\""+trimmed+"\"){name fields{name}}}")
	t := r.data.get("t")
	sym.Assert(!r.failed() && t.get("__typename").isStr(trimmed) && t.get("x") == nil && t.get("f").isStr("f"), "a renamed type goes by another name")
	sym.Assert(r.data.get("a").isNull() && r.data.get("b").get("name").isStr(trimmed) && member(r.data.get("b").get("fields"), "f") != nil, "a renamed type goes by another name")
	sym.Cover("renamed")
}

// Types with the names of those of the package alike.

type AlOut struct {
	A string
	B string
}

type AlIn struct {
	A string
	B []int8
	Y bool
}

type AlEnum int8
type AlEnum8 uint8
type AlPlain uint8

type AlI interface{ ResolveName() string }

type AlImpl struct{ N string }

func (a AlImpl) ResolveName() string { return "name " + a.N }

var _ = yarql.Implements((*AlI)(nil), AlImpl{})

type AlRen struct{ R, S string }

var _ = yarql.TypeRename(AlRen{}, "AlOwnRen")

type AlTaken struct{ T string }
type AlTook struct{ U string }

var _ = yarql.TypeRename(AlTook{}, "AlTaken")

type (
	AlQOut struct {
		X AlOut
		Y alike.AlOut
	}
	AlQIn   struct{}
	AlQEnum struct {
		X  AlEnum
		Y  alike.AlEnum
		X8 AlEnum8
		Y8 alike.AlEnum8
	}
	AlQPlain struct {
		X AlPlain
		Y alike.AlPlain
	}
	AlQI struct {
		X AlI
		Y alike.AlI
	}
	AlQImpl struct {
		X AlImpl
		Y alike.AlI
	}
	AlQRen struct {
		X AlRen
		Y alike.AlRen
	}
	AlQTook struct {
		X AlTaken
		Y AlTook
	}
)

var alGot string

func (AlQIn) ResolveX(a struct{ V AlIn }) string {
	alGot = a.V.A
	for _, b := range a.V.B {
		alGot += "," + itoa(int(b))
	}
	return alGot
}

func (AlQIn) ResolveY(a struct{ V alike.AlIn }) string {
	alGot = a.V.B
	for _, b := range a.V.A {
		alGot += "," + b
	}
	return alGot + itoa(int(a.V.X))
}

func (AlQPlain) ResolveE(a struct {
	V AlPlain
	W alike.AlPlain
}) string {
	return itoa(int(a.V)) + string(a.W)
}

func (AlQEnum) ResolveE(a struct {
	V AlEnum
	W alike.AlEnum
}) string {
	return itoa(int(a.V)) + string(a.W)
}

// Run_C34_alike: two Go types of one name: the schema is refused, or both keep their own fields, members, values and implementations. Bounds: pairs of structs, inputs, enums of different and of equal kinds, an enum and a plain type, interfaces, an implementation and a type of the same name, renamed and not renamed, renamed to a name in use, types of functions; free values of one byte.
func Run_C34_alike() {
	v, w := sym.StrOf(1, "abc"), sym.StrOf(1, "xyz")
	s := yarql.NewSchema()
	build := func(q interface{}) bool {
		if s.Parse(q, NoM{}, nil) != nil {
			sym.Cover("refused")
			return false
		}
		sym.Cover("built")
		return true
	}
	is := func(q, want string) {
		r := exec(s, q)
		sym.Assert(!r.failed() && r.data.String() == want, "a type is taken for another one of the same name")
	}
	fails := func(q string) {
		r := exec(s, q)
		sym.Assert(r.failed(), "a type is taken for another one of the same name")
	}
	switch sym.Choose(12) {
	case 10:
		q, err := alLocalEnum(s, v)
		sym.Assert(err == nil, "an enum is refused")
		if build(q) {
			is("{x y l}", "{\"x\":\"B\",\"y\":\""+v+"\",\"l\":[\"b\"]}")
			fails("{e(v:B)}")
			is("{e(v:\""+w+"\")}", "{\"e\":\""+w+"\"}")
		}
	case 0:
		if build(AlQOut{AlOut{v, w}, alike.AlOut{B: 5, C: v}}) {
			is("{x{a b}y{b c}}", "{\"x\":{\"a\":\""+v+"\",\"b\":\""+w+"\"},\"y\":{\"b\":5,\"c\":\""+v+"\"}}")
			fails("{x{c}}")
			fails("{y{a}}")
		}
	case 1:
		if build(AlQIn{}) {
			is("{x(v:{a:\""+v+"\" b:[1,2]})}", "{\"x\":\""+v+",1,2\"}")
			is("{y(v:{b:\""+v+"\" a:[\""+w+"\"] x:3})}", "{\"y\":\""+v+","+w+"3\"}")
			fails("{y(v:{y:true})}")
			fails("{x(v:{x:1})}")
		}
	case 2, 3:
		// both registered, or only one of them
		_, err := s.RegisterEnum(map[string]AlEnum{"A": -1, "B": 2})
		sym.Assert(err == nil, "an enum is refused")
		if sym.Bool() {
			if _, err := s.RegisterEnum(map[string]alike.AlEnum{"A": "x", "C": "y"}); err != nil {
				sym.Cover("refused")
				return
			}
			// both cannot be listed under the one name
			sym.Assert(!build(AlQEnum{X: -1, Y: "y", X8: 1, Y8: 2}), "two enums of one name are accepted")
			return
		}
		if build(AlQEnum{X: 2, Y: alike.AlEnum(v), X8: 1, Y8: 2}) {
			is("{x y X8 Y8 e(v:A w:\""+w+"\")}", "{\"x\":\"B\",\"y\":\""+v+"\",\"X8\":1,\"Y8\":2,\"e\":\"-1"+w+"\"}")
			fails("{e(w:A)}")
		}
	case 4:
		if _, err := s.RegisterEnum(map[string]AlEnum8{"A": 1, "B": 2}); err != nil {
			sym.Assert(false, "an enum is refused")
		}
		if build(AlQEnum{X: 2, X8: 1, Y8: 2, Y: alike.AlEnum(w)}) {
			is("{X8 Y8 x y}", "{\"X8\":\"A\",\"Y8\":2,\"x\":2,\"y\":\""+w+"\"}")
		}
	case 5:
		if _, err := s.RegisterEnum(map[string]AlPlain{"A": 1, "B": 2}); err != nil {
			sym.Assert(false, "an enum is refused")
		}
		if build(AlQPlain{X: 2, Y: alike.AlPlain(w)}) {
			is("{x y e(v:A w:\""+v+"\")}", "{\"x\":\"B\",\"y\":\""+w+"\",\"e\":\"1"+v+"\"}")
		}
	case 6:
		if build(AlQI{AlImpl{v}, alike.AlImpl{O: w}}) {
			is("{x{name __typename}y{other ...on AlImpl{o}}}", "{\"x\":{\"name\":\"name "+v+"\",\"__typename\":\"AlImpl\"},\"y\":{\"other\":\"other "+w+"\",\"o\":\""+w+"\"}}")
			fails("{x{other}}")
		}
	case 7:
		if build(AlQImpl{AlImpl{v}, alike.AlImpl{O: w}}) {
			is("{x{n}y{other}}", "{\"x\":{\"n\":\""+v+"\"},\"y\":{\"other\":\"other "+w+"\"}}")
			fails("{x{o}}")
		}
	case 8:
		if build(AlQRen{AlRen{v, w}, alike.AlRen{R: v}}) {
			is("{x{s __typename}y{r __typename}}", "{\"x\":{\"s\":\""+w+"\",\"__typename\":\"AlOwnRen\"},\"y\":{\"r\":\""+v+"\",\"__typename\":\"AlRen\"}}")
			fails("{y{s}}")
		}
	case 9:
		if build(AlQTook{AlTaken{v}, AlTook{w}}) {
			is("{x{t}y{u}}", "{\"x\":{\"t\":\""+v+"\"},\"y\":{\"u\":\""+w+"\"}}")
			fails("{x{u}}")
			fails("{y{t}}")
		}
	default:
		if build(alLocal(v, w)) {
			is("{x{a}y{b}}", "{\"x\":{\"a\":\""+v+"\"},\"y\":{\"b\":\""+w+"\"}}")
			fails("{x{b}}")
			fails("{y{a}}")
		}
	}
}

// alLocalEnum registers one of two types of one name that are declared in functions.
func alLocalEnum(s *yarql.Schema, v string) (interface{}, error) {
	type T string
	type T1 = T
	_, err := s.RegisterEnum(map[string]T{"B": "b"})
	{
		type T string
		type AlQLocalEnum struct {
			X T1
			Y T
			L []T
			E func(struct{ V T }) T
		}
		return AlQLocalEnum{"b", T(v), []T{"b"}, func(a struct{ V T }) T { return a.V }}, err
	}
}

// alLocal gives a struct with two types of one name that are declared in functions.
func alLocal(v, w string) interface{} {
	type T struct{ A string }
	type T1 = T
	{
		type T struct{ B string }
		type AlQLocal struct {
			X T1
			Y T
		}
		return AlQLocal{T1{v}, T{w}}
	}
}

// Run_C34_enumset: all keys of an enum work, whatever they share, in whatever order the map gives them; two keys of one value are both usable as argument. Bounds: 3 (thorough 4) keys of 1..2 (thorough 3) bytes of two letters, values of which two may be the same.
func Run_C34_enumset() {
	sym.MapOrder(true)
	n := 3 + sym.Tier()
	m := map[string]RegEnum{}
	var keys []string
	shared := sym.Bool()
	for i := 0; i < n; i++ {
		k := sym.UpToOf(1, 2+sym.Tier(), "ab")
		for _, o := range keys {
			sym.Assume(k != o)
		}
		keys = append(keys, k)
		v := i
		if shared && i == n-1 {
			v = 0
		}
		m[k] = RegEnum(v)
	}
	s := yarql.NewSchema()
	added, err := s.RegisterEnum(m)
	sym.Assert(err == nil && added, "an enum is refused")
	parse(s, RegQ{E: 1}, NoM{})
	q := "{e "
	for i, k := range keys {
		q += "k" + itoa(i) + ":echo(e:" + k + ")"
	}
	r := exec(s, q+"}")
	sym.Assert(!r.failed() && r.data.get("e").isStr(keys[1]), "a key of an enum does not work")
	for i, k := range keys {
		got := r.data.get("k" + itoa(i))
		if shared && (i == 0 || i == n-1) {
			sym.Assert(got.isStr(keys[0]) || got.isStr(keys[n-1]), "a key of an enum does not work")
			sym.Cover("shared")
			continue
		}
		sym.Assert(got.isStr(k), "a key of an enum does not work")
	}
	r = exec(s, "{__type(name:\"RegEnum\"){enumValues{name}}}")
	l := r.data.get("__type").get("enumValues")
	sym.Assert(len(l.vals) == n, "the keys of an enum are not listed")
	for _, k := range keys {
		sym.Assert(member(l, k) != nil, "the keys of an enum are not listed")
	}
	sym.Cover("accepted")
}
