package h

import (
	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// A schema with every kind of item that introspection describes.

type InColor uint8
type InSize string

type InPut struct {
	A  string
	Ab *int8
	C  InColor
	Cl []InColor `gq:"cl"`
	S  *InPut
	Sl []InPut `gq:"sl"`
	T  time.Time
	D  string `gq:"d,id"`
	O  InOther
	X  int `gq:"-"`
	Re int `gq:"zz"`
	y  int
	Ll [][]*bool
	N1 struct {
		X  int
		Bo *InBoth
	}
	N2 struct{ Y [][]InColor }
	R  InRenIn
}

// InBoth is an input and an output.
type InBoth struct{ A, Bb string }

// InRenIn and InRen go by other names.
type InRenIn struct{ W *int }
type InRen struct{ V, W string }

var _ = yarql.TypeRename(InRenIn{}, "inRenamed")
var _ = yarql.TypeRename(InRen{}, "anOther")

type InOther struct {
	B bool
	F float64
	N *InNest
}

type InNest struct{ V InSize }

type InArgs struct {
	A  string
	B  *bool
	C  InColor
	Sz *InSize
	I  int32
	L  []int
	Ls [][]string
	O  InPut
	P  *InPut
	Q  []InOther
	T  *time.Time
	D  int                   `gq:"d,id"`
	G  *multipart.FileHeader `gq:"g"`
	H  int                   `gq:"-"`
	Re float32               `gq:"zz"`
	k  string
}

type InObj struct {
	A   string
	Ab  int
	D   uint16 `gq:"d,id"`
	B   bool
	C   InColor
	T   time.Time
	Dp  *InDeep
	L   []InDeep
	Ll  [][]string
	I   InIface
	Il  []InIface
	Fn  func() string
	Fa  func(InFnArgs) []int
	X   string `gq:"-"`
	Re  string `gq:"zz"`
	Fl  float64
	any int
}

type InFnArgs struct {
	A int
	Z []InSize
}

type InDeep struct {
	V InSize
	O *InObj
}

func (d InDeep) ResolveM(a struct{ N InNest }) *InObj { return d.O }

type InIface interface{ ResolveV() InSize }

type InOne struct{ A int }
type InTwo struct{ B []InOne }

func (InOne) ResolveV() InSize { return "s" }
func (InTwo) ResolveV() InSize { return "l" }
func (InTwo) ResolveW() string { return "w" }

var _ = yarql.Implements((*InIface)(nil), InOne{})
var _ = yarql.Implements((*InIface)(nil), InTwo{})

type InQ struct {
	O  InObj
	S  string
	An struct {
		A string
		B int
	}
	An2 struct {
		B []string
		C *struct{ Z InColor }
	}
	Anl []struct{ A, C InBoth } `gq:"anl"`
	Rn  InRen
}

func (InQ) ResolveM(a InArgs) int                                   { return 1 }
func (InQ) ResolveE(c *yarql.Ctx, a struct{ A InColor }) []InColor  { return []InColor{a.A} }
func (InQ) ResolveId() (string, yarql.AttrIsID)                     { return "i", 0 }
func (InQ) ResolveErr() (*InTwo, error)                             { return &InTwo{}, nil }
func (InQ) ResolvePp(c *yarql.Ctx, a InFnArgs) (**[]*InDeep, error) { return nil, nil }

type InM struct {
	A  int
	Bo InBoth
	An struct{ V string }
}

func (InM) ResolveS(a struct{ P InPut }) InObj { return InObj{} }
func (InM) ResolveK() InMOnly                  { return InMOnly{} }

type InMOnly struct{ V string }

func buildIntro() *yarql.Schema {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]InColor{"R": 1, "RG": 2, "b": 3, "B_1": 4}); err != nil {
		panic(err.Error())
	}
	if _, err := s.RegisterEnum(map[string]InSize{"S": "s", "XL": "l"}); err != nil {
		panic(err.Error())
	}
	deep := InDeep{V: "s", O: &InObj{C: 2}}
	q := InQ{}
	q.An2.C = &struct{ Z InColor }{3}
	q.Anl = append(q.Anl, struct{ A, C InBoth }{})
	q.O = InObj{
		A: "a", C: 1, Dp: &deep, L: []InDeep{deep}, Ll: [][]string{{"x"}}, I: InTwo{B: []InOne{{1}}}, Il: []InIface{InOne{1}, InTwo{}},
		Fn: func() string { return "f" }, Fa: func(InFnArgs) []int { return []int{1} },
	}
	return parse(s, q, InM{})
}

type introState struct {
	s, fresh *yarql.Schema
	types    []*jv
	doc      *jv
}

func typeRef(n int) string {
	if n == 0 {
		return "kind name"
	}
	return "kind name ofType{" + typeRef(n-1) + "}"
}

var introDoc = "{__schema{queryType{name}mutationType{name}types{kind name fields(includeDeprecated:true){name type{" + typeRef(7) + "}args{name type{" + typeRef(6) + "}}}inputFields{name type{" + typeRef(6) + "}}interfaces{name}enumValues{name}possibleTypes{name}}directives{name locations args{name type{" + typeRef(2) + "}}}}}"

func Setup_intro() *introState {
	st := &introState{s: buildIntro(), fresh: buildIntro()}
	st.s.MaxDepth = 30
	st.fresh.MaxDepth = 30
	r := exec(st.s, introDoc)
	sym.Assert(!r.failed(), "introspection fails")
	st.doc = r.data.get("__schema")
	st.types = st.doc.get("types").vals
	return st
}

// typ is the listing of a type; the name can be a path of members (of anonymous types).
func (st *introState) typ(name string) *jv {
	for i := 0; i < len(name); i++ {
		if name[i] == '.' {
			j := i + 1
			for j < len(name) && name[j] != '.' {
				j++
			}
			t := st.typ(name[:i])
			l := t.get("fields")
			if t.get("kind").isStr("INPUT_OBJECT") {
				l = t.get("inputFields")
			}
			b, _ := base(member(l, name[i+1:j]).get("type"))
			return st.typ(b.get("name").s + name[j:])
		}
	}
	for _, t := range st.types {
		if t.get("name").isStr(name) {
			return t
		}
	}
	return nil
}

// member finds a named entry of a list.
func member(l *jv, name string) *jv {
	if l == nil || l.k != 'a' {
		return nil
	}
	for _, e := range l.vals {
		if e.get("name").isStr(name) {
			return e
		}
	}
	return nil
}

// base gives the named type below lists and non-nulls, and the number of lists around it.
func base(t *jv) (*jv, int) {
	n := 0
	for t.get("kind").isStr("NON_NULL") || t.get("kind").isStr("LIST") {
		if t.get("kind").isStr("LIST") {
			n++
		}
		t = t.get("ofType")
	}
	return t, n
}

func composite(t *jv) bool {
	return t.get("kind").isStr("OBJECT") || t.get("kind").isStr("INTERFACE")
}

// introPlaces are the object types with the requests that reach them.
var introPlaces = [][3]string{
	{"InQ", "{", "}"},
	{"InM", "mutation{", "}"},
	{"InObj", "{o{", "}}"},
	{"InDeep", "{o{dp{", "}}}"},
	{"InDeep", "{o{l{", "}}}"},
	{"InOne", "{o{il{...on InOne{", "}}}}"},
	{"InTwo", "{err{", "}}"},
	{"InMOnly", "mutation{k{", "}}"},
	{"InObj", "mutation{s{", "}}"},
	{"InQ.an", "{an{", "}}"},
	{"InQ.an2", "{an2{", "}}"},
	{"InQ.an2.c", "{an2{c{", "}}}"},
	{"InQ.anl", "{anl{", "}}"},
	{"InQ.anl.c", "{anl{c{", "}}}"},
	{"InBoth", "mutation{bo{", "}}"},
	{"InM.an", "mutation{an{", "}}"},
	{"anOther", "{rn{", "}}"},
}

// Run_C22_field: a field is listed exactly when it can be asked for.
func Run_C22_field(st *introState) {
	p := introPlaces[sym.Choose(len(introPlaces))]
	name := symName(1 + sym.Choose(3+sym.Tier()))
	t := st.typ(p[0])
	sym.Assert(t != nil && t.get("kind").isStr("OBJECT"), "an object type is not listed")
	f := member(t.get("fields"), name)
	if f == nil {
		r := exec(st.s, p[1]+name+p[2])
		sym.Assert(r.failed(), "a field that is not listed can be asked for")
		r = exec(st.s, p[1]+name+"{__typename}"+p[2])
		sym.Assert(r.failed(), "a field that is not listed can be asked for")
		sym.Cover("unlisted")
		return
	}
	b, lists := base(f.get("type"))
	rest, other := "", "{__typename}"
	if composite(b) {
		rest, other = other, rest
	}
	r := exec(st.s, p[1]+name+rest+p[2])
	sym.Assert(!r.failed(), "a listed field cannot be asked for")
	sym.Cover("listed")
	v := r.data
	depth := 0
	for i := 0; i < len(p[1]); i++ {
		if p[1][i] == '{' && (i < 5 || p[1][i-5:i] != "InOne") {
			depth++
		}
	}
	for i := 1; i < depth && v != nil && len(v.vals) > 0; i++ {
		v = v.vals[0]
		for v.k == 'a' && len(v.vals) > 0 {
			v = v.at(0)
		}
	}
	if v.get(name) == nil {
		return
	}
	st.checkValue(v.get(name), b, lists)
	// the other kind of selection has to be wrong
	if x := v.get(name); x.k != 'n' && (x.k != 'a' || len(x.vals) > 0) {
		r = exec(st.s, p[1]+name+other+p[2])
		sym.Assert(r.failed(), "a selection that does not fit the listed type is accepted")
	}
}

// checkValue compares a value with its listed type.
func (st *introState) checkValue(v *jv, b *jv, lists int) {
	if v.k == 'n' {
		return
	}
	if lists > 0 {
		sym.Assert(v.k == 'a', "a listed list is something else")
		for _, e := range v.vals {
			st.checkValue(e, b, lists-1)
		}
		return
	}
	ok := false
	switch b.get("name").s {
	case "Int", "Float":
		ok = v.k == '0'
	case "Boolean":
		ok = v.k == 't' || v.k == 'f'
	case "String", "ID", "Time":
		ok = v.k == 's'
	default:
		t := st.typ(b.get("name").s)
		sym.Assert(t != nil && t.get("kind").s == b.get("kind").s, "a type in use is not listed")
		switch b.get("kind").s {
		case "ENUM":
			ok = v.k == 's' && member(t.get("enumValues"), v.s) != nil
		case "OBJECT":
			ok = v.get("__typename").isStr(b.get("name").s)
		case "INTERFACE":
			ok = v.get("__typename") != nil && member(t.get("possibleTypes"), v.get("__typename").s) != nil
		}
	}
	sym.Assert(ok, "a value is not of the listed type")
}

// Run_C22_arg: an argument is listed exactly when it can be given.
func Run_C22_arg(st *introState) {
	p := [][4]string{{"InQ", "m", "{m(", ")}"}, {"InQ", "e", "{e(", ")}"}, {"InM", "s", "mutation{s(", "){a}}"}, {"InDeep", "m", "{o{dp{m(", "){a}}}}"}, {"InObj", "fa", "{o{fa(", ")}}"}, {"InQ", "pp", "{pp(", "){v}}"}, {"InObj", "fn", "{o{fn(", ")}}"}, {"InQ", "o", "{o(", "){a}}"}}
	c := p[sym.Choose(len(p))]
	name := symName(1 + sym.Choose(2+sym.Tier()))
	f := member(st.typ(c[0]).get("fields"), c[1])
	sym.Assert(f != nil, "a field is not listed")
	r := exec(st.s, c[2]+name+":null"+c[3])
	listed := member(f.get("args"), name) != nil
	sym.Assert(r.failed() == !listed, "an argument is listed but cannot be given, or the other way around")
	if listed {
		sym.Cover("listed")
	} else {
		sym.Cover("unlisted")
	}
}

// introInputs are the input types with the requests that reach them.
var introInputs = [][3]string{
	{"InPut", "{m(o:{", "})}"}, {"InPut", "{m(p:{s:{sl:[{", "}]}})}"}, {"InOther", "{m(o:{o:{", "}})}"}, {"InOther", "{m(q:[{", "}])}"}, {"InNest", "{m(o:{o:{n:{", "}}})}"}, {"InNest", "{o{dp{m(n:{", "}){a}}}}"}, {"InPut", "mutation{s(p:{", "}){a}}"},
	{"InPut.N1", "{m(o:{N1:{", "}})}"}, {"InPut.N2", "{m(o:{N2:{", "}})}"}, {"InBoth__input", "{m(o:{N1:{bo:{", "}}})}"}, {"inRenamed", "{m(o:{r:{", "}})}"},
}

// Run_C22_input: a member of an input type is listed exactly when it can be given.
func Run_C22_input(st *introState) {
	c := introInputs[sym.Choose(len(introInputs))]
	name := symName(1 + sym.Choose(2+sym.Tier()))
	t := st.typ(c[0])
	sym.Assert(t != nil && t.get("kind").isStr("INPUT_OBJECT"), "an input type is not listed")
	r := exec(st.s, c[1]+name+":null"+c[2])
	listed := member(t.get("inputFields"), name) != nil
	sym.Assert(r.failed() == !listed, "an input member is listed but cannot be given, or the other way around")
	if listed {
		sym.Cover("listed")
	} else {
		sym.Cover("unlisted")
	}
}

// Run_C22_enum: an enum value is listed exactly when it can be given.
func Run_C22_enum(st *introState) {
	c := [][3]string{{"InColor", "{m(c:", ")}"}, {"InColor", "{e(a:", ")}"}, {"InColor", "{m(o:{cl:[", "]})}"}, {"InSize", "{m(sz:", ")}"}, {"InSize", "{o{fa(z:[", "])}}"}, {"InSize", "{o{dp{m(n:{v:", "}){a}}}}"}}[sym.Choose(6)]
	name := symName(1 + sym.Choose(3))
	t := st.typ(c[0])
	sym.Assert(t != nil && t.get("kind").isStr("ENUM"), "an enum is not listed")
	r := exec(st.s, c[1]+name+c[2])
	listed := member(t.get("enumValues"), name) != nil
	sym.Assert(r.failed() == !listed, "an enum value is listed but cannot be given, or the other way around")
	if listed {
		sym.Cover("listed")
	} else {
		sym.Cover("unlisted")
	}
}

// Run_C22_type: the type of an argument or member is the one that is enforced for variables.
func Run_C22_type(st *introState) {
	var ref *jv
	var pre, post string
	if sym.Bool() {
		l := member(st.typ("InQ").get("fields"), "m").get("args").vals
		e := l[sym.Choose(len(l))]
		ref, pre, post = e.get("type"), "{m("+e.get("name").s+":$v", ")}"
	} else {
		c := introInputs[sym.Choose(len(introInputs))]
		l := st.typ(c[0]).get("inputFields").vals
		e := l[sym.Choose(len(l))]
		ref, pre, post = e.get("type"), c[1]+e.get("name").s+":$v", c[2]
	}
	b, lists := base(ref)
	want := b.get("name").s
	k := sym.Choose(3)
	var tn string
	switch sym.Choose(3) {
	case 0:
		tn = want
	case 1:
		// one symbolic letter in the right name
		x := []byte(want)
		x[sym.Choose(len(x))] = symName(1)[0]
		tn = string(x)
	default:
		tn = []string{"String", "Int", "Float", "Boolean", "ID", "Time", "File", "InPut", "InOther", "InNest", "InColor", "InSize", "InArgs", "InObj", "InBoth", "inRenamed", "InRenIn"}[sym.Choose(17)]
	}
	sym.Assume(tn != "List")
	decl := tn
	for i := 0; i < k; i++ {
		decl = "[" + decl + "]"
	}
	r := execVars(st.s, "query($v:"+decl+")"+pre+post, "{\"v\":null}")
	if pre[0] == 'm' { // a mutation
		r = execVars(st.s, "mutation($v:"+decl+")"+pre[8:]+post, "{\"v\":null}")
	}
	ok := k == lists && tn == want
	if tn == "String" && k == lists {
		switch b.get("kind").s {
		case "ENUM":
			ok = true
		case "SCALAR":
			ok = want == "String" || want == "ID" || want == "Time" || want == "File"
		}
	}
	sym.Assert(r.failed() == !ok, "the listed type of an argument is not the one that is enforced")
	if ok {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// introProbes are questions whose answers must not depend on what was asked before.
var introProbes = []string{
	introDoc,
	"{__type(name:\"InObj\"){name fields{name args{name type{name ofType{name}}}type{name}}}}",
	"{__type(name:\"InPut\"){kind inputFields{name type{name ofType{name}}}}}",
	"{__type(name:\"InIface\"){possibleTypes{name fields{name}}fields{name}}}",
	"{__schema{queryType{fields{name}}}}",
	"{__schema{mutationType{fields{name type{name}}}}}",
	"{__schema{directives{name args{name type{name}}}}}",
	"{__type(name:\"InQ\"){fields(includeDeprecated:true){name}}}",
	"{__type(name:\"InM\"){fields{name}}a:__type(name:\"InQ\"){fields{name}}}",
	"{__type(name:\"InColor\"){enumValues(includeDeprecated:true){name}}}",
	"{__schema{types{name possibleTypes{name}interfaces{name}}}}",
	"{o{__typename il{__typename v}}}",
	"{__type(name:\"nope\"){name}}",
	"{__type(name:\"InQ\"){fields{name type{name fields{name type{name}}ofType{fields{name type{name}}ofType{name fields{name}}}}}}}",
	"{__type(name:\"In~\"){kind name fields{name type{name ofType{name fields{name}}}}}a:__type(name:\"__UnknownType~\"){fields{name}}}",
	"{a:__type(name:\"__UnknownInput~\"){inputFields{name type{name}}}__type(name:\"~\"){name}}",
}

// Run_C22_order: introspection answers the same in any order of questions and any order of maps.
func Run_C22_order(st *introState) {
	n := len(introProbes)
	b := sym.Choose(n)
	q := fill(introProbes[b], sym.StrOf(1, "QM12"))
	x := exec(st.s, q)
	if sym.Bool() {
		exec(st.fresh, fill(introProbes[sym.Choose(n)], sym.StrOf(1, "QM12")))
	} else {
		sym.MapOrder(true)
	}
	y := exec(st.fresh, q)
	sym.MapOrder(false)
	sym.Assert(x.raw == y.raw, "introspection depends on earlier questions")
	if b == 0 {
		sym.Assert(x.data.get("__schema").String() == st.doc.String(), "introspection depends on earlier questions")
	}
	sym.Cover("same")
}

// Run_C22_name: a type is found by exactly its name, as it is listed.
func Run_C22_name(st *introState) {
	var name string
	if sym.Bool() {
		t := []byte(st.types[sym.Choose(len(st.types))].get("name").s)
		if i := sym.Choose(len(t) + 1); i < len(t) {
			t[i] = symName(1)[0]
		} else if sym.Bool() {
			t = append(t, symName(1)[0])
		}
		name = string(t)
	} else {
		name = symName(2 + sym.Choose(3))
	}
	fields := "{kind name fields(includeDeprecated:true){name type{" + typeRef(7) + "}args{name type{" + typeRef(6) + "}}}inputFields{name type{" + typeRef(6) + "}}interfaces{name}enumValues{name}possibleTypes{name}}"
	r := exec(st.s, "{__type(name:\""+name+"\")"+fields+"}")
	sym.Assert(!r.failed(), "a question for a type fails")
	t := st.typ(name)
	if t == nil {
		sym.Assert(r.data.get("__type").isNull(), "a type that is not listed is described")
		sym.Cover("unlisted")
		return
	}
	sym.Assert(r.data.get("__type").String() == t.String(), "a type is described differently by its name")
	sym.Cover("listed")
}

// Run_C22_whole: every type that is mentioned is listed once and complete.
func Run_C22_whole(st *introState) {
	names := []string{}
	for _, t := range st.types {
		for _, n := range names {
			sym.Assert(!t.get("name").isStr(n), "a type is listed twice")
		}
		names = append(names, t.get("name").s)
	}
	k := sym.Choose(len(st.types))
	t := st.types[k]
	mention := func(ref *jv) {
		b, _ := base(ref)
		x := st.typ(b.get("name").s)
		sym.Assert(x != nil && x.get("kind").s == b.get("kind").s, "a type in use is not listed")
	}
	kind := t.get("kind").s
	if kind == "OBJECT" || kind == "INTERFACE" {
		for _, f := range t.get("fields").vals {
			mention(f.get("type"))
			for _, a := range f.get("args").vals {
				mention(a.get("type"))
			}
		}
	} else if kind == "INPUT_OBJECT" {
		for _, f := range t.get("inputFields").vals {
			mention(f.get("type"))
		}
	}
	if kind == "INTERFACE" {
		for _, p := range t.get("possibleTypes").vals {
			x := st.typ(p.get("name").s)
			sym.Assert(x != nil && member(x.get("interfaces"), t.get("name").s) != nil, "an implementation does not name its interface")
			for _, f := range t.get("fields").vals {
				g := member(x.get("fields"), f.get("name").s)
				sym.Assert(g != nil && g.get("type").String() == f.get("type").String(), "an implementation misses a field of its interface")
			}
		}
	}
	if kind == "OBJECT" {
		for _, i := range t.get("interfaces").vals {
			x := st.typ(i.get("name").s)
			sym.Assert(x != nil && member(x.get("possibleTypes"), t.get("name").s) != nil, "an interface does not name its implementation")
		}
	}
	want := map[string]string{"InQ": "OBJECT", "InM": "OBJECT", "InObj": "OBJECT", "InDeep": "OBJECT", "InOne": "OBJECT", "InTwo": "OBJECT", "InMOnly": "OBJECT", "InIface": "INTERFACE", "InPut": "INPUT_OBJECT", "InOther": "INPUT_OBJECT", "InNest": "INPUT_OBJECT", "InColor": "ENUM", "InSize": "ENUM", "InBoth": "OBJECT", "InBoth__input": "INPUT_OBJECT", "inRenamed": "INPUT_OBJECT", "anOther": "OBJECT"}
	for n, kd := range want {
		x := st.typ(n)
		sym.Assert(x != nil && x.get("kind").isStr(kd), "a type in use is not listed")
	}
	sym.Assert(len(st.typ("InIface").get("possibleTypes").vals) == 2, "an interface lists other implementations")
	sym.Assert(st.doc.get("queryType").get("name").isStr("InQ") && st.doc.get("mutationType").get("name").isStr("InM"), "a root is named differently")
	sym.Cover("whole")
}

// Every way a field can be null.

type NlObj struct {
	P    *string
	Pp   **int
	L    []int
	Lp   []*int
	Ll   [][]string
	Pl   *[]int
	O    *NlObj
	Os   []*NlObj
	F    func() string
	Fp   func() *string
	Fl   func() ([]string, error)
	Fo   func() *NlObj
	I    InIface
	Is   []InIface
	Pi   *InIface
	T    *time.Time
	C    *InColor
	Cl   []*InColor
	D    *int `gq:"d,id"`
	Fl64 *float64
	B    *bool
	S    string
	N    NlIn
	A    [2]*int
}

type NlIn struct{ P *int }

var nlSet bool

func nlP[T any](v T) *T {
	if nlSet {
		return &v
	}
	return nil
}

func (NlObj) ResolveMp() *string { return nlP("m") }
func (NlObj) ResolveMl() []string {
	if nlSet {
		return []string{"l"}
	}
	return nil
}
func (NlObj) ResolveMi() InIface {
	if nlSet {
		return InOne{1}
	}
	return nil
}
func (NlObj) ResolveMo() (*NlObj, error)           { return nlP(NlObj{}), nil }
func (NlObj) ResolveMd() (*string, yarql.AttrIsID) { return nlP("id"), 0 }
func (NlObj) ResolveMs() string                    { return "s" }
func (NlObj) ResolveMn() NlIn                      { return NlIn{} }

type nlState struct {
	s *yarql.Schema
	o *NlObj
	t *jv
}

type NlQ struct{ O *NlObj }

func Setup_nl() *nlState {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]InColor{"R": 1, "RG": 2}); err != nil {
		panic(err.Error())
	}
	if _, err := s.RegisterEnum(map[string]InSize{"S": "s", "XL": "l"}); err != nil {
		panic(err.Error())
	}
	st := &nlState{o: &NlObj{}}
	st.s = parse(s, NlQ{st.o}, NoM{})
	r := exec(st.s, "{__type(name:\"NlObj\"){fields{name type{"+typeRef(5)+"}}}}")
	sym.Assert(!r.failed(), "introspection fails")
	st.t = r.data.get("__type").get("fields")
	return st
}

func nlCheck(v *jv, t *jv) {
	sym.Assert(v != nil && t != nil, "a value is missing")
	if t.get("kind").isStr("NON_NULL") {
		sym.Assert(v.k != 'n', "a field that is listed as never null is null")
		t = t.get("ofType")
	}
	if v.k == 'n' {
		return
	}
	if t.get("kind").isStr("LIST") {
		sym.Assert(v.k == 'a', "a listed list is something else")
		for _, e := range v.vals {
			nlCheck(e, t.get("ofType"))
		}
	}
}

// Run_C22_null: a field that is listed as never null does not become null.
//
// Bounds: every field of an object with all forms of pointers, lists, functions, interfaces and methods, each of them set, not set, or set with contents that are not set.
func Run_C22_null(st *nlState) {
	set, inner := sym.Bool(), sym.Bool()
	o := st.o
	*o = NlObj{S: "s"}
	nlSet = inner
	one := func() *int { return nlP(1) }
	if set {
		str := func() *string { return nlP("x") }
		o.P, o.L, o.Lp, o.Ll = str(), []int{1}, []*int{one(), nil}, [][]string{nil, {"a"}}
		p := one()
		o.Pp = &p
		l := []int{2}
		if !inner {
			l = nil
		}
		o.Pl, o.O, o.Os = &l, &NlObj{}, []*NlObj{nlP(NlObj{}), nil}
		o.F, o.Fp = func() string { return "f" }, str
		o.Fl = func() ([]string, error) {
			if inner {
				return []string{"x"}, nil
			}
			return nil, nil
		}
		o.Fo = func() *NlObj { return nlP(NlObj{}) }
		if inner {
			o.I = InOne{1}
		}
		o.Is, o.Pi = []InIface{o.I, InTwo{}}, &o.I
		o.T, o.C, o.Cl, o.D = nlP(time.Unix(5, 0)), nlP(InColor(1)), []*InColor{nlP(InColor(2)), nil}, one()
		f := 1.5
		o.Fl64, o.B = &f, nlP(true)
		o.N.P = one()
		o.A[1] = one()
	}
	f := st.t.at(sym.Choose(len(st.t.vals)))
	b, _ := base(f.get("type"))
	sel := ""
	if composite(b) {
		sel = "{__typename}"
	}
	r := exec(st.s, "{o{v:"+f.get("name").s+sel+"}}")
	sym.Assert(!r.failed(), "a listed field cannot be asked for")
	v := r.data.get("o").get("v")
	nlCheck(v, f.get("type"))
	sym.Cover("never null")
	if v.k == 'n' {
		sym.Cover("null")
	}
}
