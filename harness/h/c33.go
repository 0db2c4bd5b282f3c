package h

import (
	"errors"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the signature checks: resolvers of every supported form.

type ShEnum uint64

const (
	ShLow  ShEnum = 5
	ShHigh ShEnum = 5 | 1<<40
	ShTop  ShEnum = 5 | 1<<63
)

type ShEnum8 int8

func shEnums(s *yarql.Schema) *yarql.Schema {
	for _, m := range []interface{}{
		map[string]ShEnum{"LOW": ShLow, "HIGH": ShHigh, "TOP": ShTop},
		map[string]ShEnum8{"MINUS": -1, "PLUS": 1},
	} {
		if _, err := s.RegisterEnum(m); err != nil {
			panic(err.Error())
		}
	}
	return s
}

type ShIn struct {
	A string
	N *ShIn
}

type ShA struct {
	A string
	B *int8
}

type ShB struct {
	C []string
	D ShIn
	E ShEnum
}

type ShC struct {
	F **string
	G struct{ X, Y string }
	H uint8 `gq:"aitch,id"`
}

// ShRenamed goes by another name.
type ShRenamed struct{ A string }

var _ = yarql.TypeRename(ShRenamed{}, "shNewName")

var shErr, shIDErr bool

func shE() error {
	if shErr {
		return errors.New("failed")
	}
	return nil
}

func shText(a ShA, b ShB) string {
	t := a.A + "|"
	if a.B != nil {
		t += itoa(int(*a.B))
	}
	for _, s := range b.C {
		t += "," + s
	}
	return t + "|" + b.D.A
}

func shC(c ShC) string {
	t := ""
	if c.F != nil && *c.F != nil {
		t = **c.F
	}
	return t + "|" + c.G.X + c.G.Y + "|" + itoa(int(c.H))
}

type ShObj struct {
	A string
	F func(ShA) (error, string)
	E func() (error, string, yarql.AttrIsID)
}

func (o ShObj) ResolveB(c *yarql.Ctx, a ShA) (error, *ShObj) {
	return shE(), &ShObj{A: o.A + a.A}
}

type ShQ struct {
	Val  string
	FEV  func(ShA) (error, string)
	FC   func(ShA, *yarql.Ctx, ShB) (string, error)
	FI   func() (error, uint16, yarql.AttrIsID)
	FO   func(*yarql.Ctx) (error, []ShObj)
	FNil func(ShA) (error, string)
	FBA  func(ShB, ShA) string
	FBCA func(ShB, *yarql.Ctx, ShA) (error, string)
	FCBA func(*yarql.Ctx, ShB, ShA) (string, error)
	FCA  func(ShC, ShA, *yarql.Ctx, ShB) string
	An   struct{ A, B string }
	An2  struct {
		B, C string
		D    struct{ A, E string }
	}
	AnL []struct {
		C string
		F func(ShA) string
	}
	PP  **string
	PPO **ShObj
	Ren ShRenamed
	E   ShEnum
	E8  ShEnum8
	Ptr *[]*string
}

func (ShQ) ResolveVE(a ShA) (string, error)                   { return shText(a, ShB{}), shE() }
func (ShQ) ResolveEV(a ShA) (error, string)                   { return shE(), shText(a, ShB{}) }
func (ShQ) ResolveEVI(a ShA) (error, string, yarql.AttrIsID)  { return shE(), shText(a, ShB{}), 0 }
func (ShQ) ResolveIVE(a ShA) (yarql.AttrIsID, uint8, error)   { return 0, uint8(len(a.A)), shE() }
func (ShQ) ResolveVIE(a ShA) (int16, yarql.AttrIsID, error)   { return int16(len(a.A)), 0, shE() }
func (ShQ) ResolveEIV(a ShA) (error, yarql.AttrIsID, *string) { return shE(), 0, &a.A }
func (ShQ) ResolveAB(a ShA, b ShB) string                     { return shText(a, b) }
func (ShQ) ResolveBA(b ShB, a ShA) (string, error)            { return shText(a, b), shE() }
func (ShQ) ResolveBCA(b ShB, c *yarql.Ctx, a ShA) (error, string) {
	return shE(), shText(a, b) + ctxVal(c)
}
func (ShQ) ResolveCAB(c *yarql.Ctx, a ShA, b ShB) string       { return shText(a, b) + ctxVal(c) }
func (ShQ) ResolveABC(a ShA, b ShB, c *yarql.Ctx) string       { return shText(a, b) + ctxVal(c) }
func (ShQ) ResolveCC(c *yarql.Ctx, a ShA, d *yarql.Ctx) string { return ctxVal(c) + a.A + ctxVal(d) }
func (ShQ) ResolveCABD(x ShC, a ShA, c *yarql.Ctx, b ShB) string {
	return shText(a, b) + shC(x) + ctxVal(c)
}
func (ShQ) ResolveAnon(a struct{ Q string }, b struct{ R string }) string { return a.Q + "/" + b.R }
func (ShQ) ResolveEn(b ShB) (ShEnum, error)                               { return b.E, shE() }
func (ShQ) ResolveEr() (error, []ShObj)                                   { return shE(), []ShObj{{A: "l"}} }
func (ShQ) ResolveNone(a struct{}) string                                 { return "none" }

func ctxVal(c *yarql.Ctx) string {
	t, _ := c.GetValue("k").(string)
	return "#" + t
}

type ShM struct{}

func (ShM) ResolveEV(b ShB, a ShA) (error, string) { return shE(), shText(a, b) }

func shSchema() *yarql.Schema {
	p := "pp"
	pp := &p
	o := &ShObj{A: "ppo"}
	l := []*string{&p, nil}
	q := ShQ{Val: "v",
		FEV: func(a ShA) (error, string) { return shE(), shText(a, ShB{}) },
		FC:  func(a ShA, c *yarql.Ctx, b ShB) (string, error) { return shText(a, b) + ctxVal(c), shE() },
		FI:  func() (error, uint16, yarql.AttrIsID) { return shE(), 12, 0 },
		FO: func(c *yarql.Ctx) (error, []ShObj) {
			return shE(), []ShObj{{A: "x", F: func(a ShA) (error, string) { return shE(), a.A }}, {A: "y"}}
		},
		FBA:  func(b ShB, a ShA) string { return shText(a, b) },
		FBCA: func(b ShB, c *yarql.Ctx, a ShA) (error, string) { return shE(), shText(a, b) + ctxVal(c) },
		FCBA: func(c *yarql.Ctx, b ShB, a ShA) (string, error) { return shText(a, b) + ctxVal(c), shE() },
		FCA:  func(x ShC, a ShA, c *yarql.Ctx, b ShB) string { return shText(a, b) + shC(x) + ctxVal(c) },
		PP:   &pp, PPO: &o, Ren: ShRenamed{"ren"}, E: ShHigh, E8: -1, Ptr: &l,
	}
	q.An.A, q.An.B = "an.a", "an.b"
	q.An2.B, q.An2.C, q.An2.D.A, q.An2.D.E = "an2.b", "an2.c", "an2.d.a", "an2.d.e"
	q.AnL = append(q.AnL, struct {
		C string
		F func(ShA) string
	}{"anl.c", func(a ShA) string { return "f" + a.A }})
	return parse(shEnums(yarql.NewSchema()), q, ShM{})
}

// shapes are a schema, a copy of it, and one built alike.
type shapes struct{ s, c, ref *yarql.Schema }

func Setup_shapes() *shapes {
	s := shSchema()
	return &shapes{s, s.Copy(), shSchema()}
}

// shCase is a field and the values its arguments can have.
type shCase struct {
	field   string
	a, b, c bool
	err, id bool
	ctx     int
	kind    byte // s text of shText, l length of a, a the text of a, o other
}

var shCases = []shCase{
	{field: "VE", a: true, err: true, kind: 's'},
	{field: "EV", a: true, err: true, kind: 's'},
	{field: "EVI", a: true, err: true, id: true, kind: 's'},
	{field: "IVE", a: true, err: true, id: true, kind: 'l'},
	{field: "VIE", a: true, err: true, id: true, kind: 'l'},
	{field: "EIV", a: true, err: true, id: true, kind: 'a'},
	{field: "AB", a: true, b: true, kind: 's'},
	{field: "BA", a: true, b: true, err: true, kind: 's'},
	{field: "BCA", a: true, b: true, err: true, ctx: 1, kind: 's'},
	{field: "CAB", a: true, b: true, ctx: 1, kind: 's'},
	{field: "ABC", a: true, b: true, ctx: 1, kind: 's'},
	{field: "CABD", a: true, b: true, c: true, ctx: 1, kind: 's'},
	{field: "FEV", a: true, err: true, kind: 's'},
	{field: "FC", a: true, b: true, err: true, ctx: 1, kind: 's'},
	{field: "FBA", a: true, b: true, kind: 's'},
	{field: "FBCA", a: true, b: true, err: true, ctx: 1, kind: 's'},
	{field: "FCBA", a: true, b: true, err: true, ctx: 1, kind: 's'},
	{field: "FCA", a: true, b: true, c: true, ctx: 1, kind: 's'},
}

// Run_C33_signature: resolvers with their parameters and results in any order: every argument reaches the parameter it belongs to, the value, the error and the id mark are taken from the right result.
func Run_C33_signature(st *shapes) {
	shErr = sym.Bool()
	s := st.s
	if sym.Bool() {
		s = st.c
	}
	x, y, d := sym.StrOf(1, "abcXYZ"), sym.StrOf(1, "abcXYZ"), sym.StrOf(1, "0123456789")
	k := sym.Choose(len(shCases))
	c := shCases[k]
	mutation := sym.Bool()
	if mutation && c.field != "EV" {
		sym.Assume(false)
	}
	b := c.b || mutation
	// which of the arguments are given
	args, want := "", ""
	at, bt, ct, dt := sym.Bool(), sym.Bool(), false, false
	if at {
		args += "a:\"" + x + "\" "
		want += x
	}
	want += "|"
	if bt {
		args = "b:" + d + " " + args
		want += d
	}
	if b {
		ct, dt = sym.Bool(), sym.Bool()
	}
	if ct {
		args += "c:[\"" + y + "\",\"" + x + "\"] "
		want += "," + y + "," + x
	}
	want += "|"
	if dt {
		args = "d:{n:{a:\"z\"}a:\"" + y + "\"} " + args
		want += y
	}
	if c.c {
		switch sym.Choose(3) {
		case 0:
			args += "f:\"" + x + "\" aitch:" + d
			want += x + "||" + d
		case 1:
			args += "g:{y:\"" + x + "\" x:\"" + y + "\"} "
			want += "|" + y + x + "|0"
		default:
			want += "||0"
		}
	}
	o := yarql.ResolveOptions{}
	for i := 0; i < c.ctx; i++ {
		want += "#" + y
		o.Values = &map[string]interface{}{"k": y}
	}
	if args != "" {
		args = "(" + args + ")"
	}
	switch c.kind {
	case 'l':
		want = "0"
		if at {
			want = "1"
		}
	case 'a':
		want = ""
		if at {
			want = x
		}
	}
	q := "{" + c.field + args + " val}"
	if mutation {
		q = "mutation{" + c.field + args + "}"
	}
	r := execOpt(s, q, o)
	v := r.data.get(c.field)
	if shErr && c.err {
		sym.Assert(len(r.errs) == 1 && r.errs[0].Error() == "failed" && v.isNull(), "the error of a resolver is not reported")
		sym.Cover("failed")
	} else {
		sym.Assert(!r.failed() && v.isStr(want), "an argument or a result is confused with another one")
		sym.Cover("answered")
	}
	if !mutation {
		sym.Assert(r.data.get("val").isStr("v"), "the field behind is affected")
	}
}

// Run_C33_other: contexts, anonymous types, functions in structs, pointers to pointers, renamed types, nil functions.
func Run_C33_other(st *shapes) {
	shErr = sym.Bool()
	s := st.s
	if sym.Bool() {
		s = st.c
	}
	x, y := sym.StrOf(1, "abcXYZ"), sym.StrOf(1, "abcXYZ")
	o := yarql.ResolveOptions{Values: &map[string]interface{}{"k": y}}
	errs := 0
	var r *resp
	run := func(q string, fails int) *resp {
		if shErr {
			errs = fails
		}
		r = execOpt(s, q, o)
		sym.Assert(len(r.errs) == errs, "the errors of resolvers are not reported one by one")
		return r
	}
	ok := func(v *jv, want string) bool {
		if shErr {
			return v.isNull()
		}
		return v.isStr(want)
	}
	switch sym.Choose(12) {
	case 0:
		v := run("{CC(a:\""+x+"\")val}", 0).data.get("CC")
		sym.Assert(v.isStr("#"+y+x+"#"+y), "the context reaches a resolver wrongly")
	case 1:
		v := run("{anon(r:\""+x+"\" q:\""+y+"\")}", 0).data.get("anon")
		sym.Assert(v.isStr(y+"/"+x), "an argument or a result is confused with another one")
	case 2:
		v := run("{FI}", 1).data.get("FI")
		sym.Assert(ok(v, "12"), "an argument or a result is confused with another one")
	case 3:
		v := run("{fO:FO{a f(a:\""+x+"\")b(a:\""+y+"\"){a}}}", 1).data.get("fO")
		if shErr {
			sym.Assert(v.isNull(), "the error of a resolver is not reported")
		} else {
			sym.Assert(len(v.vals) == 2 && v.at(0).get("f").isStr(x) && v.at(0).get("b").get("a").isStr("x"+y) && v.at(1).get("f").isNull() && v.at(1).get("b").get("a").isStr("y"+y), "an argument or a result is confused with another one")
		}
	case 4:
		v := run("{FNil(a:\""+x+"\")val}", 0)
		sym.Assert(v.data.get("FNil").isNull() && v.data.get("val").isStr("v"), "a nil function is not null")
	case 5:
		v := run("{an{b a}an2{d{e a}c b}anL{f(a:\""+x+"\")c}}", 0).data
		sym.Assert(v.get("an").String() == "{\"b\":\"an.b\",\"a\":\"an.a\"}" && v.get("an2").String() == "{\"d\":{\"e\":\"an2.d.e\",\"a\":\"an2.d.a\"},\"c\":\"an2.c\",\"b\":\"an2.b\"}", "one anonymous type is taken for another one")
		sym.Assert(v.get("anL").at(0).get("f").isStr("f"+x) && v.get("anL").at(0).get("c").isStr("anl.c"), "one anonymous type is taken for another one")
	case 6:
		n := sym.StrOf(1, "abcdefABCDEF")
		r := exec(s, "{an{"+n+"}an2{b}}")
		sym.Assert(r.failed() == (n != "a" && n != "b"), "one anonymous type is taken for another one")
		r = exec(s, "{an{a}an2{"+n+" d{a}}}")
		sym.Assert(r.failed() == (n != "b" && n != "c"), "one anonymous type is taken for another one")
	case 7:
		v := run("{PP PPO{a b(a:\""+x+"\"){a}}}", 1).data
		sym.Assert(v.get("PP").isStr("pp") && v.get("PPO").get("a").isStr("ppo"), "a pointer to a pointer")
		if !shErr {
			sym.Assert(v.get("PPO").get("b").get("a").isStr("ppo"+x), "a pointer to a pointer")
		}
	case 8:
		v := run("{ren{a __typename ...on shNewName{x:a}...on ShRenamed{y:a}}ptr}", 0).data
		sym.Assert(v.get("ren").String() == "{\"a\":\"ren\",\"__typename\":\"shNewName\",\"x\":\"ren\"}", "a renamed type goes by another name")
		sym.Assert(v.get("ptr").String() == "[\"pp\",null]", "a pointer to a list")
	case 9:
		n := []string{"LOW", "HIGH", "TOP"}[sym.Choose(3)]
		v := run("{e E8 en(e:"+n+")}", 1).data
		sym.Assert(v.get("e").isStr("HIGH") && v.get("E8").isStr("MINUS") && ok(v.get("en"), n), "one enum value is taken for another one")
	case 10:
		v := run("{er{a}}", 1).data.get("er")
		if shErr {
			sym.Assert(v.isNull(), "the error of a resolver is not reported")
		} else {
			sym.Assert(len(v.vals) == 1 && v.at(0).get("a").isStr("l"), "an argument or a result is confused with another one")
		}
	default:
		n := sym.StrOf(1, "abcdefgh")
		r := exec(s, "{none"+"("+n+":\"1\")}")
		sym.Assert(r.failed(), "an argument that does not exist is accepted")
	}
	sym.Cover("answered")
}
