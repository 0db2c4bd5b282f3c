package h

import (
	"time"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// Every kind of value, as field, result, argument and member.

type KnVals struct {
	S   string
	B   bool
	I   int
	I8  int8  `gq:"i8"`
	I16 int16 `gq:"i16"`
	I32 int32 `gq:"i32"`
	I64 int64 `gq:"i64"`
	U   uint
	U8  uint8   `gq:"u8"`
	U16 uint16  `gq:"u16"`
	U32 uint32  `gq:"u32"`
	U64 uint64  `gq:"u64"`
	F32 float32 `gq:"f32"`
	F64 float64 `gq:"f64"`
	D   string  `gq:"d,id"`
	E   KnEnum
	T   time.Time
}

type KnEnum uint16

type KnPtrs struct {
	S   *string
	B   *bool
	I   *int
	I8  *int8  `gq:"i8"`
	I16 *int16 `gq:"i16"`
	I32 *int32 `gq:"i32"`
	I64 *int64 `gq:"i64"`
	U   *uint
	U8  *uint8   `gq:"u8"`
	U16 *uint16  `gq:"u16"`
	U32 *uint32  `gq:"u32"`
	U64 *uint64  `gq:"u64"`
	F32 *float32 `gq:"f32"`
	F64 *float64 `gq:"f64"`
	E   *KnEnum
	T   *time.Time
}

type KnLists struct {
	S   []string
	B   []bool
	I   []int
	I8  []int8  `gq:"i8"`
	I16 []int16 `gq:"i16"`
	I32 []int32 `gq:"i32"`
	I64 []int64 `gq:"i64"`
	U   []uint
	U8  []uint8   `gq:"u8"`
	U16 []uint16  `gq:"u16"`
	U32 []uint32  `gq:"u32"`
	U64 []uint64  `gq:"u64"`
	F32 []float32 `gq:"f32"`
	F64 []float64 `gq:"f64"`
	E   []KnEnum
	T   []time.Time
}

// the same as values that come in
type (
	KnIn struct {
		V  KnVals
		P  KnPtrs
		L  KnLists
		Pv *KnVals  `gq:"pv"`
		Lv []KnVals `gq:"lv"`
	}
	KnOut struct {
		V  KnVals
		P  KnPtrs
		L  KnLists
		Pv *KnVals  `gq:"pv"`
		Lv []KnVals `gq:"lv"`
	}
)

type KnQ struct{ O KnOut }

func (KnQ) ResolveVals(a KnVals) KnVals    { return a }
func (KnQ) ResolvePtrs(a KnPtrs) KnPtrs    { return a }
func (KnQ) ResolveLists(a KnLists) KnLists { return a }
func (KnQ) ResolveIn(a KnIn) KnOut         { return KnOut(a) }

type knState struct {
	s   *yarql.Schema
	doc *jv
}

func Setup_kinds() *knState {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]KnEnum{"E0": 0, "E1": 1, "E2": 700}); err != nil {
		panic(err.Error())
	}
	s = parse(s, KnQ{}, KnM{})
	s.MaxDepth = 30
	r := exec(s, introDoc)
	sym.Assert(!r.failed(), "introspection fails")
	return &knState{s, r.data.get("__schema")}
}

// name of the member, listed type, values in and out: '#' stands for a digit
var knKinds = [][]string{
	{"s", "String", "\"#x\""}, {"b", "Boolean", "true", "false"}, {"i", "Int", "#", "-#", "9223372036854775807", "-9223372036854775808"}, {"i8", "Int", "#", "-#", "127", "-128"}, {"i16", "Int", "12#", "-#", "32767", "-32768"},
	{"i32", "Int", "-3#", "2147483647", "-2147483648"}, {"i64", "Int", "#", "9223372036854775807", "-9223372036854775808"}, {"u", "Int", "#", "18446744073709551615"}, {"u8", "Int", "2#", "255"}, {"u16", "Int", "#", "65535"},
	{"u32", "Int", "#", "4294967295"}, {"u64", "Int", "#", "18446744073709551615"}, {"f32", "Float", "2.5", "-0.25"}, {"f64", "Float", "1.5", "-123456.75"}, {"e", "KnEnum", "E0", "E1", "E2"}, {"t", "Time", "\"2021-03-04T10:20:30.000Z\"", "\"1970-01-01T00:00:00.000Z\""}, {"d", "ID", "\"#\""},
}

func knQuote(v string, name string) string {
	if name == "e" {
		return "\"" + v + "\""
	}
	return v
}

func knText(v *jv) string {
	if v == nil {
		return "missing"
	}
	switch v.k {
	case 's':
		return "\"" + v.s + "\""
	case '0':
		return v.s
	case 't':
		return "true"
	case 'f':
		return "false"
	case 'n':
		return "null"
	case 'a':
		s := "["
		for i, e := range v.vals {
			if i > 0 {
				s += ","
			}
			s += knText(e)
		}
		return s + "]"
	}
	return "other"
}

// Run_C22_kinds: every kind of value is listed with the type a user expects, wherever it is a field, an argument or a member, and that type is the one to declare for a variable: the value given comes back. Bounds: 17 kinds of value as such, as pointer and as list, as argument, member of an input, member of one in a list, in a resolved and a plain field; values with one free digit and the smallest and greatest of each kind; literal, variable, default.
func Run_C22_kinds(st *knState) {
	k := knKinds[sym.Choose(len(knKinds))]
	name := k[0]
	shape := sym.Choose(3)
	if name == "d" {
		shape = 0
	}
	v := []byte(k[2+sym.Choose(len(k)-2)])
	for i := range v {
		if v[i] == '#' {
			v[i] = sym.StrOf(1, "123456789")[0]
		}
	}
	val := string(v)
	want := k[1] + "!"
	lit, out := val, knQuote(val, name)
	switch shape {
	case 1:
		want = k[1]
	case 2:
		want = "[" + k[1] + "!]"
		lit, out = "["+lit+","+lit+"]", "["+out+","+out+"]"
	}
	grp := []string{"vals", "ptrs", "lists"}[shape]
	tn := []string{"KnVals", "KnPtrs", "KnLists"}[shape]
	place := sym.Choose(4)
	var t *jv
	var pre, post string
	var path []string
	types := st.doc.get("types")
	switch place {
	case 0: // argument
		t = member(member(member(types, "KnQ").get("fields"), grp).get("args"), name)
		pre, post = "{"+grp+"("+name+":", "){"+name+"}}"
		path = []string{grp, name}
	case 1: // member of a member
		t = member(member(types, tn+"__input").get("inputFields"), name)
		m := grp[:1]
		pre, post = "{in("+m+":{"+name+":", "}){"+m+"{"+name+"}}}"
		path = []string{"in", m, name}
	case 2: // in a list or behind a pointer
		sym.Assume(shape == 0)
		t = member(member(types, tn+"__input").get("inputFields"), name)
		if sym.Bool() {
			pre, post = "{in(pv:{"+name+":", "}){pv{"+name+"}}}"
			path = []string{"in", "pv", name}
		} else {
			pre, post = "{in(lv:[{"+name+":", "}]){lv{"+name+"}}}"
			path = []string{"in", "lv", "0", name}
		}
	default: // what comes out
		f := member(member(types, tn).get("fields"), name)
		sym.Assert(f != nil, "a field is not listed")
		sym.Assert(typeText(f.get("type")) == want, "a field is listed with another type")
		sym.Cover("field")
		return
	}
	sym.Assert(t != nil, "an argument or member is not listed")
	sym.Assert(typeText(t.get("type")) == want, "an argument or member is listed with another type")
	var r *resp
	js := out
	switch sym.Choose(3) {
	case 0:
		r = exec(st.s, pre+lit+post)
		sym.Cover("literal")
	case 1:
		r = execVars(st.s, "query($v:"+want+")"+pre+"$v"+post, "{\"v\":"+js+"}")
		sym.Cover("variable")
	default:
		r = exec(st.s, "query($v:"+want+"="+lit+")"+pre+"$v"+post)
		sym.Cover("default")
	}
	sym.Assert(!r.failed(), "a value of the listed type is refused")
	x := r.data
	for _, p := range path {
		if p == "0" {
			x = x.at(0)
		} else {
			x = x.get(p)
		}
	}
	sym.Assert(knText(x) == out, "a value of the listed type does not come back")
}

type KnM struct{}
