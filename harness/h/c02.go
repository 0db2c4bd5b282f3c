package h

import (
	"errors"
	"mime/multipart"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

var c02frames = [][2]string{
	{"", ""},
	{"{", "}"},
	{"{a", "}"},
	{"{b{", "}}"},
	{"{c{a", "}}"},
	{"{i{", "}}"},
	{"{j{...on WImpl{", "}}}"},
	{"{m(", ")}"},
	{"{m(a:", ")}"},
	{"{m(a:\"", "\")}"},
	{"{m(b:1", ")}"},
	{"{m(c:[", "])a}"},
	{"{m(e:{", "})}"},
	{"{m(e:{c:[{", "}]})}"},
	{"{m(f:", ")}"},
	{"{m(g:\"", "\")}"},
	{"{m(h:", ")}"},
	{"{m(k:[", "])}"},
	{"{m(l:[[", "]])a}"},
	{"{m(m:{b:", "})}"},
	{"{m(o:", ") a}"},
	{"{m(p:[", "]) a}"},
	{"{m(j:\"", "\")}"},
	{"{n(a:[{", "}]){a}}"},
	{"{o(", "){a}}"},
	{"{o{a", "}}"},
	{"{a@skip(if:", ")}"},
	{"{a@include(", ")e}"},
	{"{...", "} fragment F on WQ{a}"},
	{"{...F} fragment F on ", "{a}"},
	{"{...F} fragment F on WQ{...", "}"},
	{"{...on WQ@skip(if:true){a}", "}"},
	{"query($a:", "){m(c:$a)}"},
	{"query($a:[Int]=", "){m(c:$a)}"},
	{"query($a:String){m(", ":$a)}"},
	{"query q(", "){a}"},
	{"mutation{", "}"},
	{"{__type(name:\"W", "\"){name}}"},
	{"{__typename", "}"},
	{"{k", " d{a}l}"},
	{"{f", " g h p r}"},
}

// Run_C02_frames: any bytes in a hole of a document executed against a schema with every kind of item.
func Run_C02_frames(w *wild) {
	f := c02frames[sym.Choose(len(c02frames))]
	n := 2 + sym.Tier()
	hole := sym.UpTo(0, n)
	q := f[0] + hole + f[1]
	r := exec(w.s, q)
	if r.failed() {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
	sym.Observe("res", r.raw)
}

var c02vars = [][2]string{
	{"", ""},
	{"{", "}"},
	{"{\"v\":", "}"},
	{"{\"v\":\"", "\"}"},
	{"{\"v\":[", "]}"},
	{"{\"v\":{\"", "\":1}}"},
	{"{\"v\":{\"b\":", "}}"},
	{"{\"v\":1", "}"},
	{"{\"v\":[\"", "\"]}"},
	{"{\"v\":-", "}"},
}

var c02uses = []string{
	"query($v:String){m(a:$v)}",
	"query($v:Int){m(b:$v)}",
	"query($v:[Int]){m(c:$v)}",
	"query($v:Boolean){m(d:$v)}",
	"query($v:WIn){m(e:$v)}",
	"query($v:WEnum){m(f:$v)}",
	"query($v:Time){m(g:$v)}",
	"query($v:ID){m(h:$v)}",
	"query($v:Float){m(i:$v)}",
	"query($v:File){m(j:$v)}",
	"query($v:[String]){m(k:$v)}",
	"query($v:[[String]]){m(l:$v)}",
	"query($v:WIn){m(m:$v)}",
	"query($v:Int){m(n:$v) a}",
	"query($v:Int){m(o:$v) a}",
	"query($v:[WEnum]){m(p:$v)}",
	"query($v:Boolean){a@skip(if:$v) e}",
	"query($v:[WIn]){n(a:$v){a}}",
}

// Run_C02_vars: any bytes in a hole of the variables document.
func Run_C02_vars(w *wild) {
	use := c02uses[sym.Choose(len(c02uses))]
	f := c02vars[sym.Choose(len(c02vars))]
	n := 1 + sym.Tier()
	hole := sym.UpTo(0, n)
	o := yarql.ResolveOptions{Variables: f[0] + hole + f[1]}
	if sym.Bool() {
		o.GetFormFile = func(key string) (*multipart.FileHeader, error) {
			if key == "f" {
				return &multipart.FileHeader{}, nil
			}
			return nil, errors.New("no such file")
		}
	}
	r := execOpt(w.s, use, o)
	if r.failed() {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
	sym.Observe("res", r.raw)
}

var c02deep = []string{
	"{b{b{c{i{n a:n}}}}}",
	"{j{n ...on WImpl2{i{n}}}}",
	"{c{i{n}b{i{n}}}}",
}

var atoms = []string{
	"a", "b{a}", "c{m(a:\"e\")}", "d{a}", "e", "f", "g", "h", "i{n}", "j{n}", "k", "l", "m(a:\"e\")", "m(b:300)", "m(b:1)",
	"n(a:[{a:\"q\"}]){a}", "o(a:\"x\"){b{a}}", "p", "r", "__typename", "__typename{a}", "__typename(a:1)", "zz", "zz{a}", "b", "a{b}", "a(x:1)", "b(x:1){a}",
	"a@skip(if:true)", "m@include(if:true)(a:\"e\")", "...F", "...G", "...on WQ{a}", "...on WObj{a}", "a@nope", "d(x:1){a}", "o{m}", "x:a", "x:m(h:-1)",
	"b{i{n}}", "c{i{n ...on WImpl{a}}}", "j{...on WImpl2{i{n}}}", "__schema{queryType{name}}", "__type(name:\"WQ\"){name}", "__type(name:\"nope\"){name}",
}

// Run_C02_mix: sequences of selections, failing and succeeding, at one level.
func Run_C02_mix(w *wild) {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	q := "{"
	for i := 0; i < n; i++ {
		q += atoms[sym.Choose(len(atoms))] + " "
	}
	q += "}"
	if sym.Bool() {
		q += " fragment F on WQ{b{a}}"
	}
	r := exec(w.s, q)
	sym.Cover("answered")
	if r.failed() {
		sym.Cover("failed")
	}
	sym.Observe("res", r.raw)
}

type deepT struct {
	A string
	n int
}

func (d deepT) ResolveKid() *deepT {
	if d.n == 0 {
		return nil
	}
	return &deepT{"k", d.n - 1}
}
func (d deepT) ResolveKids() []deepT { return []deepT{{"a", d.n - 1}} }
func (d deepT) ResolveNest() [][]*deepT {
	return [][]*deepT{{{"n", d.n - 1}}}
}
func (d deepT) ResolveFace() deepI { return deepF{d.n - 1} }

type deepI interface {
	ResolveSelf() deepI
	ResolveKids() []deepT
}
type deepF struct{ n int }

func (d deepF) ResolveSelf() deepI   { return d }
func (d deepF) ResolveKids() []deepT { return []deepT{{"f", d.n}} }

var _ = yarql.Implements((*deepI)(nil), deepF{})

type deepQ struct{ A string }

func (deepQ) ResolveTop() deepT { return deepT{"t", 1000} }

type deepState struct{ s *yarql.Schema }

func Setup_deep2() *deepState {
	s := yarql.NewSchema()
	s.MaxDepth = 255
	return &deepState{parse(s, deepQ{A: "a"}, NoM{})}
}

// Run_C02_deep: data nested as deep as the schema allows, in every way.
func Run_C02_deep(st *deepState) {
	n := []int{30, 62, 63, 64, 83, 84, 85, 100, 125, 126, 127, 128, 240}[sym.Choose(13)]
	link := []string{"kid", "kids", "nest", "face{kids", "kid{kids{nest"}[sym.Choose(5)]
	per := 1
	for _, c := range link {
		if c == '{' {
			per++
		}
	}
	open, shut := "", ""
	for i := 0; i+per <= n; i += per {
		open += link + "{"
		for j := 0; j < per; j++ {
			shut += "}"
		}
	}
	last := string([]byte{sym.Pick("aAz")})
	r := exec(st.s, "{top{"+open+last+shut+"}a}")
	if last == "a" {
		assertc(!r.failed() && r.data.get("a").isStr("a"), "deep data is not answered")
		sym.Cover("deep")
	}
}

// Run_C02_names: names as long as the rest of the program and longer.
func Run_C02_names(w *wild) {
	n := sym.Choose(82)
	if n > 78 {
		n += 176 // 255..
	}
	name := string([]byte{sym.Pick("aFz_")})
	for len(name) < n {
		name += "a"
	}
	q := []string{
		"{..." + name + "}fragment F on WQ{a}",
		"{...F a}fragment F on WQ{..." + name + "}",
		"{..." + name + "}",
		"{...F}fragment " + name + " on WQ{a}fragment F on WQ{a}",
		"{" + name + "}",
		"{" + name + ":a}",
		"{a(" + name + ":1)}",
		"{m(b:$" + name + ")}",
		"{m(f:" + name + ")}",
		"{a@" + name + "}",
		"query " + name + "{a}",
		"query($" + name + ":Int){m(b:$" + name + ")}",
		"query($v:" + name + "){m(b:$v)}",
		"{...on " + name + "{a}}",
		"{...F}fragment F on " + name + "{a}",
		"{__type(name:\"" + name + "\"){name}}",
	}[sym.Choose(16)]
	r := exec(w.s, q)
	if r.failed() {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
	sym.Observe("res", r.raw)
}
