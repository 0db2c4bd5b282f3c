package h

import (
	"github.com/mjarkk/yarql"
	"time"

	"yarqlverif/harness/sym"
)

// copies are a schema, a copy of it, and one built alike on its own.
type copies struct{ s, c, ref *yarql.Schema }

func Setup_copies() *copies {
	s := buildWild()
	return &copies{s, s.Copy(), buildWild()}
}

// equal sends a request to two schemas that have to answer alike.
func equalAnswers(x, y *yarql.Schema, r request, msg string) {
	p := &pair{x, y}
	p.ask(r, msg)
}

// Run_C15_frames: any request to the original and the copy.
func Run_C15_frames(st *copies) {
	f := c02frames[sym.Choose(len(c02frames))]
	q := f[0] + sym.UpTo(0, 1+sym.Tier()) + f[1]
	equalAnswers(st.c, st.s, request{q: q, vars: "{\"a\":[1]}"}, "the copy answers differently")
	sym.Cover("same")
}

var introspectAll = "{__schema{queryType{name}mutationType{name}subscriptionType{name}directives{name description locations args{name type{kind name ofType{name}}}}" +
	"types{kind name description fields(includeDeprecated:true){name type{kind name ofType{kind name ofType{kind name ofType{kind name}}}}args{name type{kind name ofType{kind name ofType{kind name}}}defaultValue}}" +
	"inputFields{name type{kind name ofType{kind name}}}interfaces{name}enumValues(includeDeprecated:true){name description}possibleTypes{name}}}}"

var copyProbes = append([]request{
	{q: introspectAll},
	{q: "{__schema{directives{name args{name}}types{name}}}"},
	{q: "{__type(name:\"WObj\"){name fields{name args{name type{name}}}}a}"},
	{q: "{__type(name:\"WEnum\"){enumValues{name}}__schema{queryType{fields{name}}}}"},
}, probes...)

// Run_C15_apart: requests on one of them never change the answers of the other.
func Run_C15_apart(st *copies) {
	a, b := st.s, st.c
	if sym.Bool() {
		a, b = b, a
	}
	var r1 request
	probes := copyProbes
	if sym.Bool() {
		r1 = historyItem()
	} else {
		if sym.Tier() == 0 {
			probes = probes[2:16]
		}
		f := c02frames[sym.Choose(len(c02frames))]
		r1 = request{q: f[0] + sym.UpTo(1, 1) + f[1]}
	}
	r1.send(a)
	kept := string(a.Result)
	equalAnswers(b, st.ref, probes[sym.Choose(len(probes))], "requests on the other schema change the answer")
	sym.Assert(string(a.Result) == kept, "the answer of the other schema is overwritten")
	sym.Cover("same")
}

// Run_C15_late: a copy made after requests and settings.
func Run_C15_late(st *copies) {
	r1 := historyItem()
	v := sym.StrOf(1, "abc")
	st.s.Resolve([]byte("{m(a:\""+v+"\")}"), yarql.ResolveOptions{})
	r1.send(st.s)
	c := st.s.Copy()
	if sym.Bool() {
		c = c.Copy()
	}
	if sym.Bool() {
		// what happens to the original afterwards does not matter
		k := sym.Choose(3 + 10*sym.Tier())
		historyItems[len(historyItems)-1-k].fill("z").send(st.s)
	}
	equalAnswers(c, st.ref, copyProbes[sym.Choose(len(copyProbes))], "a copy of a used schema answers differently")
	sym.Cover("same")
}

// Run_C15_limits: a copy has the limits of the original at that time, and its own afterwards.
func Run_C15_limits(st *copies) {
	d1, d2 := byte(sym.Range(0, 7)), byte(sym.Range(0, 7))
	st.s.MaxDepth = d1
	if sym.Bool() {
		st.s.SetCacheRules(min1(0))
	}
	c := st.s.Copy()
	q := []string{"{b{b{c{i{n}}}}}", "{d{a}b{a}j{n}}", "{c{b{a}}}", "{o(a:\"x\"){b{a}}e}"}[sym.Choose(4)]
	st.ref.MaxDepth = d1
	which := sym.Choose(3)
	if which == 0 {
		st.s.MaxDepth = d2
	} else if which == 1 {
		c.MaxDepth = d2
	}
	d := d1
	equalAnswers(c, st.s, request{q: "{a}"}, "the copy answers differently")
	if which == 1 {
		equalAnswers(st.s, st.ref, request{q: q}, "a limit set on the copy changes the original")
		d = d2
	} else if which == 0 {
		equalAnswers(c, st.ref, request{q: q}, "a limit set on the original changes the copy")
	} else {
		equalAnswers(c, st.ref, request{q: q}, "the copy has another limit")
	}
	_ = d
	sym.Cover("same")
}

// Run_C15_trace: tracing on one of them leaves the other alone, and lists its own fields only.
func Run_C15_trace(st *copies) {
	a, b := st.s, st.c
	if sym.Bool() {
		a, b = b, a
	}
	ra := execOpt(a, "{a e f}", yarql.ResolveOptions{Tracing: true})
	n := 1 + sym.Choose(2)
	q := []string{"{r}", "{r a}"}[n-1]
	rb := execOpt(b, q, yarql.ResolveOptions{Tracing: sym.Bool()})
	al := symName(1)
	rc := execOpt(a, "{"+al+":a e f g}", yarql.ResolveOptions{Tracing: true})
	sym.Assert(traceLen(ra) == 3 && traceLen(rc) == 4, "a trace lists the fields of another request")
	sym.Assert(traceLen(rb) == n || rb.v.get("extensions") == nil, "a trace lists the fields of another schema")
	sym.Cover("same")
}

// traceLen is the number of traced resolvers, -1 without a trace.
func traceLen(r *resp) int {
	t := r.v.get("extensions").get("tracing")
	if t == nil {
		return -1
	}
	l := t.get("execution").get("resolvers")
	if l == nil || l.k != 'a' {
		return -1
	}
	return len(l.vals)
}

// Run_C15_shapes: resolvers of every supported form, anonymous and renamed types, enums of every width: the copy and its own copy answer like the original, introspection included.
func Run_C15_shapes(st *shapes) {
	shErr = sym.Bool()
	x := sym.StrOf(1, "abcde")
	n := sym.StrOf(1, "HLT")
	o := request{val: "kept"}.opts()
	q := []string{
		"{VE(a:\"~\")EV(a:\"~\")EVI(a:\"~\")IVE(a:\"~\")VIE(a:\"~\")EIV(a:\"~\")}",
		"{AB(a:\"~\" c:[\"~\"])BA(b:3 d:{n:{}a:\"~\"})BCA(a:\"~\")CAB(b:5)ABC(a:\"~\" d:{a:\"~\"})CC(a:\"~\")CABD(aitch:4 g:{x:\"~\"} f:\"~\")}",
		"{FEV(a:\"~\")FC(a:\"~\" b:7)FI fO:FO{a f(a:\"~\")b{a}e}FNil er{a}}",
		"{an{~}}",
		"{an2{~ d{~}}}",
		"{anL{c f(a:\"~\")}PP PPO{~}ptr anon(q:\"~\",r:\"z\")}",
		"{ren{a __typename ...on shNewName{x:~}}}",
		"{e E8 en(e:" + n + "OW)}", "{e en(e:" + n + "IGH)}", "{en(e:" + n + "OP)}",
		"mutation{EV(a:\"~\" c:[\"z\" \"~\"])}",
		"{ok:none none(~:1)}",
		introspectAll,
		"{__schema{types{name fields{name args{name type{name kind ofType{name}}} type{name kind ofType{name kind}}}inputFields{name}}}}",
		"{__type(name:\"ShQ\"){fields{name type{name fields{name type{name}}}}}}",
	}
	r := request{q: fill(q[sym.Choose(len(q))], x), val: "kept"}
	c := st.c
	switch sym.Choose(3) {
	case 1:
		c = c.Copy()
	case 2:
		c = st.s
		st.c.Resolve([]byte(fill(q[sym.Choose(4)], x)), o)
	}
	equalAnswers(c, st.ref, r, "the copy answers differently")
	sym.Cover("same")
}

// argCopies are the schema of the argument checks and a copy of it.
type argCopies struct{ s, c *argState }

func Setup_argCopies() *argCopies {
	s := buildArgs()
	return &argCopies{&argState{s: s}, &argState{s: s.Copy()}}
}

// Run_C15_args: an argument of every type gets the same value on the copy as on the original, refused ones included.
func Run_C15_args(st *argCopies) {
	a, b := sym.StrOf(1, "abyzAZ 019"), sym.StrOf(1, "abyzAZ 019")
	n := sym.StrOf(1, "123456789-")
	cs := append(varCases(a, b, n), moreCases(a, b, n)...)
	v := cs[sym.Choose(len(cs))]
	way := sym.Choose(4)
	ok := keepCall(st.s, v, way)
	want, all := argDump(), argGot
	c := st.c
	if sym.Bool() {
		c = &argState{s: c.s.Copy()}
	}
	sym.Assert(keepCall(c, v, way) == ok, "the copy accepts other arguments")
	if !ok {
		sym.Cover("refused")
		return
	}
	sym.Assert(argDump() == want && moreDump(&all) == moreDump(&argGot) && all.F == argGot.F, "the copy gets other arguments")
	sym.Cover("accepted")
}

// moreCases are values of the types varCases has none of.
func moreCases(a, b, n string) []varCase {
	t := []string{"\"2001-02-03T04:05:06.000Z\"", "\"2001-02-03T04:05:06.789+01:30\"", "\"2001-02-" + n + "\""}[sym.Choose(3)]
	return []varCase{
		{"t", "Time", t, t},
		{"tp", "Time", t, t},
		{"tl", "[Time]", "[" + t + " " + t + "]", "[" + t + "," + t + "]"},
		{"tpl", "[Time]", "[" + t + "null]", "[" + t + ",null]"},
		{"ts", "ArgTime", "{t:" + t + "l:[" + t + "]}", "{\"t\":" + t + ",\"l\":[" + t + "]}"},
		{"ts", "ArgTime", "{i:\"" + n + "\",k:[\"" + a + "\"]}", "{\"i\":\"" + n + "\",\"k\":[\"" + a + "\"]}"},
		{"ts", "ArgTime", "{c:[RED " + a + "]}", "{\"c\":[\"RED\",\"" + a + "\"]}"},
		{"u8l", "[Int]", "[" + n + "5]", "[" + n + "5]"},
		{"i8l", "[Int]", "[" + n + "3 " + n + "99]", "[" + n + "3," + n + "99]"},
		{"bl", "[Boolean]", "[true false]", "[true,false]"},
		{"f", "Float", n + ".5", n + ".5"},
		{"e64", "ID", "\"" + n + "\"", "\"" + n + "\""},
		{"tz", "Time", t, t},
	}
}

func moreDump(g *ArgAll) string {
	tm := func(t time.Time) string { return u(uint64(t.Unix())) + ";" }
	r := tm(g.T)
	if g.TP != nil {
		r += "p" + tm(*g.TP)
	}
	for _, x := range g.TL {
		r += "l" + tm(x)
	}
	for _, x := range g.TPL {
		r += "L"
		if x != nil {
			r += tm(*x)
		}
	}
	r += tm(g.TS.T)
	for _, x := range g.TS.L {
		r += "s" + tm(x)
	}
	r += i64(g.TS.I) + ","
	for _, x := range g.TS.K {
		r += x + ","
	}
	for _, x := range g.TS.C {
		r += itoa(int(x)) + ","
	}
	for _, x := range g.U8L {
		r += itoa(int(x)) + ","
	}
	for _, x := range g.I8L {
		r += itoa(int(x)) + ","
	}
	for _, x := range g.BL {
		if x {
			r += "t"
		} else {
			r += "f"
		}
	}
	return r + "," + u(g.E64)
}
