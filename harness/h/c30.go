package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// Run_C30_frames: any request (frames with free bytes) with tracing on and off: same data, same errors, and the trace only where it was asked for.
func Run_C30_frames(p *pair) {
	f := c02frames[sym.Choose(len(c02frames))]
	r := request{q: f[0] + sym.UpTo(0, 1+sym.Tier()) + f[1], vars: "{\"a\":[1]}"}
	p.traced(r)
}

// traced asks both schemas, one with tracing.
func (p *pair) traced(r request) {
	wGot, wCalls = WArgs{}, 0
	a := execOpt(p.fresh, r.q, r.opts())
	g, n := wGot, wCalls
	wGot, wCalls = WArgs{}, 0
	o := r.opts()
	o.Tracing = true
	b := execOpt(p.used, r.q, o)
	sym.Assert(a.data.String() == b.data.String(), "tracing changes the data")
	sym.Assert(a.errText() == b.errText(), "tracing changes the errors")
	ea, eb := a.v.get("errors"), b.v.get("errors")
	sym.Assert((ea == nil) == (eb == nil) && (ea == nil || ea.String() == eb.String()), "tracing changes the errors")
	sym.Assert(n == wCalls && g.A == wGot.A && g.B == wGot.B && len(g.C) == len(wGot.C) && g.M.A == wGot.M.A, "tracing changes what resolvers get")
	t := b.v.get("extensions").get("tracing")
	sym.Assert(t != nil && t.k == 'o', "no trace although it was asked for")
	sym.Assert(t.get("version").isNum("1") && t.get("startTime").k == 's' && t.get("endTime").k == 's' && t.get("duration").k == '0', "malformed trace")
	rs := t.get("execution").get("resolvers")
	sym.Assert(rs != nil && rs.k == 'a', "malformed trace")
	sym.Assert(a.v.get("extensions").get("tracing") == nil, "a trace although none was asked for")
	again := execOpt(p.used, r.q, o).v.get("extensions").get("tracing").get("execution").get("resolvers")
	same := again != nil && len(again.vals) == len(rs.vals)
	for i := 0; same && i < len(rs.vals); i++ {
		same = again.vals[i].get("path").String() == rs.vals[i].get("path").String()
	}
	sym.Assert(same, "the trace of the same request is another one the second time")
	c := execOpt(p.used, r.q, r.opts())
	sym.Assert(c.raw == a.raw, "tracing changes the answer of the next request")
	if a.failed() {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
}

// Run_C30_history: histories of two requests with and without tracing before the one that is compared.
func Run_C30_history(p *pair) {
	n := 1 + sym.Tier()
	for i := 0; i < n; i++ {
		r := historyItem()
		r.trace = sym.Choose(2) == 1
		r.send(p.used)
	}
	k := sym.Choose(len(probes) + 1)
	if k == len(probes) {
		s := sym.StrOf(2, "abc\"\\ ")
		p.traced(request{q: "query($v:String){x" + ":m(a:$v)y:m(a:\"z\")}", vars: "{\"v\":\"" + s + "\"}"})
		return
	}
	p.traced(probes[k])
}

type traceState struct {
	s     *yarql.Schema
	types map[string]string
}

// typeText writes a type as in a query.
func typeText(t *jv) string {
	switch {
	case t == nil || t.k != 'o':
		return "?"
	case t.get("kind").isStr("NON_NULL"):
		return typeText(t.get("ofType")) + "!"
	case t.get("kind").isStr("LIST"):
		return "[" + typeText(t.get("ofType")) + "]"
	}
	return t.get("name").s
}

func Setup_trace() *traceState {
	st := &traceState{buildWild(), map[string]string{}}
	for _, t := range []string{"WQ", "WObj", "WImpl", "WImpl2", "WM"} {
		r := exec(st.s, "{__type(name:\""+t+"\"){fields{name type{kind name ofType{kind name ofType{kind name ofType{kind name ofType{kind name}}}}}}}}")
		for _, f := range r.data.get("__type").get("fields").vals {
			st.types[t+"."+f.get("name").s] = typeText(f.get("type"))
		}
	}
	st.types["WImpl.n"], st.types["WImpl2.n"] = st.types["WImpl.n"], st.types["WImpl2.n"]
	return st
}

// traceEntry is one resolved field: the keys of its path, parent type and name.
type traceEntry struct{ path, parent, field string }

type traceItem struct {
	q    string // # is the alias
	ents []traceEntry
}

var traceItems = []traceItem{
	{"#:a", []traceEntry{{"", "WQ", "a"}}},
	{"#:b{a x:b{a}}", []traceEntry{{"", "WQ", "b"}, {",\"a\"", "WObj", "a"}, {",\"x\"", "WObj", "b"}, {",\"x\",\"a\"", "WObj", "a"}}},
	{"#:c{a}", []traceEntry{{"", "WQ", "c"}, {",0,\"a\"", "WObj", "a"}, {",1,\"a\"", "WObj", "a"}}},
	{"#:c{b{c{a}}}", []traceEntry{{"", "WQ", "c"}, {",0,\"b\"", "WObj", "b"}, {",1,\"b\"", "WObj", "b"}, {",0,\"b\",\"c\"", "WObj", "c"}, {",0,\"b\",\"c\",0,\"a\"", "WObj", "a"}}},
	{"#:d{a}", []traceEntry{{"", "WQ", "d"}}},
	{"#:f", []traceEntry{{"", "WQ", "f"}}},
	{"#:k", []traceEntry{{"", "WQ", "k"}}},
	{"#:j{n z:__typename ...on WImpl2{a i{n}}}", []traceEntry{{"", "WQ", "j"}, {",0,\"n\"", "WImpl", "n"}, {",2,\"n\"", "WImpl2", "n"}, {",2,\"a\"", "WImpl2", "a"}, {",2,\"i\"", "WImpl2", "i"}, {",2,\"i\",\"n\"", "WImpl", "n"}}},
	{"#:m(a:\"e\")", []traceEntry{{"", "WQ", "m"}}},
	{"#:n(a:[{a:\"q\"},{}]){y:a ...F}", []traceEntry{{"", "WQ", "n"}, {",0,\"y\"", "WObj", "a"}, {",1,\"y\"", "WObj", "a"}, {",0,\"m\"", "WObj", "m"}, {",1,\"m\"", "WObj", "m"}}},
	{"#:a@skip(if:true)", nil},
	{"#:__typename", nil},
	{"#:e", []traceEntry{{"", "WQ", "e"}}},
	{"#:h", []traceEntry{{"", "WQ", "h"}}},
	{"#:g", []traceEntry{{"", "WQ", "g"}}},
	{"#:l", []traceEntry{{"", "WQ", "l"}}},
	{"#:o(a:\"w\"){...F}", []traceEntry{{"", "WQ", "o"}, {",\"m\"", "WObj", "m"}}},
}

func num(v *jv) int {
	n := 0
	for i := 0; i < len(v.s); i++ {
		n = n*10 + int(v.s[i]-'0')
	}
	return n
}

// Run_C30_trace: the trace of two chosen items under symbolic aliases has exactly one entry for every field that was resolved, with its path, parent type, name and return type (as introspection gives it), and its time span holds the spans of the fields below it.
func Run_C30_trace(st *traceState) {
	q := "{"
	var ents []traceEntry
	for i := 0; i < 2; i++ {
		it := traceItems[sym.Choose(len(traceItems))]
		al := symName(1) + itoa(i)
		q += " " + al + it.q[1:]
		for _, e := range it.ents {
			ents = append(ents, traceEntry{"[\"" + al + "\"" + e.path + "]", e.parent, e.field})
		}
	}
	q += "}fragment F on WObj{m(a:\"e\")}"
	r := execOpt(st.s, q, yarql.ResolveOptions{Tracing: true})
	t := r.v.get("extensions").get("tracing")
	rs := t.get("execution").get("resolvers")
	sym.Assert(len(rs.vals) == len(ents), "the trace has not one entry for each resolved field")
	total := num(t.get("duration"))
	pa, va := t.get("parsing"), t.get("validation")
	sym.Assert(num(pa.get("startOffset")) >= 0 && num(pa.get("duration")) >= 0 && num(va.get("duration")) >= 0, "a phase of the trace starts before the request")
	sym.Assert(num(va.get("startOffset")) >= num(pa.get("startOffset"))+num(pa.get("duration")), "a phase of the trace starts before the request")
	sym.Assert(num(va.get("startOffset"))+num(va.get("duration")) <= total, "a phase of the trace ends after the request")
	seen := make([]*jv, len(ents))
	for _, x := range rs.vals {
		found := false
		for i, e := range ents {
			if seen[i] == nil && x.get("path").String() == e.path {
				seen[i], found = x, true
				sym.Assert(x.get("parentType").isStr(e.parent), "wrong parent type in the trace")
				sym.Assert(x.get("fieldName").isStr(e.field), "wrong field name in the trace")
				sym.Assert(x.get("returnType").isStr(st.types[e.parent+"."+e.field]), "wrong return type in the trace")
				break
			}
		}
		sym.Assert(found, "an entry of the trace with a wrong path")
		sym.Assert(num(x.get("startOffset"))+num(x.get("duration")) <= total, "a field takes longer than the request")
	}
	for i, a := range ents {
		for j, b := range ents {
			if i != j && len(b.path) > len(a.path) && b.path[:len(a.path)-1] == a.path[:len(a.path)-1] {
				sa, sb := num(seen[i].get("startOffset")), num(seen[j].get("startOffset"))
				sym.Assert(sa <= sb, "a field starts after the fields below it")
				sym.Assert(sa+num(seen[i].get("duration")) >= sb+num(seen[j].get("duration")), "a field ends before the fields below it")
			}
		}
	}
	sym.Cover("traced")
}

// tracePaths adds the paths of all members below a value of an answer.
func tracePaths(v *jv, path string, out []string) []string {
	if v == nil {
		return out
	}
	for i, x := range v.vals {
		p := itoa(i)
		if v.k == 'o' {
			p = "\"" + v.keys[i] + "\""
		}
		if path != "" {
			p = path + "," + p
		}
		if v.k == 'o' {
			out = append(out, "["+p+"]")
		}
		out = tracePaths(x, p, out)
	}
	return out
}

// Run_C30_stopped: a request with a field in it that fails or stops the request, at the top, in an object or in a list, below symbolic aliases: the trace has one entry for each member of the answer that is a field of its type, the failed ones included, and no others.
func Run_C30_stopped(st *traceState) {
	a, b := symName(1)+"0", symName(1)+"1"
	bad := []string{"m(a:1)", "m(a:[])", "m(b:\"\")", "zz", "m{x}", "m", "m(a:$u)"}[sym.Choose(7)]
	q := []string{"{k " + b + ":" + bad + " x:a}", "{" + a + ":b{a " + b + ":" + bad + "}x:a}", "{x:a " + a + ":c{a " + b + ":" + bad + "}y:a}"}[sym.Choose(3)]
	r := execOpt(st.s, q, yarql.ResolveOptions{Tracing: true})
	rs := r.v.get("extensions").get("tracing").get("execution").get("resolvers")
	left := len(rs.vals)
	for _, w := range tracePaths(r.data, "", nil) {
		n := 0
		for _, x := range rs.vals {
			if x.get("path").String() == w {
				n++
			}
		}
		if bad == "zz" && len(w) > 4 && w[len(w)-4:] == b+"\"]" {
			sym.Assert(n == 0, "the trace has an entry for no field")
			continue
		}
		sym.Assert(n == 1, "the trace has not one entry for each field of the answer")
		left--
	}
	sym.Assert(left == 0, "the trace has entries for no field of the answer")
	if r.failed() {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
}

// Run_C30_places: directives of every place, registered there or not, known or not (one free byte), with arguments of any digit: a traced request has the same data and errors as one without trace.
func Run_C30_places(st *dirsState) {
	d := sym.StrOf(1, "0123456789")
	n := []string{"zulu(s:\"x\")", "both(n:" + d + ")", "both(s:\"" + d + "\")", "mike(n:" + d + ")", "alfa", "kilo(n:" + d + ")", "alf" + sym.UpTo(1, 1)}[sym.Choose(7)]
	q := "{a@" + n + " e}"
	switch sym.Choose(3) {
	case 0:
		q = "{...on RegQ@" + n + "{a}e}"
	case 1:
		q = "{...F@" + n + " e}fragment F on RegQ{a}"
	}
	a := exec(st.s, q)
	b := execOpt(st.s, q, yarql.ResolveOptions{Tracing: true})
	sym.Assert(a.data.String() == b.data.String(), "tracing changes the data")
	ea, eb := a.v.get("errors"), b.v.get("errors")
	sym.Assert(a.errText() == b.errText() && (ea == nil) == (eb == nil) && (ea == nil || ea.String() == eb.String()), "tracing changes the errors")
	sym.Cover("same")
}
