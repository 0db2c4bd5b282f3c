package h

import (
	"context"
	"errors"
	"mime/multipart"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// pair is a schema that has served requests and one built alike that has not.
type pair struct{ used, fresh *yarql.Schema }

func Setup_pair() *pair { return &pair{buildWild(), buildWild()} }

type request struct {
	q, vars, op string
	file, trace bool
	// value and context of the request
	val, ctx string
	// the way it comes in: directly, as JSON, in a batch, in an URL, as form
	via byte
}

func (r request) httpReq() httpReq {
	return httpReq{q: r.q, op: r.op, vars: r.vars, hasOp: r.op != "", hasVs: r.vars != ""}
}

// send gives the answer of the schema and the errors.
func (r request) send(s *yarql.Schema) (string, []error) {
	o := r.opts()
	if r.via == 0 {
		errs := s.Resolve([]byte(r.q), o)
		return string(s.Result), errs
	}
	ho := &yarql.RequestOptions{Context: o.Context, GetFormFile: o.GetFormFile, Tracing: o.Tracing}
	if o.Values != nil {
		ho.Values = *o.Values
	}
	b := r.httpReq().body(0)
	method, ct := "POST", "application/json"
	body := func() []byte { return []byte(b) }
	form := noForm
	url := noQuery
	switch r.via {
	case 'b':
		b = "[" + b + "]"
	case 'B':
		b = "[{\"query\":\"{a m}\"}," + b + ",{\"query\":\"{m}\"}]"
	case 'u':
		method, ct = "GET", ""
		url = func(key string) string {
			switch key {
			case "query":
				return r.q
			case "variables":
				return r.vars
			case "operationName":
				return r.op
			}
			return ""
		}
	case 'f':
		ct = "multipart/form-data"
		form = func(key string) (string, error) { return b, nil }
	}
	res, errs := s.HandleRequest(method, url, form, body, ct, ho)
	return string(res), errs
}

func errTexts(errs []error) string {
	s := ""
	for _, e := range errs {
		s += e.Error() + "\n"
	}
	return s
}

func (r request) opts() yarql.ResolveOptions {
	o := yarql.ResolveOptions{Variables: r.vars, OperatorTarget: r.op}
	if r.val != "" {
		o.Values = &map[string]interface{}{"k": r.val}
	}
	if r.ctx != "" {
		o.Context = context.WithValue(context.Background(), wKey("c"), r.ctx)
	}
	o.Tracing = r.trace
	if r.file {
		o.GetFormFile = func(key string) (*multipart.FileHeader, error) {
			if key == "f" {
				return &multipart.FileHeader{Filename: "name"}, nil
			}
			return nil, errors.New("no such file")
		}
	}
	return o
}

// probes are requests whose answers would show what was left over from earlier ones.
var probes = []request{
	{q: "{a b{a c{a}}e}"},
	{q: "{m(a:\"v\")}"},
	{q: "{m}"},
	{q: "{m(a:$v)}"},
	{q: "query($v:String){m(a:$v)}"},
	{q: "query($v:String=\"def\"){m(a:$v)}"},
	{q: "query($v:String=\"def\"){m(a:$v)}", vars: "{\"w\":1}"},
	{q: "query($v:[Int]){m(c:$v)}", vars: "{\"v\":[]}"},
	{q: "{a ...F}"},
	{q: "{...F}fragment F on WQ{c{a}}"},
	{q: "{...F}fragment F on WQ{...F}"},
	{q: "{a}query Q{e}", op: "Q"},
	{q: "{a}query Q{e}", op: "R"},
	{q: "{zz}"},
	{q: "{a"},
	{q: ""},
	{q: "{j{n ...on WImpl2{i{n}}}k}"},
	{q: "{m(j:\"f\")}"},
	{q: "{c{m(a:\"e\")}n(a:[{a:\"1\"}]){m(a:\"q\")}}"},
	{q: "mutation{a b(a:1)}"},
	{q: "{m(e:{a:\"1\"})r}"},
	{q: "{s}"},
	{q: "{t s}", ctx: "own"},
	{q: "query A{m} query B{s}"},
	{q: "query($v:String){m(a:$v)}", via: 'j'},
	{q: "query A{m}query($v:String=\"x\"){m(a:$v)s}", via: 'u'},
	{q: "query($v:String=\"x\"){m(a:$v)s}", vars: "{}", via: 'B'},
	{q: "{m(j:\"f\")s}", via: 'f'},
}

// ask sends the request to both schemas and compares everything that can be seen.
func (p *pair) ask(r request, msg string) {
	wGot, wCalls = WArgs{}, 0
	r.trace = false
	sym.Debug("query", r.q)
	a, ae := r.send(p.used)
	sym.Debug("response", a)
	at := errTexts(ae)
	g, n := wGot, wCalls
	wGot, wCalls = WArgs{}, 0
	b, be := r.send(p.fresh)
	sym.Debug("response of the other", b)
	sym.Assert(a == b, msg)
	sym.Assert(at == errTexts(be), msg)
	if r.via == 0 {
		checkResponse(a, ae, false)
	} else {
		_, ok := parseJSON(a)
		sym.Assert(ok, "the response is not valid JSON")
	}
	sym.Assert(n == wCalls && g.A == wGot.A && g.B == wGot.B && len(g.C) == len(wGot.C) && (g.E == nil) == (wGot.E == nil) && g.M.A == wGot.M.A, msg)
}

// Run_C13_frames: any request, then a probing one, against the probing one alone.
func Run_C13_frames(p *pair) {
	f := c02frames[sym.Choose(len(c02frames))]
	q := f[0] + sym.UpTo(1, 1+sym.Tier()) + f[1]
	r1 := request{q: q, vars: "{\"a\":[1]}"}
	execOpt(p.used, r1.q, r1.opts())
	k := sym.Choose(len(probes))
	p.ask(probes[k], "an earlier request changes the answer")
	sym.Cover("same")
}

// vias are the ways a request can come in.
var vias = []byte{0, 'j', 'b', 'u', 'f'}

var historyItems = []request{
	{q: "{m(a:\"e\",b:5,e:{a:\"l~\"})}"},
	{q: "{b{b{c{i{n a:n}}}}}"},
	{q: "query A($v:String=\"~\",$a:Int=3){m(a:$v,b:$a)}query Q{r}fragment F on WQ{p}", vars: "{\"v\":\"l~\",\"w\":\"l~\"}", op: "A"},
	{q: "query($v:String){m(a:$v)}", vars: "{\"v\":"},
	{q: "{m(j:\"f\",a:\"~\")}", file: true},
	{q: "{...F}fragment F on WQ{b{...G}}fragment G on WObj{b{...G}...H}fragment H on WObj{...G}"},
	{q: "{a@skip(if:true)b{a@include(if:5)c{zz}}}"},
	{q: "{b{c{m(a:\"e\") b{zz}}}}"},
	{q: "{a b{", op: "Q"},
	{q: "mutation M{b(a:300)}", op: "M"},
	{q: "{__schema{types{name fields{name}}}}"},
	{q: "{a b{a}e f g h}", trace: true},
	{q: "{m(e:{c:[{a:\"1\"},{b:{d:200}}]})}"},
	{q: ""},
	{q: "{j{...on WImpl2{i{zz}}}}"},
	{q: "query A($v:String){m(a:$v)}query B{s}", vars: "{\"v\":\"l~\"}", op: "A", via: 'j', val: "v~", ctx: "ctx", file: true},
	{q: "query A($v:String){m(a:$v)}query B{s}", vars: "{\"v\":\"l~\"}", op: "B", via: 'B', val: "v~", ctx: "ctx", trace: true},
	{q: "query($v:String){m(a:$v)t(a:\"s~\")}", vars: "{\"v\":\"l~\"}", via: 'u', val: "v~"},
	{q: "{s t(a:\"s~\")b{zz}}", val: "v~", ctx: "ctx"},
	{q: "{t(a:\"s~\")s a", via: 'f', vars: "{\"v\":\"l~\"}"},
}

// fill puts a text at the marked places.
func fill(s, t string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if s[i] == '~' {
			r += t
		} else {
			r += s[i : i+1]
		}
	}
	return r
}

func (r request) fill(t string) request {
	r.q, r.vars, r.val = fill(r.q, t), fill(r.vars, t), fill(r.val, t)
	return r
}

// historyItem is one of the requests with a symbolic byte at the marked places.
func historyItem() request {
	return historyItems[sym.Choose(len(historyItems))].fill(sym.StrOf(1, "abcdefgh"))
}

// Run_C13_history: histories of several requests.
func Run_C13_history(p *pair) {
	n := 2 + sym.Tier()
	for i := 0; i < n; i++ {
		r := historyItem()
		r.send(p.used)
	}
	p.ask(probes[sym.Choose(len(probes))], "an earlier request changes the answer")
	sym.Cover("same")
}

// Run_C13_values: symbolic arguments of a first request never show up in the second.
func Run_C13_values(p *pair) {
	a, b := sym.StrOf(2, "abc\\\"{}"), sym.StrOf(1, "abc")
	d := sym.StrOf(1, "0123456789")
	q1 := []request{
		{q: "{m(a:\"" + b + "\",b:" + d + ",e:{a:\"" + b + "\",c:[{a:\"q\"}]},c:[" + d + "],k:[\"" + b + "\"])}"},
		{q: "query($v:String,$w:WIn){m(a:$v,e:$w,m:$w)}", vars: "{\"v\":\"" + b + "\",\"w\":{\"a\":\"" + b + "\",\"b\":{\"d\":" + d + "}}}"},
		{q: "query($v:[Int]){m(c:$v,b:" + d + ",a:\"e\")}", vars: "{\"v\":[" + d + "]}"},
		{q: "{m(a:\"" + a + "\" k:[\"x\"]) b{m(a:\"e\")}}"},
	}[sym.Choose(4)]
	q1.via = vias[sym.Choose(len(vias))]
	q1.send(p.used)
	q2 := []request{
		{q: "{m}"}, {q: "{m(a:\"" + b + "\")}"}, {q: "query($v:String=\"d\"){m(a:$v)}"}, {q: "query($w:WIn){m(e:$w)}"}, {q: "{m(e:{})}"},
		{q: "query($w:WIn={}){m(m:$w)}"}, {q: "query($v:[Int]=[]){m(c:$v)}", vars: "{}"}, {q: "{c{m}b{m(a:\"" + b + "\")}}"}, {q: "{n{a}}"}, {q: "{n(a:[{}]){a}}"}, {q: "{o{a}}"},
	}
	p.ask(q2[sym.Choose(len(q2))], "an earlier request changes the answer")
	sym.Cover("same")
}
