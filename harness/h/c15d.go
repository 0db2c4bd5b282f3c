package h

import (
	"errors"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// A schema whose resolvers ask another schema, a copy for example, while their own request runs.

// durSchema answers the question of a resolver.
var durSchema func() *yarql.Schema
var durInner []string
var durErrs [][]error

type DurQ struct {
	A string
	L []DurO
}
type DurO struct{ N int }
type DurEnum uint8
type DurArgs struct {
	Q    string
	Vars string
	T    bool
}

func durAsk(c *yarql.Ctx, a DurArgs) (string, error) {
	r := request{q: a.Q, vars: a.Vars, trace: a.T, val: "in", op: ""}
	s := durSchema()
	res, errs := r.send(s)
	res = sansTrace(res)
	durInner = append(durInner, res)
	durErrs = append(durErrs, errs)
	if len(errs) > 0 {
		return "", errors.New("inner " + errs[0].Error())
	}
	return itoa(len(res)), nil
}

// dquotes puts double quotes in place of single ones.
func dquotes(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '\'' {
			b[i] = '"'
		}
	}
	return string(b)
}

func jsonText(s string) string { return string(quote(nil, s)) }

const traceMark = ",\"extensions\":{"

// sansTrace is the answer without its trace.
func sansTrace(s string) string {
	for i := 0; i+len(traceMark) <= len(s); i++ {
		if s[i] == ',' && s[i:i+len(traceMark)] == traceMark {
			return s[:i] + "}"
		}
	}
	return s
}

// durPaths are the paths of the traced resolvers.
func durPaths(s string) string {
	v, ok := parseJSON(s)
	sym.Assert(ok, "the response is not valid JSON")
	l := v.get("extensions").get("tracing").get("execution").get("resolvers")
	out := ""
	if l != nil {
		for _, x := range l.vals {
			out += x.get("path").String() + x.get("parentType").String()
		}
	}
	return out
}

func (DurQ) ResolveAsk(c *yarql.Ctx, a DurArgs) (string, error) { return durAsk(c, a) }
func (o DurO) ResolveAsk(c *yarql.Ctx, a DurArgs) (string, error) {
	return durAsk(c, a)
}
func (DurQ) ResolveEcho(a struct {
	S string
	N []int
	E DurEnum
}) []string {
	out := []string{a.S, itoa(int(a.E))}
	for _, n := range a.N {
		out = append(out, itoa(n))
	}
	return out
}
func (DurQ) ResolveVal(c *yarql.Ctx) string {
	t, _ := c.GetValue("k").(string)
	return t + string(c.GetPath())
}
func (DurQ) ResolveO(a struct{ N int }) *DurO { return &DurO{a.N} }

func buildDur() *yarql.Schema {
	s := yarql.NewSchema()
	s.RegisterEnum(map[string]DurEnum{"ONE": 1, "TWO": 2})
	parse(s, DurQ{A: "a", L: []DurO{{1}, {2}}}, NoM{})
	return s
}

type durState struct{ s, early, refIn, refOut, other *yarql.Schema }

func Setup_dur() *durState {
	s := buildDur()
	return &durState{s, s.Copy(), buildDur(), buildDur(), buildDur()}
}

// Run_C15_during: a resolver that asks a copy of the schema while its request runs, an earlier copy or one made at that moment, from the root, an object, or every item of a list, before and after fields with literal and variable arguments, fragments, directives: the copy answers as it would on its own, and the request goes on as if another schema had been asked. Bounds: 8 outer requests, 9 inner ones with two free bytes, failing ones included, with and without trace, on the original, a copy, and a copy made during the request.
func Run_C15_during(st *durState) {
	x := sym.StrOf(1, "ab0\\\"{$")
	y := sym.StrOf(1, "12-e,")
	inner := []request{
		{q: "{a echo(s:'" + x + "',n:[3," + y + "])}"},
		{q: "query($s:String,$n:[Int]){echo(s:$s,n:$n)val}", vars: "{'s':'" + x + "','n':[" + y + ",7]}"},
		{q: "{l{...F n}o(n:" + y + "){...F}}fragment F on DurO{n w:n}"},
		{q: "{a{" + x + "}l{n}}"},
		{q: "{a@skip(if:true) b:a val ...on DurQ{l{n}}}"},
		{q: "query($n:Int=" + y + "){o(n:$n){n}nope}", vars: "{}"},
		{q: "{__type(name:'DurO'){name fields{name}}__typename}"},
		{q: "query Q($s:String='" + x + "'){v:val echo(e:TWO,s:$s)}", vars: "{'t':1}"},
		{q: "mutation{a}"},
	}[sym.Choose(9)]
	inner.q = dquotes(inner.q)
	inner.vars = dquotes(inner.vars)
	inner.trace = sym.Bool()
	inner.val = "in"
	outer := []string{
		"query($q:String,$vars:String,$t:Boolean,$s:String,$n:[Int],$e:DurEnum){val i:ask(q:$q,vars:$vars,t:$t)val echo(s:$s,n:$n,e:$e)a}",
		"query($q:String,$vars:String,$t:Boolean,$s:String,$n:[Int],$e:DurEnum){l{i:ask(q:$q,vars:$vars,t:$t)n}echo(s:$s,n:$n,e:$e)}",
		"query($q:String,$vars:String,$t:Boolean,$s:String,$n:[Int]){o(n:4){n ...F}val echo(s:$s,n:$n)}fragment F on DurO{i:ask(q:$q,vars:$vars,t:$t)n}",
		"query($q:String,$vars:String,$t:Boolean,$n:[Int]){... on DurQ{i:ask(q:$q,vars:$vars,t:$t)}a@skip(if:false)w:echo(n:$n)nope}",
		"query($q:String,$vars:String,$t:Boolean){...G}fragment G on DurQ{l{...F}val}fragment F on DurO{i:ask(q:$q,vars:$vars,t:$t)n}",
		"query($q:String,$vars:String,$t:Boolean,$s:String){o(n:1){i:ask(q:$q,vars:$vars,t:$t)}j:ask(q:$q,vars:$vars)k:echo(s:$s)}",
		"query($q:String,$vars:String,$t:Boolean,$b:Boolean){i:ask(q:$q,vars:$vars,t:$t)@include(if:$b)l@include(if:$b){n}a@skip(if:$b)}",
		"query A{a}query B($q:String,$vars:String,$t:Boolean){i:ask(q:$q,vars:$vars,t:$t)val}",
	}[sym.Choose(8)]
	tf := "false"
	if inner.trace {
		tf = "true"
	}
	vars := "{\"q\":" + jsonText(inner.q) + ",\"vars\":" + jsonText(inner.vars) + ",\"t\":" + tf + ",\"s\":\"out\",\"n\":[5,6],\"e\":\"TWO\",\"b\":true}"
	o := request{q: outer, vars: vars, val: "out", trace: sym.Bool()}
	s, how := st.s, sym.Choose(4)
	durInner, durErrs = nil, nil
	switch how {
	case 0:
		durSchema = func() *yarql.Schema { return st.early }
	case 1:
		durSchema = func() *yarql.Schema { return st.s.Copy() }
	case 2:
		durSchema = func() *yarql.Schema { return st.s }
		s = st.early
	case 3:
		durSchema = func() *yarql.Schema { return st.early.Copy() }
		s = st.early
	}
	sym.Debug("query", o.q)
	sym.Debug("variables", o.vars)
	got, errs := o.send(s)
	sym.Debug("response", got)
	ins, inErrs := durInner, durErrs
	durInner, durErrs = nil, nil
	durSchema = func() *yarql.Schema { return st.other }
	want, wantErrs := o.send(st.refOut)
	if o.trace {
		sym.Assert(durPaths(got) == durPaths(want), "a request whose resolver asks a copy is traced differently")
	}
	sym.Assert(sansTrace(got) == sansTrace(want), "a request whose resolver asks a copy is answered differently")
	sym.Assert(errTexts(errs) == errTexts(wantErrs), "a request whose resolver asks a copy has other errors")
	sym.Assert(len(ins) >= 1 && len(ins) == len(durInner), "a resolver does not run as often")
	res, resErrs := inner.send(st.refIn)
	sym.Debug("response", res)
	for i := range ins {
		sym.Debug("inner response", ins[i])
		sym.Assert(ins[i] == sansTrace(res), "a copy asked during a request answers differently")
		sym.Assert(errTexts(inErrs[i]) == errTexts(resErrs), "a copy asked during a request has other errors")
	}
	after, afterErrs := request{q: "{a val l{n}echo(s:\"z\")}", val: "new"}.send(s)
	fresh, freshErrs := request{q: "{a val l{n}echo(s:\"z\")}", val: "new"}.send(st.refIn)
	sym.Assert(after == fresh && len(afterErrs) == 0 && len(freshErrs) == 0, "the request after it is answered differently")
	if len(resErrs) > 0 {
		sym.Cover("the inner one fails")
	} else {
		sym.Cover("the inner one works")
	}
}
