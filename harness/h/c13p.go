package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// A schema whose resolvers panic where they are told to.

var panicAt = -1

type PanQ struct {
	A string
	F func() string
}
type PanKid struct {
	ID int `gq:"i"`
}
type PanIface interface{ ResolveP() (string, error) }

func (k PanKid) ResolveP() (string, error) {
	if k.ID == panicAt {
		panic("stop")
	}
	return "p" + itoa(k.ID), nil
}
func (k PanKid) ResolveKids() []PanKid { return []PanKid{{k.ID + 1}, {k.ID + 2}} }
func (k PanKid) ResolveV() PanIface    { return PanKid{k.ID + 1} }
func (PanQ) ResolveKid(a struct {
	S string
	N []int
}) (*PanKid, error) {
	if panicAt == 0 {
		panic("stop")
	}
	return &PanKid{len(a.N)}, nil
}
func (PanQ) ResolveS(a struct{ S *string }) *string { return a.S }
func (PanQ) ResolveKids() []PanKid                  { return []PanKid{{1}, {2}} }
func (PanQ) ResolveCtx(c *yarql.Ctx) string {
	t, _ := c.GetValue("k").(string)
	if c.GetContext() != nil {
		t += "/ctx"
	}
	return t + string(c.GetPath())
}

type panState struct{ used, fresh *yarql.Schema }

func Setup_pan() *panState {
	yarql.Implements((*PanIface)(nil), PanKid{})
	q := PanQ{A: "a", F: func() string {
		if panicAt == 9 {
			panic("stop")
		}
		return "f"
	}}
	return &panState{build(q, NoM{}), build(q, NoM{})}
}

var panItems = []request{
	{q: "{a kids{kids{p}}}"},
	{q: "{a ...Q}fragment Q on PanQ{kids{i ...K}}fragment K on PanKid{...P i}fragment P on PanKid{kids{v{p}}}"},
	{q: "query($s:String,$n:[Int]){kid(s:$s n:$n){p v{p}}}", vars: "{\"s\":\"~\",\"n\":[1]}", file: true, val: "own", ctx: "c"},
	{q: "{f kids{p}}", trace: true},
	{q: "query A{a}query B($n:[Int]=[1]){kid(n:$n){v{...K}}}fragment K on PanKid{p}", op: "B"},
	{q: "{kids{...on PanKid{v{...on PanKid{kids{p}}}}}}", via: 'B', val: "own"},
}

var panProbes = []request{
	{q: "{a kids{...P}}fragment P on PanKid{p v{...on PanKid{p}}}"},
	{q: "{...Q}fragment Q on PanQ{kids{...K}}fragment K on PanKid{i ...P}fragment P on PanKid{kids{v{p}}}"},
	{q: "{kids{zz p}ctx zz}"},
	{q: "query($s:String){s(s:$s)}"},
	{q: "query($s:String=\"d\"){s(s:$s)ctx}"},
	{q: "query($s:String=\"d\"){s(s:$s)kid(n:[1,2]){p}}", vars: "{\"z\":1}"},
	{q: "{k:kids{kids{kids{v{p}}}}l:kids{i}ctx}", trace: true},
	{q: "{f ctx}", via: 'j'},
}

// Run_C13_panic: a request whose resolver panics (recovered by the caller, as a HTTP server does), at any depth inside lists, fragments and interfaces, with variables, tracing, values or a batch, leaves nothing behind: the next request is answered as on a fresh schema, nothing of the path, the fragments, the variables or the values of the stopped one is left.
func Run_C13_panic(p *panState) {
	n := 1 + sym.Choose(1+sym.Tier())
	var last request
	for i := 0; i < n; i++ {
		r := panItems[sym.Choose(len(panItems))].fill(sym.StrOf(1, "abcdefgh"))
		last = r
		panicAt = []int{0, 1, 2, 3, 4, 9}[sym.Choose(6)]
		func() {
			defer func() {
				if recover() != nil {
					sym.Cover("panicked")
				}
			}()
			r.send(p.used)
		}()
	}
	panicAt = -1
	r := last // the same request again
	if k := sym.Choose(len(panProbes) + 1); k < len(panProbes) {
		r = panProbes[k]
	}
	a, ae := r.send(p.used)
	b, be := r.send(p.fresh)
	if r.trace {
		x := checkResponse(a, ae, true)
		y := checkResponse(b, be, true)
		sym.Assert(x.data.String() == y.data.String(), "a request that panicked changes the next answer")
		s, t := x.v.get("extensions").get("tracing").get("execution").get("resolvers"), y.v.get("extensions").get("tracing").get("execution").get("resolvers")
		sym.Assert(len(s.vals) == len(t.vals), "a request that panicked changes the next trace")
		for i := range s.vals {
			sym.Assert(s.vals[i].get("path").String() == t.vals[i].get("path").String(), "a request that panicked changes the next trace")
		}
		return
	}
	sym.Assert(a == b && errTexts(ae) == errTexts(be), "a request that panicked changes the next answer")
	_, ok := parseJSON(a)
	sym.Assert(ok, "the response is not valid JSON")
	sym.Cover("next")
}
