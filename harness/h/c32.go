package h

import (
	"sync"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// pool is what a server keeps: a schema, copies of it and a copy of a copy.
type pool struct {
	all []*yarql.Schema
	ref *yarql.Schema
}

func hideOdd() yarql.Directive {
	return yarql.Directive{
		Name:  "hideOdd",
		Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragmentInline},
		Method: func(a struct {
			N int
			S string
		}) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{Skip: a.N%2 == 1 || a.S == "odd"}
		},
	}
}

func poolSchema() *yarql.Schema {
	s := yarql.NewSchema()
	if err := s.RegisterDirective(hideOdd()); err != nil {
		panic(err.Error())
	}
	return wildOn(s)
}

func Setup_pool() *pool {
	s := poolSchema()
	a := s.Copy()
	b := a.Copy()
	s.Resolve([]byte("{a b{a}m(a:\"old\",c:[1])}"), yarql.ResolveOptions{Tracing: true})
	s.SetCacheRules(min1(0))
	c := s.Copy()
	p := &pool{[]*yarql.Schema{s, a, b, c}, poolSchema()}
	wQuiet = true
	return p
}

var poolItems = append([]request{
	{q: "{a@hideOdd(n:3) r@hideOdd(n:2,s:\"odd\")e ...on WQ@hideOdd{g}}"},
	{q: introspectAll},
	{q: "{__type(name:\"WObj\"){name fields{name args{name type{name}}}}__schema{directives{name}}}"},
	{q: "{a b{a c{a}}c{b{a c{a}}}d{a}e f g h i{n}j{n}k l o(a:\"x\"){a}p r}", trace: true},
}, append(historyItems, probes...)...)

// together runs two pieces at the same time; the engine runs them one after the other and compares what they touch.
func together(f, g func(), msg string) {
	if sym.Symbolic() {
		sym.Track(0)
		f()
		sym.TrackEnd()
		sym.Track(1)
		g()
		sym.TrackEnd()
		sym.Disjoint(0, 1, msg)
		return
	}
	var w sync.WaitGroup
	w.Add(2)
	go func() { defer w.Done(); f() }()
	go func() { defer w.Done(); g() }()
	w.Wait()
}

func (p *pool) compare(s *yarql.Schema, r request, errs []error) {
	o := r.opts()
	o.Tracing = r.trace
	refErrs := p.ref.Resolve([]byte(r.q), o)
	x, y := checkResponse(string(s.Result), errs, r.trace), checkResponse(string(p.ref.Result), refErrs, r.trace)
	sym.Assert(x.data.String() == y.data.String() && x.errText() == y.errText(), "a request next to another one is answered differently")
}

func (p *pool) both(i, j int, r1, r2 request) {
	var e1, e2 []error
	run := func(s *yarql.Schema, r request, e *[]error) func() {
		o := r.opts()
		o.Tracing = r.trace
		q := []byte(r.q)
		return func() { *e = append([]error(nil), s.Resolve(q, o)...) }
	}
	x, y := p.all[i], p.all[j]
	together(run(x, r1, &e1), run(y, r2, &e2), "requests on separate copies share memory")
	p.compare(x, r1, e1)
	p.compare(y, r2, e2)
	sym.Cover("apart")
}

// Run_C32_requests: two requests on two members of a pool (a schema, a copy, a copy of the copy, a copy made after requests): nothing one writes is touched by the other, so no interleaving of them can differ from one after the other. Every request of a list of all kinds against every other (quick: a fixed partner set).
func Run_C32_requests(p *pool) {
	k := [][2]int{{0, 1}, {1, 2}, {0, 2}, {0, 3}, {1, 3}}[sym.Choose(5)]
	r1 := poolItems[sym.Choose(len(poolItems))]
	var r2 request
	if sym.Tier() > 0 {
		r2 = poolItems[sym.Choose(len(poolItems))]
	} else {
		r2 = poolItems[sym.Choose(6)]
	}
	p.both(k[0], k[1], r1, r2)
}

// Run_C32_bytes: the same for a request with free bytes in every place next to one that touches everything.
func Run_C32_bytes(p *pool) {
	f := c02frames[sym.Choose(len(c02frames))]
	r1 := request{q: f[0] + sym.UpTo(0, 1+sym.Tier()) + f[1], vars: "{\"a\":[1]}"}
	if sym.Tier() > 0 {
		p.both(0, 1+sym.Choose(3), r1, poolItems[1+sym.Choose(3)])
	} else {
		p.both(0, 1, r1, poolItems[2+sym.Choose(2)])
	}
}

// Run_C32_copying: making a copy, making a copy and asking it, or building another schema, while a copy serves a request.
func Run_C32_copying(p *pool) {
	x := p.all[sym.Choose(4)]
	j := sym.Choose(4)
	k := sym.Choose(3)
	sym.Assume(p.all[j] != x || k == 2)
	r := poolItems[sym.Choose(len(poolItems))]
	v := symName(1)
	var e []error
	o := r.opts()
	o.Tracing = r.trace
	var made *yarql.Schema
	together(func() { e = append([]error(nil), p.all[j].Resolve([]byte(r.q), o)...) }, func() {
		switch k {
		case 0:
			made = x.Copy()
		case 1:
			made = x.Copy()
			made.Resolve([]byte("{"+v+":m(a:\"z\") x:a@hideOdd(n:1)}"), yarql.ResolveOptions{})
		case 2:
			s := yarql.NewSchema()
			if _, err := s.RegisterEnum(map[string]WEnum{"X": 1, "YY": 2, "A": 3}); err != nil {
				panic(err.Error())
			}
			made = parse(s, wValue(), WM{A: "wm"})
		}
	}, "copying or building a schema shares memory with a request")
	p.compare(p.all[j], r, e)
	if k < 2 {
		r := exec(made, "{"+v+":m(a:\"z\") x:a@hideOdd(n:1)e}")
		sym.Assert(!r.failed() && len(r.data.keys) == 2 && r.data.keys[0] == v && r.data.vals[0].isStr("m:z"), "a copy made next to a request answers differently")
	}
	sym.Cover("apart")
}

// Run_C32_http: requests over HTTP with values, context and uploads on two copies.
func Run_C32_http(p *pool) {
	v := sym.StrOf(1, "ab\\\"")
	ask := func(s *yarql.Schema, k int, out *string) func() {
		return func() {
			vals := map[string]interface{}{"k": k}
			o := &yarql.RequestOptions{Values: vals, Tracing: k == 1}
			none := func(string) string { return "" }
			noForm := func(string) (string, error) { return "", nil }
			var b []byte
			switch k {
			case 0:
				b, _ = s.HandleRequest("GET", func(key string) string {
					if key == "query" {
						return "{m(a:\"x\")}"
					}
					return ""
				}, noForm, nil, "", o)
			case 1:
				b, _ = s.HandleRequest("POST", none, noForm, func() []byte { return []byte("{\"query\":\"{a}\",\"variables\":{\"a\":\"" + v + "\"}}") }, "application/json", o)
			case 2:
				b, _ = s.HandleRequest("POST", none, noForm, func() []byte {
					return []byte("[{\"query\":\"{e}\"},{\"query\":\"query($v:String){m(a:$v)}\",\"variables\":{\"v\":\"q\"}}]")
				}, "application/json", o)
			case 3:
				b, _ = s.HandleRequest("POST", none, func(key string) (string, error) {
					if key == "query" {
						return "{r " + v + "}", nil
					}
					return "", nil
				}, nil, "multipart/form-data", o)
			}
			*out = string(b)
		}
	}
	i, j := sym.Choose(4), sym.Choose(4)
	var a, b, c, d string
	together(ask(p.all[0], i, &a), ask(p.all[1+sym.Choose(3)], j, &b), "requests on separate copies share memory")
	ask(p.ref, i, &c)()
	ask(p.ref, j, &d)()
	if i != 1 {
		sym.Assert(a == c, "a request next to another one is answered differently")
	}
	if j != 1 {
		sym.Assert(b == d, "a request next to another one is answered differently")
	}
	sym.Cover("apart")
}
