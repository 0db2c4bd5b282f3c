package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// bare asks one schema for the data alone and the other for everything.
func (p *pair) bare(r request, trace bool) {
	wGot, wCalls = WArgs{}, 0
	a := execOpt(p.fresh, r.q, r.opts())
	g, n := wGot, wCalls
	wGot, wCalls = WArgs{}, 0
	o := r.opts()
	o.NoMeta = true
	o.Tracing = trace
	errs := p.used.Resolve([]byte(r.q), o)
	got := string(p.used.Result)
	sym.Debug("data alone", got)
	v, ok := parseJSON(got)
	sym.Assert(ok && v.k == 'o', "the data alone is no JSON object")
	sym.Assert(len(a.raw) > len(got)+8 && a.raw[:8] == "{\"data\":" && a.raw[8:8+len(got)] == got, "the data alone is not the data of the full answer")
	sym.Assert(v.String() == a.data.String(), "the data alone is not the data of the full answer")
	sym.Assert(errTexts(errs) == errTexts(a.errs), "without the rest of the answer other errors are returned")
	for i, e := range errs {
		_, isX := e.(yarql.ErrorWPath)
		_, isY := a.errs[i].(yarql.ErrorWPath)
		sym.Assert(isX == isY, "without the rest of the answer other errors are returned")
	}
	sym.Assert(n == wCalls && g.A == wGot.A && g.B == wGot.B && len(g.C) == len(wGot.C) && g.M.A == wGot.M.A, "without the rest of the answer resolvers get something else")
	// and the next answer is whole again
	c := execOpt(p.used, r.q, r.opts())
	sym.Assert(c.raw == a.raw, "asking for the data alone changes the next answer")
	if a.failed() {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
}

// Run_C36_frames: any request asked for its data alone, with and without tracing. Bounds: the frames of C02 with 0..1 (thorough 2) bytes of any value, a variables document.
func Run_C36_frames(p *pair) {
	f := c02frames[sym.Choose(len(c02frames))]
	trace := sym.Bool()
	p.bare(request{q: f[0] + sym.UpTo(0, 1+sym.Tier()) + f[1], vars: "{\"a\":[1]}"}, trace)
}

// Run_C36_vars: any variables document. Bounds: 0..1 (thorough 2) bytes of any value as the value of a variable, or in place of the document.
func Run_C36_vars(p *pair) {
	b := sym.UpTo(0, 1+sym.Tier())
	vars := b
	if sym.Bool() {
		vars = "{\"v\":" + b + "}"
	}
	p.bare(request{q: "query($v:" + []string{"String", "Int", "[Int]"}[sym.Choose(3)] + "){a m(" + []string{"a", "b", "c"}[sym.Choose(3)] + ":$v)e}", vars: vars}, false)
}

// Run_C36_history: after and between other requests that have a whole answer or not, directly or by any transport. Bounds: 1 (thorough 2) earlier requests of 20 kinds, every probing request, any operation name of 0..2 bytes.
func Run_C36_history(p *pair) {
	for i := 0; i <= sym.Tier(); i++ {
		r := historyItem()
		if sym.Bool() && r.via == 0 {
			o := r.opts()
			o.NoMeta = true
			o.Tracing = sym.Bool()
			p.used.Resolve([]byte(r.q), o)
		} else {
			r.send(p.used)
		}
	}
	k := sym.Choose(len(probes) + 1)
	if k == len(probes) {
		p.bare(request{q: "query A{a}query BB{m(a:\"e\")r}mutation C{b(a:1)}", op: sym.UpToOf(0, 2, "ABCx")}, false)
		return
	}
	r := probes[k]
	r.via = 0
	p.bare(r, sym.Bool())
}
