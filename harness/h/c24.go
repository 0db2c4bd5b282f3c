package h

import (
	"context"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the request value checks: resolvers that store and read.

type valCtxKey struct{}

type valState struct{ s *yarql.Schema }

type ValQ struct{ N ValNested }
type ValM struct{ N ValNested }
type ValNested struct{ A string }

type valArgs struct{ Op, K, V string }

func valOp(c *yarql.Ctx, a valArgs) string {
	switch a.Op {
	case "set":
		c.SetValue(a.K, a.V)
		return "done"
	case "nil":
		c.SetValue(a.K, nil)
		return "done"
	case "get":
		v := c.GetValue(a.K)
		if v == nil {
			return "none"
		}
		s, ok := v.(string)
		if !ok {
			return "other"
		}
		return "=" + s
	case "ok":
		v, ok := c.GetValueOk(a.K)
		if !ok {
			if v != nil {
				return "wrong"
			}
			return "missing"
		}
		if v == nil {
			return "nil"
		}
		return "+" + v.(string)
	case "setctx":
		c.SetContext(context.WithValue(context.Background(), valCtxKey{}, a.V))
		return "done"
	case "noctx":
		c.SetContext(nil)
		return "done"
	case "endctx":
		c.SetContext(endedCtx{context.WithValue(context.Background(), valCtxKey{}, a.V)})
		return "done"
	case "ctx":
		x := c.GetContext()
		if x == nil {
			return "none"
		}
		return "=" + x.Value(valCtxKey{}).(string)
	}
	return "?"
}

func (ValQ) ResolveOp(c *yarql.Ctx, a valArgs) string      { return valOp(c, a) }
func (ValM) ResolveOp(c *yarql.Ctx, a valArgs) string      { return valOp(c, a) }
func (ValNested) ResolveOp(c *yarql.Ctx, a valArgs) string { return valOp(c, a) }
func (ValQ) ResolveErr(c *yarql.Ctx, a valArgs) (string, error) {
	return valOp(c, a), context.Canceled
}
func (ValQ) ResolveL(c *yarql.Ctx, a valArgs) []ValNested {
	valOp(c, a)
	return []ValNested{{}, {}}
}

func Setup_val() *valState { return &valState{build(ValQ{}, ValM{})} }

// valModel is what has to be seen.
type valModel struct {
	keys, vals []string
	isNil      []bool
	hasCtx     bool
	ended      bool
	ctx        string
}

func (m *valModel) find(k string) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *valModel) put(k, v string, isNil bool) {
	i := m.find(k)
	if i < 0 {
		m.keys, m.vals, m.isNil = append(m.keys, k), append(m.vals, ""), append(m.isNil, false)
		i = len(m.keys) - 1
	}
	m.vals[i], m.isNil[i] = v, isNil
}

func (m *valModel) run(op, k, v string) string {
	i := m.find(k)
	switch op {
	case "set":
		m.put(k, v, false)
		return "done"
	case "nil":
		m.put(k, "", true)
		return "done"
	case "get":
		if i < 0 || m.isNil[i] {
			return "none"
		}
		return "=" + m.vals[i]
	case "ok":
		if i < 0 {
			return "missing"
		}
		if m.isNil[i] {
			return "nil"
		}
		return "+" + m.vals[i]
	case "setctx":
		m.hasCtx, m.ctx, m.ended = true, v, false
		return "done"
	case "noctx":
		m.hasCtx, m.ctx, m.ended = false, "", false
		return "done"
	case "endctx":
		m.hasCtx, m.ctx, m.ended = true, v, true
		return "done"
	}
	if !m.hasCtx {
		return "none"
	}
	return "=" + m.ctx
}

var valOps = []string{"set", "get", "ok", "setctx", "ctx", "nil", "noctx", "endctx"}

// valStart chooses what the caller supplies.
func valStart(o *yarql.ResolveOptions) *valModel {
	m := &valModel{}
	k, v := sym.StrOf(1, "kl"), sym.StrOf(1, "vw")
	switch sym.Choose(4) {
	case 0:
	case 1:
		o.Values = &map[string]interface{}{}
	case 2:
		o.Values = &map[string]interface{}{k: v, "other": "o"}
		m.put(k, v, false)
		m.put("other", "o", false)
	default:
		var none map[string]interface{}
		o.Values = &none
	}
	if sym.Choose(2) == 1 {
		o.Context = context.WithValue(context.Background(), valCtxKey{}, v)
		m.hasCtx, m.ctx = true, v
	}
	return m
}

func lit(op, k, v string) string {
	return "op:\"" + op + "\",k:\"" + k + "\",v:\"" + v + "\""
}

// Run_C24_steps: a request of up to four set and get steps over symbolic keys and values, at the root and nested: every step sees exactly what the caller and the steps before it stored; the next request sees nothing of it.
func Run_C24_steps(st *valState) {
	o := yarql.ResolveOptions{}
	m := valStart(&o)
	n := 2 + sym.Choose(2+sym.Tier())
	q := "{"
	if sym.Choose(2) == 1 {
		q = "mutation{"
	}
	type step struct {
		want  string
		in    int
		ended bool
	}
	var steps []step
	ended := 0
	for i := 0; i < n; i++ {
		op := ""
		if i == n-1 {
			op = []string{"get", "ok", "ctx"}[sym.Choose(3)]
		} else {
			op = valOps[sym.Choose(len(valOps))]
		}
		k, v := "", ""
		if op != "ctx" && op != "setctx" && op != "noctx" && op != "endctx" {
			k = sym.StrOf(1, "klm")
		}
		if op == "set" || op == "setctx" || op == "endctx" {
			v = sym.StrOf(1, "vwx")
		}
		a := "a" + itoa(i) + ":"
		in := 0
		if i > 0 {
			in = sym.Choose(2)
		}
		if in == 1 {
			a = "n" + itoa(i) + ":n{" + a + "op(" + lit(op, k, v) + ")}"
		} else {
			a += "op(" + lit(op, k, v) + ")"
		}
		q += " " + a
		want := m.run(op, k, v)
		steps = append(steps, step{want, in, m.ended})
		if m.ended {
			ended++
		}
	}
	r := execOpt(st.s, q+"}", o)
	sym.Assert(len(r.errs) == ended, "a request that uses values fails")
	for i, s := range steps {
		d := r.data
		if s.in == 1 {
			d = d.get("n" + itoa(i))
		}
		if s.ended {
			sym.Assert(d.get("a"+itoa(i)).isNull(), "a resolver is answered after the end of its context")
			continue
		}
		sym.Assert(d.get("a"+itoa(i)).isStr(s.want), "a resolver sees another value than the one stored")
	}
	sym.Cover("steps")
	k := sym.StrOf(1, "klm")
	r = exec(st.s, "{a:op("+lit("ok", k, "")+")b:op("+lit("ctx", "", "")+")c:op("+lit("ok", "other", "")+")}")
	sym.Assert(r.data.get("a").isStr("missing") && r.data.get("c").isStr("missing"), "a value is still there in the next request")
	sym.Assert(r.data.get("b").isStr("none"), "the context is still there in the next request")
}

// Run_C24_keys: a value stored under one key of up to three bytes is found under exactly that key.
func Run_C24_keys(st *valState) {
	a, b := sym.UpToOf(0, 2+sym.Tier(), "ab-A"), sym.UpToOf(0, 2+sym.Tier(), "ab-A")
	v := sym.StrOf(1, "vw")
	o := yarql.ResolveOptions{}
	m := &valModel{}
	pre := sym.Choose(3)
	if pre == 1 {
		o.Values = &map[string]interface{}{a: "pre"}
		m.put(a, "pre", false)
	} else if pre == 2 {
		o.Values = &map[string]interface{}{b: "pre"}
		m.put(b, "pre", false)
	}
	w := m.run("set", a, v)
	w1, w2 := m.run("get", b, ""), m.run("ok", b, "")
	r := execOpt(st.s, "{x:op("+lit("set", a, v)+")y:op("+lit("get", b, "")+")z:op("+lit("ok", b, "")+")}", o)
	sym.Assert(!r.failed() && r.data.get("x").isStr(w), "a request that uses values fails")
	sym.Assert(r.data.get("y").isStr(w1) && r.data.get("z").isStr(w2), "a value is read under another key")
	if a == b {
		sym.Cover("same key")
	} else {
		sym.Cover("other key")
	}
}

// Run_C24_fail: values stored by resolvers that fail or return lists are seen by the elements and by later fields, and requests that fail leave nothing behind.
func Run_C24_fail(st *valState) {
	k, l := sym.StrOf(1, "kl"), sym.StrOf(1, "kl")
	v := sym.StrOf(2, "vw")
	o := yarql.ResolveOptions{}
	m := valStart(&o)
	op := valOps[sym.Choose(len(valOps))]
	sym.Assume(op != "endctx") // ends the request, Run_C24_steps has it
	m.run(op, k, v)
	w := m.run("ok", l, "")
	w2 := m.run("ctx", "", "")
	first := []string{"err", "l"}[sym.Choose(2)]
	q := "{f:" + first + "(" + lit(op, k, v) + ")"
	tail := "x:op(" + lit("ok", l, "") + ")y:op(" + lit("ctx", "", "") + ")"
	if first == "l" {
		q += "{" + tail + "}"
	}
	r := execOpt(st.s, q+tail+"}", o)
	ds := []*jv{r.data}
	if first == "l" {
		ds = append(ds, r.data.get("f").at(0), r.data.get("f").at(1))
	} else {
		sym.Assert(len(r.errs) == 1, "the error of a resolver is lost")
	}
	for _, d := range ds {
		sym.Assert(d.get("x").isStr(w) && d.get("y").isStr(w2), "a resolver sees another value than the one stored")
	}
	switch sym.Choose(3) {
	case 1:
		exec(st.s, "{op(op:\"set\",k:\"kk\",v:1)")
	case 2:
		execOpt(st.s, "{zz op("+lit("set", k, v)+")}", yarql.ResolveOptions{})
	}
	r = exec(st.s, "{x:op("+lit("ok", l, "")+")y:op("+lit("ctx", "", "")+")}")
	sym.Assert(r.data.get("x").isStr("missing") && r.data.get("y").isStr("none"), "a value is still there in the next request")
	sym.Cover("checked")
}

// Run_C24_http: values and context of the request options reach the resolvers, for a single request and for each element of a batch, and the next request without them sees none.
func Run_C24_http(st *valState) {
	k, l, v := sym.StrOf(1, "kl"), sym.StrOf(1, "kl"), sym.StrOf(1, "vw")
	var opt *yarql.RequestOptions
	m := &valModel{}
	mode := sym.Choose(4)
	if mode > 0 {
		opt = &yarql.RequestOptions{}
		if mode > 1 {
			opt.Values = map[string]interface{}{k: v}
			m.put(k, v, false)
		}
		if mode > 2 {
			opt.Context = context.WithValue(context.Background(), valCtxKey{}, v)
			m.hasCtx, m.ctx = true, v
		}
	}
	q := "{x:op(" + lit("ok", l, "") + ")y:op(" + lit("ctx", "", "") + ")}"
	one := string(append(quote([]byte("{\"query\":"), q), '}'))
	batch := sym.Choose(2) == 1
	body := one
	if batch {
		body = "[" + one + "," + one + "]"
	}
	res, errs := st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return []byte(body) }, "application/json", opt)
	d, ok := parseJSON(string(res))
	sym.Assert(ok && len(errs) == 0, "a request with values fails")
	ds := []*jv{d}
	if batch {
		sym.Assert(d.k == 'a' && len(d.vals) == 2, "a batch has not one answer per element")
		ds = d.vals
	}
	w, w2 := m.run("ok", l, ""), m.run("ctx", "", "")
	for _, d := range ds {
		sym.Assert(d.get("data").get("x").isStr(w) && d.get("data").get("y").isStr(w2), "a resolver sees another value than the one given with the request")
	}
	res, errs = st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return []byte(one) }, "application/json", nil)
	d, ok = parseJSON(string(res))
	sym.Assert(ok && len(errs) == 0, "a request without values fails")
	sym.Assert(d.get("data").get("x").isStr("missing") && d.get("data").get("y").isStr("none"), "a value is still there in the next request")
	sym.Cover("http")
}
