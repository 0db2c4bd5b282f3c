package h

import (
	"context"
	"errors"
	"mime/multipart"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type HttpIn struct {
	S *string
	L []int8
}

type HttpQ struct{ A string }

var httpLog string

func (HttpQ) ResolveE(a HttpIn) string {
	t := "nil"
	if a.S != nil {
		t = "<" + *a.S + ">"
	}
	for _, n := range a.L {
		t += "," + itoa(int(n))
	}
	httpLog += t + ";"
	return t
}
func (HttpQ) ResolveErr() (*string, error) { return nil, errors.New("failed") }
func (HttpQ) ResolveVal(c *yarql.Ctx) string {
	t := ""
	if v, ok := c.GetValue("k").(string); ok {
		t = v
	}
	if x := c.GetContext(); x != nil {
		if v, ok := x.Value(httpKey("c")).(string); ok {
			t += "/" + v
		}
	}
	return t
}

type httpKey string

type HttpM struct{}

func (HttpM) ResolveSet(a HttpIn) string { return "set " + HttpQ{}.ResolveE(a) }

type httpState struct{ s, ref *yarql.Schema }

func Setup_http() *httpState {
	return &httpState{build(HttpQ{A: "a"}, HttpM{}), build(HttpQ{A: "a"}, HttpM{})}
}

// httpReq is a request in parts.
type httpReq struct {
	q, op, vars  string
	hasOp, hasVs bool
}

// body is the request as JSON.
func (h httpReq) body(way int) string {
	b := []byte("{")
	put := func(name string, quoted bool, v string) {
		if len(b) > 1 {
			b = append(b, ',')
		}
		b = quote(b, name)
		b = append(b, ':')
		if !quoted {
			b = append(b, v...)
			return
		}
		if way&1 == 0 {
			b = quote(b, v)
			return
		}
		// everything escaped
		b = append(b, '"')
		for i := 0; i < len(v); i++ {
			c := v[i]
			if c >= 0x80 {
				b = append(b, c)
				continue
			}
			b = append(b, '\\', 'u', '0', '0', "0123456789abcdef"[c>>4], "0123456789ABCDEF"[c&15])
		}
		b = append(b, '"')
	}
	if way&2 == 0 {
		put("query", true, h.q)
	}
	if h.hasOp {
		put("operationName", true, h.op)
	} else if way&4 != 0 {
		put("operationName", false, "null")
	}
	if h.hasVs {
		put("variables", false, h.vars)
	} else if way&4 != 0 {
		put("variables", false, "null")
	}
	if way&2 != 0 {
		put("extensions", false, "{\"query\":1}")
		put("query", true, h.q)
	}
	return string(append(b, '}'))
}

func (h httpReq) direct(s *yarql.Schema) (string, []error) {
	o := yarql.ResolveOptions{}
	if h.hasOp {
		o.OperatorTarget = h.op
	}
	if h.hasVs {
		o.Variables = h.vars
	}
	errs := s.Resolve([]byte(h.q), o)
	return string(s.Result), append([]error(nil), errs...)
}

func errsEqual(a, b []error) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Error() != b[i].Error() {
			return false
		}
	}
	return true
}

// httpReqs gives requests of every kind, with a symbolic text in them.
func httpReqSome(t string) httpReq {
	switch sym.Choose(8) {
	case 0:
		return httpReq{q: "{a}"}
	case 1:
		return httpReq{q: "{e(s:\"" + t + "\")a}"}
	case 2:
		return httpReq{q: "query($s:String){e(s:$s,l:[1 2])}", vars: "{\"s\":\"" + t + "\"}", hasVs: true}
	case 3:
		return httpReq{q: "query A{a} mutation B($l:[Int]){set(l:$l)} query C{e(s:\"c\")}", vars: "{\"l\":[3,-4],\"x\":\"" + t + "\"}", hasVs: true, op: string([]byte{sym.Byte()}), hasOp: true}
	case 4:
		return httpReq{q: "query A{a e} query B{err a}", op: "B", hasOp: true}
	case 5:
		return httpReq{q: "{a" + t + "\n}"}
	case 6:
		return httpReq{q: "query($s:String=\"d\"){e(s:$s)}", vars: "{\"" + t + "\":null}", hasVs: true}
	}
	return httpReq{q: "{err a}", vars: "{}", hasVs: true}
}

func noForm(string) (string, error) { return "", errors.New("no form") }
func noBody() []byte                { return nil }
func noQuery(string) string         { return "" }

// anyCase writes a word in letters of any case.
func anyCase(s string) string {
	b := []byte(s)
	for i := range b {
		if sym.Bool() {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// Run_C21_same: every transport answers like the direct request.
func Run_C21_same(st *httpState) {
	t := sym.UpTo(1, 1+sym.Tier())
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] >= 0x20 && t[i] < 0x7f && t[i] != '"' && t[i] != '\\')
	}
	h := httpReqSome(t)
	sym.Debug("query", h.q)
	httpLog = ""
	want, werrs := h.direct(st.ref)
	wlog := httpLog
	httpLog = ""
	var got []byte
	var errs []error
	switch k := sym.Choose(9); k {
	case 0, 1, 8: // URL parameters
		method, ct := "GET", ""
		if k == 1 {
			method, ct = "pOsT", "application/x-www-form-urlencoded"
		} else if k == 8 {
			// without a body, whatever the content type says
			method, ct = anyCase("GET"), []string{"text/plain", "multipart/form-data; boundary=y"}[sym.Choose(2)]
		}
		got, errs = st.s.HandleRequest(method, func(key string) string {
			switch key {
			case "query":
				return h.q
			case "variables":
				return h.vars
			case "operationName":
				return h.op
			}
			return ""
		}, noForm, noBody, ct, nil)
	case 6: // form
		b := h.body(sym.Choose(8))
		got, errs = st.s.HandleRequest("POST", noQuery, func(key string) (string, error) {
			if key == "operations" {
				return b, nil
			}
			return "", errors.New("no such field")
		}, noBody, "multipart/form-data; boundary=x", nil)
	case 7: // batch of one
		b := h.body(sym.Choose(8))
		got, errs = st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return []byte("[" + b + "]") }, "application/json", &yarql.RequestOptions{})
		sym.Assert(len(got) > 2 && got[0] == '[' && got[len(got)-1] == ']', "the answer to a batch is no list")
		got = got[1 : len(got)-1]
	default:
		method := []string{"POST", "post", "GET", "PUT"}[k-2]
		if k == 3 {
			method = anyCase(method)
		}
		ct := []string{"application/json", "text/plain", "Application/JSON; charset=utf-8", " application/json ; x"}[k-2]
		b := h.body(sym.Choose(8))
		got, errs = st.s.HandleRequest(method, noQuery, noForm, func() []byte { return []byte(b) }, ct, nil)
	}
	sym.Debug("response", string(got))
	sym.Assert(string(got) == want, "a transport answers differently")
	sym.Assert(errsEqual(errs, werrs), "a transport reports other errors")
	sym.Assert(httpLog == wlog, "a transport runs something else")
	checkResponse(string(got), errs, false)
	if len(errs) > 0 {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
}

// Run_C21_text: any text in a JSON body arrives as it is.
func Run_C21_text(st *httpState) {
	t := sym.UpTo(0, 3+sym.Tier())
	b := []byte(`{"query":"query($s:String){e(s:$s)}","variables":{"s":`)
	b = append(quote(b, t), "}}"...)
	if sym.Bool() {
		b = []byte(`{"variables":{"s":`)
		b = append(quote(b, t), `},"query":"query($s:String){e(s:$s)}"}`...)
	}
	httpLog = ""
	got, errs := st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return b }, "application/json", nil)
	r := checkResponse(string(got), errs, false)
	sym.Assert(len(errs) == 0 && httpLog == "<"+t+">;", "a text in a body is changed")
	sym.Assert(r.data.get("e").isStr("<"+replaced(t)+">"), "a text in a body is changed")
	sym.Cover("answered")
}

// Run_C21_batch: one answer per element, in order.
func Run_C21_batch(st *httpState) {
	n := sym.Choose(4 + sym.Tier())
	c := sym.StrOf(1, "abc{$}\n")
	op := sym.StrOf(1, "abQ")
	var want []string
	var werrs int
	body := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			body += ","
		}
		h := httpReq{}
		bad := ""
		switch sym.Choose(11) {
		case 9:
			h = httpReq{q: "query a{a} query b{e} query Q{err}", op: op, hasOp: true}
		case 10:
			h = httpReq{q: "query a{e} mutation b{set} query c($s:String=\"d\"){e(s:$s)}"}
		case 0:
			h = httpReq{q: "{a}"}
		case 1:
			h = httpReq{q: "query($s:String){e(s:$s)}", vars: "{\"s\":\"" + itoa(i) + "\"}", hasVs: true}
		case 2:
			h = httpReq{q: "{err " + c + "}"}
		case 3:
			h = httpReq{q: "{e}"}
		case 4:
			bad = "null"
		case 5:
			bad = "[]"
		case 6:
			bad = "{\"query\":7}"
		case 7:
			bad = "{\"query\":\"{a}\",\"variables\":[]}"
		default:
			bad = "{\"operationName\":\"x\"}"
		}
		if bad != "" {
			body += bad
			want = append(want, "")
			werrs++
			continue
		}
		body += h.body(0)
		w, e := h.direct(st.ref)
		want = append(want, w)
		werrs += len(e)
	}
	body += "]"
	ct := "application/json"
	if sym.Bool() {
		ct = "multipart/form-data"
	}
	got, errs := st.s.HandleRequest("POST", noQuery, func(key string) (string, error) {
		sym.Assert(key == "operations" && ct != "application/json", "a form field is read")
		return body, nil
	}, func() []byte {
		sym.Assert(ct == "application/json", "the body of a form is read")
		return []byte(body)
	}, ct, nil)
	sym.Assert(len(errs) == werrs, "the errors of a batch are not those of its elements")
	v, ok := parseJSON(string(got))
	sym.Assert(ok && v.k == 'a' && len(v.vals) == n, "a batch has not one answer per element")
	for i, w := range want {
		if w == "" {
			e := v.at(i).get("errors")
			sym.Assert(e != nil && e.k == 'a' && len(e.vals) == 1 && v.at(i).get("data") != nil, "a malformed element has no error answer")
			sym.Cover("malformed")
			continue
		}
		x, _ := parseJSON(w)
		sym.Assert(v.at(i).String() == x.String(), "an element of a batch is answered differently")
		sym.Cover("answered")
	}
}

// Run_C21_malformed: a body with any byte changed, or any short body.
func Run_C21_malformed(st *httpState) {
	var body []byte
	base := `{"query":"{a e}","operationName":null,"variables":{"s":[1,true,"x"]}}`
	switch sym.Choose(5) {
	case 4:
		// members of every kind
		kinds := []string{"1", "true", "false", "null", "{}", "[]", "\"{a}\"", "[{}]", "{\"query\":\"{a}\"}", ""}
		var b []byte
		for _, k := range []string{"query", "operationName", "variables"} {
			v := kinds[sym.Choose(len(kinds))]
			if k == "query" && sym.Bool() {
				v = "\"{a}\""
			}
			if v != "" {
				if len(b) > 0 {
					b = append(b, ',')
				}
				b = append(append(append(b, '"'), k...), "\":"...)
				if n := len(v); v[0] >= '0' && v[0] <= '9' {
					v = sym.StrOf(n, "0123456789")
				}
				b = append(b, v...)
			}
		}
		body = []byte("{" + string(b) + "}")
	case 0:
		body = []byte(sym.UpToOf(0, 4+sym.Tier(), "{}[]\":,1a n"))
	case 1:
		body = []byte(base)
		body[sym.Choose(len(body))] = sym.Byte()
	case 2:
		body = []byte(base[:sym.Choose(len(base)+1)])
		if sym.Bool() {
			body = append(body, sym.Byte())
		}
	default:
		k := sym.Choose(len(base))
		body = []byte(base[:k] + base[k+1:])
	}
	ct, form := "application/json", false
	if sym.Bool() {
		ct, form = "multipart/form-data", true
	}
	httpLog = ""
	got, errs := st.s.HandleRequest("POST", noQuery, func(string) (string, error) { return string(body), nil }, func() []byte {
		sym.Assert(!form, "the body of a form is read")
		return body
	}, ct, nil)
	v, valid := parseJSON(string(body))
	g, ok := parseJSON(string(got))
	sym.Assert(ok, "the response is not valid JSON")
	if g.k == 'a' {
		sym.Assert(!valid || v.k == 'a', "a list without a batch")
		for _, e := range g.vals {
			sym.Assert(e.get("data") != nil, "an answer without data")
		}
		return
	}
	checkResponse(string(got), errs, false)
	if !valid {
		sym.Cover("malformed")
		if len(errs) > 0 {
			sym.Assert(httpLog == "", "a malformed body ran something")
		}
		return
	}
	if v.k != 'o' || v.get("query") == nil || v.get("query").k != 's' {
		sym.Assert(len(errs) == 1 && httpLog == "", "a body without query is answered")
		sym.Cover("malformed")
		return
	}
	vs, on := v.get("variables"), v.get("operationName")
	if vs != nil && vs.k != 'o' && vs.k != 'n' || on != nil && on.k != 's' && on.k != 'n' {
		sym.Assert(len(errs) == 1 && httpLog == "", "a body with wrong members is answered")
		sym.Cover("malformed")
		return
	}
	h := httpReq{q: v.get("query").s}
	if on != nil && on.k == 's' {
		h.op, h.hasOp = on.s, true
	}
	want, werrs := h.direct(st.ref)
	sym.Assert(string(got) == want && errsEqual(errs, werrs), "a transport answers differently")
	sym.Cover("valid")
}

// Run_C21_form: a form that cannot be read gives its error as answer.
func Run_C21_form(st *httpState) {
	t := sym.UpTo(0, 2+sym.Tier())
	got, errs := st.s.HandleRequest("POST", noQuery, func(string) (string, error) { return "", errors.New(t) }, noBody, "multipart/form-data", nil)
	r := checkResponse(string(got), errs, false)
	sym.Assert(len(errs) == 1 && errs[0].Error() == t && r.v.get("errors").at(0).get("message").isStr(replaced(t)), "the error of a form is changed")
	got, errs = st.s.HandleRequest("POST", noQuery, noForm, noBody, "application/json", nil)
	checkResponse(string(got), errs, false)
	sym.Assert(len(errs) == 1, "an empty body is answered")
	sym.Cover("failed")
}

// Run_C21_options: values, context, files and tracing reach the request on every transport.
func Run_C21_options(st *httpState) {
	t := sym.StrOf(2, "abcdefgh\"\\")
	o := &yarql.RequestOptions{
		Context: context.WithValue(context.Background(), httpKey("c"), t),
		Values:  map[string]interface{}{"k": t[:1]},
		Tracing: sym.Bool(),
		GetFormFile: func(key string) (*multipart.FileHeader, error) {
			return nil, errors.New("none")
		},
	}
	if sym.Bool() {
		o.Context = nil
	}
	b := "{\"query\":\"{val a}\"}"
	n := 1
	switch sym.Choose(3) {
	case 1:
		b, n = "["+b+","+b+"]", 2
	case 2:
		b = ""
	}
	var got []byte
	var errs []error
	if b == "" {
		got, errs = st.s.HandleRequest("GET", func(k string) string {
			if k == "query" {
				return "{val a}"
			}
			return ""
		}, noForm, noBody, "", o)
	} else {
		got, errs = st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return []byte(b) }, "application/json", o)
	}
	sym.Assert(len(errs) == 0, "options break a request")
	w := t[:1]
	if o.Context != nil {
		w += "/" + t
	}
	v, ok := parseJSON(string(got))
	sym.Assert(ok, "the response is not valid JSON")
	for i := 0; i < n; i++ {
		x := v
		if n > 1 {
			x = v.at(i)
		}
		sym.Assert(x.get("data").get("val").isStr(w) && x.get("data").get("a").isStr("a"), "an option does not reach the request")
		sym.Assert((x.get("extensions").get("tracing") != nil) == o.Tracing, "tracing is not as asked for")
	}
	sym.Cover("answered")
}

// Run_C21_ctype: the content type, in any case, with white space around it and parameters behind it in any spelling, decides where the request is read from; a content type that only starts like one is not taken for it. Bounds: three types, one letter in the other case, up to two (thorough three) bytes of any value behind it in front of five parameter texts, four methods.
func Run_C21_ctype(st *httpState) {
	k := sym.Choose(3)
	base := []string{"application/json", "text/plain", "multipart/form-data"}[k]
	if sym.Bool() {
		b := []byte(base)
		i := sym.Choose(len(b))
		if b[i] >= 'a' {
			b[i] -= 32
		}
		base = string(b)
	}
	fill := sym.UpTo(0, 2+sym.Tier())
	param := []string{"", "charset=utf-8", "; charset=UTF-8", ";boundary=\"a;b\"", " ; a=b"}[sym.Choose(5)]
	ct := []string{"", " ", "\t"}[sym.Choose(3)] + base + fill + param
	method := []string{"POST", "post", "GET", "PUT"}[sym.Choose(4)]
	// what counts
	own := true
	for _, c := range []byte(fill + param) {
		if c == ';' {
			break
		}
		if c >= 0x80 {
			sym.Assume(false) // no header has these
		}
		if c != ' ' && c != '\t' && c != '\n' && c != '\r' && c != '\v' && c != '\f' {
			own = false
		}
	}
	if k > 0 && method == "GET" {
		own = false
	}
	b := "{\"query\":\"{x:a}\"}"
	got, errs := st.s.HandleRequest(method, func(key string) string {
		if key == "query" {
			return "{y:a}"
		}
		return ""
	}, func(string) (string, error) { return b, nil }, func() []byte { return []byte(b) }, ct, nil)
	r := checkResponse(string(got), errs, false)
	sym.Assert(!r.failed() && len(r.data.keys) == 1, "a request is not answered")
	if own {
		sym.Assert(r.data.get("x").isStr("a"), "the body of a request is not read")
		sym.Cover("body")
	} else {
		sym.Assert(r.data.get("y").isStr("a"), "the body of a request of another type is read")
		sym.Cover("url")
	}
}
