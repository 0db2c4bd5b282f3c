package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// keepWays are the ways an argument gets to the resolver.
func keepCall(st *argState, v varCase, way int) bool {
	switch way {
	case 0:
		return st.call(v.name + ":" + v.lit)
	case 1:
		return st.callOp("query($v:"+v.typ+"){m("+v.name+":$v)a}", "{\"v\":"+v.json+"}")
	case 2:
		return st.callOp("query($v:"+v.typ+"="+v.lit+"){m("+v.name+":$v)a}", "")
	}
	argGot, argCalls = ArgAll{}, 0
	body := quote([]byte("{\"query\":"), "query($v:"+v.typ+"){m("+v.name+":$v)a}")
	body = append(body, ",\"variables\":{\"v\":"+v.json+"}}"...)
	_, errs := st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return body }, "application/json", nil)
	for i := range body {
		body[i] = '#' // the caller may use its memory again
	}
	return len(errs) == 0 && argCalls == 1
}

// grow has the schema own buffers that no later request outgrows.
func (st *argState) grow() {
	pad := make([]byte, 200)
	for i := range pad {
		pad[i] = ' '
	}
	p := string(pad)
	execVars(st.s, "query($v:[String]){"+p+"m(l:$v s:\""+p+"\")a}", "{"+p+"\"v\":[\"a\",\"b\",\"c\",\"d\",\"e\"]}")
	body := []byte("{\"query\":\"{a}" + p + "\",\"variables\":{\"a\":1,\"b\":\"" + p + "\"}}")
	st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return body }, "application/json", nil)
}

func keepLater(st *argState, n int) {
	for i := 0; i < n; i++ {
		c := sym.StrOf(1, "mnopq")
		switch sym.Choose(9) {
		case 7:
			execVars(st.s, "query($v:ID){m(d:$v)}", "{\"v\":\""+c+c+"\"}")
		case 8:
			execVars(st.s, "query($v:[String]){m(l:$v)}", "{\"v\":[\""+c+"\"]}")
		case 0:
			st.call("s:\"" + c + c + c + c + "\",l:[\"" + c + c + "\",\"" + c + "\"],o:{s:\"" + c + c + "\"},d:\"" + c + "\"")
		case 1:
			execVars(st.s, "query($v:String,$w:ArgSub){m(p:$v,x:$w,s:$v)}", "{\"v\":\""+c+c+c+"\",\"w\":{\"s\":\""+c+"\",\"p\":\""+c+"\",\"l\":[\""+c+"\",\""+c+"\"]}}")
		case 2:
			exec(st.s, "query($v:ID=\""+c+c+"\",$l:[String]=[\""+c+"\"]){m(d:$v,l:$l)}")
		case 3:
			exec(st.s, "{a a a zz"+c+"}")
		case 4:
			exec(st.s, "{m(s:\""+c+"")
		case 5:
			body := []byte("{\"variables\":{\"v\":{\"s\":\"" + c + c + "\"}},\"query\":\"query($v:ArgSub){m(o:$v,s:\\\"" + c + c + c + c + c + "\\\")}\"}")
			st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return body }, "application/json", nil)
		default:
			exec(st.s, "{__type(name:\"ArgSub\"){name inputFields{name}}}")
		}
	}
}

// Run_C23_kept: what a resolver kept is the same after later requests.
func Run_C23_kept(st *argState) {
	a, b := sym.StrOf(2, "abyz"), sym.StrOf(1, "abyz")
	n := sym.StrOf(1, "123456789")
	cs := varCases(a, b, n)
	v := cs[sym.Choose(len(cs))]
	if sym.Bool() {
		st.grow()
	}
	if !keepCall(st, v, sym.Choose(4)) {
		sym.Assert(false, "a valid argument was refused")
	}
	kept := argGot
	before := argDump()
	keepLater(st, 1+sym.Tier())
	argGot = kept
	sym.Assert(argDump() == before, "a kept argument is changed by a later request")
	sym.Cover("kept")
}

// Run_C23_two: two values of the same request and of successive ones do not share memory.
func Run_C23_two(st *argState) {
	a := sym.Str(3)
	for i := 0; i < 3; i++ {
		sym.Assume(a[i] >= 0x20 && a[i] < 0x7f && a[i] != '"' && a[i] != '\\')
	}
	esc := []string{"", "\\n", "\\u0041", "\\\\"}[sym.Choose(4)]
	dec := map[string]string{"": "", "\\n": "\n", "\\u0041": "A", "\\\\": "\\"}[esc]
	if sym.Bool() {
		st.grow()
	}
	switch sym.Choose(3) {
	case 0:
		sym.Assume(st.call("s:\"" + a + esc + "\",p:\"" + a[:2] + esc + "\",l:[\"" + esc + a[:1] + "\"]"))
	case 1:
		sym.Assume(st.callOp("query($v:String){m(s:$v,p:\""+a[:2]+esc+"\",l:[\""+esc+a[:1]+"\"])a}", "{\"v\":\""+a+esc+"\"}"))
	default:
		sym.Assume(st.callOp("query($v:String=\""+a+esc+"\",$w:[String]){m(s:$v,l:$w,p:\""+a[:2]+esc+"\")a}", "{\"w\":[\""+esc+a[:1]+"\"]}"))
	}
	kept := argGot
	keepLater(st, 1)
	argGot = kept
	if len(argGot.L) > 0 {
		argGot.L[0] += "x"
	}
	sym.Assert(argGot.S == a+dec && argGot.P != nil && *argGot.P == a[:2]+dec && len(argGot.L) == 1 && argGot.L[0] == dec+a[:1]+"x", "a kept argument is changed by a later request")
	sym.Cover("kept")
}

type keepState struct{ s *yarql.Schema }

type KeepQ struct{}

var keepPaths [][]byte
var keepCtx []string

type KeepObj struct{ N int }

func (KeepQ) ResolveL(c *yarql.Ctx, a struct{ K string }) []KeepObj {
	keepPaths = append(keepPaths, c.GetPath())
	c.SetValue("k", a.K)
	return []KeepObj{{1}, {2}}
}
func (o KeepObj) ResolveP(c *yarql.Ctx) string {
	keepPaths = append(keepPaths, c.GetPath())
	v, _ := c.GetValue("k").(string)
	keepCtx = append(keepCtx, v)
	return v
}

func Setup_keep() *keepState { return &keepState{build(KeepQ{}, NoM{})} }

// Run_C23_path: paths and values a resolver kept are the same after later requests.
func Run_C23_path(st *keepState) {
	keepPaths, keepCtx = nil, nil
	if sym.Bool() {
		exec(st.s, "{zzzzzzzzzzzzzzzz:l(k:\"yyyyyyyyyyyyyyyyyyyyyyyyyyy\"){xxxxxxxxxxxxxxxxxxxxx:p y:p}}")
		keepPaths, keepCtx = nil, nil
	}
	al, be := symName(2), symName(1)
	k := sym.StrOf(2, "abc")
	exec(st.s, "{"+al+":l(k:\""+k+"\"){"+be+":p}}")
	n := len(keepPaths)
	for i := 0; i <= sym.Choose(2); i++ {
		exec(st.s, "{zzzzzzz:l(k:\"yyyy\"){x:p yy:p}}")
	}
	want := []string{"[\"" + al + "\"]", "[\"" + al + "\",0,\"" + be + "\"]", "[\"" + al + "\",1,\"" + be + "\"]"}
	sym.Assert(n == 3 && len(keepCtx) > 2, "a resolver did not run exactly once")
	for i, w := range want {
		sym.Assert(string(keepPaths[i]) == w, "a kept path is changed by a later request")
	}
	sym.Assert(keepCtx[0] == k && keepCtx[1] == k, "a kept value is changed by a later request")
	sym.Cover("kept")
}
