package h

import "yarqlverif/harness/sym"

// argDump writes the received arguments in one text.
func argDump() string {
	g := &argGot
	str := func(p *string) string {
		if p == nil {
			return "nil"
		}
		return "&" + *p
	}
	num := func(p *int) string {
		if p == nil {
			return "nil"
		}
		return "&" + itoa(*p)
	}
	var sub func(s *ArgSub) string
	sub = func(s *ArgSub) string {
		if s == nil {
			return "nil"
		}
		t := "{" + s.S + ";" + itoa(int(s.N)) + ";" + str(s.P) + ";" + sub(s.U)
		if s.B {
			t += ";b"
		}
		if s.L == nil {
			t += ";-"
		}
		for _, x := range s.L {
			t += ";" + x
		}
		if s.Q == nil {
			t += ";-"
		}
		for i := range s.Q {
			t += ";" + sub(&s.Q[i])
		}
		return t + "}"
	}
	t := "s=" + g.S + " p=" + str(g.P) + " l="
	if g.L == nil {
		t += "nil"
	}
	for _, x := range g.L {
		t += "," + x
	}
	t += " m="
	for _, x := range g.M {
		t += "," + str(x)
	}
	t += " o=" + sub(&g.O) + " x=" + sub(g.X) + " q="
	for i := range g.Q {
		t += sub(&g.Q[i])
	}
	t += " r="
	for _, x := range g.R {
		t += sub(x)
	}
	t += " ll="
	for _, x := range g.LL {
		t += "["
		for _, y := range x {
			t += "," + y
		}
		t += "]"
	}
	t += " lll="
	for _, x := range g.LLL {
		t += "["
		for _, y := range x {
			t += "["
			for _, z := range y {
				t += "," + itoa(z)
			}
			t += "]"
		}
		t += "]"
	}
	t += " lp="
	for _, x := range g.LP {
		t += "," + num(x)
	}
	t += " b="
	if g.B {
		t += "true"
	}
	if g.BP != nil {
		t += " bp"
		if *g.BP {
			t += "true"
		}
	}
	t += " c=" + itoa(int(g.C)) + " n=" + string(g.N)
	for _, x := range g.CL {
		t += "," + itoa(int(x))
	}
	if g.CP != nil {
		t += " cp=" + itoa(int(*g.CP))
	}
	t += " i=" + itoa(g.I) + " u16=" + itoa(int(g.U16)) + " ip=" + num(g.IP) + " d=" + g.D + " d32=" + itoa(int(g.D32))
	if g.DP != nil {
		t += " dp=" + itoa(int(*g.DP))
	}
	return t + " z=" + g.Z
}

type varCase struct {
	name, typ, lit, json string
}

// varCases are values for arguments of every kind; a, b and n stand for symbolic text and a number.
func varCases(a, b, n string) []varCase {
	return []varCase{
		{"s", "String", "\"" + a + b + "\"", "\"" + a + b + "\""},
		{"p", "String", "\"" + a + "\"", "\"" + a + "\""},
		{"l", "[String]", "[\"" + a + "\",\"" + b + "\"]", "[\"" + a + "\",\"" + b + "\"]"},
		{"l", "[String!]!", "[]", "[]"},
		{"m", "[String]", "[\"" + a + "\" null \"" + b + "\"]", "[\"" + a + "\",null,\"" + b + "\"]"},
		{"o", "ArgSub", "{s:\"" + a + "\" n:" + n + "}", "{\"s\":\"" + a + "\",\"n\":" + n + "}"},
		{"o", "ArgSub!", "{}", "{}"},
		{"x", "ArgSub", "{u:{s:\"" + a + "\",b:true}p:\"" + b + "\"}", "{\"u\":{\"s\":\"" + a + "\",\"b\":true},\"p\":\"" + b + "\"}"},
		{"x", "ArgSub", "{q:[{l:[\"" + a + "\"]}{}]}", "{\"q\":[{\"l\":[\"" + a + "\"]},{}]}"},
		{"q", "[ArgSub]", "[{n:" + n + "}{s:\"" + a + "\"}]", "[{\"n\":" + n + "},{\"s\":\"" + a + "\"}]"},
		{"r", "[ArgSub]", "[null{s:\"" + a + "\"}]", "[null,{\"s\":\"" + a + "\"}]"},
		{"ll", "[[String]]", "[[\"" + a + "\"][]]", "[[\"" + a + "\"],[]]"},
		{"lll", "[[[Int]]]", "[[[" + n + "]][]]", "[[[" + n + "]],[]]"},
		{"lp", "[Int]", "[" + n + ",null]", "[" + n + ",null]"},
		{"b", "Boolean", "true", "true"},
		{"bp", "Boolean", "false", "false"},
		{"c", "ArgColor", "RE", "\"RE\""},
		{"cl", "[ArgColor]", "[RED red]", "[\"RED\",\"red\"]"},
		{"n", "ArgName", "TWO", "\"TWO\""},
		{"cp", "ArgColor", "GREEN", "\"GREEN\""},
		{"i", "Int", n, n},
		{"u16", "Int!", n, n},
		{"ip", "Int", n, n},
		{"d", "ID", "\"" + a + "\"", "\"" + a + "\""},
		{"d32", "ID", "\"" + n + "\"", "\"" + n + "\""},
		{"dp", "ID!", "\"" + n + "\"", "\"" + n + "\""},
	}
}

// Run_C11_same: a value by variable, default or variable over default is the value by literal.
func Run_C11_same(st *argState) {
	a, b := sym.StrOf(1, "abyzAZ 019_{}[],:#$@."), sym.StrOf(1, "abyzAZ 019_{}[],:#$@.")
	n := sym.StrOf(1, "123456789")
	cs := varCases(a, b, n)
	c := cs[sym.Choose(len(cs))]
	sym.Assert(st.call("z:\"1\","+c.name+":"+c.lit+",s:\"e\""), "a literal was refused")
	want := argDump()
	if c.name == "s" {
		sym.Assert(st.call(c.name+":"+c.lit+",z:\"1\""), "a literal was refused")
		want = argDump()
	}
	tail := ",s:\"e\""
	if c.name == "s" {
		tail = ""
	}
	v := symName(1)
	var ok bool
	switch sym.Choose(4) {
	case 0:
		sym.Assume(v != "w")
		ok = st.callOp("query($w:Int=3 $"+v+":"+c.typ+"){m(z:\"1\","+c.name+":$"+v+tail+")a}", "{\""+v+"\":"+c.json+"}")
	case 1:
		ok = st.callOp("query($"+v+":"+c.typ+"="+c.lit+"){m(z:\"1\","+c.name+":$"+v+tail+")a}", "{\"nope\":1}")
	case 2:
		// any other value as default: null is of every type
		ok = st.callOp("query Q($"+v+":"+c.typ+"=null){m(z:\"1\","+c.name+":$"+v+tail+")a}", "{\"other\":7,\""+v+"\":"+c.json+"}")
	default:
		// used twice, and next to another variable
		argGot, argCalls = ArgAll{}, 0
		r := execVars(st.s, "query($"+v+":"+c.typ+"="+c.lit+" $zz:String){x:m("+c.name+":$"+v+")m(z:$zz,"+c.name+":$"+v+tail+")a}", "{\"zz\":\"1\"}")
		sym.Assert(!r.failed() && argCalls == 2, "a value by variable was refused")
		sym.Assert(argDump() == want, "a value by variable differs from the literal")
		return
	}
	sym.Assert(ok, "a value by variable was refused")
	sym.Assert(argDump() == want, "a value by variable differs from the literal")
	sym.Cover("same")
}

// Run_C11_inside: variables inside lists and objects.
func Run_C11_inside(st *argState) {
	a := sym.StrOf(1, "abyzAZ 019_{}[],:#$@.")
	n := sym.StrOf(1, "123456789")
	type in struct{ lit, vr, defs, vars string }
	cs := []in{
		{"l:[\"x\",\"" + a + "\",\"y\"]", "l:[\"x\",$v,\"y\"]", "$v:String", "\"v\":\"" + a + "\""},
		{"m:[\"" + a + "\",null]", "m:[$v,$w]", "$v:String,$w:String", "\"v\":\"" + a + "\",\"w\":null"},
		{"o:{s:\"" + a + "\",n:" + n + "}", "o:{s:$v,n:$w}", "$v:String,$w:Int", "\"v\":\"" + a + "\",\"w\":" + n},
		{"x:{u:{s:\"" + a + "\"}l:[\"q\"]}", "x:{u:$v l:$w}", "$v:ArgSub $w:[String]", "\"v\":{\"s\":\"" + a + "\"},\"w\":[\"q\"]"},
		{"q:[{n:1}{s:\"" + a + "\"}{n:2}]", "q:[{n:1}$v{n:2}]", "$v:ArgSub", "\"v\":{\"s\":\"" + a + "\"}"},
		{"ll:[[\"" + a + "\"],[],[\"" + a + "\"]]", "ll:[$v,[],[$w]]", "$v:[String]$w:String", "\"v\":[\"" + a + "\"],\"w\":\"" + a + "\""},
		{"lp:[" + n + ",null,3]", "lp:[$v,$w,3]", "$v:Int,$w:Int", "\"v\":" + n + ",\"w\":null"},
		{"cl:[RED,RE]", "cl:[$v,RE]", "$v:ArgColor", "\"v\":\"RED\""},
		{"x:{q:[{s:\"" + a + "\"}]}", "x:{q:$v}", "$v:[ArgSub]", "\"v\":[{\"s\":\"" + a + "\"}]"},
		{"x:{p:\"" + a + "\",b:true,n:" + n + "}", "x:{p:$v,b:$b,n:$n}", "$v:String,$b:Boolean,$n:Int", "\"v\":\"" + a + "\",\"b\":true,\"n\":" + n},
	}
	c := cs[sym.Choose(len(cs))]
	sym.Assert(st.call(c.lit+",z:\"e\""), "a literal was refused")
	want := argDump()
	sym.Assert(st.callOp("query("+c.defs+"){m("+c.vr+",z:\"e\")a}", "{"+c.vars+"}"), "a variable inside a value was refused")
	sym.Assert(argDump() == want, "a variable inside a value differs from the literal")
	sym.Cover("same")
}

// Run_C11_unset: null, and variables without a value.
func Run_C11_unset(st *argState) {
	cs := varCases("a", "b", "1")
	c := cs[sym.Choose(len(cs))]
	for i := range c.typ {
		if c.typ[i] == '!' {
			return
		}
	}
	sym.Assert(st.call("z:\"1\""), "no argument was refused")
	want := argDump()
	var ok bool
	v := symName(1)
	switch sym.Choose(5) {
	case 0:
		ok = st.call("z:\"1\"," + c.name + ":null")
		sym.Assert(ok, "null was refused")
	case 1:
		ok = st.callOp("query($"+v+":"+c.typ+"){m(z:\"1\","+c.name+":$"+v+")a}", "{\""+v+"\":null}")
		sym.Assert(ok, "a null variable was refused")
	case 2:
		// a null overrides a default
		ok = st.callOp("query($"+v+":"+c.typ+"="+c.lit+"){m(z:\"1\","+c.name+":$"+v+")a}", "{\""+v+"\":null}")
		sym.Assert(ok, "a null variable was refused")
	case 3:
		ok = st.callOp("query($"+v+":"+c.typ+"=null){m(z:\"1\","+c.name+":$"+v+")a}", "{}")
		sym.Assert(ok, "a null default was refused")
	default:
		// absent: refused or unset
		ok = st.callOp("query($"+v+":"+c.typ+"){m(z:\"1\","+c.name+":$"+v+")a}", "{\""+v+"x\":1}")
		if !ok {
			sym.Assert(argCalls == 0, "the resolver ran although the request failed")
			sym.Cover("refused")
			return
		}
	}
	sym.Assert(argDump() == want, "a null or absent variable sets the argument")
	sym.Cover("unset")
}

// Run_C11_wrong: variables that are not declared, declared with another type, or hold another type.
func Run_C11_wrong(st *argState) {
	cs := varCases("a", "b", "1")
	c := cs[sym.Choose(len(cs))]
	var ok bool
	switch sym.Choose(3) {
	case 0:
		// another name than the declared one
		v := symName(1 + sym.Choose(2))
		sym.Assume(v != "v")
		ok = st.callOp("query($v:"+c.typ+"="+c.lit+"){m("+c.name+":$"+v+")a}", "{\"v\":"+c.json+",\""+v+"\":"+c.json+"}")
	case 1:
		// a type name that is not the one of the argument
		t := []byte(c.typ)
		i := 0
		for t[i] == '[' {
			i++
		}
		ch := sym.Byte()
		sym.Assume(ch != t[i] && (ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'))
		t[i] = ch
		ok = st.callOp("query($v:"+string(t)+"){m("+c.name+":$v)a}", "{\"v\":"+c.json+"}")
	default:
		// a list for a scalar
		if c.typ[0] == '[' {
			return
		}
		ok = st.callOp("query($v:["+c.typ+"]){m("+c.name+":$v)a}", "{\"v\":["+c.json+"]}")
	}
	sym.Assert(!ok && argCalls == 0, "a variable that does not fit was accepted")
	sym.Cover("refused")
}
