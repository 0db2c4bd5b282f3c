package h

import (
	"errors"
	"mime/multipart"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The checks of sizes: numbers of items and lengths around the places where a counter of a byte or two ends.

// bigSize is a number of items.
func bigSize() int {
	n := []int{1, 2, 10, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 258, 299}
	return n[sym.Choose(len(n))]
}

// bigLen is a length of a text.
func bigLen() int {
	n := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537}
	return n[sym.Choose(len(n)-3+3*sym.Tier())]
}

func three(n int) string {
	return string([]byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)})
}

func repeat(s string, n int) string {
	b := make([]byte, 0, len(s)*n)
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

type BigE uint16

type bigState struct{ s, ref *yarql.Schema }

var (
	bigS    string
	bigB    string
	bigL    []int
	bigLP   []*int
	bigIn   BigIn
	bigEs   []BigE
	bigF    []*multipart.FileHeader
	bigLog  []string
	bigKept []string
)

func (BigQ) ResolveText(a struct {
	A string
	S string
	B string
}) string {
	bigS, bigB = a.S, a.A+a.B
	return a.S
}
func (BigQ) ResolveList(a struct {
	L []int
	P []*int
	B string
}) []int {
	bigL, bigLP, bigB = a.L, a.P, a.B
	return a.L
}
func (BigQ) ResolveIn(a struct {
	V BigIn
	B string
}) int {
	bigIn, bigB = a.V, a.B
	return 1
}
func (BigQ) ResolveEnum(a struct{ E []BigE }) []BigE {
	bigEs = a.E
	return a.E
}
func (BigQ) ResolveFiles(a struct{ F []*multipart.FileHeader }) int {
	bigF = a.F
	return len(a.F)
}
func (BigQ) ResolveFail(a struct{ N int }) (*int, error) {
	if a.N%2 == 1 {
		return nil, errors.New("no " + itoa(a.N))
	}
	return &a.N, nil
}
func (BigQ) ResolveLog(a struct{ S string }) string {
	bigLog = append(bigLog, a.S)
	return a.S
}
func (BigQ) ResolveKeep(a struct{ S string }) int {
	bigKept = append(bigKept, a.S)
	return 0
}
func (BigQ) ResolveSet(c *yarql.Ctx, a struct{ K, V string }) int {
	c.SetValue(a.K, a.V)
	return 0
}
func (BigQ) ResolveGet(c *yarql.Ctx, a struct{ K string }) string {
	v, _ := c.GetValue(a.K).(string)
	return v
}
func (BigQ) ResolveImpls() []BigI {
	l := make([]BigI, 40)
	for i := range l {
		l[i] = bigImpl(i)
	}
	return l
}

func Setup_big() *bigState {
	for i := 0; i < 40; i++ {
		yarql.Implements((*BigI)(nil), bigImpl(i))
	}
	st := &bigState{yarql.NewSchema(), yarql.NewSchema()}
	for _, s := range []*yarql.Schema{st.s, st.ref} {
		m := map[string]BigE{}
		for i := 0; i < bigN; i++ {
			m["E"+three(i)] = BigE(i * 7)
		}
		if _, err := s.RegisterEnum(m); err != nil {
			panic(err)
		}
		parse(s, newBigQ(), NoM{})
	}
	return st
}

// Run_C07_many: up to 299 fields of a type with 300, from a chosen one on, plain or under a name of their own: every one with its own value and at its place.
func Run_C07_many(st *bigState) {
	n, from := bigSize(), []int{0, 1, 44, 200}[sym.Choose(4)]
	al := sym.Bool()
	c := sym.Pick("abcxyz")
	q := []byte("{")
	for i := 0; i < n; i++ {
		if al {
			q = append(q, c, '_')
			q = append(append(q, three(i)...), ':')
		}
		q = append(append(append(q, 'F'), three((from+i)%bigN)...), ' ')
	}
	r := exec(st.s, string(append(q, '}')))
	sym.Assert(!r.failed() && len(r.data.vals) == n, "not every field is answered")
	for i, v := range r.data.vals {
		k := "F" + three((from+i)%bigN)
		if al {
			k = string([]byte{c}) + "_" + three(i)
		}
		sym.Assert(r.data.keys[i] == k && v.isStr("v"+itoa((from+i)%bigN)), "a field has another place or value")
	}
	sym.Cover("answered")
}

// Run_C08_many: of 300 fields that differ in a digit a name with any byte at one of its places finds exactly its own or gives an error.
func Run_C08_many(st *bigState) {
	b := []byte("F123")
	at := sym.Choose(4)
	b[at] = sym.Byte()
	sym.Assume(b[at] >= '0' && b[at] <= '9' || b[at] >= 'A' && b[at] <= 'Z' || b[at] >= 'a' && b[at] <= 'z' || b[at] == '_')
	name := string(b)
	r := exec(st.s, "{"+name+"}")
	if b[0] == 'F' && b[1] >= '0' && b[1] <= '2' && b[2] >= '0' && b[2] <= '9' && b[3] >= '0' && b[3] <= '9' {
		i := int(b[1]-'0')*100 + int(b[2]-'0')*10 + int(b[3]-'0')
		sym.Assert(!r.failed() && r.data.get(name).isStr("v"+itoa(i)), "a known field is not answered with its value")
		sym.Cover("known")
		return
	}
	sym.Assert(r.failed(), "an unknown field is accepted")
	sym.Cover("unknown")
}

// Run_C07_length: lists of up to 299 numbers are answered in full, below a name as well.
func Run_C07_length(st *bigState) {
	n := bigSize()
	x := sym.Conc(sym.Range(0, 3))
	q := []byte("{k:list(l:[")
	for i := 0; i < n; i++ {
		q = append(append(q, itoa(i*100+x)...), ' ')
	}
	r := exec(st.s, string(append(q, "])}"...)))
	l := r.data.get("k")
	sym.Assert(!r.failed() && l != nil && len(l.vals) == n, "a list has not one entry per element")
	for i, v := range l.vals {
		sym.Assert(v.isNum(itoa(i*100+x)), "an entry of a list has another value")
	}
	sym.Cover("answered")
}

// Run_C04_long: a literal of up to 4096 (thorough 65537) characters, in quotes or as block, with a character of any value or an escape at its start, in its middle or at its end, next to other arguments, by literal or as default of a variable: it arrives in full.
func Run_C04_long(st *bigState) {
	n := bigLen()
	b := []byte(repeat("abcdefg ", n/8+1)[:n])
	b[0], b[n-1] = 'x', 'y'
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	block := sym.Bool()
	var lit, want string
	if sym.Bool() {
		esc, c := "\\n", "\n"
		if block {
			esc, c = "\\\"\"\"", "\"\"\""
		}
		lit, want = string(b[:at])+esc+string(b[at+1:]), string(b[:at])+c+string(b[at+1:])
	} else {
		c := sym.Byte()
		sym.Assume(c >= 0x21 && c < 0x7f && c != '"' && c != '\\')
		b[at] = c
		lit, want = string(b), string(b)
	}
	if block {
		lit = "\"\"\"" + lit + "\"\"\""
	} else {
		lit = "\"" + lit + "\""
	}
	bigS, bigB = "", ""
	var r *resp
	if sym.Bool() {
		r = exec(st.s, "{text(a:\"p\" s:"+lit+" b:\"q\")}")
	} else {
		r = exec(st.s, "query($s:String="+lit+"){text(a:\"p\" s:$s b:\"q\")}")
	}
	sym.Assert(!r.failed() && bigS == want && bigB == "pq", "a long text arrives changed")
	sym.Assert(r.data.get("text").isStr(want), "a long text is answered changed")
	sym.Cover("arrived")
}

// Run_C31_many: lists of up to 299 elements with a null at a chosen place, as literal and as variable, an object with that many members, objects that many deep; the argument behind them arrives too.
func Run_C31_many(st *bigState) {
	n := bigSize()
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	end := sym.StrOf(1, "abc")
	js := sym.Bool()
	run := func(name, typ, v string, more string) *resp {
		bigL, bigLP, bigB, bigIn = nil, nil, "", BigIn{}
		if js {
			return execVars(st.s, "query($v:"+typ+"){x:"+name+":$v b:\""+end+"\""+more+")}", "{\"v\":"+v+"}")
		}
		return exec(st.s, "{x:"+name+":"+v+" b:\""+end+"\""+more+")}")
	}
	var r *resp
	v := []byte{}
	switch sym.Choose(4) {
	case 0:
		for i := 0; i < n; i++ {
			v = append(v, ',')
			v = append(v, itoa(i)...)
		}
		v[0] = '['
		r = run("list(l", "[Int]", string(v)+"]", "")
		sym.Assert(!r.failed() && len(bigL) == n && bigLP == nil, "a list arrives with another length")
		for i, x := range bigL {
			sym.Assert(x == i, "an element arrives at another place")
		}
	case 1:
		for i := 0; i < n; i++ {
			v = append(v, ',')
			if i == at {
				v = append(v, "null"...)
			} else {
				v = append(v, itoa(-i)...)
			}
		}
		v[0] = '['
		r = run("list(p", "[Int]", string(v)+"]", " l:[7]")
		sym.Assert(!r.failed() && len(bigLP) == n && len(bigL) == 1 && bigL[0] == 7, "a list arrives with another length")
		for i, x := range bigLP {
			sym.Assert((x == nil) == (i == at), "a null arrives at another place")
			sym.Assert(x == nil || *x == -i, "an element arrives at another place")
		}
	case 2:
		for i := 0; i < n; i++ {
			if i == at {
				continue
			}
			k := (i*7 + 3) % bigN
			v = append(v, ',')
			if js {
				v = append(append(append(v, "\"F"...), three(k)...), "\":"...)
			} else {
				v = append(append(append(v, 'F'), three(k)...), ':')
			}
			v = append(v, itoa(1000+k)...)
		}
		if len(v) == 0 {
			v = append(v, ',')
		}
		v[0] = '{'
		r = run("in(v", "BigIn", string(v)+"}", "")
		sym.Assert(!r.failed(), "an object is refused")
		got := map[int]bool{}
		for i := 0; i < n; i++ {
			if i != at {
				got[(i*7+3)%bigN] = true
			}
		}
		for k := 0; k < bigN; k++ {
			p := bigIn.get(k)
			sym.Assert((p != nil) == got[k], "a member is set or left out wrongly")
			sym.Assert(p == nil || *p == 1000+k, "a member arrives with another value")
		}
	default:
		next, f := "{next:", "{F001:"
		if js {
			next, f = "{\"next\":", "{\"F001\":"
		}
		if n > 200 {
			return // JSON is not read that deep
		}
		r = run("in(v", "BigIn", repeat(next, n)+f+"5"+repeat("}", n+1), "")
		sym.Assert(!r.failed(), "a nested object is refused")
		p := &bigIn
		for i := 0; i < n; i++ {
			sym.Assert(p.Next != nil && p.F001 == nil, "a nested object arrives with another shape")
			p = p.Next
		}
		sym.Assert(p.Next == nil && p.F001 != nil && *p.F001 == 5, "a nested object arrives with another shape")
	}
	sym.Assert(bigB == end, "the argument behind a large one does not arrive")
	sym.Cover("arrived")
}

// Run_C11_many: up to 299 variables, with values or defaults, used in any order, each brings its own value; names of up to 254 characters.
func Run_C11_many(st *bigState) {
	n := bigSize()
	v := sym.StrOf(1, "abc")
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	var q, vars, use []byte
	q = append(q, "query("...)
	vars = append(vars, '{')
	long := sym.Bool()
	name := func(i int) string {
		if long && i == at {
			return "v" + repeat("n", 200) + three(i)
		}
		return "v" + three(i)
	}
	for i := 0; i < n; i++ {
		k := n - 1 - i
		q = append(append(append(q, '$'), name(k)...), ":Int"...)
		if k == at {
			q = append(q, "=-5"...)
		}
		q = append(q, ' ')
		if k != at {
			vars = append(append(append(vars, '"'), name(k)...), "\":"...)
			vars = append(append(vars, itoa(k*3)...), ',')
		}
		use = append(append(append(use, '$'), name(i)...), ' ')
	}
	vars = append(append(append(vars, "\"s\":\""...), v...), "\"}"...)
	r := execVars(st.s, string(q)+"$s:String){list(l:["+string(use)+"] b:$s)}", string(vars))
	sym.Assert(!r.failed() && len(bigL) == n && bigB == v, "a variable does not bring its value")
	for i, x := range bigL {
		if i == at {
			sym.Assert(x == -5, "a default does not arrive")
		} else {
			sym.Assert(x == i*3, "a variable brings the value of another one")
		}
	}
	sym.Cover("arrived")
}

// Run_C09_many: up to 299 fragments, spread next to each other or each inside of the one before: exactly their fields in place.
func Run_C09_many(st *bigState) {
	n := bigSize()
	nested := sym.Bool()
	if nested && n > 120 {
		n -= 10 * sym.Choose(2)
	}
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	c := sym.Pick("BbF_")
	q := []byte("{")
	var frags []byte
	for i := 0; i < n; i++ {
		if !nested || i == 0 {
			q = append(append(q, "...F"...), three(i)...)
		}
		typ := "BigQ"
		if i == at && !nested {
			typ = string([]byte{c}) + "igQ"
		}
		frags = append(append(append(append(frags, " fragment F"...), three(i)...), " on "...), typ...)
		frags = append(append(append(frags, "{F"...), three(i)...), ' ')
		if nested && i+1 < n {
			frags = append(append(frags, "...F"...), three(i+1)...)
		}
		frags = append(frags, '}')
	}
	r := exec(st.s, string(q)+"}"+string(frags))
	sym.Assert(!r.failed(), "a fragment is refused")
	k := 0
	for i := 0; i < n; i++ {
		if i == at && !nested && c != 'B' {
			continue
		}
		sym.Assert(k < len(r.data.keys) && r.data.keys[k] == "F"+three(i) && r.data.vals[k].isStr("v"+itoa(i)), "a fragment is not answered as its fields in place")
		k++
	}
	sym.Assert(k == len(r.data.keys), "a fragment adds something else")
	sym.Cover("answered")
}

// Run_C12_many: of up to 299 operations exactly the named one runs.
func Run_C12_many(st *bigState) {
	n := bigSize()
	at := []int{0, n / 2, n - 1, n}[sym.Choose(4)]
	c := sym.Pick("Oo_P")
	var q []byte
	for i := 0; i < n; i++ {
		q = append(append(append(q, "query O"...), three(i)...), "{log(s:\""...)
		q = append(append(q, three(i)...), "\")}"...)
	}
	bigLog = nil
	r := execOpt(st.s, string(q), yarql.ResolveOptions{OperatorTarget: string([]byte{c}) + three(at)})
	if c != 'O' || at == n {
		sym.Assert(r.failed() && len(bigLog) == 0, "an unknown operation runs something")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed() && len(bigLog) == 1 && bigLog[0] == three(at) && r.data.get("log").isStr(three(at)), "another operation runs than the named one")
	sym.Cover("ran")
}

// Run_C20_many: up to 299 fields of which every other one fails: each failure is reported once, with its own path, the others are answered.
func Run_C20_many(st *bigState) {
	n := bigSize()
	off := sym.Conc(sym.Range(0, 1))
	q := []byte("{")
	for i := 0; i < n; i++ {
		q = append(append(append(q, 'k'), three(i)...), ":fail(n:"...)
		q = append(append(q, itoa(i+off)...), ')')
	}
	r := exec(st.s, string(append(q, '}')))
	sym.Assert(len(r.data.vals) == n, "not every field is answered")
	es := r.v.get("errors")
	k := 0
	for i, v := range r.data.vals {
		if (i+off)%2 == 0 {
			sym.Assert(v.isNum(itoa(i+off)), "the fields around a failing resolver are affected")
			continue
		}
		sym.Assert(v.isNull(), "a failing field is not null")
		e := es.at(k)
		sym.Assert(e != nil && e.get("message").isStr("no "+itoa(i+off)) && e.get("path").String() == "[\"k"+three(i)+"\"]", "a failure has another message or path")
		k++
	}
	sym.Assert(len(r.errs) == k, "not every failure is reported exactly once")
	sym.Cover("answered")
}

// Run_C21_many: a batch of up to 299 elements has an answer for each, in order.
func Run_C21_many(st *bigState) {
	n := bigSize()
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	bad := []string{"null", "{\"query\":\"{\"}", "{\"query\":\"{F999}\"}"}[sym.Choose(3)]
	b := []byte{}
	for i := 0; i < n; i++ {
		b = append(b, ',')
		if i == at {
			b = append(b, bad...)
		} else {
			b = append(append(append(b, "{\"query\":\"{F"...), three(i)...), "}\"}"...)
		}
	}
	b[0] = '['
	got, errs := st.s.HandleRequest("POST", noQuery, noForm, func() []byte { return append(b, ']') }, "application/json", nil)
	v, ok := parseJSON(string(got))
	sym.Assert(ok && v.k == 'a' && len(v.vals) == n && len(errs) == 1, "a batch has not one answer per element")
	for i, x := range v.vals {
		if i == at {
			sym.Assert(x.get("errors") != nil, "a malformed element has no error answer")
		} else {
			sym.Assert(x.get("errors") == nil && x.get("data").get("F"+three(i)).isStr("v"+itoa(i)), "an element of a batch is answered differently")
		}
	}
	sym.Cover("answered")
}

// Run_C30_many: the trace of up to 299 fields has one entry for each, in order.
func Run_C30_many(st *bigState) {
	n := bigSize()
	c := sym.Pick("abc")
	q := []byte("{")
	for i := 0; i < n; i++ {
		q = append(append(append(append(q, c), three(i)...), ":F"...), three(i)...)
		q = append(q, ' ')
	}
	o := yarql.ResolveOptions{}
	plain := execOpt(st.s, string(q)+"}", o)
	o.Tracing = true
	r := execOpt(st.s, string(q)+"}", o)
	sym.Assert(r.data.String() == plain.data.String() && !r.failed(), "tracing changes the data")
	rs := r.v.get("extensions").get("tracing").get("execution").get("resolvers")
	sym.Assert(len(rs.vals) == n, "the trace has not one entry for each resolved field")
	for i, x := range rs.vals {
		sym.Assert(x.get("path").String() == "[\""+string([]byte{c})+three(i)+"\"]" && x.get("fieldName").isStr("F"+three(i)), "an entry of the trace with a wrong path")
	}
	// the next trace has nothing of this one
	r = execOpt(st.s, "{k:F001 l:F002}", o)
	rs = r.v.get("extensions").get("tracing").get("execution").get("resolvers")
	sym.Assert(!r.failed() && len(rs.vals) == 2 && rs.at(0).get("path").String() == "[\"k\"]" && rs.at(1).get("fieldName").isStr("F002"), "a trace has entries of the one before")
	sym.Cover("traced")
}

// Run_C10_directives: up to 255 conditions on one item, one of them leaves it out or none does.
func Run_C10_directives(st *bigState) {
	n := bigSize()
	sym.Assume(n <= 255)
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	b := sym.Bool()
	q := []byte{}
	for i := 0; i < n; i++ {
		d := " @include(if:true)"
		if i%2 == 1 {
			d = " @skip(if:false)"
		}
		if i == at && b {
			d = []string{" @skip(if:true)", " @include(if:false)"}[i%2]
		}
		q = append(q, d...)
	}
	item := []string{"F001", "...on BigQ", "...F"}[sym.Choose(3)]
	sel := ""
	if item == "...on BigQ" {
		sel = "{F001}"
	}
	r := exec(st.s, "{F000 "+item+string(q)+sel+" F002} fragment F on BigQ{F001}")
	want := "{\"F000\":\"v0\",\"F001\":\"v1\",\"F002\":\"v2\"}"
	if b {
		want = "{\"F000\":\"v0\",\"F002\":\"v2\"}"
	}
	sym.Assert(!r.failed() && r.data.String() == want, "a condition among many does not decide")
	sym.Cover("decided")
}

// Run_C25_far: the position of a wrong byte behind up to 70001 lines or columns.
func Run_C25_far(st *bigState) {
	n := []int{65535, 65536, 70001}[sym.Choose(3)]
	if sym.Bool() {
		n = bigLen()
	}
	c := sym.Pick("?%^*")
	bad := string([]byte{c})
	var q string
	line, col := 1, 1
	switch sym.Choose(3) {
	case 0:
		q, line = repeat("\n", n)+bad+"{F001}", n+1
	case 1:
		q, col = repeat(" ", n)+bad+"{F001}", n+1
	default:
		q, line, col = "{#"+repeat("x", n)+"\r\n"+repeat(",", n)+bad+"F001}", 2, n+1
	}
	r := exec(st.s, q)
	l := r.v.get("errors").at(0).get("locations").at(0)
	sym.Assert(len(r.errs) == 1 && l.get("line").isNum(itoa(line)) && l.get("column").isNum(itoa(col)), "an error far inside of a document is reported elsewhere")
	sym.Cover("reported")
}

// Run_C06_far: up to 1025 (thorough 65537) ignored bytes at a place between tokens change nothing.
func Run_C06_far(st *bigState) {
	n := bigLen()
	f := repeat([]string{" ", "\t", "\n", "\r\n", ",", "#x\n", "#\r"}[sym.Choose(7)], n)
	parts := []string{"query", "A", "(", "$v:", "Int", "=", "3", ")", "{", "k", ":", "list", "(", "l", ":", "[", "$v ", "4", "]", ")", "@skip", "(if:", "false", ")", "...F", "}", "fragment ", "F ", "on ", "BigQ", "{", "F001", "}"}
	at := sym.Choose(len(parts))
	q := ""
	for i, p := range parts {
		if i == at {
			q += f
		}
		q += p
		if i == 0 {
			q += " "
		}
	}
	r := exec(st.s, q)
	sym.Assert(!r.failed() && r.data.String() == "{\"k\":[3,4],\"F001\":\"v1\"}", "ignored bytes change the meaning")
	sym.Cover("answered")
}

// Run_C28_many: every one of 40 implementations of an interface is answered as itself.
func Run_C28_many(st *bigState) {
	at := sym.Choose(40)
	q := "{impls{t:__typename name ...on BigImpl" + itoa(at) + "{A" + itoa(at) + "}}}"
	r := exec(st.s, q)
	l := r.data.get("impls")
	sym.Assert(!r.failed() && len(l.vals) == 40, "a list has not one entry per element")
	for i, v := range l.vals {
		sym.Assert(v.get("t").isStr("BigImpl"+itoa(i)) && v.get("name").isNum(itoa(1000+i)), "a value is answered as another type")
		a := v.vals[len(v.vals)-1]
		sym.Assert((len(v.vals) == 3) == (i == at) && (i != at || a.isNum(itoa(1000+i))), "a fragment contributes to another type")
	}
	sym.Cover("answered")
}

// Run_C18_enummany: every one of 300 names of an enum reaches the resolver as its own value and comes back, with a byte of any value in the name.
func Run_C18_enummany(st *bigState) {
	b := []byte("E2" + itoa(sym.Choose(10)) + "5")
	at := 1 + sym.Choose(3)
	b[at] = sym.Byte()
	sym.Assume(b[at] >= '0' && b[at] <= '9' || b[at] >= 'A' && b[at] <= 'Z' || b[at] == '_')
	name := string(b)
	bigEs = nil
	r := exec(st.s, "{enum(e:["+name+" E000 E299])}")
	if b[1] >= '0' && b[1] <= '2' && b[2] >= '0' && b[2] <= '9' && b[3] >= '0' && b[3] <= '9' {
		i := int(b[1]-'0')*100 + int(b[2]-'0')*10 + int(b[3]-'0')
		sym.Assert(!r.failed() && len(bigEs) == 3 && bigEs[0] == BigE(i*7) && bigEs[1] == 0 && bigEs[2] == 299*7, "an enum value arrives as another one")
		sym.Assert(r.data.get("enum").String() == "[\""+name+"\",\"E000\",\"E299\"]", "an enum value comes back as another one")
		sym.Cover("known")
		return
	}
	sym.Assert(r.failed() && bigEs == nil, "an unknown enum value is accepted")
	sym.Cover("unknown")
}

// Run_C24_many: up to 299 values under keys of their own, each found again, and none in the next request.
func Run_C24_many(st *bigState) {
	n := bigSize()
	c := sym.Pick("abk")
	q := []byte("{")
	for i := 0; i < n; i++ {
		q = append(append(append(q, 's'), three(i)...), ":set(k:\"k"...)
		q = append(append(append(append(append(q, three(i)...), "\" v:\""...), c), three(i)...), "\")"...)
	}
	for i := 0; i < n; i++ {
		q = append(append(append(q, 'g'), three(i)...), ":get(k:\"k"...)
		q = append(append(q, three(i)...), "\")"...)
	}
	r := exec(st.s, string(append(q, '}')))
	sym.Assert(!r.failed() && len(r.data.vals) == 2*n, "not every field is answered")
	for i := 0; i < n; i++ {
		sym.Assert(r.data.vals[n+i].isStr(string([]byte{c})+three(i)), "a value is found under another key")
	}
	r = exec(st.s, "{a:get(k:\"k000\")b:get(k:\"k"+three(n-1)+"\")}")
	sym.Assert(!r.failed() && r.data.String() == "{\"a\":\"\",\"b\":\"\"}", "a value of the request before is found")
	sym.Cover("found")
}

// Run_C23_many: up to 299 texts of one request and of that many requests stay what they were.
func Run_C23_many(st *bigState) {
	n := bigSize()
	c := sym.StrOf(1, "abc")
	bigKept = nil
	if sym.Bool() {
		q := []byte("{")
		for i := 0; i < n; i++ {
			q = append(append(append(q, 'k'), three(i)...), ":keep(s:\""...)
			q = append(append(append(q, c...), three(i)...), "\")"...)
		}
		exec(st.s, string(append(q, '}')))
	} else {
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				exec(st.s, "{keep(s:\""+c+three(i)+"\")}")
			} else {
				execVars(st.s, "query($s:String){keep(s:$s)}", "{\"s\":\""+c+three(i)+"\"}")
			}
		}
	}
	sym.Assert(len(bigKept) == n, "a resolver did not run")
	for i, s := range bigKept {
		sym.Assert(s == c+three(i), "a text that was kept has changed")
	}
	sym.Cover("kept")
}

// Run_C13_many: a request after up to 299 others, which fail or not and differ or not, is answered as by a schema that has answered none.
func Run_C13_many(st *bigState) {
	n := bigSize()
	c := sym.StrOf(1, "abc")
	kind := sym.Choose(5)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			exec(st.s, "{F001 text(s:\""+c+"\")}")
		case 1:
			exec(st.s, "{F"+three(i)+" text(s:\""+c+three(i)+"\")}")
		case 2:
			exec(st.s, "{F001 text(s:"+c+three(i)+")}")
		case 3:
			exec(st.s, "{F001 ...F text(s:\""+c+"\"} fragment F on BigQ{...F}")
		default:
			execVars(st.s, "query($s:String $n:Int=4){fail(n:$n) x:fail(n:1) text(s:$s)}", "{\"s\":\""+c+"\"}")
		}
	}
	q := "query($s:String=\"d\" $n:Int){a:fail(n:1) text(s:$s) F002 list(l:[$n 2]) ...F} fragment F on BigQ{F003 fail(n:3)}"
	a, b := answer(st.s, q, yarql.ResolveOptions{Variables: "{\"n\":1}"}), answer(st.ref, q, yarql.ResolveOptions{Variables: "{\"n\":1}"})
	sym.Assert(a == b, "the requests before change an answer")
	sym.Cover("answered")
}

// Run_C14_many: the same document answered up to 299 times from the cache, and others in between.
func Run_C14_many(st *bigState) {
	n := bigSize()
	c := sym.StrOf(1, "abc")
	zero := 0
	st.s.SetCacheRules(&zero)
	q := "query A{text(s:\"" + c + "\") F001} query B{F002 x:text(s:\"b\")}"
	wa, wb := answer(st.ref, q, yarql.ResolveOptions{OperatorTarget: "A"}), answer(st.ref, q, yarql.ResolveOptions{OperatorTarget: "B"})
	other := sym.Choose(3)
	for i := 0; i < n; i++ {
		op, w := "A", wa
		if i%3 == 1 {
			op, w = "B", wb
		}
		sym.Assert(answer(st.s, q, yarql.ResolveOptions{OperatorTarget: op}) == w, "an answer from the cache differs")
		switch other {
		case 1:
			r := exec(st.s, "{F"+three(i)+"}")
			sym.Assert(r.data.String() == "{\"F"+three(i)+"\":\"v"+itoa(i)+"\"}", "an answer with the cache differs")
		case 2:
			r := exec(st.s, "{text(s:\""+repeat("x", i)+"\")}")
			sym.Assert(r.data.get("text").isStr(repeat("x", i)), "an answer with the cache differs")
		}
	}
	sym.Cover("answered")
}

// Run_C15_many: a copy of a copy, up to ten times, with 300 fields and enum values, answers like the first.
func Run_C15_many(st *bigState) {
	n := 1 + sym.Choose(10)
	s := st.s
	for i := 0; i < n; i++ {
		s = s.Copy()
	}
	k := three(sym.Choose(30) * 10)
	c := sym.StrOf(1, "abc")
	q := "{F" + k + " text(s:\"" + c + "\") enum(e:E" + k + ") enum(e:[E" + k + "]) fail(n:1) impls{name}}"
	sym.Assert(answer(s, q, yarql.ResolveOptions{}) == answer(st.ref, q, yarql.ResolveOptions{}), "a copy answers differently")
	sym.Cover("answered")
}

// Run_C22_many: all of 300 fields, members and enum values and 40 implementations are listed.
func Run_C22_many(st *bigState) {
	r := exec(st.s, "{q:__type(name:\"BigQ\"){fields{name type{ofType{name}}}}i:__type(name:\"BigIn\"){inputFields{name type{name}}}e:__type(name:\"BigE\"){enumValues{name}}p:__type(name:\"BigI\"){possibleTypes{name}}}")
	sym.Assert(!r.failed(), "introspection fails")
	has := func(l *jv, name string) *jv {
		for _, v := range l.vals {
			if v.get("name").isStr(name) {
				return v
			}
		}
		return nil
	}
	f, i, e, p := r.data.get("q").get("fields"), r.data.get("i").get("inputFields"), r.data.get("e").get("enumValues"), r.data.get("p").get("possibleTypes")
	for k := 0; k < bigN; k++ {
		x, y := has(f, "F"+three(k)), has(i, "F"+three(k))
		sym.Assert(x != nil && x.get("type").get("ofType").get("name").isStr("String"), "a field is not listed")
		sym.Assert(y != nil && y.get("type").get("name").isStr("Int"), "a member is not listed")
		sym.Assert(has(e, "E"+three(k)) != nil, "an enum value is not listed")
	}
	sym.Assert(len(i.vals) == bigN+1 && len(e.vals) == bigN && len(p.vals) == 40, "something else is listed")
	for k := 0; k < 40; k++ {
		sym.Assert(has(p, "BigImpl"+itoa(k)) != nil, "an implementation is not listed")
	}
	sym.Cover("listed")
}

// Run_C27_files: up to 299 files of one request each arrive at their place.
func Run_C27_files(st *bigState) {
	n := bigSize()
	c := sym.StrOf(1, "abc")
	js := sym.Bool()
	var names []string
	v := []byte{}
	for i := 0; i < n; i++ {
		names = append(names, c+three(i))
		v = append(append(append(append(append(v, ",\""...), c...), three(i)...), '"'))
	}
	v[0] = '['
	f := newFiles(names...)
	bigF = nil
	o := yarql.ResolveOptions{GetFormFile: f.get}
	q := "{files(f:" + string(v) + "])}"
	if js {
		q = "query($v:[File]){files(f:$v)}"
		o.Variables = "{\"v\":" + string(v) + "]}"
	}
	r := execOpt(st.s, q, o)
	sym.Assert(!r.failed() && len(bigF) == n, "a file does not arrive")
	for i, x := range bigF {
		sym.Assert(x == f.hs[i], "a file arrives at another place")
	}
	sym.Cover("arrived")
}
