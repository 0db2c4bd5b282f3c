package h

import (
	"errors"
	"strconv"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type MoreNode struct{ N int }

func (MoreNode) ResolveNext() MoreNode         { return MoreNode{} }
func (MoreNode) ResolvePtr() *MoreNode         { return &MoreNode{} }
func (MoreNode) ResolveOne() []MoreNode        { return []MoreNode{{}} }
func (MoreNode) ResolveOnes() []*MoreNode      { return []*MoreNode{nil, {}} }
func (MoreNode) ResolveFail() (*int, error)    { return nil, errors.New("deep") }
func (MoreNode) ResolveOk() (int, error)       { return 1, nil }
func (MoreNode) ResolveTry() (MoreNode, error) { return MoreNode{}, nil }

type MoreQ struct{ Node MoreNode }

var moreAll BigIn
var moreCtx bool
var moreInt []int64
var moreFl []float64

func (MoreQ) ResolveAll(a BigIn, c *yarql.Ctx) int {
	moreAll, moreCtx = a, c != nil
	return 1
}
func (MoreQ) ResolveInt(a struct {
	A int64
	L []int64
}) int {
	moreInt = append(a.L, a.A)
	return 1
}
func (MoreQ) ResolveFl(a struct {
	A float64
	L []float64
}) int {
	moreFl = append(a.L, a.A)
	return 1
}

type moreState struct{ s, t *yarql.Schema }

func Setup_more() *moreState {
	return &moreState{build(MoreQ{}, NoM{}), build(MoreQ{}, NoM{})}
}

// moreDeep is a query n levels deep with a leaf that fails between two that do not, and the path of the failure.
func moreDeep(n, k int, al string) (string, string) {
	q, path, end := []byte("{"), []byte("["), []byte{}
	for i := 0; i < n; i++ {
		kind := k
		if k == 5 {
			kind = i % 4
			if kind == 2 {
				kind = 0
			}
		}
		key := al
		switch {
		case i == 0:
			q, key = append(append(q, al...), ":node{"...), al
		case kind == 0:
			q, key = append(q, "next{"...), "next"
		case kind == 1:
			q = append(append(q, al...), ":ptr{"...)
		case kind == 2:
			q, key = append(q, "one{"...), "one"
		case kind == 3:
			q = append(append(q, al...), ":try{"...)
		default:
			q, key = append(q, "ones{"...), "ones"
		}
		path = append(append(append(path, '"'), key...), "\","...)
		if i > 0 && kind == 2 {
			path = append(path, "0,"...)
		}
		if i > 0 && kind == 4 {
			path = append(path, "1,"...)
		}
		end = append(end, '}')
	}
	return string(q) + "a:ok x:fail z:ok" + string(end) + "}", string(path) + "\"x\"]"
}

// Run_C20_deep: a failure up to 240 levels deep (110 below lists) is reported with its whole path, its neighbours and everything above are answered. Bounds: 15 depths, six kinds of levels (values, pointers, lists, lists with nulls, methods with errors, mixed), own names of one of three letters.
func Run_C20_deep(st *moreState) {
	n := []int{1, 2, 15, 16, 17, 31, 33, 63, 65, 100, 110, 127, 128, 129, 200, 240}[sym.Choose(16)]
	k := sym.Choose(6)
	if k == 2 || k == 4 {
		sym.Assume(n <= 110)
	}
	q, path := moreDeep(n, k, string([]byte{sym.Pick("abk")}))
	for i := 0; i < 2; i++ {
		r := exec(st.s, q)
		es := r.v.get("errors")
		sym.Assert(len(r.errs) == 1 && len(es.vals) == 1 && es.at(0).get("message").isStr("deep"), "not every failure is reported exactly once")
		sym.Assert(es.at(0).get("path").String() == path, "a failure has another path")
		d, left := r.data, n
		for left > 0 {
			sym.Assert(d != nil && len(d.vals) > 0, "an answer is cut off above a failure")
			d = d.vals[len(d.vals)-1]
			if d.k == 'o' {
				left--
			}
		}
		sym.Assert(d.String() == "{\"a\":1,\"x\":null,\"z\":1}", "the fields around a failing resolver are affected")
	}
	sym.Cover("reported")
}

// Run_C36_deep: the data of a deep answer alone, with as many failures as the query has. Bounds: up to 240 levels and up to 299 failures next to each other, with and without tracing.
func Run_C36_deep(st *moreState) {
	var q string
	if sym.Bool() {
		n := []int{1, 16, 64, 128, 240}[sym.Choose(5)]
		q, _ = moreDeep(n, []int{0, 1, 3, 5}[sym.Choose(4)], string([]byte{sym.Pick("abk")}))
	} else {
		b := []byte("{" + string([]byte{sym.Pick("abk")}) + "y:node{")
		for i := bigSize(); i > 0; i-- {
			b = append(append(append(b, 'k'), three(i)...), ":fail "...)
		}
		q = string(b) + "}}"
	}
	a := exec(st.s, q)
	errs := st.t.Resolve([]byte(q), yarql.ResolveOptions{NoMeta: true, Tracing: sym.Bool()})
	got := string(st.t.Result)
	sym.Assert(len(a.raw) > len(got)+8 && a.raw[8:8+len(got)] == got, "the data alone is not the data of the full answer")
	sym.Assert(errTexts(errs) == errTexts(a.errs) && len(errs) > 0, "without the rest of the answer other errors are returned")
	sym.Cover("answered")
}

// Run_C33_many: of up to 299 arguments of one method exactly the given ones arrive, each at its own member, and the context next to them. Bounds: 17 counts, four places to start, plain and by variables.
func Run_C33_many(st *moreState) {
	n, from := bigSize(), []int{0, 1, 44, 200}[sym.Choose(4)]
	x := sym.Conc(sym.Range(0, 2))
	byVar := sym.Bool()
	head, vars := []byte("query("), []byte{}
	q := []byte("){all(")
	for i := 0; i < n; i++ {
		f := three((from + i) % bigN)
		q = append(append(append(q, 'F'), f...), ':')
		if byVar {
			head = append(append(append(head, "$v"...), f...), ":Int "...)
			q = append(append(append(q, "$v"...), f...), ' ')
			vars = append(append(append(append(append(vars, ",\"v"...), f...), "\":"...), itoa(i*10+x)...), ' ')
		} else {
			q = append(append(q, itoa(i*10+x)...), ' ')
		}
	}
	moreAll, moreCtx = BigIn{}, false
	var r *resp
	if byVar {
		vars[0] = '{'
		r = execVars(st.s, string(head)+string(q)+")}", string(vars)+"}")
	} else {
		r = exec(st.s, "query"+string(q[1:])+")}")
	}
	sym.Assert(!r.failed() && moreCtx && moreAll.Next == nil, "a method with many arguments is refused")
	for i := 0; i < bigN; i++ {
		k := (i - from + bigN) % bigN
		p := moreAll.get(i)
		sym.Assert((p != nil) == (k < n) && (p == nil || *p == k*10+x), "an argument does not arrive at its own place")
	}
	sym.Cover("arrived")
}

// Run_C05_long: integers of up to 65537 digits, leading zeros included, arrive exactly or are refused. Bounds: 22 lengths, the digits of the two ends, by literal, in a list, as default and as JSON.
func Run_C05_long(st *moreState) {
	n := bigLen()
	a, b := "0129"[sym.Choose(4)], "0579"[sym.Choose(4)]
	t := string([]byte{a}) + repeat("0", n) + string([]byte{b})
	if sym.Bool() {
		t = "-" + t
	}
	moreInt = nil
	var r *resp
	switch sym.Choose(5) {
	case 0:
		r = exec(st.s, "{int(a:"+t+")}")
	case 1:
		r = exec(st.s, "{int(l:["+t+"] a:3)}")
	case 2:
		r = exec(st.s, "query($v:Int="+t+"){int(a:$v)}")
	case 3:
		r = execVars(st.s, "query($v:Int){int(a:$v)}", "{\"v\":"+t+"}")
	default:
		r = execVars(st.s, "query($v:[Int]){int(l:$v a:3)}", "{\"v\":["+t+"]}")
	}
	if r.failed() {
		sym.Assert(len(moreInt) == 0, "a refused integer arrives")
		sym.Cover("refused")
		return
	}
	w, err := strconv.ParseInt(t, 10, 64)
	sym.Assert(err == nil && len(moreInt) > 0 && moreInt[0] == w, "an integer arrives changed")
	sym.Cover("arrived")
}

// Run_C29_long: floats of up to 1025 digits before and behind the point, balanced by the exponent or not, arrive as the number that is written. Bounds: 7 lengths, four digits, six forms, by literal, in a list, as default and as JSON.
func Run_C29_long(st *moreState) {
	n := []int{17, 20, 39, 64, 255, 310, 1025}[sym.Choose(7)]
	d := string([]byte{"1379"[sym.Choose(4)]})
	t := ""
	switch sym.Choose(6) {
	case 0:
		t = d + repeat("0", n) + ".5e-" + itoa(n)
	case 1:
		t = "0." + repeat("0", n) + d + "e" + itoa(n+1)
	case 2:
		t = d + "." + repeat("0", n) + d
	case 3:
		t = d + "." + repeat("9", n)
	case 4:
		t = d + repeat("73", n) + ".0E-" + itoa(2*n)
	default:
		t = d + "." + repeat("0", n) + "e" + repeat("0", n) + "3"
	}
	if sym.Bool() {
		t = "-" + t
	}
	moreFl = nil
	var r *resp
	switch sym.Choose(4) {
	case 0:
		r = exec(st.s, "{fl(a:"+t+")}")
	case 1:
		r = exec(st.s, "{fl(l:["+t+"] a:3)}")
	case 2:
		r = exec(st.s, "query($v:Float="+t+"){fl(a:$v)}")
	default:
		r = execVars(st.s, "query($v:Float){fl(a:$v)}", "{\"v\":"+t+"}")
	}
	w, err := strconv.ParseFloat(t, 64)
	sym.Assert(err == nil, "harness: number")
	sym.Assert(!r.failed() && len(moreFl) > 0 && moreFl[0] == w, "a long float arrives changed or not at all")
	sym.Cover("arrived")
}

// Run_C21_long: a query or a variable of up to 4096 (thorough 65537) characters is answered over every transport as directly. Bounds: 22 (thorough 25) lengths, a character of any value or an escape at the start, in the middle or at the end, five transports.
func Run_C21_long(st *bigState) {
	n := bigLen()
	b := []byte(repeat("abcdefg ", n/8+1)[:n])
	at := []int{0, n / 2, n - 1}[sym.Choose(3)]
	b[at] = "x#}+%&= ,"[sym.Choose(9)]
	text := string(b)
	q, vars := "{text(a:\"p\" s:\""+text+"\" b:\"q\")}", ""
	if sym.Bool() {
		q, vars = "query($s:String){text(a:\"p\" s:$s b:\"q\")}", "{\"s\":\""+text+"\"}"
	}
	r := request{q: q, vars: vars, via: "jbuf"[sym.Choose(4)]}
	bigS, bigB = "", ""
	got, errs := r.send(st.s)
	v, ok := parseJSON(got)
	sym.Assert(ok && len(errs) == 0, "a long request is refused")
	if v.k == 'a' {
		v = v.at(0)
	}
	sym.Assert(bigS == text && bigB == "pq" && v.get("data").get("text").isStr(text), "a long text is answered changed")
	sym.Cover("answered")
}

// Run_C10_repeated: up to 255 conditions on one field, fragment or inline fragment: it appears only if every one of them allows it. Bounds: 17 counts, one that forbids at one of three places or none, by literal and variable, four places.
func Run_C10_repeated(st *bigState) {
	n := bigSize()
	sym.Assume(n < 256)
	at := []int{0, n / 2, n - 1, n}[sym.Choose(4)]
	bad := []string{"@skip(if:true)", "@include(if:false)", "@include(if:$n)", "@skip(if:$y)"}[sym.Choose(4)]
	ok := []string{"@skip(if:false)", "@include(if:$y)"}[sym.Choose(2)]
	c := []byte{}
	for i := 0; i < n; i++ {
		if i == at {
			c = append(c, bad...)
		} else {
			c = append(c, ok...)
		}
	}
	q, want := "", ""
	switch sym.Choose(3) {
	case 0:
		q, want = "F000 k:F001"+string(c)+" F002", "\"k\":\"v1\","
	case 1:
		q, want = "F000 ...F"+string(c)+" F002", "\"k\":\"v3\","
	default:
		q, want = "F000 ...on BigQ"+string(c)+"{k:F001 l:F003}F002", "\"k\":\"v1\",\"l\":\"v3\","
	}
	if at < n {
		want = ""
	}
	r := execVars(st.s, "query($y:Boolean=true $n:Boolean){"+q+"}fragment F on BigQ{k:F003}", "{\"n\":false}")
	sym.Assert(!r.failed() && r.data.String() == "{\"F000\":\"v0\","+want+"\"F002\":\"v2\"}", "conditions do not decide what appears")
	sym.Cover("decided")
}

type MoreObj struct {
	A *[]int
	B **MoreObj
	C *[]*[]string
	D **int
	E []*[]int
	F **[]int
}

var moreObj MoreObj
var moreSeen int

func (MoreQ) ResolvePtrs(a MoreObj) int {
	moreObj = a
	moreSeen++
	return 1
}

func moreInts(l *[]int) string {
	if l == nil {
		return "null"
	}
	b := []byte("[")
	for i, x := range *l {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, itoa(x)...)
	}
	return string(append(b, ']'))
}

func (o *MoreObj) show() string {
	t := "a:" + moreInts(o.A)
	t += " c:"
	if o.C == nil {
		t += "null"
	} else {
		t += "["
		for i, l := range *o.C {
			if i > 0 {
				t += ","
			}
			if l == nil {
				t += "null"
				continue
			}
			t += "["
			for j, x := range *l {
				if j > 0 {
					t += ","
				}
				t += "\"" + x + "\""
			}
			t += "]"
		}
		t += "]"
	}
	t += " d:"
	if o.D == nil || *o.D == nil {
		t += "null"
	} else {
		t += itoa(**o.D)
	}
	t += " e:"
	if o.E == nil {
		t += "null"
	} else {
		t += "["
		for i, l := range o.E {
			if i > 0 {
				t += ","
			}
			t += moreInts(l)
		}
		t += "]"
	}
	t += " f:"
	if o.F == nil || *o.F == nil {
		t += "null"
	} else {
		t += moreInts(*o.F)
	}
	t += " b:"
	if o.B == nil || *o.B == nil {
		return t + "null"
	}
	return t + "{" + (*o.B).show() + "}"
}

// moreVal gives the values of the members a, c, d, e and f.
func moreVals(x string) []string {
	var out []string
	for _, vs := range [][]string{
		{"null", "[]", "[" + x + "]", "[" + x + ",-2]"},
		{"null", "[]", "[null]", "[[]]", "[[\"" + x + "\"],null,[\"q\",\"\"]]"},
		{"null", x},
		{"null", "[]", "[null]", "[[],[" + x + "],null]"},
		{"null", "[]", "[4," + x + "]"},
	} {
		out = append(out, vs[sym.Choose(len(vs))])
	}
	return out
}

// Run_C31_pointers: members that are pointers to lists, to pointers and to objects, lists of pointers to lists: null is no pointer, an empty list is one to an empty list, everything else arrives as given. Bounds: five members with two to five values each, directly, as object behind two pointers, by literal, by variable inside or as a whole, or as default; one digit of any value.
func Run_C31_pointers(st *moreState) {
	x := sym.StrOf(1, "123456789")
	ns := []string{"a", "c", "d", "e", "f"}
	ts := []string{"[Int]", "[[String]]", "Int", "[[Int]]", "[Int]"}
	vs := moreVals(x)
	lit, js, byVar, defs, want := "", "", "", "", ""
	for i, n := range ns {
		if i > 0 {
			lit, js, want, byVar = lit+",", js+",", want+" ", byVar+" "
		}
		lit += n + ":" + vs[i]
		js += "\"" + n + "\":" + vs[i]
		want += n + ":" + vs[i]
		byVar += n + ":$" + n
		defs += "$" + n + ":" + ts[i] + " "
	}
	moreObj, moreSeen = MoreObj{}, 0
	var r *resp
	nested := true
	switch sym.Choose(7) {
	case 0:
		r, nested = exec(st.s, "{ptrs("+lit+" b:null)}"), false
	case 1:
		r, nested = execVars(st.s, "query("+defs+"){ptrs("+byVar+")}", "{"+js+"}"), false
	case 2:
		r = exec(st.s, "{ptrs(b:{"+lit+"})}")
	case 3:
		r = execVars(st.s, "query("+defs+"){ptrs(b:{"+byVar+" b:null})}", "{"+js+"}")
	case 4:
		r = execVars(st.s, "query($b:MoreObj){ptrs(b:$b)}", "{\"b\":{"+js+",\"b\":null}}")
	case 5:
		r = exec(st.s, "query($b:MoreObj={"+lit+"}){ptrs(b:$b)}")
	default:
		r = execVars(st.s, "query($b:MoreObj={b:{a:[7]}}){ptrs(b:$b)}", "{\"b\":{"+js+"}}")
	}
	sym.Assert(!r.failed() && moreSeen == 1, "a value behind pointers is refused")
	w := want + " b:null"
	if nested {
		w = "a:null c:null d:null e:null f:null b:{" + w + "}"
	}
	sym.Assert(moreObj.show() == w, "a value behind pointers arrives changed")
	sym.Cover("arrived")
}

// Run_C30_deep: tracing changes nothing about deep answers, also when the limit ends them: the same data, the same errors, and one entry per resolved field with its whole path. Bounds: 12 depths up to 300 (127 below lists), six kinds of levels, limits 255 (set by default), 17 and 60.
func Run_C30_deep(st *moreState) {
	n := []int{1, 2, 16, 17, 29, 30, 58, 60, 127, 128, 252, 300}[sym.Choose(12)]
	k := sym.Choose(6)
	sym.Assume(n < 130 || k != 2 && k != 4)
	q, _ := moreDeep(n, k, string([]byte{sym.Pick("abk")}))
	lim := []uint8{0, 17, 60}[sym.Choose(3)]
	if lim > 0 {
		st.s.MaxDepth, st.t.MaxDepth = lim, lim
	}
	for i := 0; i < 2-n/100; i++ {
		a := exec(st.s, q)
		b := execOpt(st.t, q, yarql.ResolveOptions{Tracing: true})
		sym.Assert(a.data.String() == b.data.String() && errTexts(a.errs) == errTexts(b.errs), "tracing changes a deep answer")
		sym.Assert(a.v.get("errors").String() == b.v.get("errors").String(), "tracing changes a deep answer")
		rs := b.v.get("extensions").get("tracing").get("execution").get("resolvers")
		sym.Assert(rs != nil && len(rs.vals) <= n+3 && len(rs.vals) > 0, "the trace of a deep answer has not one entry for each resolved field")
		if len(a.errs) == 1 && errTexts(a.errs) == "deep\n" {
			sym.Assert(len(rs.vals) == n+3, "the trace of a deep answer has not one entry for each resolved field")
		}
	}
	sym.Cover("traced")
}
