package h

import (
	"strings"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the exposure checks. Every value that must not be seen is the text SECRET or the number 666.

type HidEmb struct {
	EF string
	Fn func() string
}

func (HidEmb) Hidden() string { return "SECRET" }

type hidLow struct{ LF string }

type HidOnly struct{ Z string } // only reachable by way of an ignored member
type HidOnlyIn struct{ Z string }

type HidInner struct {
	A  string
	B  string  `gq:"-"`
	C  string  `gq:"cee"`
	H  HidOnly `gq:"-"`
	ID uint    `gq:"-"`
	HidEmb
	p *string
	s string
}

func (HidInner) ResolveId() (string, yarql.AttrIsID) { return "id", 0 }

type HidQ struct {
	A  string
	B  string                          `gq:"-"`
	C  string                          `gq:"bee"`
	D  string                          `gq:" dee , id "`
	P  string                          `gq:"q"`
	Q  string                          `gq:"p"`
	R  int                             `gq:" - "`
	S  int                             `gq:"-,id"`
	T  map[string]string               `gq:"-"`
	J  func() string                   `gq:"-"`
	K  func() string                   `gq:"kay"`
	G  func(struct{ V HidOnlyIn }) int `gq:"-"`
	U  func() (string, error)          // no tag
	X  string                          `gq:"-"`
	Y  string                          `gq:"x"`
	M3 string                          `gq:"-"`
	In HidInner
	L  []HidInner
	O  HidOnly    `gq:"-"`
	OL []*HidOnly `gq:"-"`
	HidEmb
	HidNum
	*HidText
	*hidLow
}

var hidGot HidArgs
var hidCalls int

// HidNum is embedded although it has no members.
type HidNum int

type HidText string

type HidArgEmb struct{ EA string }

type HidIn struct {
	A string
	B string `gq:"-"`
	C string `gq:"cee"`
	p string
	P string `gq:"q"`
	Q string `gq:"p"`
	HidArgEmb
	HidNum
	*HidText
	N *HidIn
	M *HidIn `gq:"-"`
}

type HidArgs struct {
	A string
	B string `gq:"-"`
	C string `gq:"cee"`
	p string
	P string `gq:"q"`
	Q string `gq:"p"`
	HidArgEmb
	HidNum
	*HidText
	N *HidIn
	L []HidIn
	M *HidIn            `gq:"-"`
	W HidOnlyIn         `gq:"-"`
	T map[string]string `gq:"-"`
	X string            `gq:"-"`
	Y string            `gq:"x"`
}

func (HidQ) ResolveM(a HidArgs) string {
	hidGot = a
	hidCalls++
	return "m"
}
func (HidQ) ResolveM3() string  { return "m3" }
func (HidQ) Hidden() string     { return "SECRET" }
func (HidQ) Resolve() string    { return "SECRET" }
func (HidQ) Resolvelow() string { return "SECRET" }
func (HidQ) Resolve_u() string  { return "u_" }
func (HidQ) Get() (int, error)  { return 666, nil }
func (HidQ) resolveN() string   { return "SECRET" }
func (*HidQ) ResolvePt() string { return "SECRET" } // of the pointer, the schema is of the value

func hidInner() HidInner {
	t := "SECRET"
	return HidInner{A: "ia", B: "SECRET", C: "ic", H: HidOnly{"SECRET"}, ID: 666, HidEmb: HidEmb{EF: "SECRET", Fn: func() string { return "SECRET" }}, p: &t, s: "SECRET"}
}

func hidQ() HidQ {
	sec := func() string { return "SECRET" }
	return HidQ{A: "a", B: "SECRET", C: "c", D: "d", P: "P", Q: "Q", R: 666, S: 666, J: sec, K: func() string { return "k" },
		G: func(struct{ V HidOnlyIn }) int { return 666 }, U: func() (string, error) { return "u", nil }, X: "SECRET", Y: "y", M3: "SECRET",
		In: hidInner(), L: []HidInner{hidInner()}, O: HidOnly{"SECRET"}, OL: []*HidOnly{{"SECRET"}}, HidEmb: HidEmb{EF: "SECRET", Fn: sec}, hidLow: &hidLow{"SECRET"}}
}

type hidState struct{ s *yarql.Schema }

func Setup_hid() *hidState { return &hidState{build(hidQ(), NoM{})} }

// what can be asked of the two types
var hidFields = map[string]string{"a": "\"a\"", "bee": "\"c\"", "dee": "\"d\"", "q": "\"P\"", "p": "\"Q\"", "kay": "\"k\"", "u": "\"u\"", "x": "\"y\"", "m": "\"m\"", "M3": "\"m3\"", "_u": "\"u_\"",
	"__typename": "\"HidQ\""}
var hidInnerFields = map[string]string{"a": "\"ia\"", "cee": "\"ic\"", "id": "\"id\"", "__typename": "\"HidInner\""}

// spellings somebody might try for a hidden member
var hidTries = []string{"b", "B", "c", "C", "d", "D", "r", "s", "S", "t", "j", "J", "k", "g", "G", "o", "oL", "ol", "OL", "eF", "ef", "EF", "fn", "Fn", "hidEmb", "HidEmb", "hidLow", "lF", "LF", "hidden", "Hidden",
	"resolve", "Resolve", "resolvelow", "low", "Low", "get", "n", "N", "resolveN", "resolveM", "ResolveM", "M", "pt", "h", "H", "iD", "ID", "resolveId", "y", "Y", "P", "Q", "X", "A", "w", "eA", "ea", "EA", "hidArgEmb", "hidNum", "HidNum", "hidText",
	"a", "bee", "dee", "q", "p", "kay", "u", "x", "m", "m3", "cee", "id", "_u", "__typename", "in", "l", "M3", "c ee", "be", "de", "cee2"}

func hidName() string {
	if sym.Choose(2) == 0 {
		return hidTries[sym.Choose(len(hidTries))]
	}
	n := sym.UpTo(1, 2+sym.Tier())
	for i := 0; i < len(n); i++ {
		sym.Assume(nameByte(n[i]))
	}
	sym.Assume(n[0] > '9')
	return n
}

func noSecret(r *resp) {
	sym.Assert(!strings.Contains(r.raw, "SECRET") && !strings.Contains(r.raw, "666"), "a hidden value is in the response")
}

// Run_C26_read: every name of up to two bytes and many spellings of the hidden members, asked of a root, a nested and a listed struct with ignored, renamed, swapped and embedded members: the allowed names give exactly their own value, any other name is an error and no hidden value is ever in the response.
func Run_C26_read(st *hidState) {
	n := hidName()
	var r *resp
	var d *jv
	want := ""
	in := sym.Choose(3)
	switch in {
	case 0:
		r = exec(st.s, "{x1:a v:"+n+"}")
		d = r.data
		want = hidFields[n]
		if n == "in" || n == "l" {
			sym.Assume(false)
		}
	case 1:
		r = exec(st.s, "{in{x1:a v:"+n+"}}")
		d = r.data.get("in")
		want = hidInnerFields[n]
	default:
		r = exec(st.s, "{l{x1:a v:"+n+"}}")
		d = r.data.get("l").at(0)
		want = hidInnerFields[n]
	}
	if in > 0 && (n == "s" || n == "p") {
		// exported fields only (see known_findings.txt)
		sym.Assert(r.failed(), "an unexported data field can be read")
		return
	}
	noSecret(r)
	if want == "" {
		sym.Assert(r.failed(), "a hidden or unknown name is answered")
		sym.Cover("hidden")
		return
	}
	sym.Assert(!r.failed(), "an allowed name is refused")
	sym.Assert(d.get("v").String() == want, "a name gives the value of another member")
	sym.Cover("allowed")
}

// hidSet tells what the name sets, on an argument struct or an input object: -1 nothing.
func hidSet(n string) int {
	for i, x := range []string{"a", "cee", "q", "p", "x"} {
		if x == n {
			return i
		}
	}
	return -1
}

func hidClean() bool {
	g := hidGot
	ok := g.B == "" && g.p == "" && g.EA == "" && g.M == nil && g.W.Z == "" && g.T == nil && g.X == ""
	if g.N != nil {
		ok = ok && g.N.B == "" && g.N.p == "" && g.N.EA == "" && g.N.M == nil
	}
	return ok
}

// Run_C26_write: the same names as argument, as member of an input object, as member of a listed one, by literal, variable and default: only the allowed names set exactly their own member, and the hidden ones are never set.
func Run_C26_write(st *hidState) {
	n := hidName()
	hidGot, hidCalls = HidArgs{}, 0
	var r *resp
	v := sym.StrOf(1, "vw")
	way := sym.Choose(5)
	lit := "\"" + v + "\""
	obj := false
	switch n {
	case "n", "l", "N", "L":
		sym.Assume(false) // of another kind
	}
	inN := true
	switch way {
	case 0:
		inN = false
		r = exec(st.s, "{m("+n+":"+lit+")}")
	case 1:
		r = exec(st.s, "{m(n:{"+n+":"+lit+"})}")
	case 2:
		r = execVars(st.s, "query($v:HidIn){m(n:$v)}", "{\"v\":{\""+n+"\":"+lit+"}}")
	case 3:
		r = exec(st.s, "query($v:HidIn={"+n+":"+lit+"}){m(n:$v)}")
	default:
		obj = true
		r = exec(st.s, "{m(l:[{a:\"x\"},{"+n+":"+lit+"}])}")
	}
	sym.Assert(hidClean(), "a hidden member is set")
	k := hidSet(n)
	if n == "x" && inN {
		k = -1
	}
	if k < 0 {
		sym.Assert(r.failed() && hidCalls == 0, "a hidden or unknown name is accepted")
		sym.Cover("hidden")
		return
	}
	sym.Assert(!r.failed() && hidCalls == 1, "an allowed name is refused")
	w := [5]string{}
	w[k] = v
	var g [5]string
	if !inN {
		g = [5]string{hidGot.A, hidGot.C, hidGot.P, hidGot.Q, hidGot.Y}
	} else if obj {
		sym.Assert(len(hidGot.L) == 2 && hidGot.L[0] == HidIn{A: "x"}, "a list of objects arrives changed")
		x := hidGot.L[1]
		sym.Assert(x.B == "" && x.p == "" && x.EA == "" && x.M == nil, "a hidden member is set")
		g = [5]string{x.A, x.C, x.P, x.Q, ""}
	} else {
		sym.Assert(hidGot.N != nil, "an object is lost")
		g = [5]string{hidGot.N.A, hidGot.N.C, hidGot.N.P, hidGot.N.Q, ""}
	}
	sym.Assert(g == w, "a name sets another member")
	sym.Cover("allowed")
}

func namesOf(v *jv, key string) string {
	var ns []string
	for _, x := range v.vals {
		ns = append(ns, x.get(key).s)
	}
	// in any order
	for i := range ns {
		for j := i + 1; j < len(ns); j++ {
			if ns[j] < ns[i] {
				ns[i], ns[j] = ns[j], ns[i]
			}
		}
	}
	return strings.Join(ns, " ")
}

// Run_C26_introspect: introspection of the types lists exactly the names that can be used, and no type that only a hidden member uses; every name of up to three bytes and the spellings above as type name.
func Run_C26_introspect(st *hidState) {
	switch sym.Choose(3) {
	case 0:
		r := exec(st.s, "{__type(name:\"HidQ\"){fields{name args{name}}}}")
		f := r.data.get("__type").get("fields")
		sym.Assert(f != nil && namesOf(f, "name") == "M3 _u a bee dee in kay l m p q u x", "introspection lists other fields than can be used")
		for _, x := range f.vals {
			if x.get("name").isStr("m") {
				sym.Assert(namesOf(x.get("args"), "name") == "a cee l n p q x", "introspection lists other arguments than can be used")
			}
		}
		sym.Cover("root")
	case 1:
		r := exec(st.s, "{__type(name:\"HidIn\"){inputFields{name}}}")
		sym.Assert(namesOf(r.data.get("__type").get("inputFields"), "name") == "a cee n p q", "introspection lists other input members than can be used")
		r = exec(st.s, "{__schema{types{name}}}")
		ts := " " + namesOf(r.data.get("__schema").get("types"), "name") + " "
		for _, t := range []string{"HidOnly", "HidOnlyIn", "HidEmb", "hidLow", "HidArgEmb", "HidArgs"} {
			sym.Assert(!strings.Contains(ts, " "+t+" "), "introspection lists a type of hidden members")
		}
		sym.Cover("types")
	default:
		n := []string{"HidOnly", "HidOnlyIn", "HidEmb", "hidLow", "HidArgEmb", "HidArgs", ""}[sym.Choose(7)]
		if n == "" {
			n = hidName()
			sym.Assume(n != "ID" && n != "Int")
		}
		r := exec(st.s, "{__type(name:\""+n+"\"){name}}")
		sym.Assert(!r.failed() && r.data.get("__type").isNull(), "introspection finds a type of hidden members")
		sym.Cover("none")
	}
}

// Arguments with unexported and ignored members of every kind.

type HidKArgs struct {
	A  int
	pi int
	pp *string
	ps []string
	pl []*HidKIn
	pz HidOnlyIn
	pq *HidOnlyIn
	pf func() string
	pc chan int
	pn interface{}
	pm map[string]int
	pb bool
	pd float64
	ge int            `gq:"ge,id"`
	gf *int           `gq:"gf"`
	Xp *string        `gq:"-"`
	Xs []string       `gq:"-"`
	Xz *HidOnlyIn     `gq:"-"`
	Xf func() string  `gq:"-"`
	Xm map[string]int `gq:"-"`
	Xc chan int       `gq:"-"`
	K  *HidKIn
}

type HidKIn struct {
	A  int
	pi int
	pp *string
	ps []string
	pl []*HidKIn
	pz HidOnlyIn
	pq *HidOnlyIn
	pf func() string
	pc chan int
	pn interface{}
	pm map[string]int
	pb bool
	pd float64
	ge int            `gq:"ge,id"`
	gf *int           `gq:"gf"`
	Xp *string        `gq:"-"`
	Xs []string       `gq:"-"`
	Xz *HidOnlyIn     `gq:"-"`
	Xf func() string  `gq:"-"`
	Xm map[string]int `gq:"-"`
	Xc chan int       `gq:"-"`
}

var hidK HidKArgs
var hidKCalls int

type HidKQ struct{ A string }

func (HidKQ) ResolveK(a HidKArgs) int {
	hidK = a
	hidKCalls++
	return a.A
}

func (HidKQ) ResolveL(a struct{ L []HidKIn }) int {
	hidKCalls++
	if len(a.L) > 0 {
		hidK.K = &a.L[0]
		return a.L[0].A
	}
	return 0
}

type hidkState struct{ s *yarql.Schema }

func Setup_hidk() *hidkState { return &hidkState{build(HidKQ{}, NoM{})} }

// Run_C26_kinds: members of an argument struct and of an input object, also in a list, that are unexported or ignored and of any kind (numbers, pointers, lists, objects, functions, channels, maps, interfaces), under every spelling, with values of any kind, as a literal or a variable: the request is refused, nothing is called and nothing is set.
func Run_C26_kinds(st *hidkState) {
	n := []string{"pi", "pp", "ps", "pl", "pz", "pq", "pf", "pc", "pn", "pm", "pb", "pd", "ge", "gf", "xp", "xs", "xz", "xf", "xm", "xc"}[sym.Choose(20)]
	if sym.Bool() {
		n = n[:1] + sym.UpTo(0, 1) + n[1:]
		for i := range n {
			sym.Assume(nameByte(n[i]))
		}
	} else if c := n[0]; sym.Bool() {
		n = string([]byte{c - 32}) + n[1:]
	}
	if n == "a" || n == "k" {
		sym.Assume(false)
	}
	v := []string{"1", "\"v\"", "null", "[]", "[\"v\"]", "true", "{}", "[{}]", "1.5"}[sym.Choose(9)]
	hidK, hidKCalls = HidKArgs{}, 0
	var r *resp
	switch sym.Choose(5) {
	case 0:
		r = exec(st.s, "{k("+n+":"+v+" a:1)}")
	case 1:
		r = exec(st.s, "{k(a:1 k:{a:2 "+n+":"+v+"})}")
	case 2:
		r = execVars(st.s, "query($v:HidKIn){k(k:$v)}", "{\"v\":{\"a\":2,\""+n+"\":"+v+"}}")
	case 3:
		r = exec(st.s, "{l(l:[{a:2 "+n+":"+v+"}])}")
	default:
		r = execVars(st.s, "query($v:Int){k("+n+":$v)}", "{\"v\":"+v+"}")
	}
	sym.Assert(r.failed() && hidKCalls == 0 && hidK.K == nil, "a hidden member is accepted")
	sym.Cover("refused")
	r = exec(st.s, "{k(a:3 k:{a:2})}")
	sym.Assert(!r.failed() && hidK.K != nil && hidK.A == 3 && hidK.K.A == 2 && hidKCalls == 1, "a member next to hidden ones is not set")
	g, k := hidK, hidK.K
	sym.Assert(g.pi == 0 && g.pp == nil && g.ps == nil && g.pl == nil && g.pz.Z == "" && g.pq == nil && g.pf == nil && g.pc == nil && g.pn == nil && g.pm == nil && !g.pb && g.pd == 0 && g.ge == 0 && g.gf == nil, "a hidden member is set")
	sym.Assert(k.pi == 0 && k.pp == nil && k.ps == nil && k.pl == nil && k.pz.Z == "" && k.pq == nil && k.pf == nil && k.pc == nil && k.pn == nil && k.pm == nil && !k.pb && k.pd == 0 && k.ge == 0 && k.gf == nil, "a hidden member is set")
	if n == "pi" {
		r = exec(st.s, "{__type(name:\"HidKIn\"){inputFields{name}}__schema{queryType{fields{name args{name}}}}}")
		sym.Assert(r.data.get("__type").String() == "{\"inputFields\":[{\"name\":\"a\"}]}", "introspection lists other input members than can be used")
		for _, f := range r.data.get("__schema").get("queryType").get("fields").vals {
			if f.get("name").isStr("k") {
				sym.Assert(f.get("args").String() == "[{\"name\":\"a\"},{\"name\":\"k\"}]", "introspection lists other arguments than can be used")
			}
		}
		sym.Cover("introspection")
	}
}
