package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// LongQ has fields with names of 63 up to 254 characters, in pairs that differ in the last one.
type LongQ struct {
	F00 int `gq:"f63_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefp"`
	F01 int `gq:"f63_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefq"`
	F02 int `gq:"f64_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgp"`
	F03 int `gq:"f64_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgq"`
	F04 int `gq:"f65_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghp"`
	F05 int `gq:"f65_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghq"`
	F06 int `gq:"f127_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqp"`
	F07 int `gq:"f127_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqq"`
	F08 int `gq:"f128_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrp"`
	F09 int `gq:"f128_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrq"`
	F10 int `gq:"f129_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrsp"`
	F11 int `gq:"f129_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrsq"`
	F12 int `gq:"f200_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklp"`
	F13 int `gq:"f200_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklq"`
	F14 int `gq:"f253_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmp"`
	F15 int `gq:"f253_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmq"`
	F16 int `gq:"f254_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnp"`
	F17 int `gq:"f254_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnq"`
}

type LongArgs struct {
	F00 int `gq:"f63_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefp"`
	F01 int `gq:"f63_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefq"`
	F02 int `gq:"f64_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgp"`
	F03 int `gq:"f64_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgq"`
	F04 int `gq:"f65_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghp"`
	F05 int `gq:"f65_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghq"`
	F06 int `gq:"f127_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqp"`
	F07 int `gq:"f127_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqq"`
	F08 int `gq:"f128_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrp"`
	F09 int `gq:"f128_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrq"`
	F10 int `gq:"f129_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrsp"`
	F11 int `gq:"f129_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrsq"`
	F12 int `gq:"f200_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklp"`
	F13 int `gq:"f200_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklq"`
	F14 int `gq:"f253_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmp"`
	F15 int `gq:"f253_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmq"`
	F16 int `gq:"f254_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnp"`
	F17 int `gq:"f254_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnq"`
}

var longNames = []string{
	"f63_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdef",
	"f64_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefg",
	"f65_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh",
	"f127_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopq",
	"f128_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqr",
	"f129_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrs",
	"f200_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl",
	"f253_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklm",
	"f254_abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn",
}

func (LongQ) ResolveArg(a LongArgs) int {
	for i, v := range []int{a.F00, a.F01, a.F02, a.F03, a.F04, a.F05, a.F06, a.F07, a.F08, a.F09, a.F10, a.F11, a.F12, a.F13, a.F14, a.F15, a.F16, a.F17} {
		if v != 0 {
			return v*1000 + i
		}
	}
	return -1
}

type longState struct{ s *yarql.Schema }

func Setup_long() *longState {
	return &longState{build(LongQ{10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27}, NoM{})}
}

// longName is the name of a field of LongQ with one byte replaced by any that a name may have: its last one, its first one, one in the middle or next to the 64th.
func longName() (string, int) {
	k := sym.Choose(len(longNames))
	b := append([]byte(longNames[k]), 'p')
	at := []int{len(b) - 1, 0, len(b) / 2, 62, 8, 15, 31, 16, 32, len(b) - 2}[sym.Choose(10)]
	if at == len(b)-1 {
		b[at] = sym.Byte()
	} else {
		b[at] = "aqzA0_"[sym.Choose(6)]
	}
	sym.Assume(nameByte(b[at]) && (b[0] < '0' || b[0] > '9'))
	name := string(b)
	if name == longNames[k]+"p" {
		return name, 2 * k
	}
	if name == longNames[k]+"q" {
		return name, 2*k + 1
	}
	return name, -1
}

// Run_C08_long: field and argument names of 63 up to 254 characters, in pairs that differ in the last one, find exactly their own, plain, under a name of their own, or by a variable; any other name of that length is an error. Bounds: 9 lengths, the last character of any value, or one of 6 at one of 9 other places.
func Run_C08_long(st *longState) {
	name, i := longName()
	var r *resp
	key, want := name, itoa(10+i)
	switch sym.Choose(5) {
	case 0:
		r = exec(st.s, "{"+name+"}")
	case 1:
		key = "k"
		r = exec(st.s, "{k:"+name+"}")
	case 2:
		key, want = "arg", itoa(7000+i)
		r = exec(st.s, "{arg("+name+":7)}")
	case 3:
		key, want = "arg", itoa(8000+i)
		r = execVars(st.s, "query($v:Int){arg("+name+":$v)}", "{\"v\":8}")
	default:
		key = "z"
		r = exec(st.s, "{...F}fragment F on LongQ{...on LongQ{z:"+name+"}}")
	}
	if i < 0 {
		sym.Assert(r.failed(), "an unknown name was accepted")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed() && len(r.data.vals) == 1 && r.data.get(key).isNum(want), "a long name is not answered with its own value")
	sym.Cover("known")
}

// Run_C07_long: a response key of 1 up to 254 characters is answered as written, with its neighbours at their places. Bounds: 9 lengths of names and own names and the lengths 1 to 8, the last character of any value, or one of 6 at one of 9 other places.
func Run_C07_long(st *longState) {
	n := []int{1, 2, 7, 8, 63, 64, 65, 127, 128, 129, 200, 253, 254}[sym.Choose(13)]
	b := []byte(longNames[8][:253] + "z")[:n]
	at := []int{n - 1, 0, n / 2}[sym.Choose(3)]
	b[at] = sym.Byte()
	sym.Assume(nameByte(b[at]) && (b[0] < '0' || b[0] > '9'))
	al := string(b)
	k := sym.Choose(len(longNames))
	f := longNames[k] + "q"
	g := longNames[(k+1)%len(longNames)] + "p"
	sym.Assume(al != f && al != g)
	r := exec(st.s, "{"+g+" "+al+":"+f+" "+f+"}")
	sym.Assert(!r.failed() && len(r.data.vals) == 3, "a long name is refused")
	sym.Assert(r.data.keys[0] == g && r.data.keys[1] == al && r.data.keys[2] == f, "a long key is answered changed")
	sym.Assert(r.data.vals[1].isNum(itoa(11+2*k)) && r.data.vals[2].isNum(itoa(11+2*k)) && r.data.vals[0].isNum(itoa(10+2*((k+1)%len(longNames)))), "a long key is answered with another value")
	sym.Cover("answered")
}

// Run_C09_long: fragments with names of 63 up to 253 characters that differ in one place stand for their own content. Bounds: 9 lengths, the last character of any value, or one of 6 at one of 9 other places.
func Run_C09_long(st *longState) {
	name, i := longName()
	base := ""
	for _, n := range longNames {
		if len(n)+1 == len(name) {
			base = n
		}
	}
	p, q := base+"p", base+"q"
	r := exec(st.s, "{..."+name+"}fragment "+p+" on LongQ{a:"+longNames[0]+"p}fragment "+q+" on LongQ{b:"+longNames[0]+"q}")
	if i < 0 {
		sym.Assert(r.failed(), "an unknown fragment was accepted")
		sym.Cover("unknown")
		return
	}
	k, w := "a", "10"
	if i%2 == 1 {
		k, w = "b", "11"
	}
	sym.Assert(!r.failed() && len(r.data.vals) == 1 && r.data.get(k).isNum(w), "a fragment stands for the content of another")
	sym.Cover("known")
}

// Run_C11_long: variables with names of 63 up to 254 characters that differ in one place have their own values and defaults. Bounds: 9 lengths, the last character of any value, or one of 6 at one of 9 other places, with and without values given.
func Run_C11_long(st *longState) {
	name, i := longName()
	base := ""
	for _, n := range longNames {
		if len(n)+1 == len(name) {
			base = n
		}
	}
	p, q := base+"p", base+"q"
	f := longNames[0] + "p"
	vars := []string{"{}", "{\"" + p + "\":5}", "{\"" + q + "\":6}", "{\"" + q + "\":8,\"" + p + "\":7}"}
	k := sym.Choose(4)
	r := execVars(st.s, "query($"+p+":Int=3 $"+q+":Int=4){arg("+f+":$"+name+")}", vars[k])
	if i < 0 {
		sym.Assert(r.failed(), "an unknown variable was accepted")
		sym.Cover("unknown")
		return
	}
	w := [][]int{{3, 4}, {5, 4}, {3, 6}, {7, 8}}[k][i%2]
	sym.Assert(!r.failed() && r.data.get("arg").isNum(itoa(w*1000)), "a variable has the value of another")
	sym.Cover("known")
}

// Run_C12_long: of two operations with names of 63 up to 254 characters that differ in one place the named one runs. Bounds: 9 lengths, the last character of any value, or one of 6 at one of 9 other places.
func Run_C12_long(st *longState) {
	name, i := longName()
	base := ""
	for _, n := range longNames {
		if len(n)+1 == len(name) {
			base = n
		}
	}
	f := longNames[0]
	r := execOpt(st.s, "query "+base+"p{x:"+f+"p}query "+base+"q{x:"+f+"q}query Z{x:"+longNames[1]+"p}", yarql.ResolveOptions{OperatorTarget: name})
	if i < 0 {
		sym.Assert(r.failed() && r.data.get("x") == nil, "an unknown operation runs something")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed() && r.data.get("x").isNum(itoa(10+i%2)), "another operation runs than the named one")
	sym.Cover("ran")
}
