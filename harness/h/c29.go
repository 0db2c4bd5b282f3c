package h

import (
	"math"
	"strconv"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type FlTemp float64

type FlSmall float32

type FlObj struct {
	A float64
	B *float64
	C float32
	D *float32
	E []float64
	F []float32
	G FlTemp
	H *FlSmall
	I [][]*float64
}

func (FlObj) ResolveM() float64 { return fl64 }

type FlInt interface{ ResolveM() *float64 }

type FlImpl struct{ Z string }

func (FlImpl) ResolveM() *float64 { return &fl64 }

type FlArgs struct {
	A  float64
	B  *float64
	C  float32
	D  []float64
	E  FlTemp
	O  FlSub
	X  *FlSub
	Z  string
	E4 float32
}

type FlSub struct {
	F float64
	G *float32
}

var (
	fl64    float64
	fl32    float32
	flGot   FlArgs
	flCalls int
)

type FlQ struct{ Z string }

func (FlQ) ResolveA() float64                         { return fl64 }
func (FlQ) ResolveB() *float64                        { return &fl64 }
func (FlQ) ResolveC() float32                         { return fl32 }
func (FlQ) ResolveD() (*float32, error)               { return &fl32, nil }
func (FlQ) ResolveE() []float64                       { return []float64{fl64, 1, fl64} }
func (FlQ) ResolveF() []float32                       { return []float32{fl32} }
func (FlQ) ResolveG() FlTemp                          { return FlTemp(fl64) }
func (FlQ) ResolveH() *FlSmall                        { x := FlSmall(fl32); return &x }
func (FlQ) ResolveI() [][]*float64                    { return [][]*float64{{&fl64, nil}, {}} }
func (FlQ) ResolveIn() FlInt                          { return FlImpl{} }
func (FlQ) ResolveTake(a FlArgs) bool                 { flGot = a; flCalls++; return true }
func (FlQ) ResolveEcho(a struct{ F float64 }) float64 { return a.F }
func (FlQ) ResolveO() *FlObj {
	h := FlSmall(fl32)
	return &FlObj{fl64, &fl64, fl32, &fl32, []float64{fl64, fl64}, []float32{fl32}, FlTemp(fl64), &h, [][]*float64{{&fl64}}}
}

type flState struct{ s *yarql.Schema }

func Setup_fl() *flState {
	return &flState{parse(yarql.NewSchema(), FlQ{Z: "end"}, NoM{})}
}

var _ = yarql.Implements((*FlInt)(nil), FlImpl{})

func (v *jv) isF64(f float64) bool {
	if v == nil || v.k != '0' {
		return false
	}
	x, err := strconv.ParseFloat(v.s, 64)
	return err == nil && x == f && math.Signbit(x) == math.Signbit(f)
}

func (v *jv) isF32(f float32) bool {
	if v == nil || v.k != '0' {
		return false
	}
	x, err := strconv.ParseFloat(v.s, 32)
	return err == nil && float32(x) == f && math.Signbit(x) == math.Signbit(float64(f))
}

// flWhere are selections and the path to the floats they return; w is the precision.
var flWhere = []struct {
	sel  string
	w    int
	path []string
}{
	{"a", 64, []string{"a"}},
	{"b", 64, []string{"b"}},
	{"c", 32, []string{"c"}},
	{"d", 32, []string{"d"}},
	{"e", 64, []string{"e", "0"}},
	{"e", 64, []string{"e", "2"}},
	{"f", 32, []string{"f", "0"}},
	{"g", 64, []string{"g"}},
	{"h", 32, []string{"h"}},
	{"i", 64, []string{"i", "0", "0"}},
	{"in{m}", 64, []string{"in", "m"}},
	{"o{a}", 64, []string{"o", "a"}},
	{"o{b}", 64, []string{"o", "b"}},
	{"o{c}", 32, []string{"o", "c"}},
	{"o{d}", 32, []string{"o", "d"}},
	{"o{e}", 64, []string{"o", "e", "1"}},
	{"o{f}", 32, []string{"o", "f", "0"}},
	{"o{g}", 64, []string{"o", "g"}},
	{"o{h}", 32, []string{"o", "h"}},
	{"o{i}", 64, []string{"o", "i", "0", "0"}},
	{"o{m}", 64, []string{"o", "m"}},
}

func (v *jv) walk(path []string) *jv {
	for _, p := range path {
		if v == nil {
			return nil
		}
		if p[0] >= '0' && p[0] <= '9' {
			v = v.at(int(p[0] - '0'))
		} else {
			v = v.get(p)
		}
	}
	return v
}

// digits is n symbolic digits without zeros at the ends.
func flDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		set := "0123456789"
		if i == 0 || i == n-1 {
			set = "123456789"
		}
		b[i] = sym.Pick(set)
	}
	return string(b)
}

var (
	flExp = []int{-8, -7, -6, -5, -4, -1, 0, 1, 2, 5, 6, 7, 12, 16, 19, 20, 21, 22, 23, 30, -12, -30, 3, 4, 8, 9, 10, 11, 13, 14, 15, 17, 18}
	flFar = []int{-290, -101, -100, -99, -98, 99, 100, 101, 102, 290}
)

// Run_C29_out: one float of any digits at any place of an answer.
func Run_C29_out(st *flState) {
	w := flWhere[sym.Choose(len(flWhere))]
	n := 1
	if w.w == 32 {
		n += sym.Choose(6)
	} else {
		n += sym.Choose(15)
	}
	e := 0
	if k := sym.Choose(len(flExp) + len(flFar)); k < len(flExp) {
		e = flExp[k]
	} else if k -= len(flExp); w.w == 64 {
		e = flFar[k]
	} else {
		e = 25 + k
	}
	neg := sym.Bool()
	d := flDigits(n)
	if w.w == 64 {
		fl64 = sym.Float64(neg, d, e)
		fl32 = 1.5
	} else {
		fl32 = sym.Float32(neg, d, e)
		fl64 = 2.5
	}
	r := exec(st.s, "{x:"+w.sel+" z}")
	assertc(!r.failed(), "a float was not answered")
	x := r.data.get("x").walk(w.path[1:])
	if w.w == 64 {
		assertc(x.isF64(fl64), "the answer reads back as another float64")
	} else {
		assertc(x.isF32(fl32), "the answer reads back as another float32")
	}
	assertc(r.data.get("z").isStr("end"), "the field after the float is wrong")
	sym.Cover(w.sel)
}

var flSpecial = []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
	2.2250738585072014e-308, 4.9406564584124654e-318, 1.7976931348623155e308, 0.1 + 0.2, 1.0 / 3, 123456789012345680, 9007199254740993, 1e21, 999999999999999900000, 1e-6, 9.999999999999999e-7, 1e-7, 1e100, 1e-100,
	math.MaxFloat32, 1e23, 5e-324, 2.5e-10, 1.2345678901234567e-10}

// Run_C29_special: the values decimals of few digits do not reach.
func Run_C29_special(st *flState) {
	w := flWhere[sym.Choose(len(flWhere))]
	f := flSpecial[sym.Choose(len(flSpecial))]
	fl64, fl32 = f, float32(f)
	r := exec(st.s, "{x:"+w.sel+" z}")
	assertc(!r.failed(), "a float was not answered")
	x := r.data.get("x").walk(w.path[1:])
	if w.w == 32 {
		f = float64(fl32)
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		assertc(x != nil && (x.k == '0' || x.k == 'n'), "a float that is not finite is not answered with a number or null")
	} else if w.w == 64 {
		assertc(x.isF64(fl64), "the answer reads back as another float64")
	} else {
		assertc(x.isF32(fl32), "the answer reads back as another float32")
	}
	assertc(r.data.get("z").isStr("end"), "the field after the float is wrong")
	sym.Cover("special")
}

var flDest = []struct{ name, typ, pre, post string }{
	{"a", "Float", "", ""},
	{"b", "Float", "", ""},
	{"c", "Float", "", ""},
	{"d", "Float", "[1.5,", ",2]"},
	{"e", "Float", "", ""},
	{"o", "Float", "{g:2.5,f:", "}"},
	{"x", "Float", "{g:", "}"},
}

// Run_C29_arg: a float written in a document or a variable reaches the method unchanged.
func Run_C29_arg(st *flState) {
	d := flDest[sym.Choose(len(flDest))]
	neg := sym.Choose(2) == 1
	ni, nf, max := sym.Choose(6), sym.Choose(6), 3
	if sym.Tier() > 0 {
		ni, max = sym.Choose(9), 4
	}
	t := ""
	if neg {
		t = "-"
	}
	if ni == 0 {
		t += "0"
	} else {
		t += sym.StrOf(1, "123456789") + sym.StrOf(ni-1, "0123456789")
	}
	if nf > 0 {
		t += "." + sym.StrOf(nf, "0123456789")
	}
	way := sym.Choose(max)
	if nf == 0 && ni > 4 && sym.Tier() == 0 {
		return
	}
	small := d.name == "c" || d.name == "x"
	if small && ni+nf > 6 {
		return
	}
	if way == 0 || way == 3 {
		switch sym.Choose(5) {
		case 0:
			t += "e" + sym.StrOf(1, "0123")
		case 1:
			t += "E-" + sym.StrOf(1, "123")
		case 2:
			t += "e+" + sym.StrOf(1, "0567")
		}
	}
	flGot, flCalls = FlArgs{}, 0
	q, vars := "", ""
	switch way {
	case 0:
		q = "{take(" + d.name + ":" + d.pre + t + d.post + " z:\"end\")z}"
	case 1:
		q = "query($v:Float){take(" + d.name + ":" + d.pre + "$v" + d.post + " z:\"end\")z}"
		vars = "{\"v\":" + t + "}"
	default:
		q = "query($v:Float=" + t + "){take(" + d.name + ":" + d.pre + "$v" + d.post + " z:\"end\")z}"
	}
	r := execVars(st.s, q, vars)
	assertc(!r.failed(), "a float argument was refused")
	assertc(flCalls == 1 && flGot.Z == "end" && r.data.get("z").isStr("end"), "the argument after the float is wrong")
	want, err := strconv.ParseFloat(t, 64)
	assertc(err == nil, "harness: number")
	var got float64
	switch d.name {
	case "a":
		got = flGot.A
	case "b":
		assertc(flGot.B != nil, "the float did not arrive")
		got = *flGot.B
	case "c":
		assertc(flGot.C == float32(want), "the method received another float32")
		sym.Cover("c")
		return
	case "d":
		assertc(len(flGot.D) == 3 && flGot.D[0] == 1.5 && flGot.D[2] == 2, "the list is wrong")
		got = flGot.D[1]
	case "e":
		got = float64(flGot.E)
	case "o":
		assertc(flGot.O.G != nil && *flGot.O.G == 2.5, "the member before the float is wrong")
		got = flGot.O.F
	case "x":
		assertc(flGot.X != nil && flGot.X.G != nil && *flGot.X.G == float32(want), "the method received another float32")
		sym.Cover("x")
		return
	}
	assertc(got == want, "the method received another float64")
	sym.Cover(d.name)
}

// Run_C29_range: a float the destination cannot hold is refused, one it can hold is not.
func Run_C29_range(st *flState) {
	d := flDest[sym.Choose(len(flDest))]
	w := 64
	if d.name == "c" || d.name == "x" {
		w = 32
	}
	exps := []string{"e36", "e37", "e38", "e39", "E+40", "e306", "e307", "e308", "e309", "e999", "e-44", "e-46", "e-323", "e-324", "e-999"}
	t := ""
	if sym.Choose(2) == 1 {
		t = "-"
	}
	t += []string{"1", "2", "3", "4", "9"}[sym.Choose(5)] + []string{"", ".4", ".40282351", ".402823567", ".40282357", ".7976931348623157", ".7976931348623159"}[sym.Choose(7)] + exps[sym.Choose(len(exps))]
	way := sym.Choose(3)
	flGot, flCalls = FlArgs{}, 0
	q, vars := "", ""
	switch way {
	case 0:
		q = "{take(" + d.name + ":" + d.pre + t + d.post + " z:\"end\")z}"
	case 1:
		q = "query($v:Float){take(" + d.name + ":" + d.pre + "$v" + d.post + " z:\"end\")z}"
		vars = "{\"v\":" + t + "}"
	default:
		q = "query($v:Float=" + t + "){take(" + d.name + ":" + d.pre + "$v" + d.post + " z:\"end\")z}"
	}
	r := execVars(st.s, q, vars)
	want, err := strconv.ParseFloat(t, w)
	if err != nil {
		assertc(r.failed() && flCalls == 0, "a float that is out of range was accepted")
		sym.Cover("refused")
		return
	}
	assertc(!r.failed() && flCalls == 1, "a float that fits was refused")
	var got float64
	switch d.name {
	case "a":
		got = flGot.A
	case "b":
		got = *flGot.B
	case "c":
		got = float64(flGot.C)
	case "d":
		got = flGot.D[1]
	case "e":
		got = float64(flGot.E)
	case "o":
		got = flGot.O.F
	case "x":
		got = float64(*flGot.X.G)
	}
	// the JSON library scales by the exponent afterwards: the last digit may differ
	diff := math.Abs(got - want)
	assertc(diff <= math.Abs(want)*1e-6 || diff < 1e-44, "the method received another float")
	sym.Cover("accepted")
}

// Run_C29_echo: what was written comes back.
func Run_C29_echo(st *flState) {
	ni, nf := 1+sym.Choose(7), sym.Choose(7)
	t := sym.StrOf(ni, "0123456789")
	if ni > 1 {
		sym.Assume(t[0] != '0')
	}
	if nf == 0 && ni > 3 {
		return
	}
	if nf > 0 {
		t += "." + sym.StrOf(nf, "0123456789")
	}
	var r *resp
	if sym.Choose(2) == 0 {
		r = exec(st.s, "{echo(f:"+t+")z}")
	} else {
		r = execVars(st.s, "query($f:Float){echo(f:$f)z}", "{\"f\":"+t+"}")
	}
	assertc(!r.failed(), "a float was refused")
	want, _ := strconv.ParseFloat(t, 64)
	x := r.data.get("echo")
	assertc(x != nil && x.k == '0', "a float was not answered")
	got, err := strconv.ParseFloat(x.s, 64)
	assertc(err == nil && got == want, "another float came back")
	sym.Cover("echo")
}

// Run_C29_int: a whole number written without a point reaches a float argument unchanged.
//
// Bounds: whole numbers of up to 16 digits (up to 2^53) around the powers of two that smaller types end at, one digit of which is arbitrary, as a literal, a variable and a default, at every destination of C29_arg.
func Run_C29_int(st *flState) {
	d := flDest[sym.Choose(len(flDest))]
	tpl := []string{"?", "3276?", "1677721?", "?6777217", "214748364?", "429496729?", "2?47483649", "1000?00001", "90071992547409?1"}
	t := ""
	if sym.Choose(2) == 1 {
		t = "-"
	}
	way := sym.Choose(3)
	if way == 1 {
		// not more than 15 digits, the JSON library has another way for those
		tpl = tpl[:len(tpl)-1]
	}
	small := d.name == "c" || d.name == "x"
	if small {
		tpl = tpl[:2]
	}
	for i, c := range []byte(tpl[sym.Choose(len(tpl))]) {
		switch {
		case c != '?':
			t += string(c)
		case i == 0:
			t += sym.StrOf(1, "12345678")
		default:
			t += sym.StrOf(1, "012345678")
		}
	}
	flGot, flCalls = FlArgs{}, 0
	q, vars := "", ""
	switch way {
	case 0:
		q = "{take(" + d.name + ":" + d.pre + t + d.post + " z:\"end\")z}"
	case 1:
		q = "query($v:Float){take(" + d.name + ":" + d.pre + "$v" + d.post + " z:\"end\")z}"
		vars = "{\"v\":" + t + "}"
	default:
		q = "query($v:Float=" + t + "){take(" + d.name + ":" + d.pre + "$v" + d.post + " z:\"end\")z}"
	}
	r := execVars(st.s, q, vars)
	assertc(!r.failed(), "a whole number was refused for a float argument")
	assertc(flCalls == 1 && flGot.Z == "end" && r.data.get("z").isStr("end"), "the argument after the number is wrong")
	var want float64
	if vars == "" {
		n, err := strconv.ParseInt(t, 10, 64)
		assertc(err == nil, "harness: number")
		want = float64(n)
	} else {
		want, _ = strconv.ParseFloat(t, 64)
	}
	ok := false
	switch d.name {
	case "a":
		ok = flGot.A == want
	case "b":
		ok = flGot.B != nil && *flGot.B == want
	case "c":
		ok = flGot.C == float32(want)
	case "d":
		ok = len(flGot.D) == 3 && flGot.D[0] == 1.5 && flGot.D[1] == want && flGot.D[2] == 2
	case "e":
		ok = float64(flGot.E) == want
	case "o":
		ok = flGot.O.G != nil && *flGot.O.G == 2.5 && flGot.O.F == want
	case "x":
		ok = flGot.X != nil && flGot.X.G != nil && *flGot.X.G == float32(want)
	}
	assertc(ok, "the method received another number")
	sym.Cover(d.name)
}
