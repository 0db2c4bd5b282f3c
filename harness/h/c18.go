package h

import (
	"strconv"
	"time"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// numIs tells whether the text is exactly the integer, without anything else around it.
func numIs(t string, neg bool, mag uint64) bool {
	i := 0
	if neg {
		if len(t) == 0 || t[0] != '-' {
			return false
		}
		i = 1
	}
	if i >= len(t) || (t[i] == '0' && len(t) > i+1) {
		return false
	}
	var m uint64
	for ; i < len(t); i++ {
		c := t[i]
		if c < '0' || c > '9' {
			return false
		}
		m = m*10 + uint64(c-'0')
	}
	return m == mag
}

func signed(v int64) (bool, uint64) {
	if v < 0 {
		return true, uint64(-v)
	}
	return false, uint64(v)
}

type outCase struct {
	sel    string
	quoted bool
	width  int
}

// near is a symbolic integer close to one of the interesting values of a width.
func near(bits uint, unsigned bool) int64 {
	lim := int64(1) << (bits - 1)
	base := []int64{0, lim - 1, -lim}
	if unsigned {
		base = []int64{0, lim, 2*lim - 1}
		if bits == 64 {
			base = []int64{0, lim, -1}
		}
	}
	return base[sym.Choose(3)]
}

// Run_C18_small: every value of the 8 bit types, everywhere.
func Run_C18_small(st *outState) {
	v := sym.Int8()
	outI8, outU8 = v, uint8(v)
	neg, mag := signed(int64(v))
	switch sym.Choose(4) {
	case 0:
		r := exec(st.s, "{o{i8 a:i8}a}")
		x := r.data.get("o").get("i8")
		sym.Assert(x != nil && x.k == '0' && numIs(x.s, neg, mag), "an integer is not written exactly")
	case 1:
		r := exec(st.s, "{o{u8}a}")
		x := r.data.get("o").get("u8")
		sym.Assert(x != nil && x.k == '0' && numIs(x.s, false, uint64(outU8)), "an integer is not written exactly")
	case 2:
		r := exec(st.s, "{o{d8}a}")
		x := r.data.get("o").get("d8")
		sym.Assert(x != nil && x.k == 's' && numIs(x.s, neg, mag), "an id is not written exactly")
	default:
		r := exec(st.s, "{o{dp}a}")
		x := r.data.get("o").get("dp")
		sym.Assert(x != nil && x.k == 's' && numIs(x.s, false, uint64(outU8)), "an id is not written exactly")
	}
	sym.Cover("exact")
}

// Run_C18_wide: the 16 bit types completely, the wider ones in windows around zero and their limits.
func Run_C18_wide(st *outState) {
	const window = 40
	d := int64(sym.Byte())
	if sym.Tier() == 0 {
		sym.Assume(d < window)
	}
	type wcase struct {
		sel    string
		bits   uint
		signed bool
		quoted bool
	}
	cs := []wcase{{"o{i16}", 16, true, false}, {"o{u16}", 16, false, false}, {"o{i32}", 32, true, false}, {"o{u32}", 32, false, false}, {"o{i64}", 64, true, false}, {"o{u64}", 64, false, false},
		{"o{i}", 64, true, false}, {"o{u}", 64, false, false}, {"o{d16}", 16, false, true}, {"o{d32}", 32, true, true}, {"o{d64}", 64, false, true}, {"o{d}", 64, true, true}, {"nid", 16, false, true}, {"nidp", 64, true, true}}
	c := cs[sym.Choose(len(cs))]
	// windows above and below the interesting values, wrapping around
	v := near(c.bits, !c.signed)
	if sym.Bool() {
		v += d
	} else {
		v -= d
	}
	outI16, outI32, outI64, outI = int16(v), int32(v), v, int(v)
	outU16, outU32, outU64, outU = uint16(v), uint32(v), uint64(v), uint(v)
	var neg bool
	var mag uint64
	switch c.bits {
	case 16:
		neg, mag = signed(int64(outI16))
		if !c.signed {
			neg, mag = false, uint64(outU16)
		}
	case 32:
		neg, mag = signed(int64(outI32))
		if !c.signed {
			neg, mag = false, uint64(outU32)
		}
	default:
		neg, mag = signed(outI64)
		if !c.signed {
			neg, mag = false, outU64
		}
	}
	r := exec(st.s, "{"+c.sel+"a}")
	if c.sel[0] == 'n' {
		r = exec(st.s, "{"+c.sel+" a}")
	}
	x := r.data.vals[0]
	if x.k == 'o' {
		x = x.vals[0]
	}
	k := byte('0')
	if c.quoted {
		k = 's'
	}
	sym.Assert(!r.failed() && x.k == k, "an integer is written as something else")
	sym.Assert(numIs(x.s, neg, mag), "an integer is not written exactly")
	sym.Assert(r.data.get("a").isStr("end"), "the field behind is affected")
	sym.Cover("exact")
}

// Run_C18_lists: integers, booleans and enums in lists and behind pointers.
func Run_C18_lists(st *outState) {
	outI16 = int16(sym.Int8())
	outB = sym.Bool()
	outE = OutEnum(sym.Range(0, 6))
	neg, mag := signed(int64(outI16))
	ew := map[OutEnum]string{1: "ONE", 2: "TWO", 4: "on_e"}
	r := exec(st.s, "{o{il ip ll b bp e el ep}a}")
	o := r.data.get("o")
	il, ll := o.get("il"), o.get("ll")
	sym.Assert(!r.failed() && len(il.vals) == 3 && il.at(0).isNum("1") && il.at(2).isNum("-2") && numIs(il.at(1).s, neg, mag), "list of integers")
	sym.Assert(numIs(o.get("ip").s, neg, mag) && len(ll.vals) == 2 && ll.at(0).at(0).isNull() && numIs(ll.at(0).at(1).s, neg, mag) && len(ll.at(1).vals) == 0, "pointers to integers")
	bk := byte('f')
	if outB {
		bk = 't'
	}
	sym.Assert(o.get("b").k == bk && o.get("bp").k == bk, "boolean")
	name, ok := ew[outE]
	if ok {
		sym.Assert(o.get("e").isStr(name) && o.get("ep").isStr(name) && o.get("el").at(0).isStr(name), "enum value under another name")
		sym.Cover("named")
	} else {
		sym.Assert(o.get("e").isNull() && o.get("ep").isNull() && o.get("el").at(0).isNull(), "an unknown enum value got a name")
		sym.Cover("unnamed")
	}
	sym.Assert(len(o.get("el").vals) == 2 && o.get("el").at(1).isStr("TWO"), "enum list")
}

// Run_C18_enum: names of enum values, in and out.
func Run_C18_enum(st *outState) {
	name := symName(1 + sym.Choose(4))
	outGotE, outN, outG = nil, "none", 0
	want := OutEnum(0)
	switch name {
	case "ONE":
		want = 1
	case "TWO":
		want = 2
	case "BIG":
		want = 60000
	case "on_e":
		want = 4
	}
	if name == "null" || name == "true" || name == "fals" {
		return
	}
	switch sym.Choose(5) {
	case 0:
		r := exec(st.s, "{echo(e:"+name+")a}")
		sym.Assert(r.failed() == (want == 0), "enum name")
		if want != 0 {
			sym.Assert(len(outGotE) == 1 && outGotE[0] == want && r.data.get("echo").isStr(name), "an enum value changed on its way")
			sym.Cover("known")
		}
	case 1:
		r := execVars(st.s, "query($e:OutEnum){echo(e:$e)a}", "{\"e\":\""+name+"\"}")
		sym.Assert(r.failed() == (want == 0), "enum name")
		if want != 0 {
			sym.Assert(len(outGotE) == 1 && outGotE[0] == want && r.data.get("echo").isStr(name), "an enum value changed on its way")
			sym.Cover("known")
		}
	case 2:
		r := exec(st.s, "{echoL(e:[TWO "+name+" ONE])a}")
		sym.Assert(r.failed() == (want == 0), "enum name")
		if want != 0 {
			l := r.data.get("echoL")
			sym.Assert(len(outGotE) == 3 && outGotE[1] == want && l.at(0).isStr("TWO") && l.at(1).isStr(name) && l.at(2).isStr("ONE"), "an enum value changed on its way")
		}
	case 3:
		r := exec(st.s, "{echoN(n:"+name+")a}")
		w, ok := OutName(""), true
		switch name {
		case "A":
			w = "a"
		case "AB":
			w = "b"
		case "B":
			w = ""
		case "C":
			w = "A"
		default:
			ok = false
		}
		sym.Assert(r.failed() == !ok, "enum name")
		if ok {
			sym.Assert(outN == w && r.data.get("echoN").isStr(name), "an enum value changed on its way")
		}
	default:
		r := exec(st.s, "{echoG(g:"+name+")a}")
		w := OutNeg(0)
		switch name {
		case "NEG":
			w = -5
		case "POS":
			w = 5
		case "MIN":
			w = -128
		}
		sym.Assert(r.failed() == (w == 0), "enum name")
		if w != 0 {
			sym.Assert(outG == w && r.data.get("echoG").isStr(name), "an enum value changed on its way")
		}
	}
}

// Enums of every width. The names stand for values that share their low or high bits.

type EnI8 int8
type EnI16 int16
type EnI32 int32
type EnI64 int64
type EnI int
type EnU8 uint8
type EnU16 uint16
type EnU32 uint32
type EnU64 uint64
type EnU uint
type EnS string

var enNow int64
var enText string
var enSeen [3]int64
var enSeenText string

type enAll struct {
	A EnI8
	B EnI16
	C EnI32
	D EnI64
	E EnI
	F EnU8
	G EnU16
	H EnU32
	I EnU64
	J EnU
	K EnS
}

type EnQ struct{}

func (EnQ) ResolveOut() enAll {
	v := enNow
	return enAll{EnI8(v), EnI16(v), EnI32(v), EnI64(v), EnI(v), EnU8(v), EnU16(v), EnU32(v), EnU64(v), EnU(v), EnS(enText)}
}

func (EnQ) ResolveIn(a enAll) string {
	enSeenText = string(a.K)
	for i, v := range []int64{int64(a.A), int64(a.B), int64(a.C), int64(a.D), int64(a.E), int64(a.F), int64(a.G), int64(a.H), int64(a.I), int64(a.J)} {
		if i == enField {
			enSeen[0] = v
		} else {
			enSeen[1] |= v
		}
	}
	return "in"
}

var enField int

// enValues are the values of the names L, M, H, T, Z in each type before conversion to it.
var enNames = []string{"L", "M", "H", "T", "Z"}

func enValue(name, bits int, signed bool) int64 {
	var v int64
	switch name {
	case 0:
		v = 5
	case 1:
		v = 5 | 1<<uint(bits-1)
	case 2:
		v = 5 | 1<<uint(bits/2)
	case 3:
		v = -1
	}
	if bits == 64 {
		return v
	}
	v &= 1<<uint(bits) - 1
	if signed && v>>uint(bits-1) != 0 {
		v -= 1 << uint(bits)
	}
	return v
}

type enState struct{ s *yarql.Schema }

func Setup_enums() *enState {
	s := yarql.NewSchema()
	e := [][5]int64{}
	for _, b := range []int{8, 16, 32, 64, 64} {
		for _, sg := range []bool{true, false} {
			var r [5]int64
			for k := range r {
				r[k] = enValue(k, b, sg)
			}
			e = append(e, r)
		}
	}
	m := []interface{}{map[string]EnI8{}, map[string]EnU8{}, map[string]EnI16{}, map[string]EnU16{}, map[string]EnI32{}, map[string]EnU32{}, map[string]EnI64{}, map[string]EnU64{}, map[string]EnI{}, map[string]EnU{},
		map[string]EnS{"L": "", "M": "a", "H": "ab", "T": "A", "Z": "b"}}
	for k, n := range enNames {
		m[0].(map[string]EnI8)[n] = EnI8(e[0][k])
		m[1].(map[string]EnU8)[n] = EnU8(e[1][k])
		m[2].(map[string]EnI16)[n] = EnI16(e[2][k])
		m[3].(map[string]EnU16)[n] = EnU16(e[3][k])
		m[4].(map[string]EnI32)[n] = EnI32(e[4][k])
		m[5].(map[string]EnU32)[n] = EnU32(e[5][k])
		m[6].(map[string]EnI64)[n] = EnI64(e[6][k])
		m[7].(map[string]EnU64)[n] = EnU64(e[7][k])
		m[8].(map[string]EnI)[n] = EnI(e[8][k])
		m[9].(map[string]EnU)[n] = EnU(e[9][k])
	}
	for _, x := range m {
		if _, err := s.RegisterEnum(x); err != nil {
			panic(err.Error())
		}
	}
	return &enState{parse(s, EnQ{}, NoM{})}
}

// Run_C18_enumout: any value of any enum type is written as the name of exactly that value, or as null. Bounds: all values of the type (64 bits free, 0..2 free bytes for the text enum).
func Run_C18_enumout(st *enState) {
	f := sym.Choose(11)
	enNow, enText = 0, ""
	want := ""
	if f == 10 {
		enText = sym.UpTo(0, 2)
		for k, t := range []string{"", "a", "ab", "A", "b"} {
			if enText == t {
				want = enNames[k]
			}
		}
	} else {
		bits := []int{8, 16, 32, 64, 64}[f%5]
		enNow = sym.Int64()
		v := enNow
		if bits < 64 {
			v &= 1<<uint(bits) - 1
			if f < 5 && v>>uint(bits-1) != 0 {
				v -= 1 << uint(bits)
			}
		}
		for k := range enNames {
			if v == enValue(k, bits, f < 5) {
				want = enNames[k]
			}
		}
	}
	name := string([]byte{byte('a' + f)})
	r := exec(st.s, "{out{"+name+"}in}")
	x := r.data.get("out").get(name)
	sym.Assert(!r.failed() && r.data.get("in").isStr("in"), "an enum value breaks the request")
	if want == "" {
		sym.Assert(x.isNull(), "an unknown enum value got a name")
		sym.Cover("unnamed")
	} else {
		sym.Assert(x.isStr(want), "enum value under another name")
		sym.Cover("named")
	}
}

// Run_C18_enumin: every name of every enum type reaches the resolver as the value registered for it, and nothing else is set; other names are refused. Bounds: names of 1 (thorough 1..2) free bytes, by literal, variable and default.
func Run_C18_enumin(st *enState) {
	f := sym.Choose(11)
	enField = f
	n := symName(1 + sym.Choose(1+sym.Tier()))
	name := string([]byte{byte('a' + f)})
	typ := []string{"EnI8", "EnI16", "EnI32", "EnI64", "EnI", "EnU8", "EnU16", "EnU32", "EnU64", "EnU", "EnS"}[f]
	enSeen, enSeenText = [3]int64{}, "none"
	var r *resp
	switch sym.Choose(3) {
	case 0:
		r = exec(st.s, "{in("+name+":"+n+")}")
	case 1:
		r = execVars(st.s, "query($v:"+typ+"){in("+name+":$v)}", "{\"v\":\""+n+"\"}")
	default:
		r = exec(st.s, "query($v:"+typ+"="+n+"){in("+name+":$v)}")
	}
	k := -1
	for i, x := range enNames {
		if n == x {
			k = i
		}
	}
	sym.Assert(r.failed() == (k < 0), "enum name")
	if k < 0 {
		sym.Assert(enSeenText == "none", "a resolver ran with an unknown enum name")
		sym.Cover("unknown")
		return
	}
	if f == 10 {
		sym.Assert(enSeenText == []string{"", "a", "ab", "A", "b"}[k] && enSeen[1] == 0, "an enum value changed on its way")
	} else {
		sym.Assert(enSeen[0] == enValue(k, []int{8, 16, 32, 64, 64}[f%5], f < 5) && enSeen[1] == 0 && enSeenText == "", "an enum value changed on its way")
	}
	sym.Cover("known")
}

type duSub struct {
	D time.Duration
	W *time.Weekday
}

type DuQ struct {
	D  time.Duration
	M  *time.Month
	W  []time.Weekday
	In func(struct {
		D time.Duration
		M *time.Month
		W []time.Weekday
		S duSub
	}) []int64
}

// Run_C18_named: the named integers of package time are integers like any other, and no times. Bounds: any value that a field can hold within 2 digits of 0 and of the limits of 8 and 64 bits, out and in, by literal and variable.
func Run_C18_named() {
	v := []int64{0, 127, -9223372036854775000, 9223372036854775000}[sym.Choose(4)] + int64(sym.Conc(sym.Range(0, 20)))*7
	m, w := time.Month(v), time.Weekday(v)
	q := DuQ{D: time.Duration(v), M: &m, W: []time.Weekday{w, 0, w}}
	q.In = func(a struct {
		D time.Duration
		M *time.Month
		W []time.Weekday
		S duSub
	}) []int64 {
		return []int64{int64(a.D), int64(*a.M), int64(a.W[1]), int64(a.S.D), int64(*a.S.W)}
	}
	s := yarql.NewSchema()
	sym.Assert(s.Parse(q, NoM{}, nil) == nil, "a schema with named integers is refused")
	t := strconv.FormatInt(v, 10)
	r := exec(s, "{d m w}")
	sym.Assert(!r.failed() && r.data.String() == "{\"d\":"+t+",\"m\":"+t+",\"w\":["+t+",0,"+t+"]}", "a named integer is written as something else")
	if sym.Bool() {
		r = exec(s, "{in(d:"+t+" m:"+t+" w:[1,"+t+"] s:{d:"+t+" w:"+t+"})}")
	} else {
		r = execVars(s, "query($a:Int,$b:[Int],$c:duSub){in(d:$a m:$a w:$b s:$c)}", "{\"a\":"+t+",\"b\":[1,"+t+"],\"c\":{\"d\":"+t+",\"w\":"+t+"}}")
	}
	sym.Assert(!r.failed() && r.data.String() == "{\"in\":["+t+","+t+","+t+","+t+","+t+"]}", "a named integer reaches the resolver as something else")
	sym.Assert(exec(s, "{in(d:\"2021-01-01T00:00:00.000Z\")}").failed(), "a named integer takes a time")
	sym.Cover("exact")
}
