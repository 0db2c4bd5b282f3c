package h

import "yarqlverif/harness/sym"

// numText is a decimal integer read exactly: sign, magnitude, and whether the magnitude exceeds 64 bits.
func numText(s string) (neg bool, mag uint64, big bool) {
	i := 0
	if i < len(s) && s[i] == '-' {
		neg = true
		i++
	}
	for ; i < len(s); i++ {
		d := uint64(s[i] - '0')
		if mag > 1844674407370955161 || (mag == 1844674407370955161 && d > 5) {
			big = true
		}
		mag = mag*10 + d
	}
	if mag == 0 {
		neg = false
	}
	return
}

type intField struct {
	name, typ string
	bits      uint
	signed    bool
}

var intFields = []intField{
	{"i8", "Int", 8, true}, {"u8", "Int", 8, false}, {"i16", "Int", 16, true}, {"u16", "Int", 16, false},
	{"i32", "Int", 32, true}, {"u32", "Int", 32, false}, {"i64", "Int", 64, true}, {"u64", "Int", 64, false},
	{"i", "Int", 64, true}, {"u", "Int", 64, false}, {"ip", "Int", 64, true},
	{"d8", "ID", 8, true}, {"e8", "ID", 8, false}, {"d16", "ID", 16, true}, {"e16", "ID", 16, false},
	{"d32", "ID", 32, true}, {"e32", "ID", 32, false}, {"d64", "ID", 64, true}, {"e64", "ID", 64, false}, {"dp", "ID", 64, false},
}

// intGot is the received value as sign and magnitude.
func intGot(k int) (neg bool, mag uint64) {
	g := &argGot
	var s int64
	switch k {
	case 0:
		s = int64(g.I8)
	case 1:
		return false, uint64(g.U8)
	case 2:
		s = int64(g.I16)
	case 3:
		return false, uint64(g.U16)
	case 4:
		s = int64(g.I32)
	case 5:
		return false, uint64(g.U32)
	case 6:
		s = g.I64
	case 7:
		return false, g.U64
	case 8:
		s = int64(g.I)
	case 9:
		return false, uint64(g.U)
	case 10:
		assertc(g.IP != nil, "the argument is missing")
		s = int64(*g.IP)
	case 11:
		s = int64(g.D8)
	case 12:
		return false, uint64(g.E8)
	case 13:
		s = int64(g.D16)
	case 14:
		return false, uint64(g.E16)
	case 15:
		s = int64(g.D32)
	case 16:
		return false, uint64(g.E32)
	case 17:
		s = g.D64
	case 18:
		return false, g.E64
	default:
		assertc(g.DP != nil, "the argument is missing")
		return false, uint64(*g.DP)
	}
	if s < 0 {
		return true, uint64(-s)
	}
	return false, uint64(s)
}

func intFits(f intField, neg bool, mag uint64, big bool) bool {
	if big {
		return false
	}
	if f.signed {
		lim := uint64(1) << (f.bits - 1)
		if neg {
			return mag <= lim
		}
		return mag < lim
	}
	return !neg && (f.bits == 64 || mag < uint64(1)<<f.bits)
}

// intSpell is a symbolic integer spelling around the interesting boundaries of the width.
func intSpell(bits uint) string {
	sign := ""
	if sym.Bool() {
		sign = "-"
	}
	const d = "0123456789"
	switch sym.Choose(3) {
	case 0:
		return sign + sym.StrOf(1+sym.Choose(3+sym.Tier()), d)
	case 1:
		switch bits {
		case 8:
			return sign + sym.StrOf(1, "123") + sym.StrOf(2, d)
		case 16:
			return sign + sym.StrOf(1, "36") + sym.StrOf(4, d)
		case 32:
			return sign + sym.StrOf(1, "24") + sym.StrOf(1, "12") + "94967" + sym.StrOf(2+sym.Tier(), d) + "0"
		}
		if sym.Tier() == 0 {
			return sign + "92233720368547758" + sym.StrOf(2, d)
		}
		return sign + "9223372036854775" + sym.StrOf(3, d)
	}
	switch bits {
	case 8:
		return sign + "0" + sym.StrOf(3, d)
	case 16:
		return sign + "6" + sym.StrOf(4+sym.Tier(), d)
	case 32:
		return sign + "2147483" + sym.StrOf(3, d)
	}
	if sym.Tier() == 0 {
		return sign + "184467440737095516" + sym.StrOf(2, d)
	}
	return sign + "18446744073709551" + sym.StrOf(3, d)
}

// intRequest delivers the spelling in one of several ways.
func intRequest(st *argState, f intField, spell string, way int) bool {
	lit := spell
	if f.typ == "ID" && way != 4 {
		lit = "\"" + spell + "\""
	}
	switch way {
	case 0, 4:
		return st.call("z:\"b\"," + f.name + ":" + lit + ",s:\"end\"")
	case 1:
		return st.callOp("query($v:"+f.typ+"){m("+f.name+":$v,s:\"end\")a}", "{\"v\":"+lit+"}")
	case 2:
		return st.callOp("query($v:"+f.typ+"="+lit+"){m("+f.name+":$v,s:\"end\")a}", "")
	}
	return st.callOp("query($q:Int=7,$v:String){m("+f.name+":$v,s:\"end\")a}", "{\"q\":1,\"v\":"+lit+"}")
}

// Run_C05_scalar: integers of every width by literal, variable and default.
func Run_C05_scalar(st *argState) {
	k := sym.Choose(len(intFields))
	f := intFields[k]
	ways := 3
	if f.typ == "ID" {
		ways = 5
	}
	way := sym.Choose(ways)
	spell := intSpell(f.bits)
	ok := intRequest(st, f, spell, way)
	neg, mag, big := numText(spell)
	if !ok {
		sym.Assert(argCalls == 0, "the resolver ran although the request failed")
		if !intFits(f, neg, mag, big) {
			sym.Cover("rejected")
			return
		}
		// JSON has no leading zeros
		lead := spell[0] == '0' || (spell[0] == '-' && spell[1] == '0')
		if way == 1 && f.typ == "Int" && lead {
			return
		}
		if lead && way != 0 {
			return
		}
		if way == 4 {
			return // an ID by integer literal may be refused
		}
		sym.Assert(neg && mag == 0 || lead, "an integer that fits was rejected")
		return
	}
	gneg, gmag := intGot(k)
	sym.Assert(!big && gneg == neg && gmag == mag, "the resolver got a different integer")
	sym.Assert(argGot.S == "end", "the argument after the integer is wrong")
	sym.Cover("exact")
}

// Run_C05_list: integers inside lists and objects.
func Run_C05_list(st *argState) {
	names := []string{"i8l", "u8l", "u16l", "u32l"}
	k := sym.Choose(len(names))
	f := []intField{{"", "Int", 8, true}, {"", "Int", 8, false}, {"", "Int", 16, false}, {"", "Int", 32, false}}[k]
	spell := intSpell(f.bits)
	var ok bool
	way := sym.Choose(3)
	switch way {
	case 0:
		ok = st.call(names[k] + ":[1," + spell + ",2],s:\"end\"")
	case 1:
		ok = st.callOp("query($v:[Int]){m("+names[k]+":$v,s:\"end\")a}", "{\"v\":[1,"+spell+",2]}")
	default:
		ok = st.callOp("query($v:Int){m("+names[k]+":[1,$v,2],s:\"end\")a}", "{\"v\":"+spell+"}")
	}
	neg, mag, big := numText(spell)
	if !ok {
		sym.Assert(argCalls == 0, "the resolver ran although the request failed")
		if intFits(f, neg, mag, big) {
			sym.Assert(way != 0 && (spell[0] == '0' || (spell[0] == '-' && spell[1] == '0')) || (neg == false && spell[0] == '-'), "an integer that fits was rejected")
		} else {
			sym.Cover("rejected")
		}
		return
	}
	var got []int64
	switch k {
	case 0:
		for _, x := range argGot.I8L {
			got = append(got, int64(x))
		}
	case 1:
		for _, x := range argGot.U8L {
			got = append(got, int64(x))
		}
	case 2:
		for _, x := range argGot.U16L {
			got = append(got, int64(x))
		}
	default:
		for _, x := range argGot.U32L {
			got = append(got, int64(x))
		}
	}
	sym.Assert(len(got) == 3 && got[0] == 1 && got[2] == 2, "the list has a different shape")
	want := int64(mag)
	if neg {
		want = -want
	}
	sym.Assert(!big && got[1] == want, "the resolver got a different integer")
	sym.Assert(argGot.S == "end", "the argument after the list is wrong")
	sym.Cover("exact")
}

// Run_C05_odd: spellings that are no plain integers never become another value.
func Run_C05_odd(st *argState) {
	f := intFields[sym.Choose(11)]
	spell := sym.StrOf(1+sym.Choose(3), "0123456789-+._eExX\"")
	ok := st.call(f.name + ":" + spell + " z:\"end\"")
	if !ok {
		sym.Cover("rejected")
		return
	}
	// accepted: the digits, apart from a sign and underscores, are the value
	t := ""
	for i := 0; i < len(spell); i++ {
		switch c := spell[i]; {
		case c >= '0' && c <= '9':
			t += string([]byte{c})
		case (c == '-' || c == '+') && i == 0:
			if c == '-' {
				t += "-"
			}
		case c == '_':
		default:
			sym.Assert(false, "a malformed integer was accepted")
		}
	}
	neg, mag, _ := numText(t)
	for k := range intFields {
		if intFields[k].name == f.name {
			gneg, gmag := intGot(k)
			sym.Assert(gneg == neg && gmag == mag, "the resolver got a different integer")
		}
	}
	sym.Assert(argGot.Z == "end", "the argument after the integer is wrong")
	sym.Cover("exact")
}

// Run_C05_bool: booleans, and values of other kinds where a boolean or an integer is expected.
func Run_C05_bool(st *argState) {
	word := []string{"true", "false"}[sym.Choose(2)]
	want := word == "true"
	switch sym.Choose(8) {
	case 0:
		sym.Assert(st.call("b:"+word+",z:\"end\"") && argGot.B == want, "boolean literal")
	case 1:
		sym.Assert(st.call("bp:"+word+",z:\"end\"") && argGot.BP != nil && *argGot.BP == want, "boolean pointer")
	case 2:
		sym.Assert(st.call("bl:[true,"+word+",false],z:\"end\"") && len(argGot.BL) == 3 && argGot.BL[0] && argGot.BL[1] == want && !argGot.BL[2], "boolean list")
	case 3:
		sym.Assert(st.call("o:{n:3 b:"+word+"},z:\"end\"") && argGot.O.B == want && argGot.O.N == 3, "boolean member")
	case 4:
		sym.Assert(st.callOp("query($v:Boolean){m(b:$v,z:\"end\")a}", "{\"v\":"+word+"}") && argGot.B == want, "boolean variable")
	case 5:
		sym.Assert(st.callOp("query($v:Boolean="+word+"){m(b:$v,z:\"end\")a}", "") && argGot.B == want, "boolean default")
	case 6:
		sym.Assert(st.callOp("query($v:Boolean=true){m(b:$v,z:\"end\")a}", "{\"v\":"+word+"}") && argGot.B == want, "boolean variable over default")
	default:
		// a near miss of the word is no boolean
		b := []byte(word)
		i := sym.Choose(len(b))
		c := sym.Byte()
		sym.Assume(c != b[i] && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'))
		b[i] = c
		sym.Assert(!st.call("b:"+string(b)+",z:\"end\""), "a word other than true and false was accepted")
		sym.Cover("rejected")
		return
	}
	sym.Assert(argGot.Z == "end", "the argument after the boolean is wrong")
	sym.Cover("exact")
}

var kindToken = []string{"1", "-1", "1.5", "\"a\"", "\"1\"", "true", "RED", "ONE", "[1]", "[]", "{}", "{s:\"a\"}", "\"\"\"a\"\"\""}
var kindJSON = []string{"1", "-1", "1.5", "\"a\"", "\"1\"", "true", "\"RED\"", "\"ONE\"", "[1]", "[]", "{}", "{\"s\":\"a\"}", "\"a\""}

// kindOK tells for every destination which tokens fit.
var kindDest = []struct {
	name, typ string
	ok        []int // must be accepted
	may       []int // may be accepted
}{
	{"i", "Int", []int{0, 1}, nil},
	{"u16", "Int", []int{0}, nil},
	{"b", "Boolean", []int{5}, []int{0, 1}},
	{"s", "String", []int{3, 4, 12}, nil},
	{"p", "String", []int{3, 4, 12}, nil},
	{"d", "ID", []int{3, 4, 12}, []int{0, 1}},
	{"e16", "ID", []int{4}, []int{0}},
	{"c", "ArgColor", []int{6}, nil},
	{"n", "ArgName", []int{7}, nil},
	{"f", "Float", []int{0, 1, 2}, nil},
	{"l", "[String]", []int{9}, nil},
	{"lp", "[Int]", []int{8, 9}, nil},
	{"o", "ArgSub", []int{10, 11}, nil},
	{"x", "ArgSub", []int{10, 11}, nil},
	{"q", "[ArgSub]", []int{9}, nil},
}

func has(l []int, k int) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// Run_C05_kinds: every kind of value for every kind of destination, by literal and variable.
func Run_C05_kinds(st *argState) {
	d := kindDest[sym.Choose(len(kindDest))]
	k := sym.Choose(len(kindToken))
	way := sym.Choose(2)
	var ok bool
	if way == 0 {
		ok = st.call(d.name + ":" + kindToken[k] + ",z:\"end\"")
	} else {
		ok = st.callOp("query($v:"+d.typ+"){m("+d.name+":$v,z:\"end\")a}", "{\"v\":"+kindJSON[k]+"}")
	}
	if ok {
		sym.Assert(argGot.Z == "end", "the argument after the value is wrong")
	}
	if has(d.ok, k) {
		sym.Assert(ok, "a value of the right kind was rejected")
		sym.Cover("exact")
		return
	}
	if has(d.may, k) {
		return
	}
	// a string naming the enum value may be used for an enum
	if (d.name == "c" && k == 6 || d.name == "n" && k == 7) || (way == 1 && d.typ == "String" && (k == 6 || k == 7)) || (d.typ == "ID" && d.name == "d" && way == 1 && (k == 6 || k == 7)) {
		return
	}
	sym.Assert(!ok && argCalls == 0, "a value of the wrong kind was accepted")
	sym.Cover("rejected")
}

// Run_C05_members: an input object with two members and what follows it, each of them with a value of its kind, one of another kind, or a name that is none: the resolver runs exactly if all of them fit, with all of them. Bounds: 3 members with 3 values each at either place, in an object, behind a pointer, in a list, in a list with an object after it; literal, variable and default.
func Run_C05_members(st *argState) {
	vals := [][3]string{{"n:12", "n:\"x\"", "n:70000"}, {"s:\"v\"", "s:5", "sx:\"v\""}, {"b:true", "b:\"true\"", "bb:true"}}
	i := sym.Choose(3)
	j := (i + 1 + sym.Choose(2)) % 3
	ki, kj := sym.Choose(3), sym.Choose(3)
	o := "{" + vals[i][ki] + "," + vals[j][kj] + "}"
	d := sym.Choose(4)
	name := []string{"o", "x", "q", "q"}[d]
	typ := []string{"ArgSub", "ArgSub", "[ArgSub]", "[ArgSub]"}[d]
	switch d {
	case 2:
		o = "[" + o + "]"
	case 3:
		o = "[" + o + ",{s:\"e\"}]"
	}
	var ok bool
	switch sym.Choose(3) {
	case 0:
		ok = st.call(name + ":" + o + ",z:\"end\"")
	case 1:
		ok = st.callOp("query($v:"+typ+"){m("+name+":$v,z:\"end\")a}", "{\"v\":"+jsonOf(o)+"}")
	default:
		ok = st.callOp("query($v:"+typ+"="+o+"){m("+name+":$v,z:\"end\")a}", "")
	}
	sym.Assert(ok == (ki == 0 && kj == 0), "an input object with a wrong member is accepted, or a right one refused")
	sym.Assert(ok || argCalls == 0, "the resolver runs although a member is wrong")
	if !ok {
		sym.Cover("refused")
		return
	}
	g := argGot.O
	switch d {
	case 1:
		g = *argGot.X
	case 2, 3:
		sym.Assert(len(argGot.Q) == d-1 && (d == 2 || argGot.Q[1].S == "e"), "an item is lost")
		g = argGot.Q[0]
	}
	sym.Assert((g.N == 12) == (i == 0 || j == 0) && (g.S == "v") == (i == 1 || j == 1) && g.B == (i == 2 || j == 2) && argGot.Z == "end", "a member is lost")
	sym.Cover("accepted")
}

// jsonOf writes a literal with names of letters as JSON.
func jsonOf(o string) string {
	r := []byte{}
	str := false
	for i := 0; i < len(o); i++ {
		if o[i] == '"' {
			str = !str
		}
		if !str && (o[i] == '{' || o[i] == ',') && o[i+1] != '{' {
			r = append(r, o[i], '"')
			for i++; o[i] != ':'; i++ {
				r = append(r, o[i])
			}
			r = append(r, '"')
		}
		r = append(r, o[i])
	}
	return string(r)
}

// Run_C05_words: a word that is nearly null is no null, for any kind of destination, in lists and members. Bounds: one byte of null changed to any other, left out or added, any of its letters in the other case, four other words; 15 destinations, as value, as item, as member, as default.
func Run_C05_words(st *argState) {
	d := kindDest[sym.Choose(len(kindDest))]
	b := []byte("null")
	i := sym.Choose(len(b) + 1)
	c := sym.Byte()
	name := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= '0' && c <= '9'
	switch sym.Choose(4) {
	case 3:
		// any of the letters in the other case, or another word
		sym.Assume(i == 0 && c < 20)
		k := sym.Conc(int(c))
		if k > 15 {
			b = []byte([]string{"nil", "none", "undefined", "nullnull"}[k-16])
			break
		}
		sym.Assume(k > 0)
		for j := range b {
			if k>>uint(j)&1 == 1 {
				b[j] -= 'a' - 'A'
			}
		}
	case 0:
		sym.Assume(i < len(b) && c != b[i%4] && name && (i > 0 || c > '9'))
		b[i%4] = c
	case 1:
		sym.Assume(i < len(b))
		b = append(b[:i%4], b[i%4+1:]...)
	default:
		sym.Assume(name && (i > 0 || c > '9'))
		b = append(b[:i:i], append([]byte{c}, b[i:]...)...)
	}
	w := string(b)
	var ok bool
	switch sym.Choose(4) {
	case 0:
		ok = st.call(d.name + ":" + w + ",z:\"end\"")
	case 1:
		ok = st.call("l:[\"a\"," + w + "],z:\"end\"")
	case 2:
		ok = st.call("x:{p:" + w + ",n:1},z:\"end\"")
	default:
		ok = st.callOp("query($v:"+d.typ+"="+w+"){m("+d.name+":$v,z:\"end\")a}", "")
	}
	sym.Assert(!ok && argCalls == 0, "a word that is no null is accepted")
	sym.Cover("rejected")
}
