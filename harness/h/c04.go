package h

import "yarqlverif/harness/sym"

// gqlString is the reference for the content of "..." : the text, whether the literal is complete and
// valid, and whether it may also be rejected.
func gqlString(b string) (text []byte, valid, strict bool) {
	strict = true
	i := 0
	for i < len(b) {
		c := b[i]
		switch {
		case c == '"':
			return nil, false, false // ends early: not this harness' subject
		case c == '\n' || c == '\r':
			return nil, false, true
		case c == '\\':
			i++
			if i >= len(b) {
				return nil, false, false // escapes the closing quote
			}
			e := b[i]
			i++
			switch e {
			case '"', '\\', '/':
				text = append(text, e)
			case 'b':
				text = append(text, 8)
			case 'f':
				text = append(text, 12)
			case 'n':
				text = append(text, 10)
			case 'r':
				text = append(text, 13)
			case 't':
				text = append(text, 9)
			case 'u':
				r, ok := uhex(b, i)
				if !ok {
					return nil, false, true
				}
				i += 4
				if r >= 0xd800 && r < 0xdc00 && i+1 < len(b) && b[i] == '\\' && b[i+1] == 'u' {
					r2, ok := uhex(b, i+2)
					if !ok {
						return nil, false, true
					}
					if r2 >= 0xdc00 && r2 < 0xe000 {
						i += 6
						text = putRune(text, 0x10000+(r-0xd800)<<10+(r2-0xdc00))
						continue
					}
				}
				if r >= 0xd800 && r < 0xe000 {
					strict = false // a lone surrogate is rejected or replaced
					r = 0xfffd
				}
				text = putRune(text, r)
			default:
				return nil, false, true
			}
			continue
		default:
			if c < 0x20 && c != '\t' || c >= 0x7f {
				strict = false // control characters and broken UTF-8 may be rejected
			}
			text = append(text, c)
			i++
			continue
		}
	}
	return text, true, strict
}

func uhex(b string, i int) (int, bool) {
	if i+4 > len(b) {
		return 0, false
	}
	r := 0
	for k := 0; k < 4; k++ {
		h := hexv(b[i+k])
		if h < 0 {
			return 0, false
		}
		r = r<<4 | h
	}
	return r, true
}

// strPlace puts a string literal somewhere into the arguments.
func strPlace(k int, lit string) string {
	switch k {
	case 0:
		return "s:" + lit + ",z:\"end\""
	case 1:
		return "i:5,l:[\"x\"," + lit + ",\"y\"],z:\"end\""
	case 2:
		return "o:{n:1,s:" + lit + ",b:true},z:\"end\""
	case 3:
		return "p:" + lit + " z:\"end\""
	case 4:
		return "q:[{l:[" + lit + "]},{s:" + lit + "}]z:\"end\""
	case 5:
		return "d:" + lit + " z:\"end\""
	case 6:
		return "x:{u:{p:" + lit + "},q:[]} z:\"end\""
	}
	return "ll:[[" + lit + "],[],[" + lit + ",\"y\"]] z:\"end\""
}

const strPlaces = 8

func strGot(k int) string {
	g := &argGot
	switch k {
	case 0:
		return g.S
	case 1:
		assertc(g.I == 5, "the argument before is wrong")
		assertc(len(g.L) == 3 && g.L[0] == "x" && g.L[2] == "y", "the elements around are wrong")
		return g.L[1]
	case 2:
		assertc(g.O.N == 1 && g.O.B, "the members around are wrong")
		return g.O.S
	case 3:
		assertc(g.P != nil, "the argument is missing")
		return *g.P
	case 4:
		assertc(len(g.Q) == 2 && len(g.Q[0].L) == 1 && g.Q[0].L[0] == g.Q[1].S, "the shape around is wrong")
		return g.Q[1].S
	case 5:
		return g.D
	case 6:
		assertc(g.X != nil && g.X.U != nil && g.X.U.P != nil, "the member is missing")
		return *g.X.U.P
	}
	assertc(len(g.LL) == 3 && len(g.LL[0]) == 1 && len(g.LL[1]) == 0 && len(g.LL[2]) == 2 && g.LL[2][1] == "y" && g.LL[0][0] == g.LL[2][0], "the shape around is wrong")
	return g.LL[0][0]
}

func checkString(st *argState, place int, body string) {
	want, valid, strict := gqlString(body)
	if !valid && !strict {
		return
	}
	ok := st.call(strPlace(place, "\""+body+"\""))
	if !valid {
		sym.Cover("invalid")
		sym.Assert(!ok && argCalls == 0, "an invalid string literal was accepted")
		return
	}
	if !ok {
		sym.Assert(!strict, "a valid string literal was rejected")
		return
	}
	sym.Cover("valid")
	sym.Assert(strGot(place) == string(want), "the resolver got a different text")
	sym.Assert(argGot.Z == "end", "the argument after the string is wrong")
}

// Run_C04_raw: any bytes between the quotes.
func Run_C04_raw(st *argState) {
	n := 4 + 2*sym.Tier()
	checkString(st, sym.Choose(2), sym.UpTo(0, n))
}

// Run_C04_places: the same literal anywhere in the arguments.
func Run_C04_places(st *argState) {
	body := ""
	switch sym.Choose(4) {
	case 0:
		body = sym.Str(1)
	case 1:
		body = "\\" + sym.Str(1)
	case 2:
		body = "a" + sym.Str(1) + "z"
	default:
		body = "\\u00" + sym.StrOf(2, "0123456789abcdefABCDEF") + "z"
	}
	checkString(st, sym.Choose(strPlaces), body)
}

// Run_C04_unicode: any bytes as the digits of one or two \u escapes.
func Run_C04_unicode(st *argState) {
	const hex = "0123456789abcdefABCDEF"
	body := ""
	switch sym.Choose(4) {
	case 0:
		body = "\\u" + sym.StrOf(4, hex)
	case 1:
		k := sym.Choose(4)
		d := []byte("00e9")
		d[k] = sym.Byte()
		body = "\\u" + string(d)
	case 2:
		body = "\\u" + sym.StrOf(1, "dD") + sym.StrOf(1, hex) + "3" + sym.StrOf(1, hex) + "\\u" + sym.StrOf(1, "dD") + sym.StrOf(1, hex) + "0" + sym.StrOf(1, hex)
	default:
		body = "x\\u" + sym.UpToOf(0, 3, hex)
	}
	checkString(st, 0, body)
}

// blockText is the text of a block string without the white space that belongs to line breaks or the ends.
func blockText(b []byte) string {
	var out []byte
	pend := []byte{}
	start := true
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			pend = append(pend, c)
			continue
		}
		if !start {
			brk := false
			for _, w := range pend {
				if w == '\n' || w == '\r' {
					brk = true
				}
			}
			if brk {
				n := 0
				for k, w := range pend {
					if w == '\n' || (w == '\r' && !(k+1 < len(pend) && pend[k+1] == '\n')) {
						n++
					}
				}
				for ; n > 0; n-- {
					out = append(out, '\n')
				}
			} else {
				out = append(out, pend...)
			}
		}
		pend = pend[:0]
		start = false
		out = append(out, c)
	}
	return string(out)
}

// Run_C04_block: any bytes in a block string; blanks next to line breaks and at the ends are left open.
func Run_C04_block(st *argState) {
	n := 4 + 2*sym.Tier()
	body := sym.UpTo(0, n)
	// what the literal denotes
	var want []byte
	for i := 0; i < len(body); i++ {
		if body[i] == '\\' && i+3 < len(body) && body[i+1] == '"' && body[i+2] == '"' && body[i+3] == '"' {
			want = append(want, '"', '"', '"')
			i += 3
			continue
		}
		want = append(want, body[i])
	}
	if len(body) > 0 {
		l := body[len(body)-1]
		sym.Assume(l != '"' && l != '\\')
	}
	for i := 0; i+2 < len(body); i++ {
		sym.Assume(!(body[i] == '"' && body[i+1] == '"' && body[i+2] == '"'))
	}
	strict := true
	for i := 0; i < len(body); i++ {
		if body[i] < 0x20 && body[i] != '\t' && body[i] != '\n' && body[i] != '\r' || body[i] >= 0x7f {
			strict = false
		}
	}
	ok := st.call("s:\"\"\"" + body + "\"\"\",z:\"end\"")
	if !ok {
		sym.Assert(!strict, "a valid block string was rejected")
		return
	}
	sym.Cover("valid")
	sym.Assert(blockText([]byte(argGot.S)) == blockText(want), "the resolver got a different text")
	sym.Assert(argGot.Z == "end", "the argument after the string is wrong")
}

// Run_C04_blockesc: the escaped triple quote and backslashes in block strings.
func Run_C04_blockesc(st *argState) {
	a, b := sym.UpToOf(0, 2, "a\\n\"u"), sym.UpToOf(0, 2, "b\\t\"")
	body := a + "\\\"\"\"" + b
	sym.Assume(len(b) == 0 || (b[len(b)-1] != '"' && b[len(b)-1] != '\\'))
	sym.Assume(len(a) == 0 || (a[len(a)-1] != '\\'))
	want := a + "\"\"\"" + b
	ok := st.call("s:\"\"\"" + body + "\"\"\",z:\"end\"")
	sym.Assert(ok, "a valid block string was rejected")
	sym.Cover("valid")
	sym.Assert(argGot.S == want, "the resolver got a different text")
	sym.Assert(argGot.Z == "end", "the argument after the string is wrong")
}

// Run_C04_open: literals that never end.
func Run_C04_open(st *argState) {
	body := sym.UpTo(0, 3)
	for i := 0; i < len(body); i++ {
		sym.Assume(body[i] != '"')
	}
	open := "\""
	if sym.Bool() {
		open = "\"\"\""
	}
	argCalls = 0
	r := exec(st.s, "{m(s:"+open+body)
	sym.Assert(r.failed() && argCalls == 0, "an unterminated string was accepted")
	sym.Cover("rejected")
}
