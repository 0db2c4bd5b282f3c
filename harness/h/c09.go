package h

import "yarqlverif/harness/sym"

// fragGen builds a document with fragments and the same document with their contents written in place.
type fragGen struct {
	defs string
	n    int
}

var fragTypes = []string{"SelQ", "SelLeaf", "SelImpl", "Sel", "SelLeafx", "selLeaf", "SelIface"}

// wrap puts the selection into a fragment, or not; only says how many ways of wrapping are tried.
func (g *fragGen) wrap(typ, with, plain string) (string, string) {
	switch sym.Choose(5) {
	case 0:
		return with, plain
	case 1:
		return "...on " + typ + "{" + with + "}", plain
	case 2:
		g.n++
		name := []string{"F", "FF", "F1", "f"}[g.n-1]
		g.defs += " fragment " + name + " on " + typ + "{" + with + "}"
		return "..." + name + " ", plain
	case 3:
		o := fragTypes[sym.Choose(len(fragTypes))]
		if o == typ {
			return "...on " + o + "{" + with + "}", plain
		}
		return "...on " + o + "{" + with + "}", ""
	}
	g.n++
	name := []string{"F", "FF", "F1", "f"}[g.n-1]
	o := fragTypes[sym.Choose(len(fragTypes))]
	g.defs += " fragment " + name + " on " + o + "{" + with + "}"
	if o == typ {
		return "..." + name + " ", plain
	}
	return "..." + name + " ", ""
}

// Run_C09_inline: fragments at three levels against the same fields written in place.
func Run_C09_inline(st *selState) {
	g := &fragGen{}
	field := []string{"leaf", "list", "ptr", "live"}[sym.Choose(2+2*sym.Tier())]
	selV, selW, selN = 3, "w", 1
	iw, ip := g.wrap("SelLeaf", "v ", "v ")
	iw, ip = g.wrap("SelLeaf", iw+"w ", ip+"w ")
	ow, op := field+"{"+iw+"x:n{v}}", field+"{"+ip+"x:n{v}}"
	ow, op = g.wrap("SelQ", ow+"num ", op+"num ")
	before := sym.Bool()
	q, p := "{str "+ow+" arr}", "{str "+op+" arr}"
	if before {
		q = g.defs + " " + q
	} else {
		q += g.defs
	}
	a, b := exec(st.s, q), exec(st.s, p)
	sym.Assert(!b.failed(), "the document without fragments failed")
	sym.Assert(!a.failed(), "a document with fragments failed")
	sym.Assert(a.raw == b.raw, "a fragment is not answered like its fields in place")
	sym.Cover("same")
}

// Run_C09_name: the fragment that is used is the one with exactly the spread name.
func Run_C09_name(st *selState) {
	spread := symName(1 + sym.Choose(2+sym.Tier()))
	n1 := symName(1)
	n2 := symName(2)
	q := "{str ..." + spread + " num}fragment " + n1 + " on SelQ{x:num}fragment " + n2 + " on SelQ{y:num}fragment F12 on SelQ{z:num}"
	sym.Assume(spread != "on" && n2 != "on")
	r := exec(st.s, q)
	key := ""
	switch {
	case spread == n1:
		key = "x"
	case spread == n2:
		key = "y"
	case spread == "F12":
		key = "z"
	default:
		sym.Assert(r.failed(), "an undefined fragment was spread")
		sym.Cover("undefined")
		return
	}
	sym.Assert(!r.failed() && r.raw == "{\"data\":{\"str\":\"str\",\""+key+"\":-7,\"num\":-7}}", "another fragment was used")
	sym.Cover("named")
}

// Run_C09_type: the type condition has to be exactly the type at hand.
func Run_C09_type(st *selState) {
	t := []byte([]string{"SelImpl", "SelLeaf", "SelImplTwo", "SelQ"}[sym.Choose(4)])
	switch sym.Choose(3) {
	case 0:
	case 1:
		t[sym.Choose(len(t))] = sym.Byte()
	default:
		t = append(t, sym.Byte())
	}
	for _, c := range t {
		sym.Assume(nameByte(c))
	}
	sym.Assume(!(t[0] >= '0' && t[0] <= '9'))
	c := string(t)
	q := "{leaf{...on " + c + "{v}w}il{__typename ...F}}fragment F on " + c + "{t:__typename}"
	r := exec(st.s, q)
	sym.Assert(!r.failed(), "a fragment for another type failed")
	leaf := r.data.get("leaf")
	sym.Assert((leaf.get("v") != nil) == (c == "SelLeaf") && leaf.get("w").isStr("leaf"), "fragment on the wrong type")
	il := r.data.get("il")
	sym.Assert((il.at(0).get("t") != nil) == (c == "SelImplTwo"), "fragment on the wrong implementation")
	sym.Assert(il.at(1).isNull() && (il.at(2).get("t") != nil) == (c == "SelImpl"), "fragment on the wrong implementation")
	sym.Cover("typed")
}

// Run_C09_cycle: fragments that reach themselves are errors, others are not.
func Run_C09_cycle(st *selState) {
	n := 3 + sym.Tier()
	next := make([]int, n)
	q := "{leaf{...F0 z:w}num}"
	for i := range next {
		next[i] = sym.Choose(n + 1)
		q += "fragment F" + itoa(i) + " on SelLeaf{a" + itoa(i) + ":v"
		if next[i] < n {
			if sym.Bool() {
				q += " ...F" + itoa(next[i])
			} else {
				q += " ...on SelLeaf{...F" + itoa(next[i]) + "}"
			}
		}
		q += "}"
	}
	want := "{"
	i, steps := 0, 0
	for i < n && steps <= n {
		want += "\"a" + itoa(i) + "\":1,"
		i = next[i]
		steps++
	}
	r := exec(st.s, q)
	if steps > n {
		sym.Assert(r.failed(), "a fragment that reaches itself is no error")
		sym.Cover("cycle")
		return
	}
	sym.Assert(!r.failed() && r.raw == "{\"data\":{\"leaf\":"+want+"\"z\":\"leaf\"},\"num\":-7}}", "wrong answer")
	sym.Cover("finite")
}

// Run_C09_deepcycle: fragments that reach themselves below a field, on data that is itself endless.
func Run_C09_deepcycle(st *selState) {
	selV, selW = 1, "w"
	f := []string{"live", "leaf", "list"}[sym.Choose(3)]
	q := "{x:num " + f + "{...A}}fragment A on SelLeaf{v "
	switch sym.Choose(4) {
	case 0:
		q += "n{...A}}"
	case 1:
		q += "n{n{...B}}}fragment B on SelLeaf{w ...A}"
	case 2:
		q += "n{...on SelLeaf{...B}}}fragment B on SelLeaf{...A ...B}"
	default:
		q += "...B}fragment B on SelLeaf{n{...A}...C}fragment C on SelLeaf{n{v}...B}"
	}
	r := exec(st.s, q)
	sym.Assert(r.data.get("x").isNum("-7"), "the field before is lost")
	sym.Cover("finite")
}

// wrap3 puts the selection into a fragment of the right type, or not.
func (g *fragGen) wrap3(typ, with, plain string) (string, string) {
	switch sym.Choose(3) {
	case 0:
		return with, plain
	case 1:
		return "...on " + typ + "{" + with + "}", plain
	}
	g.n++
	name := []string{"F", "FF", "F1", "f"}[g.n-1]
	g.defs += " fragment " + name + " on " + typ + "{" + with + "}"
	return "..." + name + " ", plain
}

// Run_C09_errors: an error inside of a fragment is the error of the same fields in place.
func Run_C09_errors(st *selState) {
	g := &fragGen{}
	field := []string{"leaf", "list", "liveList", "LL2", "il"}[sym.Choose(5)]
	typ := "SelLeaf"
	if field == "il" {
		typ = "SelImpl"
	}
	selV, selW, selN = 3, "w", 3
	bad := []string{"zz ", "v(q:1) ", "n ", "v{a} ", "n{zz} ", "...X ", string([]byte{sym.Pick("vwzn")}) + " "}[sym.Choose(7)]
	w, p := bad, bad
	if sym.Bool() {
		w, p = "v "+w, "v "+p
	}
	w, p = g.wrap3(typ, w, p)
	if sym.Bool() {
		w, p = w+"v ", p+"v "
	}
	if field != "il" {
		w, p = g.wrap(typ, w, p)
		if p == "" {
			w, p = w+"v ", p+"v "
		}
	} else {
		p = "...on SelImpl{" + p + "x}"
		w = "...on SelImpl{" + w + "x}"
	}
	w, p = field+"{"+w+"}", field+"{"+p+"}"
	if sym.Bool() {
		w, p = w+" y:"+w, p+" y:"+p
	}
	w, p = g.wrap3("SelQ", w, p)
	a, b := exec(st.s, "{str "+w+" num}"+g.defs), exec(st.s, "{str "+p+" num}")
	sym.Assert(a.failed() == b.failed(), "a fragment fails unlike its fields in place")
	sym.Assert(a.data.String() == b.data.String() && a.errText() == b.errText(), "a fragment fails unlike its fields in place")
	sym.Cover("same")
}

// Run_C09_graph: three fragments (thorough: four) with up to two spreads each, at the top of the fragment or below an inline fragment: what a fragment gives does not depend on the ones that were spread before it: an error exactly if one reaches itself, and otherwise what the expanded text gives.
func Run_C09_graph(st *selState) {
	n := 3 + sym.Tier()
	body := make([]string, n)
	next := make([][]int, n)
	al := sym.StrOf(1, "bcde")
	q := "{leaf{" + al + ":v ...F0 z:w}num}"
	for i := range next {
		b := "a" + itoa(i) + ":v"
		for k := 0; k < 2; k++ {
			t := sym.Choose(n + 1)
			if t == n {
				break
			}
			if i > 1 && k > 0 && sym.Tier() == 0 {
				sym.Assume(t != i)
			}
			next[i] = append(next[i], t)
			f := "...F" + itoa(t)
			if k == 0 && i == 0 && sym.Bool() {
				f = "...on SelLeaf{" + f + " y:w}"
			}
			b += " " + f
		}
		body[i] = b
		q += "fragment F" + itoa(i) + " on SelLeaf{" + b + "}"
	}
	var active []bool = make([]bool, n)
	cyc := false
	var expand func(i int) string
	expand = func(i int) string {
		if active[i] {
			cyc = true
			return ""
		}
		active[i] = true
		t := ""
		b := body[i]
		for j := 0; j < len(b); j++ {
			if j+4 < len(b)+0 && b[j] == '.' && b[j+3] == 'F' {
				t += expand(int(b[j+4]-'0')) + " "
				j += 4
				continue
			}
			t += b[j : j+1]
		}
		active[i] = false
		return t
	}
	full := "{leaf{" + al + ":v " + expand(0) + " z:w}num}"
	r := exec(st.s, q)
	if cyc {
		sym.Assert(r.failed(), "a fragment that reaches itself is no error")
		sym.Cover("cycle")
		return
	}
	w := exec(st.s, full)
	sym.Assert(!r.failed() && !w.failed() && r.data.String() == w.data.String(), "a fragment is not answered like its text")
	sym.Cover("finite")
}
