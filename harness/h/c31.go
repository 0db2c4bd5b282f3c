package h

import "yarqlverif/harness/sym"

// argGen writes a value with symbolic leaves as a literal or as JSON.
type argGen struct {
	json  bool // write JSON
	lift  bool // every other leaf is a variable of its own
	nth   int
	decl  string
	vars  string
	sep   string
	inner int // number of members of nested objects
}

const c31chars = "abz019 _{}[],:#$!@().="

func (g *argGen) leaf(typ, text, json string) string {
	if g.json {
		return json
	}
	g.nth++
	if g.lift && g.nth%2 == 1 {
		n := "v" + itoa(g.nth)
		g.decl += "$" + n + ":" + typ + " "
		if g.vars != "" {
			g.vars += ","
		}
		g.vars += "\"" + n + "\":" + json
		return "$" + n
	}
	return text
}

func (g *argGen) str() (string, string) {
	v := sym.StrOf(1, c31chars)
	return g.leaf("String", "\""+v+"\"", "\""+v+"\""), v
}

func (g *argGen) num() (string, int) {
	v := sym.StrOf(2, "123456789")
	return g.leaf("Int", v, v), int(v[0]-'0')*10 + int(v[1]-'0')
}

func (g *argGen) list(items []string) string {
	t := "["
	for i, x := range items {
		if i > 0 {
			t += g.comma()
		}
		t += x
	}
	return t + "]"
}

func (g *argGen) comma() string {
	if g.json {
		return ","
	}
	return g.sep
}

func (g *argGen) key(k string) string {
	if g.json {
		return "\"" + k + "\":"
	}
	return k + ":"
}

// strs is [String]; the dump of nil is -.
func (g *argGen) strs() (string, string) {
	n := sym.Choose(4)
	if n == 3 {
		return "null", "-"
	}
	var items []string
	d := "["
	for i := 0; i < n; i++ {
		x, v := g.str()
		items = append(items, x)
		d += v + ";"
	}
	return g.list(items), d + "]"
}

func dumpStrs(l []string) string {
	if l == nil {
		return "-"
	}
	d := "["
	for _, x := range l {
		d += x + ";"
	}
	return d + "]"
}

// ptrs is a list of String with nulls.
func (g *argGen) ptrs() (string, string) {
	n := sym.Choose(4 + sym.Tier())
	var items []string
	d := "["
	for i := 0; i < n; i++ {
		if sym.Choose(2) == 0 {
			items = append(items, "null")
			d += "-;"
		} else {
			x, v := g.str()
			items = append(items, x)
			d += "&" + v + ";"
		}
	}
	return g.list(items), d + "]"
}

func dumpPtrs(l []*string) string {
	if l == nil {
		return "-"
	}
	d := "["
	for _, x := range l {
		if x == nil {
			d += "-;"
		} else {
			d += "&" + *x + ";"
		}
	}
	return d + "]"
}

// nums is a list of lists of lists of numbers, depth deep.
func (g *argGen) nums(depth int) (string, string) {
	n := sym.Choose(3)
	if depth > 1 && n == 0 && sym.Choose(2) == 0 {
		return "null", "-"
	}
	var items []string
	d := "["
	for i := 0; i < n; i++ {
		if depth > 1 {
			x, v := g.nums(depth - 1)
			items = append(items, x)
			d += v
		} else {
			x, v := g.num()
			items = append(items, x)
			d += itoa(v) + ";"
		}
	}
	return g.list(items), d + "]"
}

func dumpNums(l []int) string {
	if l == nil {
		return "-"
	}
	d := "["
	for _, x := range l {
		d += itoa(x) + ";"
	}
	return d + "]"
}

func dumpNums2(l [][]int) string {
	if l == nil {
		return "-"
	}
	d := "["
	for _, x := range l {
		d += dumpNums(x)
	}
	return d + "]"
}

func dumpNums3(l [][][]int) string {
	if l == nil {
		return "-"
	}
	d := "["
	for _, x := range l {
		d += dumpNums2(x)
	}
	return d + "]"
}

// dumpSub writes an ArgSub; the parts of generated values are in the same order.
func dumpSub(s *ArgSub) string {
	if s == nil {
		return "-"
	}
	p := "-"
	if s.P != nil {
		p = "&" + *s.P
	}
	q := "-"
	if s.Q != nil {
		q = "["
		for i := range s.Q {
			q += dumpSub(&s.Q[i])
		}
		q += "]"
	}
	b := "f"
	if s.B {
		b = "t"
	}
	return "{" + s.S + "," + itoa(int(s.N)) + "," + p + "," + dumpStrs(s.L) + "," + dumpSub(s.U) + "," + q + "," + b + "}"
}

// obj is an object with n members, at most depth objects inside of each other.
func (g *argGen) obj(n, depth int) (string, string) {
	d := []string{"", "0", "-", "-", "-", "-", "f"}
	used := 0
	t := "{"
	for i := 0; i < n; i++ {
		var free []int
		for m := 0; m < 7; m++ {
			if used&(1<<uint(m)) == 0 && (depth > 0 || m != 4 && m != 5) {
				free = append(free, m)
			}
		}
		m := free[sym.Choose(len(free))]
		if used != 0 {
			t += g.comma()
		}
		used |= 1 << uint(m)
		t += g.key("snpluqb"[m : m+1])
		if m > 1 && m != 6 && sym.Choose(2) == 0 {
			t += "null"
			continue
		}
		x := ""
		switch m {
		case 0:
			x, d[m] = g.str()
		case 1:
			v := 0
			x, v = g.num()
			d[m] = itoa(v)
		case 2:
			v := ""
			x, v = g.str()
			d[m] = "&" + v
		case 3:
			x, d[m] = g.strs()
		case 4:
			x, d[m] = g.obj(sym.Choose(g.inner+1), depth-1)
		case 5:
			k := sym.Choose(2 + sym.Tier())
			if n > 1 {
				k = sym.Choose(3)
			}
			var items []string
			d[m] = "["
			for j := 0; j < k; j++ {
				y, v := g.obj(sym.Choose(g.inner+1), depth-1)
				items = append(items, y)
				d[m] += v
			}
			x, d[m] = g.list(items), d[m]+"]"
		case 6:
			x, d[m] = "true", "t"
		}
		t += x
	}
	return t + "}", "{" + d[0] + "," + d[1] + "," + d[2] + "," + d[3] + "," + d[4] + "," + d[5] + "," + d[6] + "}"
}

func newGen() *argGen {
	k := sym.Choose(3)
	return &argGen{json: k == 1, lift: k == 2, sep: []string{" ", ","}[sym.Choose(2)], inner: 1}
}

// send asks with the generated value as argument name, between two others.
func (g *argGen) send(st *argState, name, typ, text string) {
	before, after := "", sym.StrOf(1, c31chars)
	if g.sep == "," {
		before = "i:5 "
	}
	q, vars := "", ""
	if g.json {
		q = "query($v:" + typ + "){m(" + before + name + ":$v z:\"" + after + "\")a}"
		vars = "{\"v\":" + text + "}"
	} else {
		d := ""
		if g.decl != "" {
			d = "query(" + g.decl + ")"
		}
		q = d + "{m(" + before + name + ":" + text + " z:\"" + after + "\")a}"
		vars = "{" + g.vars + "}"
	}
	sym.Assert(st.callOp(q, vars), "a list or input object is refused")
	sym.Assert(argGot.Z == after, "the argument after it is lost or changed")
	sym.Assert((argGot.I == 5) == (before != "") && (argGot.I == 0) == (before == ""), "the argument before it is lost or changed")
}

// Run_C31_lists: lists of text, of pointers and of lists (up to three deep), of 0..2 elements (up to 3 for pointers) with nulls, as literal, as variable and as literal with variables inside.
func Run_C31_lists(st *argState) {
	g := newGen()
	switch sym.Choose(5) {
	case 0:
		x, d := g.strs()
		g.send(st, "l", "[String]", x)
		sym.Assert(dumpStrs(argGot.L) == d, "a list of text arrives changed")
	case 1:
		x, d := g.ptrs()
		g.send(st, "m", "[String]", x)
		sym.Assert(dumpPtrs(argGot.M) == d, "a list with nulls arrives changed")
	case 2:
		n := sym.Choose(3)
		var items []string
		d := "["
		for i := 0; i < n; i++ {
			x, v := g.strs()
			items = append(items, x)
			d += v
		}
		g.send(st, "ll", "[[String]]", g.list(items))
		e := "["
		for _, l := range argGot.LL {
			e += dumpStrs(l)
		}
		sym.Assert(argGot.LL != nil && e+"]" == d+"]", "a list of lists arrives changed")
	case 3:
		x, d := g.nums(2)
		g.send(st, "li", "[[Int]]", x)
		sym.Assert(dumpNums2(argGot.LI) == d, "a list of lists arrives changed")
	case 4:
		x, d := g.nums(3)
		g.send(st, "lll", "[[[Int]]]", x)
		sym.Assert(dumpNums3(argGot.LLL) == d, "a list of lists of lists arrives changed")
	}
	sym.Cover("received")
}

// Run_C31_objects: an input object with up to 2 members of every kind in any order, objects and lists of objects inside of it up to one deep, or two with one member (thorough: always two deep, up to two members each), nulls anywhere, as literal, as variable and as literal with variables inside.
func Run_C31_objects(st *argState) {
	g := newGen()
	g.inner = 1 + sym.Tier()
	n := sym.Choose(3)
	depth := 2
	if n > 1 {
		depth = 1 + sym.Tier()
	}
	x, d := g.obj(n, depth)
	if sym.Choose(2) == 0 {
		g.send(st, "o", "ArgSub", x)
		sym.Assert(dumpSub(&argGot.O) == d, "an input object arrives changed")
		sym.Assert(argGot.X == nil, "another argument is set")
	} else {
		g.send(st, "x", "ArgSub", x)
		sym.Assert(dumpSub(argGot.X) == d, "an input object arrives changed")
		sym.Assert(dumpSub(&argGot.O) == "{,0,-,-,-,-,f}", "another argument is set")
	}
	sym.Cover("received")
}

// Run_C31_objlists: lists of input objects and of pointers to input objects with nulls, 0..2 elements (thorough: 0..3, one level deeper).
func Run_C31_objlists(st *argState) {
	g := newGen()
	n := sym.Choose(3 + sym.Tier())
	ptr := sym.Choose(2) == 1
	var items []string
	d := "["
	for i := 0; i < n; i++ {
		if ptr && sym.Choose(2) == 0 {
			items = append(items, "null")
			d += "-"
			continue
		}
		x, v := g.obj(sym.Choose(2), sym.Choose(2))
		items = append(items, x)
		d += v
	}
	e := "["
	if ptr {
		g.send(st, "r", "[ArgSub]", g.list(items))
		for _, s := range argGot.R {
			e += dumpSub(s)
		}
		sym.Assert(argGot.R != nil, "an empty list arrives as null")
	} else {
		g.send(st, "q", "[ArgSub]", g.list(items))
		for i := range argGot.Q {
			e += dumpSub(&argGot.Q[i])
		}
		sym.Assert(argGot.Q != nil, "an empty list arrives as null")
	}
	sym.Assert(e == d, "a list of input objects arrives changed")
	sym.Cover("received")
}
