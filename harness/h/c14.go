package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

func min1(n int) *int { return &n }

// Setup_cache: one schema that caches every query, one that caches none.
type cachePair struct{ pair }

func Setup_cache() *cachePair {
	p := &cachePair{pair{buildWild(), buildWild()}}
	p.used.SetCacheRules(min1(0))
	p.fresh.SetCacheRules(min1(1 << 30))
	return p
}

// cacheDoc is a document with a symbolic byte somewhere.
func cacheDoc(k int) request {
	switch k {
	case 0:
		return request{q: "{m(a:\"" + sym.StrOf(1, "abcde") + "\")}"}
	case 1:
		return request{q: "{" + sym.StrOf(1, "aepr") + " ...F}fragment F on WQ{h}fragment G on WQ{r}"}
	case 2:
		return request{q: "{p ...F}fragment F on WQ{" + sym.StrOf(1, "aepr") + "}fragment G on WQ{r}"}
	case 3:
		return request{q: "query " + sym.StrOf(1, "AB") + "{a}query B{r}", op: []string{"", "A", "B", "C"}[sym.Choose(4)]}
	case 4:
		return request{q: "query($v:Int=" + sym.StrOf(1, "123") + "){m(b:$v)}", vars: []string{"", "{\"v\":9}", "{\"v\":null}"}[sym.Choose(3)]}
	case 5:
		return request{q: "{..." + sym.StrOf(1, "FG") + " a}fragment F on WQ{h}fragment G on WQ{r}"}
	case 8, 9, 10:
		// documents of one length, with one to three fragments at other places
		f := []string{
			"{a...F}fragment F on WQ{h ...G}fragment G on WQ{e}#                                          ",
			"{...F}fragment G on WQ{a}fragment H on WQ{e}fragment F on WQ{...H h ...G}#                   ",
			"{...H e}fragment I on WQ{a}fragment G on WQ{h}fragment F on WQ{e ...I}fragment H on WQ{...F}#",
		}[k-8]
		b := []byte(f)
		for len(b) < 100 {
			b = append(b, ' ')
		}
		return request{q: string(b[:99]) + sym.StrOf(1, "ab")}
	case 6:
		return request{q: "{a " + sym.StrOf(1, "}{a(") + "}"}
	}
	return request{q: "mutation " + sym.StrOf(1, "AB") + "{b(a:1)}query B{r}", op: []string{"A", "B"}[sym.Choose(2)]}
}

// Run_C14_history: histories of requests with and without the cache.
func Run_C14_history(p *cachePair) {
	var rs []request
	k1 := sym.Choose(11)
	rs = append(rs, cacheDoc(k1))
	if sym.Bool() {
		rs = append(rs, cacheDoc(k1)) // the same document but for a byte
	} else {
		rs = append(rs, cacheDoc(sym.Choose(11)))
	}
	if sym.Tier() > 0 {
		rs = append(rs, cacheDoc(sym.Choose(11)))
	}
	last := rs[sym.Choose(len(rs))]
	if sym.Bool() && len(last.op) > 0 {
		last.op = []string{"", "A", "B"}[sym.Choose(3)]
	}
	rs = append(rs, last)
	for _, r := range rs {
		p.ask(r, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_turns: any two of the documents in turns, each of them stored, found, replaced by the other and found again.
func Run_C14_turns(p *cachePair) {
	a, b := cacheDoc(sym.Choose(11)), cacheDoc(sym.Choose(11))
	for _, r := range []request{a, a, b, a, b, b, a, a} {
		p.ask(r, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_bytes: any byte in place of one of a cached document, and any byte more.
func Run_C14_bytes(p *cachePair) {
	docs := []string{"{b{a}e}", "query Q($v:Int=1){m(b:$v)}", "{...F}fragment F on WQ{a r}", "{m(a:\"xy\",c:[1 2])a}"}
	d := docs[sym.Choose(len(docs))]
	p.ask(request{q: d}, "the cache changes an answer")
	b := []byte(d)
	switch sym.Choose(3) {
	case 0:
		b[sym.Choose(len(b))] = sym.Byte()
	case 1:
		b = append(b, sym.Byte())
	default:
		i := sym.Choose(len(b))
		b = append(b[:i], b[i+1:]...)
		b = append(b, sym.Byte())
	}
	p.ask(request{q: string(b)}, "the cache changes an answer")
	p.ask(request{q: d}, "the cache changes an answer")
	if sym.Tier() > 0 {
		p.ask(request{q: string(b)}, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_target: the same document with other operation names.
func Run_C14_target(p *cachePair) {
	q := "query A{a}query B{r}mutation AB{b(a:1)}query C{zz}fragment A on WQ{a}"
	n := 3 + sym.Tier()
	for i := 0; i < n; i++ {
		op := ""
		if sym.Bool() {
			op = symName(1 + sym.Choose(2))
		}
		p.ask(request{q: q, op: op}, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_evict: more documents of one length, or of different lengths, than the cache holds.
func Run_C14_evict(p *cachePair) {
	var docs []string
	if sym.Bool() {
		for i := 0; i < 23; i++ {
			docs = append(docs, "{x"+string([]byte{byte('a' + i)})+":m(a:\"v"+string([]byte{byte('a' + i)})+"\")...F}fragment F on WQ{r}")
		}
	} else {
		sym.MapOrder(true)
		pad := ""
		for i := 0; i < 103; i++ {
			docs = append(docs, "{x"+itoa(100+i)+":m(a:\"v"+itoa(100+i)+"\")...F"+pad+"}fragment F on WQ{r}")
			pad += " "
		}
	}
	for _, d := range docs {
		p.used.Resolve([]byte(d), yarql.ResolveOptions{})
	}
	ks := []int{0, 1, 2, 3, 4, len(docs) / 2, len(docs) - 21, len(docs) - 20, len(docs) - 3, len(docs) - 2, len(docs) - 1}
	k := ks[sym.Choose(len(ks))]
	p.ask(request{q: docs[k]}, "the cache changes an answer")
	p.ask(request{q: docs[(k+1)%len(docs)]}, "the cache changes an answer")
	p.ask(request{q: docs[k]}, "the cache changes an answer")
	sym.Cover("same")
}

// Run_C14_rules: the rules may change between requests.
func Run_C14_rules(p *cachePair) {
	a, b := cacheDoc(sym.Choose(3)), cacheDoc(4)
	lens := []int{0, 20, 30, 1000}
	for i := 0; i < 3; i++ {
		k := sym.Choose(len(lens) + 2)
		switch {
		case k < len(lens):
			p.used.SetCacheRules(min1(lens[k]))
		case k == len(lens):
			p.used.SetCacheRules(nil)
		default:
			p.used.SetCacheRules(min1(-5))
		}
		p.ask(a, "the cache changes an answer")
		p.ask(b, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_early: rules set before the schema is built, none included, or between two attempts to build it, never matter. Bounds: three documents with a free byte, each twice, on the schema and its copy.
func Run_C14_early() {
	x := sym.StrOf(1, "abe{ ")
	s, t := bdSchema(), bdSchema()
	rules := []*int{nil, min1(0), min1(-1), min1(5), min1(1000)}
	k := sym.Choose(len(rules))
	if sym.Bool() {
		s.SetCacheRules(min1(3))
	}
	s.SetCacheRules(rules[k])
	if sym.Bool() {
		sym.Assert(s.Parse(1, NoM{}, nil) != nil, "a number is accepted as queries")
		s.SetCacheRules(rules[sym.Choose(len(rules))])
	}
	parse(s, bdGood{A: "x"}, NoM{})
	parse(t, bdGood{A: "x"}, NoM{})
	c := s
	if sym.Bool() {
		c = s.Copy()
	}
	r := request{q: fill([]string{"{~ e}", "query($n:[Int]=[1,2]){b(n:$n)~}", "{...F}fragment F on bdGood{~:a}"}[sym.Choose(3)], x)}
	equalAnswers(c, t, r, "rules set before the schema is built change an answer")
	equalAnswers(c, t, request{q: "{a}"}, "rules set before the schema is built change an answer")
	equalAnswers(c, t, r, "rules set before the schema is built change the second answer")
	sym.Cover("same")
}

// cacheLens: lengths around powers of two and around the length a query must have to be stored.
func cacheLen() int {
	n := []int{64, 129, 256, 299, 300, 301, 512, 1025, 2049, 65, 511, 513, 600, 4096, 65536, 65600}
	return n[sym.Choose(9+7*sym.Tier())]
}

// place picks a place in n bytes: the first and last ones, around the powers of two from either end, the middle.
func place(n int) int {
	ps := []int{0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256}
	k := sym.Choose(2*len(ps) + 1)
	at := n / 2
	if k < len(ps) {
		at = ps[k]
	} else if k < 2*len(ps) {
		at = n - 1 - ps[k-len(ps)]
	}
	sym.Assume(at >= 0 && at < n)
	return at
}

// Run_C14_long: two documents of one length, up to 2049 (thorough 65600) bytes, that differ in one character of any value in a string, at any of 29 places from either end, with the rules at their default or storing everything, in turns. Bounds: 9 (thorough 16) lengths, 29 places, one free byte, the string at the start or at the end of the document.
func Run_C14_long(p *cachePair) {
	n := cacheLen()
	if sym.Bool() {
		p.used.SetCacheRules(nil)
	}
	head, tail := []string{"{a m(a:\"", "{m(a:\"", "query A{r}query B{a x:m(a:\""}[sym.Choose(3)], "\")}"
	if sym.Bool() {
		tail = "\"){zz}a}"
	}
	l := n - len(head) - len(tail)
	b := []byte(repeat("abcdefgh", l/8+1)[:l])
	one := head + string(b) + tail
	c := sym.Byte()
	sym.Assume(c >= 0x20 && c < 0x7f && c != '"' && c != '\\')
	b[place(l)] = c
	two := head + string(b) + tail
	for _, q := range []string{one, one, two, one, two} {
		p.ask(request{q: q}, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_ending: two documents of one length, up to 2049 (thorough 65600) bytes, that differ in their very last or very first tokens, with ignored bytes, a comment or a string in between. Bounds: 9 (thorough 16) lengths, 4 fillings, one of 9 characters in the name of the operation, of the first or the last field, of the fragment spread or behind the end.
func Run_C14_ending(p *cachePair) {
	n := cacheLen()
	if sym.Bool() {
		p.used.SetCacheRules(nil)
	}
	k, at := sym.Choose(4), sym.Choose(5)
	c := "aerAFG} #"[sym.Choose(9)]
	doc := func(x string) string {
		parts := []string{"A", "a", "r", "F", " "}
		parts[at] = x
		head := "query " + parts[0] + "{" + parts[1]
		tail := " " + parts[2] + " ..." + parts[3] + "}fragment F on WQ{e}" + parts[4]
		l := n - len(head) - len(tail)
		if l < 16 {
			return head + tail
		}
		switch k {
		case 0:
			return head + repeat(" ", l) + tail
		case 1:
			return head + "#" + repeat("x", l-2) + "\n" + tail
		case 2:
			return head + " m(a:\"" + repeat("y", l-8) + "\")" + tail
		}
		return head + repeat(" a", l/2) + repeat(" ", l%2) + tail
	}
	one, two := doc([]string{"A", "a", "r", "F", " "}[at]), doc(string([]byte{c}))
	for _, q := range []string{one, one, two, one, two} {
		p.ask(request{q: q, op: "A"}, "the cache changes an answer")
	}
	sym.Cover("same")
}

// Run_C14_names: names of operations of one length, up to 130 bytes, that differ in one letter anywhere, asked for in turns from one document. Bounds: 12 lengths, 29 places, one free byte.
func Run_C14_names(p *cachePair) {
	n := []int{2, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 130}[sym.Choose(12)]
	b := []byte(repeat("Operation", n/9+1)[:n])
	one := string(b)
	b[place(n)] = sym.Byte()
	two := string(b)
	q := "query " + one + "{a}mutation " + two + "{b(a:1)}query Other{r}"
	sym.Assume(nameByte(two[0]) && (two[0] < '0' || two[0] > '9'))
	for i := range two {
		sym.Assume(nameByte(two[i]))
	}
	for _, op := range []string{two, one, two, "Other", one, ""} {
		p.ask(request{q: q, op: op}, "the cache changes an answer")
	}
	sym.Cover("same")
}
