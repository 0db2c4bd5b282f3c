package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type fmtDoc struct {
	toks     []string
	op, vars string
}

// Documents as token lists; together they hold every kind of token next to every kind of construct.
var fmtDocs = []fmtDoc{
	{toks: []string{"query", "q", "(", "$", "a", ":", "[", "Int", "!", "]", "!", "=", "[", "1", "2", "]", "$", "b", ":", "String", "=", "\"s\"", ")", "{",
		"m", "(", "c", ":", "$", "a", "a", ":", "$", "b", "b", ":", "-3", "d", ":", "true", "f", ":", "YY", ")", "}"}},
	{toks: []string{"{", "m", "(", "e", ":", "{", "a", ":", "\"z\"", "c", ":", "[", "{", "d", ":", "1", "}", "{", "}", "]", "}", "i", ":", "1.5", "o", ":", "null",
		"k", ":", "[", "\"a\"", "null", "]", "l", ":", "[", "[", "]", "]", "a", ":", "\"\"\"b\"\"\"", ")", "a", "}"}},
	{toks: []string{"{", "x", ":", "b", "{", "a", "@", "skip", "(", "if", ":", "false", ")", "...", "F", "@", "include", "(", "if", ":", "true", ")", "...", "on", "WObj", "@", "include", "(", "if", ":", "true", ")",
		"{", "z", ":", "a", "}", "}", "__typename", "}", "fragment", "F", "on", "WObj", "{", "m", "(", "a", ":", "\"t\"", ")", "}"}},
	{toks: []string{"query", "Q", "{", "a", "}", "mutation", "M", "{", "b", "(", "a", ":", "1", ")", "a", "}", "subscription", "S", "{", "a", "}"}, op: "M"},
	{toks: []string{"query", "(", "$", "v", ":", "WIn", ",", "$", "w", ":", "[", "[", "String", "]", "]", ")", "{", "m", "(", "e", ":", "$", "v", "l", ":", "$", "w", ")", "...", "on", "WQ", "{", "r", "}", "}"},
		vars: "{\"v\":{\"a\":\"x\"},\"w\":[[\"p\"],[]]}"},
}

func nameByte(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}

// needsGap tells whether two tokens run together without something between them.
func needsGap(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if x == '"' && y == '"' {
		return true
	}
	return (nameByte(x) || x == '.' && a != "...") && (nameByte(y) || y == '-' || y == '.' && !nameByte(x))
}

// joinDoc writes the tokens with fill at boundary k (-1: nowhere).
func joinDoc(toks []string, k int, fill string) string {
	q := ""
	for i, t := range toks {
		if i == k {
			q += fill
		} else if i > 0 && needsGap(toks[i-1], t) {
			q += " "
		}
		q += t
	}
	if k == len(toks) {
		q += fill
	}
	return q
}

func ignorable(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',' }

// Run_C06_fill: ignored bytes at every token boundary; any other byte that starts no token is rejected.
func Run_C06_fill(w *wild) {
	d := fmtDocs[sym.Choose(len(fmtDocs))]
	k := sym.Choose(len(d.toks) + 1)
	o := yarql.ResolveOptions{OperatorTarget: d.op, Variables: d.vars}
	want := execOpt(w.s, joinDoc(d.toks, -1, ""), o)
	sym.Assert(!want.failed(), "the compact document is refused")
	wantGot := wGot.A + u(uint64(wGot.N)) + itoa(len(wGot.C))

	c := sym.Byte()
	fill := ""
	switch sym.Choose(3) {
	case 0:
		fill = string([]byte{c})
	case 1:
		c2 := sym.Byte()
		sym.Assume(ignorable(c2))
		fill = string([]byte{c, c2})
	default:
		// a comment ends at the next line break
		b := sym.Byte()
		e := sym.Pick("\n\r")
		sym.Assume(ignorable(c) && b != '\n' && b != '\r')
		fill = string([]byte{c, '#', b, e})
		if sym.Tier() > 0 {
			b2 := sym.Byte()
			sym.Assume(b2 != '\n' && b2 != '\r')
			fill = string([]byte{'#', b, b2, e, c})
		}
	}
	r := execOpt(w.s, joinDoc(d.toks, k, fill), o)
	if ignorable(c) {
		sym.Assert(!r.failed(), "ignored bytes make a document invalid")
		sym.Assert(r.raw == want.raw, "ignored bytes change the answer")
		sym.Assert(wGot.A+u(uint64(wGot.N))+itoa(len(wGot.C)) == wantGot, "ignored bytes change the arguments")
		sym.Cover("same")
		return
	}
	if c < 0x20 || c > 0x7e || c == ';' || c == '%' || c == '^' || c == '~' || c == '`' || c == '\\' || c == '\'' || c == '?' || c == '*' || c == '/' || c == '<' || c == '>' {
		sym.Assert(r.failed(), "a byte that is no part of the language was skipped")
		sym.Cover("rejected")
	}
}

// Run_C06_tail: comments at the end of the document, and comments holding anything.
func Run_C06_tail(w *wild) {
	b := sym.UpTo(0, 3+sym.Tier())
	for i := 0; i < len(b); i++ {
		sym.Assume(b[i] != '\n' && b[i] != '\r')
	}
	var q string
	switch sym.Choose(4) {
	case 0:
		q = "{a}#" + b
	case 1:
		q = "#" + b + "\n{a}"
	case 2:
		q = "{#" + b + "\ra}"
	default:
		q = "{a#" + b + "\r\n}"
	}
	r := exec(w.s, q)
	sym.Assert(!r.failed(), "a comment makes a document invalid")
	sym.Assert(r.data.get("a").isStr("x\"y") && len(r.data.keys) == 1, "a comment changes the answer")
	sym.Cover("same")
}

// Run_C06_strings: the ignored bytes are kept inside strings.
func Run_C06_strings(w *wild) {
	s := sym.StrOf(2+sym.Tier(), " \t,#a")
	q := "{m(a:\"" + s + "\")}"
	r := exec(w.s, q)
	sym.Assert(!r.failed() && wGot.A == s, "ignored bytes inside a string are lost")
	sym.Cover("same")
}
