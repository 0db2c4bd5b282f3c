package h

import (
	"github.com/mjarkk/yarql/bytecode"

	"yarqlverif/harness/sym"
)

// contexts are document frames around a hole of free bytes.
var contexts = [][2]string{
	{"", ""},
	{"{", "}"},
	{"{a", "}"},
	{"{a(", ")}"},
	{"{a(b:", ")}"},
	{"{a(b:\"", "\")}"},
	{"{a(b:\"\"\"", "\"\"\")}"},
	{"{a(b:\"\\u", "\")}"},
	{"{a(b:[", "])}"},
	{"{a(b:{", "})}"},
	{"{a(b:$", ")}"},
	{"{a(b:1", ")}"},
	{"{a(b:-", ")}"},
	{"{a{b", "}}"},
	{"{a:", "}"},
	{"{a@", "}"},
	{"{a@b(", ")}"},
	{"{...", "}"},
	{"{...{", "}}"},
	{"{...on A", "{b}}"},
	{"query", ""},
	{"query a", "{b}"},
	{"query a(", "){b}"},
	{"query($a:", "){b}"},
	{"query($a:[A", "){b}"},
	{"query($a:A=", "){b}"},
	{"query @a", "{b}"},
	{"fragment", ""},
	{"fragment a on ", "{b}"},
	{"fragment a on B", "{b}"},
	{"mutation", "{a}"},
	{"subscription", "{a}"},
	{"{a}", ""},
	{"#", "\n{a}"},
	{"{a#", "\n}"},
	{"{a(b:null", ")}"},
	{"{a(b:tru", ")}"},
	{"{a(b:{c:", "})}"},
	{"{a(b:[1", "])}"},
}

func parseOn(p *bytecode.ParserCtx, q string) {
	p.Query = append(p.Query[:0], q...)
	p.ParseQueryToBytecode(nil)
}

// lineCol is the position of the byte at n: lines and columns count from 1, and \r\n is one line break.
func lineCol(q string, n int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < n; i++ {
		switch {
		case q[i] == '\n' && i > 0 && q[i-1] == '\r':
		case q[i] == '\n' || q[i] == '\r':
			line++
			col = 1
		default:
			col++
		}
	}
	return
}

// checkErrPos asserts that every error has a position inside of the document or at its end.
func checkErrPos(p *bytecode.ParserCtx, q string) {
	last, _ := lineCol(q, len(q))
	for _, e := range p.Errors {
		le, ok := e.(bytecode.ErrorWLocation)
		sym.Assert(ok, "syntax error without a position")
		sym.Assert(e.Error() != "", "syntax error without text")
		sym.Assert(int(le.Line) >= 1 && int(le.Line) <= last, "error line outside of the document")
		sym.Assert(int(le.Column) >= 1 && int(le.Column) <= len(q)+1, "error column outside of the document")
	}
}

// Run_C01_frames: any bytes in a hole of a frame.
func Run_C01_frames() {
	c := contexts[sym.Choose(len(contexts))]
	n := 2 + sym.Tier()
	if c[0] == "" {
		n++
	}
	k := sym.Choose(n + 1)
	hole := sym.Str(k)
	q := c[0] + hole + c[1]
	if sym.Choose(2) == 1 {
		q = c[0] + hole // truncated document
	}
	p := bytecode.NewParserCtx()
	parseOn(p, q)
	if len(p.Errors) == 0 {
		sym.Cover("accepted")
		sym.Observe("res", string(p.Res))
	} else {
		sym.Cover("rejected")
		checkErrPos(p, q)
		sym.Observe("err", p.Errors[0].Error())
	}
	// the same bytes again on the used parser
	n1, r1 := len(p.Errors), clone(p.Res)
	parseOn(p, q)
	sym.Assert(len(p.Errors) == n1, "reparsing gives a different verdict")
	if n1 == 0 {
		sym.Assert(string(p.Res) == string(r1), "reparsing gives a different program")
	}
}

// fullDocs hold every construct of the language.
var fullDocs = []string{
	`query a($b:[A!]!={c:"\ud83d\ude00\n"},$d:E=.5@f){g:h@i(j:true)(k:$b)@l{m}}`,
	"fragment F on T@x(y:[1,-2.5e+3,ENUM]){a{...G@z}...on U@s(if:$v){b:c}}",
	"{a(b:\"\"\"x\n \\\"\"\" \"y\"\"\",c:\"\\\\\\u{1F600}\")#end\r\n,b}",
	"mutation m{a(o:{p:{q:[[],[{r:null}]]}})}subscription s{t}",
	"\ufeff{é(ü:\"ß€\U0001F600\")}",
	`{a(b:"\uD83D\uDE00\uD83D\u0041\/\b\f\t")}`,
}

// Run_C01_cut: a document cut off anywhere, or with bytes of any value put in or replaced anywhere.
func Run_C01_cut() {
	d := fullDocs[sym.Choose(len(fullDocs))]
	k := sym.Choose(len(d) + 1)
	n := sym.Choose(3 + sym.Tier())
	q := d[:k] + sym.Str(n)
	switch sym.Choose(3) {
	case 1:
		q += d[k:]
	case 2:
		if k+n > len(d) {
			return
		}
		q += d[k+n:]
	}
	p := bytecode.NewParserCtx()
	// nothing behind the end of the document
	p.Query = make([]byte, 0, len(q))
	parseOn(p, q)
	if len(p.Errors) == 0 {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
		checkErrPos(p, q)
	}
	sym.Observe("res", string(p.Res))
}
