package h

import (
	"github.com/mjarkk/yarql"
	"github.com/mjarkk/yarql/bytecode"

	"yarqlverif/harness/sym"
)

// alien is a byte that can be part of no token outside of strings and comments.
func alien(c byte) bool {
	return c < 0x20 && !ignorable(c) || c > 0x7e || c == ';' || c == '%' || c == '^' || c == '~' || c == '`' || c == '\\' || c == '\'' || c == '?' || c == '*' || c == '/' || c == '<' || c == '>'
}

// breaks are bytes a document can have between tokens, with different line breaks.
var breaks = []string{"", " ", "\n", "\r", "\r\n", "\n\r", "#x\n", "\t,\n\n", "\r\r\n"}

// errAt asserts the position of the first error of a document.
func errAt(p *bytecode.ParserCtx, q string, n int, what string) {
	sym.Assert(len(p.Errors) > 0, "an invalid document is accepted")
	le, ok := p.Errors[0].(bytecode.ErrorWLocation)
	sym.Assert(ok, "syntax error without a position")
	l, c := lineCol(q, n)
	sym.Assert(int(le.Line) == l, what+": wrong line")
	sym.Assert(int(le.Column) == c, what+": wrong column")
}

// Run_C25_alien: a byte that is no part of the language at any token boundary of the documents of C06, with symbolic line breaks before it: the error names the line and column of that byte.
func Run_C25_alien() {
	d := fmtDocs[sym.Choose(len(fmtDocs))]
	k := sym.Choose(len(d.toks) + 1)
	f1 := breaks[sym.Choose(len(breaks))]
	f2 := sym.UpToOf(0, 2, " \n\r\t,")
	c := sym.Byte()
	sym.Assume(alien(c))
	j := k / 2
	q := ""
	at := -1
	for i := 0; i <= len(d.toks); i++ {
		if i > 0 && i < len(d.toks) && needsGap(d.toks[i-1], d.toks[i]) {
			q += " "
		}
		if i == j {
			q += f1
		}
		if i == k {
			q += f2
			at = len(q)
			q += string([]byte{c}) // one byte
		}
		if i < len(d.toks) {
			q += d.toks[i]
		}
	}
	p := bytecode.NewParserCtx()
	parseOn(p, q)
	errAt(p, q, at, "a byte that is no part of the language")
	sym.Assert(len(p.Errors) == 1, "more than one error for one wrong byte")
	sym.Cover("located")
}

// Run_C25_eof: a document that ends after any of its tokens is reported at its end.
func Run_C25_eof() {
	d := fmtDocs[sym.Choose(len(fmtDocs))]
	k := 1 + sym.Choose(len(d.toks)-1)
	f1 := breaks[sym.Choose(len(breaks))]
	f2 := sym.UpToOf(0, 2, " \n\r\t,")
	j := k / 2
	q := ""
	open := 0
	for i := 0; i < k; i++ {
		if i > 0 && needsGap(d.toks[i-1], d.toks[i]) {
			q += " "
		}
		if i == j {
			q += f1
		}
		q += d.toks[i]
		switch d.toks[i] {
		case "{":
			open++
		case "}":
			open--
		}
	}
	q += f2
	sym.Assume(!(open == 0 && d.toks[k-1] == "}")) // complete
	p := bytecode.NewParserCtx()
	parseOn(p, q)
	errAt(p, q, len(q), "a document that ends too early")
	sym.Cover("located")
}

// Run_C25_strings: errors inside of strings are reported inside of the string (a line break or a wrong escape at its byte), an unfinished string at the end of the document.
func Run_C25_strings() {
	f := breaks[sym.Choose(len(breaks))]
	t := sym.UpTo(0, 2+sym.Tier())
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '"' && t[i] != '\\' && t[i] != '\n' && t[i] != '\r' && t[i] >= ' ')
	}
	pre := "{a" + f + "(b:\"" + t
	q, at := "", 0
	switch sym.Choose(5) {
	case 0:
		at = len(pre)
		q = pre + string([]byte{sym.Pick("\n\r")}) + "\")}"
		sym.Cover("line break")
	case 1:
		e := sym.Byte()
		sym.Assume(e != '"' && e != '\\' && e != '/' && e != 'b' && e != 'f' && e != 'n' && e != 'r' && e != 't' && e != 'u' && e >= ' ' && e < 0x7f)
		at = len(pre) + 1
		q = pre + "\\" + string([]byte{e}) + "\")}"
		sym.Cover("escape")
	case 2:
		q = pre
		at = len(q)
		sym.Cover("unfinished")
	case 3:
		q = "{a" + f + "(b:\"\"\"" + t + f
		at = len(q)
		sym.Cover("unfinished block")
	default:
		// whatever was written, an error behind a multi line block string is where it is
		c := sym.Byte()
		sym.Assume(alien(c))
		q = "{a(b:\"\"\"" + f + t + f + "\"\"\""
		at = len(q)
		q += string([]byte{c}) + ")}"
		sym.Cover("behind block")
	}
	p := bytecode.NewParserCtx()
	parseOn(p, q)
	errAt(p, q, at, "an error in a string")
}

// fillLines are lines without a token, with the number of lines they add.
var fillLines = []string{"\n", "\r\n", "\r", ",,\n", "#x\n", "\t \r", "#\"{\r\n"}

// Run_C25_shift: lines without tokens in front of any document (a frame with free bytes) move every reported line by their number and change nothing else.
func Run_C25_shift() {
	c := contexts[sym.Choose(len(contexts))]
	n := 1 + sym.Tier()
	if c[0] == "" {
		n++
	}
	hole := sym.UpTo(0, n)
	if c[0] == "" && len(hole) > 0 {
		sym.Assume(hole[0] != '\n')
	}
	q := c[0] + hole
	if sym.Choose(2) == 0 {
		q += c[1]
	}
	pre, lines := "", 1+sym.Choose(2)
	for i := 0; i < lines; i++ {
		l := fillLines[sym.Choose(len(fillLines))]
		if i > 0 && l[0] == '\n' {
			sym.Assume(pre[len(pre)-1] != '\r')
		}
		pre += l
	}
	p1, p2 := bytecode.NewParserCtx(), bytecode.NewParserCtx()
	parseOn(p1, q)
	parseOn(p2, pre+q)
	sym.Assert(len(p1.Errors) == len(p2.Errors), "lines in front of the document change the verdict")
	for i, e := range p1.Errors {
		a, ok1 := e.(bytecode.ErrorWLocation)
		b, ok2 := p2.Errors[i].(bytecode.ErrorWLocation)
		sym.Assert(ok1 && ok2, "syntax error without a position")
		sym.Assert(a.Error() == b.Error(), "lines in front of the document change the error")
		sym.Assert(int(b.Line) == int(a.Line)+lines, "lines in front of the document do not move the line of the error")
		sym.Assert(b.Column == a.Column, "lines in front of the document change the column of the error")
		sym.Cover("shifted")
	}
	if len(p1.Errors) == 0 {
		sym.Cover("valid")
	}
}

// Run_C25_response: the response gives the positions of the errors as they were found, and none for errors of resolvers.
func Run_C25_response(w *wild) {
	c := contexts[sym.Choose(len(contexts))]
	q := c[0] + breaks[sym.Choose(len(breaks))] + sym.UpTo(0, 1+sym.Tier()) + c[1]
	r := execOpt(w.s, q, yarql.ResolveOptions{Tracing: sym.Choose(2) == 1})
	if !r.failed() {
		sym.Cover("valid")
		return
	}
	es := r.v.get("errors")
	for i, e := range r.errs {
		locs := es.at(i).get("locations")
		le, ok := e.(bytecode.ErrorWLocation)
		if !ok {
			sym.Assert(locs == nil, "a position for an error that has none")
			sym.Cover("no position")
			continue
		}
		sym.Assert(locs != nil && locs.k == 'a' && len(locs.vals) == 1, "the position of an error is missing")
		sym.Assert(locs.at(0).get("line").isNum(itoa(int(le.Line))) && locs.at(0).get("column").isNum(itoa(int(le.Column))), "the response gives another position")
		sym.Assert(es.at(i).get("message").isStr(e.Error()) || !validUTF8(e.Error()), "the response gives another message")
		sym.Cover("position")
	}
}

func validUTF8(s string) bool {
	for i := 0; i < len(s); {
		n := utf8len(s, i)
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}
