package h

import (
	"strconv"

	"github.com/mjarkk/yarql"

	_ "yarqlverif/harness/models"
	"yarqlverif/harness/sym"
)

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func itoa(n int) string { return strconv.Itoa(n) }

// jv is a decoded JSON value. k is one of n t f 0 s a o; a number keeps its text in s.
type jv struct {
	k    byte
	s    string
	keys []string
	vals []*jv
}

type jp struct {
	b   string
	i   int
	bad bool
}

func (p *jp) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\n' || p.b[p.i] == '\r' || p.b[p.i] == '\t') {
		p.i++
	}
}

func (p *jp) fail() *jv {
	p.bad = true
	return &jv{k: '!'}
}

func (p *jp) lit(w string, k byte) *jv {
	if len(p.b)-p.i < len(w) || p.b[p.i:p.i+len(w)] != w {
		return p.fail()
	}
	p.i += len(w)
	return &jv{k: k}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jp) hex4() int {
	if len(p.b)-p.i < 4 {
		p.bad = true
		return 0
	}
	n := 0
	for k := 0; k < 4; k++ {
		h := hexv(p.b[p.i+k])
		if h < 0 {
			p.bad = true
			return 0
		}
		n = n<<4 | h
	}
	p.i += 4
	return n
}

// utf8len gives the length of the valid UTF-8 sequence at s[i], 0 if there is none.
func utf8len(s string, i int) int {
	c := s[i]
	n := 0
	lo, hi := byte(0x80), byte(0xbf)
	switch {
	case c < 0x80:
		return 1
	case c < 0xc2:
		return 0
	case c < 0xe0:
		n = 2
	case c < 0xf0:
		n = 3
		if c == 0xe0 {
			lo = 0xa0
		} else if c == 0xed {
			hi = 0x9f
		}
	case c < 0xf5:
		n = 4
		if c == 0xf0 {
			lo = 0x90
		} else if c == 0xf4 {
			hi = 0x8f
		}
	default:
		return 0
	}
	if i+n > len(s) {
		return 0
	}
	if s[i+1] < lo || s[i+1] > hi {
		return 0
	}
	for k := 2; k < n; k++ {
		if s[i+k] < 0x80 || s[i+k] > 0xbf {
			return 0
		}
	}
	return n
}

func putRune(b []byte, r int) []byte {
	switch {
	case r < 0x80:
		return append(b, byte(r))
	case r < 0x800:
		return append(b, byte(0xc0|r>>6), byte(0x80|r&0x3f))
	case r < 0x10000:
		return append(b, byte(0xe0|r>>12), byte(0x80|r>>6&0x3f), byte(0x80|r&0x3f))
	}
	return append(b, byte(0xf0|r>>18), byte(0x80|r>>12&0x3f), byte(0x80|r>>6&0x3f), byte(0x80|r&0x3f))
}

func (p *jp) str() string {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		p.bad = true
		return ""
	}
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			p.bad = true
			return ""
		}
		c := p.b[p.i]
		if c == '"' {
			p.i++
			return string(out)
		}
		if c < 0x20 {
			p.bad = true
			return ""
		}
		if c != '\\' {
			n := utf8len(p.b, p.i)
			if n == 0 {
				p.bad = true
				return ""
			}
			out = append(out, p.b[p.i:p.i+n]...)
			p.i += n
			continue
		}
		p.i++
		if p.i >= len(p.b) {
			p.bad = true
			return ""
		}
		c = p.b[p.i]
		p.i++
		switch c {
		case '"', '\\', '/':
			out = append(out, c)
		case 'b':
			out = append(out, 8)
		case 'f':
			out = append(out, 12)
		case 'n':
			out = append(out, 10)
		case 'r':
			out = append(out, 13)
		case 't':
			out = append(out, 9)
		case 'u':
			r := p.hex4()
			if p.bad {
				return ""
			}
			if r >= 0xd800 && r < 0xe000 {
				// surrogates only make sense in pairs
				if r < 0xdc00 && len(p.b)-p.i >= 6 && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
					p.i += 2
					r2 := p.hex4()
					if r2 >= 0xdc00 && r2 < 0xe000 {
						r = 0x10000 + (r-0xd800)<<10 + (r2 - 0xdc00)
					} else {
						p.bad = true
						return ""
					}
				} else {
					p.bad = true
					return ""
				}
			}
			out = putRune(out, r)
		default:
			p.bad = true
			return ""
		}
	}
}

func (p *jp) digits() int {
	n := 0
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
		n++
	}
	return n
}

func (p *jp) num() *jv {
	st := p.i
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i >= len(p.b) {
		return p.fail()
	}
	if p.b[p.i] == '0' {
		p.i++
	} else if p.digits() == 0 {
		return p.fail()
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if p.digits() == 0 {
			return p.fail()
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if p.digits() == 0 {
			return p.fail()
		}
	}
	return &jv{k: '0', s: p.b[st:p.i]}
}

func (p *jp) value() *jv {
	p.ws()
	if p.i >= len(p.b) {
		return p.fail()
	}
	switch c := p.b[p.i]; c {
	case 'n':
		return p.lit("null", 'n')
	case 't':
		return p.lit("true", 't')
	case 'f':
		return p.lit("false", 'f')
	case '"':
		return &jv{k: 's', s: p.str()}
	case '[':
		p.i++
		v := &jv{k: 'a'}
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return v
		}
		for {
			v.vals = append(v.vals, p.value())
			if p.bad {
				return v
			}
			p.ws()
			if p.i >= len(p.b) {
				return p.fail()
			}
			c := p.b[p.i]
			p.i++
			if c == ']' {
				return v
			}
			if c != ',' {
				return p.fail()
			}
		}
	case '{':
		p.i++
		v := &jv{k: 'o'}
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return v
		}
		for {
			p.ws()
			v.keys = append(v.keys, p.str())
			if p.bad {
				return v
			}
			p.ws()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return p.fail()
			}
			p.i++
			v.vals = append(v.vals, p.value())
			if p.bad {
				return v
			}
			p.ws()
			if p.i >= len(p.b) {
				return p.fail()
			}
			c := p.b[p.i]
			p.i++
			if c == '}' {
				return v
			}
			if c != ',' {
				return p.fail()
			}
		}
	default:
		if c == '-' || (c >= '0' && c <= '9') {
			return p.num()
		}
	}
	return p.fail()
}

// parseJSON decodes a JSON document.
func parseJSON(b string) (*jv, bool) {
	p := &jp{b: b}
	v := p.value()
	p.ws()
	if p.i != len(p.b) {
		p.bad = true
	}
	return v, !p.bad
}

// get is the member of an object (nil if there is none).
func (v *jv) get(key string) *jv {
	if v == nil || v.k != 'o' {
		return nil
	}
	for i, k := range v.keys {
		if k == key {
			return v.vals[i]
		}
	}
	return nil
}

func (v *jv) at(i int) *jv {
	if v == nil || v.k != 'a' || i >= len(v.vals) {
		return nil
	}
	return v.vals[i]
}

// list is the elements of an array, none if there is none.
func (v *jv) list() []*jv {
	if v == nil {
		return nil
	}
	return v.vals
}

func (v *jv) isStr(s string) bool { return v != nil && v.k == 's' && v.s == s }
func (v *jv) isNum(s string) bool { return v != nil && v.k == '0' && v.s == s }
func (v *jv) isNull() bool        { return v != nil && v.k == 'n' }

func quote(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c < 0x20:
			b = append(b, '\\', 'u', '0', '0', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}

func (v *jv) put(b []byte) []byte {
	if v == nil {
		return append(b, '?')
	}
	switch v.k {
	case 'n':
		return append(b, "null"...)
	case 't':
		return append(b, "true"...)
	case 'f':
		return append(b, "false"...)
	case '0':
		return append(b, v.s...)
	case 's':
		return quote(b, v.s)
	case 'a':
		b = append(b, '[')
		for i, e := range v.vals {
			if i > 0 {
				b = append(b, ',')
			}
			b = e.put(b)
		}
		return append(b, ']')
	case 'o':
		b = append(b, '{')
		for i, e := range v.vals {
			if i > 0 {
				b = append(b, ',')
			}
			b = quote(b, v.keys[i])
			b = append(b, ':')
			b = e.put(b)
		}
		return append(b, '}')
	}
	return append(b, '!')
}

func (v *jv) String() string { return string(v.put(nil)) }

// resp is the answer to one request.
type resp struct {
	raw  string
	v    *jv
	data *jv
	errs []error
}

// errText is the messages of all errors.
func (r *resp) errText() string {
	s := ""
	for _, e := range r.errs {
		s += e.Error() + "\n"
	}
	return s
}

func (r *resp) failed() bool { return len(r.errs) != 0 }

// checkResponse asserts what holds for every response.
func checkResponse(raw string, errs []error, tracing bool) *resp {
	v, ok := parseJSON(raw)
	sym.Assert(ok, "the response is not valid JSON")
	sym.Assert(v.k == 'o', "the response is not an object")
	sym.Assert(len(v.keys) > 0 && v.keys[0] == "data", "the response has no data member")
	d := v.vals[0]
	sym.Assert(d.k == 'o', "data is not an object")
	e := v.get("errors")
	if len(errs) == 0 {
		sym.Assert(e == nil, "errors member without errors")
	} else {
		sym.Assert(e != nil && e.k == 'a', "errors without an errors member")
		sym.Assert(len(e.vals) == len(errs), "errors member and returned errors differ in number")
		for i, x := range e.vals {
			m := x.get("message")
			sym.Assert(m != nil && m.k == 's', "an error without message")
			_ = i
		}
	}
	for i, k := range v.keys {
		for j := 0; j < i; j++ {
			sym.Assert(v.keys[j] != k, "duplicate response member")
		}
	}
	return &resp{raw: raw, v: v, data: d, errs: errs}
}

func execOpt(s *yarql.Schema, q string, o yarql.ResolveOptions) *resp {
	sym.Debug("query", q)
	if o.Variables != "" {
		sym.Debug("variables", o.Variables)
	}
	if o.OperatorTarget != "" {
		sym.Debug("operation", o.OperatorTarget)
	}
	errs := s.Resolve([]byte(q), o)
	sym.Debug("response", string(s.Result))
	return checkResponse(string(s.Result), errs, o.Tracing)
}

func exec(s *yarql.Schema, q string) *resp { return execOpt(s, q, yarql.ResolveOptions{}) }

func execVars(s *yarql.Schema, q, vars string) *resp {
	return execOpt(s, q, yarql.ResolveOptions{Variables: vars})
}

// build makes a schema out of a query and a mutation root.
func build(q, m interface{}) *yarql.Schema {
	s := yarql.NewSchema()
	return parse(s, q, m)
}

func parse(s *yarql.Schema, q, m interface{}) *yarql.Schema {
	if err := s.Parse(q, m, nil); err != nil {
		panic("schema: " + err.Error())
	}
	return s
}

// NoM is an empty mutation root.
type NoM struct{}

func u(n uint64) string  { return strconv.FormatUint(n, 10) }
func i64(n int64) string { return strconv.FormatInt(n, 10) }

func assertc(c bool, msg string) { sym.Assert(c, msg) }

// fresh runs the query on the schema and returns the answer as text plus the error messages.
func answer(s *yarql.Schema, q string, o yarql.ResolveOptions) string {
	r := execOpt(s, q, o)
	return r.raw + "\n" + r.errText()
}
