// Package models holds Go versions of assembly (or reflection based) standard
// library routines; the engine runs them in place of the originals.
package models

import (
	"context"
	"errors"
	"reflect"
	"strconv"
)

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Index(s, sep []byte) int { return IndexString(string(s), string(sep)) }

func IndexString(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}

func runes(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func StringsCount(s, sep string) int {
	if len(sep) == 0 {
		return runes(s) + 1
	}
	n := 0
	for {
		i := IndexString(s, sep)
		if i < 0 {
			return n
		}
		n++
		s = s[i+len(sep):]
	}
}

func BytesCount(s, sep []byte) int { return StringsCount(string(s), string(sep)) }

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func isUnwrap(e error) error {
	if u, ok := e.(interface{ Unwrap() error }); ok {
		return u.Unwrap()
	}
	return nil
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		err = isUnwrap(err)
	}
	return target == nil
}

// ErrorsAs is errors.As.
func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	if target == nil {
		panic("errors: target cannot be nil")
	}
	val := reflect.ValueOf(target)
	if val.Kind() != reflect.Ptr || val.IsNil() {
		panic("errors: target must be a non-nil pointer")
	}
	t := val.Type().Elem()
	if t.Kind() != reflect.Interface && !t.Implements(reflect.TypeOf((*error)(nil)).Elem()) {
		panic("errors: *target must be interface or implement error")
	}
	return errorsAs(err, target, val, t)
}

func errorsAs(err error, target any, val reflect.Value, t reflect.Type) bool {
	for err != nil {
		if reflect.TypeOf(err).AssignableTo(t) {
			val.Elem().Set(reflect.ValueOf(err))
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if e != nil && errorsAs(e, target, val, t) {
					return true
				}
			}
			return false
		}
		err = isUnwrap(err)
	}
	return false
}

func ErrorsUnwrap(err error) error { return isUnwrap(err) }

func Valid(b []byte) bool { return ValidString(string(b)) }

func cont(b byte) bool { return b&0xC0 == 0x80 }

func ValidString(s string) bool {
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c < 0x80:
			i++
		case c < 0xC2 || c > 0xF4:
			return false
		case c < 0xE0:
			if i+1 >= len(s) || !cont(s[i+1]) {
				return false
			}
			i += 2
		case c < 0xF0:
			if i+2 >= len(s) || !cont(s[i+1]) || !cont(s[i+2]) {
				return false
			}
			if c == 0xE0 && s[i+1] < 0xA0 {
				return false
			}
			if c == 0xED && s[i+1] > 0x9F {
				return false
			}
			i += 3
		default:
			if i+3 >= len(s) || !cont(s[i+1]) || !cont(s[i+2]) || !cont(s[i+3]) {
				return false
			}
			if c == 0xF0 && s[i+1] < 0x90 {
				return false
			}
			if c == 0xF4 && s[i+1] > 0x8F {
				return false
			}
			i += 4
		}
	}
	return true
}

type ctxValue struct {
	context.Context
	key, val any
}

func (c *ctxValue) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &ctxValue{parent, key, val}
}

const hexd = "0123456789abcdef"

// JSONString is encoding/json's string encoding (with HTML escaping).
func JSONString(s string) string {
	out := []byte{'"'}
	i := 0
	for i < len(s) {
		c := s[i]
		if c < 0x80 {
			i++
			switch {
			case c == '"' || c == '\\':
				out = append(out, '\\', c)
			case c == '\b':
				out = append(out, '\\', 'b')
			case c == '\f':
				out = append(out, '\\', 'f')
			case c == '\n':
				out = append(out, '\\', 'n')
			case c == '\r':
				out = append(out, '\\', 'r')
			case c == '\t':
				out = append(out, '\\', 't')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				out = append(out, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				out = append(out, c)
			}
			continue
		}
		n := 0
		r := rune(0)
		for k, x := range s[i:] {
			if k > 0 {
				n = k
				break
			}
			r = x
		}
		if n == 0 {
			n = len(s) - i
		}
		if r == 0xFFFD && n == 1 {
			out = append(out, '\\', 'u', 'f', 'f', 'f', 'd')
		} else if r == 0x2028 || r == 0x2029 {
			out = append(out, '\\', 'u', '2', '0', '2', hexd[r&15])
		} else {
			out = append(out, s[i:i+n]...)
		}
		i += n
	}
	return string(append(out, '"'))
}

// FmtU is fmt's %U (sharp: %#U).
func FmtU(r rune, sharp bool) string {
	const hex = "0123456789ABCDEF"
	u := uint32(r)
	var d []byte
	for s := 28; s >= 0; s -= 4 {
		if len(d) > 0 || u>>uint(s) != 0 || s < 16 {
			d = append(d, hex[u>>uint(s)&15])
		}
	}
	out := "U+" + string(d)
	if sharp && u <= 0x10ffff && strconv.IsPrint(r) {
		out += " '" + string(r) + "'"
	}
	return out
}

// ---- encoding/json.Unmarshal ----

type jsonDec struct {
	b []byte
	i int
}

var errJSON = errors.New("invalid JSON")
var errJSONType = errors.New("json: cannot unmarshal")

func (d *jsonDec) ws() {
	for d.i < len(d.b) && (d.b[d.i] == ' ' || d.b[d.i] == '\n' || d.b[d.i] == '\t' || d.b[d.i] == '\r') {
		d.i++
	}
}

func (d *jsonDec) eat(c byte) bool {
	d.ws()
	if d.i < len(d.b) && d.b[d.i] == c {
		d.i++
		return true
	}
	return false
}

func (d *jsonDec) word(w string) bool {
	if len(d.b)-d.i < len(w) || string(d.b[d.i:d.i+len(w)]) != w {
		return false
	}
	d.i += len(w)
	return true
}

func (d *jsonDec) hex4() (r rune, ok bool) {
	if d.i+4 > len(d.b) {
		return 0, false
	}
	for k := 0; k < 4; k++ {
		c := d.b[d.i]
		d.i++
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			return 0, false
		}
	}
	return r, true
}

func (d *jsonDec) str() (string, bool) {
	var out []byte
	for d.i < len(d.b) {
		c := d.b[d.i]
		d.i++
		switch {
		case c == '"':
			return toValid(string(out)), true
		case c < 0x20:
			return "", false
		case c != '\\':
			out = append(out, c)
		default:
			if d.i >= len(d.b) {
				return "", false
			}
			e := d.b[d.i]
			d.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := d.hex4()
				if !ok {
					return "", false
				}
				if r >= 0xD800 && r < 0xDC00 && d.i+6 <= len(d.b) && d.b[d.i] == '\\' && d.b[d.i+1] == 'u' {
					at := d.i
					d.i += 2
					r2, ok := d.hex4()
					if ok && r2 >= 0xDC00 && r2 < 0xE000 {
						r = (r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000
					} else {
						d.i = at
					}
				}
				out = append(out, string(r)...)
			default:
				return "", false
			}
		}
	}
	return "", false
}

// toValid replaces every byte that is no part of a character.
func toValid(s string) string {
	if ValidString(s) {
		return s
	}
	var out []byte
	for i := 0; i < len(s); {
		n := 1
		for n < 4 && i+n <= len(s) && !ValidString(s[i:i+n]) {
			n++
		}
		if i+n <= len(s) && ValidString(s[i:i+n]) {
			out = append(out, s[i:i+n]...)
			i += n
		} else {
			out = append(out, "\uFFFD"...)
			i++
		}
	}
	return string(out)
}

// value reads a value into v if it is valid; typ is set when a value does not fit.
func (d *jsonDec) value(v reflect.Value, typ *bool) bool {
	d.ws()
	if d.i >= len(d.b) {
		return false
	}
	use := v.IsValid()
	c := d.b[d.i]
	if c == 'n' {
		if !d.word("null") {
			return false
		}
		if use {
			switch v.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
				v.Set(reflect.Zero(v.Type()))
			}
		}
		return true
	}
	for use && v.Kind() == reflect.Ptr {
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	k := reflect.Invalid
	if use {
		k = v.Kind()
		switch k {
		case reflect.Struct, reflect.Slice, reflect.String, reflect.Bool:
		default:
			panic("no model of json.Unmarshal into this kind")
		}
	}
	fits := func(want reflect.Kind) bool {
		if use && k != want {
			*typ = true
		}
		return use && k == want
	}
	switch c {
	case '"':
		d.i++
		s, ok := d.str()
		if ok && fits(reflect.String) {
			v.SetString(s)
		}
		return ok
	case 't', 'f':
		w := map[byte]string{'t': "true", 'f': "false"}[c]
		if !d.word(w) {
			return false
		}
		if fits(reflect.Bool) {
			v.SetBool(c == 't')
		}
		return true
	case '[':
		d.i++
		fit := fits(reflect.Slice)
		if fit {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
		if d.eat(']') {
			return true
		}
		for {
			var e reflect.Value
			if fit {
				e = reflect.New(v.Type().Elem()).Elem()
			}
			if !d.value(e, typ) {
				return false
			}
			if fit {
				v.Set(reflect.Append(v, e))
			}
			if d.eat(']') {
				return true
			}
			if !d.eat(',') {
				return false
			}
		}
	case '{':
		d.i++
		fit := fits(reflect.Struct)
		if d.eat('}') {
			return true
		}
		for {
			if !d.eat('"') {
				return false
			}
			name, ok := d.str()
			if !ok || !d.eat(':') {
				return false
			}
			var e reflect.Value
			if fit {
				e = jsonField(v, name)
			}
			if !d.value(e, typ) {
				return false
			}
			if d.eat('}') {
				return true
			}
			if !d.eat(',') {
				return false
			}
		}
	}
	// a number
	at := d.i
	if c == '-' {
		d.i++
	}
	n := d.i
	for d.i < len(d.b) && d.b[d.i] >= '0' && d.b[d.i] <= '9' {
		d.i++
	}
	if d.i == n || d.b[n] == '0' && d.i > n+1 {
		return false
	}
	if d.i < len(d.b) && d.b[d.i] == '.' {
		d.i++
		f := d.i
		for d.i < len(d.b) && d.b[d.i] >= '0' && d.b[d.i] <= '9' {
			d.i++
		}
		if d.i == f {
			return false
		}
	}
	if d.i < len(d.b) && (d.b[d.i] == 'e' || d.b[d.i] == 'E') {
		d.i++
		if d.i < len(d.b) && (d.b[d.i] == '+' || d.b[d.i] == '-') {
			d.i++
		}
		f := d.i
		for d.i < len(d.b) && d.b[d.i] >= '0' && d.b[d.i] <= '9' {
			d.i++
		}
		if d.i == f {
			return false
		}
	}
	_ = at
	fits(reflect.Int)
	return true
}

// jsonField is the field of a struct a member of an object belongs to.
func jsonField(v reflect.Value, name string) reflect.Value {
	t := v.Type()
	var fold reflect.Value
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		n := f.Tag.Get("json")
		for k := 0; k < len(n); k++ {
			if n[k] == ',' {
				n = n[:k]
				break
			}
		}
		if n == "-" {
			continue
		}
		if n == "" {
			n = f.Name
		}
		if n == name {
			return v.Field(i)
		}
		if !fold.IsValid() && len(n) == len(name) && foldASCII(n, name) {
			fold = v.Field(i)
		}
	}
	return fold
}

func foldASCII(a, b string) bool {
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		if y >= 'A' && y <= 'Z' {
			y += 32
		}
		if x != y {
			return false
		}
	}
	return true
}

func JSONUnmarshal(b []byte, v any) error {
	// the whole text is checked first
	d := &jsonDec{b: b}
	typ := false
	if !d.value(reflect.Value{}, &typ) {
		return errJSON
	}
	d.ws()
	if d.i != len(b) {
		return errJSON
	}
	d = &jsonDec{b: b}
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr || rv.IsNil() {
		return errJSONType
	}
	d.value(rv.Elem(), &typ)
	if typ {
		return errJSONType
	}
	return nil
}
