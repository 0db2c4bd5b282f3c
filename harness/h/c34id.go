package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// idFits reports whether a value is of the listed type.
func idFits(v *jv, t string) bool {
	if v.k == 'n' {
		return len(t) == 0 || t[len(t)-1] != '!'
	}
	if len(t) > 0 && t[len(t)-1] == '!' {
		t = t[:len(t)-1]
	}
	if len(t) > 0 && t[0] == '[' {
		if v.k != 'a' {
			return false
		}
		for _, e := range v.vals {
			if !idFits(e, t[1:len(t)-1]) {
				return false
			}
		}
		return true
	}
	switch t {
	case "ID", "String", "Time":
		return v.k == 's'
	case "Int", "Float":
		return v.k == '0'
	case "Boolean":
		return v.k == 't' || v.k == 'f'
	case "idEnum", "idEnumS":
		return v.isStr("E1") || v.isStr("S1")
	case "idObj":
		return v.k == 'o'
	}
	return false
}

// Run_C34_idmark: whatever is marked as id is refused, or is listed with a type that its values have and whose values can be given; strings and integers so marked are ids. Bounds: 29 kinds of value, marked as plain field, function field, resolver with the id result, argument and member of an argument; values with one free digit given as literal, variable and default.
func Run_C34_idmark() {
	k := idKinds[sym.Choose(len(idKinds))]
	place := sym.Choose(5)
	root := []interface{}{k.out, k.fn, k.res, k.in, k.mem}[place]
	s := yarql.NewSchema()
	s.MaxDepth = 30
	if _, err := s.RegisterEnum(map[string]idEnum{"E1": 1}); err != nil {
		panic(err.Error())
	}
	if _, err := s.RegisterEnum(map[string]idEnumS{"S1": "s"}); err != nil {
		panic(err.Error())
	}
	isInt := false
	switch k.t {
	case "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "idOwn", "*string", "*int", "**string":
		isInt = true
	}
	if err := s.Parse(root, NoM{}, nil); err != nil {
		sym.Assert(!isInt, "a string or integer is refused as id")
		sym.Cover("refused")
		return
	}
	sym.Cover("accepted")
	doc := exec(s, "{__schema{queryType{fields{name type{"+typeRef(6)+"}args{name type{"+typeRef(6)+"}}}}types{name inputFields{name type{"+typeRef(6)+"}}}}}")
	sym.Assert(!doc.failed(), "introspection fails")
	f := member(doc.data.get("__schema").get("queryType").get("fields"), "v")
	sym.Assert(f != nil, "a marked field is not listed")
	out := typeText(f.get("type"))
	b, _ := base(f.get("type"))
	if place < 3 {
		if isInt {
			sym.Assert(b.get("name").isStr("ID"), "a value marked as id is not listed as id")
		}
		sel := ""
		if b.get("kind").isStr("OBJECT") {
			sel = "{a}"
		}
		r := exec(s, "{v"+sel+"}")
		sym.Assert(!r.failed(), "a marked field fails")
		sym.Assert(idFits(r.data.get("v"), out), "a marked value is not of its listed type")
		sym.Cover("out")
		return
	}
	a := f.get("args").at(0)
	pre, post := "{v(v:", ")}"
	if place == 4 {
		b, _ = base(a.get("type"))
		pre, post = "{v(o:{v:", "})}"
		a = nil
		for _, t := range doc.data.get("__schema").get("types").vals {
			if t.get("name").s == b.get("name").s {
				a = t.get("inputFields").at(0)
			}
		}
	}
	sym.Assert(a != nil, "a marked argument is not listed")
	tn := typeText(a.get("type"))
	b, _ = base(a.get("type"))
	if isInt {
		sym.Assert(b.get("name").isStr("ID"), "an argument marked as id is not listed as id")
	}
	if k.arg == "" {
		return
	}
	x := []byte(k.arg)
	id := b.get("name").isStr("ID")
	digit := sym.StrOf(1, "0123456789")
	txt, str := "", ""
	for i := range x {
		switch {
		case x[i] != '#':
			txt += string(x[i : i+1])
			str += string(x[i : i+1])
		case id && x[0] != '"' && x[0] != '[':
			txt += digit
			str += "\"" + digit + "\""
		default:
			txt += digit
			str += digit
		}
	}
	if b.get("kind").isStr("ENUM") {
		str = "\"" + str + "\""
	}
	var r *resp
	switch sym.Choose(3) {
	case 0:
		lit := txt
		if id {
			lit = str
		}
		r = exec(s, pre+lit+post)
	case 1:
		r = execVars(s, "query($v:"+tn+")"+pre+"$v"+post, "{\"v\":"+str+"}")
	default:
		lit := txt
		if id {
			lit = str
		}
		r = exec(s, "query($v:"+tn+"="+lit+")"+pre+"$v"+post)
	}
	sym.Assert(!r.failed(), "a value of the listed type is refused")
	got := knText(r.data.get("v"))
	want := txt
	if b.get("kind").isStr("ENUM") {
		want = str
	}
	sym.Assert(got == want, "a marked argument arrives as something else")
	sym.Cover("in")
}
