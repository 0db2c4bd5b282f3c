package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type NameEnum uint8

type NameIn struct {
	A   int
	Ab  int
	ABC *NameIn `gq:"abc"`
	B1  int
}

type NameObj struct {
	A  int
	Ab int
	B  int
}

type NameQ struct {
	A    int
	Ab   int
	Abc  int
	B    int
	Obj  NameObj
	Zz_1 int
}

func (NameQ) ResolveM(a struct {
	A  int
	Ab int
	C  NameEnum
	D  NameIn
	E  []NameEnum
}) int {
	nameGot = a.A*1 + a.Ab*10 + int(a.C)*100 + a.D.A*1000 + a.D.Ab*10000 + a.D.B1*100000
	nameEnums = a.E
	return nameGot
}

var nameGot int
var nameEnums []NameEnum

type names struct{ s *yarql.Schema }

func buildNames() *yarql.Schema {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]NameEnum{"R": 1, "RE": 2, "RED": 3, "r": 4}); err != nil {
		panic(err.Error())
	}
	return parse(s, NameQ{A: 1, Ab: 2, Abc: 3, B: 4, Obj: NameObj{A: 5, Ab: 6, B: 7}, Zz_1: 8}, NoM{})
}

func Setup_names() *names { return &names{buildNames()} }

// lookup gives the value a name stands for, or -1.
func lookup(name string, ks []string, vs []int) int {
	for i, k := range ks {
		if k == name {
			return vs[i]
		}
	}
	return -1
}

// Run_C08_field: a field name resolves to its own field or is an error.
func Run_C08_field(st *names) {
	n := 1 + sym.Choose(3+sym.Tier())
	name := symName(n)
	var r *resp
	var want int
	if sym.Bool() {
		r = exec(st.s, "{b "+name+" z:ab}")
		want = lookup(name, []string{"a", "ab", "abc", "b", "zz_1"}, []int{1, 2, 3, 4, 8})
		if name == "m" {
			want = 0
		}
		sym.Assume(name != "z")
	} else {
		r = exec(st.s, "{obj{"+name+"}b}")
		want = lookup(name, []string{"a", "ab", "b"}, []int{5, 6, 7})
	}
	if want < 0 {
		sym.Assert(r.failed(), "an unknown field was answered")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed(), "a known field was refused")
	v := r.data.get(name)
	if o := r.data.get("obj"); o != nil {
		v = o.get(name)
	}
	sym.Assert(v.isNum(itoa(want)), "a field was answered with the value of another")
	sym.Cover("known")
}

// Run_C08_hash: names that share the hash of a known field with it.
func Run_C08_hash(st *names) {
	// some endings of these give the hash of a field above
	pre := []string{"ytrcf", "mgwrb", "igghu", "rbrlj", "igghk", "nivhu"}[sym.Choose(6)]
	name := ""
	if sym.Tier() > 0 {
		name = pre[:4] + symName(3)
	} else {
		name = pre + symName(2)
	}
	in := "{" + name + " b}"
	if sym.Bool() {
		in = "{obj{" + name + "}b}"
	}
	r := exec(st.s, in)
	sym.Assert(r.failed(), "an unknown field was answered")
	sym.Cover("unknown")
}

type clashA struct {
	A int
	B int `gq:"ytrcfzk"`
}

type clashB struct {
	B int `gq:"ytrcfzk"`
	A int
}

type clashC struct{ A int }

func (clashC) ResolveYtrcfzk() int { return 2 }

// Run_C08_clash: two fields whose names share a hash are both reachable, or the schema is refused.
func Run_C08_clash() {
	var q interface{}
	switch sym.Choose(3) {
	case 0:
		q = clashA{1, 2}
	case 1:
		q = clashB{2, 1}
	default:
		q = clashC{1}
	}
	s := yarql.NewSchema()
	if err := s.Parse(q, NoM{}, nil); err != nil {
		sym.Cover("refused")
		return
	}
	r := exec(s, "{a ytrcfzk}")
	sym.Assert(!r.failed() && r.data.get("a").isNum("1") && r.data.get("ytrcfzk").isNum("2"), "a field is hidden by another one")
}

// Run_C08_arg: names of arguments, input members and enum values.
func Run_C08_arg(st *names) {
	n := 1 + sym.Choose(2+sym.Tier())
	name := symName(n)
	nameGot, nameEnums = -1, nil
	var r *resp
	want := -1
	switch sym.Choose(8) {
	case 0:
		r = exec(st.s, "{m("+name+":1)}")
		want = lookup(name, []string{"a", "ab"}, []int{1, 10})
		sym.Assume(name != "c" && name != "d" && name != "e")
	case 1:
		r = exec(st.s, "{m(d:{"+name+":1})}")
		want = lookup(name, []string{"a", "ab", "B1"}, []int{1000, 10000, 100000})
		sym.Assume(name != "abc")
	case 2:
		r = exec(st.s, "{m(c:"+name+")}")
		want = lookup(name, []string{"R", "RE", "RED", "r"}, []int{100, 200, 300, 400})
	case 3:
		r = execVars(st.s, "query($v:NameEnum){m(c:$v)}", "{\"v\":\""+name+"\"}")
		want = lookup(name, []string{"R", "RE", "RED", "r"}, []int{100, 200, 300, 400})
	case 4:
		r = execVars(st.s, "query($v:NameIn){m(d:$v)}", "{\"v\":{\""+name+"\":1}}")
		want = lookup(name, []string{"a", "ab", "B1"}, []int{1000, 10000, 100000})
		sym.Assume(name != "abc")
	case 5:
		r = exec(st.s, "{m(d:{abc:{"+name+":1}ab:2})}")
		want = 20000
		if lookup(name, []string{"a", "ab", "B1"}, []int{1, 1, 1}) < 0 {
			want = -1
		}
		sym.Assume(name != "abc")
	case 6:
		r = exec(st.s, "{m(e:[R "+name+"])}")
		want = lookup(name, []string{"R", "RE", "RED", "r"}, []int{1, 2, 3, 4})
		if want >= 0 {
			sym.Assert(!r.failed() && len(nameEnums) == 2 && int(nameEnums[1]) == want && nameEnums[0] == 1, "wrong enum value in a list")
			sym.Cover("known")
			return
		}
	default:
		// the name of the variable
		r = execVars(st.s, "query($v:Int=1,$vv:Int=2,$Vv:Int=3){m(a:$"+name+")}", "")
		want = lookup(name, []string{"v", "vv", "Vv"}, []int{1, 2, 3})
	}
	if want < 0 {
		// null is a literal of its own
		if name == "null" || name == "true" || name == "false" {
			return
		}
		sym.Assert(r.failed() && nameGot == -1, "an unknown name was accepted")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed(), "a known name was refused")
	sym.Assert(nameGot == want && r.data.get("m").isNum(itoa(want)), "a name resolved to another item")
	sym.Cover("known")
}

// Run_C08_words: keywords, directives and fragments by name.
func Run_C08_words(st *names) {
	w := []byte([]string{"query", "mutation", "fragment", "on", "skip", "include", "Frag", "subscription", "...F"}[sym.Choose(9)])
	orig := string(w)
	switch sym.Choose(3) {
	case 0: // another byte in one place
		i := sym.Choose(len(w))
		c := sym.Byte()
		sym.Assume(nameByte(c) && c != w[i])
		w[i] = c
	case 1: // one more
		c := sym.Byte()
		sym.Assume(nameByte(c))
		w = append(w, c)
	default: // one less
		w = w[:len(w)-1]
	}
	x := string(w)
	q := ""
	switch orig {
	case "query":
		q = x + " Q{a}"
	case "mutation", "subscription":
		q = "{a}" + x + " Q{nothing}"
	case "fragment":
		q = "{a}" + x + " F on NameQ{b}"
	case "on":
		if sym.Bool() {
			q = "{a}fragment F " + x + " NameQ{b}"
		} else {
			q = "{a ..." + x + " NameQ{b}}"
		}
	case "skip":
		q = "{a@" + x + "(if:false)b}"
	case "include":
		q = "{a b...F@" + x + "(if:true)}fragment F on NameQ{ab}"
	case "Frag":
		q = "{..." + x + "}fragment Frag on NameQ{a}"
	default:
		q = "{" + x + "}fragment Frag on NameQ{a}"
	}
	r := exec(st.s, q)
	sym.Assert(r.failed(), "a misspelled word was accepted")
	sym.Cover("unknown")
}

// Run_C08_near: every name next to one that is defined (__typename, __schema, __type and fields of a root or a nested object): up to two bytes (thorough: three) at any place replaced, inserted or left out. Only the defined names are answered, with their own value.
func Run_C08_near(st *names) {
	base := []string{"__typename", "__schema{types{name}}", "__type(name:\"NameQ\"){name}", "abc", "zz_1", "typename"}[sym.Choose(6)]
	name, rest := base, ""
	for i := range base {
		if !nameByte(base[i]) {
			name, rest = base[:i], base[i:]
			break
		}
	}
	i := sym.Choose(len(name) + 1)
	cut := sym.Choose(3 + sym.Tier())
	if i+cut > len(name) {
		sym.Assume(false)
	}
	put := ""
	if n := sym.Choose(3 + sym.Tier()); n > 0 {
		put = sym.Str(n)
		for k := range put {
			sym.Assume(nameByte(put[k]))
		}
	}
	name = name[:i] + put + name[i+cut:]
	sym.Assume(name != "" && name[0] > '9' && name != "b" && name != "z")
	inObj := sym.Bool()
	var r *resp
	if inObj {
		r = exec(st.s, "{obj{z:b x:"+name+rest+"}b}")
	} else {
		r = exec(st.s, "{z:b x:"+name+rest+" b}")
	}
	d := r.data
	want := ""
	if inObj {
		d = d.get("obj")
		switch name {
		case "a":
			want = "5"
		case "ab":
			want = "6"
		case "__typename":
			want = "\"NameObj\""
		}
		if rest != "" {
			want = ""
		}
	} else if rest == "" {
		if v := lookup(name, []string{"a", "ab", "abc", "zz_1"}, []int{1, 2, 3, 8}); v >= 0 {
			want = itoa(v)
		} else if name == "__typename" {
			want = "\"NameQ\""
		} else if name == "m" {
			want = "0"
		}
	} else if name == "__schema" && rest[0] == '{' {
		sym.Assert(!r.failed() && len(r.data.get("x").get("types").vals) > 5, "a known field was refused")
		return
	} else if name == "__type" && rest[0] == '(' {
		want = "{\"name\":\"NameQ\"}"
	}
	if want == "" {
		sym.Assert(r.failed(), "an unknown field was answered")
		v := d.get("x")
		if v != nil {
			sym.Assert(v.isNull(), "an unknown field was answered")
		}
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed() && d.get("x").String() == want, "a field was answered with the value of another")
	sym.Cover("known")
}
