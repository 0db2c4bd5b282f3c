package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

type dirState struct{ s *yarql.Schema }

func Setup_dir() *dirState {
	s := yarql.NewSchema()
	err := s.RegisterDirective(yarql.Directive{
		Name:  "hideOdd",
		Where: []yarql.DirectiveLocation{yarql.DirectiveLocationField, yarql.DirectiveLocationFragmentInline},
		Method: func(a struct {
			N int
			S string
		}) yarql.DirectiveModifier {
			return yarql.DirectiveModifier{Skip: a.N%2 == 1 || a.S == "odd"}
		},
	})
	if err != nil {
		panic(err.Error())
	}
	return &dirState{parse(s, selValue(), NoM{})}
}

type dirItem struct {
	pre, post, key, want string
}

var dirItems = []dirItem{
	{"num", "", "num", "-7"},
	{"k:num", "", "k", "-7"},
	{"arg(n:4)", "", "arg", "4"},
	{"k:arg(n:4)", "", "k", "4"},
	{"leaf", "{v}", "leaf", "{\"v\":1}"},
	{"list", "{v}", "list", "[{\"v\":3},{\"v\":4}]"},
	{"__typename", "", "__typename", "\"SelQ\""},
	{"...on SelQ", "{num}", "num", "-7"},
	{"...F", " ", "num", "-7"},
	{"...on SelQ", "{...F}", "num", "-7"},
	{"ifc", "{v}", "ifc", "{\"v\":5}"},
	{"methList", "{w}", "methList", "[{\"w\":\"leaf\"},{\"w\":\"ml\"}]"},
}

// condition gives one directive, and whether the item stays.
func condition(i int) (text string, keep bool, defs, vars string) {
	kind := sym.Bool()
	val := sym.Bool()
	word := "false"
	if val {
		word = "true"
	}
	name := "skip"
	keep = !val
	if kind {
		name = "include"
		keep = val
	}
	v := "v" + itoa(i)
	switch sym.Choose(4) {
	case 0:
		return "@" + name + "(if:" + word + ")", keep, "", ""
	case 1:
		return " @" + name + "(if:$" + v + ")", keep, "$" + v + ":Boolean ", "\"" + v + "\":" + word
	case 2:
		return "@" + name + "(if:$" + v + ")", keep, "$" + v + ":Boolean!=" + word, ""
	}
	// the value supplied wins over the default
	return "@" + name + "(if:$" + v + ")", keep, "$" + v + ":Boolean=" + map[bool]string{true: "false", false: "true"}[val], "\"" + v + "\":" + word
}

// Run_C10_conditions: one or two conditions on every kind of item.
func Run_C10_conditions(st *dirState) {
	it := dirItems[sym.Choose(len(dirItems))]
	n := 1 + sym.Choose(2)
	keep := true
	dirs, defs, vars := "", "", ""
	for i := 0; i < n; i++ {
		t, k, d, v := condition(i)
		dirs += t
		defs += d
		if vars != "" && v != "" {
			vars += ","
		}
		vars += v
		keep = keep && k
	}
	q := "{str " + it.pre + dirs + it.post + " last:arr}"
	if defs != "" {
		q = "query(" + defs + ")" + q
	}
	r := execVars(st.s, q+"fragment F on SelQ{num}", "{"+vars+"}")
	want := "{\"str\":\"str\","
	if keep {
		want += "\"" + it.key + "\":" + it.want + ","
		sym.Cover("kept")
	} else {
		sym.Cover("left out")
	}
	sym.Assert(!r.failed(), "a valid condition failed")
	sym.Assert(r.raw == "{\"data\":"+want+"\"last\":[8,9]}}", "a condition does not decide exactly its own item")
}

// Run_C10_many: several items with conditions next to each other and inside each other.
func Run_C10_many(st *dirState) {
	n := 3 + sym.Tier()
	q, want := "{", ""
	for i := 0; i < n; i++ {
		t, keep, _, _ := "", true, "", ""
		switch sym.Choose(3) {
		case 0:
		case 1:
			b := sym.Bool()
			t, keep = "@skip(if:"+map[bool]string{true: "true", false: "false"}[b]+")", !b
		default:
			b := sym.Bool()
			t, keep = "@include(if:"+map[bool]string{true: "true", false: "false"}[b]+")", b
		}
		k := "k" + itoa(i)
		w := "-7"
		if i == 1 {
			q += k + ":leaf" + t + "{v" + "@include(if:true)" + " w@skip(if:true)}"
			w = "{\"v\":1}"
		} else if i == 2 {
			q += "...on SelQ" + t + "{" + k + ":num}"
		} else {
			q += k + ":num" + t + " "
		}
		if keep {
			if want != "" {
				want += ","
			}
			want += "\"" + k + "\":" + w
		}
	}
	r := exec(st.s, q+"}")
	sym.Assert(!r.failed() && r.raw == "{\"data\":{"+want+"}}", "conditions do not decide exactly their own items")
	sym.Cover("kept")
}

var badConds = []string{"\"true\"", "\"\"", "X", "[true]", "{}", "{a:true}", "1.5", "$nope", "$s", "$u"}

// Run_C10_bad: conditions that are not booleans, and arguments and directives that do not exist.
func Run_C10_bad(st *dirState) {
	it := dirItems[sym.Choose(len(dirItems))]
	name := []string{"skip", "include"}[sym.Choose(2)]
	d := ""
	k := sym.Choose(len(badConds) + 2)
	if k < len(badConds) {
		d = "@" + name + "(if:" + badConds[k] + ")"
	} else if k == len(badConds) {
		a := symName(2)
		sym.Assume(a != "if")
		d = "@" + name + "(" + a + ":true)"
	} else {
		a := symName(4)
		sym.Assume(a != "skip")
		d = "@" + a + "(if:true)"
	}
	r := execVars(st.s, "query($s:String=\"x\",$u:Boolean){str "+it.pre+d+it.post+"}fragment F on SelQ{num}", "{\"s\":\"true\"}")
	sym.Assert(r.failed(), "a condition that is no boolean was accepted")
	sym.Assert(r.data.get("str").isStr("str"), "the item before is affected")
	sym.Cover("rejected")
}

// Run_C10_custom: a registered directive gets its arguments and decides its item, only where it was registered.
func Run_C10_custom(st *dirState) {
	d := sym.StrOf(1, "0123456789")
	odd := (d[0]-'0')%2 == 1
	switch sym.Choose(4) {
	case 0:
		r := exec(st.s, "{str num@hideOdd(n:"+d+")arr}")
		sym.Assert(!r.failed() && (r.data.get("num") == nil) == odd && r.data.get("arr") != nil, "custom directive")
	case 1:
		r := execVars(st.s, "query($n:Int){str ...on SelQ@hideOdd(n:$n){num}arr}", "{\"n\":"+d+"}")
		sym.Assert(!r.failed() && (r.data.get("num") == nil) == odd && r.data.get("arr") != nil, "custom directive")
	case 2:
		r := exec(st.s, "{str leaf@hideOdd(n:"+d+",s:\"even\")@skip(if:false){v}arr}")
		sym.Assert(!r.failed() && (r.data.get("leaf") == nil) == odd && r.data.get("arr") != nil, "custom directive")
	default:
		r := exec(st.s, "{str ...F@hideOdd(n:"+d+")arr}fragment F on SelQ{num}")
		sym.Assert(r.failed(), "a directive was accepted where it is not registered")
	}
	sym.Cover("custom")
}

// Run_C10_text: any word as condition.
func Run_C10_text(st *dirState) {
	w := symName(4 + sym.Choose(2))
	name := []string{"skip", "include"}[sym.Choose(2)]
	al := symName(1)
	r := exec(st.s, "{str "+al+":num@"+name+"(if:"+w+")arr}")
	v := r.data.get(al)
	switch {
	case w == "true" || w == "false":
		sym.Assert(!r.failed() && (v != nil) == ((w == "true") == (name == "include")), "a condition does not decide its item")
		sym.Assert(r.data.get("arr") != nil && r.data.get("str") != nil, "the items around a condition are affected")
		sym.Cover("decided")
	case w == "null":
	default:
		sym.Assert(r.failed(), "a condition that is no boolean was accepted")
		sym.Cover("rejected")
	}
}

// Run_C10_places: conditions in front of the arguments of a field and behind them, one free byte of an argument.
func Run_C10_places(st *dirState) {
	d := sym.StrOf(1, "0123456789")
	keep := true
	side := func(max int) string {
		t := ""
		for n := sym.Choose(max + 1); n > 0; n-- {
			b := sym.Bool()
			word := "false"
			if b {
				word = "true"
			}
			switch sym.Choose(3) {
			case 0:
				t += "@skip(if:" + word + ")"
				keep = keep && !b
			case 1:
				t += "@include(if:$" + word[:1] + ")"
				keep = keep && b
			default:
				t += " @hideOdd(s:\"" + map[bool]string{true: "even", false: "odd"}[b] + "\" n:2)"
				keep = keep && b
			}
		}
		return t
	}
	before := side(1 + sym.Tier())
	q := "{str k:arg" + before + "(n:" + d + ")" + side(2) + " last:arr}"
	r := execVars(st.s, "query($t:Boolean=true,$f:Boolean=false)"+q, "")
	want := "{\"str\":\"str\","
	if keep {
		want += "\"k\":" + d + ","
		sym.Cover("kept")
	} else {
		sym.Cover("left out")
	}
	sym.Assert(!r.failed() && r.raw == "{\"data\":"+want+"\"last\":[8,9]}}", "a condition does not decide exactly its own item")
}

// dirTree writes a selection and what it adds to the answer.
type dirTree struct {
	left, n int // items that may follow, names given
	defs    string
}

// cond is a condition on an argument of any digit.
func (t *dirTree) cond() (string, bool) {
	d := sym.StrOf(1, "0123456789")
	return "@hideOdd(n:" + d + ")", (d[0]-'0')%2 == 0
}

func (t *dirTree) body(depth int, live bool, want *[]string) string {
	q := "{"
	for t.left > 0 {
		k := sym.Choose(6)
		if k == 0 || depth == 0 && k > 2 {
			// the end of this selection
			if k > 0 {
				sym.Assume(false)
			}
			break
		}
		t.left--
		t.n++
		n := "k" + itoa(t.n)
		switch k {
		case 1:
			q += n + ":num "
			if live {
				*want = append(*want, "\""+n+"\":-7")
			}
		case 2:
			c, keep := t.cond()
			q += n + ":num" + c + " "
			if live && keep {
				*want = append(*want, "\""+n+"\":-7")
			}
		case 3:
			c, keep := t.cond()
			q += "...on SelQ" + c + t.body(depth-1, live && keep, want)
		case 4:
			on := []string{"SelQ@skip(if:true)", "Other", "SelQ"}[t.n%3]
			q += "...on " + on + t.body(depth-1, live && on == "SelQ", want)
		default:
			skip := t.n%2 == 0
			q += "...F" + itoa(t.n) + map[bool]string{true: "@include(if:false)", false: "@include(if:true)"}[skip] + " "
			def := "fragment F" + itoa(t.n) + " on SelQ"
			def += t.body(depth-1, live && !skip, want)
			t.defs += def
		}
	}
	return q + "}"
}

// Run_C10_tree: a selection of up to three items (thorough: four) at up to three levels: fields kept or left out, inline and named fragments kept, left out or of another type, empty ones among them, in any order; traced or not: exactly the kept fields are answered, in their order.
func Run_C10_tree(st *dirState) {
	t := &dirTree{left: 3 + sym.Tier(), n: sym.Choose(3)}
	var want []string
	q := t.body(2, true, &want) + t.defs
	w := "{"
	for i, x := range want {
		if i > 0 {
			w += ","
		}
		w += x
	}
	r := execOpt(st.s, q, yarql.ResolveOptions{Tracing: sym.Bool()})
	sym.Assert(!r.failed() && r.data.String() == w+"}", "conditions do not decide exactly their own items")
	if len(want) == 0 {
		sym.Cover("empty")
	} else {
		sym.Cover("kept")
	}
}
