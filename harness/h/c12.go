package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

var opLog string

type OpQ struct{ A string }

func (OpQ) ResolveB(a struct{ N string }) string { opLog += "q" + a.N + ";"; return "q" + a.N }

type OpM struct{ X int }

func (OpM) ResolveB(a struct{ N string }) string { opLog += "m" + a.N + ";"; return "m" + a.N }

type opState struct{ s *yarql.Schema }

func Setup_op() *opState { return &opState{build(OpQ{A: "qa"}, OpM{X: 3})} }

// Run_C12_named: exactly the operation with the requested name runs, on its own root.
func Run_C12_named(st *opState) {
	n := 2 + sym.Tier()
	var nms, kinds []string
	q := ""
	anon := -1
	if sym.Bool() {
		anon = sym.Choose(n)
	}
	for i := 0; i < n; i++ {
		if i == anon {
			q += "{b(n:\"anon\")}"
		}
		nm := symName(1 + i)
		k := []string{"query", "mutation"}[sym.Choose(2)]
		nms, kinds = append(nms, nm), append(kinds, k)
		q += k + " " + nm
		if sym.Bool() {
			q += "($v:String=\"" + itoa(i) + "\")"
			q += "{b(n:$v)}"
		} else {
			q += "{b(n:\"" + itoa(i) + "\")}"
		}
	}
	target := symName(1 + sym.Choose(n))
	q += " fragment " + target + " on OpQ{a}"
	opLog = ""
	r := execOpt(st.s, q, yarql.ResolveOptions{OperatorTarget: target})
	want := -1
	for i := range nms {
		if nms[i] == target {
			want = i
		}
	}
	if want < 0 {
		sym.Assert(r.failed() && opLog == "", "an unknown operation name ran something")
		sym.Cover("unknown")
		return
	}
	w := kinds[want][:1] + itoa(want)
	sym.Assert(!r.failed() && opLog == w+";" && r.raw == "{\"data\":{\"b\":\""+w+"\"}}", "another operation ran")
	sym.Cover("ran")
}

// Run_C12_single: a single operation runs with and without a name, on its own root.
func Run_C12_single(st *opState) {
	k := sym.Choose(4)
	head := []string{"", "query", "query " + symName(1), "mutation"}[k]
	opLog = ""
	v := sym.StrOf(1, "abc")
	r := exec(st.s, head+"{b(n:\""+v+"\")}")
	w := "q" + v
	if k == 3 {
		w = "m" + v
	}
	sym.Assert(!r.failed() && opLog == w+";" && r.raw == "{\"data\":{\"b\":\""+w+"\"}}", "the operation did not run on its root")
	if k == 3 {
		r = exec(st.s, "mutation{a}")
		sym.Assert(r.failed(), "a query field was reached by a mutation")
		r = exec(st.s, "mutation{x}")
		sym.Assert(!r.failed() && r.data.get("x").isNum("3"), "mutation root")
	} else {
		r = exec(st.s, head+"{x}")
		sym.Assert(r.failed(), "a mutation field was reached by a query")
	}
	sym.Cover("ran")
}

// Run_C12_unnamed: of several operations, exactly the last one runs if no name is asked for. Bounds: 2 (thorough 3) operations of any kind, named (1 free byte) or not, in any order with fragments.
func Run_C12_unnamed(st *opState) {
	n := 2 + sym.Tier()
	frag := sym.Choose(n + 2)
	q, w, nms := "", "", ""
	for i := 0; i < n; i++ {
		if frag == i {
			q += "fragment F on OpQ{a}"
		}
		k := sym.Choose(4)
		head := []string{"", "query", "query ", "mutation "}[k]
		if k > 1 {
			nm := symName(1)
			sym.Assume(len(nms) == 0 || nm[0] != nms[0])
			nms = nm
			head += nm
		}
		if k == 0 && i > 0 {
			q += " "
		}
		q += head + "{b(n:\"" + itoa(i) + "\")}"
		w = "q" + itoa(i)
		if k == 3 {
			w = "m" + itoa(i)
		}
	}
	if frag == n {
		q += "fragment F on OpQ{a}"
	}
	opLog = ""
	r := exec(st.s, q)
	sym.Assert(!r.failed() && opLog == w+";" && r.raw == "{\"data\":{\"b\":\""+w+"\"}}", "another operation than the last one ran")
	sym.Cover("ran")
}

// Run_C12_order: the fields of an operation run one after the other as written.
func Run_C12_order(st *opState) {
	n := 3
	a := sym.StrOf(n, "abc")
	op := []string{"query", "mutation"}[sym.Choose(2)]
	q, want := op+"{", ""
	for i := 0; i < n; i++ {
		q += "k" + itoa(i) + ":b(n:\"" + a[i:i+1] + "\")"
		want += op[:1] + a[i:i+1] + ";"
	}
	opLog = ""
	r := exec(st.s, q+"}")
	sym.Assert(!r.failed() && opLog == want, "fields ran in another order or number than written")
	sym.Cover("ran")
}

// Run_C12_subscription: subscriptions are refused without running anything.
func Run_C12_subscription(st *opState) {
	opLog = ""
	nm := symName(1)
	r := execOpt(st.s, "query Q1{b(n:\"1\")}subscription "+nm+"{b(n:\"2\")}", yarql.ResolveOptions{OperatorTarget: nm})
	sym.Assert(r.failed() && opLog == "", "a subscription ran something")
	sym.Cover("refused")
}
