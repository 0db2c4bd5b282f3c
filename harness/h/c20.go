package h

import (
	"context"
	"errors"
	"strings"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// A schema whose resolvers fail when their bit is set.

var (
	failBits uint32
	failText = "boom"
	failPath []string
)

func fails(bit int) error {
	if failBits>>uint(bit)&1 == 1 {
		return errors.New(failText + itoa(bit))
	}
	return nil
}

type FailQ struct {
	B string
	F func() (string, error)
}

type FailNode struct {
	ID int `gq:"n"`
	G  func() (*FailKid, error)
	V  FailIface
}

type FailKid struct{ ID int }

type FailIface interface{ ResolveY() (int, error) }

var _ = yarql.Implements((*FailIface)(nil), FailKid{})

// FailAt is an element of a long list, which fails at its place.
type FailAt struct{ I int }

var failAt = -1

func (e FailAt) ResolveE() (int, error) {
	if e.I == failAt {
		return 0, errors.New("boom")
	}
	return e.I, nil
}
func (FailQ) ResolveLong(a struct{ N, M int }) [][]FailAt {
	l := make([][]FailAt, a.N)
	for i := range l {
		for j := 0; j < a.M; j++ {
			l[i] = append(l[i], FailAt{i*a.M + j})
		}
	}
	return l
}

func (FailQ) ResolveA() (int, error) { return 7, fails(0) }
func (FailQ) ResolveObj() (*FailNode, error) {
	n := failNode(0)
	return &n, fails(1)
}
func (FailQ) ResolveList() ([]FailNode, error) { return []FailNode{failNode(0), failNode(1)}, fails(2) }
func (FailQ) ResolvePl() []*FailNode {
	n := failNode(1)
	return []*FailNode{&n, nil, &n}
}
func (FailQ) ResolveLl() ([][]FailNode, error) {
	return [][]FailNode{{failNode(0)}, nil, {failNode(1), failNode(0)}}, fails(3)
}
func failF() (string, error) { return "f", fails(4) }

func failNode(id int) FailNode {
	return FailNode{ID: id, G: func() (*FailKid, error) { return &FailKid{id}, fails(5) }, V: FailKid{1 - id}}
}

func (n FailNode) ResolveX() (string, error)    { return "x" + itoa(n.ID), fails(6 + n.ID) }
func (n FailNode) ResolveKid() (FailKid, error) { return FailKid{n.ID}, fails(8 + n.ID) }
func (n FailNode) ResolveKids() []FailKid       { return []FailKid{{0}, {1}} }
func (n FailNode) ResolveZ(c *yarql.Ctx, a struct{ N int }) (*int, error) {
	failPath = append(failPath, string(c.GetPath()))
	return &a.N, fails(10 + n.ID)
}
func (k FailKid) ResolveY() (int, error) { return k.ID, fails(12 + k.ID) }

type failState struct{ s *yarql.Schema }

func Setup_fail() *failState { return &failState{build(FailQ{B: "b", F: failF}, FailM{})} }

// FailM is a mutation root of the same kind.
type FailM struct{}

func (FailM) ResolveA() (int, error)           { return 7, fails(0) }
func (FailM) ResolveList() ([]FailNode, error) { return FailQ{}.ResolveList() }
func (FailM) ResolveB() string                 { return "b" }

// fsel is a selection for the oracle.
type fsel struct {
	key, name string
	subs      []fsel
}

func (s fsel) text() string {
	t := s.name
	if s.key != "" {
		t = s.key + ":" + s.name
	}
	if s.name == "z" {
		t += "(n:3)"
	}
	if s.subs != nil {
		t += "{"
		for i, e := range s.subs {
			if i > 0 {
				t += " "
			}
			t += e.text()
		}
		t += "}"
	}
	return t
}

// fora is the oracle: it writes the data and the errors that the answer has to have.
type fora struct {
	out   string
	errs  [][2]string
	paths []string
	bad   []string // the fields with the key "bad", which are refused
}

func (o *fora) fail(bit int, path string) bool {
	if fails(bit) == nil {
		return false
	}
	o.errs = append(o.errs, [2]string{"boom" + itoa(bit), "[" + path + "]"})
	o.out += "null"
	return true
}

func (o *fora) object(subs []fsel, path string, field func(s fsel, path string)) {
	o.out += "{"
	for i, s := range subs {
		k := s.key
		if k == "" {
			k = s.name
		}
		if i > 0 {
			o.out += ","
		}
		o.out += "\"" + k + "\":"
		p := "\"" + k + "\""
		if path != "" {
			p = path + "," + p
		}
		if s.key == "bad" {
			o.out += "\"?\""
			o.bad = append(o.bad, "["+p+"]")
			continue
		}
		field(s, p)
	}
	o.out += "}"
}

func (o *fora) kid(id int, subs []fsel, path string) {
	o.object(subs, path, func(s fsel, p string) {
		switch s.name {
		case "y":
			if !o.fail(12+id, p) {
				o.out += itoa(id)
			}
		case "ID":
			o.out += itoa(id)
		}
	})
}

func (o *fora) node(id int, subs []fsel, path string) {
	o.object(subs, path, func(s fsel, p string) {
		switch s.name {
		case "n":
			o.out += itoa(id)
		case "g":
			if !o.fail(5, p) {
				o.kid(id, s.subs, p)
			}
		case "v":
			o.kid(1-id, s.subs, p)
		case "x":
			if !o.fail(6+id, p) {
				o.out += "\"x" + itoa(id) + "\""
			}
		case "kid":
			if !o.fail(8+id, p) {
				o.kid(id, s.subs, p)
			}
		case "kids":
			o.out += "["
			o.kid(0, s.subs, p+",0")
			o.out += ","
			o.kid(1, s.subs, p+",1")
			o.out += "]"
		case "z":
			o.paths = append(o.paths, "["+p+"]")
			if !o.fail(10+id, p) {
				o.out += "3"
			}
		}
	})
}

func (o *fora) root(subs []fsel) {
	o.object(subs, "", func(s fsel, p string) {
		switch s.name {
		case "a":
			if !o.fail(0, p) {
				o.out += "7"
			}
		case "b":
			o.out += "\"b\""
		case "f":
			if !o.fail(4, p) {
				o.out += "\"f\""
			}
		case "obj":
			if !o.fail(1, p) {
				o.node(0, s.subs, p)
			}
		case "list":
			if !o.fail(2, p) {
				o.out += "["
				o.node(0, s.subs, p+",0")
				o.out += ","
				o.node(1, s.subs, p+",1")
				o.out += "]"
			}
		case "pl":
			o.out += "["
			o.node(1, s.subs, p+",0")
			o.out += ",null,"
			o.node(1, s.subs, p+",2")
			o.out += "]"
		case "ll":
			if !o.fail(3, p) {
				o.out += "[["
				o.node(0, s.subs, p+",0,0")
				o.out += "],null,["
				o.node(1, s.subs, p+",2,0")
				o.out += ","
				o.node(0, s.subs, p+",2,1")
				o.out += "]]"
			}
		}
	})
}

func failCheck(st *failState, head string, subs []fsel) {
	q := head + "{"
	for i, s := range subs {
		if i > 0 {
			q += " "
		}
		q += s.text()
	}
	failPath = nil
	r := exec(st.s, q+"}")
	o := &fora{}
	o.root(subs)
	sym.Assert(r.data.String() == o.out, "the fields around a failing resolver are affected")
	sym.Assert(len(r.errs) == len(o.errs), "not every failure is reported exactly once")
	for i, e := range o.errs {
		x := r.v.get("errors").at(i)
		sym.Assert(r.errs[i].Error() == e[0] && x.get("message").isStr(e[0]), "the message of a failure is changed")
		sym.Assert(x.get("path") != nil && x.get("path").String() == e[1], "the path of a failure is wrong")
		sym.Assert(x.get("locations") == nil, "a failure has a location")
	}
	sym.Assert(len(o.paths) == len(failPath), "a resolver did not run exactly once")
	for i, p := range o.paths {
		sym.Assert(failPath[i] == p, "a resolver is told another path")
	}
	if len(o.errs) > 0 {
		sym.Cover("failed")
	} else {
		sym.Cover("answered")
	}
}

func failKidSels() [][]fsel {
	return [][]fsel{{{"", "y", nil}}, {{"k", "y", nil}, {"", "ID", nil}, {"l", "y", nil}}}
}

// Run_C20_tree: any failure pattern of the resolvers of a tree, below symbolic aliases.
func Run_C20_tree(st *failState) {
	failBits = uint32(sym.Uint16())
	al := ""
	if sym.Bool() {
		al = symName(1)
		sym.Assume(al != "b" && al != "a" && al != "e")
	}
	kid := failKidSels()[sym.Choose(2)]
	inner := []fsel{}
	switch sym.Choose(5) {
	case 0:
		inner = []fsel{{"", "x", nil}, {"p", "kids", kid}, {"", "n", nil}}
	case 1:
		inner = []fsel{{"", "kid", kid}, {"", "g", kid}}
	case 2:
		inner = []fsel{{"", "z", nil}, {"", "v", kid}, {"w", "z", nil}}
	case 3:
		inner = []fsel{{"", "n", nil}, {"", "x", nil}, {"r", "x", nil}}
	default:
		inner = []fsel{{"", "v", kid}, {"", "kid", kid}}
	}
	top := []string{"obj", "list", "pl", "ll"}[sym.Choose(4)]
	subs := []fsel{{"", "b", nil}, {al, top, inner}, {"", "a", nil}, {"e", "b", nil}}
	head := ""
	if top == "list" && sym.Bool() {
		head = "mutation"
	}
	failCheck(st, head, subs)
}

// Run_C20_pairs: failing fields in every order next to each other.
func Run_C20_pairs(st *failState) {
	failBits = uint32(sym.Byte()) & 31
	n := 3 + sym.Tier()
	var subs []fsel
	for i := 0; i < n; i++ {
		k := []fsel{{"", "a", nil}, {"", "f", nil}, {"", "b", nil}, {"", "list", []fsel{{"", "n", nil}}}, {"", "obj", []fsel{{"", "n", nil}}}}[sym.Choose(5)]
		k.key = "k" + itoa(i)
		if i == 0 {
			k.key = symName(2)
			sym.Assume(k.key[0] != 'k')
		}
		subs = append(subs, k)
	}
	failCheck(st, "query ", subs)
}

// Run_C20_text: messages with any text, also at the end of a long message (up to 16 383 bytes, thorough 65 535), below any path.
func Run_C20_text(st *failState) {
	failText = sym.UpTo(0, 2+sym.Tier())
	if pad := []int{0, 63, 255, 1023, 4095, 16383, 65535}[sym.Choose(6+sym.Tier())]; pad > 0 {
		// a long message
		failText = strings.Repeat("m", pad) + failText
	}
	defer func() { failText = "boom" }()
	failBits = 1<<6 | 1<<13
	r := exec(st.s, "{b list{x kids{y}}a}")
	want := replaced(failText)
	sym.Assert(len(r.errs) == 3, "not every failure is reported exactly once")
	for i, p := range []string{"6 [\"list\",0,\"x\"]", "13 [\"list\",0,\"kids\",1,\"y\"]", "13 [\"list\",1,\"kids\",1,\"y\"]"} {
		_ = i
		found := 0
		for _, e := range r.v.get("errors").vals {
			m := e.get("message")
			for j := 0; j < len(p); j++ {
				if p[j] == ' ' {
					if m.isStr(want+p[:j]) && e.get("path").String() == p[j+1:] {
						found++
					}
					break
				}
			}
		}
		sym.Assert(found == 1, "the message or path of a failure is changed")
	}
	sym.Cover("failed")
}

type endedCtx struct{ context.Context }

func (endedCtx) Err() error { return errors.New("ended") }

// Run_C20_ended: a context that has ended makes every resolver fail, and nothing else.
func Run_C20_ended(st *failState) {
	failBits = uint32(sym.Byte()) & 1
	al := symName(1)
	sym.Assume(al != "b")
	r := execOpt(st.s, "{b "+al+":a}", yarql.ResolveOptions{Context: endedCtx{context.Background()}})
	sym.Assert(r.data.String() == "{\"b\":\"b\",\""+al+"\":null}", "the fields around a failing resolver are affected")
	want := "ended"
	if failBits == 1 {
		want = "boom0"
	}
	sym.Assert(len(r.errs) == 1 && r.v.get("errors").at(0).get("message").isStr(want) && r.v.get("errors").at(0).get("path").String() == "[\""+al+"\"]", "the end of the context is not reported")
	sym.Cover("failed")
}

// Run_C20_index: one failing element of a long list, at the places where a number gets another digit and around the bounds of a byte, in the outer or the inner list: one error, with the path of that element; all others are answered.
func Run_C20_index(st *failState) {
	failBits = 0
	at := []int{0, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257}[sym.Choose(9+2*sym.Tier())]
	if at == 11 {
		at += sym.Conc(sym.Range(0, 20))
	}
	n, m, first, second := at+2, 1, at, 0
	switch sym.Choose(3) {
	case 1:
		n, m, first, second = 1, at+2, 0, at
	case 2:
		n, m = at/2+1, 2
		first, second = at/2, at%2
	}
	failAt = at
	defer func() { failAt = -1 }()
	r := exec(st.s, "{b k:long(n:"+itoa(n)+",m:"+itoa(m)+"){e i}a}")
	l := r.data.get("k")
	sym.Assert(l != nil && len(l.vals) == n, "a list has another length")
	for i, in := range l.vals {
		sym.Assert(len(in.vals) == m, "a list has another length")
		for j, e := range in.vals {
			k := i*m + j
			sym.Assert(e.get("i").isNum(itoa(k)), "another element at a place of a list")
			if k == at {
				sym.Assert(e.get("e").isNull(), "a failing element has a value")
			} else {
				sym.Assert(e.get("e").isNum(itoa(k)), "the fields around a failing resolver are affected")
			}
		}
	}
	es := r.v.get("errors")
	sym.Assert(len(r.errs) == 1 && len(es.vals) == 1, "not every failure is reported exactly once")
	sym.Assert(es.at(0).get("path").String() == "[\"k\","+itoa(first)+","+itoa(second)+",\"e\"]", "the path of a failure is wrong")
	sym.Cover("failed")
}

// partOf tells whether an answer that ends early in places is a part of the full one, in which "?" stands for what is refused.
func partOf(got, want *jv) bool {
	if want.k == 's' && want.s == "?" {
		return got.isNull()
	}
	if got.k != want.k {
		return false
	}
	switch got.k {
	case 'o':
		if len(got.keys) > len(want.keys) {
			return false
		}
		for i, k := range got.keys {
			if want.keys[i] != k || !partOf(got.vals[i], want.vals[i]) {
				return false
			}
		}
		return true
	case 'a':
		if len(got.vals) != len(want.vals) {
			return false
		}
		for i, v := range got.vals {
			if !partOf(v, want.vals[i]) {
				return false
			}
		}
		return true
	}
	return got.s == want.s
}

// Run_C20_refused: a part of the request that is refused while it is answered (unknown field, argument or directive, an argument of another kind, a missing selection or one too many) at any place of a selection inside objects, lists, lists of lists, lists of pointers and values behind interfaces, with failing resolvers next to it: every error has the path of its own field, no field twice, and whatever is answered before, next to and after it has its own value.
func Run_C20_refused(st *failState) {
	failBits = 0
	if sym.Bool() {
		failBits = uint32(sym.Uint16())
		if sym.Tier() == 0 {
			failBits &= 1<<5 | 1<<7 | 1<<12
		}
	}
	bad := fsel{"bad", []string{"zz", "z(n:true)", "z(zz:1)", "n{n}", "kid", "x@zz", "x(n:1)", "w", "ID"}[sym.Choose(9)], nil}
	inKid := sym.Bool()
	kid := []fsel{{"", "ID", nil}, {"", "y", nil}}
	in := []fsel{{"", "x", nil}, {"", "n", nil}}
	at := sym.Choose(3)
	top := []string{"obj", "list", "pl", "ll"}[sym.Choose(4)]
	if inKid {
		if bad.name == "ID" || bad.name == "kid" || bad.name[0] == 'z' && len(bad.name) > 2 {
			bad.name = "y{y}"
		}
		kid = append(kid[:at:at], append([]fsel{bad}, kid[at:]...)...)
		in = append(in, []fsel{{"", "kids", kid}, {"", "g", kid}, {"", "v", kid}}[sym.Choose(3)], fsel{"", "z", nil})
	} else {
		in = append(in[:at:at], append([]fsel{bad}, in[at:]...)...)
		in = append(in, fsel{"", "kids", kid}, fsel{"", "v", kid})
	}
	subs := []fsel{{"", "b", nil}, {"k", top, in}, {"", "a", nil}, {"", "list", []fsel{{"", "n", nil}, {"", "x", nil}}}, {"e", "b", nil}}
	q := "{"
	for _, s := range subs {
		q += s.text() + " "
	}
	failPath = nil
	r := exec(st.s, q+"}")
	o := &fora{}
	o.root(subs)
	want, ok := parseJSON(o.out)
	sym.Assert(ok && partOf(r.data, want), "the fields around a refused one have other values")
	refused := 0
	var seen []string
	for i, e := range r.v.get("errors").list() {
		p := e.get("path").String()
		for _, x := range seen {
			sym.Assert(x != p, "one field has two errors")
		}
		seen = append(seen, p)
		own := false
		for _, x := range o.bad {
			if x == p {
				own = true
				refused++
			}
		}
		for _, x := range o.errs {
			if x[1] == p && e.get("message").isStr(x[0]) && r.errs[i].Error() == x[0] {
				own = true
			}
		}
		sym.Assert(own, "an error has the path of another field")
	}
	if len(o.bad) > 0 {
		sym.Assert(refused > 0, "a refused field has no error")
		sym.Cover("refused")
	}
}
