package h

import (
	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// IaNode has methods with their parameters in every order.
type IaNode interface {
	ResolveA(a struct{ V string }) string
	ResolveB(c *yarql.Ctx, a struct{ V string }) string
	ResolveC(a struct{ V string }, c *yarql.Ctx) string
	ResolveD(a struct{ V string }, b struct{ W []int }) string
	ResolveE(a struct{ I IaIn }) string
	ResolveF(c *yarql.Ctx) (string, error)
	ResolveG() string
	ResolveH(c *yarql.Ctx, a struct {
		V string   `gq:"renamed"`
		W *[]*IaIn `gq:"list"`
		X string   `gq:"-"`
		y int
	}) IaNode
}

type IaIn struct {
	V string
	N *IaIn
}

type IaBase struct{}

func (IaBase) ResolveA(a struct{ V string }) string                      { return a.V }
func (IaBase) ResolveB(c *yarql.Ctx, a struct{ V string }) string        { return a.V }
func (IaBase) ResolveC(a struct{ V string }, c *yarql.Ctx) string        { return a.V }
func (IaBase) ResolveD(a struct{ V string }, b struct{ W []int }) string { return a.V + itoa(len(b.W)) }
func (IaBase) ResolveE(a struct{ I IaIn }) string                        { return a.I.V }
func (IaBase) ResolveF(c *yarql.Ctx) (string, error)                     { return "f", nil }
func (IaBase) ResolveG() string                                          { return "g" }
func (IaBase) ResolveH(c *yarql.Ctx, a struct {
	V string   `gq:"renamed"`
	W *[]*IaIn `gq:"list"`
	X string   `gq:"-"`
	y int
}) IaNode {
	if a.W == nil {
		return nil
	}
	return IaTwo{Z: a.V}
}

type IaOne struct{ IaBase }
type IaTwo struct {
	IaBase
	Z string
}

var _ = yarql.Implements((*IaNode)(nil), IaOne{})
var _ = yarql.Implements((*IaNode)(nil), IaTwo{})

type IaQ struct{}

func (IaQ) ResolveOne() IaNode { return IaOne{} }
func (IaQ) ResolveTwo() IaTwo  { return IaTwo{Z: "z"} }

type iaState struct {
	s   *yarql.Schema
	doc *jv
}

func Setup_interface() *iaState {
	s := parse(yarql.NewSchema(), IaQ{}, NoM{})
	r := exec(s, introDoc)
	sym.Assert(!r.failed(), "introspection fails")
	return &iaState{s, r.data.get("__schema")}
}

// what every field of the interface takes, and a use of it
var iaArgs = []struct{ field, args, use, val string }{
	{"a", "v:String!", "(v:\"#\")", "\"#\""},
	{"b", "v:String!", "(v:\"#\")", "\"#\""},
	{"c", "v:String!", "(v:\"#\")", "\"#\""},
	{"d", "v:String!,w:[Int!]", "(v:\"#\" w:[1])", "\"#1\""},
	{"e", "i:IaIn!", "(i:{v:\"#\"})", "\"#\""},
	{"f", "", "", "\"f\""},
	{"g", "", "", "\"g\""},
	{"h", "list:[IaIn],renamed:String!", "(renamed:\"#\" list:[{v:\"x\"}]){__typename g}", "{\"__typename\":\"IaTwo\",\"g\":\"g\"}"},
}

// Run_C22_interface: the arguments of the fields of an interface are listed as those of its implementations, in every order of parameters, and can be given through either: fields and arguments of free names are listed exactly if they can be used.
func Run_C22_interface(st *iaState) {
	it := iaArgs[sym.Choose(len(iaArgs))]
	for _, t := range []string{"IaNode", "IaOne", "IaTwo"} {
		f := member(member(st.doc.get("types"), t).get("fields"), it.field)
		sym.Assert(f != nil, "a field of an interface is not listed")
		args := ""
		for i, a := range f.get("args").vals {
			if i > 0 {
				args += ","
			}
			args += a.get("name").s + ":" + typeText(a.get("type"))
		}
		sym.Assert(args == it.args, "the arguments of a field of an interface or implementation are listed wrongly")
	}
	root := []string{"one", "two"}[sym.Choose(2)]
	v := sym.StrOf(1, "abcdefgh")
	fill := func(s string) string {
		o := ""
		for i := 0; i < len(s); i++ {
			if s[i] == '#' {
				o += v
			} else {
				o += s[i : i+1]
			}
		}
		return o
	}
	r := exec(st.s, "{"+root+"{x:"+it.field+fill(it.use)+"}}")
	sym.Assert(!r.failed() && r.data.get(root).get("x").String() == fill(it.val), "a listed argument of a field of an interface cannot be used")
	// any name
	n := symName(1)
	if it.field < "e" {
		r = exec(st.s, "{"+root+"{"+it.field+"("+n+":null)}}")
		listed := member(member(member(st.doc.get("types"), "IaNode").get("fields"), it.field).get("args"), n) != nil
		sym.Assert(listed == !r.failed(), "an argument is listed and cannot be used, or the other way round")
		sym.Cover("arg")
	}
	sym.Cover("listed")
}
