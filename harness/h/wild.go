package h

import (
	"errors"
	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"
)

// The schema of the robustness checks: every kind of item under a one letter name.

type WEnum uint8

type WI interface{ ResolveN() string }

type WImpl struct {
	A string
	B *WImpl
}

func (w WImpl) ResolveN() string { return "n" + w.A }

type WImpl2 struct {
	A int
	I WI
}

func (WImpl2) ResolveN() string { return "2" }

// WImpl3 implements WI but is not registered.
type WImpl3 struct{ A int }

func (WImpl3) ResolveN() string { return "3" }

var _ = yarql.Implements((*WI)(nil), WImpl{})
var _ = yarql.Implements((*WI)(nil), WImpl2{})

type WObj struct {
	A string
	B *WObj
	C []WObj
	I WI
}

func (o WObj) ResolveM(args struct{ A string }) (string, error) {
	if args.A == "e" {
		return "", errors.New("failed \"here\"")
	}
	return args.A, nil
}

type WIn struct {
	A string
	B *WIn
	C []WIn
	D int8
}

type WArgs struct {
	A string
	B int8
	C []int
	D bool
	E *WIn
	F WEnum
	G time.Time
	H uint64 `gq:"h,id"`
	I float64
	J *multipart.FileHeader
	K []*string
	L [][]string
	M WIn
	N uint16
	O *int
	P []WEnum
}

type WQ struct {
	A   string
	B   WObj
	C   []WObj
	D   *WObj
	E   WEnum
	F   []int
	G   time.Time
	H   uint `gq:"h,id"`
	I   WI
	J   []WI
	K   [][]*int
	L   func() string
	O   func(c *yarql.Ctx, a struct{ A string }) *WObj
	P   float64
	R   bool
	got WArgs `gq:"-"`
}

var wGot WArgs
var wCalls int

// wQuiet makes the resolvers write nothing.
var wQuiet bool

func (q *WQ) note() {}

func (q WQ) ResolveM(args WArgs) (string, error) {
	if !wQuiet {
		wGot = args
		wCalls++
	}
	if args.A == "e" {
		return "x", errors.New("failed")
	}
	return "m:" + args.A, nil
}

func (q WQ) ResolveN(c *yarql.Ctx, args struct{ A []WIn }) []WObj {
	r := []WObj{}
	for _, a := range args.A {
		r = append(r, WObj{A: a.A})
	}
	return r
}

// ResolveS shows what the request brought along.
func (q WQ) ResolveS(c *yarql.Ctx) string {
	t := "-"
	if v, ok := c.GetValueOk("k"); ok {
		t, _ = v.(string)
	}
	if x := c.GetContext(); x != nil {
		if v, ok := x.Value(wKey("c")).(string); ok {
			t += "/" + v
		}
	}
	return t
}

// ResolveT leaves a value in the context.
func (q WQ) ResolveT(c *yarql.Ctx, a struct{ A string }) string {
	if a.A != "" {
		c.SetValue("k", a.A)
	}
	return a.A
}

type wKey string

type WM struct{ A string }

func (m WM) ResolveB(args struct{ A int }) int { return args.A }

func wValue() WQ {
	two, three := 2, 3
	o := WObj{A: "oa", C: []WObj{{A: "c0"}}, I: WImpl{A: "ia"}}
	return WQ{
		A: "x\"y",
		B: WObj{A: "ba", B: &o, C: nil, I: nil},
		C: []WObj{{A: "c1", B: &o}, {A: "c2", I: WImpl3{A: 1}}},
		E: 1,
		F: []int{1, -2},
		G: time.Unix(0, 0).UTC(),
		H: 7,
		I: WImpl{A: "i"},
		J: []WI{WImpl{A: "j"}, nil, WImpl2{A: 5, I: WImpl{A: "k"}}},
		K: [][]*int{{&two, nil}, nil, {&three}},
		O: func(c *yarql.Ctx, a struct{ A string }) *WObj { return &WObj{A: a.A} },
		P: 1.5,
		R: true,
	}
}

func buildWild() *yarql.Schema { return wildOn(yarql.NewSchema()) }

func wildOn(s *yarql.Schema) *yarql.Schema {
	wQuiet = false
	if _, err := s.RegisterEnum(map[string]WEnum{"X": 1, "YY": 2, "A": 3}); err != nil {
		panic(err.Error())
	}
	return parse(s, wValue(), WM{A: "wm"})
}

type wild struct{ s *yarql.Schema }

func Setup_wild() *wild { return &wild{buildWild()} }
