package h

import (
	"errors"
	"time"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// The schema of the output checks: resolvers that give back what the harness puts here.
var (
	outS    string
	outI8   int8
	outI16  int16
	outI32  int32
	outI64  int64
	outI    int
	outU8   uint8
	outU16  uint16
	outU32  uint32
	outU64  uint64
	outU    uint
	outB    bool
	outE    OutEnum
	outN    OutName
	outG    OutNeg
	outT    time.Time
	outF64  float64
	outF32  float32
	outGotE []OutEnum
)

type OutEnum uint16
type OutName string
type OutNeg int8

type OutObj struct {
	S   string
	P   *string
	L   []string
	ID  string `gq:"id,id"`
	I8  int8   `gq:"i8"`
	I16 int16  `gq:"i16"`
	I32 int32  `gq:"i32"`
	I64 int64  `gq:"i64"`
	I   int
	U8  uint8  `gq:"u8"`
	U16 uint16 `gq:"u16"`
	U32 uint32 `gq:"u32"`
	U64 uint64 `gq:"u64"`
	U   uint
	B   bool
	E   OutEnum
	N   OutName
	G   OutNeg
	T   time.Time
	TP  *time.Time `gq:"tp"`
	EL  []OutEnum  `gq:"el"`
	IL  []int16    `gq:"il"`
	IP  *int16     `gq:"ip"`
	LL  [][]*int16 `gq:"ll"`
	D8  int8       `gq:"d8,id"`
	D16 uint16     `gq:"d16,id"`
	D32 int32      `gq:"d32,id"`
	D64 uint64     `gq:"d64,id"`
	D   int        `gq:"d,id"`
	DP  *uint8     `gq:"dp,id"`
	BP  *bool      `gq:"bp"`
	EP  *OutEnum   `gq:"ep"`
}

type OutQ struct {
	F func() string
	A string
}

func outStr() string { return outS }

func (OutQ) ResolveS() string                          { return outS }
func (OutQ) ResolveP() *string                         { return &outS }
func (OutQ) ResolveL() []string                        { return []string{outS, "x", outS} }
func (OutQ) ResolveId() (string, yarql.AttrIsID)       { return outS, 0 }
func (OutQ) ResolveErr() (string, error)               { return "no", errors.New(outS) }
func (OutQ) ResolveErrL() ([]string, error)            { return nil, errors.New(outS) }
func (OutQ) ResolveLl() [][]string                     { return [][]string{{outS}, {outS, "y"}} }
func (OutQ) ResolveNid() (uint16, yarql.AttrIsID)      { return outU16, 0 }
func (OutQ) ResolveNidp() (*int, yarql.AttrIsID)       { return &outI, 0 }
func (OutQ) ResolveF64() float64                       { return outF64 }
func (OutQ) ResolveF32() *float32                      { return &outF32 }
func (OutQ) ResolveEcho(a struct{ E OutEnum }) OutEnum { outGotE = append(outGotE, a.E); return a.E }
func (OutQ) ResolveEchoL(a struct{ E []OutEnum }) []OutEnum {
	outGotE = append(outGotE, a.E...)
	return a.E
}
func (OutQ) ResolveEchoN(a struct{ N OutName }) OutName  { outN = a.N; return a.N }
func (OutQ) ResolveEchoG(a struct{ G *OutNeg }) *OutNeg  { outG = *a.G; return a.G }
func (OutQ) ResolveTime(a struct{ T time.Time }) bool    { outT = a.T; return true }
func (OutQ) ResolveTimeP(a struct{ T []*time.Time }) int { outT = *a.T[0]; return len(a.T) }
func (OutQ) ResolveO() OutObj {
	i16 := outI16
	return OutObj{
		S: outS, P: &outS, L: []string{outS}, ID: outS,
		I8: outI8, I16: outI16, I32: outI32, I64: outI64, I: outI, U8: outU8, U16: outU16, U32: outU32, U64: outU64, U: outU,
		B: outB, E: outE, N: outN, G: outG, T: outT, TP: &outT, EL: []OutEnum{outE, 2}, IL: []int16{1, outI16, -2}, IP: &i16, LL: [][]*int16{{nil, &i16}, {}},
		D8: outI8, D16: outU16, D32: outI32, D64: outU64, D: outI, DP: &outU8, BP: &outB, EP: &outE,
	}
}

type outState struct{ s *yarql.Schema }

func Setup_out() *outState {
	s := yarql.NewSchema()
	for _, m := range []interface{}{
		map[string]OutEnum{"ONE": 1, "TWO": 2, "BIG": 60000, "on_e": 4},
		map[string]OutName{"A": "a", "AB": "b", "B": "", "C": "A"},
		map[string]OutNeg{"NEG": -5, "POS": 5, "MIN": -128},
	} {
		if _, err := s.RegisterEnum(m); err != nil {
			panic(err.Error())
		}
	}
	return &outState{parse(s, OutQ{F: outStr, A: "end"}, NoM{})}
}

// replaced is the text with every byte that is no UTF-8 replaced.
func replaced(s string) string {
	var out []byte
	for i := 0; i < len(s); {
		n := utf8len(s, i)
		if n == 0 {
			out = append(out, 0xef, 0xbf, 0xbd)
			i++
			continue
		}
		out = append(out, s[i:i+n]...)
		i += n
	}
	return string(out)
}

var outPlaces = []string{"s", "p", "l", "id", "f", "ll", "o{s}", "o{p}", "o{l}", "o{id}", "err", "errL"}

// Run_C17_text: any text at every place a string is written.
func Run_C17_text(st *outState) {
	outS = sym.UpTo(0, 3+sym.Tier())
	checkText(st, sym.Choose(len(outPlaces)))
}

// Run_C17_long: symbolic bytes inside longer texts.
func Run_C17_long(st *outState) {
	parts := []string{"", "plain ", "\"", "\\", "\u00e9", "\u2028", "\U0001f600", "\n", "\xff", "\xe2\x80", "\xf0\x9f", "}]\","}
	outS = parts[sym.Choose(len(parts))] + sym.Str(1+sym.Tier()) + parts[sym.Choose(len(parts))] + sym.Str(1)
	checkText(st, sym.Choose(3)*4)
}

func checkText(st *outState, k int) {
	p := outPlaces[k]
	r := exec(st.s, "{"+p+" a}")
	want := replaced(outS)
	if want != outS {
		sym.Cover("replaced")
	} else {
		sym.Cover("kept")
	}
	sym.Assert(r.data.get("a").isStr("end") && len(r.data.keys) == 2, "the members around a text are affected")
	if p == "err" || p == "errL" {
		sym.Assert(len(r.errs) == 1 && r.v.get("errors").at(0).get("message").isStr(want), "the message of an error is changed")
		sym.Assert(r.data.get(p).isNull(), "the field of an error is not null")
		return
	}
	sym.Assert(!r.failed(), "a text gives an error")
	v := r.data.get(p)
	if p[0] == 'o' {
		n := p[2 : len(p)-1]
		v = r.data.get("o").get(n)
		if n == "l" {
			v = v.at(0)
		}
	}
	switch p {
	case "l":
		sym.Assert(len(v.vals) == 3 && v.at(1).isStr("x") && v.at(2).isStr(want), "a list of texts is changed")
		v = v.at(0)
	case "ll":
		sym.Assert(len(v.vals) == 2 && v.at(1).at(0).isStr(want) && v.at(1).at(1).isStr("y"), "a list of texts is changed")
		v = v.at(0).at(0)
	}
	sym.Assert(v.isStr(want), "a text is not written as it is")
}
