package h

import (
	"strconv"
	"time"

	"github.com/mjarkk/yarql"
)

// The schema of the argument checks: methods that keep what they get.

type ArgColor uint8
type ArgName string

type ArgSub struct {
	S string
	N int16
	P *string
	L []string
	U *ArgSub
	Q []ArgSub
	B bool
}

type ArgAll struct {
	S    string
	P    *string
	L    []string
	M    []*string
	O    ArgSub
	X    *ArgSub
	Q    []ArgSub
	R    []*ArgSub
	LL   [][]string `gq:"ll"`
	LI   [][]int    `gq:"li"`
	LLL  [][][]int  `gq:"lll"`
	LP   []*int     `gq:"lp"`
	B    bool
	BP   *bool  `gq:"bp"`
	BL   []bool `gq:"bl"`
	C    ArgColor
	CL   []ArgColor `gq:"cl"`
	N    ArgName
	CP   *ArgColor `gq:"cp"`
	I8   int8      `gq:"i8"`
	I16  int16     `gq:"i16"`
	I32  int32     `gq:"i32"`
	I64  int64     `gq:"i64"`
	I    int       `gq:"i"`
	U8   uint8     `gq:"u8"`
	U16  uint16    `gq:"u16"`
	U32  uint32    `gq:"u32"`
	U64  uint64    `gq:"u64"`
	U    uint      `gq:"u"`
	IP   *int      `gq:"ip"`
	D    string    `gq:"d,id"`
	D8   int8      `gq:"d8,id"`
	D16  int16     `gq:"d16,id"`
	D32  int32     `gq:"d32,id"`
	D64  int64     `gq:"d64,id"`
	E8   uint8     `gq:"e8,id"`
	E16  uint16    `gq:"e16,id"`
	E32  uint32    `gq:"e32,id"`
	E64  uint64    `gq:"e64,id"`
	DP   *uint     `gq:"dp,id"`
	F    float64
	Z    string
	I8L  []int8   `gq:"i8l"`
	U16L []uint16 `gq:"u16l"`
	U32L []uint32 `gq:"u32l"`
	U8L  []uint8  `gq:"u8l"`
	T    time.Time
	TP   *time.Time   `gq:"tp"`
	TL   []time.Time  `gq:"tl"`
	TPL  []*time.Time `gq:"tpl"`
	TS   ArgTime      `gq:"ts"`
}

type ArgTime struct {
	T time.Time
	L []time.Time
	I int64    `gq:"i,id"`
	K []string `gq:"k,id"`
	C []ArgColor
}

type argState struct {
	s     *yarql.Schema
	got   ArgAll
	calls int
}

var argGot ArgAll
var argCalls int

type ArgQ struct{ A string }

func (ArgQ) ResolveM(a ArgAll) bool {
	argGot = a
	argCalls++
	return true
}

func buildArgs() *yarql.Schema {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]ArgColor{"RED": 1, "RE": 2, "GREEN": 3, "red": 4}); err != nil {
		panic(err.Error())
	}
	if _, err := s.RegisterEnum(map[string]ArgName{"ONE": "1", "TWO": "2"}); err != nil {
		panic(err.Error())
	}
	return parse(s, ArgQ{A: "a"}, NoM{})
}

func Setup_args() *argState { return &argState{s: buildArgs()} }

// call runs {m(args)a}; true if the resolver ran and nothing failed.
func (st *argState) call(args string) bool { return st.callOp("{m("+args+")a}", "") }

func (st *argState) callOp(q, vars string) bool {
	argGot, argCalls = ArgAll{}, 0
	r := execVars(st.s, q, vars)
	if r.failed() {
		return false
	}
	assertc(argCalls == 1, "no error but the resolver did not run exactly once")
	m := r.data.get("m")
	assertc(m != nil && m.k == 't', "wrong answer")
	assertc(r.data.get("a").isStr("a"), "the selection after the arguments is lost")
	return true
}

func argq(n int) string { return strconv.Quote(strconv.Itoa(n)) }
