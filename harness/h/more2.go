package h

import (
	"strings"

	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"

	"yarqlverif/harness/sym"
)

// InlQ has 40 functions, each with an inline input of its own inside of another one.
type InlQ struct {
	F0 func(struct {
		V struct {
			X0 *int
			W  []struct{ Y0 string }
		}
	}) string
	F1 func(struct {
		V struct {
			X1 *int
			W  []struct{ Y1 string }
		}
	}) string
	F2 func(struct {
		V struct {
			X2 *int
			W  []struct{ Y2 string }
		}
	}) string
	F3 func(struct {
		V struct {
			X3 *int
			W  []struct{ Y3 string }
		}
	}) string
	F4 func(struct {
		V struct {
			X4 *int
			W  []struct{ Y4 string }
		}
	}) string
	F5 func(struct {
		V struct {
			X5 *int
			W  []struct{ Y5 string }
		}
	}) string
	F6 func(struct {
		V struct {
			X6 *int
			W  []struct{ Y6 string }
		}
	}) string
	F7 func(struct {
		V struct {
			X7 *int
			W  []struct{ Y7 string }
		}
	}) string
	F8 func(struct {
		V struct {
			X8 *int
			W  []struct{ Y8 string }
		}
	}) string
	F9 func(struct {
		V struct {
			X9 *int
			W  []struct{ Y9 string }
		}
	}) string
	F10 func(struct {
		V struct {
			X10 *int
			W   []struct{ Y10 string }
		}
	}) string
	F11 func(struct {
		V struct {
			X11 *int
			W   []struct{ Y11 string }
		}
	}) string
	F12 func(struct {
		V struct {
			X12 *int
			W   []struct{ Y12 string }
		}
	}) string
	F13 func(struct {
		V struct {
			X13 *int
			W   []struct{ Y13 string }
		}
	}) string
	F14 func(struct {
		V struct {
			X14 *int
			W   []struct{ Y14 string }
		}
	}) string
	F15 func(struct {
		V struct {
			X15 *int
			W   []struct{ Y15 string }
		}
	}) string
	F16 func(struct {
		V struct {
			X16 *int
			W   []struct{ Y16 string }
		}
	}) string
	F17 func(struct {
		V struct {
			X17 *int
			W   []struct{ Y17 string }
		}
	}) string
	F18 func(struct {
		V struct {
			X18 *int
			W   []struct{ Y18 string }
		}
	}) string
	F19 func(struct {
		V struct {
			X19 *int
			W   []struct{ Y19 string }
		}
	}) string
	F20 func(struct {
		V struct {
			X20 *int
			W   []struct{ Y20 string }
		}
	}) string
	F21 func(struct {
		V struct {
			X21 *int
			W   []struct{ Y21 string }
		}
	}) string
	F22 func(struct {
		V struct {
			X22 *int
			W   []struct{ Y22 string }
		}
	}) string
	F23 func(struct {
		V struct {
			X23 *int
			W   []struct{ Y23 string }
		}
	}) string
	F24 func(struct {
		V struct {
			X24 *int
			W   []struct{ Y24 string }
		}
	}) string
	F25 func(struct {
		V struct {
			X25 *int
			W   []struct{ Y25 string }
		}
	}) string
	F26 func(struct {
		V struct {
			X26 *int
			W   []struct{ Y26 string }
		}
	}) string
	F27 func(struct {
		V struct {
			X27 *int
			W   []struct{ Y27 string }
		}
	}) string
	F28 func(struct {
		V struct {
			X28 *int
			W   []struct{ Y28 string }
		}
	}) string
	F29 func(struct {
		V struct {
			X29 *int
			W   []struct{ Y29 string }
		}
	}) string
	F30 func(struct {
		V struct {
			X30 *int
			W   []struct{ Y30 string }
		}
	}) string
	F31 func(struct {
		V struct {
			X31 *int
			W   []struct{ Y31 string }
		}
	}) string
	F32 func(struct {
		V struct {
			X32 *int
			W   []struct{ Y32 string }
		}
	}) string
	F33 func(struct {
		V struct {
			X33 *int
			W   []struct{ Y33 string }
		}
	}) string
	F34 func(struct {
		V struct {
			X34 *int
			W   []struct{ Y34 string }
		}
	}) string
	F35 func(struct {
		V struct {
			X35 *int
			W   []struct{ Y35 string }
		}
	}) string
	F36 func(struct {
		V struct {
			X36 *int
			W   []struct{ Y36 string }
		}
	}) string
	F37 func(struct {
		V struct {
			X37 *int
			W   []struct{ Y37 string }
		}
	}) string
	F38 func(struct {
		V struct {
			X38 *int
			W   []struct{ Y38 string }
		}
	}) string
	F39 func(struct {
		V struct {
			X39 *int
			W   []struct{ Y39 string }
		}
	}) string
}

func newInlQ() InlQ {
	return InlQ{
		F0: func(a struct {
			V struct {
				X0 *int
				W  []struct{ Y0 string }
			}
		}) string {
			t := "0"
			if a.V.X0 != nil {
				t += ":" + itoa(*a.V.X0)
			}
			for _, w := range a.V.W {
				t += "," + w.Y0
			}
			return t
		},
		F1: func(a struct {
			V struct {
				X1 *int
				W  []struct{ Y1 string }
			}
		}) string {
			t := "1"
			if a.V.X1 != nil {
				t += ":" + itoa(*a.V.X1)
			}
			for _, w := range a.V.W {
				t += "," + w.Y1
			}
			return t
		},
		F2: func(a struct {
			V struct {
				X2 *int
				W  []struct{ Y2 string }
			}
		}) string {
			t := "2"
			if a.V.X2 != nil {
				t += ":" + itoa(*a.V.X2)
			}
			for _, w := range a.V.W {
				t += "," + w.Y2
			}
			return t
		},
		F3: func(a struct {
			V struct {
				X3 *int
				W  []struct{ Y3 string }
			}
		}) string {
			t := "3"
			if a.V.X3 != nil {
				t += ":" + itoa(*a.V.X3)
			}
			for _, w := range a.V.W {
				t += "," + w.Y3
			}
			return t
		},
		F4: func(a struct {
			V struct {
				X4 *int
				W  []struct{ Y4 string }
			}
		}) string {
			t := "4"
			if a.V.X4 != nil {
				t += ":" + itoa(*a.V.X4)
			}
			for _, w := range a.V.W {
				t += "," + w.Y4
			}
			return t
		},
		F5: func(a struct {
			V struct {
				X5 *int
				W  []struct{ Y5 string }
			}
		}) string {
			t := "5"
			if a.V.X5 != nil {
				t += ":" + itoa(*a.V.X5)
			}
			for _, w := range a.V.W {
				t += "," + w.Y5
			}
			return t
		},
		F6: func(a struct {
			V struct {
				X6 *int
				W  []struct{ Y6 string }
			}
		}) string {
			t := "6"
			if a.V.X6 != nil {
				t += ":" + itoa(*a.V.X6)
			}
			for _, w := range a.V.W {
				t += "," + w.Y6
			}
			return t
		},
		F7: func(a struct {
			V struct {
				X7 *int
				W  []struct{ Y7 string }
			}
		}) string {
			t := "7"
			if a.V.X7 != nil {
				t += ":" + itoa(*a.V.X7)
			}
			for _, w := range a.V.W {
				t += "," + w.Y7
			}
			return t
		},
		F8: func(a struct {
			V struct {
				X8 *int
				W  []struct{ Y8 string }
			}
		}) string {
			t := "8"
			if a.V.X8 != nil {
				t += ":" + itoa(*a.V.X8)
			}
			for _, w := range a.V.W {
				t += "," + w.Y8
			}
			return t
		},
		F9: func(a struct {
			V struct {
				X9 *int
				W  []struct{ Y9 string }
			}
		}) string {
			t := "9"
			if a.V.X9 != nil {
				t += ":" + itoa(*a.V.X9)
			}
			for _, w := range a.V.W {
				t += "," + w.Y9
			}
			return t
		},
		F10: func(a struct {
			V struct {
				X10 *int
				W   []struct{ Y10 string }
			}
		}) string {
			t := "10"
			if a.V.X10 != nil {
				t += ":" + itoa(*a.V.X10)
			}
			for _, w := range a.V.W {
				t += "," + w.Y10
			}
			return t
		},
		F11: func(a struct {
			V struct {
				X11 *int
				W   []struct{ Y11 string }
			}
		}) string {
			t := "11"
			if a.V.X11 != nil {
				t += ":" + itoa(*a.V.X11)
			}
			for _, w := range a.V.W {
				t += "," + w.Y11
			}
			return t
		},
		F12: func(a struct {
			V struct {
				X12 *int
				W   []struct{ Y12 string }
			}
		}) string {
			t := "12"
			if a.V.X12 != nil {
				t += ":" + itoa(*a.V.X12)
			}
			for _, w := range a.V.W {
				t += "," + w.Y12
			}
			return t
		},
		F13: func(a struct {
			V struct {
				X13 *int
				W   []struct{ Y13 string }
			}
		}) string {
			t := "13"
			if a.V.X13 != nil {
				t += ":" + itoa(*a.V.X13)
			}
			for _, w := range a.V.W {
				t += "," + w.Y13
			}
			return t
		},
		F14: func(a struct {
			V struct {
				X14 *int
				W   []struct{ Y14 string }
			}
		}) string {
			t := "14"
			if a.V.X14 != nil {
				t += ":" + itoa(*a.V.X14)
			}
			for _, w := range a.V.W {
				t += "," + w.Y14
			}
			return t
		},
		F15: func(a struct {
			V struct {
				X15 *int
				W   []struct{ Y15 string }
			}
		}) string {
			t := "15"
			if a.V.X15 != nil {
				t += ":" + itoa(*a.V.X15)
			}
			for _, w := range a.V.W {
				t += "," + w.Y15
			}
			return t
		},
		F16: func(a struct {
			V struct {
				X16 *int
				W   []struct{ Y16 string }
			}
		}) string {
			t := "16"
			if a.V.X16 != nil {
				t += ":" + itoa(*a.V.X16)
			}
			for _, w := range a.V.W {
				t += "," + w.Y16
			}
			return t
		},
		F17: func(a struct {
			V struct {
				X17 *int
				W   []struct{ Y17 string }
			}
		}) string {
			t := "17"
			if a.V.X17 != nil {
				t += ":" + itoa(*a.V.X17)
			}
			for _, w := range a.V.W {
				t += "," + w.Y17
			}
			return t
		},
		F18: func(a struct {
			V struct {
				X18 *int
				W   []struct{ Y18 string }
			}
		}) string {
			t := "18"
			if a.V.X18 != nil {
				t += ":" + itoa(*a.V.X18)
			}
			for _, w := range a.V.W {
				t += "," + w.Y18
			}
			return t
		},
		F19: func(a struct {
			V struct {
				X19 *int
				W   []struct{ Y19 string }
			}
		}) string {
			t := "19"
			if a.V.X19 != nil {
				t += ":" + itoa(*a.V.X19)
			}
			for _, w := range a.V.W {
				t += "," + w.Y19
			}
			return t
		},
		F20: func(a struct {
			V struct {
				X20 *int
				W   []struct{ Y20 string }
			}
		}) string {
			t := "20"
			if a.V.X20 != nil {
				t += ":" + itoa(*a.V.X20)
			}
			for _, w := range a.V.W {
				t += "," + w.Y20
			}
			return t
		},
		F21: func(a struct {
			V struct {
				X21 *int
				W   []struct{ Y21 string }
			}
		}) string {
			t := "21"
			if a.V.X21 != nil {
				t += ":" + itoa(*a.V.X21)
			}
			for _, w := range a.V.W {
				t += "," + w.Y21
			}
			return t
		},
		F22: func(a struct {
			V struct {
				X22 *int
				W   []struct{ Y22 string }
			}
		}) string {
			t := "22"
			if a.V.X22 != nil {
				t += ":" + itoa(*a.V.X22)
			}
			for _, w := range a.V.W {
				t += "," + w.Y22
			}
			return t
		},
		F23: func(a struct {
			V struct {
				X23 *int
				W   []struct{ Y23 string }
			}
		}) string {
			t := "23"
			if a.V.X23 != nil {
				t += ":" + itoa(*a.V.X23)
			}
			for _, w := range a.V.W {
				t += "," + w.Y23
			}
			return t
		},
		F24: func(a struct {
			V struct {
				X24 *int
				W   []struct{ Y24 string }
			}
		}) string {
			t := "24"
			if a.V.X24 != nil {
				t += ":" + itoa(*a.V.X24)
			}
			for _, w := range a.V.W {
				t += "," + w.Y24
			}
			return t
		},
		F25: func(a struct {
			V struct {
				X25 *int
				W   []struct{ Y25 string }
			}
		}) string {
			t := "25"
			if a.V.X25 != nil {
				t += ":" + itoa(*a.V.X25)
			}
			for _, w := range a.V.W {
				t += "," + w.Y25
			}
			return t
		},
		F26: func(a struct {
			V struct {
				X26 *int
				W   []struct{ Y26 string }
			}
		}) string {
			t := "26"
			if a.V.X26 != nil {
				t += ":" + itoa(*a.V.X26)
			}
			for _, w := range a.V.W {
				t += "," + w.Y26
			}
			return t
		},
		F27: func(a struct {
			V struct {
				X27 *int
				W   []struct{ Y27 string }
			}
		}) string {
			t := "27"
			if a.V.X27 != nil {
				t += ":" + itoa(*a.V.X27)
			}
			for _, w := range a.V.W {
				t += "," + w.Y27
			}
			return t
		},
		F28: func(a struct {
			V struct {
				X28 *int
				W   []struct{ Y28 string }
			}
		}) string {
			t := "28"
			if a.V.X28 != nil {
				t += ":" + itoa(*a.V.X28)
			}
			for _, w := range a.V.W {
				t += "," + w.Y28
			}
			return t
		},
		F29: func(a struct {
			V struct {
				X29 *int
				W   []struct{ Y29 string }
			}
		}) string {
			t := "29"
			if a.V.X29 != nil {
				t += ":" + itoa(*a.V.X29)
			}
			for _, w := range a.V.W {
				t += "," + w.Y29
			}
			return t
		},
		F30: func(a struct {
			V struct {
				X30 *int
				W   []struct{ Y30 string }
			}
		}) string {
			t := "30"
			if a.V.X30 != nil {
				t += ":" + itoa(*a.V.X30)
			}
			for _, w := range a.V.W {
				t += "," + w.Y30
			}
			return t
		},
		F31: func(a struct {
			V struct {
				X31 *int
				W   []struct{ Y31 string }
			}
		}) string {
			t := "31"
			if a.V.X31 != nil {
				t += ":" + itoa(*a.V.X31)
			}
			for _, w := range a.V.W {
				t += "," + w.Y31
			}
			return t
		},
		F32: func(a struct {
			V struct {
				X32 *int
				W   []struct{ Y32 string }
			}
		}) string {
			t := "32"
			if a.V.X32 != nil {
				t += ":" + itoa(*a.V.X32)
			}
			for _, w := range a.V.W {
				t += "," + w.Y32
			}
			return t
		},
		F33: func(a struct {
			V struct {
				X33 *int
				W   []struct{ Y33 string }
			}
		}) string {
			t := "33"
			if a.V.X33 != nil {
				t += ":" + itoa(*a.V.X33)
			}
			for _, w := range a.V.W {
				t += "," + w.Y33
			}
			return t
		},
		F34: func(a struct {
			V struct {
				X34 *int
				W   []struct{ Y34 string }
			}
		}) string {
			t := "34"
			if a.V.X34 != nil {
				t += ":" + itoa(*a.V.X34)
			}
			for _, w := range a.V.W {
				t += "," + w.Y34
			}
			return t
		},
		F35: func(a struct {
			V struct {
				X35 *int
				W   []struct{ Y35 string }
			}
		}) string {
			t := "35"
			if a.V.X35 != nil {
				t += ":" + itoa(*a.V.X35)
			}
			for _, w := range a.V.W {
				t += "," + w.Y35
			}
			return t
		},
		F36: func(a struct {
			V struct {
				X36 *int
				W   []struct{ Y36 string }
			}
		}) string {
			t := "36"
			if a.V.X36 != nil {
				t += ":" + itoa(*a.V.X36)
			}
			for _, w := range a.V.W {
				t += "," + w.Y36
			}
			return t
		},
		F37: func(a struct {
			V struct {
				X37 *int
				W   []struct{ Y37 string }
			}
		}) string {
			t := "37"
			if a.V.X37 != nil {
				t += ":" + itoa(*a.V.X37)
			}
			for _, w := range a.V.W {
				t += "," + w.Y37
			}
			return t
		},
		F38: func(a struct {
			V struct {
				X38 *int
				W   []struct{ Y38 string }
			}
		}) string {
			t := "38"
			if a.V.X38 != nil {
				t += ":" + itoa(*a.V.X38)
			}
			for _, w := range a.V.W {
				t += "," + w.Y38
			}
			return t
		},
		F39: func(a struct {
			V struct {
				X39 *int
				W   []struct{ Y39 string }
			}
		}) string {
			t := "39"
			if a.V.X39 != nil {
				t += ":" + itoa(*a.V.X39)
			}
			for _, w := range a.V.W {
				t += "," + w.Y39
			}
			return t
		},
	}
}

type inlState struct{ s *yarql.Schema }

func Setup_inl() *inlState { return &inlState{build(newInlQ(), NoM{})} }

// Run_C34_inlines: a schema with 80 inline inputs: each method has its own, with exactly its own members, in requests and in introspection. Bounds: 40 methods with an inline input in an inline input, members of any of 44 numbers, plain and by variables, with a free byte.
func Run_C34_inlines(st *inlState) {
	i, k := sym.Choose(40), sym.Choose(4)
	j := []int{i, (i + 1) % 40, (i + 10) % 40, 40 + i%4}[k]
	x := sym.StrOf(1, "123")
	y := sym.StrOf(1, "abc")
	n, m := itoa(i), itoa(j)
	v := "X" + m + ":" + x + " W:[{Y" + m + ":\"" + y + "\"}]"
	v = fill("{X~:", m) + x + fill(" w:[{Y~:", m) + "\"" + y + "\"}]}"
	var r *resp
	if sym.Bool() {
		r = exec(st.s, "{F"+n+"(v:"+v+")}")
	} else {
		r = exec(st.s, "{__type(name:\"InlQ\"){fields{name args{type{ofType{name}}}}}}")
		typ := ""
		for _, f := range r.data.get("__type").get("fields").vals {
			if f.get("name").isStr("F" + n) {
				typ = f.get("args").at(0).get("type").get("ofType").get("name").s
			}
		}
		r = execVars(st.s, "query($v:"+typ+"){F"+n+"(v:$v)}", "{\"v\":{\"X"+m+"\":"+x+",\"w\":[{\"Y"+m+"\":\""+y+"\"}]}}")
	}
	if i != j {
		sym.Assert(r.failed(), "an inline input has members of another one")
		sym.Cover("unknown")
		return
	}
	sym.Assert(!r.failed() && r.data.get("F"+n).isStr(n+":"+x+","+y), "a member of an inline input does not arrive")
	r = exec(st.s, "{__type(name:\"InlQ\"){fields{name args{name type{name kind ofType{name inputFields{name}}}}}}}")
	seen := ""
	for _, f := range r.data.get("__type").get("fields").vals {
		if f.get("name").isStr("F" + n) {
			t := f.get("args").at(0).get("type").get("ofType")
			for _, in := range t.get("inputFields").vals {
				seen += in.get("name").String()
			}
		}
	}
	sym.Assert(seen == "\"X"+n+"\"\"w\"" || seen == "\"w\"\"X"+n+"\"", "an inline input is listed with other members")
	sym.Cover("arrived")
}

// Run_C33_named: types that are named like the context, the id mark or an error without being them: an argument struct named Ctx, a number named AttrIsID as result, a struct with a method Error as result. Bounds: each with a free digit or byte; a pointer to the struct named Ctx is refused while the schema is built.
func Run_C33_named() { namedLike(sym.Choose(2) == 1) }

// Run_C38_named: types that are named like those the library knows (Ctx, AttrIsID, Time, FileHeader) or are errors are what they are: see C33_named. Bounds: a free digit and byte, four types.
func Run_C38_named() { namedLike(sym.Choose(2) == 1) }

// Run_C19_named: a type that is named like the time and made from it is none: no text is accepted for it. Bounds: as value and as pointer, next to a free number.
func Run_C19_named() { namedLike(false) }

// Run_C27_named: a type that is named like an upload and made from it is refused as argument. Bounds: a pointer to it.
func Run_C27_named() { namedLike(true) }

func namedLike(file bool) {
	type Ctx struct {
		A string
		B int
	}
	type AttrIsID int
	n := sym.Conc(sym.Range(0, 3))
	x := sym.StrOf(1, "abc")
	if n == 3 {
		s := yarql.NewSchema()
		sym.Assert(s.Parse(struct{ F func(*Ctx) string }{}, NoM{}, nil) != nil, "a pointer to a struct named Ctx is taken for the context")
		sym.Cover("refused")
		return
	}
	type Time time.Time
	type FileHeader multipart.FileHeader
	if file {
		s := yarql.NewSchema()
		sym.Assert(s.Parse(struct {
			F func(struct{ A *FileHeader }) string
		}{}, NoM{}, nil) != nil, "a type named like a file is taken for one")
		sym.Cover("refused")
		return
	}
	s := build(struct {
		T func(a struct {
			T Time
			P *Time
			B int
		}) int
		F func(c *yarql.Ctx, a Ctx) string
		G func() AttrIsID
		H func() (AttrIsID, error)
		E func() (namedErr, error)
		P func() *namedErr
		V namedErr
	}{
		T: func(a struct {
			T Time
			P *Time
			B int
		}) int {
			return a.B
		},
		F: func(c *yarql.Ctx, a Ctx) string {
			if c == nil {
				return "no context"
			}
			return a.A + itoa(a.B)
		},
		G: func() AttrIsID { return AttrIsID(n) },
		H: func() (AttrIsID, error) { return AttrIsID(n + 1), nil },
		E: func() (namedErr, error) { return namedErr{n}, nil },
		P: func() *namedErr { return &namedErr{n + 2} },
		V: namedErr{n + 3},
	}, NoM{})
	if sym.Bool() {
		s = s.Copy()
	}
	r := exec(s, "{t(t:\"2020-01-02T03:04:05Z\" b:3)}")
	sym.Assert(r.failed(), "a type named like a time is taken for one")
	r = exec(s, []string{"{t(b:3)}", "{t(t:{} b:3)}", "{t(p:{} b:3)}"}[sym.Choose(3)])
	sym.Assert(!r.failed() && r.data.get("t").isNum("3"), "a type named like a time is taken for one")
	r = exec(s, "{f(a:\""+x+"\" b:"+itoa(n)+")g h e{code}p{code}v{code}}")
	sym.Assert(!r.failed() && r.data.String() == "{\"f\":\""+x+itoa(n)+"\",\"g\":"+itoa(n)+",\"h\":"+itoa(n+1)+",\"e\":{\"code\":"+itoa(n)+"},\"p\":{\"code\":"+itoa(n+2)+"},\"v\":{\"code\":"+itoa(n+3)+"}}", "a type named like another one is taken for it")
	sym.Cover("answered")
}

type namedErr struct{ Code int }

func (namedErr) Error() string { return "no error" }

// Run_C15_result: the answer of a schema stays in place whatever its copies answer, and the other way around, for answers of any two lengths. Bounds: 6 lengths up to 4000 bytes before the copy, on the copy, on the original and on a copy of the copy, in both orders.
func Run_C15_result(st *bigState) {
	lens := []int{0, 1, 100, 500, 1025, 4000}
	ask := func(s *yarql.Schema, n int) string {
		q := "{text(s:\"" + repeat("x", n) + "\")}"
		s.Resolve([]byte(q), yarql.ResolveOptions{})
		got := string(s.Result)
		sym.Assert(got == "{\"data\":{\"text\":\""+repeat("x", n)+"\"},\"extensions\":{}}" || len(got) > n+10, "the copy answers differently")
		return got
	}
	a := lens[sym.Choose(len(lens))]
	if a > 0 {
		ask(st.s, a)
	}
	if sym.Bool() {
		ask(st.s, 3)
	}
	c := st.s.Copy()
	d := c.Copy()
	ss := []*yarql.Schema{st.s, c, d}
	i := sym.Choose(3)
	j := (i + 1 + sym.Choose(2)) % 3
	one := ask(ss[i], lens[sym.Choose(len(lens))])
	two := ask(ss[j], lens[sym.Choose(len(lens))])
	sym.Assert(string(ss[i].Result) == one && string(ss[j].Result) == two, "the answer of the other schema is overwritten")
	sym.Cover("kept")
}

type NamQ struct {
	A     string
	B2    string
	Ab    string
	AB    string
	ABc   string
	A_b   string
	Abc_D string
	X1    string
	Xy1   string
	URLs  string
	Url   string
	ÄA    string `gq:"-"`
	T     string `gq:"Tt"`
	U     string `gq:"u_u"`
	V     string `gq:"v9"`
	Quite string `gq:"quiteALongName_1"`
}

func (NamQ) ResolveC() string    { return "ResolveC" }
func (NamQ) ResolveDd() string   { return "ResolveDd" }
func (NamQ) ResolveEE() string   { return "ResolveEE" }
func (NamQ) ResolveF_1() string  { return "ResolveF_1" }
func (NamQ) ResolveGet9() string { return "ResolveGet9" }
func (NamQ) ResolveI(a NamArgs) string {
	return a.A + "," + a.B2 + "," + a.Ab + "," + a.AB + "," + a.ABc + "," + a.A_b + "," + a.T
}

type NamArgs struct {
	A   string
	B2  string
	Ab  string
	AB  string
	ABc string
	A_b string
	T   string `gq:"Tt"`
}

type namState struct{ s *yarql.Schema }

func Setup_nam() *namState {
	return &namState{build(NamQ{"A", "B2", "Ab", "AB", "ABc", "A_b", "Abc_D", "X1", "Xy1", "URLs", "Url", "", "T", "U", "V", "Quite"}, NoM{})}
}

// namNames are the names the members have in requests, and the values.
var namNames = [][2]string{{"a", "A"}, {"B2", "B2"}, {"ab", "Ab"}, {"AB", "AB"}, {"ABc", "ABc"}, {"A_b", "A_b"}, {"abc_D", "Abc_D"}, {"X1", "X1"}, {"xy1", "Xy1"}, {"URLs", "URLs"}, {"url", "Url"},
	{"Tt", "T"}, {"u_u", "U"}, {"v9", "V"}, {"quiteALongName_1", "Quite"}, {"c", "ResolveC"}, {"dd", "ResolveDd"}, {"EE", "ResolveEE"}, {"F_1", "ResolveF_1"}, {"get9", "ResolveGet9"}}

// Run_C08_naming: the name of a member is its Go name with a small first letter, unless the second character is no small letter, or the name of its tag; no other spelling finds it. Bounds: 20 members and methods and seven arguments, each with its first or second character replaced by one of any value.
func Run_C08_naming(st *namState) {
	if sym.Bool() {
		ns := []string{"a", "B2", "ab", "AB", "ABc", "A_b", "Tt"}
		k := sym.Choose(len(ns))
		b := []byte(ns[k])
		b[0] = sym.Byte()
		sym.Assume(nameByte(b[0]) && (b[0] < '0' || b[0] > '9'))
		r := exec(st.s, "{i("+string(b)+":\"x\")}")
		at := -1
		for i, n := range ns {
			if n == string(b) {
				at = i
			}
		}
		if at < 0 {
			sym.Assert(r.failed(), "an unknown argument is accepted")
			sym.Cover("unknown")
			return
		}
		sym.Assert(!r.failed() && r.data.get("i").isStr(repeat(",", at)+"x"+repeat(",", 6-at)), "an argument is not found by its name")
		sym.Cover("known")
		return
	}
	k := sym.Choose(len(namNames))
	b := []byte(namNames[k][0])
	at := sym.Choose(2)
	sym.Assume(at < len(b))
	b[at] = sym.Byte()
	sym.Assume(nameByte(b[at]) && (b[0] < '0' || b[0] > '9'))
	name := string(b)
	r := exec(st.s, "{"+name+"}")
	for _, n := range namNames {
		if n[0] == name {
			sym.Assert(!r.failed() && r.data.get(name).isStr(n[1]), "a member is not found by its name")
			sym.Cover("known")
			return
		}
	}
	sym.Assert(r.failed() || name == "i", "an unknown name is accepted")
	sym.Cover("unknown")
}

// The types of this schema share their names with the scalars, and with each other while of another kind.
type (
	TwQ struct {
		A    String
		B    Int
		C    Boolean
		D    Float
		E    ID
		F    Time
		G    File
		Own  TwOne
		Twin TwTwo
		Ifc  TwIOne
	}
	String  struct{ A string }
	Int     struct{ B string }
	Boolean struct{ C string }
	Float   struct{ D string }
	ID      struct{ E string }
	Time    struct{ F string }
	File    struct{ G string }
	TwOne   struct{ One string }
	TwTwo   struct{ Two string }
	TwIOne  interface{ ResolveImpl() string }
	TwImpl  struct{ O string }
	twEnum1 uint8
	twEnum2 string
)

func (TwImpl) ResolveImpl() string { return "i" }

// TwFour is a type of which the name is that of an enum of another place.
type TwFour struct{ Four string }

func (TwQ) ResolveE(a struct {
	X twEnum1
	Y twEnum2
}) string {
	return "e"
}

func init() {
	yarql.Implements((*TwIOne)(nil), TwImpl{})
	yarql.TypeRename(TwOne{}, "TwIOne", true)
	yarql.TypeRename(TwTwo{}, "twEnum1", true)
	yarql.TypeRename(TwImpl{}, "twEnum2", true)
}

func twSchema() *yarql.Schema {
	s := yarql.NewSchema()
	if _, err := s.RegisterEnum(map[string]twEnum1{"A": 1, "B": 2}); err != nil {
		panic(err.Error())
	}
	if _, err := s.RegisterEnum(map[string]twEnum2{"C": "1", "D": "2"}); err != nil {
		panic(err.Error())
	}
	return parse(s, TwQ{Ifc: TwImpl{"o"}}, NoM{})
}

type twState struct{ s *yarql.Schema }

func Setup_tw() *twState { return &twState{twSchema()} }

var twNames = []string{"String", "Int", "Boolean", "Float", "ID", "Time", "File", "TwIOne", "twEnum1", "twEnum2", "TwFour"}

// Run_C37_twins: types that share their name while of different kinds (structs named like scalars, like an interface or an enum): the types listed and found by name do not depend on the order of maps. Bounds: 10 pairs of one name; built and asked with every map forwards or backwards.
func Run_C37_twins(st *twState) {
	q := "{__schema{types{name kind fields{name}enumValues{name}}}}"
	if sym.Bool() {
		q = "{__type(name:\"" + twNames[sym.Choose(len(twNames))] + "\"){name kind fields{name}enumValues{name}}}"
	}
	on := sym.Choose(2)
	sym.MapOrder(on == 0)
	s := twSchema()
	sym.MapOrder(on == 1)
	a := exec(s, q)
	sym.MapOrder(false)
	b := exec(st.s, q)
	sym.Assert(!b.failed() && a.raw == b.raw, "the order of maps changes an answer")
	sym.Cover("same")
}

// Run_C22_twins: an interface and a struct of one name: what introspection tells of each, wherever it is asked, are its own fields, whatever was asked before. Bounds: 1 pair, 4 earlier questions.
func Run_C22_twins(st *twState) {
	s := twSchema()
	switch sym.Choose(4) {
	case 1:
		exec(s, "{__schema{queryType{fields{name type{name kind fields{name} ofType{name fields{name}}}}}}}")
	case 2:
		exec(s, "{__schema{types{name possibleTypes{name}interfaces{name fields{name}}}}}")
	case 3:
		exec(s, "{__type(name:\"TwIOne\"){fields{name}}}")
	}
	r := exec(s, "{__schema{queryType{fields{name type{kind fields{name} ofType{kind fields{name}}}}}}}")
	sym.Assert(!r.failed() && strings.Contains(r.raw, `{"name":"own","type":{"kind":"NON_NULL","fields":null,"ofType":{"kind":"OBJECT","fields":[{"name":"one"}]}}}`), "the fields of a struct that shares its name with an interface")
	sym.Assert(strings.Contains(r.raw, `{"name":"ifc","type":{"kind":"INTERFACE","fields":[{"name":"impl"}],"ofType":null}}`), "the fields of an interface that shares its name with a struct")
	sym.Cover("twins")
}
