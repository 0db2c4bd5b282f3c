package h

// Written by tools/genid.py.

import (
	"time"

	"github.com/mjarkk/yarql"
)

type (
	idEnum  uint8
	idEnumS string
	idObj   struct{ A int }
	idOwn   int16
	idOwnB  bool
)

type IdOutStr struct {
	V string `gq:"v,id"`
}
type IdFnStr struct {
	V func() string `gq:"v,id"`
}
type IdResStr struct{ D int }

func (IdResStr) ResolveV() (string, yarql.AttrIsID) { return "a1", 0 }

type IdInStr struct{ D int }

func (IdInStr) ResolveV(a struct {
	V string `gq:"v,id"`
}) string {
	return a.V
}

type IdMemStr struct{ D int }

func (IdMemStr) ResolveV(a struct {
	O struct {
		V string `gq:"v,id"`
	} `gq:"o"`
}) string {
	return a.O.V
}

type IdOutInt struct {
	V int `gq:"v,id"`
}
type IdFnInt struct {
	V func() int `gq:"v,id"`
}
type IdResInt struct{ D int }

func (IdResInt) ResolveV() (int, yarql.AttrIsID) { return 7, 0 }

type IdInInt struct{ D int }

func (IdInInt) ResolveV(a struct {
	V int `gq:"v,id"`
}) int {
	return a.V
}

type IdMemInt struct{ D int }

func (IdMemInt) ResolveV(a struct {
	O struct {
		V int `gq:"v,id"`
	} `gq:"o"`
}) int {
	return a.O.V
}

type IdOutI8 struct {
	V int8 `gq:"v,id"`
}
type IdFnI8 struct {
	V func() int8 `gq:"v,id"`
}
type IdResI8 struct{ D int }

func (IdResI8) ResolveV() (int8, yarql.AttrIsID) { return 7, 0 }

type IdInI8 struct{ D int }

func (IdInI8) ResolveV(a struct {
	V int8 `gq:"v,id"`
}) int8 {
	return a.V
}

type IdMemI8 struct{ D int }

func (IdMemI8) ResolveV(a struct {
	O struct {
		V int8 `gq:"v,id"`
	} `gq:"o"`
}) int8 {
	return a.O.V
}

type IdOutI16 struct {
	V int16 `gq:"v,id"`
}
type IdFnI16 struct {
	V func() int16 `gq:"v,id"`
}
type IdResI16 struct{ D int }

func (IdResI16) ResolveV() (int16, yarql.AttrIsID) { return 7, 0 }

type IdInI16 struct{ D int }

func (IdInI16) ResolveV(a struct {
	V int16 `gq:"v,id"`
}) int16 {
	return a.V
}

type IdMemI16 struct{ D int }

func (IdMemI16) ResolveV(a struct {
	O struct {
		V int16 `gq:"v,id"`
	} `gq:"o"`
}) int16 {
	return a.O.V
}

type IdOutI32 struct {
	V int32 `gq:"v,id"`
}
type IdFnI32 struct {
	V func() int32 `gq:"v,id"`
}
type IdResI32 struct{ D int }

func (IdResI32) ResolveV() (int32, yarql.AttrIsID) { return 7, 0 }

type IdInI32 struct{ D int }

func (IdInI32) ResolveV(a struct {
	V int32 `gq:"v,id"`
}) int32 {
	return a.V
}

type IdMemI32 struct{ D int }

func (IdMemI32) ResolveV(a struct {
	O struct {
		V int32 `gq:"v,id"`
	} `gq:"o"`
}) int32 {
	return a.O.V
}

type IdOutI64 struct {
	V int64 `gq:"v,id"`
}
type IdFnI64 struct {
	V func() int64 `gq:"v,id"`
}
type IdResI64 struct{ D int }

func (IdResI64) ResolveV() (int64, yarql.AttrIsID) { return 7, 0 }

type IdInI64 struct{ D int }

func (IdInI64) ResolveV(a struct {
	V int64 `gq:"v,id"`
}) int64 {
	return a.V
}

type IdMemI64 struct{ D int }

func (IdMemI64) ResolveV(a struct {
	O struct {
		V int64 `gq:"v,id"`
	} `gq:"o"`
}) int64 {
	return a.O.V
}

type IdOutU struct {
	V uint `gq:"v,id"`
}
type IdFnU struct {
	V func() uint `gq:"v,id"`
}
type IdResU struct{ D int }

func (IdResU) ResolveV() (uint, yarql.AttrIsID) { return 7, 0 }

type IdInU struct{ D int }

func (IdInU) ResolveV(a struct {
	V uint `gq:"v,id"`
}) uint {
	return a.V
}

type IdMemU struct{ D int }

func (IdMemU) ResolveV(a struct {
	O struct {
		V uint `gq:"v,id"`
	} `gq:"o"`
}) uint {
	return a.O.V
}

type IdOutU8 struct {
	V uint8 `gq:"v,id"`
}
type IdFnU8 struct {
	V func() uint8 `gq:"v,id"`
}
type IdResU8 struct{ D int }

func (IdResU8) ResolveV() (uint8, yarql.AttrIsID) { return 7, 0 }

type IdInU8 struct{ D int }

func (IdInU8) ResolveV(a struct {
	V uint8 `gq:"v,id"`
}) uint8 {
	return a.V
}

type IdMemU8 struct{ D int }

func (IdMemU8) ResolveV(a struct {
	O struct {
		V uint8 `gq:"v,id"`
	} `gq:"o"`
}) uint8 {
	return a.O.V
}

type IdOutU16 struct {
	V uint16 `gq:"v,id"`
}
type IdFnU16 struct {
	V func() uint16 `gq:"v,id"`
}
type IdResU16 struct{ D int }

func (IdResU16) ResolveV() (uint16, yarql.AttrIsID) { return 7, 0 }

type IdInU16 struct{ D int }

func (IdInU16) ResolveV(a struct {
	V uint16 `gq:"v,id"`
}) uint16 {
	return a.V
}

type IdMemU16 struct{ D int }

func (IdMemU16) ResolveV(a struct {
	O struct {
		V uint16 `gq:"v,id"`
	} `gq:"o"`
}) uint16 {
	return a.O.V
}

type IdOutU32 struct {
	V uint32 `gq:"v,id"`
}
type IdFnU32 struct {
	V func() uint32 `gq:"v,id"`
}
type IdResU32 struct{ D int }

func (IdResU32) ResolveV() (uint32, yarql.AttrIsID) { return 7, 0 }

type IdInU32 struct{ D int }

func (IdInU32) ResolveV(a struct {
	V uint32 `gq:"v,id"`
}) uint32 {
	return a.V
}

type IdMemU32 struct{ D int }

func (IdMemU32) ResolveV(a struct {
	O struct {
		V uint32 `gq:"v,id"`
	} `gq:"o"`
}) uint32 {
	return a.O.V
}

type IdOutU64 struct {
	V uint64 `gq:"v,id"`
}
type IdFnU64 struct {
	V func() uint64 `gq:"v,id"`
}
type IdResU64 struct{ D int }

func (IdResU64) ResolveV() (uint64, yarql.AttrIsID) { return 7, 0 }

type IdInU64 struct{ D int }

func (IdInU64) ResolveV(a struct {
	V uint64 `gq:"v,id"`
}) uint64 {
	return a.V
}

type IdMemU64 struct{ D int }

func (IdMemU64) ResolveV(a struct {
	O struct {
		V uint64 `gq:"v,id"`
	} `gq:"o"`
}) uint64 {
	return a.O.V
}

type IdOutF32 struct {
	V float32 `gq:"v,id"`
}
type IdFnF32 struct {
	V func() float32 `gq:"v,id"`
}
type IdResF32 struct{ D int }

func (IdResF32) ResolveV() (float32, yarql.AttrIsID) { return 7, 0 }

type IdInF32 struct{ D int }

func (IdInF32) ResolveV(a struct {
	V float32 `gq:"v,id"`
}) float32 {
	return a.V
}

type IdMemF32 struct{ D int }

func (IdMemF32) ResolveV(a struct {
	O struct {
		V float32 `gq:"v,id"`
	} `gq:"o"`
}) float32 {
	return a.O.V
}

type IdOutF64 struct {
	V float64 `gq:"v,id"`
}
type IdFnF64 struct {
	V func() float64 `gq:"v,id"`
}
type IdResF64 struct{ D int }

func (IdResF64) ResolveV() (float64, yarql.AttrIsID) { return 7, 0 }

type IdInF64 struct{ D int }

func (IdInF64) ResolveV(a struct {
	V float64 `gq:"v,id"`
}) float64 {
	return a.V
}

type IdMemF64 struct{ D int }

func (IdMemF64) ResolveV(a struct {
	O struct {
		V float64 `gq:"v,id"`
	} `gq:"o"`
}) float64 {
	return a.O.V
}

type IdOutBool struct {
	V bool `gq:"v,id"`
}
type IdFnBool struct {
	V func() bool `gq:"v,id"`
}
type IdResBool struct{ D int }

func (IdResBool) ResolveV() (bool, yarql.AttrIsID) { return true, 0 }

type IdInBool struct{ D int }

func (IdInBool) ResolveV(a struct {
	V bool `gq:"v,id"`
}) bool {
	return a.V
}

type IdMemBool struct{ D int }

func (IdMemBool) ResolveV(a struct {
	O struct {
		V bool `gq:"v,id"`
	} `gq:"o"`
}) bool {
	return a.O.V
}

type IdOutPStr struct {
	V *string `gq:"v,id"`
}
type IdFnPStr struct {
	V func() *string `gq:"v,id"`
}
type IdResPStr struct{ D int }

func (IdResPStr) ResolveV() (*string, yarql.AttrIsID) { return new(string), 0 }

type IdInPStr struct{ D int }

func (IdInPStr) ResolveV(a struct {
	V *string `gq:"v,id"`
}) *string {
	return a.V
}

type IdMemPStr struct{ D int }

func (IdMemPStr) ResolveV(a struct {
	O struct {
		V *string `gq:"v,id"`
	} `gq:"o"`
}) *string {
	return a.O.V
}

type IdOutPInt struct {
	V *int `gq:"v,id"`
}
type IdFnPInt struct {
	V func() *int `gq:"v,id"`
}
type IdResPInt struct{ D int }

func (IdResPInt) ResolveV() (*int, yarql.AttrIsID) { return new(int), 0 }

type IdInPInt struct{ D int }

func (IdInPInt) ResolveV(a struct {
	V *int `gq:"v,id"`
}) *int {
	return a.V
}

type IdMemPInt struct{ D int }

func (IdMemPInt) ResolveV(a struct {
	O struct {
		V *int `gq:"v,id"`
	} `gq:"o"`
}) *int {
	return a.O.V
}

type IdOutPBool struct {
	V *bool `gq:"v,id"`
}
type IdFnPBool struct {
	V func() *bool `gq:"v,id"`
}
type IdResPBool struct{ D int }

func (IdResPBool) ResolveV() (*bool, yarql.AttrIsID) { return new(bool), 0 }

type IdInPBool struct{ D int }

func (IdInPBool) ResolveV(a struct {
	V *bool `gq:"v,id"`
}) *bool {
	return a.V
}

type IdMemPBool struct{ D int }

func (IdMemPBool) ResolveV(a struct {
	O struct {
		V *bool `gq:"v,id"`
	} `gq:"o"`
}) *bool {
	return a.O.V
}

type IdOutPF struct {
	V *float64 `gq:"v,id"`
}
type IdFnPF struct {
	V func() *float64 `gq:"v,id"`
}
type IdResPF struct{ D int }

func (IdResPF) ResolveV() (*float64, yarql.AttrIsID) { return new(float64), 0 }

type IdInPF struct{ D int }

func (IdInPF) ResolveV(a struct {
	V *float64 `gq:"v,id"`
}) *float64 {
	return a.V
}

type IdMemPF struct{ D int }

func (IdMemPF) ResolveV(a struct {
	O struct {
		V *float64 `gq:"v,id"`
	} `gq:"o"`
}) *float64 {
	return a.O.V
}

type IdOutLStr struct {
	V []string `gq:"v,id"`
}
type IdFnLStr struct {
	V func() []string `gq:"v,id"`
}
type IdResLStr struct{ D int }

func (IdResLStr) ResolveV() ([]string, yarql.AttrIsID) { return []string{"a1"}, 0 }

type IdInLStr struct{ D int }

func (IdInLStr) ResolveV(a struct {
	V []string `gq:"v,id"`
}) []string {
	return a.V
}

type IdMemLStr struct{ D int }

func (IdMemLStr) ResolveV(a struct {
	O struct {
		V []string `gq:"v,id"`
	} `gq:"o"`
}) []string {
	return a.O.V
}

type IdOutLInt struct {
	V []int `gq:"v,id"`
}
type IdFnLInt struct {
	V func() []int `gq:"v,id"`
}
type IdResLInt struct{ D int }

func (IdResLInt) ResolveV() ([]int, yarql.AttrIsID) { return []int{7}, 0 }

type IdInLInt struct{ D int }

func (IdInLInt) ResolveV(a struct {
	V []int `gq:"v,id"`
}) []int {
	return a.V
}

type IdMemLInt struct{ D int }

func (IdMemLInt) ResolveV(a struct {
	O struct {
		V []int `gq:"v,id"`
	} `gq:"o"`
}) []int {
	return a.O.V
}

type IdOutLBool struct {
	V []bool `gq:"v,id"`
}
type IdFnLBool struct {
	V func() []bool `gq:"v,id"`
}
type IdResLBool struct{ D int }

func (IdResLBool) ResolveV() ([]bool, yarql.AttrIsID) { return []bool{true}, 0 }

type IdInLBool struct{ D int }

func (IdInLBool) ResolveV(a struct {
	V []bool `gq:"v,id"`
}) []bool {
	return a.V
}

type IdMemLBool struct{ D int }

func (IdMemLBool) ResolveV(a struct {
	O struct {
		V []bool `gq:"v,id"`
	} `gq:"o"`
}) []bool {
	return a.O.V
}

type IdOutLPInt struct {
	V []*int `gq:"v,id"`
}
type IdFnLPInt struct {
	V func() []*int `gq:"v,id"`
}
type IdResLPInt struct{ D int }

func (IdResLPInt) ResolveV() ([]*int, yarql.AttrIsID) { return []*int{nil}, 0 }

type IdInLPInt struct{ D int }

func (IdInLPInt) ResolveV(a struct {
	V []*int `gq:"v,id"`
}) []*int {
	return a.V
}

type IdMemLPInt struct{ D int }

func (IdMemLPInt) ResolveV(a struct {
	O struct {
		V []*int `gq:"v,id"`
	} `gq:"o"`
}) []*int {
	return a.O.V
}

type IdOutTime struct {
	V time.Time `gq:"v,id"`
}
type IdFnTime struct {
	V func() time.Time `gq:"v,id"`
}
type IdResTime struct{ D int }

func (IdResTime) ResolveV() (time.Time, yarql.AttrIsID) { return time.Time{}, 0 }

type IdInTime struct{ D int }

func (IdInTime) ResolveV(a struct {
	V time.Time `gq:"v,id"`
}) time.Time {
	return a.V
}

type IdMemTime struct{ D int }

func (IdMemTime) ResolveV(a struct {
	O struct {
		V time.Time `gq:"v,id"`
	} `gq:"o"`
}) time.Time {
	return a.O.V
}

type IdOutEnum struct {
	V idEnum `gq:"v,id"`
}
type IdFnEnum struct {
	V func() idEnum `gq:"v,id"`
}
type IdResEnum struct{ D int }

func (IdResEnum) ResolveV() (idEnum, yarql.AttrIsID) { return 1, 0 }

type IdInEnum struct{ D int }

func (IdInEnum) ResolveV(a struct {
	V idEnum `gq:"v,id"`
}) idEnum {
	return a.V
}

type IdMemEnum struct{ D int }

func (IdMemEnum) ResolveV(a struct {
	O struct {
		V idEnum `gq:"v,id"`
	} `gq:"o"`
}) idEnum {
	return a.O.V
}

type IdOutEnumS struct {
	V idEnumS `gq:"v,id"`
}
type IdFnEnumS struct {
	V func() idEnumS `gq:"v,id"`
}
type IdResEnumS struct{ D int }

func (IdResEnumS) ResolveV() (idEnumS, yarql.AttrIsID) { return "s", 0 }

type IdInEnumS struct{ D int }

func (IdInEnumS) ResolveV(a struct {
	V idEnumS `gq:"v,id"`
}) idEnumS {
	return a.V
}

type IdMemEnumS struct{ D int }

func (IdMemEnumS) ResolveV(a struct {
	O struct {
		V idEnumS `gq:"v,id"`
	} `gq:"o"`
}) idEnumS {
	return a.O.V
}

type IdOutObj struct {
	V idObj `gq:"v,id"`
}
type IdFnObj struct {
	V func() idObj `gq:"v,id"`
}
type IdResObj struct{ D int }

func (IdResObj) ResolveV() (idObj, yarql.AttrIsID) { return idObj{}, 0 }

type IdInObj struct{ D int }

func (IdInObj) ResolveV(a struct {
	V idObj `gq:"v,id"`
}) idObj {
	return a.V
}

type IdMemObj struct{ D int }

func (IdMemObj) ResolveV(a struct {
	O struct {
		V idObj `gq:"v,id"`
	} `gq:"o"`
}) idObj {
	return a.O.V
}

type IdOutOwn struct {
	V idOwn `gq:"v,id"`
}
type IdFnOwn struct {
	V func() idOwn `gq:"v,id"`
}
type IdResOwn struct{ D int }

func (IdResOwn) ResolveV() (idOwn, yarql.AttrIsID) { return 7, 0 }

type IdInOwn struct{ D int }

func (IdInOwn) ResolveV(a struct {
	V idOwn `gq:"v,id"`
}) idOwn {
	return a.V
}

type IdMemOwn struct{ D int }

func (IdMemOwn) ResolveV(a struct {
	O struct {
		V idOwn `gq:"v,id"`
	} `gq:"o"`
}) idOwn {
	return a.O.V
}

type IdOutOwnB struct {
	V idOwnB `gq:"v,id"`
}
type IdFnOwnB struct {
	V func() idOwnB `gq:"v,id"`
}
type IdResOwnB struct{ D int }

func (IdResOwnB) ResolveV() (idOwnB, yarql.AttrIsID) { return true, 0 }

type IdInOwnB struct{ D int }

func (IdInOwnB) ResolveV(a struct {
	V idOwnB `gq:"v,id"`
}) idOwnB {
	return a.V
}

type IdMemOwnB struct{ D int }

func (IdMemOwnB) ResolveV(a struct {
	O struct {
		V idOwnB `gq:"v,id"`
	} `gq:"o"`
}) idOwnB {
	return a.O.V
}

type IdOutPP struct {
	V **string `gq:"v,id"`
}
type IdFnPP struct {
	V func() **string `gq:"v,id"`
}
type IdResPP struct{ D int }

func (IdResPP) ResolveV() (**string, yarql.AttrIsID) { return new(*string), 0 }

type IdInPP struct{ D int }

func (IdInPP) ResolveV(a struct {
	V **string `gq:"v,id"`
}) **string {
	return a.V
}

type IdMemPP struct{ D int }

func (IdMemPP) ResolveV(a struct {
	O struct {
		V **string `gq:"v,id"`
	} `gq:"o"`
}) **string {
	return a.O.V
}

type IdOutLL struct {
	V [][]int `gq:"v,id"`
}
type IdFnLL struct {
	V func() [][]int `gq:"v,id"`
}
type IdResLL struct{ D int }

func (IdResLL) ResolveV() ([][]int, yarql.AttrIsID) { return [][]int{{7}}, 0 }

type IdInLL struct{ D int }

func (IdInLL) ResolveV(a struct {
	V [][]int `gq:"v,id"`
}) [][]int {
	return a.V
}

type IdMemLL struct{ D int }

func (IdMemLL) ResolveV(a struct {
	O struct {
		V [][]int `gq:"v,id"`
	} `gq:"o"`
}) [][]int {
	return a.O.V
}

type IdOutArr struct {
	V [2]int `gq:"v,id"`
}
type IdFnArr struct {
	V func() [2]int `gq:"v,id"`
}
type IdResArr struct{ D int }

func (IdResArr) ResolveV() ([2]int, yarql.AttrIsID) { return [2]int{7, 7}, 0 }

type IdInArr struct{ D int }

func (IdInArr) ResolveV(a struct {
	V [2]int `gq:"v,id"`
}) [2]int {
	return a.V
}

type IdMemArr struct{ D int }

func (IdMemArr) ResolveV(a struct {
	O struct {
		V [2]int `gq:"v,id"`
	} `gq:"o"`
}) [2]int {
	return a.O.V
}

var idKinds = []struct {
	t                     string
	out, fn, res, in, mem interface{}
	arg                   string
}{
	{"string", IdOutStr{"a1"}, IdFnStr{func() string { return "a1" }}, IdResStr{}, IdInStr{}, IdMemStr{}, `"#x"`},
	{"int", IdOutInt{7}, IdFnInt{func() int { return 7 }}, IdResInt{}, IdInInt{}, IdMemInt{}, `#`},
	{"int8", IdOutI8{7}, IdFnI8{func() int8 { return 7 }}, IdResI8{}, IdInI8{}, IdMemI8{}, `#`},
	{"int16", IdOutI16{7}, IdFnI16{func() int16 { return 7 }}, IdResI16{}, IdInI16{}, IdMemI16{}, `#`},
	{"int32", IdOutI32{7}, IdFnI32{func() int32 { return 7 }}, IdResI32{}, IdInI32{}, IdMemI32{}, `#`},
	{"int64", IdOutI64{7}, IdFnI64{func() int64 { return 7 }}, IdResI64{}, IdInI64{}, IdMemI64{}, `#`},
	{"uint", IdOutU{7}, IdFnU{func() uint { return 7 }}, IdResU{}, IdInU{}, IdMemU{}, `#`},
	{"uint8", IdOutU8{7}, IdFnU8{func() uint8 { return 7 }}, IdResU8{}, IdInU8{}, IdMemU8{}, `#`},
	{"uint16", IdOutU16{7}, IdFnU16{func() uint16 { return 7 }}, IdResU16{}, IdInU16{}, IdMemU16{}, `#`},
	{"uint32", IdOutU32{7}, IdFnU32{func() uint32 { return 7 }}, IdResU32{}, IdInU32{}, IdMemU32{}, `#`},
	{"uint64", IdOutU64{7}, IdFnU64{func() uint64 { return 7 }}, IdResU64{}, IdInU64{}, IdMemU64{}, `#`},
	{"float32", IdOutF32{7}, IdFnF32{func() float32 { return 7 }}, IdResF32{}, IdInF32{}, IdMemF32{}, `#`},
	{"float64", IdOutF64{7}, IdFnF64{func() float64 { return 7 }}, IdResF64{}, IdInF64{}, IdMemF64{}, `#`},
	{"bool", IdOutBool{true}, IdFnBool{func() bool { return true }}, IdResBool{}, IdInBool{}, IdMemBool{}, `true`},
	{"*string", IdOutPStr{new(string)}, IdFnPStr{func() *string { return new(string) }}, IdResPStr{}, IdInPStr{}, IdMemPStr{}, `"#x"`},
	{"*int", IdOutPInt{new(int)}, IdFnPInt{func() *int { return new(int) }}, IdResPInt{}, IdInPInt{}, IdMemPInt{}, `#`},
	{"*bool", IdOutPBool{new(bool)}, IdFnPBool{func() *bool { return new(bool) }}, IdResPBool{}, IdInPBool{}, IdMemPBool{}, `true`},
	{"*float64", IdOutPF{new(float64)}, IdFnPF{func() *float64 { return new(float64) }}, IdResPF{}, IdInPF{}, IdMemPF{}, `#`},
	{"[]string", IdOutLStr{[]string{"a1"}}, IdFnLStr{func() []string { return []string{"a1"} }}, IdResLStr{}, IdInLStr{}, IdMemLStr{}, `["#x"]`},
	{"[]int", IdOutLInt{[]int{7}}, IdFnLInt{func() []int { return []int{7} }}, IdResLInt{}, IdInLInt{}, IdMemLInt{}, `[#]`},
	{"[]bool", IdOutLBool{[]bool{true}}, IdFnLBool{func() []bool { return []bool{true} }}, IdResLBool{}, IdInLBool{}, IdMemLBool{}, `[true]`},
	{"[]*int", IdOutLPInt{[]*int{nil}}, IdFnLPInt{func() []*int { return []*int{nil} }}, IdResLPInt{}, IdInLPInt{}, IdMemLPInt{}, `[#]`},
	{"time.Time", IdOutTime{time.Time{}}, IdFnTime{func() time.Time { return time.Time{} }}, IdResTime{}, IdInTime{}, IdMemTime{}, ``},
	{"idEnum", IdOutEnum{1}, IdFnEnum{func() idEnum { return 1 }}, IdResEnum{}, IdInEnum{}, IdMemEnum{}, `E1`},
	{"idEnumS", IdOutEnumS{"s"}, IdFnEnumS{func() idEnumS { return "s" }}, IdResEnumS{}, IdInEnumS{}, IdMemEnumS{}, `S1`},
	{"idObj", IdOutObj{idObj{}}, IdFnObj{func() idObj { return idObj{} }}, IdResObj{}, IdInObj{}, IdMemObj{}, ``},
	{"idOwn", IdOutOwn{7}, IdFnOwn{func() idOwn { return 7 }}, IdResOwn{}, IdInOwn{}, IdMemOwn{}, `#`},
	{"idOwnB", IdOutOwnB{true}, IdFnOwnB{func() idOwnB { return true }}, IdResOwnB{}, IdInOwnB{}, IdMemOwnB{}, `true`},
	{"**string", IdOutPP{new(*string)}, IdFnPP{func() **string { return new(*string) }}, IdResPP{}, IdInPP{}, IdMemPP{}, `"#x"`},
	{"[][]int", IdOutLL{[][]int{{7}}}, IdFnLL{func() [][]int { return [][]int{{7}} }}, IdResLL{}, IdInLL{}, IdMemLL{}, `[[#]]`},
	{"[2]int", IdOutArr{[2]int{7, 7}}, IdFnArr{func() [2]int { return [2]int{7, 7} }}, IdResArr{}, IdInArr{}, IdMemArr{}, ``},
}
