package h

// Written by tools/genbuild.py.

import (
	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"
)

type (
	bdOwn    int16
	bdEnum   string
	bdNoImpl interface{ ResolveX() string }
	bdImpl   interface{ ResolveX() bdImpl }
	bdImpls  struct{ N int }
	bdL      []bdL
	bdP      *bdP
	bdLP     []*bdLP
	bdA      [2]*bdA
	bdRing   []bdRing2
	bdRing2  []*bdRing
	bdM      map[string]bdM
	bdF      func() bdF
	bdO      struct {
		L []bdO
		P *bdO
		N int
	}
	bdX struct {
		Y *bdY
		N int
	}
	bdY struct {
		X []bdX
		N int
	}
	bdS []struct {
		X bdS
		N int
	}
)

func (b bdImpls) ResolveX() bdImpl { return b }

type bdCase struct {
	name string
	root interface{}
	ok   bool
	q    string
}

func bdRoles() []bdCase {
	return []bdCase{
		{"member string", struct{ F string }{}, true, `{f}`},
		{"member bool", struct{ F bool }{}, true, `{f}`},
		{"member int64", struct{ F int64 }{}, true, `{f}`},
		{"member uint8", struct{ F uint8 }{}, true, `{f}`},
		{"member float32", struct{ F float32 }{}, true, `{f}`},
		{"member float64", struct{ F float64 }{}, true, `{f}`},
		{"member time", struct{ F time.Time }{}, true, `{f}`},
		{"member ptime", struct{ F *time.Time }{}, true, `{f}`},
		{"member dur", struct{ F time.Duration }{}, true, `{f}`},
		{"member month", struct{ F time.Month }{}, true, `{f}`},
		{"member header", struct{ F multipart.Form }{}, false, ``},
		{"member own", struct{ F bdOwn }{}, true, `{f}`},
		{"member enum", struct{ F bdEnum }{}, true, `{f}`},
		{"member file", struct{ F *multipart.FileHeader }{}, false, ``},
		{"member chan", struct{ F chan int }{}, false, ``},
		{"member map", struct{ F map[string]int }{}, false, ``},
		{"member c64", struct{ F complex64 }{}, false, ``},
		{"member c128", struct{ F complex128 }{}, false, ``},
		{"member uintptr", struct{ F uintptr }{}, false, ``},
		{"member any", struct{ F interface{} }{}, false, ``},
		{"member inline", struct {
			F interface{ ResolveX() string }
		}{}, false, ``},
		{"member noimpl", struct{ F bdNoImpl }{}, false, ``},
		{"member impl", struct{ F bdImpl }{}, true, `{f{__typename}}`},
		{"member error", struct{ F error }{}, false, ``},
		{"member func0", struct{ F func() }{}, false, ``},
		{"member funcE", struct{ F func() error }{}, false, ``},
		{"member L", struct{ F bdL }{}, false, ``},
		{"member P", struct{ F bdP }{}, false, ``},
		{"member LP", struct{ F bdLP }{}, false, ``},
		{"member A", struct{ F bdA }{}, false, ``},
		{"member ring", struct{ F bdRing }{}, false, ``},
		{"member M", struct{ F bdM }{}, false, ``},
		{"member F", struct{ F bdF }{}, false, ``},
		{"member O", struct{ F bdO }{}, true, `{f{n l{n}p{n}}}`},
		{"member mutual", struct{ F bdX }{}, true, `{f{y{x{n}n}}}`},
		{"member S", struct{ F bdS }{}, true, `{f{n x{n}}}`},
		{"member anon", struct{ F struct{ A int } }{}, true, `{f{a}}`},
		{"member bad", struct{ F struct{ A []chan int } }{}, false, ``},
		{"member hid", struct {
			F struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, true, `{f{b}}`},
		{"member unx", struct {
			F struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"member empty", struct{ F struct{} }{}, true, `{f{__typename}}`},
		{"member LL", struct{ F [][]*int }{}, true, `{f}`},
		{"member arr", struct{ F [2]string }{}, true, `{f}`},
		{"member arrbad", struct{ F [2]map[int]int }{}, false, ``},
		{"list string", struct{ F []string }{}, true, `{f}`},
		{"list bool", struct{ F []bool }{}, true, `{f}`},
		{"list int64", struct{ F []int64 }{}, true, `{f}`},
		{"list uint8", struct{ F []uint8 }{}, true, `{f}`},
		{"list float32", struct{ F []float32 }{}, true, `{f}`},
		{"list float64", struct{ F []float64 }{}, true, `{f}`},
		{"list time", struct{ F []time.Time }{}, true, `{f}`},
		{"list ptime", struct{ F []*time.Time }{}, true, `{f}`},
		{"list dur", struct{ F []time.Duration }{}, true, `{f}`},
		{"list month", struct{ F []time.Month }{}, true, `{f}`},
		{"list header", struct{ F []multipart.Form }{}, false, ``},
		{"list own", struct{ F []bdOwn }{}, true, `{f}`},
		{"list enum", struct{ F []bdEnum }{}, true, `{f}`},
		{"list file", struct{ F []*multipart.FileHeader }{}, false, ``},
		{"list chan", struct{ F []chan int }{}, false, ``},
		{"list map", struct{ F []map[string]int }{}, false, ``},
		{"list c64", struct{ F []complex64 }{}, false, ``},
		{"list c128", struct{ F []complex128 }{}, false, ``},
		{"list uintptr", struct{ F []uintptr }{}, false, ``},
		{"list any", struct{ F []interface{} }{}, false, ``},
		{"list inline", struct {
			F []interface{ ResolveX() string }
		}{}, false, ``},
		{"list noimpl", struct{ F []bdNoImpl }{}, false, ``},
		{"list impl", struct{ F []bdImpl }{}, true, `{f{__typename}}`},
		{"list error", struct{ F []error }{}, false, ``},
		{"list func0", struct{ F []func() }{}, false, ``},
		{"list funcE", struct{ F []func() error }{}, false, ``},
		{"list L", struct{ F []bdL }{}, false, ``},
		{"list P", struct{ F []bdP }{}, false, ``},
		{"list LP", struct{ F []bdLP }{}, false, ``},
		{"list A", struct{ F []bdA }{}, false, ``},
		{"list ring", struct{ F []bdRing }{}, false, ``},
		{"list M", struct{ F []bdM }{}, false, ``},
		{"list F", struct{ F []bdF }{}, false, ``},
		{"list O", struct{ F []bdO }{}, true, `{f{n l{n}p{n}}}`},
		{"list mutual", struct{ F []bdX }{}, true, `{f{y{x{n}n}}}`},
		{"list S", struct{ F []bdS }{}, true, `{f{n x{n}}}`},
		{"list anon", struct{ F []struct{ A int } }{}, true, `{f{a}}`},
		{"list bad", struct{ F []struct{ A []chan int } }{}, false, ``},
		{"list hid", struct {
			F []struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, true, `{f{b}}`},
		{"list unx", struct {
			F []struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"list empty", struct{ F []struct{} }{}, true, `{f{__typename}}`},
		{"list LL", struct{ F [][][]*int }{}, true, `{f}`},
		{"list arr", struct{ F [][2]string }{}, true, `{f}`},
		{"list arrbad", struct{ F [][2]map[int]int }{}, false, ``},
		{"pointer string", struct{ F *string }{}, true, `{f}`},
		{"pointer bool", struct{ F *bool }{}, true, `{f}`},
		{"pointer int64", struct{ F *int64 }{}, true, `{f}`},
		{"pointer uint8", struct{ F *uint8 }{}, true, `{f}`},
		{"pointer float32", struct{ F *float32 }{}, true, `{f}`},
		{"pointer float64", struct{ F *float64 }{}, true, `{f}`},
		{"pointer time", struct{ F *time.Time }{}, true, `{f}`},
		{"pointer ptime", struct{ F **time.Time }{}, true, `{f}`},
		{"pointer dur", struct{ F *time.Duration }{}, true, `{f}`},
		{"pointer month", struct{ F *time.Month }{}, true, `{f}`},
		{"pointer header", struct{ F *multipart.Form }{}, false, ``},
		{"pointer own", struct{ F *bdOwn }{}, true, `{f}`},
		{"pointer enum", struct{ F *bdEnum }{}, true, `{f}`},
		{"pointer file", struct{ F **multipart.FileHeader }{}, false, ``},
		{"pointer chan", struct{ F *chan int }{}, false, ``},
		{"pointer map", struct{ F *map[string]int }{}, false, ``},
		{"pointer c64", struct{ F *complex64 }{}, false, ``},
		{"pointer c128", struct{ F *complex128 }{}, false, ``},
		{"pointer uintptr", struct{ F *uintptr }{}, false, ``},
		{"pointer any", struct{ F *interface{} }{}, false, ``},
		{"pointer inline", struct {
			F *interface{ ResolveX() string }
		}{}, false, ``},
		{"pointer noimpl", struct{ F *bdNoImpl }{}, false, ``},
		{"pointer impl", struct{ F *bdImpl }{}, true, `{f{__typename}}`},
		{"pointer error", struct{ F *error }{}, false, ``},
		{"pointer func0", struct{ F *func() }{}, false, ``},
		{"pointer funcE", struct{ F *func() error }{}, false, ``},
		{"pointer L", struct{ F *bdL }{}, false, ``},
		{"pointer P", struct{ F *bdP }{}, false, ``},
		{"pointer LP", struct{ F *bdLP }{}, false, ``},
		{"pointer A", struct{ F *bdA }{}, false, ``},
		{"pointer ring", struct{ F *bdRing }{}, false, ``},
		{"pointer M", struct{ F *bdM }{}, false, ``},
		{"pointer F", struct{ F *bdF }{}, false, ``},
		{"pointer O", struct{ F *bdO }{}, true, `{f{n l{n}p{n}}}`},
		{"pointer mutual", struct{ F *bdX }{}, true, `{f{y{x{n}n}}}`},
		{"pointer S", struct{ F *bdS }{}, true, `{f{n x{n}}}`},
		{"pointer anon", struct{ F *struct{ A int } }{}, true, `{f{a}}`},
		{"pointer bad", struct{ F *struct{ A []chan int } }{}, false, ``},
		{"pointer hid", struct {
			F *struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, true, `{f{b}}`},
		{"pointer unx", struct {
			F *struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"pointer empty", struct{ F *struct{} }{}, true, `{f{__typename}}`},
		{"pointer LL", struct{ F *[][]*int }{}, true, `{f}`},
		{"pointer arr", struct{ F *[2]string }{}, true, `{f}`},
		{"pointer arrbad", struct{ F *[2]map[int]int }{}, false, ``},
		{"array string", struct{ F [2]string }{}, true, `{f}`},
		{"array bool", struct{ F [2]bool }{}, true, `{f}`},
		{"array int64", struct{ F [2]int64 }{}, true, `{f}`},
		{"array uint8", struct{ F [2]uint8 }{}, true, `{f}`},
		{"array float32", struct{ F [2]float32 }{}, true, `{f}`},
		{"array float64", struct{ F [2]float64 }{}, true, `{f}`},
		{"array time", struct{ F [2]time.Time }{}, true, `{f}`},
		{"array ptime", struct{ F [2]*time.Time }{}, true, `{f}`},
		{"array dur", struct{ F [2]time.Duration }{}, true, `{f}`},
		{"array month", struct{ F [2]time.Month }{}, true, `{f}`},
		{"array header", struct{ F [2]multipart.Form }{}, false, ``},
		{"array own", struct{ F [2]bdOwn }{}, true, `{f}`},
		{"array enum", struct{ F [2]bdEnum }{}, true, `{f}`},
		{"array file", struct{ F [2]*multipart.FileHeader }{}, false, ``},
		{"array chan", struct{ F [2]chan int }{}, false, ``},
		{"array map", struct{ F [2]map[string]int }{}, false, ``},
		{"array c64", struct{ F [2]complex64 }{}, false, ``},
		{"array c128", struct{ F [2]complex128 }{}, false, ``},
		{"array uintptr", struct{ F [2]uintptr }{}, false, ``},
		{"array any", struct{ F [2]interface{} }{}, false, ``},
		{"array inline", struct {
			F [2]interface{ ResolveX() string }
		}{}, false, ``},
		{"array noimpl", struct{ F [2]bdNoImpl }{}, false, ``},
		{"array impl", struct{ F [2]bdImpl }{}, true, `{f{__typename}}`},
		{"array error", struct{ F [2]error }{}, false, ``},
		{"array func0", struct{ F [2]func() }{}, false, ``},
		{"array funcE", struct{ F [2]func() error }{}, false, ``},
		{"array L", struct{ F [2]bdL }{}, false, ``},
		{"array P", struct{ F [2]bdP }{}, false, ``},
		{"array LP", struct{ F [2]bdLP }{}, false, ``},
		{"array A", struct{ F [2]bdA }{}, false, ``},
		{"array ring", struct{ F [2]bdRing }{}, false, ``},
		{"array M", struct{ F [2]bdM }{}, false, ``},
		{"array F", struct{ F [2]bdF }{}, false, ``},
		{"array O", struct{ F [2]bdO }{}, true, `{f{n l{n}p{n}}}`},
		{"array mutual", struct{ F [2]bdX }{}, true, `{f{y{x{n}n}}}`},
		{"array S", struct{ F [2]bdS }{}, true, `{f{n x{n}}}`},
		{"array anon", struct{ F [2]struct{ A int } }{}, true, `{f{a}}`},
		{"array bad", struct{ F [2]struct{ A []chan int } }{}, false, ``},
		{"array hid", struct {
			F [2]struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, true, `{f{b}}`},
		{"array unx", struct {
			F [2]struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"array empty", struct{ F [2]struct{} }{}, true, `{f{__typename}}`},
		{"array LL", struct{ F [2][][]*int }{}, true, `{f}`},
		{"array arr", struct{ F [2][2]string }{}, true, `{f}`},
		{"array arrbad", struct{ F [2][2]map[int]int }{}, false, ``},
		{"nested string", struct {
			N struct {
				M int
				F string
			}
		}{}, true, `{n{m f}}`},
		{"nested bool", struct {
			N struct {
				M int
				F bool
			}
		}{}, true, `{n{m f}}`},
		{"nested int64", struct {
			N struct {
				M int
				F int64
			}
		}{}, true, `{n{m f}}`},
		{"nested uint8", struct {
			N struct {
				M int
				F uint8
			}
		}{}, true, `{n{m f}}`},
		{"nested float32", struct {
			N struct {
				M int
				F float32
			}
		}{}, true, `{n{m f}}`},
		{"nested float64", struct {
			N struct {
				M int
				F float64
			}
		}{}, true, `{n{m f}}`},
		{"nested time", struct {
			N struct {
				M int
				F time.Time
			}
		}{}, true, `{n{m f}}`},
		{"nested ptime", struct {
			N struct {
				M int
				F *time.Time
			}
		}{}, true, `{n{m f}}`},
		{"nested dur", struct {
			N struct {
				M int
				F time.Duration
			}
		}{}, true, `{n{m f}}`},
		{"nested month", struct {
			N struct {
				M int
				F time.Month
			}
		}{}, true, `{n{m f}}`},
		{"nested header", struct {
			N struct {
				M int
				F multipart.Form
			}
		}{}, false, ``},
		{"nested own", struct {
			N struct {
				M int
				F bdOwn
			}
		}{}, true, `{n{m f}}`},
		{"nested enum", struct {
			N struct {
				M int
				F bdEnum
			}
		}{}, true, `{n{m f}}`},
		{"nested file", struct {
			N struct {
				M int
				F *multipart.FileHeader
			}
		}{}, false, ``},
		{"nested chan", struct {
			N struct {
				M int
				F chan int
			}
		}{}, false, ``},
		{"nested map", struct {
			N struct {
				M int
				F map[string]int
			}
		}{}, false, ``},
		{"nested c64", struct {
			N struct {
				M int
				F complex64
			}
		}{}, false, ``},
		{"nested c128", struct {
			N struct {
				M int
				F complex128
			}
		}{}, false, ``},
		{"nested uintptr", struct {
			N struct {
				M int
				F uintptr
			}
		}{}, false, ``},
		{"nested any", struct {
			N struct {
				M int
				F interface{}
			}
		}{}, false, ``},
		{"nested inline", struct {
			N struct {
				M int
				F interface{ ResolveX() string }
			}
		}{}, false, ``},
		{"nested noimpl", struct {
			N struct {
				M int
				F bdNoImpl
			}
		}{}, false, ``},
		{"nested impl", struct {
			N struct {
				M int
				F bdImpl
			}
		}{}, true, `{n{m f{__typename}}}`},
		{"nested error", struct {
			N struct {
				M int
				F error
			}
		}{}, false, ``},
		{"nested func0", struct {
			N struct {
				M int
				F func()
			}
		}{}, false, ``},
		{"nested funcE", struct {
			N struct {
				M int
				F func() error
			}
		}{}, false, ``},
		{"nested L", struct {
			N struct {
				M int
				F bdL
			}
		}{}, false, ``},
		{"nested P", struct {
			N struct {
				M int
				F bdP
			}
		}{}, false, ``},
		{"nested LP", struct {
			N struct {
				M int
				F bdLP
			}
		}{}, false, ``},
		{"nested A", struct {
			N struct {
				M int
				F bdA
			}
		}{}, false, ``},
		{"nested ring", struct {
			N struct {
				M int
				F bdRing
			}
		}{}, false, ``},
		{"nested M", struct {
			N struct {
				M int
				F bdM
			}
		}{}, false, ``},
		{"nested F", struct {
			N struct {
				M int
				F bdF
			}
		}{}, false, ``},
		{"nested O", struct {
			N struct {
				M int
				F bdO
			}
		}{}, true, `{n{m f{n l{n}p{n}}}}`},
		{"nested mutual", struct {
			N struct {
				M int
				F bdX
			}
		}{}, true, `{n{m f{y{x{n}n}}}}`},
		{"nested S", struct {
			N struct {
				M int
				F bdS
			}
		}{}, true, `{n{m f{n x{n}}}}`},
		{"nested anon", struct {
			N struct {
				M int
				F struct{ A int }
			}
		}{}, true, `{n{m f{a}}}`},
		{"nested bad", struct {
			N struct {
				M int
				F struct{ A []chan int }
			}
		}{}, false, ``},
		{"nested hid", struct {
			N struct {
				M int
				F struct {
					A chan int `gq:"-"`
					B int
				}
			}
		}{}, true, `{n{m f{b}}}`},
		{"nested unx", struct {
			N struct {
				M int
				F struct {
					A int
					b chan int
				}
			}
		}{}, false, ``},
		{"nested empty", struct {
			N struct {
				M int
				F struct{}
			}
		}{}, true, `{n{m f{__typename}}}`},
		{"nested LL", struct {
			N struct {
				M int
				F [][]*int
			}
		}{}, true, `{n{m f}}`},
		{"nested arr", struct {
			N struct {
				M int
				F [2]string
			}
		}{}, true, `{n{m f}}`},
		{"nested arrbad", struct {
			N struct {
				M int
				F [2]map[int]int
			}
		}{}, false, ``},
		{"nestedlist string", struct{ N []*struct{ F string } }{}, true, `{n{f}}`},
		{"nestedlist bool", struct{ N []*struct{ F bool } }{}, true, `{n{f}}`},
		{"nestedlist int64", struct{ N []*struct{ F int64 } }{}, true, `{n{f}}`},
		{"nestedlist uint8", struct{ N []*struct{ F uint8 } }{}, true, `{n{f}}`},
		{"nestedlist float32", struct{ N []*struct{ F float32 } }{}, true, `{n{f}}`},
		{"nestedlist float64", struct{ N []*struct{ F float64 } }{}, true, `{n{f}}`},
		{"nestedlist time", struct{ N []*struct{ F time.Time } }{}, true, `{n{f}}`},
		{"nestedlist ptime", struct{ N []*struct{ F *time.Time } }{}, true, `{n{f}}`},
		{"nestedlist dur", struct{ N []*struct{ F time.Duration } }{}, true, `{n{f}}`},
		{"nestedlist month", struct{ N []*struct{ F time.Month } }{}, true, `{n{f}}`},
		{"nestedlist header", struct{ N []*struct{ F multipart.Form } }{}, false, ``},
		{"nestedlist own", struct{ N []*struct{ F bdOwn } }{}, true, `{n{f}}`},
		{"nestedlist enum", struct{ N []*struct{ F bdEnum } }{}, true, `{n{f}}`},
		{"nestedlist file", struct {
			N []*struct{ F *multipart.FileHeader }
		}{}, false, ``},
		{"nestedlist chan", struct{ N []*struct{ F chan int } }{}, false, ``},
		{"nestedlist map", struct{ N []*struct{ F map[string]int } }{}, false, ``},
		{"nestedlist c64", struct{ N []*struct{ F complex64 } }{}, false, ``},
		{"nestedlist c128", struct{ N []*struct{ F complex128 } }{}, false, ``},
		{"nestedlist uintptr", struct{ N []*struct{ F uintptr } }{}, false, ``},
		{"nestedlist any", struct{ N []*struct{ F interface{} } }{}, false, ``},
		{"nestedlist inline", struct {
			N []*struct {
				F interface{ ResolveX() string }
			}
		}{}, false, ``},
		{"nestedlist noimpl", struct{ N []*struct{ F bdNoImpl } }{}, false, ``},
		{"nestedlist impl", struct{ N []*struct{ F bdImpl } }{}, true, `{n{f{__typename}}}`},
		{"nestedlist error", struct{ N []*struct{ F error } }{}, false, ``},
		{"nestedlist func0", struct{ N []*struct{ F func() } }{}, false, ``},
		{"nestedlist funcE", struct{ N []*struct{ F func() error } }{}, false, ``},
		{"nestedlist L", struct{ N []*struct{ F bdL } }{}, false, ``},
		{"nestedlist P", struct{ N []*struct{ F bdP } }{}, false, ``},
		{"nestedlist LP", struct{ N []*struct{ F bdLP } }{}, false, ``},
		{"nestedlist A", struct{ N []*struct{ F bdA } }{}, false, ``},
		{"nestedlist ring", struct{ N []*struct{ F bdRing } }{}, false, ``},
		{"nestedlist M", struct{ N []*struct{ F bdM } }{}, false, ``},
		{"nestedlist F", struct{ N []*struct{ F bdF } }{}, false, ``},
		{"nestedlist O", struct{ N []*struct{ F bdO } }{}, true, `{n{f{n l{n}p{n}}}}`},
		{"nestedlist mutual", struct{ N []*struct{ F bdX } }{}, true, `{n{f{y{x{n}n}}}}`},
		{"nestedlist S", struct{ N []*struct{ F bdS } }{}, true, `{n{f{n x{n}}}}`},
		{"nestedlist anon", struct {
			N []*struct{ F struct{ A int } }
		}{}, true, `{n{f{a}}}`},
		{"nestedlist bad", struct {
			N []*struct{ F struct{ A []chan int } }
		}{}, false, ``},
		{"nestedlist hid", struct {
			N []*struct {
				F struct {
					A chan int `gq:"-"`
					B int
				}
			}
		}{}, true, `{n{f{b}}}`},
		{"nestedlist unx", struct {
			N []*struct {
				F struct {
					A int
					b chan int
				}
			}
		}{}, false, ``},
		{"nestedlist empty", struct{ N []*struct{ F struct{} } }{}, true, `{n{f{__typename}}}`},
		{"nestedlist LL", struct{ N []*struct{ F [][]*int } }{}, true, `{n{f}}`},
		{"nestedlist arr", struct{ N []*struct{ F [2]string } }{}, true, `{n{f}}`},
		{"nestedlist arrbad", struct{ N []*struct{ F [2]map[int]int } }{}, false, ``},
		{"result string", struct{ F func() string }{}, true, `{f}`},
		{"result bool", struct{ F func() bool }{}, true, `{f}`},
		{"result int64", struct{ F func() int64 }{}, true, `{f}`},
		{"result uint8", struct{ F func() uint8 }{}, true, `{f}`},
		{"result float32", struct{ F func() float32 }{}, true, `{f}`},
		{"result float64", struct{ F func() float64 }{}, true, `{f}`},
		{"result time", struct{ F func() time.Time }{}, true, `{f}`},
		{"result ptime", struct{ F func() *time.Time }{}, true, `{f}`},
		{"result dur", struct{ F func() time.Duration }{}, true, `{f}`},
		{"result month", struct{ F func() time.Month }{}, true, `{f}`},
		{"result header", struct{ F func() multipart.Form }{}, false, ``},
		{"result own", struct{ F func() bdOwn }{}, true, `{f}`},
		{"result enum", struct{ F func() bdEnum }{}, true, `{f}`},
		{"result file", struct{ F func() *multipart.FileHeader }{}, false, ``},
		{"result chan", struct{ F func() chan int }{}, false, ``},
		{"result map", struct{ F func() map[string]int }{}, false, ``},
		{"result c64", struct{ F func() complex64 }{}, false, ``},
		{"result c128", struct{ F func() complex128 }{}, false, ``},
		{"result uintptr", struct{ F func() uintptr }{}, false, ``},
		{"result any", struct{ F func() interface{} }{}, false, ``},
		{"result inline", struct {
			F func() interface{ ResolveX() string }
		}{}, false, ``},
		{"result noimpl", struct{ F func() bdNoImpl }{}, false, ``},
		{"result impl", struct{ F func() bdImpl }{}, true, `{f{__typename}}`},
		{"result error", struct{ F func() error }{}, false, ``},
		{"result func0", struct{ F func() func() }{}, false, ``},
		{"result funcE", struct{ F func() func() error }{}, false, ``},
		{"result L", struct{ F func() bdL }{}, false, ``},
		{"result P", struct{ F func() bdP }{}, false, ``},
		{"result LP", struct{ F func() bdLP }{}, false, ``},
		{"result A", struct{ F func() bdA }{}, false, ``},
		{"result ring", struct{ F func() bdRing }{}, false, ``},
		{"result M", struct{ F func() bdM }{}, false, ``},
		{"result F", struct{ F func() bdF }{}, false, ``},
		{"result O", struct{ F func() bdO }{}, true, `{f{n l{n}p{n}}}`},
		{"result mutual", struct{ F func() bdX }{}, true, `{f{y{x{n}n}}}`},
		{"result S", struct{ F func() bdS }{}, true, `{f{n x{n}}}`},
		{"result anon", struct{ F func() struct{ A int } }{}, true, `{f{a}}`},
		{"result bad", struct{ F func() struct{ A []chan int } }{}, false, ``},
		{"result hid", struct {
			F func() struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, true, `{f{b}}`},
		{"result unx", struct {
			F func() struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"result empty", struct{ F func() struct{} }{}, true, `{f{__typename}}`},
		{"result LL", struct{ F func() [][]*int }{}, true, `{f}`},
		{"result arr", struct{ F func() [2]string }{}, true, `{f}`},
		{"result arrbad", struct{ F func() [2]map[int]int }{}, false, ``},
		{"results string", struct {
			F func(*yarql.Ctx) ([]string, error)
		}{}, true, `{f}`},
		{"results bool", struct {
			F func(*yarql.Ctx) ([]bool, error)
		}{}, true, `{f}`},
		{"results int64", struct {
			F func(*yarql.Ctx) ([]int64, error)
		}{}, true, `{f}`},
		{"results uint8", struct {
			F func(*yarql.Ctx) ([]uint8, error)
		}{}, true, `{f}`},
		{"results float32", struct {
			F func(*yarql.Ctx) ([]float32, error)
		}{}, true, `{f}`},
		{"results float64", struct {
			F func(*yarql.Ctx) ([]float64, error)
		}{}, true, `{f}`},
		{"results time", struct {
			F func(*yarql.Ctx) ([]time.Time, error)
		}{}, true, `{f}`},
		{"results ptime", struct {
			F func(*yarql.Ctx) ([]*time.Time, error)
		}{}, true, `{f}`},
		{"results dur", struct {
			F func(*yarql.Ctx) ([]time.Duration, error)
		}{}, true, `{f}`},
		{"results month", struct {
			F func(*yarql.Ctx) ([]time.Month, error)
		}{}, true, `{f}`},
		{"results header", struct {
			F func(*yarql.Ctx) ([]multipart.Form, error)
		}{}, false, ``},
		{"results own", struct {
			F func(*yarql.Ctx) ([]bdOwn, error)
		}{}, true, `{f}`},
		{"results enum", struct {
			F func(*yarql.Ctx) ([]bdEnum, error)
		}{}, true, `{f}`},
		{"results file", struct {
			F func(*yarql.Ctx) ([]*multipart.FileHeader, error)
		}{}, false, ``},
		{"results chan", struct {
			F func(*yarql.Ctx) ([]chan int, error)
		}{}, false, ``},
		{"results map", struct {
			F func(*yarql.Ctx) ([]map[string]int, error)
		}{}, false, ``},
		{"results c64", struct {
			F func(*yarql.Ctx) ([]complex64, error)
		}{}, false, ``},
		{"results c128", struct {
			F func(*yarql.Ctx) ([]complex128, error)
		}{}, false, ``},
		{"results uintptr", struct {
			F func(*yarql.Ctx) ([]uintptr, error)
		}{}, false, ``},
		{"results any", struct {
			F func(*yarql.Ctx) ([]interface{}, error)
		}{}, false, ``},
		{"results inline", struct {
			F func(*yarql.Ctx) ([]interface{ ResolveX() string }, error)
		}{}, false, ``},
		{"results noimpl", struct {
			F func(*yarql.Ctx) ([]bdNoImpl, error)
		}{}, false, ``},
		{"results impl", struct {
			F func(*yarql.Ctx) ([]bdImpl, error)
		}{}, true, `{f{__typename}}`},
		{"results error", struct {
			F func(*yarql.Ctx) ([]error, error)
		}{}, false, ``},
		{"results func0", struct {
			F func(*yarql.Ctx) ([]func(), error)
		}{}, false, ``},
		{"results funcE", struct {
			F func(*yarql.Ctx) ([]func() error, error)
		}{}, false, ``},
		{"results L", struct {
			F func(*yarql.Ctx) ([]bdL, error)
		}{}, false, ``},
		{"results P", struct {
			F func(*yarql.Ctx) ([]bdP, error)
		}{}, false, ``},
		{"results LP", struct {
			F func(*yarql.Ctx) ([]bdLP, error)
		}{}, false, ``},
		{"results A", struct {
			F func(*yarql.Ctx) ([]bdA, error)
		}{}, false, ``},
		{"results ring", struct {
			F func(*yarql.Ctx) ([]bdRing, error)
		}{}, false, ``},
		{"results M", struct {
			F func(*yarql.Ctx) ([]bdM, error)
		}{}, false, ``},
		{"results F", struct {
			F func(*yarql.Ctx) ([]bdF, error)
		}{}, false, ``},
		{"results O", struct {
			F func(*yarql.Ctx) ([]bdO, error)
		}{}, true, `{f{n l{n}p{n}}}`},
		{"results mutual", struct {
			F func(*yarql.Ctx) ([]bdX, error)
		}{}, true, `{f{y{x{n}n}}}`},
		{"results S", struct {
			F func(*yarql.Ctx) ([]bdS, error)
		}{}, true, `{f{n x{n}}}`},
		{"results anon", struct {
			F func(*yarql.Ctx) ([]struct{ A int }, error)
		}{}, true, `{f{a}}`},
		{"results bad", struct {
			F func(*yarql.Ctx) ([]struct{ A []chan int }, error)
		}{}, false, ``},
		{"results hid", struct {
			F func(*yarql.Ctx) ([]struct {
				A chan int `gq:"-"`
				B int
			}, error)
		}{}, true, `{f{b}}`},
		{"results unx", struct {
			F func(*yarql.Ctx) ([]struct {
				A int
				b chan int
			}, error)
		}{}, false, ``},
		{"results empty", struct {
			F func(*yarql.Ctx) ([]struct{}, error)
		}{}, true, `{f{__typename}}`},
		{"results LL", struct {
			F func(*yarql.Ctx) ([][][]*int, error)
		}{}, true, `{f}`},
		{"results arr", struct {
			F func(*yarql.Ctx) ([][2]string, error)
		}{}, true, `{f}`},
		{"results arrbad", struct {
			F func(*yarql.Ctx) ([][2]map[int]int, error)
		}{}, false, ``},
		{"nestedresult string", struct{ N struct{ F func() *string } }{}, true, `{n{f}}`},
		{"nestedresult bool", struct{ N struct{ F func() *bool } }{}, true, `{n{f}}`},
		{"nestedresult int64", struct{ N struct{ F func() *int64 } }{}, true, `{n{f}}`},
		{"nestedresult uint8", struct{ N struct{ F func() *uint8 } }{}, true, `{n{f}}`},
		{"nestedresult float32", struct{ N struct{ F func() *float32 } }{}, true, `{n{f}}`},
		{"nestedresult float64", struct{ N struct{ F func() *float64 } }{}, true, `{n{f}}`},
		{"nestedresult time", struct{ N struct{ F func() *time.Time } }{}, true, `{n{f}}`},
		{"nestedresult ptime", struct {
			N struct{ F func() **time.Time }
		}{}, true, `{n{f}}`},
		{"nestedresult dur", struct {
			N struct{ F func() *time.Duration }
		}{}, true, `{n{f}}`},
		{"nestedresult month", struct {
			N struct{ F func() *time.Month }
		}{}, true, `{n{f}}`},
		{"nestedresult header", struct {
			N struct{ F func() *multipart.Form }
		}{}, false, ``},
		{"nestedresult own", struct{ N struct{ F func() *bdOwn } }{}, true, `{n{f}}`},
		{"nestedresult enum", struct{ N struct{ F func() *bdEnum } }{}, true, `{n{f}}`},
		{"nestedresult file", struct {
			N struct{ F func() **multipart.FileHeader }
		}{}, false, ``},
		{"nestedresult chan", struct{ N struct{ F func() *chan int } }{}, false, ``},
		{"nestedresult map", struct {
			N struct{ F func() *map[string]int }
		}{}, false, ``},
		{"nestedresult c64", struct{ N struct{ F func() *complex64 } }{}, false, ``},
		{"nestedresult c128", struct {
			N struct{ F func() *complex128 }
		}{}, false, ``},
		{"nestedresult uintptr", struct{ N struct{ F func() *uintptr } }{}, false, ``},
		{"nestedresult any", struct {
			N struct{ F func() *interface{} }
		}{}, false, ``},
		{"nestedresult inline", struct {
			N struct {
				F func() *interface{ ResolveX() string }
			}
		}{}, false, ``},
		{"nestedresult noimpl", struct{ N struct{ F func() *bdNoImpl } }{}, false, ``},
		{"nestedresult impl", struct{ N struct{ F func() *bdImpl } }{}, true, `{n{f{__typename}}}`},
		{"nestedresult error", struct{ N struct{ F func() *error } }{}, false, ``},
		{"nestedresult func0", struct{ N struct{ F func() *func() } }{}, false, ``},
		{"nestedresult funcE", struct {
			N struct{ F func() *func() error }
		}{}, false, ``},
		{"nestedresult L", struct{ N struct{ F func() *bdL } }{}, false, ``},
		{"nestedresult P", struct{ N struct{ F func() *bdP } }{}, false, ``},
		{"nestedresult LP", struct{ N struct{ F func() *bdLP } }{}, false, ``},
		{"nestedresult A", struct{ N struct{ F func() *bdA } }{}, false, ``},
		{"nestedresult ring", struct{ N struct{ F func() *bdRing } }{}, false, ``},
		{"nestedresult M", struct{ N struct{ F func() *bdM } }{}, false, ``},
		{"nestedresult F", struct{ N struct{ F func() *bdF } }{}, false, ``},
		{"nestedresult O", struct{ N struct{ F func() *bdO } }{}, true, `{n{f{n l{n}p{n}}}}`},
		{"nestedresult mutual", struct{ N struct{ F func() *bdX } }{}, true, `{n{f{y{x{n}n}}}}`},
		{"nestedresult S", struct{ N struct{ F func() *bdS } }{}, true, `{n{f{n x{n}}}}`},
		{"nestedresult anon", struct {
			N struct{ F func() *struct{ A int } }
		}{}, true, `{n{f{a}}}`},
		{"nestedresult bad", struct {
			N struct {
				F func() *struct{ A []chan int }
			}
		}{}, false, ``},
		{"nestedresult hid", struct {
			N struct {
				F func() *struct {
					A chan int `gq:"-"`
					B int
				}
			}
		}{}, true, `{n{f{b}}}`},
		{"nestedresult unx", struct {
			N struct {
				F func() *struct {
					A int
					b chan int
				}
			}
		}{}, false, ``},
		{"nestedresult empty", struct{ N struct{ F func() *struct{} } }{}, true, `{n{f{__typename}}}`},
		{"nestedresult LL", struct{ N struct{ F func() *[][]*int } }{}, true, `{n{f}}`},
		{"nestedresult arr", struct{ N struct{ F func() *[2]string } }{}, true, `{n{f}}`},
		{"nestedresult arrbad", struct {
			N struct{ F func() *[2]map[int]int }
		}{}, false, ``},
		{"unexported string", struct{ f string }{}, true, ``},
		{"unexported bool", struct{ f bool }{}, true, ``},
		{"unexported int64", struct{ f int64 }{}, true, ``},
		{"unexported uint8", struct{ f uint8 }{}, true, ``},
		{"unexported float32", struct{ f float32 }{}, true, ``},
		{"unexported float64", struct{ f float64 }{}, true, ``},
		{"unexported time", struct{ f time.Time }{}, true, ``},
		{"unexported ptime", struct{ f *time.Time }{}, true, ``},
		{"unexported dur", struct{ f time.Duration }{}, true, ``},
		{"unexported month", struct{ f time.Month }{}, true, ``},
		{"unexported header", struct{ f multipart.Form }{}, false, ``},
		{"unexported own", struct{ f bdOwn }{}, true, ``},
		{"unexported enum", struct{ f bdEnum }{}, true, ``},
		{"unexported file", struct{ f *multipart.FileHeader }{}, false, ``},
		{"unexported chan", struct{ f chan int }{}, false, ``},
		{"unexported map", struct{ f map[string]int }{}, false, ``},
		{"unexported c64", struct{ f complex64 }{}, false, ``},
		{"unexported c128", struct{ f complex128 }{}, false, ``},
		{"unexported uintptr", struct{ f uintptr }{}, false, ``},
		{"unexported any", struct{ f interface{} }{}, false, ``},
		{"unexported inline", struct {
			f interface{ ResolveX() string }
		}{}, false, ``},
		{"unexported noimpl", struct{ f bdNoImpl }{}, false, ``},
		{"unexported impl", struct{ f bdImpl }{}, true, ``},
		{"unexported error", struct{ f error }{}, false, ``},
		{"unexported func0", struct{ f func() }{}, false, ``},
		{"unexported funcE", struct{ f func() error }{}, false, ``},
		{"unexported L", struct{ f bdL }{}, false, ``},
		{"unexported P", struct{ f bdP }{}, false, ``},
		{"unexported LP", struct{ f bdLP }{}, false, ``},
		{"unexported A", struct{ f bdA }{}, false, ``},
		{"unexported ring", struct{ f bdRing }{}, false, ``},
		{"unexported M", struct{ f bdM }{}, false, ``},
		{"unexported F", struct{ f bdF }{}, false, ``},
		{"unexported O", struct{ f bdO }{}, true, ``},
		{"unexported mutual", struct{ f bdX }{}, true, ``},
		{"unexported S", struct{ f bdS }{}, true, ``},
		{"unexported anon", struct{ f struct{ A int } }{}, true, ``},
		{"unexported bad", struct{ f struct{ A []chan int } }{}, false, ``},
		{"unexported hid", struct {
			f struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, true, ``},
		{"unexported unx", struct {
			f struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"unexported empty", struct{ f struct{} }{}, true, ``},
		{"unexported LL", struct{ f [][]*int }{}, true, ``},
		{"unexported arr", struct{ f [2]string }{}, true, ``},
		{"unexported arrbad", struct{ f [2]map[int]int }{}, false, ``},
		{"ignored string", struct {
			F string `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored bool", struct {
			F bool `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored int64", struct {
			F int64 `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored uint8", struct {
			F uint8 `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored float32", struct {
			F float32 `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored float64", struct {
			F float64 `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored time", struct {
			F time.Time `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored ptime", struct {
			F *time.Time `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored dur", struct {
			F time.Duration `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored month", struct {
			F time.Month `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored header", struct {
			F multipart.Form `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored own", struct {
			F bdOwn `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored enum", struct {
			F bdEnum `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored file", struct {
			F *multipart.FileHeader `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored chan", struct {
			F chan int `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored map", struct {
			F map[string]int `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored c64", struct {
			F complex64 `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored c128", struct {
			F complex128 `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored uintptr", struct {
			F uintptr `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored any", struct {
			F interface{} `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored inline", struct {
			F interface{ ResolveX() string } `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored noimpl", struct {
			F bdNoImpl `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored impl", struct {
			F bdImpl `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored error", struct {
			F error `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored func0", struct {
			F func() `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored funcE", struct {
			F func() error `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored L", struct {
			F bdL `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored P", struct {
			F bdP `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored LP", struct {
			F bdLP `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored A", struct {
			F bdA `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored ring", struct {
			F bdRing `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored M", struct {
			F bdM `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored F", struct {
			F bdF `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored O", struct {
			F bdO `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored mutual", struct {
			F bdX `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored S", struct {
			F bdS `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored anon", struct {
			F struct{ A int } `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored bad", struct {
			F struct{ A []chan int } `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored hid", struct {
			F struct {
				A chan int `gq:"-"`
				B int
			} `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored unx", struct {
			F struct {
				A int
				b chan int
			} `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored empty", struct {
			F struct{} `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored LL", struct {
			F [][]*int `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored arr", struct {
			F [2]string `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"ignored arrbad", struct {
			F [2]map[int]int `gq:"-"`
			G int
		}{}, true, `{g}`},
		{"funcresult string", struct{ F func() func() string }{}, false, ``},
		{"funcresult bool", struct{ F func() func() bool }{}, false, ``},
		{"funcresult int64", struct{ F func() func() int64 }{}, false, ``},
		{"funcresult uint8", struct{ F func() func() uint8 }{}, false, ``},
		{"funcresult float32", struct{ F func() func() float32 }{}, false, ``},
		{"funcresult float64", struct{ F func() func() float64 }{}, false, ``},
		{"funcresult time", struct{ F func() func() time.Time }{}, false, ``},
		{"funcresult ptime", struct{ F func() func() *time.Time }{}, false, ``},
		{"funcresult dur", struct{ F func() func() time.Duration }{}, false, ``},
		{"funcresult month", struct{ F func() func() time.Month }{}, false, ``},
		{"funcresult header", struct{ F func() func() multipart.Form }{}, false, ``},
		{"funcresult own", struct{ F func() func() bdOwn }{}, false, ``},
		{"funcresult enum", struct{ F func() func() bdEnum }{}, false, ``},
		{"funcresult file", struct {
			F func() func() *multipart.FileHeader
		}{}, false, ``},
		{"funcresult chan", struct{ F func() func() chan int }{}, false, ``},
		{"funcresult map", struct{ F func() func() map[string]int }{}, false, ``},
		{"funcresult c64", struct{ F func() func() complex64 }{}, false, ``},
		{"funcresult c128", struct{ F func() func() complex128 }{}, false, ``},
		{"funcresult uintptr", struct{ F func() func() uintptr }{}, false, ``},
		{"funcresult any", struct{ F func() func() interface{} }{}, false, ``},
		{"funcresult inline", struct {
			F func() func() interface{ ResolveX() string }
		}{}, false, ``},
		{"funcresult noimpl", struct{ F func() func() bdNoImpl }{}, false, ``},
		{"funcresult impl", struct{ F func() func() bdImpl }{}, false, ``},
		{"funcresult error", struct{ F func() func() error }{}, false, ``},
		{"funcresult func0", struct{ F func() func() func() }{}, false, ``},
		{"funcresult funcE", struct{ F func() func() func() error }{}, false, ``},
		{"funcresult L", struct{ F func() func() bdL }{}, false, ``},
		{"funcresult P", struct{ F func() func() bdP }{}, false, ``},
		{"funcresult LP", struct{ F func() func() bdLP }{}, false, ``},
		{"funcresult A", struct{ F func() func() bdA }{}, false, ``},
		{"funcresult ring", struct{ F func() func() bdRing }{}, false, ``},
		{"funcresult M", struct{ F func() func() bdM }{}, false, ``},
		{"funcresult F", struct{ F func() func() bdF }{}, false, ``},
		{"funcresult O", struct{ F func() func() bdO }{}, false, ``},
		{"funcresult mutual", struct{ F func() func() bdX }{}, false, ``},
		{"funcresult S", struct{ F func() func() bdS }{}, false, ``},
		{"funcresult anon", struct{ F func() func() struct{ A int } }{}, false, ``},
		{"funcresult bad", struct {
			F func() func() struct{ A []chan int }
		}{}, false, ``},
		{"funcresult hid", struct {
			F func() func() struct {
				A chan int `gq:"-"`
				B int
			}
		}{}, false, ``},
		{"funcresult unx", struct {
			F func() func() struct {
				A int
				b chan int
			}
		}{}, false, ``},
		{"funcresult empty", struct{ F func() func() struct{} }{}, false, ``},
		{"funcresult LL", struct{ F func() func() [][]*int }{}, false, ``},
		{"funcresult arr", struct{ F func() func() [2]string }{}, false, ``},
		{"funcresult arrbad", struct{ F func() func() [2]map[int]int }{}, false, ``},
		{"arg string", struct {
			F func(struct{ A string }) string
		}{}, true, `{f}`},
		{"arg bool", struct{ F func(struct{ A bool }) string }{}, true, `{f}`},
		{"arg int64", struct {
			F func(struct{ A int64 }) string
		}{}, true, `{f}`},
		{"arg uint8", struct {
			F func(struct{ A uint8 }) string
		}{}, true, `{f}`},
		{"arg float32", struct {
			F func(struct{ A float32 }) string
		}{}, true, `{f}`},
		{"arg float64", struct {
			F func(struct{ A float64 }) string
		}{}, true, `{f}`},
		{"arg time", struct {
			F func(struct{ A time.Time }) string
		}{}, true, `{f}`},
		{"arg ptime", struct {
			F func(struct{ A *time.Time }) string
		}{}, true, `{f}`},
		{"arg dur", struct {
			F func(struct{ A time.Duration }) string
		}{}, true, `{f}`},
		{"arg month", struct {
			F func(struct{ A time.Month }) string
		}{}, true, `{f}`},
		{"arg header", struct {
			F func(struct{ A multipart.Form }) string
		}{}, false, ``},
		{"arg own", struct {
			F func(struct{ A bdOwn }) string
		}{}, true, `{f}`},
		{"arg enum", struct {
			F func(struct{ A bdEnum }) string
		}{}, true, `{f}`},
		{"arg file", struct {
			F func(struct{ A *multipart.FileHeader }) string
		}{}, true, `{f}`},
		{"arg chan", struct {
			F func(struct{ A chan int }) string
		}{}, false, ``},
		{"arg map", struct {
			F func(struct{ A map[string]int }) string
		}{}, false, ``},
		{"arg c64", struct {
			F func(struct{ A complex64 }) string
		}{}, false, ``},
		{"arg c128", struct {
			F func(struct{ A complex128 }) string
		}{}, false, ``},
		{"arg uintptr", struct {
			F func(struct{ A uintptr }) string
		}{}, false, ``},
		{"arg any", struct {
			F func(struct{ A interface{} }) string
		}{}, false, ``},
		{"arg inline", struct {
			F func(struct {
				A interface{ ResolveX() string }
			}) string
		}{}, false, ``},
		{"arg noimpl", struct {
			F func(struct{ A bdNoImpl }) string
		}{}, false, ``},
		{"arg impl", struct {
			F func(struct{ A bdImpl }) string
		}{}, false, ``},
		{"arg error", struct {
			F func(struct{ A error }) string
		}{}, false, ``},
		{"arg func0", struct {
			F func(struct{ A func() }) string
		}{}, false, ``},
		{"arg funcE", struct {
			F func(struct{ A func() error }) string
		}{}, false, ``},
		{"arg L", struct{ F func(struct{ A bdL }) string }{}, false, ``},
		{"arg P", struct{ F func(struct{ A bdP }) string }{}, false, ``},
		{"arg LP", struct{ F func(struct{ A bdLP }) string }{}, false, ``},
		{"arg A", struct{ F func(struct{ A bdA }) string }{}, false, ``},
		{"arg ring", struct {
			F func(struct{ A bdRing }) string
		}{}, false, ``},
		{"arg M", struct{ F func(struct{ A bdM }) string }{}, false, ``},
		{"arg F", struct{ F func(struct{ A bdF }) string }{}, false, ``},
		{"arg O", struct{ F func(struct{ A bdO }) string }{}, true, `{f}`},
		{"arg mutual", struct{ F func(struct{ A bdX }) string }{}, true, `{f}`},
		{"arg S", struct{ F func(struct{ A bdS }) string }{}, true, `{f}`},
		{"arg anon", struct {
			F func(struct{ A struct{ A int } }) string
		}{}, true, `{f}`},
		{"arg bad", struct {
			F func(struct{ A struct{ A []chan int } }) string
		}{}, false, ``},
		{"arg hid", struct {
			F func(struct {
				A struct {
					A chan int `gq:"-"`
					B int
				}
			}) string
		}{}, true, `{f}`},
		{"arg unx", struct {
			F func(struct {
				A struct {
					A int
					b chan int
				}
			}) string
		}{}, true, `{f}`},
		{"arg empty", struct {
			F func(struct{ A struct{} }) string
		}{}, true, `{f}`},
		{"arg LL", struct {
			F func(struct{ A [][]*int }) string
		}{}, true, `{f}`},
		{"arg arr", struct {
			F func(struct{ A [2]string }) string
		}{}, true, `{f}`},
		{"arg arrbad", struct {
			F func(struct{ A [2]map[int]int }) string
		}{}, false, ``},
		{"arglist string", struct {
			F func(struct{ A []string }) string
		}{}, true, `{f}`},
		{"arglist bool", struct {
			F func(struct{ A []bool }) string
		}{}, true, `{f}`},
		{"arglist int64", struct {
			F func(struct{ A []int64 }) string
		}{}, true, `{f}`},
		{"arglist uint8", struct {
			F func(struct{ A []uint8 }) string
		}{}, true, `{f}`},
		{"arglist float32", struct {
			F func(struct{ A []float32 }) string
		}{}, true, `{f}`},
		{"arglist float64", struct {
			F func(struct{ A []float64 }) string
		}{}, true, `{f}`},
		{"arglist time", struct {
			F func(struct{ A []time.Time }) string
		}{}, true, `{f}`},
		{"arglist ptime", struct {
			F func(struct{ A []*time.Time }) string
		}{}, true, `{f}`},
		{"arglist dur", struct {
			F func(struct{ A []time.Duration }) string
		}{}, true, `{f}`},
		{"arglist month", struct {
			F func(struct{ A []time.Month }) string
		}{}, true, `{f}`},
		{"arglist header", struct {
			F func(struct{ A []multipart.Form }) string
		}{}, false, ``},
		{"arglist own", struct {
			F func(struct{ A []bdOwn }) string
		}{}, true, `{f}`},
		{"arglist enum", struct {
			F func(struct{ A []bdEnum }) string
		}{}, true, `{f}`},
		{"arglist file", struct {
			F func(struct{ A []*multipart.FileHeader }) string
		}{}, true, `{f}`},
		{"arglist chan", struct {
			F func(struct{ A []chan int }) string
		}{}, false, ``},
		{"arglist map", struct {
			F func(struct{ A []map[string]int }) string
		}{}, false, ``},
		{"arglist c64", struct {
			F func(struct{ A []complex64 }) string
		}{}, false, ``},
		{"arglist c128", struct {
			F func(struct{ A []complex128 }) string
		}{}, false, ``},
		{"arglist uintptr", struct {
			F func(struct{ A []uintptr }) string
		}{}, false, ``},
		{"arglist any", struct {
			F func(struct{ A []interface{} }) string
		}{}, false, ``},
		{"arglist inline", struct {
			F func(struct {
				A []interface{ ResolveX() string }
			}) string
		}{}, false, ``},
		{"arglist noimpl", struct {
			F func(struct{ A []bdNoImpl }) string
		}{}, false, ``},
		{"arglist impl", struct {
			F func(struct{ A []bdImpl }) string
		}{}, false, ``},
		{"arglist error", struct {
			F func(struct{ A []error }) string
		}{}, false, ``},
		{"arglist func0", struct {
			F func(struct{ A []func() }) string
		}{}, false, ``},
		{"arglist funcE", struct {
			F func(struct{ A []func() error }) string
		}{}, false, ``},
		{"arglist L", struct {
			F func(struct{ A []bdL }) string
		}{}, false, ``},
		{"arglist P", struct {
			F func(struct{ A []bdP }) string
		}{}, false, ``},
		{"arglist LP", struct {
			F func(struct{ A []bdLP }) string
		}{}, false, ``},
		{"arglist A", struct {
			F func(struct{ A []bdA }) string
		}{}, false, ``},
		{"arglist ring", struct {
			F func(struct{ A []bdRing }) string
		}{}, false, ``},
		{"arglist M", struct {
			F func(struct{ A []bdM }) string
		}{}, false, ``},
		{"arglist F", struct {
			F func(struct{ A []bdF }) string
		}{}, false, ``},
		{"arglist O", struct {
			F func(struct{ A []bdO }) string
		}{}, true, `{f}`},
		{"arglist mutual", struct {
			F func(struct{ A []bdX }) string
		}{}, true, `{f}`},
		{"arglist S", struct {
			F func(struct{ A []bdS }) string
		}{}, true, `{f}`},
		{"arglist anon", struct {
			F func(struct{ A []struct{ A int } }) string
		}{}, true, `{f}`},
		{"arglist bad", struct {
			F func(struct{ A []struct{ A []chan int } }) string
		}{}, false, ``},
		{"arglist hid", struct {
			F func(struct {
				A []struct {
					A chan int `gq:"-"`
					B int
				}
			}) string
		}{}, true, `{f}`},
		{"arglist unx", struct {
			F func(struct {
				A []struct {
					A int
					b chan int
				}
			}) string
		}{}, true, `{f}`},
		{"arglist empty", struct {
			F func(struct{ A []struct{} }) string
		}{}, true, `{f}`},
		{"arglist LL", struct {
			F func(struct{ A [][][]*int }) string
		}{}, true, `{f}`},
		{"arglist arr", struct {
			F func(struct{ A [][2]string }) string
		}{}, true, `{f}`},
		{"arglist arrbad", struct {
			F func(struct{ A [][2]map[int]int }) string
		}{}, false, ``},
		{"argpointer string", struct {
			F func(struct{ A *string }) string
		}{}, true, `{f}`},
		{"argpointer bool", struct {
			F func(struct{ A *bool }) string
		}{}, true, `{f}`},
		{"argpointer int64", struct {
			F func(struct{ A *int64 }) string
		}{}, true, `{f}`},
		{"argpointer uint8", struct {
			F func(struct{ A *uint8 }) string
		}{}, true, `{f}`},
		{"argpointer float32", struct {
			F func(struct{ A *float32 }) string
		}{}, true, `{f}`},
		{"argpointer float64", struct {
			F func(struct{ A *float64 }) string
		}{}, true, `{f}`},
		{"argpointer time", struct {
			F func(struct{ A *time.Time }) string
		}{}, true, `{f}`},
		{"argpointer ptime", struct {
			F func(struct{ A **time.Time }) string
		}{}, true, `{f}`},
		{"argpointer dur", struct {
			F func(struct{ A *time.Duration }) string
		}{}, true, `{f}`},
		{"argpointer month", struct {
			F func(struct{ A *time.Month }) string
		}{}, true, `{f}`},
		{"argpointer header", struct {
			F func(struct{ A *multipart.Form }) string
		}{}, false, ``},
		{"argpointer own", struct {
			F func(struct{ A *bdOwn }) string
		}{}, true, `{f}`},
		{"argpointer enum", struct {
			F func(struct{ A *bdEnum }) string
		}{}, true, `{f}`},
		{"argpointer file", struct {
			F func(struct{ A **multipart.FileHeader }) string
		}{}, true, `{f}`},
		{"argpointer chan", struct {
			F func(struct{ A *chan int }) string
		}{}, false, ``},
		{"argpointer map", struct {
			F func(struct{ A *map[string]int }) string
		}{}, false, ``},
		{"argpointer c64", struct {
			F func(struct{ A *complex64 }) string
		}{}, false, ``},
		{"argpointer c128", struct {
			F func(struct{ A *complex128 }) string
		}{}, false, ``},
		{"argpointer uintptr", struct {
			F func(struct{ A *uintptr }) string
		}{}, false, ``},
		{"argpointer any", struct {
			F func(struct{ A *interface{} }) string
		}{}, false, ``},
		{"argpointer inline", struct {
			F func(struct {
				A *interface{ ResolveX() string }
			}) string
		}{}, false, ``},
		{"argpointer noimpl", struct {
			F func(struct{ A *bdNoImpl }) string
		}{}, false, ``},
		{"argpointer impl", struct {
			F func(struct{ A *bdImpl }) string
		}{}, false, ``},
		{"argpointer error", struct {
			F func(struct{ A *error }) string
		}{}, false, ``},
		{"argpointer func0", struct {
			F func(struct{ A *func() }) string
		}{}, false, ``},
		{"argpointer funcE", struct {
			F func(struct{ A *func() error }) string
		}{}, false, ``},
		{"argpointer L", struct{ F func(struct{ A *bdL }) string }{}, false, ``},
		{"argpointer P", struct{ F func(struct{ A *bdP }) string }{}, false, ``},
		{"argpointer LP", struct {
			F func(struct{ A *bdLP }) string
		}{}, false, ``},
		{"argpointer A", struct{ F func(struct{ A *bdA }) string }{}, false, ``},
		{"argpointer ring", struct {
			F func(struct{ A *bdRing }) string
		}{}, false, ``},
		{"argpointer M", struct{ F func(struct{ A *bdM }) string }{}, false, ``},
		{"argpointer F", struct{ F func(struct{ A *bdF }) string }{}, false, ``},
		{"argpointer O", struct{ F func(struct{ A *bdO }) string }{}, true, `{f}`},
		{"argpointer mutual", struct{ F func(struct{ A *bdX }) string }{}, true, `{f}`},
		{"argpointer S", struct{ F func(struct{ A *bdS }) string }{}, true, `{f}`},
		{"argpointer anon", struct {
			F func(struct{ A *struct{ A int } }) string
		}{}, true, `{f}`},
		{"argpointer bad", struct {
			F func(struct{ A *struct{ A []chan int } }) string
		}{}, false, ``},
		{"argpointer hid", struct {
			F func(struct {
				A *struct {
					A chan int `gq:"-"`
					B int
				}
			}) string
		}{}, true, `{f}`},
		{"argpointer unx", struct {
			F func(struct {
				A *struct {
					A int
					b chan int
				}
			}) string
		}{}, true, `{f}`},
		{"argpointer empty", struct {
			F func(struct{ A *struct{} }) string
		}{}, true, `{f}`},
		{"argpointer LL", struct {
			F func(struct{ A *[][]*int }) string
		}{}, true, `{f}`},
		{"argpointer arr", struct {
			F func(struct{ A *[2]string }) string
		}{}, true, `{f}`},
		{"argpointer arrbad", struct {
			F func(struct{ A *[2]map[int]int }) string
		}{}, false, ``},
		{"argnested string", struct {
			F func(struct {
				A struct {
					C int
					B string
				}
			}) string
		}{}, true, `{f}`},
		{"argnested bool", struct {
			F func(struct {
				A struct {
					C int
					B bool
				}
			}) string
		}{}, true, `{f}`},
		{"argnested int64", struct {
			F func(struct {
				A struct {
					C int
					B int64
				}
			}) string
		}{}, true, `{f}`},
		{"argnested uint8", struct {
			F func(struct {
				A struct {
					C int
					B uint8
				}
			}) string
		}{}, true, `{f}`},
		{"argnested float32", struct {
			F func(struct {
				A struct {
					C int
					B float32
				}
			}) string
		}{}, true, `{f}`},
		{"argnested float64", struct {
			F func(struct {
				A struct {
					C int
					B float64
				}
			}) string
		}{}, true, `{f}`},
		{"argnested time", struct {
			F func(struct {
				A struct {
					C int
					B time.Time
				}
			}) string
		}{}, true, `{f}`},
		{"argnested ptime", struct {
			F func(struct {
				A struct {
					C int
					B *time.Time
				}
			}) string
		}{}, true, `{f}`},
		{"argnested dur", struct {
			F func(struct {
				A struct {
					C int
					B time.Duration
				}
			}) string
		}{}, true, `{f}`},
		{"argnested month", struct {
			F func(struct {
				A struct {
					C int
					B time.Month
				}
			}) string
		}{}, true, `{f}`},
		{"argnested header", struct {
			F func(struct {
				A struct {
					C int
					B multipart.Form
				}
			}) string
		}{}, false, ``},
		{"argnested own", struct {
			F func(struct {
				A struct {
					C int
					B bdOwn
				}
			}) string
		}{}, true, `{f}`},
		{"argnested enum", struct {
			F func(struct {
				A struct {
					C int
					B bdEnum
				}
			}) string
		}{}, true, `{f}`},
		{"argnested file", struct {
			F func(struct {
				A struct {
					C int
					B *multipart.FileHeader
				}
			}) string
		}{}, true, `{f}`},
		{"argnested chan", struct {
			F func(struct {
				A struct {
					C int
					B chan int
				}
			}) string
		}{}, false, ``},
		{"argnested map", struct {
			F func(struct {
				A struct {
					C int
					B map[string]int
				}
			}) string
		}{}, false, ``},
		{"argnested c64", struct {
			F func(struct {
				A struct {
					C int
					B complex64
				}
			}) string
		}{}, false, ``},
		{"argnested c128", struct {
			F func(struct {
				A struct {
					C int
					B complex128
				}
			}) string
		}{}, false, ``},
		{"argnested uintptr", struct {
			F func(struct {
				A struct {
					C int
					B uintptr
				}
			}) string
		}{}, false, ``},
		{"argnested any", struct {
			F func(struct {
				A struct {
					C int
					B interface{}
				}
			}) string
		}{}, false, ``},
		{"argnested inline", struct {
			F func(struct {
				A struct {
					C int
					B interface{ ResolveX() string }
				}
			}) string
		}{}, false, ``},
		{"argnested noimpl", struct {
			F func(struct {
				A struct {
					C int
					B bdNoImpl
				}
			}) string
		}{}, false, ``},
		{"argnested impl", struct {
			F func(struct {
				A struct {
					C int
					B bdImpl
				}
			}) string
		}{}, false, ``},
		{"argnested error", struct {
			F func(struct {
				A struct {
					C int
					B error
				}
			}) string
		}{}, false, ``},
		{"argnested func0", struct {
			F func(struct {
				A struct {
					C int
					B func()
				}
			}) string
		}{}, false, ``},
		{"argnested funcE", struct {
			F func(struct {
				A struct {
					C int
					B func() error
				}
			}) string
		}{}, false, ``},
		{"argnested L", struct {
			F func(struct {
				A struct {
					C int
					B bdL
				}
			}) string
		}{}, false, ``},
		{"argnested P", struct {
			F func(struct {
				A struct {
					C int
					B bdP
				}
			}) string
		}{}, false, ``},
		{"argnested LP", struct {
			F func(struct {
				A struct {
					C int
					B bdLP
				}
			}) string
		}{}, false, ``},
		{"argnested A", struct {
			F func(struct {
				A struct {
					C int
					B bdA
				}
			}) string
		}{}, false, ``},
		{"argnested ring", struct {
			F func(struct {
				A struct {
					C int
					B bdRing
				}
			}) string
		}{}, false, ``},
		{"argnested M", struct {
			F func(struct {
				A struct {
					C int
					B bdM
				}
			}) string
		}{}, false, ``},
		{"argnested F", struct {
			F func(struct {
				A struct {
					C int
					B bdF
				}
			}) string
		}{}, false, ``},
		{"argnested O", struct {
			F func(struct {
				A struct {
					C int
					B bdO
				}
			}) string
		}{}, true, `{f}`},
		{"argnested mutual", struct {
			F func(struct {
				A struct {
					C int
					B bdX
				}
			}) string
		}{}, true, `{f}`},
		{"argnested S", struct {
			F func(struct {
				A struct {
					C int
					B bdS
				}
			}) string
		}{}, true, `{f}`},
		{"argnested anon", struct {
			F func(struct {
				A struct {
					C int
					B struct{ A int }
				}
			}) string
		}{}, true, `{f}`},
		{"argnested bad", struct {
			F func(struct {
				A struct {
					C int
					B struct{ A []chan int }
				}
			}) string
		}{}, false, ``},
		{"argnested hid", struct {
			F func(struct {
				A struct {
					C int
					B struct {
						A chan int `gq:"-"`
						B int
					}
				}
			}) string
		}{}, true, `{f}`},
		{"argnested unx", struct {
			F func(struct {
				A struct {
					C int
					B struct {
						A int
						b chan int
					}
				}
			}) string
		}{}, true, `{f}`},
		{"argnested empty", struct {
			F func(struct {
				A struct {
					C int
					B struct{}
				}
			}) string
		}{}, true, `{f}`},
		{"argnested LL", struct {
			F func(struct {
				A struct {
					C int
					B [][]*int
				}
			}) string
		}{}, true, `{f}`},
		{"argnested arr", struct {
			F func(struct {
				A struct {
					C int
					B [2]string
				}
			}) string
		}{}, true, `{f}`},
		{"argnested arrbad", struct {
			F func(struct {
				A struct {
					C int
					B [2]map[int]int
				}
			}) string
		}{}, false, ``},
		{"argnestedlist string", struct {
			F func(struct{ A []struct{ B string } }) string
		}{}, true, `{f}`},
		{"argnestedlist bool", struct {
			F func(struct{ A []struct{ B bool } }) string
		}{}, true, `{f}`},
		{"argnestedlist int64", struct {
			F func(struct{ A []struct{ B int64 } }) string
		}{}, true, `{f}`},
		{"argnestedlist uint8", struct {
			F func(struct{ A []struct{ B uint8 } }) string
		}{}, true, `{f}`},
		{"argnestedlist float32", struct {
			F func(struct{ A []struct{ B float32 } }) string
		}{}, true, `{f}`},
		{"argnestedlist float64", struct {
			F func(struct{ A []struct{ B float64 } }) string
		}{}, true, `{f}`},
		{"argnestedlist time", struct {
			F func(struct{ A []struct{ B time.Time } }) string
		}{}, true, `{f}`},
		{"argnestedlist ptime", struct {
			F func(struct{ A []struct{ B *time.Time } }) string
		}{}, true, `{f}`},
		{"argnestedlist dur", struct {
			F func(struct{ A []struct{ B time.Duration } }) string
		}{}, true, `{f}`},
		{"argnestedlist month", struct {
			F func(struct{ A []struct{ B time.Month } }) string
		}{}, true, `{f}`},
		{"argnestedlist header", struct {
			F func(struct{ A []struct{ B multipart.Form } }) string
		}{}, false, ``},
		{"argnestedlist own", struct {
			F func(struct{ A []struct{ B bdOwn } }) string
		}{}, true, `{f}`},
		{"argnestedlist enum", struct {
			F func(struct{ A []struct{ B bdEnum } }) string
		}{}, true, `{f}`},
		{"argnestedlist file", struct {
			F func(struct {
				A []struct{ B *multipart.FileHeader }
			}) string
		}{}, true, `{f}`},
		{"argnestedlist chan", struct {
			F func(struct{ A []struct{ B chan int } }) string
		}{}, false, ``},
		{"argnestedlist map", struct {
			F func(struct{ A []struct{ B map[string]int } }) string
		}{}, false, ``},
		{"argnestedlist c64", struct {
			F func(struct{ A []struct{ B complex64 } }) string
		}{}, false, ``},
		{"argnestedlist c128", struct {
			F func(struct{ A []struct{ B complex128 } }) string
		}{}, false, ``},
		{"argnestedlist uintptr", struct {
			F func(struct{ A []struct{ B uintptr } }) string
		}{}, false, ``},
		{"argnestedlist any", struct {
			F func(struct{ A []struct{ B interface{} } }) string
		}{}, false, ``},
		{"argnestedlist inline", struct {
			F func(struct {
				A []struct {
					B interface{ ResolveX() string }
				}
			}) string
		}{}, false, ``},
		{"argnestedlist noimpl", struct {
			F func(struct{ A []struct{ B bdNoImpl } }) string
		}{}, false, ``},
		{"argnestedlist impl", struct {
			F func(struct{ A []struct{ B bdImpl } }) string
		}{}, false, ``},
		{"argnestedlist error", struct {
			F func(struct{ A []struct{ B error } }) string
		}{}, false, ``},
		{"argnestedlist func0", struct {
			F func(struct{ A []struct{ B func() } }) string
		}{}, false, ``},
		{"argnestedlist funcE", struct {
			F func(struct{ A []struct{ B func() error } }) string
		}{}, false, ``},
		{"argnestedlist L", struct {
			F func(struct{ A []struct{ B bdL } }) string
		}{}, false, ``},
		{"argnestedlist P", struct {
			F func(struct{ A []struct{ B bdP } }) string
		}{}, false, ``},
		{"argnestedlist LP", struct {
			F func(struct{ A []struct{ B bdLP } }) string
		}{}, false, ``},
		{"argnestedlist A", struct {
			F func(struct{ A []struct{ B bdA } }) string
		}{}, false, ``},
		{"argnestedlist ring", struct {
			F func(struct{ A []struct{ B bdRing } }) string
		}{}, false, ``},
		{"argnestedlist M", struct {
			F func(struct{ A []struct{ B bdM } }) string
		}{}, false, ``},
		{"argnestedlist F", struct {
			F func(struct{ A []struct{ B bdF } }) string
		}{}, false, ``},
		{"argnestedlist O", struct {
			F func(struct{ A []struct{ B bdO } }) string
		}{}, true, `{f}`},
		{"argnestedlist mutual", struct {
			F func(struct{ A []struct{ B bdX } }) string
		}{}, true, `{f}`},
		{"argnestedlist S", struct {
			F func(struct{ A []struct{ B bdS } }) string
		}{}, true, `{f}`},
		{"argnestedlist anon", struct {
			F func(struct{ A []struct{ B struct{ A int } } }) string
		}{}, true, `{f}`},
		{"argnestedlist bad", struct {
			F func(struct {
				A []struct{ B struct{ A []chan int } }
			}) string
		}{}, false, ``},
		{"argnestedlist hid", struct {
			F func(struct {
				A []struct {
					B struct {
						A chan int `gq:"-"`
						B int
					}
				}
			}) string
		}{}, true, `{f}`},
		{"argnestedlist unx", struct {
			F func(struct {
				A []struct {
					B struct {
						A int
						b chan int
					}
				}
			}) string
		}{}, true, `{f}`},
		{"argnestedlist empty", struct {
			F func(struct{ A []struct{ B struct{} } }) string
		}{}, true, `{f}`},
		{"argnestedlist LL", struct {
			F func(struct{ A []struct{ B [][]*int } }) string
		}{}, true, `{f}`},
		{"argnestedlist arr", struct {
			F func(struct{ A []struct{ B [2]string } }) string
		}{}, true, `{f}`},
		{"argnestedlist arrbad", struct {
			F func(struct{ A []struct{ B [2]map[int]int } }) string
		}{}, false, ``},
		{"argsecond string", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A string }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond bool", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bool }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond int64", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A int64 }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond uint8", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A uint8 }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond float32", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A float32 }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond float64", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A float64 }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond time", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A time.Time }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond ptime", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A *time.Time }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond dur", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A time.Duration }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond month", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A time.Month }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond header", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A multipart.Form }) string
		}{}, false, ``},
		{"argsecond own", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdOwn }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond enum", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdEnum }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond file", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A *multipart.FileHeader }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond chan", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A chan int }) string
		}{}, false, ``},
		{"argsecond map", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A map[string]int }) string
		}{}, false, ``},
		{"argsecond c64", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A complex64 }) string
		}{}, false, ``},
		{"argsecond c128", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A complex128 }) string
		}{}, false, ``},
		{"argsecond uintptr", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A uintptr }) string
		}{}, false, ``},
		{"argsecond any", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A interface{} }) string
		}{}, false, ``},
		{"argsecond inline", struct {
			F func(*yarql.Ctx, struct{ C int }, struct {
				A interface{ ResolveX() string }
			}) string
		}{}, false, ``},
		{"argsecond noimpl", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdNoImpl }) string
		}{}, false, ``},
		{"argsecond impl", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdImpl }) string
		}{}, false, ``},
		{"argsecond error", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A error }) string
		}{}, false, ``},
		{"argsecond func0", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A func() }) string
		}{}, false, ``},
		{"argsecond funcE", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A func() error }) string
		}{}, false, ``},
		{"argsecond L", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdL }) string
		}{}, false, ``},
		{"argsecond P", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdP }) string
		}{}, false, ``},
		{"argsecond LP", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdLP }) string
		}{}, false, ``},
		{"argsecond A", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdA }) string
		}{}, false, ``},
		{"argsecond ring", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdRing }) string
		}{}, false, ``},
		{"argsecond M", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdM }) string
		}{}, false, ``},
		{"argsecond F", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdF }) string
		}{}, false, ``},
		{"argsecond O", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdO }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond mutual", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdX }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond S", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A bdS }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond anon", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A struct{ A int } }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond bad", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A struct{ A []chan int } }) string
		}{}, false, ``},
		{"argsecond hid", struct {
			F func(*yarql.Ctx, struct{ C int }, struct {
				A struct {
					A chan int `gq:"-"`
					B int
				}
			}) string
		}{}, true, `{f(c:1)}`},
		{"argsecond unx", struct {
			F func(*yarql.Ctx, struct{ C int }, struct {
				A struct {
					A int
					b chan int
				}
			}) string
		}{}, true, `{f(c:1)}`},
		{"argsecond empty", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A struct{} }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond LL", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A [][]*int }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond arr", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A [2]string }) string
		}{}, true, `{f(c:1)}`},
		{"argsecond arrbad", struct {
			F func(*yarql.Ctx, struct{ C int }, struct{ A [2]map[int]int }) string
		}{}, false, ``},
		{"argresult string", struct {
			F func(struct{ A string }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult bool", struct {
			F func(struct{ A bool }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult int64", struct {
			F func(struct{ A int64 }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult uint8", struct {
			F func(struct{ A uint8 }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult float32", struct {
			F func(struct{ A float32 }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult float64", struct {
			F func(struct{ A float64 }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult time", struct {
			F func(struct{ A time.Time }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult ptime", struct {
			F func(struct{ A *time.Time }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult dur", struct {
			F func(struct{ A time.Duration }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult month", struct {
			F func(struct{ A time.Month }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult header", struct {
			F func(struct{ A multipart.Form }) []struct{ B int }
		}{}, false, ``},
		{"argresult own", struct {
			F func(struct{ A bdOwn }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult enum", struct {
			F func(struct{ A bdEnum }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult file", struct {
			F func(struct{ A *multipart.FileHeader }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult chan", struct {
			F func(struct{ A chan int }) []struct{ B int }
		}{}, false, ``},
		{"argresult map", struct {
			F func(struct{ A map[string]int }) []struct{ B int }
		}{}, false, ``},
		{"argresult c64", struct {
			F func(struct{ A complex64 }) []struct{ B int }
		}{}, false, ``},
		{"argresult c128", struct {
			F func(struct{ A complex128 }) []struct{ B int }
		}{}, false, ``},
		{"argresult uintptr", struct {
			F func(struct{ A uintptr }) []struct{ B int }
		}{}, false, ``},
		{"argresult any", struct {
			F func(struct{ A interface{} }) []struct{ B int }
		}{}, false, ``},
		{"argresult inline", struct {
			F func(struct {
				A interface{ ResolveX() string }
			}) []struct{ B int }
		}{}, false, ``},
		{"argresult noimpl", struct {
			F func(struct{ A bdNoImpl }) []struct{ B int }
		}{}, false, ``},
		{"argresult impl", struct {
			F func(struct{ A bdImpl }) []struct{ B int }
		}{}, false, ``},
		{"argresult error", struct {
			F func(struct{ A error }) []struct{ B int }
		}{}, false, ``},
		{"argresult func0", struct {
			F func(struct{ A func() }) []struct{ B int }
		}{}, false, ``},
		{"argresult funcE", struct {
			F func(struct{ A func() error }) []struct{ B int }
		}{}, false, ``},
		{"argresult L", struct {
			F func(struct{ A bdL }) []struct{ B int }
		}{}, false, ``},
		{"argresult P", struct {
			F func(struct{ A bdP }) []struct{ B int }
		}{}, false, ``},
		{"argresult LP", struct {
			F func(struct{ A bdLP }) []struct{ B int }
		}{}, false, ``},
		{"argresult A", struct {
			F func(struct{ A bdA }) []struct{ B int }
		}{}, false, ``},
		{"argresult ring", struct {
			F func(struct{ A bdRing }) []struct{ B int }
		}{}, false, ``},
		{"argresult M", struct {
			F func(struct{ A bdM }) []struct{ B int }
		}{}, false, ``},
		{"argresult F", struct {
			F func(struct{ A bdF }) []struct{ B int }
		}{}, false, ``},
		{"argresult O", struct {
			F func(struct{ A bdO }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult mutual", struct {
			F func(struct{ A bdX }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult S", struct {
			F func(struct{ A bdS }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult anon", struct {
			F func(struct{ A struct{ A int } }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult bad", struct {
			F func(struct{ A struct{ A []chan int } }) []struct{ B int }
		}{}, false, ``},
		{"argresult hid", struct {
			F func(struct {
				A struct {
					A chan int `gq:"-"`
					B int
				}
			}) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult unx", struct {
			F func(struct {
				A struct {
					A int
					b chan int
				}
			}) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult empty", struct {
			F func(struct{ A struct{} }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult LL", struct {
			F func(struct{ A [][]*int }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult arr", struct {
			F func(struct{ A [2]string }) []struct{ B int }
		}{}, true, `{f{b}}`},
		{"argresult arrbad", struct {
			F func(struct{ A [2]map[int]int }) []struct{ B int }
		}{}, false, ``},
		{"argunexported string", struct {
			F func(struct {
				A int
				b string
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported bool", struct {
			F func(struct {
				A int
				b bool
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported int64", struct {
			F func(struct {
				A int
				b int64
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported uint8", struct {
			F func(struct {
				A int
				b uint8
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported float32", struct {
			F func(struct {
				A int
				b float32
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported float64", struct {
			F func(struct {
				A int
				b float64
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported time", struct {
			F func(struct {
				A int
				b time.Time
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported ptime", struct {
			F func(struct {
				A int
				b *time.Time
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported dur", struct {
			F func(struct {
				A int
				b time.Duration
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported month", struct {
			F func(struct {
				A int
				b time.Month
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported header", struct {
			F func(struct {
				A int
				b multipart.Form
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported own", struct {
			F func(struct {
				A int
				b bdOwn
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported enum", struct {
			F func(struct {
				A int
				b bdEnum
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported file", struct {
			F func(struct {
				A int
				b *multipart.FileHeader
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported chan", struct {
			F func(struct {
				A int
				b chan int
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported map", struct {
			F func(struct {
				A int
				b map[string]int
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported c64", struct {
			F func(struct {
				A int
				b complex64
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported c128", struct {
			F func(struct {
				A int
				b complex128
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported uintptr", struct {
			F func(struct {
				A int
				b uintptr
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported any", struct {
			F func(struct {
				A int
				b interface{}
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported inline", struct {
			F func(struct {
				A int
				b interface{ ResolveX() string }
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported noimpl", struct {
			F func(struct {
				A int
				b bdNoImpl
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported impl", struct {
			F func(struct {
				A int
				b bdImpl
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported error", struct {
			F func(struct {
				A int
				b error
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported func0", struct {
			F func(struct {
				A int
				b func()
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported funcE", struct {
			F func(struct {
				A int
				b func() error
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported L", struct {
			F func(struct {
				A int
				b bdL
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported P", struct {
			F func(struct {
				A int
				b bdP
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported LP", struct {
			F func(struct {
				A int
				b bdLP
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported A", struct {
			F func(struct {
				A int
				b bdA
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported ring", struct {
			F func(struct {
				A int
				b bdRing
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported M", struct {
			F func(struct {
				A int
				b bdM
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported F", struct {
			F func(struct {
				A int
				b bdF
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported O", struct {
			F func(struct {
				A int
				b bdO
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported mutual", struct {
			F func(struct {
				A int
				b bdX
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported S", struct {
			F func(struct {
				A int
				b bdS
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported anon", struct {
			F func(struct {
				A int
				b struct{ A int }
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported bad", struct {
			F func(struct {
				A int
				b struct{ A []chan int }
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported hid", struct {
			F func(struct {
				A int
				b struct {
					A chan int `gq:"-"`
					B int
				}
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported unx", struct {
			F func(struct {
				A int
				b struct {
					A int
					b chan int
				}
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported empty", struct {
			F func(struct {
				A int
				b struct{}
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported LL", struct {
			F func(struct {
				A int
				b [][]*int
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported arr", struct {
			F func(struct {
				A int
				b [2]string
			}) string
		}{}, true, `{f(a:1)}`},
		{"argunexported arrbad", struct {
			F func(struct {
				A int
				b [2]map[int]int
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored string", struct {
			F func(struct {
				A int
				B string `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored bool", struct {
			F func(struct {
				A int
				B bool `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored int64", struct {
			F func(struct {
				A int
				B int64 `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored uint8", struct {
			F func(struct {
				A int
				B uint8 `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored float32", struct {
			F func(struct {
				A int
				B float32 `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored float64", struct {
			F func(struct {
				A int
				B float64 `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored time", struct {
			F func(struct {
				A int
				B time.Time `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored ptime", struct {
			F func(struct {
				A int
				B *time.Time `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored dur", struct {
			F func(struct {
				A int
				B time.Duration `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored month", struct {
			F func(struct {
				A int
				B time.Month `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored header", struct {
			F func(struct {
				A int
				B multipart.Form `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored own", struct {
			F func(struct {
				A int
				B bdOwn `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored enum", struct {
			F func(struct {
				A int
				B bdEnum `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored file", struct {
			F func(struct {
				A int
				B *multipart.FileHeader `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored chan", struct {
			F func(struct {
				A int
				B chan int `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored map", struct {
			F func(struct {
				A int
				B map[string]int `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored c64", struct {
			F func(struct {
				A int
				B complex64 `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored c128", struct {
			F func(struct {
				A int
				B complex128 `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored uintptr", struct {
			F func(struct {
				A int
				B uintptr `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored any", struct {
			F func(struct {
				A int
				B interface{} `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored inline", struct {
			F func(struct {
				A int
				B interface{ ResolveX() string } `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored noimpl", struct {
			F func(struct {
				A int
				B bdNoImpl `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored impl", struct {
			F func(struct {
				A int
				B bdImpl `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored error", struct {
			F func(struct {
				A int
				B error `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored func0", struct {
			F func(struct {
				A int
				B func() `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored funcE", struct {
			F func(struct {
				A int
				B func() error `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored L", struct {
			F func(struct {
				A int
				B bdL `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored P", struct {
			F func(struct {
				A int
				B bdP `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored LP", struct {
			F func(struct {
				A int
				B bdLP `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored A", struct {
			F func(struct {
				A int
				B bdA `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored ring", struct {
			F func(struct {
				A int
				B bdRing `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored M", struct {
			F func(struct {
				A int
				B bdM `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored F", struct {
			F func(struct {
				A int
				B bdF `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored O", struct {
			F func(struct {
				A int
				B bdO `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored mutual", struct {
			F func(struct {
				A int
				B bdX `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored S", struct {
			F func(struct {
				A int
				B bdS `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored anon", struct {
			F func(struct {
				A int
				B struct{ A int } `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored bad", struct {
			F func(struct {
				A int
				B struct{ A []chan int } `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored hid", struct {
			F func(struct {
				A int
				B struct {
					A chan int `gq:"-"`
					B int
				} `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored unx", struct {
			F func(struct {
				A int
				B struct {
					A int
					b chan int
				} `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored empty", struct {
			F func(struct {
				A int
				B struct{} `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored LL", struct {
			F func(struct {
				A int
				B [][]*int `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored arr", struct {
			F func(struct {
				A int
				B [2]string `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"argignored arrbad", struct {
			F func(struct {
				A int
				B [2]map[int]int `gq:"-"`
			}) string
		}{}, true, `{f(a:1)}`},
		{"noarg string", struct{ F func(string) string }{}, false, ``},
		{"noarg bool", struct{ F func(bool) string }{}, false, ``},
		{"noarg int64", struct{ F func(int64) string }{}, false, ``},
		{"noarg uint8", struct{ F func(uint8) string }{}, false, ``},
		{"noarg float32", struct{ F func(float32) string }{}, false, ``},
		{"noarg float64", struct{ F func(float64) string }{}, false, ``},
		{"noarg time", struct{ F func(time.Time) string }{}, true, `{f}`},
		{"noarg ptime", struct{ F func(*time.Time) string }{}, false, ``},
		{"noarg dur", struct{ F func(time.Duration) string }{}, false, ``},
		{"noarg month", struct{ F func(time.Month) string }{}, false, ``},
		{"noarg header", struct{ F func(multipart.Form) string }{}, false, ``},
		{"noarg own", struct{ F func(bdOwn) string }{}, false, ``},
		{"noarg enum", struct{ F func(bdEnum) string }{}, false, ``},
		{"noarg file", struct {
			F func(*multipart.FileHeader) string
		}{}, false, ``},
		{"noarg chan", struct{ F func(chan int) string }{}, false, ``},
		{"noarg map", struct{ F func(map[string]int) string }{}, false, ``},
		{"noarg c64", struct{ F func(complex64) string }{}, false, ``},
		{"noarg c128", struct{ F func(complex128) string }{}, false, ``},
		{"noarg uintptr", struct{ F func(uintptr) string }{}, false, ``},
		{"noarg any", struct{ F func(interface{}) string }{}, false, ``},
		{"noarg inline", struct {
			F func(interface{ ResolveX() string }) string
		}{}, false, ``},
		{"noarg noimpl", struct{ F func(bdNoImpl) string }{}, false, ``},
		{"noarg impl", struct{ F func(bdImpl) string }{}, false, ``},
		{"noarg error", struct{ F func(error) string }{}, false, ``},
		{"noarg func0", struct{ F func(func()) string }{}, false, ``},
		{"noarg funcE", struct{ F func(func() error) string }{}, false, ``},
		{"noarg L", struct{ F func(bdL) string }{}, false, ``},
		{"noarg P", struct{ F func(bdP) string }{}, false, ``},
		{"noarg LP", struct{ F func(bdLP) string }{}, false, ``},
		{"noarg A", struct{ F func(bdA) string }{}, false, ``},
		{"noarg ring", struct{ F func(bdRing) string }{}, false, ``},
		{"noarg M", struct{ F func(bdM) string }{}, false, ``},
		{"noarg F", struct{ F func(bdF) string }{}, false, ``},
		{"noarg O", struct{ F func(bdO) string }{}, true, `{f}`},
		{"noarg mutual", struct{ F func(bdX) string }{}, true, `{f}`},
		{"noarg S", struct{ F func(bdS) string }{}, false, ``},
		{"noarg anon", struct{ F func(struct{ A int }) string }{}, true, `{f}`},
		{"noarg bad", struct {
			F func(struct{ A []chan int }) string
		}{}, false, ``},
		{"noarg hid", struct {
			F func(struct {
				A chan int `gq:"-"`
				B int
			}) string
		}{}, true, `{f}`},
		{"noarg unx", struct {
			F func(struct {
				A int
				b chan int
			}) string
		}{}, true, `{f}`},
		{"noarg empty", struct{ F func(struct{}) string }{}, true, `{f}`},
		{"noarg LL", struct{ F func([][]*int) string }{}, false, ``},
		{"noarg arr", struct{ F func([2]string) string }{}, false, ``},
		{"noarg arrbad", struct{ F func([2]map[int]int) string }{}, false, ``},
	}
}

var bdDirs = []struct {
	name string
	f    interface{}
	ok   bool
}{
	{"string", func(struct{ A string }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"bool", func(struct{ A bool }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"int64", func(struct{ A int64 }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"uint8", func(struct{ A uint8 }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"float32", func(struct{ A float32 }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"float64", func(struct{ A float64 }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"time", func(struct{ A time.Time }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"ptime", func(struct{ A *time.Time }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"dur", func(struct{ A time.Duration }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"month", func(struct{ A time.Month }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"header", func(struct{ A multipart.Form }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"own", func(struct{ A bdOwn }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"enum", func(struct{ A bdEnum }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"file", func(struct{ A *multipart.FileHeader }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"chan", func(struct{ A chan int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"map", func(struct{ A map[string]int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"c64", func(struct{ A complex64 }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"c128", func(struct{ A complex128 }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"uintptr", func(struct{ A uintptr }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"any", func(struct{ A interface{} }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"inline", func(struct {
		A interface{ ResolveX() string }
	}) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{}
	}, false},
	{"noimpl", func(struct{ A bdNoImpl }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"impl", func(struct{ A bdImpl }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"error", func(struct{ A error }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"func0", func(struct{ A func() }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"funcE", func(struct{ A func() error }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"L", func(struct{ A bdL }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"P", func(struct{ A bdP }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"LP", func(struct{ A bdLP }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"A", func(struct{ A bdA }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"ring", func(struct{ A bdRing }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"M", func(struct{ A bdM }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"F", func(struct{ A bdF }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"O", func(struct{ A bdO }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"mutual", func(struct{ A bdX }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"S", func(struct{ A bdS }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"anon", func(struct{ A struct{ A int } }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"bad", func(struct{ A struct{ A []chan int } }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
	{"hid", func(struct {
		A struct {
			A chan int `gq:"-"`
			B int
		}
	}) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{}
	}, true},
	{"unx", func(struct {
		A struct {
			A int
			b chan int
		}
	}) yarql.DirectiveModifier {
		return yarql.DirectiveModifier{}
	}, true},
	{"empty", func(struct{ A struct{} }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"LL", func(struct{ A [][]*int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"arr", func(struct{ A [2]string }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, true},
	{"arrbad", func(struct{ A [2]map[int]int }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, false},
}

var bdShapes = []bdCase{
	{"func()", struct {
		A int
		F func()
	}{A: 1}, false, ""},
	{"nested func()", struct {
		N []struct{ F func() }
		A int
	}{A: 1}, false, ""},
	{"func() error", struct {
		A int
		F func() error
	}{A: 1}, false, ""},
	{"nested func() error", struct {
		N []struct{ F func() error }
		A int
	}{A: 1}, false, ""},
	{"func() (int, int)", struct {
		A int
		F func() (int, int)
	}{A: 1}, false, ""},
	{"nested func() (int, int)", struct {
		N []struct{ F func() (int, int) }
		A int
	}{A: 1}, false, ""},
	{"func() (int, error, error)", struct {
		A int
		F func() (int, error, error)
	}{A: 1}, false, ""},
	{"nested func() (int, error, error)", struct {
		N []struct{ F func() (int, error, error) }
		A int
	}{A: 1}, false, ""},
	{"func() (error, error)", struct {
		A int
		F func() (error, error)
	}{A: 1}, false, ""},
	{"nested func() (error, error)", struct {
		N []struct{ F func() (error, error) }
		A int
	}{A: 1}, false, ""},
	{"func() (error, error, int)", struct {
		A int
		F func() (error, error, int)
	}{A: 1}, false, ""},
	{"nested func() (error, error, int)", struct {
		N []struct{ F func() (error, error, int) }
		A int
	}{A: 1}, false, ""},
	{"func() (error, int, error)", struct {
		A int
		F func() (error, int, error)
	}{A: 1}, false, ""},
	{"nested func() (error, int, error)", struct {
		N []struct{ F func() (error, int, error) }
		A int
	}{A: 1}, false, ""},
	{"func() (error, int)", struct {
		A int
		F func() (error, int)
	}{A: 1}, true, ""},
	{"nested func() (error, int)", struct {
		N []struct{ F func() (error, int) }
		A int
	}{A: 1}, true, ""},
	{"func() (int, error)", struct {
		A int
		F func() (int, error)
	}{A: 1}, true, ""},
	{"nested func() (int, error)", struct {
		N []struct{ F func() (int, error) }
		A int
	}{A: 1}, true, ""},
	{"func(...string) string", struct {
		A int
		F func(...string) string
	}{A: 1}, false, ""},
	{"nested func(...string) string", struct {
		N []struct{ F func(...string) string }
		A int
	}{A: 1}, false, ""},
	{"func(struct{ A int }, ...string) string", struct {
		A int
		F func(struct{ A int }, ...string) string
	}{A: 1}, false, ""},
	{"nested func(struct{ A int }, ...string) string", struct {
		N []struct {
			F func(struct{ A int }, ...string) string
		}
		A int
	}{A: 1}, false, ""},
	{"func(string) string", struct {
		A int
		F func(string) string
	}{A: 1}, false, ""},
	{"nested func(string) string", struct {
		N []struct{ F func(string) string }
		A int
	}{A: 1}, false, ""},
	{"func([]int) string", struct {
		A int
		F func([]int) string
	}{A: 1}, false, ""},
	{"nested func([]int) string", struct {
		N []struct{ F func([]int) string }
		A int
	}{A: 1}, false, ""},
	{"func(*struct{ A int }) string", struct {
		A int
		F func(*struct{ A int }) string
	}{A: 1}, false, ""},
	{"nested func(*struct{ A int }) string", struct {
		N []struct{ F func(*struct{ A int }) string }
		A int
	}{A: 1}, false, ""},
	{"func(yarql.Ctx) string", struct {
		A int
		F func(yarql.Ctx) string
	}{A: 1}, false, ""},
	{"nested func(yarql.Ctx) string", struct {
		N []struct{ F func(yarql.Ctx) string }
		A int
	}{A: 1}, false, ""},
	{"func(*yarql.Ctx) string", struct {
		A int
		F func(*yarql.Ctx) string
	}{A: 1}, true, ""},
	{"nested func(*yarql.Ctx) string", struct {
		N []struct{ F func(*yarql.Ctx) string }
		A int
	}{A: 1}, true, ""},
	{"func(**yarql.Ctx) string", struct {
		A int
		F func(**yarql.Ctx) string
	}{A: 1}, false, ""},
	{"nested func(**yarql.Ctx) string", struct {
		N []struct{ F func(**yarql.Ctx) string }
		A int
	}{A: 1}, false, ""},
	{"func([]*yarql.Ctx) string", struct {
		A int
		F func([]*yarql.Ctx) string
	}{A: 1}, false, ""},
	{"nested func([]*yarql.Ctx) string", struct {
		N []struct{ F func([]*yarql.Ctx) string }
		A int
	}{A: 1}, false, ""},
	{"func(struct{ A int }, *yarql.Ctx, struct{ B int }) (error, string)", struct {
		A int
		F func(struct{ A int }, *yarql.Ctx, struct{ B int }) (error, string)
	}{A: 1}, true, ""},
	{"nested func(struct{ A int }, *yarql.Ctx, struct{ B int }) (error, string)", struct {
		N []struct {
			F func(struct{ A int }, *yarql.Ctx, struct{ B int }) (error, string)
		}
		A int
	}{A: 1}, true, ""},
	{"func(*yarql.Ctx, struct{ A int }) *string", struct {
		A int
		F func(*yarql.Ctx, struct{ A int }) *string
	}{A: 1}, true, ""},
	{"nested func(*yarql.Ctx, struct{ A int }) *string", struct {
		N []struct {
			F func(*yarql.Ctx, struct{ A int }) *string
		}
		A int
	}{A: 1}, true, ""},
	{"func() yarql.AttrIsID", struct {
		A int
		F func() yarql.AttrIsID
	}{A: 1}, false, ""},
	{"nested func() yarql.AttrIsID", struct {
		N []struct{ F func() yarql.AttrIsID }
		A int
	}{A: 1}, false, ""},
	{"func() (yarql.AttrIsID, error)", struct {
		A int
		F func() (yarql.AttrIsID, error)
	}{A: 1}, false, ""},
	{"nested func() (yarql.AttrIsID, error)", struct {
		N []struct {
			F func() (yarql.AttrIsID, error)
		}
		A int
	}{A: 1}, false, ""},
	{"func() (yarql.AttrIsID, string)", struct {
		A int
		F func() (yarql.AttrIsID, string)
	}{A: 1}, true, ""},
	{"nested func() (yarql.AttrIsID, string)", struct {
		N []struct {
			F func() (yarql.AttrIsID, string)
		}
		A int
	}{A: 1}, true, ""},
	{"func() (string, yarql.AttrIsID, error)", struct {
		A int
		F func() (string, yarql.AttrIsID, error)
	}{A: 1}, true, ""},
	{"nested func() (string, yarql.AttrIsID, error)", struct {
		N []struct {
			F func() (string, yarql.AttrIsID, error)
		}
		A int
	}{A: 1}, true, ""},
	{"func() (struct{ A int }, yarql.AttrIsID)", struct {
		A int
		F func() (struct{ A int }, yarql.AttrIsID)
	}{A: 1}, false, ""},
	{"nested func() (struct{ A int }, yarql.AttrIsID)", struct {
		N []struct {
			F func() (struct{ A int }, yarql.AttrIsID)
		}
		A int
	}{A: 1}, false, ""},
	{"func() (bool, yarql.AttrIsID)", struct {
		A int
		F func() (bool, yarql.AttrIsID)
	}{A: 1}, false, ""},
	{"nested func() (bool, yarql.AttrIsID)", struct {
		N []struct{ F func() (bool, yarql.AttrIsID) }
		A int
	}{A: 1}, false, ""},
	{"func() (float64, yarql.AttrIsID)", struct {
		A int
		F func() (float64, yarql.AttrIsID)
	}{A: 1}, false, ""},
	{"nested func() (float64, yarql.AttrIsID)", struct {
		N []struct {
			F func() (float64, yarql.AttrIsID)
		}
		A int
	}{A: 1}, false, ""},
	{"func() ([]string, yarql.AttrIsID)", struct {
		A int
		F func() ([]string, yarql.AttrIsID)
	}{A: 1}, true, ""},
	{"nested func() ([]string, yarql.AttrIsID)", struct {
		N []struct {
			F func() ([]string, yarql.AttrIsID)
		}
		A int
	}{A: 1}, true, ""},
	{"func() (*string, yarql.AttrIsID)", struct {
		A int
		F func() (*string, yarql.AttrIsID)
	}{A: 1}, true, ""},
	{"nested func() (*string, yarql.AttrIsID)", struct {
		N []struct {
			F func() (*string, yarql.AttrIsID)
		}
		A int
	}{A: 1}, true, ""},
	{"func(struct{}) int", struct {
		A int
		F func(struct{}) int
	}{A: 1}, true, ""},
	{"nested func(struct{}) int", struct {
		N []struct{ F func(struct{}) int }
		A int
	}{A: 1}, true, ""},
	{"func(interface{}) string", struct {
		A int
		F func(interface{}) string
	}{A: 1}, false, ""},
	{"nested func(interface{}) string", struct {
		N []struct{ F func(interface{}) string }
		A int
	}{A: 1}, false, ""},
	{"func(func()) string", struct {
		A int
		F func(func()) string
	}{A: 1}, false, ""},
	{"nested func(func()) string", struct {
		N []struct{ F func(func()) string }
		A int
	}{A: 1}, false, ""},
	{"func() func() string", struct {
		A int
		F func() func() string
	}{A: 1}, false, ""},
	{"nested func() func() string", struct {
		N []struct{ F func() func() string }
		A int
	}{A: 1}, false, ""},
	{"func() **string", struct {
		A int
		F func() **string
	}{A: 1}, true, ""},
	{"nested func() **string", struct {
		N []struct{ F func() **string }
		A int
	}{A: 1}, true, ""},
	{"func() []error", struct {
		A int
		F func() []error
	}{A: 1}, false, ""},
	{"nested func() []error", struct {
		N []struct{ F func() []error }
		A int
	}{A: 1}, false, ""},
	{"func(int, struct{}) string", struct {
		A int
		F func(int, struct{}) string
	}{A: 1}, false, ""},
	{"nested func(int, struct{}) string", struct {
		N []struct{ F func(int, struct{}) string }
		A int
	}{A: 1}, false, ""},
	{"func(struct{}, int) string", struct {
		A int
		F func(struct{}, int) string
	}{A: 1}, false, ""},
	{"nested func(struct{}, int) string", struct {
		N []struct{ F func(struct{}, int) string }
		A int
	}{A: 1}, false, ""},
	{"func(bool) (string, error)", struct {
		A int
		F func(bool) (string, error)
	}{A: 1}, false, ""},
	{"nested func(bool) (string, error)", struct {
		N []struct{ F func(bool) (string, error) }
		A int
	}{A: 1}, false, ""},
	{"func(map[string]int) string", struct {
		A int
		F func(map[string]int) string
	}{A: 1}, false, ""},
	{"nested func(map[string]int) string", struct {
		N []struct{ F func(map[string]int) string }
		A int
	}{A: 1}, false, ""},
	{"func() (chan int, error)", struct {
		A int
		F func() (chan int, error)
	}{A: 1}, false, ""},
	{"nested func() (chan int, error)", struct {
		N []struct{ F func() (chan int, error) }
		A int
	}{A: 1}, false, ""},
	{"func() (int, string, error)", struct {
		A int
		F func() (int, string, error)
	}{A: 1}, false, ""},
	{"nested func() (int, string, error)", struct {
		N []struct{ F func() (int, string, error) }
		A int
	}{A: 1}, false, ""},
}

var bdTags = []struct {
	tag                  string
	out, nested, arg, in interface{}
	ok                   bool
	name                 string
	id                   bool
}{
	{``, struct {
		Foo int
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int
			Z   int
		}
	}{[]*struct {
		Foo int
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int
			Z   int
		}) int
	}{func(a struct {
		Foo int
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`gq:""`, struct {
		Foo int `gq:""`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:""`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:""`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:""`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:""`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:""`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:""`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`gq:"bar"`, struct {
		Foo int `gq:"bar"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", false},
	{`gq:" bar "`, struct {
		Foo int `gq:" bar "`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:" bar "`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:" bar "`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:" bar "`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:" bar "`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:" bar "`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:" bar "`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", false},
	{`gq:"-"`, struct {
		Foo int `gq:"-"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"-"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"-"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"-"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"-"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"-"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"-"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "-", false},
	{`gq:" - "`, struct {
		Foo int `gq:" - "`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:" - "`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:" - "`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:" - "`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:" - "`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:" - "`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:" - "`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "-", false},
	{`gq:"-,id"`, struct {
		Foo int `gq:"-,id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"-,id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"-,id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"-,id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"-,id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"-,id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"-,id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "-", false},
	{`gq:"-,nope"`, struct {
		Foo int `gq:"-,nope"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"-,nope"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"-,nope"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"-,nope"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"-,nope"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"-,nope"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"-,nope"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "-", false},
	{`gq:",id"`, struct {
		Foo int `gq:",id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:",id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:",id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:",id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:",id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:",id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:",id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", true},
	{`gq:"bar,id"`, struct {
		Foo int `gq:"bar,id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar,id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar,id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar,id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar,id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar,id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar,id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", true},
	{`gq:"bar, ID "`, struct {
		Foo int `gq:"bar, ID "`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar, ID "`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar, ID "`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar, ID "`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar, ID "`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar, ID "`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar, ID "`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", true},
	{`gq:",Id,iD"`, struct {
		Foo int `gq:",Id,iD"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:",Id,iD"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:",Id,iD"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:",Id,iD"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:",Id,iD"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:",Id,iD"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:",Id,iD"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", true},
	{`gq:" ,id"`, struct {
		Foo int `gq:" ,id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:" ,id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:" ,id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:" ,id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:" ,id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:" ,id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:" ,id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", true},
	{`gq:"bar,"`, struct {
		Foo int `gq:"bar,"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar,"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar,"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar,"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar,"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar,"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar,"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"bar,ids"`, struct {
		Foo int `gq:"bar,ids"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar,ids"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar,ids"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar,ids"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar,ids"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar,ids"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar,ids"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:",nope"`, struct {
		Foo int `gq:",nope"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:",nope"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:",nope"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:",nope"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:",nope"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:",nope"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:",nope"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:",id,nope"`, struct {
		Foo int `gq:",id,nope"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:",id,nope"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:",id,nope"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:",id,nope"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:",id,nope"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:",id,nope"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:",id,nope"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:",nope,id"`, struct {
		Foo int `gq:",nope,id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:",nope,id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:",nope,id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:",nope,id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:",nope,id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:",nope,id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:",nope,id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:",i d"`, struct {
		Foo int `gq:",i d"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:",i d"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:",i d"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:",i d"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:",i d"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:",i d"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:",i d"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"bar,-"`, struct {
		Foo int `gq:"bar,-"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar,-"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar,-"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar,-"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar,-"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar,-"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar,-"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"1a"`, struct {
		Foo int `gq:"1a"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"1a"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"1a"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"1a"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"1a"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"1a"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"1a"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"a-b"`, struct {
		Foo int `gq:"a-b"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"a-b"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"a-b"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"a-b"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"a-b"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"a-b"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"a-b"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"a b"`, struct {
		Foo int `gq:"a b"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"a b"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"a b"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"a b"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"a b"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"a b"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"a b"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"_a"`, struct {
		Foo int `gq:"_a"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"_a"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"_a"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"_a"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"_a"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"_a"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"_a"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"__a"`, struct {
		Foo int `gq:"__a"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"__a"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"__a"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"__a"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"__a"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"__a"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"__a"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"\u00e9"`, struct {
		Foo int `gq:"\u00e9"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"\u00e9"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"\u00e9"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"\u00e9"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"\u00e9"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"\u00e9"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"\u00e9"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"a\u00e9"`, struct {
		Foo int `gq:"a\u00e9"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"a\u00e9"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"a\u00e9"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"a\u00e9"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"a\u00e9"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"a\u00e9"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"a\u00e9"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"a.b,id"`, struct {
		Foo int `gq:"a.b,id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"a.b,id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"a.b,id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"a.b,id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"a.b,id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"a.b,id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"a.b,id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"1a,id"`, struct {
		Foo int `gq:"1a,id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"1a,id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"1a,id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"1a,id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"1a,id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"1a,id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"1a,id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"a$"`, struct {
		Foo int `gq:"a$"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"a$"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"a$"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"a$"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"a$"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"a$"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"a$"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"a\x00"`, struct {
		Foo int `gq:"a\x00"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"a\x00"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"a\x00"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"a\x00"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"a\x00"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"a\x00"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"a\x00"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"B_9"`, struct {
		Foo int `gq:"B_9"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"B_9"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"B_9"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"B_9"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"B_9"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"B_9"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"B_9"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "B_9", false},
	{`gq:"aB"`, struct {
		Foo int `gq:"aB"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"aB"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"aB"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"aB"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"aB"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"aB"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"aB"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "aB", false},
	{`gq:"Foo"`, struct {
		Foo int `gq:"Foo"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"Foo"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"Foo"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"Foo"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"Foo"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"Foo"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"Foo"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "Foo", false},
	{`json:"x"`, struct {
		Foo int `json:"x"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `json:"x"`
			Z   int
		}
	}{[]*struct {
		Foo int `json:"x"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `json:"x"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `json:"x"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `json:"x"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `json:"x"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`json:"x" gq:"bar"`, struct {
		Foo int `json:"x" gq:"bar"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `json:"x" gq:"bar"`
			Z   int
		}
	}{[]*struct {
		Foo int `json:"x" gq:"bar"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `json:"x" gq:"bar"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `json:"x" gq:"bar"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `json:"x" gq:"bar"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `json:"x" gq:"bar"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", false},
	{`gq:"bar" json:"-"`, struct {
		Foo int `gq:"bar" json:"-"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar" json:"-"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar" json:"-"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar" json:"-"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar" json:"-"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar" json:"-"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar" json:"-"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", false},
	{`json:"-"`, struct {
		Foo int `json:"-"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `json:"-"`
			Z   int
		}
	}{[]*struct {
		Foo int `json:"-"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `json:"-"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `json:"-"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `json:"-"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `json:"-"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`GQ:"bar"`, struct {
		Foo int `GQ:"bar"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `GQ:"bar"`
			Z   int
		}
	}{[]*struct {
		Foo int `GQ:"bar"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `GQ:"bar"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `GQ:"bar"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `GQ:"bar"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `GQ:"bar"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`gq:bar`, struct {
		Foo int `gq:bar`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:bar`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:bar`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:bar`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:bar`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:bar`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:bar`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`gq: "bar"`, struct {
		Foo int `gq: "bar"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq: "bar"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq: "bar"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq: "bar"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq: "bar"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq: "bar"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq: "bar"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`xgq:"bar"`, struct {
		Foo int `xgq:"bar"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `xgq:"bar"`
			Z   int
		}
	}{[]*struct {
		Foo int `xgq:"bar"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `xgq:"bar"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `xgq:"bar"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `xgq:"bar"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `xgq:"bar"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "foo", false},
	{`gq:"--"`, struct {
		Foo int `gq:"--"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"--"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"--"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"--"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"--"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"--"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"--"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, false, "", false},
	{`gq:"id"`, struct {
		Foo int `gq:"id"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"id"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"id"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"id"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"id"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"id"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"id"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "id", false},
	{`gq:"bar" gq:"foo"`, struct {
		Foo int `gq:"bar" gq:"foo"`
		Z   int
	}{7, 8}, struct {
		O []*struct {
			Foo int `gq:"bar" gq:"foo"`
			Z   int
		}
	}{[]*struct {
		Foo int `gq:"bar" gq:"foo"`
		Z   int
	}{{7, 8}}}, struct {
		F func(struct {
			Foo int `gq:"bar" gq:"foo"`
			Z   int
		}) int
	}{func(a struct {
		Foo int `gq:"bar" gq:"foo"`
		Z   int
	}) int {
		return a.Foo + 10*a.Z
	}}, struct {
		F func(struct {
			O []struct {
				Foo int `gq:"bar" gq:"foo"`
				Z   int
			}
		}) int
	}{func(a struct {
		O []struct {
			Foo int `gq:"bar" gq:"foo"`
			Z   int
		}
	}) int {
		return a.O[0].Foo + 10*a.O[0].Z
	}}, true, "bar", false},
}
