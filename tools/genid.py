#!/usr/bin/env python3
"""Writes harness/h/idgen.go: every kind of value marked as id, wherever a mark can be."""
kinds=[('Str','string','"a1"','"#x"'),('Int','int','7','#'),('I8','int8','7','#'),('I16','int16','7','#'),('I32','int32','7','#'),('I64','int64','7','#'),('U','uint','7','#'),('U8','uint8','7','#'),('U16','uint16','7','#'),('U32','uint32','7','#'),('U64','uint64','7','#'),
('F32','float32','7','#'),('F64','float64','7','#'),('Bool','bool','true','true'),('PStr','*string','','"#x"'),('PInt','*int','','#'),('PBool','*bool','','true'),('PF','*float64','','#'),('LStr','[]string','[]string{"a1"}','["#x"]'),('LInt','[]int','[]int{7}','[#]'),('LBool','[]bool','[]bool{true}','[true]'),('LPInt','[]*int','[]*int{nil}','[#]'),
('Time','time.Time','time.Time{}',''),('Enum','idEnum','1','E1'),('EnumS','idEnumS','"s"','S1'),('Obj','idObj','idObj{}',''),('Own','idOwn','7','#'),('OwnB','idOwnB','true','true'),('PP','**string','new(*string)','"#x"'),('LL','[][]int','[][]int{{7}}','[[#]]'),('Arr','[2]int','[2]int{7,7}','')]
o="""package h

// Written by tools/genid.py.

import (
	"time"

	"github.com/mjarkk/yarql"
)

type (
	idEnum uint8
	idEnumS string
	idObj struct{ A int }
	idOwn int16
	idOwnB bool
)

"""
tab=''
for n,t,v,a in kinds:
    val=v or ('new(%s)'%t[1:])
    o+='type IdOut%s struct { V %s `gq:"v,id"` }\n'%(n,t)
    o+='type IdFn%s struct { V func() %s `gq:"v,id"` }\n'%(n,t)
    o+='type IdRes%s struct { D int }\nfunc (IdRes%s) ResolveV() (%s, yarql.AttrIsID) { return %s, 0 }\n'%(n,n,t,val)
    o+='type IdIn%s struct { D int }\nfunc (IdIn%s) ResolveV(a struct { V %s `gq:"v,id"` }) %s { return a.V }\n'%(n,n,t,t)
    o+='type IdMem%s struct { D int }\nfunc (IdMem%s) ResolveV(a struct { O struct { V %s `gq:"v,id"` } `gq:"o"` }) %s { return a.O.V }\n\n'%(n,n,t,t)
    tab+='\t{"%s", IdOut%s{%s}, IdFn%s{func() %s { return %s }}, IdRes%s{}, IdIn%s{}, IdMem%s{}, `%s`},\n'%(t,n,val,n,t,val,n,n,n,a)
o+='var idKinds = []struct {\n\tt string\n\tout, fn, res, in, mem interface{}\n\targ string\n}{\n'+tab+'}\n'
open('/verif/harness/h/idgen.go','w').write(o)
