#!/usr/bin/env python3
"""Writes harness/h/buildgen.go: every kind of Go type in every role a schema has, resolvers of every shape, members with every kind of tag."""
# name, type, usable as output, usable as input, selection
K=[('string','string',1,1,''),('bool','bool',1,1,''),('int64','int64',1,1,''),('uint8','uint8',1,1,''),('float32','float32',1,1,''),('float64','float64',1,1,''),
('time','time.Time',1,1,''),('ptime','*time.Time',1,1,''),('dur','time.Duration',1,1,''),('month','time.Month',1,1,''),('header','multipart.Form',0,0,''),('own','bdOwn',1,1,''),('enum','bdEnum',1,1,''),('file','*multipart.FileHeader',0,1,''),
('chan','chan int',0,0,''),('map','map[string]int',0,0,''),('c64','complex64',0,0,''),('c128','complex128',0,0,''),('uintptr','uintptr',0,0,''),
('any','interface{}',0,0,''),('inline','interface{ ResolveX() string }',0,0,''),('noimpl','bdNoImpl',0,0,''),('impl','bdImpl',1,0,'{__typename}'),('error','error',0,0,''),
('func0','func()',0,0,''),('funcE','func() error',0,0,''),
('L','bdL',0,0,''),('P','bdP',0,0,''),('LP','bdLP',0,0,''),('A','bdA',0,0,''),('ring','bdRing',0,0,''),('M','bdM',0,0,''),('F','bdF',0,0,''),
('O','bdO',1,1,'{n l{n}p{n}}'),('mutual','bdX',1,1,'{y{x{n}n}}'),('S','bdS',1,1,'{n x{n}}'),('anon','struct{ A int }',1,1,'{a}'),('bad','struct{ A []chan int }',0,0,''),
('hid','struct { A chan int `gq:"-"`; B int }',1,1,'{b}'),('unx','struct { A int; b chan int }',0,1,'{a}'),('empty','struct{}',1,1,'{__typename}'),
('LL','[][]*int',1,1,''),('arr','[2]string',1,1,''),('arrbad','[2]map[int]int',0,0,'')]
# role: name, root, direction (o i - x: always usable, never), query
R=[('member','struct{ F %s }','o','{f#}'),('list','struct{ F []%s }','o','{f#}'),('pointer','struct{ F *%s }','o','{f#}'),('array','struct{ F [2]%s }','o','{f#}'),
('nested','struct{ N struct{ M int; F %s } }','o','{n{m f#}}'),('nestedlist','struct{ N []*struct{ F %s } }','o','{n{f#}}'),
('result','struct{ F func() %s }','o','{f#}'),('results','struct{ F func(*yarql.Ctx) ([]%s, error) }','o','{f#}'),('nestedresult','struct{ N struct{ F func() *%s } }','o','{n{f#}}'),
('unexported','struct{ f %s }','o',''),('ignored','struct{ F %s `gq:"-"`; G int }','-','{g}'),('funcresult','struct{ F func() func() %s }','x',''),
('arg','struct{ F func(struct{ A %s }) string }','i','{f}'),('arglist','struct{ F func(struct{ A []%s }) string }','i','{f}'),('argpointer','struct{ F func(struct{ A *%s }) string }','i','{f}'),
('argnested','struct{ F func(struct{ A struct{ C int; B %s } }) string }','i','{f}'),('argnestedlist','struct{ F func(struct{ A []struct{ B %s } }) string }','i','{f}'),
('argsecond','struct{ F func(*yarql.Ctx, struct{ C int }, struct{ A %s }) string }','i','{f(c:1)}'),('argresult','struct { F func(struct{ A %s }) []struct{ B int } }','i','{f{b}}'),
('argunexported','struct{ F func(struct{ A int; b %s }) string }','-','{f(a:1)}'),('argignored','struct{ F func(struct{ A int; B %s `gq:"-"` }) string }','-','{f(a:1)}'),
('noarg','struct{ F func(%s) string }','s','{f}')]
# kinds whose own kind as only parameter is fine: structs that are usable as input
S={'time','O','mutual','anon','hid','unx','empty'}
tab=''
for rn,rt,d,q in R:
    for n,t,o,i,sel in K:
        if n=='file' and d=='o' and rn in('pointer','nestedresult'): ok=0
        else: ok={'o':o,'i':i,'-':1,'x':0,'s':1 if n in S else 0}[d]
        # a function as member is a resolver, which func() and func() error are not either
        qq=q.replace('#',sel)
        tab+='\t{"%s %s", %s{}, %s, `%s`},\n'%(rn,n,rt%t,'true' if ok else 'false',qq if ok else '')
dirs=''
for n,t,o,i,sel in K:
    dirs+='\t{"%s", func(struct{ A %s }) yarql.DirectiveModifier { return yarql.DirectiveModifier{} }, %s},\n'%(n,t,'true' if i else 'false')
sh=[('func()',0),('func() error',0),('func() (int, int)',0),('func() (int, error, error)',0),('func() (error, error)',0),('func() (error, error, int)',0),('func() (error, int, error)',0),('func() (error, int)',1),('func() (int, error)',1),('func(...string) string',0),('func(struct{ A int }, ...string) string',0),('func(string) string',0),('func([]int) string',0),
('func(*struct{ A int }) string',0),('func(yarql.Ctx) string',0),('func(*yarql.Ctx) string',1),('func(**yarql.Ctx) string',0),('func([]*yarql.Ctx) string',0),('func(struct{ A int }, *yarql.Ctx, struct{ B int }) (error, string)',1),
('func(*yarql.Ctx, struct{ A int }) *string',1),('func() yarql.AttrIsID',0),('func() (yarql.AttrIsID, error)',0),('func() (yarql.AttrIsID, string)',1),('func() (string, yarql.AttrIsID, error)',1),('func() (struct{ A int }, yarql.AttrIsID)',0),('func() (bool, yarql.AttrIsID)',0),('func() (float64, yarql.AttrIsID)',0),('func() ([]string, yarql.AttrIsID)',1),('func() (*string, yarql.AttrIsID)',1),
('func(struct{}) int',1),('func(interface{}) string',0),('func(func()) string',0),('func() func() string',0),('func() **string',1),('func() []error',0),('func(int, struct{}) string',0),('func(struct{}, int) string',0),('func(bool) (string, error)',0),('func(map[string]int) string',0),('func() (chan int, error)',0),('func() (int, string, error)',0)]
shapes=''
for t,ok in sh:
    shapes+='\t{"%s", struct{ A int; F %s }{A: 1}, %s, ""},\n'%(t,t,'true' if ok else 'false')
    shapes+='\t{"nested %s", struct{ N []struct{ F %s }; A int }{A: 1}, %s, ""},\n'%(t,t,'true' if ok else 'false')
# tag, usable, name, id
tags=[('',1,'foo',0),('gq:""',1,'foo',0),('gq:"bar"',1,'bar',0),('gq:" bar "',1,'bar',0),('gq:"-"',1,'-',0),('gq:" - "',1,'-',0),('gq:"-,id"',1,'-',0),('gq:"-,nope"',1,'-',0),('gq:",id"',1,'foo',1),('gq:"bar,id"',1,'bar',1),('gq:"bar, ID "',1,'bar',1),('gq:",Id,iD"',1,'foo',1),('gq:" ,id"',1,'foo',1),
('gq:"bar,"',0,'',0),('gq:"bar,ids"',0,'',0),('gq:",nope"',0,'',0),('gq:",id,nope"',0,'',0),('gq:",nope,id"',0,'',0),('gq:",i d"',0,'',0),('gq:"bar,-"',0,'',0),('gq:"1a"',0,'',0),('gq:"a-b"',0,'',0),('gq:"a b"',0,'',0),('gq:"_a"',0,'',0),('gq:"__a"',0,'',0),('gq:"\\u00e9"',0,'',0),('gq:"a\\u00e9"',0,'',0),('gq:"a.b,id"',0,'',0),('gq:"1a,id"',0,'',0),('gq:"a$"',0,'',0),('gq:"a\\x00"',0,'',0),
('gq:"B_9"',1,'B_9',0),('gq:"aB"',1,'aB',0),('gq:"Foo"',1,'Foo',0),('json:"x"',1,'foo',0),('json:"x" gq:"bar"',1,'bar',0),('gq:"bar" json:"-"',1,'bar',0),('json:"-"',1,'foo',0),('GQ:"bar"',1,'foo',0),('gq:bar',1,'foo',0),('gq: "bar"',1,'foo',0),('xgq:"bar"',1,'foo',0),('gq:"--"',0,'',0),('gq:"id"',1,'id',0),('gq:"bar" gq:"foo"',1,'bar',0)]
tt=''
for t,ok,n,idm in tags:
    lit='`%s`'%t if t else ''
    b='true' if ok else 'false'; ib='true' if idm else 'false'
    tt+='\t{%s, struct{ Foo int %s; Z int }{7, 8}, struct{ O []*struct{ Foo int %s; Z int } }{[]*struct{ Foo int %s; Z int }{{7, 8}}}, struct{ F func(struct{ Foo int %s; Z int }) int }{func(a struct{ Foo int %s; Z int }) int { return a.Foo + 10*a.Z }}, struct{ F func(struct{ O []struct{ Foo int %s; Z int } }) int }{func(a struct{ O []struct{ Foo int %s; Z int } }) int { return a.O[0].Foo + 10*a.O[0].Z }}, %s, "%s", %s},\n'%(('`%s`'%t,)+(lit,)*7+(b,n,ib))
o='''package h

// Written by tools/genbuild.py.

import (
	"mime/multipart"
	"time"

	"github.com/mjarkk/yarql"
)

type (
	bdOwn int16
	bdEnum string
	bdNoImpl interface{ ResolveX() string }
	bdImpl interface{ ResolveX() bdImpl }
	bdImpls struct{ N int }
	bdL []bdL
	bdP *bdP
	bdLP []*bdLP
	bdA [2]*bdA
	bdRing []bdRing2
	bdRing2 []*bdRing
	bdM map[string]bdM
	bdF func() bdF
	bdO struct { L []bdO; P *bdO; N int }
	bdX struct { Y *bdY; N int }
	bdY struct { X []bdX; N int }
	bdS []struct { X bdS; N int }
)

func (b bdImpls) ResolveX() bdImpl { return b }

type bdCase struct {
	name string
	root interface{}
	ok bool
	q string
}

'''
o+='func bdRoles() []bdCase { return []bdCase{\n'+tab+'} }\n\n'
o+='var bdDirs = []struct {\n\tname string\n\tf interface{}\n\tok bool\n}{\n'+dirs+'}\n\n'
o+='var bdShapes = []bdCase{\n'+shapes+'}\n\n'
o+='var bdTags = []struct {\n\ttag string\n\tout, nested, arg, in interface{}\n\tok bool\n\tname string\n\tid bool\n}{\n'+tt+'}\n'
open('/verif/harness/h/buildgen.go','w').write(o)
