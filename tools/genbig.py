#!/usr/bin/env python3
"""Writes harness/h/biggen.go: the wide types of the size checks."""
N=300
o='package h\n\n// Written by tools/genbig.py.\n\nconst bigN = %d\n\n'%N
o+='type BigQ struct {\n'+''.join('\tF%03d string\n'%i for i in range(N))+'}\n\n'
o+='func newBigQ() BigQ {\n\treturn BigQ{\n'+''.join('\t\tF%03d: "v%d",\n'%(i,i) for i in range(N))+'\t}\n}\n\n'
o+='type BigIn struct {\n\tNext *BigIn\n'+''.join('\tF%03d *int\n'%i for i in range(N))+'}\n\n'
o+='func (b *BigIn) get(i int) *int {\n\tswitch i {\n'+''.join('\tcase %d:\n\t\treturn b.F%03d\n'%(i,i) for i in range(N))+'\t}\n\treturn nil\n}\n\n'
o+='type BigI interface{ ResolveName() int }\n\n'
for i in range(40):
    o+='type BigImpl%d struct{ A%d int }\n\nfunc (b BigImpl%d) ResolveName() int { return b.A%d }\n\n'%(i,i,i,i)
o+='func bigImpl(i int) BigI {\n\tswitch i {\n'+''.join('\tcase %d:\n\t\treturn BigImpl%d{%d}\n'%(i,i,1000+i) for i in range(40))+'\t}\n\treturn nil\n}\n'
open('/verif/harness/h/biggen.go','w').write(o)
