#!/usr/bin/env python3
"""Regenerates harness/h/reg.go: the table of harnesses for native replay."""
import re, glob
setups, runs = {}, []
src = ""
for f in sorted(glob.glob('/verif/harness/h/*.go')):
    if f.endswith('reg.go'): continue
    s = open(f).read()
    for m in re.finditer(r'^func (Setup_\w+)\(\) (\S+) \{', s, re.M):
        setups[m[2]] = m[1]
    for m in re.finditer(r'^func Run_(\w+)\((?:\w+ (\S+))?\) \{', s, re.M):
        runs.append((m[1], m[2]))
out = "package h\n\n// Native is the table of harnesses for native replay (tools/genreg.py).\nvar Native = map[string]func(){\n"
for n, t in sorted(runs):
    out += '\t"%s": ' % n + ("Run_%s,\n" % n if not t else "func() { Run_%s(%s()) },\n" % (n, setups[t]))
out += "}\n"
open('/verif/harness/h/reg.go', 'w').write(out)
