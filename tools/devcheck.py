#!/usr/bin/env python3
"""devcheck.py ID: (re)creates a placeholder checks.json entry from the harness sources."""
import json,re,sys,glob
c=json.load(open('/verif/checks.json'))
for id in sys.argv[1:]:
    hs=[]
    for f in sorted(glob.glob('/verif/harness/h/*.go')):
        s=open(f).read()
        for m in re.finditer(r'^func Run_(%s_\w+)\('%id,s,re.M): hs.append(m[1])
    c[id]={"title":"x","harnesses":[{"name":n,"quick_s":60,"thorough_s":300,"bounds":"","covers":[]} for n in hs]}
json.dump(c,open('/verif/checks.json','w'),indent=1)
