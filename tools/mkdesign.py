#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the table of properties (properties.jsonl, checks.json, meta.py, measured costs of the last
   evidence files kept in tools/costs.json), the planted bugs (seeded/*/meta.json, tools/seedresults.json), tools/design_tail.md."""
import json,os,sys,glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R+'/tools')
import meta
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
checks=json.load(open(R+'/checks.json'))
cp=R+'/tools/costs.json'
costs=json.load(open(cp)) if os.path.exists(cp) else {}
for f in glob.glob(R+'/evidence/*.json'):
    e=json.load(open(f))
    if e.get('tier')!='quick': continue
    hs=e['coverage']['harnesses']
    costs[e['property']]={h['harness']:[h['symbolic_paths'],h['smt_queries'],h['wall_s']] for h in hs}
json.dump(costs,open(cp,'w'),indent=0,sort_keys=True)
out=open(R+'/tools/design_head.md').read()
out+='\n## Properties\n\nFor each: the statement (shortened to its title; the full text is in properties.jsonl), how it is decided, the bounds, the cost of the quick run, what lies outside and why this reaches what the tests cannot.\n'
for p in props:
    i=p['id']
    out+='\n### %s %s\n\n'%(i,p['title'])
    if i in meta.NOTAPP:
        out+='Not applicable: '+meta.NOTAPP[i]+'\n'; continue
    c=checks[i]
    out+='Oracle: '+meta.ORACLE.get(i,'assertions of the harness on the response.')+'\n\n'
    for h in c['harnesses']:
        k=costs.get(i,{}).get(h['name'])
        cost=' (%d paths, %.0f s)'%(k[0],k[2]) if k else ''
        out+='- `%s`%s: %s\n'%(h['name'],cost,h['bounds'])
    out+='\nOutside: '+c['outside']+'\n\nWhy not tests: '+p['why_tests_cant']+'\n'
out+='\n## Planted bugs\n\nEach was confirmed in a scratch copy (builds, passes the 172 tests, its demonstration fails with it and passes without). Result of the quick check of the property:\n\n| bug | property | needs | result |\n|---|---|---|---|\n'
rp=R+'/tools/seedresults.json'
res=json.load(open(rp)) if os.path.exists(rp) else {}
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(R,d)))
    out+='| %s | %s | %s | %s |\n'%(d,m['property'],m['needs'].replace('|','/'),res.get(d,'not run'))
out+='\n'+open(R+'/tools/design_tail.md').read()
open(R+'/DESIGN.md','w').write(out)
print(len(out),'bytes')
