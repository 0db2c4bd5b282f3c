#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json from the harness sources (doc comments), tools/meta.py and properties.jsonl.
   Labels a harness must reach are taken from the last evidence (only added, pass -c to refresh)."""
import json,re,glob,sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import meta
old=json.load(open('/verif/checks.json')) if os.path.exists('/verif/checks.json') else {}
refresh='-c' in sys.argv
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
H={}
for f in sorted(glob.glob('/verif/harness/h/*.go')):
    s=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^func Run_((C\d\d)_\w+)\(',s,re.M):
        doc=' '.join(l[2:].strip() for l in m[1].splitlines())
        doc=re.sub(r'^Run_\w+:? ?','',doc)
        H.setdefault(m[3],[]).append((m[2],doc))
checks={}
for p in props:
    id=p['id']
    if id not in H: continue
    reached={}
    ev='/verif/evidence/%s.json'%id
    if refresh and os.path.exists(ev):
        for h in json.load(open(ev))['coverage']['harnesses']:
            reached[h['harness']]=sorted(h['reached'])
    oldc={h['name']:h.get('covers',[]) for h in old.get(id,{}).get('harnesses',[])}
    hs=[]
    for n,doc in H[id]:
        q,t=meta.BUDGET.get(n,(150,500))
        b=doc
        if n in meta.BOUNDS: b=(b+' ' if b else '')+'Bounds: '+meta.BOUNDS[n]
        elif not doc: print('no doc',n)
        h=dict(name=n,quick_s=q,thorough_s=t,bounds=b,covers=reached.get(n,oldc.get(n,[])))
        if n in meta.RACE: h['race']=True
        hs.append(h)
    checks[id]=dict(title=p['title'],harnesses=hs,outside=meta.OUTSIDE.get(id,''),assumptions=meta.ASSUME.get(id,[]))
    if id not in meta.OUTSIDE: print('no outside text',id)
json.dump(checks,open('/verif/checks.json','w'),indent=1)
man=dict(version=1,setup_cmd="true",checks=[],not_applicable=[],
  notes="Every check rebuilds a symbolic executor (engine/) and the harness (harness/) and decides its property over the SSA of the current /repo; no hooks are needed in /repo.")
for p in props:
    id=p['id']
    if id in checks and id not in meta.NOTAPP:
        man['checks'].append(dict(property=id,quick_cmd='./check %s quick'%id,thorough_cmd='./check %s thorough'%id,
          technique='symbolic execution of the Go SSA of the real code, branches and assertions decided by SMT (z3, cvc5), counterexamples replayed in the compiled code',
          level='model_checking',
          level_note=meta.NOTE.get(id,'Holds for every value of the symbolic inputs within the bounds stated per harness in the evidence; nothing is claimed outside them.')))
    else:
        man['not_applicable'].append(dict(property=id,reason=meta.NOTAPP[id]))
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(man['checks']),'checks',len(man['not_applicable']),'not applicable')
