#!/bin/bash
# usage: runseeds.sh [SEED...]   apply each planted bug to /repo, run the check of its property, undo it;
# the outcomes go to tools/seedresults.json, from which DESIGN.md is written
cd /verif
for d in ${@:-$(ls seeded)}; do
  D=seeded/$d; [ -d $D ] || D=/tmp/extra/$d; [ $D = /tmp/extra/$d ] || D=/verif/$D
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$d APPLY FAILED"; continue; }
  t0=$(date +%s)
  timeout 900 ./check $p quick -noev > /tmp/seed_$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/seed_$d.log)"
  [ $D = /verif/seeded/$d ] && python3 - $d $rc <<'P'
import json,re,sys
d,rc=sys.argv[1],int(sys.argv[2])
try: r=json.load(open('tools/seedresults.json'))
except Exception: r={}
hs=[]
for l in open('/tmp/seed_%s.log'%d):
    m=re.search(r'harness=(\w+)',l)
    if m and m[1] not in hs: hs.append(m[1])
r[d]='caught by '+', '.join(hs) if rc==1 and hs else 'missed' if rc==0 else 'no answer'
json.dump(r,open('tools/seedresults.json','w'),indent=1,sort_keys=True)
P
done
