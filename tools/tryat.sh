#!/bin/bash
# Development tool: run checks against another copy of the repository. usage: tryat.sh REPODIR [ID...]
# (the checks in MANIFEST.json run against /repo; this one is for trying refactorings without touching it)
R=$1; shift; V=/tmp/tryat.$$
mkdir -p $V; cp -a /verif/{check,engine,harness,checks.json,known_findings.txt,tools} $V/; cd $V
sed -i "s#=> /repo#=> $R#" harness/go.mod
[ $# = 0 ] && set -- $(python3 -c "import json;print(*json.load(open('checks.json')))")
for i in "$@"; do s=$(date +%s); ./check $i quick -noev -v > $i.log 2>&1; rc=$?; echo "$i rc=$rc $(( $(date +%s)-s ))s unsup=$(grep -o "unsupported=[0-9]*" $i.log | tr "\n" " ")"; [ $rc != 0 ] && { grep -v '^ok' $i.log | tail -15; cp $i.log /tmp/tryat_$i.log; } ; done
cd /; rm -rf $V
