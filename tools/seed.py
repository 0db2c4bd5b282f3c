#!/usr/bin/env python3
"""Write planted bugs from a definitions file and confirm each of them.

usage: seed.py DEFS.py [ID...]   (DEFS.py defines SEEDS: list of dicts with id, property, needs, breaks, edits, demo)
A scratch copy of /repo at /tmp/seed is used for everything."""
import json, os, re, shutil, subprocess, sys, importlib.util, tempfile
SC = '/tmp/seed'
OUT = os.environ.get('SEEDOUT', '/verif/seeded')
EXTRA = '/tmp/extra'  # bugs in lines that are no original ones do not count, they are kept here only
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED='0')
ORIG = '56be48f'
DEMO = r'''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds for this history, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d) || exit 3
trap 'rm -r "$d"' EXIT
cp "$here/main.go" "$d/main.go"
[ -f "$repo/go.sum" ] && cp "$repo/go.sum" "$d/go.sum"
printf 'module demo\n\ngo 1.21\n\nrequire (\n\tgithub.com/mjarkk/yarql v0.0.0\n\tgithub.com/valyala/fastjson v1.6.3\n)\n\nreplace github.com/mjarkk/yarql => %s\n' "$repo" > "$d/go.mod"
cd "$d" && go build -o "$d/demo" . || exit 3
timeout 120 "$d/demo"
'''
PRE = '''package main

import (
	"fmt"
	"os"
%s
	"github.com/mjarkk/yarql"
)

var _ = fmt.Sprint

func fail(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("setup: %%v", err)
	}
}

func schema(q, m interface{}) *yarql.Schema {
	s := yarql.NewSchema()
	must(s.Parse(q, m, nil))
	return s
}

func data(s *yarql.Schema, q string, o yarql.ResolveOptions) string {
	o.NoMeta = true
	s.Resolve([]byte(q), o)
	return string(s.Result)
}

func want(got, exp string) {
	if got != exp {
		fail("got %%s want %%s", got, exp)
	}
}

type M struct{}

'''
def sh(cmd, cwd=SC, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=ENV, capture_output=True, text=True, **k)
def tests():
    r = sh('go test -json -vet=off -count=1 -timeout 5m ./...')
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '::' + e['Test'])
    return ok
def main():
    spec = importlib.util.spec_from_file_location('d', sys.argv[1]); d = importlib.util.module_from_spec(spec); spec.loader.exec_module(d)
    only = sys.argv[2:]
    if os.path.exists(SC): shutil.rmtree(SC)
    subprocess.run(['cp', '-a', '/repo', SC], check=True)
    sh('git checkout -- . && git clean -fdq')
    base = tests()
    print('clean tests', len(base))
    for s in d.SEEDS:
        if only and s['id'] not in only: continue
        sh('git checkout -- .')
        bad = []
        for f, a, b in s['edits']:
            t = open(f'{SC}/{f}').read()
            if t.count(a) != 1: bad.append(f'{f}: {t.count(a)} matches of {a!r}'); continue
            open(f'{SC}/{f}', 'w').write(t.replace(a, b))
        if bad: print(s['id'], 'EDIT', bad); continue
        patch = sh('git diff').stdout
        # an original line must be touched
        orig = 0
        for f in {e[0] for e in s['edits']}:
            bl = sh(f'git blame -s {ORIG}.. -- {f} HEAD 2>/dev/null || true').stdout
            bl = sh(['git', 'blame', '-s', 'HEAD', '--', f]).stdout.splitlines()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(['git', 'diff', '-U0', '--', f]).stdout, re.M):
                a0, n = int(m[1]), int(m[2] or 1)
                for i in range(a0, a0 + n):
                    if ORIG[:7] in bl[i - 1].split()[0]: orig += 1
        dir_ = f"{OUT if orig else EXTRA}/{s['id']}"
        os.makedirs(dir_, exist_ok=True)
        open(f'{dir_}/patch.diff', 'w').write(patch)
        open(f'{dir_}/demo.sh', 'w').write(DEMO); os.chmod(f'{dir_}/demo.sh', 0o755)
        imports = ''.join(f'\t"{i}"\n' for i in s.get('imports', []))
        open(f'{dir_}/main.go', 'w').write(PRE % imports + s['demo'])
        subprocess.run(['gofmt', '-w', f'{dir_}/main.go'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{dir_}/meta.json', 'w'), indent=1)
        b = sh('go build ./... && go vet ./... >/dev/null 2>&1; go build ./...')
        t = tests()
        missing = sorted(base - t)
        pd = sh([f'{dir_}/demo.sh'])
        sh('git checkout -- .')
        cd = sh([f'{dir_}/demo.sh'])
        ok = b.returncode == 0 and not missing and cd.returncode == 0 and pd.returncode not in (0, 3)
        if not ok: shutil.rmtree(dir_)
        print(s['id'], ('OK' if orig else 'OK-EXTRA') if ok else 'BAD', '' if ok else f'build={b.returncode} missing={missing[:4]} orig={orig} clean={cd.returncode} patched={pd.returncode} {cd.stdout[-300:]} {cd.stderr[-300:]} {b.stderr[-300:]}', '|', pd.stdout.strip()[-150:], pd.stderr.strip()[:100] if pd.returncode not in (0,1) else '')
main()
