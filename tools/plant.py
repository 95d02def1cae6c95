#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes and validates planted bugs under seeded/ from a spec file.

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (Go source of
package main), race (optional: build the demo with the race detector).  Every bug is built, tested against the
repository's own tests and run with its demonstration in a scratch copy of /repo, which is removed afterwards."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off', CGO_ENABLED='1')
DEMO = '''#!/bin/bash
# Builds demo.go as a program of the module in the working directory and runs it: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
cp go.mod "$t/go.mod" && cp go.sum "$t/go.sum" || exit 2
printf '{"Replace": {"%s/verifdemo/main.go": "%s/demo.go"}}' "$PWD" "$here" > "$t/overlay.json"
go build RACE-modfile="$t/go.mod" -overlay="$t/overlay.json" -o "$t/demo" ./verifdemo || exit 2
LIMIT
timeout 200 "$t/demo"
'''
def run(cmd, cwd, quiet=True):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
ok = True
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix='plant.')
    try:
        r = os.path.join(w, 'repo')
        run(['cp', '-a', '/repo', r], '/')
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1:
                print(f"{b['id']}: {f}: text occurs {s.count(old)} times: {old[:60]!r}")
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(ROOT, 'seeded', b['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(run(['git', 'diff'], r)[1])
        open(os.path.join(d, 'demo.go'), 'w').write(b['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('RACE', '-race ' if b.get('race') else '').replace('LIMIT\n', '' if b.get('race') else 'ulimit -v 8000000\n'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        res = []
        rc, out = run(['go', 'build', './...'], r); res.append(('build', rc == 0, out))
        rc, out = run(['go', 'test', '-vet=off', '-count=1', './...'], r); res.append(('tests', rc == 0, out))
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], r); res.append(('demo fails', rc not in (0, 2) or 'panic' in out or 'DATA RACE' in out, out))
        d1 = out.strip().splitlines()[:1]
        run(['git', 'checkout', '--', '.'], r)
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], r); res.append(('demo passes', rc == 0, out))
        bad = [x for x in res if not x[1]]
        print(b['id'], 'OK' if not bad else 'BAD', d1)
        for n, _, o in bad:
            ok = False; print('   ', n); print('\n'.join('      ' + l for l in o.splitlines()[-12:]))
        if bad: shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)
sys.exit(0 if ok else 1)
