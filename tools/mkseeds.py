#!/usr/bin/env python3
"""Writes the planted bugs of tools/seeds/*.py into /verif/seeded.

Usage: mkseeds.py [ID...]
Every file in tools/seeds defines bugs by calling
  bug(id, prop, edits, needs, breaks, main=... | test=(package, code), race=bool)
edits is a list of (file, old, new); old must occur exactly once.
"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
bugs = {}

DEMO = '''#!/bin/bash
# Run in the repository's directory, after building it. Exits 0 if the program
# behaves as it should in the scenario of the demonstration.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
'''
MAIN = '''mkdir "$tmp/work"
cat > "$tmp/overlay.json" <<E
{"Replace": {"$PWD/cmd/zzdemo/main.go": "$here/main.go", "$PWD/cmd/zzdemo/lib.go": "$here/lib.go"}}
E
go build -o "$tmp/btrfscue" ./cmd/btrfscue || exit 2
go build%s -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 2
timeout 200 "$tmp/demo" "$tmp/btrfscue" "$tmp/work"
'''
TEST = '''cat > "$tmp/overlay.json" <<E
{"Replace": {"$PWD/%s/zzdemo_test.go": "$here/zzdemo_test.go.txt"%s}}
E
TMPDIR="$tmp" timeout 250 go test%s -vet=off -count=1 -overlay "$tmp/overlay.json" -run TestZZDemo ./%s
'''

def bug(id, prop, edits, needs, breaks, main=None, test=None, race=False):
    assert id not in bugs, id
    bugs[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, test=test, race=race)

def write(id, b):
    wt = '/tmp/mkseeds.wt'
    if not os.path.isdir(wt):
        subprocess.run(['git', '-C', REPO, 'worktree', 'add', '--detach', '-q', wt], check=True)
    subprocess.run(['git', '-C', wt, 'checkout', '-q', '--detach', subprocess.check_output(['git', '-C', REPO, 'rev-parse', 'HEAD'], text=True).strip()], check=True)
    for f, old, new in b['edits']:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d matches in %s of %r' % (id, s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt, 'diff'], text=True)
    subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = ' -race' if b['race'] else ''
    if b['main']:
        open(d + '/main.go', 'w').write(b['main'].lstrip('\n'))
        shutil.copy(V + '/tools/demolib/lib.go', d)
        s = DEMO + MAIN % r
    else:
        pkg, code = b['test']
        open(d + '/zzdemo_test.go.txt', 'w').write(code.lstrip('\n'))
        lib = ''
        if 'makeFS' in code:
            l = open(V + '/tools/demolib/lib.go').read().replace('package main', 'package ' + pkg.split('/')[-1], 1)
            l = l.replace('os.Args[1]', '""').replace('os.Args[2]', 'os.Getenv("TMPDIR")')
            open(d + '/zzlib_test.go.txt', 'w').write(l)
            lib = ', "$PWD/%s/zzlib_test.go": "$here/zzlib_test.go.txt"' % pkg
        s = DEMO + TEST % (pkg, lib, r, pkg)
    open(d + '/demo.sh', 'w').write(s)
    os.chmod(d + '/demo.sh', 0o755)

for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
for id, b in bugs.items():
    if len(sys.argv) == 1 or id in sys.argv[1:]:
        write(id, b)
