#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file, old, new)], demo_dir (package dir), demo (go test source with TestVerifDemo), needs, breaks.
Works in a scratch copy, confirms build, demo behaviour and the touched packages' tests, writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
R = '/tmp/sw'
env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', CGO_ENABLED='1')
env.pop('GOROOT', None)
if not os.path.isdir(R):
    subprocess.check_call(['cp', '-a', '/repo', R])
def git(*a): return subprocess.run(['git', '-C', R] + list(a), capture_output=True, text=True)
git('checkout', '--', '.'); 
h = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
if git('rev-parse', 'HEAD').stdout.strip() != h:
    git('fetch', '/repo'); git('checkout', '-q', h)
D = os.environ.get('VDIR', '/verif') + '/seeded/' + spec['id']
os.makedirs(D, exist_ok=True)
open(D + '/demo_test.go.txt', 'w').write(spec['demo'])
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# runs the demonstration as an in-package test of the current tree
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=1
unset GOROOT
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d)
trap 'rm -rf "$O"' EXIT
cp "$D/demo_test.go.txt" "$O/demo_test.go"
printf '{"Replace":{"%%s/%s/zz_verif_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$O" > "$O/overlay.json"
go test -vet=off -count=1 -timeout 250s -gcflags=-l -overlay "$O/overlay.json" -run '^TestVerifDemo$' ./%s
''' % (spec['demo_dir'], spec['demo_dir']))
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(D + '/meta.json', 'w'), indent=1)
r = subprocess.run(['bash', D + '/demo.sh'], cwd=R, env=env, capture_output=True, text=True)
print('demo on clean tree:', r.returncode, r.stdout[-1500:] + r.stderr[-500:] if r.returncode else '')
dirs = set()
for f, old, new in spec['edits']:
    p = os.path.join(R, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new)); dirs.add('./' + os.path.dirname(f))
open(D + '/patch.diff', 'w').write(git('diff').stdout)
r = subprocess.run(['go', 'build', './...'], cwd=R, env=env, capture_output=True, text=True)
print('build:', r.returncode, r.stderr[-800:])
r = subprocess.run(['bash', D + '/demo.sh'], cwd=R, env=env, capture_output=True, text=True)
print('demo with patch:', r.returncode, [l for l in r.stdout.split('\n') if 'zz_verif' in l or 'panic' in l][:4])
base = set(json.load(open('/opt/vp/BASELINE.json'))) if False else None
pk = sorted(dirs | set(spec.get('tests', ['./core', './core/types', './tests'])))
r = subprocess.run(['go', 'test', '-vet=off', '-count=1', '-gcflags=-l'] + pk, cwd=R, env=env, capture_output=True, text=True)
bad = [l for l in r.stdout.split('\n') if l.startswith('--- FAIL') or l.startswith('FAIL') or 'panic:' in l]
print('tests', pk, ':', r.returncode, bad[:20])
git('checkout', '--', '.')
