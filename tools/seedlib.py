"""Writes and confirms planted bugs (seeded/<id>/). Not used by any check."""
import json, os, subprocess, shutil, sys, difflib
V = '/verif'
W = '/tmp/seedwork'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod')
DEMO = '''#!/bin/bash
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
exec go test -vet=off -count=1 -timeout 120s -run 'ZZDemo' -overlay <(echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}") ./%s
'''

def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def fresh():
    if os.path.isdir(W):
        shutil.rmtree(W)
    subprocess.run(['cp', '-a', '/repo', W], check=True)

def tests():
    r = sh('go test -vet=off -count=1 -timeout 10m ./... ./tpl/cmd/tplgen/testdata')
    return r.returncode == 0, r.stdout

def confirm(id, check=True):
    d = f'{V}/seeded/{id}'
    meta = json.load(open(d + '/meta.json'))
    fresh()
    demo = '/tmp/seeddemo'
    if os.path.isdir(demo): shutil.rmtree(demo)
    shutil.copytree(d, demo)
    r = sh('bash /tmp/seeddemo/demo.sh')
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE'); print(r.stdout[-1500:]); return False
    r = sh(f'git apply --check {d}/patch.diff && git apply {d}/patch.diff')
    if r.returncode != 0:
        print(id, 'PATCH DOES NOT APPLY', r.stdout); return False
    r = sh('go build ./...')
    if r.returncode != 0:
        print(id, 'DOES NOT BUILD', r.stdout[-800:]); return False
    ok, out = tests()
    if not ok:
        print(id, 'EXISTING TESTS FAIL', out[-800:]); return False
    r = sh('bash /tmp/seeddemo/demo.sh')
    if r.returncode == 0:
        print(id, 'DEMO PASSES WITH PATCH'); return False
    if not check:
        print(id, 'confirmed'); return True
    env = 'GOCV_REPO=' + W
    r = sh(f'{env} GOCV_OUT=/tmp/seedout {V}/bin/gocv check {meta["property"]}', cwd=V)
    last = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    print(id, meta['property'], 'exit', r.returncode, '|', (last[0] if last else r.stdout[-300:]))
    return True

def mk(id, prop, file, edits, needs, breaks, pkg, demo, check=True):
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    old = open('/repo/' + file).read()
    new = old
    for a, b in edits:
        assert new.count(a) == 1, (id, new.count(a), a)
        new = new.replace(a, b)
    diff = ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + file, 'b/' + file))
    mode = 'a' if getattr(mk, 'append', False) else 'w'
    open(d + '/patch.diff', mode).write(diff)
    open(d + '/demo_test.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % (pkg, pkg))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return confirm(id, check)

if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    for i in ids: confirm(i)
