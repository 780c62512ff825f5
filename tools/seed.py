#!/usr/bin/env python3
"""Makes and confirms the planted bugs: seed.py make [ids] writes /verif/seeded/<id>/ and confirms each in
scratch copies (builds, passes the tests, demo passes without and fails with it); seed.py catch [ids] runs the
property's check against each in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken. Runs in the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf 'module demo\\n\\ngo 1.19\\n\\nrequire github.com/lkmio/avformat v0.0.0\\n\\nreplace github.com/lkmio/avformat => %s\\n' "$PWD" > "$t/go.mod"
cp "$d/main.go" "$t/main.go"
cd "$t" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 200 go run .
'''
def load():
    out = {}
    for f in sorted(glob.glob(V + '/tools/bugs_*.py')):
        spec = importlib.util.spec_from_file_location('b', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.bugs:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def copy():
    t = tempfile.mkdtemp(prefix='seed')
    subprocess.run(['cp', '-a', '/repo', t + '/repo'], check=True)
    return t, t + '/repo'
def edit(r, b):
    for f, o, n in b['edits']:
        p = r + '/' + f
        s = open(p).read()
        if s.count(o) != 1:
            raise SystemExit('%s: %d matches in %s' % (b['id'], s.count(o), f))
        open(p, 'w').write(s.replace(o, n))
def make(b):
    d = V + '/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/main.go', 'w').write(b['demo'])
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    t, r = copy()
    try:
        x = sh(d + '/demo.sh', r)
        if x.returncode != 0:
            return 'demo fails on the unchanged tree: ' + x.stdout[-300:] + x.stderr[-600:]
        edit(r, b)
        open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        x = sh('go build ./... && go vet ./... ; go build ./...', r)
        if sh('go build ./...', r).returncode: return 'no build ' + x.stderr[-500:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        bad = []
        for n in base['stable']:
            pk, tst = n.rsplit('avformat/', 1)[1].split('/', 1)
            if '/' not in tst and sh("go test -vet=off -count=1 -run '^%s$' ./%s" % (tst, pk), r).returncode: bad.append(n)
        if bad: return 'tests fail: %s' % bad
        x = sh(d + '/demo.sh', r)
        if x.returncode == 0: return 'demo passes with the change'
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        return 'ok: ' + (x.stdout + x.stderr).strip()[:100].replace('\n', ' | ')
    finally:
        shutil.rmtree(t)
def catch(b):
    t, r = copy()
    try:
        edit(r, b)
        x = sh('%s check %s' % (os.environ.get('AVCHECK', '/tmp/avcheck'), b['prop']), V, env=dict(os.environ, REPO=r))
        v = [l for l in x.stdout.splitlines() if 'VIOLATION' in l]
        i = x.stdout.find('VIOLATION')
        return ('CAUGHT %d ' % len(v) if v else 'MISSED ') + ' '.join(x.stdout[i if i > 0 else 0:].split('\n')[1:2]) + (' NOTE' if 'NOTE' in x.stdout else '')
    finally:
        shutil.rmtree(t)
if __name__ == '__main__':
    bs = load()
    ids = sys.argv[2:] or list(bs)
    for i in ids:
        if i not in bs:
            for k in bs:
                if bs[k]['prop'] == i: print(k, {'make': make, 'catch': catch}[sys.argv[1]](bs[k]), flush=True)
            continue
        print(i, {'make': make, 'catch': catch}[sys.argv[1]](bs[i]), flush=True)
