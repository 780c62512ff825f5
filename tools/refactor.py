#!/usr/bin/env python3
"""Behaviour-preserving edits: refactor.py run [ids] [--props A01,A02] applies each in a scratch copy, confirms that it
builds and passes the tests, and runs the checks of the listed properties: they must stay quiet."""
import json, os, shutil, subprocess, sys, time, importlib.util, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
V = seed.V
def load():
    out = {}
    for f in sorted(glob.glob(V + '/tools/refs_*.py')):
        spec = importlib.util.spec_from_file_location('r', f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.refs: out[b['id']] = b
    return out
def run(b, only):
    t, r = seed.copy()
    try:
        seed.edit(r, b)
        x = seed.sh('gofmt -l . ; go build ./... && go vet ./...', r)
        if seed.sh('go build ./...', r).returncode: return print(b['id'], 'NO BUILD', x.stderr[-500:])
        base = json.load(open('/opt/vp/BASELINE.json'))
        for n in base['stable']:
            pk, tst = n.rsplit('avformat/', 1)[1].split('/', 1)
            if '/' not in tst and seed.sh("go test -vet=off -count=1 -run '^%s$' ./%s" % (tst, pk), r).returncode: print(b['id'], 'TEST FAILS', n)
        for p in only or b['props']:
            t0 = time.time()
            x = seed.sh('%s check %s' % (os.environ.get('AVCHECK', '/tmp/avcheck'), p), V, env=dict(os.environ, REPO=r))
            i = x.stdout.find('VIOLATION')
            print(b['id'], p, 'QUIET' if x.returncode == 0 else 'ALARM' if x.returncode == 1 else 'BROKEN', 'NOTE' if 'NOTE' in x.stdout else '', '%.0fs' % (time.time() - t0), ' | '.join(x.stdout[i:].split('\n')[:4])[:600] if i >= 0 else x.stderr[-300:] if x.returncode not in (0, 1) else '', flush=True)
    finally:
        shutil.rmtree(t)
if __name__ == '__main__':
    bs = load(); args = sys.argv[2:]; only = None
    if '--props' in args:
        i = args.index('--props'); only = args[i + 1].split(','); del args[i:i + 2]
    for i in args or list(bs): run(bs[i], only)
