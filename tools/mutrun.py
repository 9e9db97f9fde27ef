#!/usr/bin/env python3
"""Development aid: run source mutants of one package against its tests and the
checks.  usage: mutrun.py PKG IDS OUT.json [-n MAX] [-f FILE_SUBSTR] [-j N]
Keeps nothing in /repo: mutants live in overlays."""
import json, os, subprocess, sys, tempfile, shutil, random, argparse
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('pkg'); ap.add_argument('ids'); ap.add_argument('out')
ap.add_argument('-n', type=int, default=0); ap.add_argument('-f', default=''); ap.add_argument('-j', type=int, default=7)
ap.add_argument('--lines', default='')
ap.add_argument('--retest', default='')  # only rerun checks on the missed of an earlier run
ap.add_argument('--notest', action='store_true')  # package cannot be built: type-check and checks only
a = ap.parse_args()
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.26.10/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOPATH='/root/go', GOCACHE='/root/.cache/go-build')
files = sorted(f'/repo/{a.pkg}/{f}' for f in os.listdir(f'/repo/{a.pkg}') if f.endswith('.go') and not f.endswith('_test.go') and a.f in f)
if a.retest:
    muts = [m for m in json.load(open(a.retest)) if m['res'] == 'MISSED']
else:
    muts = [json.loads(l) for l in subprocess.run(['/tmp/mutate', *files], capture_output=True, text=True, check=True).stdout.splitlines()]
    if a.lines:
        lo, hi = map(int, a.lines.split('-')); muts = [m for m in muts if lo <= m['line'] <= hi]
    if a.n and len(muts) > a.n:
        random.seed(1); muts = sorted(random.sample(muts, a.n), key=lambda m: (m['file'], m['start']))
src = {f: open(f, 'rb').read() for f in files}
def run(m):
    d = tempfile.mkdtemp(prefix='mut')
    try:
        s = src[m['file']]
        new = s[:m['start']] + m['new'].encode() + s[m['end']:]
        if m['new'] == '/**/':  # a dropped field: take its comma along
            rest = s[m['end']:]
            if rest.lstrip()[:1] == b',': rest = rest.lstrip()[1:]
            new = s[:m['start']] + rest
        open(d+'/m.go', 'wb').write(new)
        json.dump({'Replace': {m['file']: d+'/m.go'}}, open(d+'/o.json', 'w'))
        if not a.retest and not a.notest:
            r = subprocess.run(['go', 'test', *(['-modfile=/tmp/sm/go.mod'] if os.path.exists('/tmp/sm/go.mod') else []), '-overlay', d+'/o.json', '-vet=off', '-count=1', '-timeout', '60s', './'+a.pkg], cwd='/repo', env=ENV, capture_output=True, text=True)
            if r.returncode != 0:
                m['res'] = 'nobuild' if 'build failed' in r.stdout+r.stderr else 'killed'
                return m
        e = dict(ENV, HCV_OVERLAY=d+'/o.json', HCV_EVIDENCE=d+'/ev', HCV_VERIF='/verif', GOMAXPROCS='2')
        r = subprocess.run([os.environ.get('HCV','/tmp/hcv'), 'check', *a.ids.split(',')], env=e, capture_output=True, text=True)
        out = r.stdout + r.stderr
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        if r.returncode not in (0, 1) or 'type check' in out or 'does not compile' in out: m['res'] = 'error'; m['out'] = out[-600:]
        elif v: m['res'] = 'caught'; m['by'] = sorted({x.split('property=')[1].split()[0] for x in v})
        else: m['res'] = 'MISSED'
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(a.j) as ex:
    res = list(ex.map(run, muts))
json.dump(res, open(a.out, 'w'), indent=0)
from collections import Counter
print(Counter(m['res'] for m in res))
for m in res:
    if m['res'] in ('MISSED', 'error'):
        print(m['res'], os.path.basename(m['file']), m['line'], m['func'], m['op'][:90], m.get('out', '')[-200:])
