#!/usr/bin/env python3
"""Try planted bugs: seedtest.py [--tests] [--all-checks] ID...   (applies each to /repo and undoes it)"""
import sys, os, json, subprocess, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith('-')]
ids = args or sorted(os.listdir(R + '/seeded'))
tests = '--tests' in sys.argv
for i in ids:
    d = R + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    if sh('git -C ' + REPO + ' status --porcelain').stdout.strip(): sys.exit('/repo is dirty')
    a = sh('timeout 300 bash %s/demo.sh' % d, cwd=REPO)
    res = ['clean demo rc=%d' % a.returncode]
    if a.returncode: print(a.stdout[-1500:])
    p = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    if p.returncode: print(i, 'PATCH FAILS', p.stdout); continue
    try:
        b = sh('timeout 300 bash %s/demo.sh' % d, cwd=REPO)
        res.append('patched demo rc=%d (%s)' % (b.returncode, b.stdout.strip().splitlines()[-1][:100] if b.stdout.strip() else ''))
        if tests:
            bl = json.load(open('/opt/vp/BASELINE.json'))
            x = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json')
            r = json.load(open('/tmp/seedtest.json'))
            def passed(z):
                if isinstance(z, dict):
                    for k in ('passed', 'pass', 'stable'): 
                        if k in z: return set(z[k])
                return set()
            miss = passed(bl) - passed(r)
            res.append('tests ok' if not miss else 'TESTS BROKEN %s' % sorted(miss))
        if '--nocheck' not in sys.argv:
            t = time.time()
            c = sh('VERIF_TIER=quick VERIF_SEED=1 bin/check %s' % meta['property'], cwd=R)
            hit = 'VIOLATION property=%s ' % meta['property'] in c.stdout and c.returncode == 1
            res.append('%s rc=%d %.0fs' % ('CAUGHT' if hit else 'MISSED', c.returncode, time.time() - t))
            if '-v' in sys.argv or not hit: res.append('\n' + c.stdout[-1500:])
    finally:
        sh('git -C ' + REPO + ' checkout -- .')
    print(i, meta['property'], '; '.join(res), flush=True)
