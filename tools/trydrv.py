#!/usr/bin/env python3
"""Development helper: run random schedules of a driver, validate them, show the first disagreements compactly.
   trydrv.py DRIVER TMODULE N PROPS [JSON extra schedule fields] [JSON constants]"""
import sys, os, json, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import tlc, pool, engine
drv, tm, n, props = sys.argv[1], sys.argv[2], sys.argv[3], set(sys.argv[4].split(','))
extra = json.loads(sys.argv[5]) if len(sys.argv) > 5 else {}
consts = json.loads(sys.argv[6]) if len(sys.argv) > 6 else {}
show = int(os.environ.get('SHOW', 2))
t = time.time()
a, _, b = n.partition('-')
seeds = range(int(a), int(b)) if b else range(int(a))
trs = pool.run(drv, [dict({'seed': i, 'steps': 30}, **extra) for i in seeds])
bad = [x for x in trs if 'fail' in x]
print('ran %.1fs' % (time.time() - t), len(trs), 'failed', len(bad), 'events', sum(len(x['ev']) for x in trs))
for x in bad[:show]: print(x['sched'], x['fail'][-900:])
trs = [x for x in trs if 'fail' not in x and 'skipped' not in x]
m, r = tlc.validate(tm, [engine.clean(x) for x in trs], consts=dict(consts, Props=props))
print('mismatches', len(m), 'states', r.distinct, '%.1fs' % (time.time() - t))
def sh(o):
    if isinstance(o, dict): return '{' + ' '.join('%s=%s' % (k, sh(v)) for k, v in o.items() if v not in ('', [], -1, False, None, {})) + '}'
    if isinstance(o, list): return '[' + ', '.join(sh(v) for v in o) + ']'
    return str(o)
m.sort(key=lambda x: x['l'])
for x in m[:show]:
    tr = trs[x['tr']]
    print('-----', tr['sched'], {k: v for k, v in tr.items() if k not in ('ev', 'sched')})
    for e in tr['ev'][max(0, x['l'] - 30):x['l'] + 1]:
        print('  ', sh({k: v for k, v in e.items() if k != 'tb'})[:330])
    print('WANT', sh(x.get('want'))[:900]); print('GOT ', sh(x.get('got'))[:900])
    if tr['ev'][x['l']].get('tb'): print(tr['ev'][x['l']]['tb'][-500:])
