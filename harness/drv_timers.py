"""Driver: timers of the real event dispatcher under a virtual clock; trace for TTimers."""
import vt, random
from sippy.Core.EventDispatcher import ED2
from sippy.Time.Timeout import Timeout, TimeoutInact, TimeoutAbsMono
from sippy.Time.MonoTime import MonoTime
U = 64.0            # ticks per second

class D:
    def __init__(self):
        vt.reset()
        self.ev = []
        self.h = {}          # id -> handle
        self.n = 0
        self.depth = 0
        self.prog = {}
        self.serial = {}
        self.all = []
    def at(self): return int(round(vt.now() * U))
    def rec(self, **e):
        e['at'] = self.at(); self.ev.append(e)
    def mk(self, id, d, n=1, prog=(), how='rel', wait=0, pr=0):
        """Create timer id: delay d ticks, n runs, program prog; how: rel, inact (armed `wait` later), abs"""
        self.n += 1
        uid = '%s.%d' % (id, self.n)
        args = (uid, self.n, 'x%d' % self.n)
        self.prog[uid] = prog
        due = self.at() + d
        if how == 'abs':
            n = 1
            t = TimeoutAbsMono(self.cb, MonoTime().getOffsetCopy(d / U), *args)
        elif how == 'inact':
            t = TimeoutInact(self.cb, d / U, n, *args)
            if pr: t.spread_runs(pr / 100.0)
            t.go()
        else:
            t = Timeout(self.cb, d / U, n, *args)
        self.h[id] = t
        if n == -1: self.all.append((uid, t))
        self.serial[id] = uid
        lo, hi = (d * (100 - pr) // 100, (d * (100 + pr) + 99) // 100)
        self.rec(**{'in': 'mk', 'id': uid, 'due': self.at() + lo, 'hi': self.at() + hi, 'per': d, 'n': n, 'pr': pr})
    def cancel(self, id):
        if id in self.h:
            self.rec(**{'in': 'cancel', 'id': self.serial[id]})
            self.h[id].cancel()
    def cb(self, uid, num, x, *rest):
        self.rec(**{'in': 'fire', 'id': uid, 'args': x == 'x%d' % num and uid.endswith('.%d' % num) and not rest})
        if len(self.ev) > 500: return       # (keeps schedules that feed themselves finite)
        for a in self.prog[uid]:
            self.do(a, uid)
    def do(self, a, uid=None):
        k = a[0]
        if k == 'nop': pass
        elif k == 'cancel': self.cancel(a[1])
        elif k == 'cancelself': self.cancel(uid.split('.')[0])
        elif k == 'mk': self.mk(*a[1:])
        elif k == 'raise': raise RuntimeError('callback fails')
        elif k == 'raiseb': raise KeyError(1)
        elif k == 'sleep': vt.clk.now += a[1] / U
        elif k == 'break':
            self.rec(**{'in': 'brk'})
            ED2.breakLoop()
    def dispatch(self):
        self.rec(**{'in': 'begin'})
        vt.pump()
        self.rec(**{'in': 'end'})
    def adv(self, n, fine):
        """n ticks pass; fine: the loop runs at every tick, otherwise only at the end (a stalled loop)"""
        if fine:
            for _ in range(n):
                vt.clk.now += 1 / U
                self.dispatch()
        else:
            vt.clk.now += n / U
            self.dispatch()
    def end(self):
        # cancelled and exhausted timers are not kept
        for _ in range(3): self.dispatch()
        self.rec(**{'in': 'quiet', 'timers': vt.live_timers()})

PROGS = {'nop': [['nop']], 'cancelself': [['cancelself']], 'raise': [['raise']], 'break': [['break']]}

def run_sched(s):
    d = D()
    if 'walk' in s:
        for e in s['walk']:
            if e['in'] == 'mk':
                o = 'b' if e['id'] == 'a' else 'a'
                p = PROGS.get(e['prog']) or ([['cancel', o]] if e['prog'] == 'cancelother' else [['mk', o + 'z', 0]])
                d.mk(e['id'], e['d'], e['n'], p)
            elif e['in'] == 'cancel': d.cancel(e['id'])
            elif e['in'] == 'adv': d.adv(e['n'], False)
        d.adv(3, True)
        d.end()
        return {'ev': d.ev}
    r = random.Random(s['seed'])
    ids = ['t%d' % i for i in range(s.get('ids', 6))]
    if s.get('crowd'):
        # crowds of timers most of which are cancelled before they are due
        names = ['t%d' % i for i in range(60)]
        for _ in range(r.choice([1, 2, 3])):
            for i in r.sample(names, r.randint(20, 50)):
                d.cancel(i)
                d.mk(i, r.randint(1, 150), 1, [], r.choice(['rel', 'rel', 'abs']))
            d.adv(r.choice([0, 1, 5]), False)
            for i in r.sample(sorted(d.h), len(d.h) * r.choice([55, 65, 80]) // 100): d.cancel(i)
            for _ in range(r.randint(0, 4)): d.adv(r.choice([1, 3, 20]), r.random() < .3)
        d.adv(40, True)
        for _ in range(6): d.adv(20, False)
        for i in list(d.h): d.cancel(i)
        d.end()
        return {'ev': d.ev}
    def prog(depth=0):
        p = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            k = r.random()
            if k < .25: p.append(['cancelself'])
            elif k < .55: p.append(['cancel', r.choice(ids)])
            elif k < .8 and depth < 2: p.append(['mk'] + spec(depth + 1))
            elif k < .9: p.append(['sleep', r.choice([1, 5])])
            else: p.append([r.choice(['raise', 'raiseb', 'break'])])
        return p
    def spec(depth=0):
        d_ = r.choice([0, 1, 1, 2, 3, 5, 8, 13, 64, 200]) if depth == 0 else r.choice([0, 0, 1, 2, 5, 8])
        n = r.choice([1, 1, 1, 2, 3, -1]) if d_ > 0 else 1
        how = r.choice(['rel', 'rel', 'rel', 'inact', 'abs'])
        pr = r.choice([0, 10, 50]) if how == 'inact' else 0
        return [r.choice(ids), d_, n, prog(depth), how, 0, pr]
    for _ in range(s['steps']):
        k = r.random()
        if k < .35: d.mk(*spec())
        elif k < .5: d.cancel(r.choice(ids))
        elif k < .55:
            for i in r.sample(ids, 3): d.cancel(i)
        elif k < .6:
            for _ in range(8): d.mk(*spec())
        else: d.adv(r.choice([1, 1, 2, 3, 5, 10, 40]), r.random() < .5)
        if len(d.ev) > 500:
            for i in ids: d.cancel(i)
            break
    for i in list(d.h): d.cancel(i)
    for p in d.prog: d.prog[p] = []
    for u, t in d.all: 
        d.rec(**{'in': 'cancel', 'id': u}); t.cancel()
    d.end()
    return {'ev': d.ev}
