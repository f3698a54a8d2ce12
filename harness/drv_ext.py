"""Driver: the external command pool under controlled thread schedules, with stand-in worker processes."""
import vt, random, subprocess
import coop
from sippy.Core.EventDispatcher import ED2
M = coop.patched_import('sippy.External_command')

class FakeIn:
    def __init__(self, p): self.p = p; self.closed = False
    def write(self, b):
        self.p.buf += b
        coop.S.point()
        return len(b)
    def writelines(self, l):
        for b in l: self.write(b)
    def flush(self):
        coop.S.point()
        self.p.eat()
    def close(self): self.closed = True
class FakeOut:
    def __init__(self, p): self.p = p
    def readline(self, *a):
        coop.S.point(lambda: len(self.p.lines) > 0 or self.p.dead)
        return self.p.lines.pop(0) if self.p.lines else b''
    def close(self): pass
class FakePopen:
    def __init__(self, command, *a, **k):
        self.d = FakePopen.drv
        self.w = coop.S.me().idx
        self.buf = b''
        self.lines = []
        self.dead = False
        self.stdin, self.stdout, self.stderr = FakeIn(self), FakeOut(self), FakeOut(self)
        self.pid = 100000 + self.w
        self.returncode = None
        self.d.rec(**{'in': 'spawn', 'w': self.w, 'ok': command == self.d.command})
        coop.S.point()
    def eat(self):
        while True:
            if b'\n\n' not in self.buf and self.buf != b'\n': break
            if self.buf.startswith(b'\n'):
                req, self.buf = b'', self.buf[1:]
            else:
                req, self.buf = self.buf.split(b'\n\n', 1)
            lines = [x.decode('utf-8', 'replace') for x in req.split(b'\n')] if req else []
            id = lines[0] if lines else '?'
            self.d.rec(**{'in': 'write', 'w': self.w, 'id': id, 'lines': lines, 'clean': len(self.lines) == 0})
            ans = self.d.answers.get(id, [])
            self.d.given.setdefault(id, []).append(self.w)
            self.lines += [('%s@%d' % (a, self.w)).encode() + b'\n' for a in ans] + [b'\n']
    def poll(self): return None
    def terminate(self): pass
    def kill(self): pass
    def wait(self, timeout=None): return 0

for n, v in list(vars(M).items()):
    if v is subprocess.Popen: setattr(M, n, FakePopen)
    elif v is subprocess:
        import types
        setattr(M, n, types.SimpleNamespace(**{**vars(subprocess), 'Popen': FakePopen}))

class D:
    def __init__(self, workers):
        vt.reset()
        self.S = coop.reset()
        self.S.log = self.slog
        self.ev = []
        self.answers, self.items, self.given = {}, {}, {}
        self.command = ('cmd', '-x')
        FakePopen.drv = self
        self.raising = set()
        self.pool = M.External_command(self.command, workers)
        self.workers = workers
    def rec(self, **e): self.ev.append(e)
    def slog(self, what, t):
        if what == 'slice': self.rec(**{'in': 'slice', 'w': t.idx})
        else: self.rec(**{'in': 'exit', 'w': t.idx, 'exc': repr(t.exc) if t.exc is not None else ''})
    def step(self, w):
        t = [x for x in self.S.runnable() if x.idx == w]
        if not t: return False
        self.S.step(t[0])
        return True
    def submit(self, id, nlines, nans, raising=False):
        self.answers[id] = ['%s.a%d' % (id, i) for i in range(nans)]
        if raising: self.raising.add(id)
        lines = [id] + ['%s.l%d' % (id, i) for i in range(nlines)]
        self.rec(**{'in': 'submit', 'id': id, 'lines': lines, 'ans': self.answers[id]})
        src = list(lines)
        self.items[id] = self.pool.process_command(src, self.result, id, 'p2')
        src.append('changed later')        # the pool must have taken a copy
    def result(self, lines, id, p2):
        ls = [x.decode() if isinstance(x, bytes) else x for x in lines]
        self.rec(**{'in': 'result', 'id': id, 'lines': [x.rsplit('@', 1)[0] for x in ls], 'w': sorted({int(x.rsplit('@', 1)[1]) for x in ls}),
                    'p2': p2})
        if id in self.raising: raise RuntimeError('handler fails')
    def cancel(self, id):
        if id in self.items:
            self.rec(**{'in': 'cancel', 'id': id})
            self.items[id].cancel()
    def shutdown(self):
        self.rec(**{'in': 'shutdown'})
        self.pool.shutdown()
    def main(self):
        vt.pump()
    def settle(self, r):
        for _ in range(20000):
            l = self.S.runnable()
            if not l: break
            self.step(r.choice(l).idx)
        self.main()
        self.rec(**{'in': 'quiet', 'alive': len([t for t in self.S.ths if t.alive])})

def run_sched(s):
    r = random.Random(s.get('seed', 0))
    if 'walk' in s:
        d = D(s['workers'])
        n = 0
        for e in s['walk']:
            if e['in'] == 'submit': d.submit('i%d' % e['id'], n % 3, (n + 1) % 3); n += 1
            elif e['in'] == 'cancel': d.cancel('i%d' % e['id'])
            elif e['in'] == 'shutdown': d.shutdown()
            elif e['in'] == 'step':
                d.step(e['w'] - 1)
    else:
        d = D(r.choice([1, 1, 2, 3, 4]))
        n = 0; down = False
        for _ in range(s['steps']):
            k = r.random()
            if k < .12 and not down and n < 12:
                d.submit('i%d' % n, r.randint(0, 3), r.randint(0, 3), r.random() < .2); n += 1
                if r.random() < .3: d.cancel('i%d' % r.randrange(n))
            elif k < .2 and n: d.cancel('i%d' % r.randrange(n))
            elif k < .21 and not down and n > 2: d.shutdown(); down = True
            elif k < .3: d.main()
            else:
                l = d.S.runnable()
                if l: d.step((r.choice(l) if r.random() < .6 else l[0]).idx)
        if not down and r.random() < .5: d.shutdown()
    d.settle(r)
    tr = {'ev': d.ev, 'workers': d.workers}
    d.S.kill()
    return tr
