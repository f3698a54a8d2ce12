"""Cooperative threads: real threads of which exactly one runs, switching only at synchronisation points, so that a
schedule is a sequence of choices.  Stand-ins for threading.Lock, Condition, Thread, ... and queue.Queue."""
import threading as _t, sys, queue as _q

_Sem, _Thread, _cur = _t.Semaphore, _t.Thread, _t.get_ident

class Killed(SystemExit): pass

class Sched:
    def __init__(self):
        self.ths = []             # controlled threads
        self.by_ident = {}
        self.back = _Sem(0)
        self.killing = False
        self.log = lambda *a: None
        self.running = None
    def me(self): return self.by_ident.get(_cur())
    def runnable(self):
        return [t for t in self.ths if t.alive and t.started_ and (t.blocked is None or t.blocked())]
    def step(self, t):
        """Let thread t run up to its next synchronisation point."""
        t.sem.release()
        if not self.back.acquire(timeout=10):
            raise RuntimeError('thread %s does not come back' % t.idx)
    def point(self, blocked=None):
        """A synchronisation point of the running thread; blocked() tells whether it may go on."""
        t = self.me()
        if t is None:
            # the main thread: let the others run until it may go on
            n = 0
            while blocked is not None and not blocked():
                r = self.runnable()
                if not r or n > 10000: raise RuntimeError('main thread blocked for ever')
                self.step(r[0]); n += 1
            return
        while True:
            t.blocked = blocked
            self.back.release()
            t.sem.acquire()
            t.blocked = None
            if self.killing: raise Killed()
            if blocked is None or blocked(): return
    def kill(self):
        self.killing = True
        for t in self.ths:
            if t.alive and t.started_:
                t.sem.release()
                t.real.join(2)

S = None
def reset():
    global S
    if S is not None: S.kill()
    S = Sched()
    return S

class Lock:
    def __init__(self): self.owner = None
    def acquire(self, blocking=True, timeout=-1):
        if not blocking and self.owner is not None: return False
        S.point()
        if self.owner is not None: S.point(lambda: self.owner is None)
        self.owner = S.me() or 'main'
        return True
    def release(self):
        if self.owner is None: raise RuntimeError('release unlocked lock')
        self.owner = None
        if S.me(): S.log('slice', S.me())
        S.point()
    def locked(self): return self.owner is not None
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()

class RLock(Lock):
    def __init__(self): super().__init__(); self.n = 0
    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not None and self.owner is (S.me() or 'main'): self.n += 1; return True
        r = super().acquire(blocking)
        if r: self.n = 1
        return r
    def release(self):
        self.n -= 1
        if self.n == 0: super().release()

class Condition:
    def __init__(self, lock=None):
        self.lock = lock or Lock(); self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def wait(self, timeout=None):
        if self.lock.owner is None: raise RuntimeError('cannot wait on un-acquired lock')
        tok = [False]
        self.waiters.append(tok)
        self.lock.owner = None
        S.point(lambda: tok[0])
        S.point(lambda: self.lock.owner is None)
        self.lock.owner = S.me() or 'main'
        return True
    def wait_for(self, pred, timeout=None):
        while not pred(): self.wait()
        return True
    def notify(self, n=1):
        if self.lock.owner is None: raise RuntimeError('cannot notify on un-acquired lock')
        for tok in self.waiters[:n]: tok[0] = True
        del self.waiters[:n]
    def notify_all(self): self.notify(len(self.waiters))
    notifyAll = notify_all

class Event:
    def __init__(self): self.f = False
    def set(self): self.f = True; S.point()
    def clear(self): self.f = False
    def is_set(self): return self.f
    def wait(self, timeout=None): S.point(lambda: self.f); return True

class Queue:
    Empty = _q.Empty
    def __init__(self, maxsize=0): self.q = []; self.unf = 0
    def put(self, x, *a, **k): S.point(); self.q.append(x); S.point()
    put_nowait = put
    def get(self, block=True, timeout=None):
        if not block and not self.q: raise _q.Empty()
        S.point(lambda: len(self.q) > 0)
        x = self.q.pop(0)
        if S.me(): S.log('slice', S.me())
        S.point()
        return x
    def get_nowait(self): return self.get(False)
    def qsize(self): return len(self.q)
    def empty(self): return not self.q
    def task_done(self): pass
    def join(self): pass

class Thread:
    daemon = True
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target_, self.args_, self.kw_ = target, args, kwargs or {}
        self.name = name
        self.sem = _Sem(0)
        self.alive = True
        self.started_ = False
        self.blocked = None
        self.exc = None
        self.idx = len(S.ths)
        S.ths.append(self)
    def setDaemon(self, d): pass
    def run(self):
        if self.target_: self.target_(*self.args_, **self.kw_)
    def start(self):
        sched = S
        def body():
            sched.by_ident[_cur()] = self
            self.sem.acquire()
            try:
                if not sched.killing: self.run()
            except Killed: pass
            except BaseException as ex: self.exc = ex
            self.alive = False
            if not sched.killing: sched.log('exit', self)
            sched.back.release()
        self.real = _Thread(target=body, daemon=True)
        self.started_ = True
        self.real.start()
    def is_alive(self): return self.alive
    def join(self, timeout=None): S.point(lambda: not self.alive)

def patched_import(modname, extra=()):
    """Import (or reimport) a module so that its threads and locks are cooperative."""
    import importlib, types
    names = {'Lock': Lock, 'RLock': RLock, 'Condition': Condition, 'Thread': Thread, 'Event': Event}
    old = {n: getattr(_t, n) for n in names}
    oldq = {n: getattr(_q, n) for n in ('Queue', 'SimpleQueue')}
    sys.modules.pop(modname, None)
    parent, _, child = modname.rpartition('.')
    try:
        for n, v in names.items(): setattr(_t, n, v)
        for n in oldq: setattr(_q, n, Queue)
        m = importlib.import_module(modname)
    finally:
        for n, v in old.items(): setattr(_t, n, v)
        for n, v in oldq.items(): setattr(_q, n, v)
    # "import threading" style uses
    px = types.SimpleNamespace(**{**vars(_t), **names})
    pq = types.SimpleNamespace(**{**vars(_q), 'Queue': Queue, 'SimpleQueue': Queue})
    for n, v in list(vars(m).items()):
        if v is _t: setattr(m, n, px)
        elif v is _q: setattr(m, n, pq)
    return m
