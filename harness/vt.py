"""Deterministic environment for the real sippy code: virtual clock under the real
event dispatcher, no threads, no sockets.  Import this before anything from sippy."""
import sys, os, io, time as _time, threading, queue, socket, subprocess, traceback, random

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

BASE_MONO = 4096.0
BASE_REAL = 1700000000.0

class Clock:
    now = BASE_MONO          # monotonic, seconds
    real_off = BASE_REAL - BASE_MONO

clk = Clock()
real_time = _time.time
real_monotonic = _time.monotonic

def _gd(kind):
    return clk.now if kind != 0 else clk.now + clk.real_off
def _gn(kind):
    return int(round(_gd(kind) * 10**9))
def _gi(kind):
    n = _gn(kind)
    return (n // 10**9, n % 10**9)

import sippy.Time.clock_dtime as _cd
_cd.clock_getdtime, _cd.clock_getntime, _cd.clock_getitime = _gd, _gn, _gi
_time.time = lambda: clk.now + clk.real_off
_time.monotonic = lambda: clk.now

exceptions = []
import sippy.Core.Exceptions as _ce
def _dump_exception(msg, f=None, extra=None):
    et, ev, tb = sys.exc_info()
    loc = ''
    try:
        fr = traceback.extract_tb(tb)[-1]
        loc = '%s:%s' % (os.path.basename(fr.filename), fr.name)
    except Exception:
        pass
    exceptions.append((clk.now, str(msg), getattr(et, '__name__', '?'), str(ev), loc,
                       ''.join(traceback.format_exception(et, ev, tb))))
_ce.dump_exception = _dump_exception

from sippy.Core.EventDispatcher import ED2
from sippy.Time.MonoTime import MonoTime

class FakeElp:
    def __init__(self):
        self.q = []
        self.rounds = 0
    def call_from_thread(self, f, *a):
        self.q.append((f, a))
    def procrastinate(self):
        if self.q:
            q, self.q = self.q, []
            for f, a in q:
                f(*a)
            return
        if self.rounds > 0:
            self.rounds -= 1
            return
        ED2.breakLoop()
    def addband(self, f): return 0
    def useband(self, b): pass
    def CFT_enable(self, s): pass

felp = FakeElp()
ED2.elp = felp
ED2.bands = [(100.0, 0)]

def now():
    return clk.now - BASE_MONO

def pump():
    """Let everything which is due at the current instant happen."""
    felp.rounds = 1
    ED2.loop()

def next_deadline():
    try:
        d = None
        for x in ED2.tlisteners:
            if x.cb_func is None:
                continue
            m = x.etime.monot
            if d is None or m < d:
                d = m
        return d
    except Exception:
        return clk.now + 0.01

def advance(dt):
    """Advance virtual time by dt seconds, dispatching each timer at its deadline."""
    end = clk.now + dt
    pump()
    guard = 0
    while True:
        nd = next_deadline()
        if nd is None or nd > end:
            break
        if nd <= clk.now:
            guard += 1
            if guard > 1000:
                raise RuntimeError('timer livelock')
            pump()
            # a due timer which does not fire: move on by a tick
            nd2 = next_deadline()
            if nd2 is not None and nd2 <= clk.now:
                clk.now = min(end, clk.now + 0.01)
                if clk.now >= end: break
            continue
        guard = 0
        clk.now = nd
        pump()
    clk.now = end
    pump()

def reset():
    """Fresh dispatcher and clock for the next case (module state of sippy stays)."""
    clk.now = BASE_MONO
    try:
        for x in list(ED2.tlisteners):
            x.cleanup()
    except Exception:
        pass
    ED2.tlisteners = []
    ED2.twasted = 0
    ED2.signals_pending = []
    felp.q = []
    exceptions.clear()
    # MonoTime keeps high water marks
    g = MonoTime.globals
    g.monot_max = clk.now
    ED2.last_ts = MonoTime()

def live_timers():
    try:
        return len([x for x in ED2.tlisteners if x.cb_func is not None])
    except Exception:
        return 0
