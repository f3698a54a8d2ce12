"""Driver: the client of an RTP proxy over UDP (real client code, stand-in for the socket)."""
import vt, random
import sippy.Rtp_proxy.Client.udp as U
from sippy.Core.EventDispatcher import ED2
from sippy.Exceptions.RtpProxyError import RtpProxyError
from sippy.Time.MonoTime import MonoTime
from sippy.Rtp_proxy.client import Rtp_proxy_client
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
from sippy.Rtp_proxy.session import Rtp_proxy_session

class Sock:
    cur = None
    def __init__(self, gc, uopts):
        self.uopts, self.up = uopts, True
        Sock.cur = self
    def send_to(self, data, address, *a, **kw): self.rec(data, address)
    def shutdown(self): self.up = False
U.Udp_server = Sock
ADDR = ('127.0.0.1', 22222)

class D:
    def __init__(self, r, nvc=False, up=False):
        vt.reset()
        self.r, self.ev, self.cks, self.ids, self.txt = r, [], [], 0, {}
        self.pend = {}                         # ours: cookie -> [text, times sent], for choosing what to answer
        self.snd, self.done, self.stop = [], [], False
        self.first = 1
        Sock.rec = lambda s_, d, a: self.sent(d, a)
        self.nvc = nvc
        self.step({'in': 'start', 'nvc': nvc}, self.create)
        if up: self.handshake()
    def handshake(self):
        '''the proxy answers everything asked at first, in any order'''
        for _ in range(12):
            o = [k for k in self.pend if self.pend[k][0] == 'V' or self.pend[k][0].startswith('VF')]
            if not o or self.stop: break
            self.adv(.001 * self.r.randint(1, 9))
            k = self.r.choice(o)
            if k in self.pend: self.reply(k, '20040107' if self.pend[k][0] == 'V' else self.r.choice('10'))
    def create(self):
        self.c = Rtp_proxy_client({'_sip_address': '127.0.0.1'}, spath='udp:127.0.0.1:22222', **({'no_version_check': True} if self.nvc else {}))
        self.sock = Sock.cur
    def us(self): return int(round(vt.now() * 1e6))
    def sent(self, d, a):
        if isinstance(d, bytes): d = d.decode()
        ck, _, c = d.partition(' ')
        if ck not in self.cks: self.cks.append(ck); self.pend[ck] = [c, 0]
        if ck in self.pend: self.pend[ck][1] += 1
        self.snd.append({'ck': self.cks.index(ck) + 1, 'c': c, 'm': c in ('V', 'Ib') or c.startswith('VF '), 'to': tuple(a)[:2] == ADDR})
    def step(self, e, f):
        self.snd, self.done = [], []
        first = len(self.cks) + 1
        exc = ''
        try:
            f(); vt.pump()
        except Exception as ex:
            import traceback
            exc = ''.join(traceback.format_exception(ex))[-900:]
        if vt.exceptions and not exc: exc = vt.exceptions[-1][-1][-900:]
        vt.exceptions.clear()
        try: d = self.c.delay_flt.lastval if self.c.shut_down else self.c.get_rtpc_delay()
        except Exception as ex: d, exc = 0, exc or repr(ex)
        self.ev.append(dict(e, t=self.us(), first=first, snd=self.snd, done=self.done, on=bool(self.c.online), d=int(round(d * 1e6)), exc=exc))
        # the number of tries is ambiguous to the specification near these delays
        if abs(d - .25) > 1e-12:
            for ex in (1., 3., 10.):
                k = 1
                while k < 14:
                    x = ex / (4 * (2 ** k - 1))
                    if abs(d - x) < 3e-4 * x + 2e-6: self.stop = True
                    k += 1
        return exc
    def handler(self, id, x):
        par = self.r.choice([(), (), ('a', 7)])
        def cb(res, *a, ex=None, **kw):
            ok = res is not None
            if a != par: self.done.append({'id': id, 'ok': ok, 'txt': 'PARAMETERS %r' % (a,)})
            self.done.append({'id': id, 'ok': ok, 'txt': str(res) if ok else ''})
            if x['id'] and not self.c.shut_down: self.issue(x, {'id': 0})
        return (cb,) + par
    def issue(self, q, x, quiet=False):
        if quiet: return self.c.send_command(q['c'])
        c = q['c']
        if q['nr'] >= 0:
            o = Rtp_proxy_cmd(c); o.nretr = q['nr']
            self.c.send_command(o, *self.handler(q['id'], x))
        elif q.get('obj'): self.c.send_command(Rtp_proxy_cmd(c), *self.handler(q['id'], x))
        else: self.c.send_command(c, *self.handler(q['id'], x))
    # ---- inputs
    def cmd(self, kind, nested=False, nr=-1, quiet=False):
        if self.c.shut_down: return
        def mk(kind, nr):
            self.ids += 1
            i = self.ids
            t = {'o': 'Q s%d f t', 'U': 'U s%d 1.2.3.4 %d0 f', 'D': 'D s%d f t', 'P': 'P1 s%d moh 0 f t', 'I': 'I%d', 'G': 'G total%d'}[kind]
            self.txt[i] = t = t % ((i,) if t.count('%') == 1 else (i, i))
            return {'id': i, 'c': t, 'kind': kind if kind in 'IG' else 'o', 'nr': nr}
        q = mk(kind, nr)
        x = mk(self.r.choice('oDP'), -1) if nested else {'id': 0, 'c': '', 'kind': '', 'nr': -1}
        # an answer cannot arrive at the instant the command is sent
        self.step({'in': 'cmd', 'id': q['id'], 'c': q['c'], 'kind': q['kind'], 'nr': nr, 'x': x, 'quiet': quiet}, lambda: self.issue(q, x, quiet))
    def reply(self, ck, txt, how=''):
        if not self.sock.up: return
        i = self.cks.index(ck) + 1 if ck in self.cks else 0
        def go():
            data = ('%s %s' % (ck, txt)).encode() if not how else how.encode()
            self.sock.uopts.data_callback(data, ADDR, self.sock, MonoTime()) if hasattr(self.sock.uopts, 'data_callback') else self.c.process_reply(data, ADDR, self.sock, MonoTime())
        self.pend.pop(ck, None)
        self.step({'in': 'reply', 'ck': 0 if how else i, 'txt': txt.strip()}, go)
    def deadlines(self):
        return sorted(x.etime.monot for x in ED2.tlisteners if x.cb_func is not None)
    def adv(self, dt):
        """dt seconds pass; every instant at which something happens is a step of its own"""
        end = vt.now() + dt
        while not self.stop:
            ds = [x - vt.BASE_MONO for x in self.deadlines()]
            if not ds or ds[0] > end: break
            # two different instants too close to be told apart: leave it at that
            if any(1e-7 < x - ds[0] < 4e-4 for x in ds): self.stop = True; break
            dt1 = max(0, ds[0] - vt.now())
            n = len(self.snd)
            self.step({'in': 'tick'}, lambda: vt.advance(dt1 + 1e-9))
        if not self.stop and end > vt.now(): self.step({'in': 'tick'}, lambda: vt.advance(end - vt.now()))
    def gap(self):
        """no deadline within the next millisecond"""
        ds = [x - vt.BASE_MONO for x in self.deadlines()]
        return not ds or ds[0] - vt.now() > .0012
    def shut(self): self.step({'in': 'shutdown'}, self.c.shutdown)
    def pick(self):
        res = []
        def go():
            class Dead(Rtp_proxy_client):
                """one that went offline at some time"""
                online, caps_done, address, proxy_address = False, True, ('10.9.9.9', 1), '10.9.9.9'
                def __init__(self): pass
            g = {'rtp_proxy_client': self.c} if self.r.random() < .5 else {'_rtp_proxy_clients': [Dead(), self.c, Dead()]}
            try:
                for _ in range(4):
                    if Rtp_proxy_session(g, 'c', 'f', 't').rtp_proxy_client is not self.c: raise ValueError('session on an offline proxy')
                res.append(True)
            except RtpProxyError: res.append(False)
        self.step({'in': 'pick'}, go)
        self.ev[-1]['res'] = bool(res and res[0])

STATS = 'sessions created: 12\nactive sessions: 3\nactive streams: 6\npackets received: 100\npackets transmitted: 99'
def run_sched(s):
    r = random.Random(s.get('seed', 0))
    random.seed(s.get('seed', 0))
    cfg = next((e for e in s.get('walk', []) if e['in'] == 'cfg'), None) or {'nvc': r.random() < .1, 'up': r.random() < .6}
    d = D(r, cfg['nvc'], cfg['up'] and not cfg['nvc'])
    if 'walk' in s:
        old = []
        for e in s['walk']:
            if d.stop: break
            k = e['in']
            if k == 'tick':
                ds = d.deadlines()
                if ds: d.adv(ds[0] - vt.BASE_MONO - vt.now() + 5e-4)
            else:
                d.adv(.002)
                if d.stop: break
                if k == 'cmd': d.cmd(e['kind'], e['x']['id'] > 0, e['nr'], e['quiet'])
                elif k == 'reply':
                    c = e['c']
                    if not c: q = old[:1]
                    elif c[0] in 'VI' and not c[1:2].isdigit(): q = [q for q in d.pend if d.pend[q][0][:2] == c[:2]]
                    else: q = [q for q in d.pend if d.pend[q][0] == d.txt.get(int(c[1:]))]
                    if q:
                        d.reply(q[0], e['txt'])
                        if q[0] not in old: old.append(q[0])
                elif k == 'shutdown': d.shut()
                elif k == 'pick' and not d.c.shut_down: d.pick()
        return {'ev': d.ev}
    mood = r.choice(['good', 'good', 'slow', 'lossy', 'bad'])
    old = []
    for i in range(s['steps']):
        if d.stop: break
        if r.random() < .04: mood = r.choice(['good', 'slow', 'lossy', 'bad'])
        k = r.random()
        if k < .25:
            if d.gap(): d.adv(.001 * r.randint(1, 1)); d.cmd(*r.choice([(r.choice('oUDPPIGo'), r.random() < .15, r.choice([-1] * 8 + [1, 2, 3]))] * 6 + [('o', False, -1, True)]))
        elif k < (.78 if mood == 'good' else .6) and d.pend:
            # what the proxy does with one of the commands it may have received
            own = [q for q in d.pend if d.pend[q][0][0] in 'VI']
            ck = r.choice(own if own and mood in ('good', 'slow') and r.random() < .5 else list(d.pend))
            c, n = d.pend[ck]
            if mood in ('lossy', 'bad') and r.random() < (.6 if mood == 'lossy' else .95): continue
            d.adv(.001 * (r.randint(1, 30) if mood != 'slow' else r.randint(100, 2500)))
            if d.stop: break
            if ck not in d.pend: continue
            t = '20040107' if c == 'V' else r.choice(['1', '1', '0', 'E1']) if c.startswith('VF') else r.choice([STATS, STATS, 'E2', 'active sessions: 5']) if c.startswith('I') else r.choice(['0', '1', 'E7', '20000 1.2.3.4', '5 1 2 3 4', ' 0 '])
            if c == 'V' and r.random() < .1: t = r.choice(['20040108', 'E0', '2004'])
            d.reply(ck, t); old.append(ck)
        elif k < .82 and (old or d.cks):
            j = r.random()
            if j < .6 and old: d.reply(r.choice(old), r.choice(['0', '1', '20040107', 'E5']))
            elif j < .8: d.reply(r.choice(d.cks)[:-1] + 'z', '1')
            else: d.reply('', '', r.choice(['', 'junk', d.cks[0], ' ', '\n']))
        elif k > .94 and not d.c.shut_down: d.pick()
        elif k < .825 and i > 15: d.shut()
        elif mood == 'good': d.adv(r.choice([.003, .05, .3, .3] + [1.0] * (not d.pend) + [70] * (not d.c.online)))
        else: d.adv(r.choice([.003, .05, .3, 1.0, 1.2, 3.5] + ([62, 70] if not d.c.online else [12])))
    for _ in range(2):
        if not d.stop: d.adv(15)
    return {'ev': d.ev}
