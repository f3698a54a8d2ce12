"""Driver: the registration agent (real agent on the real transaction layer) against a registrar played here."""
import vt, random, hashlib
from sipnet import Net, Msg, new_stm, deliver, reply_to, _param
from sippy.Core.EventDispatcher import ED2
from sippy.SipRegistrationAgent import SipRegistrationAgent
from sippy.SipURL import SipURL
REG = ('10.7.0.1', 5060)
ME = 'sip:me@10.0.0.1:5066'
ALG = {'': 'md5', 'MD5': 'md5', 'SHA-256': 'sha256', 'SHA-512-256': 'sha512_256'}
def params(v):
    import re
    return {k.lower(): (b if q.startswith('"') else q) for k, q, b in re.findall(r'([\w-]+)=("([^"]*)"|[^,\s]*)', v.split(None, 1)[1])}
class D:
    def __init__(self, cfg, r):
        vt.reset()
        self.cfg, self.r, self.ev = cfg, r, []
        self.net = Net()
        self.tm, self.gc = new_stm(self.net, lambda *a: (None, None, None))
        self.srv = [s for s in self.net.servers if s.up][0]
        self.snd, self.cb, self.seen, self.chs = [], [], {}, []
        self.cs0 = self.ids = self.last = None
        self.dead = False
        self.a = SipRegistrationAgent(self.gc, SipURL(username='me', host=REG[0], port=REG[1]), SipURL(ME),
              user='usr' if cfg['creds'] else None, passw='pw1' if cfg['creds'] else None, exp=cfg['exp'], rok_cb=self.ok, rfail_cb=self.fail, cb_arg='arg')
    def us(self): return int(round(vt.now() * 1e4))
    def stop(self):
        self.dead = True
        self.a.stopregister()
    def ok(self, at, contact, arg):
        c = '' if contact is None else str(contact)
        u = c.split('sip:', 1)[1].split('>')[0].split('@')[0] if 'sip:' in c else c
        at = at.realt if hasattr(at, 'realt') else at
        self.cb.append({'ok': True, 'at': int(round((at - vt.BASE_REAL) * 1e4)), 'txt': u, 'arg': arg == 'arg'})
        if self.cfg['stop'] == 'ok': self.stop()
    def fail(self, sl, arg):
        self.cb.append({'ok': False, 'at': -1, 'txt': str(sl).replace('SIP/2.0 ', ''), 'arg': arg == 'arg'})
        if self.cfg['stop'] == 'fail': self.stop()
    def auth(self, m, name):
        """number of the challenge that the header answers, correctly; 0: no header; negative: wrong"""
        v = m.hs(name)
        if not v: return 0
        if len(v) > 1: return -2
        p = params(v[0])
        for i, ch in enumerate(self.chs, 1):
            if ch['nonce'] == p.get('nonce'):
                H = lambda s: hashlib.new(ALG[ch['alg']], s.encode()).hexdigest()
                a1, a2 = H('usr:%s:pw1' % ch['realm']), 'REGISTER:' + p.get('uri', '')
                if ch['qop'] == 'auth-int': a2 += ':' + H(m.body)
                if ch['qop']: x = H(':'.join((a1, ch['nonce'], p.get('nc', ''), p.get('cnonce', ''), p.get('qop', ''), H(a2))))
                else: x = H(':'.join((a1, ch['nonce'], H(a2))))
                good = (x == p.get('response') and p.get('username') == 'usr' and p.get('realm') == ch['realm'] and p.get('uri') == m.ruri
                        and p.get('algorithm', '') == ch['alg'] and p.get('opaque', '') == ch['opaque'] and p.get('qop', '') == ch['qop'])
                return i if good else -3
        return -1
    def collect(self):
        for d in self.net.take():
            m = Msg(d.data)
            if not m.req or m.method != 'REGISTER': continue
            b = m.branch()
            if b in self.seen: continue                     # a retransmission
            self.seen[b] = 1
            n = m.cseq()[0]
            ids = (m.callid(), m.ftag(), m.h1('to'), m.ruri)
            if self.ids is None: self.ids, self.cs0 = ids, n
            c = m.hs('contact')
            self.snd.append({'cs': n - self.cs0, 'w': self.auth(m, 'authorization'), 'p': self.auth(m, 'proxy-authorization'),
                             'good': ids == self.ids and m.ttag() is None and d.addr == REG and len(c) == 1 and ME in c[0] and _param(c[0], 'expires') == str(self.cfg['exp'])})
            self.last = d.data
    def step(self, e, f):
        self.snd, self.cb, exc = [], [], ''
        try: f(); vt.pump()
        except Exception as ex:
            import traceback
            exc = ''.join(traceback.format_exception(ex))[-700:]
        if vt.exceptions and not exc: exc = vt.exceptions[-1][-1][-700:]
        vt.exceptions.clear()
        self.collect()
        p = self.ev[-1] if self.ev else None
        if p and e['in'] == p['in'] == 'tick' and not (p['snd'] or p['cb'] or p['exc']): self.ev.pop()
        self.ev.append(dict(e, t=self.us(), snd=self.snd, cb=self.cb, exc=exc))
    def start(self): self.step({'in': 'start'}, self.a.doregister)
    def resp(self, code, reason='Px', cts=(), hexp=-1, ch=None, data=None, nch=0):
        """answer to the last REGISTER; ch: {realm, nonce, alg, qop, opaque}"""
        data = data or self.last
        x, n = [], 0
        for c in cts: x.append(('Contact', '<%s>%s' % (c['u'], ';expires=%d' % c['exp'] if c['exp'] >= 0 else '')))
        if hexp >= 0: x.append(('Expires', '%d' % hexp))
        if ch:
            self.chs.append(ch); n = len(self.chs)
            v = 'Digest realm="%s", nonce="%s"' % (ch['realm'], ch['nonce'])
            if ch['qop']: v += ', qop="%s"' % (ch.get('qops') or ch['qop'])
            if ch['alg']: v += ', algorithm=%s' % ch['alg']
            if ch['opaque']: v += ', opaque="%s"' % ch['opaque']
            x.append(('WWW-Authenticate' if code == 401 else 'Proxy-Authenticate', v))
            if not ch.get('sup', True): n = 0
        r = {'code': code, 'cs': Msg(data).cseq()[0] - self.cs0, 'sl': '%d %s' % (code, reason), 'hexp': hexp, 'ch': n,
             'cts': [{'own': c['own'], 'exp': c['exp'], 'id': c['u'].split(':', 1)[1].split('@')[0]} for c in cts]}
        self.step({'in': 'resp', 'r': r}, lambda: deliver(self.srv, reply_to(data, code, reason, 'rt', x), REG))
    def halt(self): self.step({'in': 'stop'}, self.stop)
    def adv(self, dt):
        end = vt.now() + dt
        while True:
            ds = sorted(x.etime.monot - vt.BASE_MONO for x in ED2.tlisteners if x.cb_func is not None)
            if not ds or ds[0] > end: break
            self.step({'in': 'tick'}, lambda: vt.advance(max(0, ds[0] - vt.now()) + 1e-9))
        if end > vt.now(): self.step({'in': 'tick'}, lambda: vt.advance(end - vt.now()))
    # ---- what a registrar may say
    def cts(self):
        r = self.r
        own = {'u': ME, 'own': True, 'exp': r.choice([self.cfg['exp'], 1, 30, 59, 61, 300, 7200])}
        oth = [{'u': u, 'own': False, 'exp': r.choice([5, 100, 3600])} for u in ('sip:oth@10.0.0.7:5060', 'sip:me2@10.0.0.1:5060', 'sip:x@10.0.0.1')]
        k = r.random()
        if k < .5: return [own]
        if k < .6: return []
        if k < .65: return [dict(own, exp=-1)]
        if k < .7: return [oth[0]]
        q = r.sample(oth, r.randint(1, 2)) + [own]
        r.shuffle(q)
        return q
    def chal(self):
        r = self.r
        n = '%s%d' % (r.choice(['n', 'abc/+==', 'q=1x']), len(self.chs) + 1)
        alg, qop = r.choice([('', ''), ('MD5', ''), ('', 'auth'), ('MD5', 'auth'), ('SHA-256', 'auth'), ('SHA-512-256', 'auth'), ('MD5', 'auth-int')])
        qops = r.choice([qop, qop + ',auth-int']) if qop == 'auth' else qop
        c = {'realm': r.choice(['r1', 'a realm', 'x, y']), 'nonce': n, 'alg': alg, 'qop': qop, 'qops': qops, 'opaque': r.choice(['', '', 'op1'])}
        if r.random() < .06: c['alg'], c['sup'] = 'SHA-999', False
        return c
CFG = {'creds': True, 'exp': 180, 'stop': ''}
def run_sched(s):
    r = random.Random(s.get('seed', 0)); random.seed(s.get('seed', 0))
    cfg = dict(CFG)
    if 'walk' in s: cfg = next((e['cfg'] for e in s['walk'] if e['in'] == 'cfg'), cfg)
    else: cfg = {'creds': r.random() < .9, 'exp': r.choice([180, 60, 3600]), 'stop': r.choice([''] * 8 + ['ok', 'fail'])}
    d = D(cfg, r)
    d.start()
    if 'walk' in s:
        for e in s['walk']:
            k = e['in']
            if k == 'tick':
                ds = d.ev[-1]['t']
                if e.get('to'): d.adv(33)
                else:
                    for _ in range(80):
                        d.adv(1)
                        if d.snd: break
            elif k == 'stop': d.halt()
            elif k == 'resp':
                q = e['r']
                d.adv(.01)
                n = d.chal() if q['ch'] else None
                if n: n['alg'], n['sup'] = ('MD5', True)
                d.resp(q['code'], 'Px%d' % len(d.ev), [{'u': ME if c['own'] else 'sip:oth@10.0.0.7', 'own': c['own'], 'exp': c['exp']} for c in q['cts']], q['hexp'], n)
        d.adv(100)
        return {'cfg': cfg, 'ev': d.ev}
    old, mood = [], r.choice(['ok', 'chal', 'mix'])
    for i in range(s['steps']):
        if r.random() < .08: mood = r.choice(['ok', 'chal', 'mix'])
        k = r.random()
        wait = d.last is not None and d.last not in old
        if k < .62 and wait:
            if r.random() < .15: d.adv(r.choice([.6, 3, 20, 31]))
            else: d.adv(.001 * r.randint(1, 50))
            j = r.random()
            if d.last in old: continue
            if j < .12: d.resp(r.choice([100, 180]), 'Trying %d' % i); continue
            cur = d.last
            old.append(cur)
            if mood == 'ok' and j < .8 or mood == 'mix' and j < .4: d.resp(r.choice([200, 200, 202]), 'OK', d.cts(), r.choice([-1, -1, 45, 500]))
            elif mood == 'chal' and j < .9 or j < .75: d.resp(r.choice([401, 401, 407]), 'Auth', ch=d.chal() if r.random() < .96 else None)
            else: d.resp(r.choice([302, 403, 404, 423, 480, 500, 503, 600]), 'Px%d' % i, d.cts() if r.random() < .2 else ())
        elif k < .68 and old: d.resp(r.choice([200, 401, 500]), 'Late', d.cts(), ch=None, data=r.choice(old))
        elif k < .69 and i > 10: d.halt()
        else: d.adv(r.choice([.01, .5, 1, 29, 30, 59.9, 60.1, 180, 300] + [3599] * (r.random() < .2)))
    d.adv(70)
    return {'cfg': cfg, 'ev': d.ev}
