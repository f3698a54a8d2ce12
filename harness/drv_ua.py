"""Driver: one call leg (real UA on the real transaction layer) between a controller and a peer, both played here."""
import vt, random
from sipnet import Net, Msg, new_stm, deliver, build, reply_to, _param
from sippy.UA import UA
from sippy.CCEvents import CCEventTry, CCEventRing, CCEventConnect, CCEventPreConnect, CCEventFail, CCEventRedirect, \
    CCEventDisconnect, CCEventUpdate, CCEventInfo
from sippy.MsgBody import MsgBody
from sippy.SipCallId import SipCallId
from sippy.SipAddress import SipAddress
from sippy.SipURL import SipURL
from sippy.SipReferTo import SipReferTo
from sippy.SipReason import SipReason
from sippy.SipContentType import SipContentType
from sippy.Exceptions.SdpParseError import SdpParseError
from sippy.Exceptions.RtpProxyError import RtpProxyError
from sippy.Time.MonoTime import MonoTime

ADDR = {'nh': ('10.7.0.1', 5060), 'op': ('10.7.0.9', 5066), 'c1': ('10.7.1.1', 5061), 'c2': ('10.7.1.2', 5062), 'c3': ('10.7.1.3', 5063),
        'r1': ('10.7.2.1', 5071), 'r2': ('10.7.2.2', 5072), 'r3': ('10.7.2.3', 5073)}
BYADDR = {v: k for k, v in ADDR.items()}
def uri(n): return 'sip:%s@%s:%d' % ((n,) + ADDR[n])
def name_of(u):
    """name of the URI u (any parameters ignored)"""
    u = u.strip().strip('<>').split(';')[0]
    hp = u.split(':', 1)[1].split('@')[-1]
    h, _, p = hp.partition(':')
    return BYADDR.get((h, int(p or 5060)), u)
def sdp(n):
    if not n: return ''
    if n.startswith('g'): return 'text of %s\r\n' % n
    held = n.endswith('~h')
    return 'v=0\r\no=- %s 1 IN IP4 10.9.9.9\r\ns=%s\r\nc=IN IP4 %s\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n' % (
        ''.join(str(ord(c)) for c in n.replace('~h', '').rstrip('rl')[:4]), n.replace('~h', ''), '0.0.0.0' if held else '10.9.9.9')
def sdp_name(t):
    if not t: return ''
    t = str(t)
    if t.startswith('text of '): return t[8:].strip()
    for l in t.splitlines():
        if l.startswith('s='):
            return l[2:].strip() + ('~h' if 'c=IN IP4 0.0.0.0' in t else '') + ('~n' if 'a=nated:yes' in t else '')
    return '?' + t[:20]
TEXT = SipContentType('text/plain'); TEXT.parse()
def ctype(n): return [('Content-Type', 'text/plain' if n.startswith('g') else 'application/sdp')] if n else []
def body(n):
    if not n: return None
    b = MsgBody(sdp(n), TEXT) if n.startswith('g') else MsgBody(sdp(n))
    if n.endswith('!'): b.needs_update = False
    return b
RS = {'': None, 'y1': (16, 'bye'), 'y2': (31, 'odd')}
def reason_hdr(n): return [('Reason', 'Q.850;cause=%d;text="%s"' % RS[n])] if n else []
def reason_name(v):
    if v is None: return ''
    v = str(v)
    for k, x in RS.items():
        if x and 'cause=%d' % x[0] in v.replace(' ', ''): return k
    if v.startswith('SIP;'):
        for c in (488, 500, 502):
            if 'cause=%d' % c in v.replace(' ', ''): return 'h%d' % c
    return '?' + v
def ph(t):
    """reason phrase, if it is one chosen by the harness"""
    return str(t) if str(t).startswith('Px') else ''
X = lambda n: 'sip:%s@10.8.0.1' % n
def xname(v):
    v = str(v)
    return v.split('sip:', 1)[1].split('@')[0] if 'sip:' in v else '?' + v

class D:
    def __init__(self, role, cfg):
        vt.reset()
        self.role, self.cfg = role, cfg
        self.net = Net()
        self.tm, self.gc = new_stm(self.net, self.other)
        self.srv = [s for s in self.net.servers if s.up][0]
        vt.advance(0.25)
        self.t0 = vt.now()
        self.ev, self.seen, self.cur = [], set(), None
        self.inv = {}          # relative cseq -> INVITE datagram we got from the leg
        self.last_out = {}     # (method, relative cseq) -> Msg
        self.base = None
        self.ltag = None; self.rtag = 'p0' if role == 'uas' else 'p1'
        self.cid = 'cid-%d@peer' % random.randrange(10**9); self.nbr = 0
        self.psent = {}        # peer's requests by cs -> datagram
        self.lastreq = None
        self.phase = 'idle'
        self.ua = None
        self.pfirst = None; self.ftags = {}
        self.hooked = cfg.get('hl') or cfg.get('hr')
        self.pend, self.hk = [], []

    def other(self, req, t):
        return (req.genResponse(481, 'Call Leg/Transaction Does Not Exist'), None, None)

    # -- recording
    def ms(self): return int(round((vt.now() - self.t0) * 1000))
    def begin(self, e):
        e.update(t=self.ms(), w=[], ev=[], cb=[], ho=[], exc='')
        if self.hooked:
            e.setdefault('hk', list(self.hk))
            self.modes = list(e['hk'])
        self.cur = e; self.ev.append(e); self.nx = len(vt.exceptions)
    def end(self):
        for d in self.net.take(): self.wire(d)
        if len(vt.exceptions) > self.nx:
            x = vt.exceptions[-1]
            self.cur['exc'] = ('%s: %s in %s' % (x[2], x[3], x[4]))[:200]
            self.cur['tb'] = x[5][-600:]
    def on_event(self, event, ua):
        n = event.name[7:].lower()
        d = event.getData()
        e = {'n': n, 'code': 0, 'sdp': '', 'rs': reason_name(event.reason_rfc3326), 'rd': [], 'mf': -1, 'ch': False, 'ph': '', 'at': self.ms()}
        if n == 'try':
            e['sdp'] = sdp_name(d[3]); e['mf'] = -1 if event.max_forwards is None else event.max_forwards
        elif n in ('ring', 'connect', 'preconnect', 'fail', 'redirect'):
            if d is not None:
                e['code'] = 0 if d[0] == 'ACK' else d[0]
                e['ph'] = ph(d[1])
                if n != 'fail' and len(d) > 2: e['sdp'] = sdp_name(d[2])
                if n == 'redirect': e['rd'] = [xname(x) for x in d[3]] if d[3] else []
            if n == 'fail': e['ch'] = bool(event.challenges)
        elif n == 'disconnect':
            if d is not None: e['rd'] = [xname(d)]
        elif n in ('update', 'info'):
            e['sdp'] = sdp_name(d)
            if n == 'update': e['mf'] = -1 if event.max_forwards is None else event.max_forwards
        if n in ('disconnect', 'fail', 'redirect') and self.phase != 'idle': self.fin = True
        self.cur['ev'].append(e)
    def cb(self, n):
        def f(ua, *a):
            code = a[2] if len(a) > 2 else 0
            if n == 'conn': self.phase = 'conn'
            elif n == 'ring': self.phase = 'ring'
            elif n in ('disc', 'fail'): self.phase = 'end'
            elif n == 'dead': self.phase = 'dead'
            self.cur['cb'].append({'n': n, 'code': code, 'at': self.ms()})
        return f
    # -- media hooks
    def mhook(self, side):
        def f(b, done):
            self.cur['ho'].append({'side': side, 'sdp': sdp_name(b)})
            m = self.modes.pop(0) if self.modes else 'now'
            if m == 'err': raise SdpParseError('hook')
            if m == 'late':
                self.pend.append((side, b, done, self.cur.get('n') or self.cur['in']))
                return None
            return self.rewrite(b, side)
        return f
    def rewrite(self, b, side):
        t = str(b)
        if not t.startswith('text of '):
            b.content = '\r\n'.join(l + side if l.startswith('s=') else l for l in t.splitlines()) + '\r\n'
            b.parsed = False
        if side == 'l': b.needs_update = False
        return b
    def hook(self, code):
        self.begin({'in': 'hook', 'code': code})
        if self.pend:
            side, b, done, _ = self.pend.pop(0)
            if code: self.guarded(lambda: done(None, ex=(SdpParseError if code == 488 else RtpProxyError)('hook')))
            else: self.guarded(lambda: done(self.rewrite(b, side)))
        self.end()
    def wire(self, d):
        if (d.data, d.addr) in self.seen and self.cur['in'] in ('adv', 'repeat'): return
        self.seen.add((d.data, d.addr))
        try: o = self.describe(d)
        except Exception as ex: o = {'k': '?', 'm': 'unreadable %r' % ex}
        o['at'] = int(round((d.t - self.t0) * 1000))
        self.cur['w'].append(o)
    def describe(self, d):
        m = Msg(d.data)
        cs, meth = m.cseq()
        dst = BYADDR.get(d.addr, '%s:%d' % d.addr)
        if m.req:
            if self.base is None and m.method != 'CANCEL': self.base = cs
            rel = cs - self.base
            if self.role == 'uac' and self.ltag is None: self.ltag, self.cid = m.ftag(), m.callid()
            bad = []
            if m.ftag() != self.ltag: bad.append('ftag')
            if m.callid() != self.cid: bad.append('cid')
            if meth != m.method: bad.append('cseq method')
            o = {'k': 'q', 'm': m.method, 'cs': rel, 'bad': ','.join(bad)}
            self.last_out[(m.method, rel)] = m
            if m.method in ('CANCEL', 'ACK'):
                o.update(sdp=sdp_name(m.body), rs=reason_name(m.h1('reason')) if m.method == 'CANCEL' else '', tgt='-', dst='-', rts=[], tt='-', mf=-1, au='', rd='', num='')
                return o
            if m.method == 'INVITE': self.inv[rel] = d.data
            au = '401' if m.hs('authorization') else ''
            if m.hs('proxy-authorization'): au += '407'
            rd = m.h1('refer-to') or m.h1('also')
            rts = []
            for h in m.hs('route'): rts += [name_of(x) for x in h.split(',')]
            o.update(tgt=name_of(m.ruri), dst=dst, rts=rts, tt=m.ttag() or '', sdp=sdp_name(m.body), rs=reason_name(m.h1('reason')),
                     mf=int(m.h1('max-forwards', '-1')) if m.method == 'INVITE' else -1, au=au, rd=xname(rd) if rd else '',
                     num=self.numbers(m) if m.method == 'INVITE' and not m.ttag() else '')
            return o
        o = {'k': 'r', 'm': meth, 'cs': cs, 'code': m.code, 'sdp': sdp_name(m.body), 'rs': reason_name(m.h1('reason')), 'bad': ''}
        con = [x for x in m.hs('contact')]
        o['ct'] = meth == 'INVITE' and any('10.8.0.1' not in x for x in con)
        o['rd'] = [xname(x) for x in con if '10.8.0.1' in x]
        o['ph'] = ph(m.reason); o['ch'] = bool(m.hs('www-authenticate') or m.hs('proxy-authenticate'))
        if meth == 'INVITE' and m.code >= 200: self.ftags[cs] = m.ttag()
        if meth == 'INVITE' and self.role == 'uas' and m.code > 100 and cs == self.pfirst:
            if self.ltag is None: self.ltag = m.ttag()
            if m.ttag() is None or (m.ttag() != self.ltag and m.code != 487): o['bad'] = 'totag'
        return o

    def numbers(self, m):
        f = m.h1('from', '')
        user = lambda u: u.split('sip:', 1)[-1].split('@')[0] if '@' in u else ''
        return '|'.join([user(m.ruri), user(f), f.split('"')[1] if '"' in f else f.split('<')[0].strip(), ','.join(sorted(m.hs('x-extra')))])
    # -- controller
    def mk(self, **kw):
        c = self.cfg
        args = dict(conn_cbs=(self.cb('conn'),), disc_cbs=(self.cb('disc'),), fail_cbs=(self.cb('fail'),), ring_cbs=(self.cb('ring'),), dead_cbs=(self.cb('dead'),))
        if c['auth']: args.update(username='user', password='pass')
        if c['cred']: args['credit_time'] = c['cred'] / 1000.0
        if c['exp']: args['expire_time'] = c['exp'] / 1000.0
        if c['nop']: args['no_progress_time'] = c['nop'] / 1000.0
        if self.role == 'uac': args['nh_address'] = ADDR['nh']
        ua = UA(self.gc, self.on_event, **args)
        if c['nor'] and self.role == 'uac': ua.no_reply_time = c['nor'] / 1000.0
        if c['ka']: ua.kaInterval = c['ka'] / 1000.0
        if c['op']: ua.outbound_proxy = ADDR['op']
        if c['pa']: ua.pass_auth = True
        if c.get('hl'): ua.on_local_sdp_change = self.mhook('l')
        if c.get('hr'): ua.on_remote_sdp_change = self.mhook('r')
        self.ua = ua
    def guarded(self, f):
        try: f()
        except Exception as ex:
            import traceback
            vt.exceptions.append((vt.clk.now, '', type(ex).__name__, str(ex), traceback.extract_tb(ex.__traceback__)[-1].name, traceback.format_exc()))
        vt.pump()
    def ctl(self, n, code=0, s='', rs='', rd='', mf=-1, pht=''):
        e = {'ph': pht, 'in': 'ctl', 'n': n, 'code': code, 'sdp': s, 'rs': rs, 'rd': rd, 'mf': mf}
        self.begin(e)
        b = body(s)
        if n == 'try':
            self.mk()
            ev = CCEventTry((SipCallId(), 'caller', 'callee', b, None, 'A Caller'))
            ev.max_forwards = None if mf < 0 else mf
            self.phase = 'try'
        elif n == 'ring': ev = CCEventRing((code, pht or 'Ring', b) if code else None)
        elif n == 'connect': ev = CCEventConnect((code, pht or 'OK', b))
        elif n == 'preconnect': ev = CCEventPreConnect((code, pht or 'OK', b))
        elif n == 'fail': ev = CCEventFail((code, pht or 'Failed') if code else None)
        elif n == 'redirect': ev = CCEventRedirect((code, pht or 'Moved', b, tuple(SipAddress(X(x)) for x in rd.split(','))) if code else None)
        elif n == 'disconnect': ev = CCEventDisconnect(SipReferTo('<%s>' % X(rd)) if rd else None)
        elif n == 'update':
            ev = CCEventUpdate(b); ev.max_forwards = None if mf < 0 else mf
        elif n == 'info': ev = CCEventInfo(b)
        if rs: ev.reason_rfc3326 = SipReason('Q.850;cause=%d;text="%s"' % RS[rs])
        self.guarded(lambda: self.ua.recvEvent(ev))
        self.end()
    def hangup(self):
        self.begin({'in': 'hangup'})
        self.guarded(self.ua.disconnect)
        self.end()
    def credit(self, k, v):
        self.begin({'in': 'credit', 'key': k, 'v': v})
        now = MonoTime()
        self.guarded(lambda: self.ua.resetCreditTime(now, {k: now.getOffsetCopy((v - self.ms()) / 1000.0) if v else None}))
        self.end()
    # -- peer
    def resp(self, m, cs, code, s='', tag='p1', con='', rr=(), chal='', rd='', rs='', pht=''):
        e = {'in': 'resp', 'm': m, 'cs': cs, 'code': code, 'sdp': s, 'tag': tag, 'con': con, 'rr': [dict(u=u, lr=lr) for u, lr in rr],
             'chal': chal, 'rd': rd, 'rds': (rd.split(',') if code == 300 else rd.split(',')[:1]) if rd else [], 'rs': rs, 'ph': pht}
        self.begin(e)
        q = self.inv.get(cs) if m == 'INVITE' else None
        if q is None:
            o = self.last_out.get((m, cs))
            if o is None: self.end(); return
            q = build('%s %s SIP/2.0' % (o.method, o.ruri), [(k, v) for k, v in o.h], o.body)
        ex = []
        if chal:
            alg = 'algorithm=MD5,' if chal == 'ok' else 'algorithm=AKAv1-MD5,'
            ex.append(('WWW-Authenticate' if code == 401 else 'Proxy-Authenticate',
                       'Digest realm="r",%snonce="deadbeef%d"' % (alg, len(self.ev))))
        for u, lr in rr: ex.append(('Record-Route', '<%s%s>' % (uri(u), ';lr' if lr else '')))
        for x in rd.split(',') if rd else (): ex.append(('Contact', '<%s>' % X(x)))
        ex += ctype(s)
        ex += reason_hdr(rs)
        ex.append(('X-N', str(len(self.ev))))
        deliver(self.srv, reply_to(q, code, pht or 'Reason', totag=tag, extra=ex, body=sdp(s), contact='<%s>' % uri(con) if con else None), ADDR['nh'])
        self.end()
    def req(self, m, cs, s='', match='ok', rs='', rd='', mf=70, exp=0, con='c1', rr=(), alg=''):
        """the peer sends a request with sequence number cs"""
        first = self.role == 'uas' and self.ua is None and m == 'INVITE'
        e = {'in': 'req', 'm': m, 'cs': cs, 'sdp': s, 'match': match, 'rs': rs, 'rd': rd, 'mf': mf, 'exp': exp, 'con': con,
             'rr': [dict(u=u, lr=lr) for u, lr in rr], 'first': first}
        self.begin(e)
        if first: self.pfirst = cs
        self.nbr += 1
        br = 'z9hG4bK-p%d' % self.nbr
        ft, tt, cid = self.rtag, self.ltag, self.cid
        if match == 'ftag': ft = 'zz'
        elif match == 'ttag': tt = 'zz'
        elif match == 'nottag': tt = None
        elif match == 'cid': cid = 'other@peer'
        h = [('Via', 'SIP/2.0/UDP 10.7.0.1:5060;branch=' + br), ('From', '<sip:caller@10.7.0.1>;tag=' + ft),
             ('To', '<sip:callee@10.0.0.1>' + ((';tag=' + tt) if tt and not first else '')), ('Call-ID', cid), ('CSeq', '%d %s' % (cs, m)),
             ('Max-Forwards', str(mf))]
        if con: h.append(('Contact', '<%s>' % uri(con)))
        for u, lr in rr: h.append(('Record-Route', '<%s%s>' % (uri(u), ';lr' if lr else '')))
        if exp: h.append(('Expires', str(exp)))
        if m == 'REFER' and rd: h.append(('Refer-To', '<%s>' % X(rd)))
        if m == 'BYE' and rd: h.append(('Also', '<%s>' % X(rd)))
        h += ctype(s)
        h += reason_hdr(rs)
        data = build('%s sip:callee@10.0.0.1:5060 SIP/2.0' % m, h, sdp(s))
        self.psent[(m, cs)] = (data, br)
        if first:
            self.mk(); self.phase = 'try'
            ua = self.ua
            save = self.tm.req_cb
            self.tm.req_cb = lambda req, t: ua.recvRequest(req, t)
            deliver(self.srv, data, ADDR['nh'])
            self.tm.req_cb = save
        else:
            deliver(self.srv, data, ADDR['nh'])
        self.end()
    def repeat(self, m, cs):
        """the peer retransmits a request"""
        if (m, cs) not in self.psent: return
        self.begin({'in': 'repeat', 'm': m, 'cs': cs})
        deliver(self.srv, self.psent[(m, cs)][0], ADDR['nh'])
        self.end()
    def ack(self, cs, s=''):
        if ('INVITE', cs) not in self.psent: return
        data, br = self.psent[('INVITE', cs)]
        m = Msg(data)
        self.begin({'in': 'ack', 'cs': cs, 'sdp': s})
        self.nbr += 1
        ok = self.codes(cs)
        h = [('Via', 'SIP/2.0/UDP 10.7.0.1:5060;branch=' + (br if ok and ok >= 300 else 'z9hG4bK-p%d' % self.nbr)), ('From', m.h1('from')),
             ('To', '<sip:callee@10.0.0.1>;tag=%s' % self.totag(cs)), ('Call-ID', m.callid()), ('CSeq', '%d ACK' % cs)]
        h += ctype(s)
        deliver(self.srv, build('ACK sip:callee@10.0.0.1:5060 SIP/2.0', h, sdp(s)), ADDR['nh'])
        self.end()
    def codes(self, cs):
        for e in reversed(self.ev):
            for o in e['w']:
                if o.get('k') == 'r' and o['m'] == 'INVITE' and o['cs'] == cs and o['code'] >= 200: return o['code']
    def totag(self, cs): return self.ftags.get(cs) or self.ltag or 'none'
    def cancel(self, cs, rs=''):
        if ('INVITE', cs) not in self.psent: return
        data, br = self.psent[('INVITE', cs)]
        m = Msg(data)
        self.begin({'in': 'cancel', 'cs': cs, 'rs': rs})
        h = [('Via', 'SIP/2.0/UDP 10.7.0.1:5060;branch=' + br), ('From', m.h1('from')), ('To', m.h1('to')), ('Call-ID', m.callid()),
             ('CSeq', '%d CANCEL' % cs), ('X-N', str(len(self.ev)))] + reason_hdr(rs)
        deliver(self.srv, build('CANCEL sip:callee@10.0.0.1:5060 SIP/2.0', h), ADDR['nh'])
        self.end()
    def adv(self, dt):
        """dt ms pass"""
        self.begin({'in': 'adv', 'dt': dt})
        vt.advance(dt / 1000.0 + 1e-6)       # what is due now is due
        self.end()
        self.cur['t'] = self.ms()
    def live(self):
        return sorted(self.inv)

CFG0 = dict(exp=0, nop=0, nor=0, cred=0, ka=0, op=False, auth=False, pa=False, nh='nh', num='callee|caller|A Caller|', hl=False, hr=False)
def rand_cfg(r, role, lim=False):
    c = dict(CFG0)
    if r.random() < .5 or lim and r.random() < .5: c['exp'] = r.choice([20011, 60013, 7003])
    if r.random() < .4: c['nop'] = r.choice([5017, 10019, 30011, 61001])
    if role == 'uac' and (r.random() < .4 or lim and r.random() < .5): c['nor'] = r.choice([3023, 6029, 31013, 33001])
    if r.random() < .4: c['cred'] = r.choice([15031, 45037, 120041])
    if r.random() < .15: c['ka'] = r.choice([10053, 40061])
    c['op'] = r.random() < .15
    c['auth'] = role == 'uac' and r.random() < .4
    c['pa'] = role == 'uac' and r.random() < .15
    return c

class Run:
    """random but mostly sensible behaviour of controller and peer"""
    def __init__(self, seed, opt):
        self.r = r = random.Random(seed)
        random.seed(seed)
        self.opt = opt
        self.role = r.choice(['uac', 'uas'])
        self.cfg = rand_cfg(r, self.role, opt.get('lim'))
        self.hooks = opt.get('hooks')
        if self.hooks: self.cfg['hl'], self.cfg['hr'] = r.choice([(True, True), (True, True), (True, False), (False, True)])
        self.d = D(self.role, self.cfg)
        self.pcs = r.choice([1, 100, 5000])
        self.nb = 0
        self.done = set()        # our INVITEs that are over
        self.unacked = []        # peer's INVITEs with a final answer and no ACK yet
        self.pre = False         # a connect is owed: the offer of the peer has not been answered
        self.acked = set()
    def sd(self, p=.7, bang=False):
        if self.r.random() > p: return ''
        self.nb += self.r.random() < .6
        if self.hooks and self.r.random() < .08: return 'g%d' % self.nb
        return 'ab'[self.r.random() < .5] + str(self.nb) + ('!' if bang and self.hooks and self.r.random() < .1 else '')
    def rs(self): return self.r.choice(['', '', '', 'y1', 'y2'])
    def dt(self):
        k = self.r.random()
        return self.r.choice([1, 200, 500]) if k < .5 else self.r.choice([1007, 3301, 5003]) if k < .85 else self.r.choice([10007, 20021, 33037])
    def go(self, steps):
        d, r = self.d, self.r
        self.late = False
        if self.hooks: self.modes()
        if self.role == 'uac':
            k = r.random()
            if k < .03: d.mk(); self.emptied()
            else:
                late = r.random() < self.opt.get('late', .1)
                self.late = late
                d.ctl('try', s='' if late else 'a0', mf=r.choice([-1, 10, 69]), rs=self.rs())
        else:
            self.late = r.random() < .15
            rr = self.routes()
            d.req('INVITE', self.pcs, s='' if self.late else 'b0', mf=r.choice([70, 5]), exp=r.choice([0, 0, 0, 40]), con=r.choice(['c1', 'c2']), rr=rr, rs=self.rs())
        happy = r.random() < (.85 if self.hooks else .6)
        for i in range(steps):
            if d.phase == 'dead' and r.random() < .5: break
            self.one(happy)
        while d.pend and r.random() < .9: d.hook(r.choice([0, 0, 488]))
        # let everything run out
        if r.random() < .8:
            if d.phase not in ('end', 'dead') and r.random() < .7: d.hangup()
            for _ in range(r.choice([1, 3])): d.adv(r.choice([33009, 100003]))
            if r.random() < .5: d.adv(302023); d.adv(301007)
            if r.random() < .5: d.req('BYE', self.nextcs())
            if r.random() < .3: d.ctl('disconnect')
        return d.ev
    def emptied(self):
        d, r = self.d, self.r
        d.ctl(r.choice(['redirect', 'update', 'info', 'connect']), code=0) if r.random() < .5 else None
        if d.cur is None: d.begin({'in': 'adv', 'dt': 0}); d.end()
        d.ctl(r.choice(['disconnect', 'fail']))
    def routes(self):
        r = self.r
        k = r.random()
        if k < .6: return ()
        n = r.choice([1, 2, 3])
        rr = [('r%d' % (i + 1), True) for i in range(n)]
        if r.random() < .3: rr = [(u, False) for u, _ in rr]
        return rr
    def nextcs(self):
        self.pcs += self.r.choice([1, 1, 1, 2, 10]); return self.pcs
    def one(self, happy):
        d, r = self.d, self.r
        ph = d.phase
        # deadlines which fall on the same instant may come in any order: have none
        if d.ev and d.ev[-1]['in'] != 'adv' and any(o.get('at') == d.ms() and o.get('m') == 'INVITE' and (o['k'] == 'q' or o['k'] == 'r' and o['code'] >= 200)
                                                    for o in d.ev[-1]['w']): d.adv(1)
        # what the peer owes
        for e in d.ev[-1]['w'] if d.ev else ():
            if e.get('k') == 'r' and e['m'] == 'INVITE' and e['code'] >= 200 and e['cs'] not in self.acked: self.unacked.append(e['cs'])
        if any(x['n'] == 'preconnect' for x in (d.ev[-1]['ev'] if d.ev else ())): self.pre = True
        if d.ev and any(x['n'] == 'conn' for x in d.ev[-1]['cb']): self.pre = False
        if d.ev and any(x['n'] in ('disc', 'fail') for x in d.ev[-1]['cb']): self.pre = False
        k = r.random()
        if self.unacked and k < .5:
            cs = self.unacked.pop(r.randrange(len(self.unacked)))
            self.acked.add(cs)
            return d.ack(cs, self.ackbody(cs))
        if self.hooks: self.modes()
        if self.pre and not d.pend and k < .6: return d.ctl('connect', code=200, s=self.sd(.7, True))
        if d.pend and r.random() < .5: return d.hook(r.choice([0] * 8 + [488, 502]))
        k = r.random()
        live = [c for c in d.live() if c not in self.done]
        if self.opt.get('lim') and ph in ('try', 'ring') and k < .85:
            if r.random() < .6: return d.adv(self.dt())
            if self.role == 'uac': return self.reply(live[-1] if live else 0, r.choice([100, 100, 180, 180, 183, 200]))
            return self.ctl(r.choice(['ring', 'ring', 'ring', 'preconnect' if self.late else 'connect']))
        if self.role == 'uac' and ph in ('try', 'ring'):
            if happy and k < .5:
                c = live[-1] if live else 0
                return self.reply(c, r.choice([100, 180, 183, 200, 200]))
            if k < .7 and d.live(): return self.reply(r.choice(d.live()), self.code())
            if k < .8: return d.adv(self.dt())
            if k < .92: return self.anyctl()
            if k < .95: return d.hangup()
            return self.anyreq()
        if self.role == 'uas' and ph in ('try', 'ring'):
            if happy and k < .5:
                n = r.choice(['ring', 'ring', 'connect', 'preconnect' if self.late or r.random() < .2 else 'connect'])
                return self.ctl(n)
            if k < .6: return d.adv(self.dt())
            if k < .8: return self.anyctl()
            if k < .85: return d.cancel(r.choice([c for m, c in d.psent if m == 'INVITE']), self.rs())
            if k < .88: return d.hangup()
            return self.anyreq()
        if ph == 'idle': return d.adv(self.dt())
        # connected, or ended
        if k < .25 and live: return self.reply(r.choice(live), self.code(.6))
        if k < .40: return self.anyctl() if not self.late or self.conn() else d.adv(1)
        if k < .70: return self.anyreq()
        if k < .76 and ('INVITE' in [m for m, c in d.psent]): return d.cancel(r.choice([c for m, c in d.psent if m == 'INVITE']), self.rs())
        if k < .80:
            oth = [x for x in d.last_out if x[0] in ('REFER', 'INFO', 'BYE')]
            if oth:
                m, c = r.choice(oth)
                return d.resp(m, c, r.choice([100, 200, 202, 403, 481]), tag='p1')
        if k < .83: return d.credit(r.choice([0, 1, 2]), r.choice([0, d.ms() + r.choice([1013, 9041, 60089])]))
        if k < .84: return d.hangup()
        if k < .87 and d.psent:
            m, c = r.choice(list(d.psent))
            if d.ms() - self.tsent(m, c) < 30000: return d.repeat(m, c)
        return d.adv(self.dt())
    def tsent(self, m, c):
        for e in reversed(self.d.ev):
            if e['in'] == 'req' and e['m'] == m and e['cs'] == c: return e['t']
        return 0
    def conn(self): return self.d.phase == 'conn'
    def ackbody(self, cs): return self.sd(.9) if self.late else self.sd(.1)
    def code(self, p2=.3):
        r = self.r
        if r.random() < p2: return r.choice([200, 200, 202])
        return r.choice([100, 180, 181, 183, 300, 301, 302, 305, 401, 401, 407, 407, 403, 404, 408, 481, 486, 487, 500, 503, 600])
    def reply(self, cs, code):
        d, r = self.d, self.r
        kw = dict(tag='p1', s='', con='', rr=())
        if 100 < code < 200 and r.random() < .4: kw['s'] = self.sd()
        if 200 <= code < 300:
            kw.update(s=self.sd(.8), con=r.choice(['c1', 'c2', '']), rr=self.routes())
            if d.phase == 'conn': kw.update(con='c1')
            if self.early() and r.random() < .04: kw['tag'] = ''
        if code in (401, 407): kw['chal'] = r.choice(['ok', 'ok', 'ok', 'unsup', ''])
        if code in (300, 301, 302) and r.random() < .7: kw['rd'] = r.choice(['x1', 'x1,x2'])
        if code >= 300: kw['rs'] = self.rs()
        if code >= 200: self.done.add(cs)
        if r.random() < .3: kw['pht'] = 'Px%d' % r.randrange(100)
        d.resp('INVITE', cs, code, **kw)
    def early(self): return self.d.phase in ('try', 'ring', 'end')
    def ctl(self, n):
        d, r = self.d, self.r
        if self.held(n): return d.hook(r.choice([0] * 6 + [488, 502]))
        kw = dict(rs=self.rs())
        if n == 'ring': kw.update(code=r.choice([180, 183, 100, 181, 0])); kw['s'] = self.sd(.4, True) if kw['code'] else ''
        elif n in ('connect', 'preconnect'): kw.update(code=r.choice([200, 202]), s=self.sd(.9, True))
        elif n == 'fail': kw.update(code=r.choice([0, 403, 404, 486, 500, 603]))
        elif n == 'redirect':
            kw.update(code=r.choice([0, 301, 302]) if not self.linked() or self.updating() == 'S' else 0)
            if kw['code']: kw['rd'] = 'x3'
        elif n == 'disconnect': kw.update(rd=r.choice(['', '', 'x4']))
        elif n == 'update': kw.update(s=self.sd(1, True), mf=r.choice([-1, 70, 0, 1, 5]))
        elif n == 'info': kw.update(s=self.sd(.8))
        if kw.get('code') and r.random() < .3: kw['pht'] = 'Px%d' % r.randrange(100)
        d.ctl(n, **kw)
    def modes(self):
        r = self.r
        self.d.hk = [r.choices(['now', 'late', 'err'], [5, 4, .5])[0] for _ in range(3)]
    def held(self, n):
        """would a sensible controller hold event n back while the media are being worked on?"""
        p = self.d.pend
        if not p or n in ('disconnect', 'info'): return False
        if n == 'fail' and self.d.phase in ('try', 'ring') and self.role == 'uas': return False
        if all(x[0] == 'l' and x[3] == 'ring' for x in p) and self.role == 'uas' and self.d.phase in ('try', 'ring'): return n == 'update'
        if all(x[0] == 'r' and x[3] == 'req' for x in p) and self.d.phase == 'conn': return n != 'update'
        return True
    def linked(self):
        """the call has been answered"""
        return self.d.phase == 'conn' or any(e['in'] == 'ctl' and e['n'] in ('connect', 'preconnect') for e in self.d.ev) or \
            any(x['n'] in ('connect', 'preconnect') for e in self.d.ev for x in e['ev'])
    def updating(self):
        for e in reversed(self.d.ev):
            if any(x['n'] == 'update' for x in e['ev']): return 'S'
            if e['in'] == 'ctl' and e['n'] in ('connect', 'fail', 'redirect'): return ''
        return ''
    def anyctl(self):
        r = self.r
        w = ['ring', 'connect', 'fail', 'redirect', 'disconnect', 'update', 'info', 'preconnect']
        p = [1, 2, 1, .5, .7, 4, 2, .2] if self.d.phase == 'conn' else [3, 2, 1, 1, 1, .5, .5, .5]
        n = r.choices(w, p)[0]
        if n in ('update',) and (self.pre or self.unconn()): n = 'info'
        if n == 'redirect' and self.linked() and self.updating() != 'S': n = 'ring'
        self.ctl(n)
    def unconn(self): return self.d.phase != 'conn'
    def anyreq(self):
        d, r = self.d, self.r
        m = r.choices(['BYE', 'INVITE', 'INFO', 'OPTIONS', 'REFER', 'UPDATE', 'MESSAGE', 'PRACK'], [1, 5, 2, 1, .7, 1, .5, .3])[0]
        if m == 'INVITE' and (self.pre or (self.late and self.unconn())): m = 'INFO'
        cs = self.nextcs() if r.random() < .88 else max(1, self.pcs - r.choice([0, 1, 5]))
        match = 'ok' if r.random() < .9 else r.choice(['ftag', 'ttag', 'cid', 'nottag'])
        if (m, cs) in d.psent: cs = self.nextcs()
        s = ''
        if m == 'INVITE': s = self.sd(.85)
        elif m == 'INFO': s = self.sd(.5)
        d.req(m, cs, s=s, match=match, rs=self.rs() if m in ('BYE', 'INVITE', 'INFO') else '', rd=r.choice(['', 'x5']) if m in ('BYE', 'REFER') else '',
              mf=r.choice([70, 3]), exp=r.choice([0, 0, 20]) if m == 'INVITE' else 0)

def walk(s):
    d = None
    for e in s['walk']:
        k = e['in']
        if k == 'cfg':
            random.seed(1)
            d = D(e['role'], e['cfg'])
            continue
        d.hk = e.get('hk', [])
        if k == 'hook': d.hook(e['code'])
        elif k == 'ctl':
            if e['n'] != 'try' and d.ua is None: d.mk()
            d.ctl(e['n'], code=e['code'], s=e['sdp'], rs=e['rs'], rd=e['rd'], mf=e['mf'])
        elif k == 'hangup': d.hangup()
        elif k == 'credit': d.credit(e['key'], d.ms() + e['dv'] if e['dv'] else 0)
        elif k == 'resp':
            d.resp(e['m'], e['cs'], e['code'], s=e['sdp'], tag=e['tag'], con=e['con'], rr=[(x['u'], x['lr']) for x in e['rr']], chal=e['chal'], rd=e['rd'], rs=e['rs'], pht=e.get('ph', ''))
        elif k == 'req': d.req(e['m'], e['cs'], s=e['sdp'], match=e['match'], rs=e['rs'], rd=e['rd'], mf=e['mf'], exp=e['exp'], con=e['con'], rr=[(x['u'], x['lr']) for x in e['rr']])
        elif k == 'repeat': d.repeat(e['m'], e['cs'])
        elif k == 'ack': d.ack(e['cs'], e['sdp'])
        elif k == 'cancel': d.cancel(e['cs'], e['rs'])
        elif k == 'adv': d.adv(e['dt'])
        d.hk = []
        if k != 'adv': d.adv(7)
    # time runs out
    for dt in (33009, 301007, 301007): d.adv(dt)
    return {'ev': d.ev, 'role': d.role, 'cfg': d.cfg}

def run_sched(s):
    if 'walk' in s: return walk(s)
    R = Run(s['seed'], s)
    ev = R.go(s['steps'])
    return {'ev': ev, 'role': R.role, 'cfg': R.cfg}
