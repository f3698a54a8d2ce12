"""Driver: the back-to-back user agent (real call controller, legs, transaction layer, accounting and operator interface)
between callers, callees, a RADIUS server and an operator, all played here."""
import vt, random, time, os, sys
import drv_ua
from drv_ua import D, ADDR, BYADDR, sdp, uri, reason_hdr, X
from sipnet import Net, Msg, new_stm, deliver, build, GC
ADDR.update({'d1': ('10.7.3.1', 5060), 'd2': ('10.7.3.2', 5072), 'd3': ('10.7.3.3', 5060), 'nh2': ('10.7.0.2', 5060), 'bad': ('10.7.9.9', 5060)})
BYADDR.update({v: k for k, v in ADDR.items()})
HOSTS = {v[0]: k for k, v in ADDR.items()}
import sippy.External_command as _ec
class _NoWorker:
    def __init__(self, *a, **k): pass
_ec._Worker = _NoWorker
from sippy.RadiusAuthorisation import RadiusAuthorisation
from sippy.External_command import External_command
from sippy.b2bua import CallMap, CallController
from sippy.B2B.Route import B2BRoute
from sippy.B2B.SimpleAPI import B2BSimpleAPI
import hashlib, calendar

class Quit(BaseException): pass
def _quit(kind):
    def f(*a): raise Quit(kind)
    return f
# the process replacing itself, or leaving its loop for good, ends the run
os.execv = _quit('restart'); os.chdir = lambda *a: None
_brk = vt.ED2.breakLoop
def _break(*a, **k):
    if sys._getframe(1).f_code.co_name == 'procrastinate': return _brk(*a, **k)
    raise Quit('stop')
vt.ED2.breakLoop = _break

def avs(data):
    """attributes of a RADIUS request, as handed to the client program"""
    r = {}
    for x in data[1:]:
        a, v = x.split('=', 1)
        v = v.strip('"')
        if a == 'Cisco-AVPair' or v.startswith(a + '='): 
            n, w = v.split('=', 1)
            a, v = n, w
        r[a] = v
    return r
def rtime(s):
    """ms since the start of the epoch of the harness"""
    p = s.split()         # HH:MM:SS.mmm GMT Tue Nov 14 2023
    h, m, x = p[0].split(':')
    d = calendar.timegm(time.strptime('%s %s %s' % (p[4], p[3], p[5]), '%d %b %Y'))
    sec, ms = x.split('.')
    return (d + int(h) * 3600 + int(m) * 60 + int(sec)) * 1000 + int(ms)

class Peer(D):
    """the far end of one leg"""
    def __init__(self, hub, role, call, leg):
        self.hub, self.role, self.call, self.leg = hub, role, call, leg
        self.net, self.tm, self.gc, self.srv = hub.net, hub.tm, hub.gc, hub.srv
        self.t0 = hub.t0
        self.ev, self.seen, self.cur = hub.ev, set(), None
        self.inv, self.last_out, self.base, self.ltag = {}, {}, None, None
        self.rtag = 'p0' if role == 'uas' else 'p1'
        self.cid = None; self.nbr = 0
        self.psent = {}; self.pfirst = None; self.ftags = {}
        self.phase = 'idle'
        self.ua = True        # (the leg's user agent belongs to the code)
        self.w = []
        self.finals = {}      # what the leg answered to our INVITEs
        self.done = set()
        self.acked = set()
        self.oks = {}         # our answers to the leg's INVITEs
        self.pcs = random.choice([1, 100])
    def begin(self, e):
        e.update(call=self.call, leg=self.leg)
        self.hub.begin(e); self.cur = e
    def end(self): self.hub.end()
    def saw(self, d, e):
        self.cur = e
        if (d.data, d.addr) in self.seen and e['in'] in ('adv', 'repeat'): return None
        self.seen.add((d.data, d.addr))
        try: o = self.describe(d)
        except Exception as ex: o = {'k': '?', 'm': 'unreadable %r' % ex}
        o['at'] = int(round((d.t - self.t0) * 1000))
        self.w.append(o)
        if o['k'] == 'r' and o['m'] == 'INVITE' and o['code'] >= 200: self.finals[o['cs']] = o
        if o['k'] == 'q' and o['m'] == 'BYE': self.byed = True
        return o
    byed = False
    def codes(self, cs): return self.finals.get(cs, {}).get('code')
    def resp(self, m, cs, code, **kw):
        if code >= 200: self.done.add((m, cs))
        if m == 'INVITE' and code >= 200: self.oks[cs] = code
        D.resp(self, m, cs, code, **kw)

class Radius(RadiusAuthorisation): hub = None
class WI:
    def cancel(self): self.cancelled = True
def _process_command(self, data, cb, *params):
    self.hub.radius(self, list(data), cb, params)
    return WI()
External_command.process_command = _process_command

class CLI:
    def __init__(self): self.out = []
    def send(self, s): self.out.append(s)
    def close(self): self.out.append(None)

def enc_route(r):
    """the route as the RADIUS server writes it"""
    host = 'sip-ua' if r['d'] == 'src' else '%s:%d' % ADDR[r['d']] if ADDR[r['d']][1] != 5060 else ADDR[r['d']][0]
    s = host if r['ncld'] == '=' else '%s@%s' % (r['ncld'], host)
    if r['ncli'] != '=': s += ';cli=' + r['ncli']
    if r['ncnam'] != '=': s += ';cnam=' + r['ncnam'].replace(' ', '%20')
    if r['cred'] != -2: s += ';credit-time=%d' % r['cred']
    if r['exp'] != -1: s += ';expires=%d' % r['exp']
    if r['nop']: s += ';np_expires=%d' % r['nop']
    if r['nor']: s += ';nr_expires=%d' % r['nor']
    if r['hs']: s += ';hs_scodes=' + ','.join(map(str, r['hs']))
    if not r['pa']: s += ';auth=' + ('user:pass' if r['user'] else 'nopass')
    if r['fof']: s += ';forward_on_fail=1'
    if r['op']: s += ';op=%s:%d' % ADDR['op']
    if r['bill']: s += ';bill-to=' + r['bill']
    for x in r['nxh'].split(',') if r['nxh'] else (): s += ';ash=X-Extra%%3A%%20%s' % x
    if r['gt']: s += ';gt=%d,%d' % tuple(r['gt'])
    return s

class Hub:
    def __init__(self, cfg):
        vt.reset()
        self.cfg = cfg
        self.net = Net()
        g = GC()
        self.gc = g
        g.update(auth_enable=cfg['authen'], digest_auth=cfg['digest'], digest_auth_only=cfg['donly'], acct_enable=cfg['acct'],
                 start_acct_enable=cfg['start'], precise_acct=cfg['precise'], keepalive_ans=cfg['kaA'] / 1000.0,
                 keepalive_orig=cfg['kaO'] / 1000.0, _uaname='ua', _accept_ips={v[0] for k, v in ADDR.items() if k != 'bad'}, _pass_headers=['x-extra'],
                 hide_call_id=cfg['hide'], _my_pid=1, _orig_cwd='/', _orig_argv=['x'])
        if cfg['alive']: g['alive_acct_int'] = cfg['alive'] // 1000
        if cfg['maxcred'] >= 0: g['max_credit_time'] = cfg['maxcred']
        for k in ('trin', 'trout'):
            if cfg[k]: g['static_tr_' + k[2:]] = cfg['re' + k]
        if cfg['static']: g['_static_routes'] = {'': B2BRoute(enc_route(cfg['static'][0]))}
        self.rad = Radius(g); self.rad.hub = self
        g['_radius_client'] = self.rad
        self.cmap = CallMap(g)
        g['_cmap'] = self.cmap
        self.tm, _ = new_stm(self.net, self.cmap.recvRequest, g)
        self.srv = [s for s in self.net.servers if s.up][0]
        self.cli = B2BSimpleAPI.__new__(B2BSimpleAPI); self.cli.global_config = g
        vt.advance(0.25)
        self.t0 = vt.now()
        self.base_timers = vt.live_timers()
        self.ev, self.cur = [], None
        self.calls = {}        # number -> {'a': Peer, '1': Peer, ...}
        self.bycid = {}        # call-id -> (call, leg)
        self.asked = {}        # call -> (cb, params)
        self.rads = []
        self.strays = 0; self.sseen = set()
    def ms(self): return int(round((vt.now() - self.t0) * 1000))
    def begin(self, e):
        e.update(t=self.ms(), w=[], out=[], lst=[], exc='', odd='', halt='')
        self.cur = e; self.ev.append(e); self.nx = len(vt.exceptions)
    def end(self):
        e = self.cur
        for d in self.net.take(): self.route(d)
        for i in sorted(self.calls):
            for x, p in self.calls[i].items():
                if p.w: e['w'].append({'call': i, 'leg': x, 'w': p.w}); p.w = []
        e['t'] = self.ms()
        for cid, sname, *_ in self.active():
            i = self.bycid.get(cid)
            e['lst'].append({'call': i[0] if i else 0, 'st': sname})
        if len(vt.exceptions) > self.nx:
            x = vt.exceptions[-1]
            e['exc'] = ('%s: %s in %s' % (x[2], x[3], x[4]))[:200]
            e['tb'] = x[5][-600:]
    def active(self):
        try: return self.cmap.listActiveCalls()
        except Exception as ex: self.cur['exc'] = 'list: %r' % ex; return ()
    def guarded(self, f): D.guarded(self, f)
    def route(self, d):
        try: m = Msg(d.data)
        except Exception: self.cur['odd'] = 'unreadable'; return
        cid = m.callid()
        if cid not in self.bycid and m.req and m.method == 'INVITE':
            # a new originating leg
            i = self.parent(cid)
            if i is not None:
                x = cid.rsplit('_', 1)[1]
                self.bycid[cid] = (i, x)
                self.calls[i][x] = Peer(self, 'uac', i, x)
        if cid not in self.bycid: self.cur['odd'] = 'stray message: %s' % m.start[:60]; return
        i, x = self.bycid[cid]
        if x == 's':
            if (d.data, d.addr) in self.sseen: return
            self.sseen.add((d.data, d.addr))
            self.cur['w'].append({'call': 0, 'leg': 's', 'w': [{'k': 'r', 'm': m.cseq()[1], 'code': m.code}]}); return
        self.calls[i][x].saw(d, self.cur)
    def parent(self, cid):
        for i, c in self.calls.items():
            b = c['a'].cid
            if self.cfg['hide']: b = hashlib.md5(b.encode()).hexdigest()
            if cid.startswith(b + '-b2b_'): return i
    # -- RADIUS
    def radius(self, rad, data, cb, params):
        a = avs(data)
        cid = a.get('call-id', '')
        i = self.bycid.get(cid, (0, ''))[0]
        u = a.get('User-Name', ''); o = {'call': i, 'usr': HOSTS.get(u, u), 'cli': a.get('Calling-Station-Id', ''), 'cld': a.get('Called-Station-Id', '')}
        host = HOSTS.get(a.get('h323-remote-address', ''), a.get('h323-remote-address', ''))
        if data[0] == 'AUTH':
            self.asked[i] = (cb, params)
            cred = 'password' if 'Password' in a else '+'.join(a.get(k, '?') for k in ('Digest-User-Name', 'Digest-Realm', 'Digest-Nonce', 'Digest-URI', 'Digest-Response', 'Digest-Method'))
            o.update(k='Auth', cred='digest' if cred == 'alice+r+n1+sip:u+0123+INVITE' else cred, ip=host)
        else:
            o.update(k=a.get('Acct-Status-Type', ''), org=a.get('h323-call-origin', ''), host=host, sid=a.get('Acct-Session-Id') == cid)
            for f, n in (('setup', 'h323-setup-time'), ('conn', 'h323-connect-time'), ('disc', 'h323-disconnect-time')):
                o[f] = rtime(a[n]) - int(vt.BASE_REAL * 1000) - 250 if n in a else -1
            o['dur'] = int(a.get('Acct-Session-Time', -1))
            o['cause'] = a.get('h323-disconnect-cause', ''); o['rel'] = a.get('release-source', '')
            if cb is not None: self.late_ok = (cb, params)
        self.cur['out'].append(o)
    def answer(self, i, res):
        self.begin({'in': 'radius', 'call': i, 'res': res})
        if i in self.asked:
            cb, params = self.asked.pop(i)
            av = []
            if res['ok']:
                if res['cli'] != '=': av.append(b"h323-ivr-in = 'CLI:%s'" % res['cli'].encode())
                if res['cnam'] != '=': av.append(b"Cisco-AVPair = 'h323-ivr-in=CNAM:%s'" % res['cnam'].encode())
                if res['credit'] >= 0: av.append(b"h323-credit-time = 'h323-credit-time=%d'" % res['credit'])
                for r in res['routes']: av.append(b"h323-ivr-in = 'Routing:%s'" % enc_route(r).encode())
            av.append(b'0' if res['ok'] else random.choice([b'1', b'2']))
            self.guarded(lambda: self.rad.process_result(cb, tuple(av), *params))
        self.end()
    # -- callers
    def new(self, i, cs=1, s='a0', src='ok', auth='none', cld='200', nat=False, cli='100', cnam='A Caller', ip='nh', xh='', mf=70, exp=0, con='c1', rr=(), rs=''):
        p = Peer(self, 'uas', i, 'a')
        p.cid = 'cid-%d-%d@peer' % (i, random.randrange(10**9))
        self.calls[i] = {'a': p}
        self.bycid[p.cid] = (i, 'a')
        p.pcs = cs; p.pfirst = cs
        e = {'in': 'new', 'call': i, 'leg': 'a', 'm': 'INVITE', 'cs': cs, 'sdp': s, 'src': src, 'auth': auth, 'cld': cld, 'nat': nat, 'cli': cli, 'cnam': cnam,
             'ip': ip, 'xh': xh, 'mf': mf, 'exp': exp, 'con': con, 'rr': [dict(u=u, lr=lr) for u, lr in rr], 'rs': rs, 'first': True, 'match': 'ok', 'rd': ''}
        self.begin(e); p.cur = e
        br = 'z9hG4bK-n%d' % i
        h = [('Via', 'SIP/2.0/UDP %s:5060;branch=%s' % (ADDR['nh' if ip != 'nh' else ip][0] if ip == 'nh' else '10.7.0.1', br))]
        if ip != 'nh': h.append(('Via', 'SIP/2.0/UDP %s:5060;branch=z9hG4bK-x%d' % (ADDR[ip][0], i)))
        h += [('From', '%s<sip:%s@10.7.0.1>;tag=p0' % ('"%s" ' % cnam if cnam else '', cli)),
              ('To', '<sip:callee@10.0.0.1>'), ('Call-ID', p.cid), ('CSeq', '%d INVITE' % cs)]
        if mf >= 0: h.append(('Max-Forwards', str(mf)))
        if con: h.append(('Contact', '<%s>' % uri(con)))
        for u, lr in rr: h.append(('Record-Route', '<%s%s>' % (uri(u), ';lr' if lr else '')))
        if exp: h.append(('Expires', str(exp)))
        if auth == 'digest': h.append(('Authorization', 'Digest username="alice",realm="r",nonce="n1",uri="sip:u",response="0123"'))
        if auth == 'proxy': h.append(('Proxy-Authorization', 'Digest username="bob",realm="r2",nonce="n2",uri="sip:u",response="4567"'))
        for x in xh.split(',') if xh else (): h.append(('X-Extra', x))
        if s: h.append(('Content-Type', 'application/sdp'))
        h += reason_hdr(rs)
        data = build('INVITE sip:%s%s@10.0.0.1:5060 SIP/2.0' % ('nat-' if nat else '', cld), h, sdp(s))
        p.psent[('INVITE', cs)] = (data, br)
        p.phase = 'try'
        deliver(self.srv, data, ADDR['nh' if src == 'ok' else 'bad'])
        self.end()
    # -- others
    def stray(self, m, totag):
        self.strays += 1
        cid = 'stray-%d@peer' % self.strays
        self.bycid[cid] = (0, 's')
        self.begin({'in': 'stray', 'm': m, 'totag': totag})
        h = [('Via', 'SIP/2.0/UDP 10.7.0.1:5060;branch=z9hG4bK-s%d' % self.strays), ('From', '<sip:caller@10.7.0.1>;tag=p0'),
             ('To', '<sip:callee@10.0.0.1>' + (';tag=zz' if totag else '')), ('Call-ID', cid), ('CSeq', '7 ' + m), ('Max-Forwards', '70')]
        deliver(self.srv, build('%s sip:callee@10.0.0.1:5060 SIP/2.0' % m, h), ADDR['nh'])
        self.end()
    def oper(self, i):
        self.begin({'in': 'disc', 'call': i})
        c = CLI()
        self.guarded(lambda: self.cli.recvCommand(c, 'd ' + self.calls[i]['a'].cid))
        self.cur['said'] = str(c.out[:1] and c.out[0])[:2]
        self.end()
    def discall(self, how='d'):
        self.begin({'in': 'discall'})
        c = CLI()
        self.guarded(lambda: self.cli.recvCommand(c, 'd *') if how == 'd' else self.cmap.discAll(1))
        self.end()
    def drain(self):
        self.begin({'in': 'drain'})
        self.guarded(lambda: self.cmap.safeRestart(27))
        self.end()
    def adv(self, dt, exact=False):
        # keep clear of the instants at which something is due
        try: due = [int(round((x.etime.monot - vt.BASE_MONO - self.t0) * 1000)) for x in vt.ED2.tlisteners if x.cb_func is not None]
        except Exception: due = []
        while not exact and any(abs(self.ms() + dt - d) < 2 for d in due): dt += 1
        self.begin({'in': 'adv', 'dt': dt})
        t = self.ms()
        try: vt.advance(dt / 1000.0 + 1e-6)
        except Quit as q: self.cur['halt'] = q.args[0]; self.cur['dt'] = self.ms() - t
        self.end()
    def stop(self):
        self.begin({'in': 'stop'})
        self.guarded(lambda: self.cmap.safeStop(15))
        self.end()
    def left(self):
        """what remains in memory"""
        n = lambda k: len(getattr(self.tm, k, ()))
        r = {'in': 'left', 'calls': len(getattr(self.cmap, 'ccmap', ())), 'tc': n('tclient'), 'ts': n('tserver'), 'rc': n('req_consumers'),
             'timers': vt.live_timers() - self.base_timers}
        self.begin(r); self.end()

RT0 = dict(d='d1', ncld='=', ncli='=', ncnam='=', nxh='', cred=-2, exp=-1, nop=0, nor=0, hs=[], user=False, pa=True, fof=False, op=False, bill='', gt=[])
CF0 = dict(authen=True, digest=False, donly=False, acct=True, start=True, alive=0, precise=True, maxcred=-1, kaA=0, kaO=0, trin={}, trout={}, retrin='', retrout='', static=[], hide=False)
TRIN = {'200': '0200', '300': '0300'}
TROUT = {'200': '9200', '0200': '90200', '300': '9300', '0300': '90300', '700': '9700'}

def rand_cfg(r):
    c = dict(CF0)
    c['authen'] = r.random() < .8
    c['digest'] = r.random() < .4
    c['donly'] = c['digest'] and r.random() < .3
    c['acct'] = r.random() < .85
    c['start'] = r.random() < .6
    c['alive'] = r.choice([0, 0, 13000, 29000])
    c['precise'] = r.random() < .5
    c['maxcred'] = r.choice([-1, -1, -1, 23, 41])
    c['kaA'] = r.choice([0, 0, 0, 0, 37041]); c['kaO'] = r.choice([0, 0, 0, 0, 26057])
    if r.random() < .25: c['trin'], c['retrin'] = TRIN, 's/^/0/'
    if r.random() < .25: c['trout'], c['retrout'] = TROUT, 's/^/9/'
    if not c['authen'] or r.random() < .1: c['static'] = [rand_route(r, 0)]
    c['hide'] = r.random() < .2
    return c
def rand_route(r, i):
    x = dict(RT0)
    x['d'] = r.choice(['d1', 'd2', 'd3', 'src'] if r.random() < .3 else ['d1', 'd2', 'd3'])
    if r.random() < .3: x['ncld'] = '700'
    if r.random() < .2: x['ncli'] = '%d11' % (i + 1)
    if r.random() < .2: x['ncnam'] = 'N %d' % i
    if r.random() < .2: x['nxh'] = 'ra%d' % i
    if r.random() < .3: x['cred'] = r.choice([-1, 17, 45, 0, 17])
    if r.random() < .3: x['exp'] = r.choice([19, 61, 19, 0, -1])
    if r.random() < .3: x['nop'] = 7
    if r.random() < .25: x['nor'] = 3
    if r.random() < .2: x['hs'] = r.choice([[486], [404, 486], [503], [408]])
    if r.random() < .25: x['pa'] = False; x['user'] = r.random() < .7
    x['fof'] = r.random() < .15
    x['op'] = r.random() < .1
    if r.random() < .15: x['bill'] = 'acc%d' % i
    if r.random() < .3: x['gt'] = [r.choice([5, 11, 16, 31]), r.choice([1, 1, 2, 3])]
    return x

class Run:
    def __init__(self, seed, opt):
        self.r = random.Random(seed)
        random.seed(seed)
        self.opt = opt
        self.cfg = rand_cfg(self.r)
        self.hub = Hub(self.cfg)
        self.n = self.r.choice([1, 1, 1, 2, 3])
        self.nb = 0
        self.late = {}; self.drained = False
    def sd(self, p=.7):
        if self.r.random() > p: return ''
        self.nb += self.r.random() < .6
        return 'ab'[self.r.random() < .5] + str(self.nb)
    def rs(self): return self.r.choice(['', '', '', 'y1', 'y2'])
    def dt(self):
        k = self.r.random()
        return self.r.choice([11, 207, 503]) if k < .4 else self.r.choice([1007, 3301, 5003]) if k < .8 else self.r.choice([10007, 20021, 33037])
    def routes(self):
        r = self.r
        if r.random() < .7: return ()
        n = r.choice([1, 2])
        lr = r.random() < .8
        return [('r%d' % (i + 1), lr) for i in range(n)]
    def newcall(self):
        r, h = self.r, self.hub
        i = len(h.calls) + 1
        self.late[i] = r.random() < .1
        h.new(i, cs=r.choice([1, 100, 5000]), s='' if self.late[i] else 'a0', src='ok' if r.random() < .95 else 'bad',
              auth=r.choice(['digest', 'digest', 'digest', 'proxy', 'none', 'none', 'none', 'none', 'none']), cld=r.choice(['200', '300']), nat=r.random() < .15, cli=r.choice(['100', '101']),
              cnam=r.choice(['A Caller', '']), ip=r.choice(['nh', 'nh', 'nh2']), xh=r.choice(['', '', 'xa', 'xa,xb']),
              mf=r.choice([70, 70, 70, 5, 2, 1, 0, -1]), exp=r.choice([0, 0, 0, 0, 29]), con=r.choice(['c1', 'c2']), rr=self.routes(), rs=self.rs())
        if self.cfg['donly'] and r.random() < .3: pass
    def result(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        if self.hunt:
            rs = [rand_route(r, i) for i in range(4)]
            for x in rs:
                if r.random() < .7: x.update(cred=-2, exp=-1, nop=0, nor=0, gt=[])
                x['hs'] = r.choice([[], [], [486], [404], [486, 503], [503]])
            return {'ok': True, 'routes': rs, 'credit': -1, 'cli': '=', 'cnam': '='}
        return {'ok': r.random() < .92, 'routes': [rand_route(r, i) for i in range(n)], 'credit': r.choice([-1, -1, 41, 17, 0]) if r.random() < .5 else -1,
                'cli': r.choice(['=', '=', '900']), 'cnam': r.choice(['=', '=', 'R N'])}
    def go(self, steps):
        h, r = self.hub, self.r
        self.newcall()
        self.happy = r.random() < .6
        self.hunt = self.opt.get('hunt', False)
        for _ in range(steps):
            h.adv(3)
            if h.cur['halt']: return h.ev
            self.one()
            if h.cur['halt']: return h.ev
        if r.random() < .8:
            if r.random() < .7: h.adv(3); h.discall(r.choice('ds'))
            for dt in [r.choice([33009, 100003]) for _ in range(3)] + [302023, 301007, 700001]:
                h.adv(dt)
                if h.cur['halt']: return h.ev
            if not self.cfg['kaA'] and not self.cfg['kaO'] and not h.asked: h.left()
        return h.ev
    hunt = False
    def one(self):
        h, r = self.hub, self.r
        k = r.random()
        if h.asked and k < .4: return h.answer(r.choice(list(h.asked)), self.result())
        if k < .42 and len(h.calls) < self.n: return self.newcall()
        if k > .99: return h.stray(r.choice(['NOTIFY', 'PING', 'OPTIONS', 'REGISTER', 'BYE', 'INFO', 'INVITE']), True) if r.random() < .5 else h.stray(r.choice(['NOTIFY', 'PING', 'OPTIONS', 'REGISTER', 'BYE', 'INFO']), False)
        if k > .975 and self.opt.get('drain') and not self.drained:
            self.drained = True
            return h.drain() if r.random() < .7 else h.stop()
        if k > .977 and not self.happy: return h.discall(r.choice('ds')) if r.random() < .2 else h.oper(r.choice(list(h.calls)))
        i = r.choice(list(h.calls))
        c = h.calls[i]
        a = c['a']; o = c[max(c, key=lambda x: int(x) if x != 'a' else 0)] if len(c) > 1 else None
        # what is owed
        un = [cs for cs in a.finals if cs not in a.acked]
        if un and r.random() < (.9 if self.happy else .5):
            cs = r.choice(un); a.acked.add(cs)
            return a.ack(cs, self.sd(.9) if self.late[i] and a.finals[cs]['code'] < 300 and cs == a.pfirst else self.sd(.1))
        if o is not None:
            uo = [cs for cs in o.finals if cs not in o.acked]
            if uo and r.random() < .7:
                cs = r.choice(uo); o.acked.add(cs); return o.ack(cs, self.sd(.1))
        k = r.random()
        conn = a.finals.get(a.pfirst, {}).get('code', 0) // 100 == 2
        if not conn:
            if o is None: return h.adv(self.dt()) if k < .6 else self.leaving(a)
            live = [cs for cs in o.inv if ('INVITE', cs) not in o.done]
            if self.hunt and k < .8 and live: return self.reply(i, o, live[-1], r.choice([180, 486, 486, 404, 503, 503]))
            if k < (.75 if self.happy else .5) and live: return self.reply(i, o, live[-1], r.choice([100, 180, 180, 183, 200, 200]) if self.happy and r.random() < .7 else self.code())
            if k < .85: return h.adv(self.dt())
            if self.happy and k < .95: return h.adv(self.dt())
            return self.leaving(a) if r.random() < .7 else self.anyreq(i, r.choice([a, o]))
        p = r.choice([x for x in c.values()]) if r.random() < .1 else r.choice([a, o]) if o else a
        live = [x for x in p.last_out if x not in p.done and x[0] not in ('ACK', 'CANCEL')]
        if k < .45 and live:
            m, cs = r.choice(live)
            if m == 'INVITE': return self.reply(i, p, cs, self.code(.6))
            return p.resp(m, cs, r.choice([200, 202, 403, 481]), tag=p.rtag)
        if k < .7: return self.anyreq(i, p)
        if k < .74 and [m for m, _ in p.psent if m == 'INVITE']: return p.cancel(r.choice([cs for m, cs in p.psent if m == 'INVITE']), self.rs())
        return h.adv(self.dt())
    def leaving(self, a):
        r = self.r
        k = r.random()
        if k < .6: return a.cancel(a.pfirst, self.rs())
        if k < .75 and a.ltag: return a.req('BYE', self.nextcs(a))
        return self.hub.adv(self.dt())
    def code(self, p2=.3):
        r = self.r
        if r.random() < p2: return r.choice([200, 200, 202])
        return r.choice([100, 180, 183, 300, 302, 401, 407, 403, 404, 404, 408, 481, 486, 486, 487, 500, 503, 503, 600])
    def reply(self, i, p, cs, code):
        r = self.r
        kw = dict(tag=p.rtag, s='', con='', rr=())
        early = p.role == 'uac' and cs == min(p.inv)
        if 100 < code < 200 and r.random() < .4: kw['s'] = self.sd()
        if 200 <= code < 300:
            kw.update(s=self.sd(.9) or 'b9', con='c1' if not early else r.choice(['c1', 'c2', '']), rr=self.routes() if early else ())
            if early and not self.late[i] and r.random() < .03: kw['tag'] = ''
        if code in (401, 407): kw['chal'] = r.choice(['ok', 'ok', 'ok', 'unsup', ''])
        if code in (300, 301, 302) and r.random() < .7: kw['rd'] = r.choice(['x1', 'x1,x2'])
        if code >= 300: kw['rs'] = self.rs()
        if r.random() < .3: kw['pht'] = 'Px%d' % r.randrange(100)
        p.resp('INVITE', cs, code, **kw)
    def nextcs(self, p):
        p.pcs += self.r.choice([1, 1, 1, 2, 10]); return p.pcs
    def anyreq(self, i, p):
        r = self.r
        if p.ltag is None: return self.hub.adv(self.dt())
        m = r.choices(['BYE', 'INVITE', 'INFO', 'OPTIONS', 'REFER', 'UPDATE', 'MESSAGE'], [1.3, 5, 2, 1, .5, .5, .3])[0]
        cs = self.nextcs(p) if r.random() < .92 else max(1, p.pcs - r.choice([0, 1, 5]))
        if m == 'INVITE' and self.late[i] and not p.acked: m = 'INFO'
        match = 'ok' if r.random() < .93 else r.choice(['ftag', 'ttag', 'cid2', 'nottag'])
        if match == 'cid2' or match == 'nottag': match = 'ftag'
        if (m, cs) in p.psent: cs = self.nextcs(p)
        s = self.sd(.9) if m == 'INVITE' else self.sd(.5) if m == 'INFO' else ''
        p.req(m, cs, s=s, match=match, rs=self.rs() if m in ('BYE', 'INVITE', 'INFO') else '', rd=r.choice(['', 'x5']) if m in ('BYE', 'REFER') else '',
              mf=r.choice([70, 3, 1, 0]) if r.random() < .3 else 70, exp=0)

def walk(s):
    h = None
    for e in s['walk']:
        k = e['in']
        if k == 'cfg':
            random.seed(1)
            cfg = dict(e['cfg'])
            for x in ('trin', 'trout'): cfg[x] = cfg[x] or {}
            h = Hub(cfg)
            continue
        p = h.calls[e['call']].get(e['leg']) if 'leg' in e and e['call'] in h.calls else None
        if k in ('resp', 'req', 'ack', 'cancel') and (p is None or p.ltag is None and k != 'resp'): break    # there is no such leg
        if k == 'new': h.new(e['call'], cs=e['cs'], s=e['sdp'], src=e['src'], auth=e['auth'], cld=e['cld'], cli=e['cli'], cnam=e['cnam'], xh=e['xh'], mf=e['mf'])
        elif k == 'radius': h.answer(e['call'], e['res'])
        elif k == 'resp':
            if (e['m'], e['cs']) not in p.last_out: break
            p.resp(e['m'], e['cs'], e['code'], s=e['sdp'], tag=e['tag'], con=e['con'])
        elif k == 'req': p.req(e['m'], e['cs'], s=e['sdp'], match=e['match'], rs=e['rs'], rd=e['rd'], mf=e['mf'], exp=e['exp'], con=e['con'])
        elif k == 'ack': p.ack(e['cs'], e['sdp'])
        elif k == 'cancel': p.cancel(e['cs'], e['rs'])
        elif k == 'disc': h.oper(e['call'])
        elif k == 'drain': h.drain()
        elif k == 'stop': h.stop()
        elif k == 'adv': h.adv(e['dt'], True)
        if h.cur['halt']: break
        if k != 'adv': h.adv(7, True)
        if h.cur['halt']: break
    else:
        for dt in (33009, 301007, 301007):
            if not h.cur['halt']: h.adv(dt)
        if not h.cur['halt'] and not h.asked: h.left()
    return {'ev': h.ev, 'cfg': h.cfg, 'n': 3}

def run_sched(s):
    if 'walk' in s: return walk(s)
    R = Run(s['seed'], s)
    ev = R.go(s['steps'])
    return {'ev': ev, 'cfg': R.cfg, 'n': 3}
