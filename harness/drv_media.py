"""Driver: media sessions at an RTP proxy (the real session code over a stand-in proxy link)."""
import vt, random, re, gc
from urllib.parse import quote
from sippy.Rtp_proxy.session import Rtp_proxy_session
from sippy.Rtp_proxy.Session.webrtc import Rtp_proxy_session_webrtc2sip, Rtp_proxy_session_sip2webrtc
from sippy.Exceptions.SdpParseError import SdpParseError
from sippy.MsgBody import MsgBody
from sippy.SipContentType import SipContentType
from sippy.SipConf import SipConf

CID, FT, TT = 'c', 'f', 't'
KIND = {'plain': Rtp_proxy_session, 'w2s': Rtp_proxy_session_webrtc2sip, 's2w': Rtp_proxy_session_sip2webrtc}

class Link:
    """the way to the proxy: takes commands, answers later"""
    online, notify_socket, proxy_address = True, 'sock', '10.5.5.5'
    def __init__(self, cfg, rec):
        self.sbind_supported, self.tnot_supported, self.is_local = cfg['sbind'], cfg['tnot'], cfg['local']
        self.rec, self.fl, self.stats = rec, [], []
    def send_command(self, command, result_callback=None, *params):
        self.rec.sent(command)
        (self.stats if command.startswith('Q') else self.fl).append((command, result_callback, params))

def parse_cmd(c):
    """a command as [k(ind), o(ptions), a(rguments), s(ubcommands)]"""
    parts = [x.strip() for x in c.split('&&')]
    w = parts[0].split()
    verb, o = w[0], []
    if verb[0] == 'U':
        rest, verb = verb[1:], 'U'
        for m in re.finditer(r'[LR][0-9a-fA-F.:\[\]]+|z\d+|.', rest): o.append(m.group(0))
    return {'k': verb, 'o': o, 'a': ' '.join(w[1:]), 's': parts[1:]}

# ---- session descriptions, on our own ----------------------------------------
def attr(z): return z['n'] if z['v'] == '' else '%s:%s' % (z['n'], z['v'])
def build(sdp, r):
    secs = sdp['secs']
    same = len({(s['at'], s['addr']) for s in secs}) == 1
    top = bool(secs) and (same and r.random() < .5)
    L = ['v=0', 'o=%s %s %s IN IP4 %s' % ('alice', sdp['sid'], sdp['ver'], '192.0.2.77')]
    oth = list(sdp['oth'])
    for o in [x for x in oth if x[0] in 'siuep']: L.append(o)
    if top: L.append('c=IN %s %s' % (secs[0]['at'], secs[0]['addr']))
    for o in [x for x in oth if x[0] not in 'siuep']: L.append(o)
    for a in sdp['sa']: L.append('a=' + attr(a))
    for s in secs:
        L.append(' '.join(['m=' + s['m'], str(s['port']), s['tr']] + s['fm']))
        for b in [x for x in s['b'] if x[0] == 'i']: L.append(b)
        if not top: L.append('c=IN %s %s' % (s['at'], s['addr']))
        for b in [x for x in s['b'] if x[0] != 'i']: L.append(b)
        for a in s['a']: L.append('a=' + attr(a))
    return '\r\n'.join(L) + '\r\n'
def spoil(t, r):
    k = r.randrange(5)
    if k < 4: return re.sub('(?m)^%s=.*\r\n' % 'vost'[k], '', t)
    return re.sub('(?m)^c=.*\r\n', '', t) if 'm=' in t else t.replace('o=alice', 'o=')
def parse(t):
    sa, oth, secs, c, o = [], [], [], None, None
    def at(v):
        n, _, w = v.partition(':')
        return {'n': n, 'v': w}
    for ln in t.split('\r\n'):
        if not ln: continue
        k, v = ln[0], ln[2:]
        if k == 'm':
            w = v.split()
            secs.append({'m': w[0], 'port': int(w[1]), 'tr': w[2], 'fm': w[3:], 'at': None, 'addr': None, 'b': [], 'a': []})
        elif secs:
            if k == 'c': _, secs[-1]['at'], secs[-1]['addr'] = v.split()
            elif k == 'a': secs[-1]['a'].append(at(v))
            else: secs[-1]['b'].append(ln)
        elif k == 'c': c = v.split()
        elif k == 'o': o = v.split()
        elif k == 'a': sa.append(at(v))
        else: oth.append(ln)
    for s in secs:
        if s['addr'] is None: _, s['at'], s['addr'] = c or ['', 'none', 'none']
        s['b'].sort()
    return {'o': o, 'sa': sa, 'oth': sorted(x for x in oth if x != 'v=0'), 'secs': secs}

def none(): return {'k': 'none', 'port': 0, 'addr': '', 'six': False, 'subs': [], 'txt': ''}
def reply(r):
    """the text the proxy answers with"""
    if r['k'] == 'none': return None
    if r['k'] in ('err', 'txt'): return r['txt']
    t = str(r['port'])
    if r['addr']: t += ' ' + r['addr'] + (' 6' if r['six'] else '')
    return ' && '.join([t] + [x['t'] for x in r['subs']])

class D:
    def __init__(self, cfg, r):
        vt.reset(); SipConf.my_address = '203.0.113.9'
        self.r, self.cfg, self.ev = r, cfg, []
        self.cmds, self.done, self.exc, self.ret, self.kept = [], [], '', '', False
        self.link = Link(cfg, self)
        self.s = KIND[cfg['kind']]({'rtp_proxy_client': self.link}, CID, FT, TT, 'n' if cfg['ntag'] else None)
        s = self.s
        for side, ra, la, z in ((s.caller, cfg['ra'], cfg['la'], cfg['za']), (s.callee, cfg['rb'], cfg['lb'], cfg['zb'])):
            if ra: side.raddress = (ra, 5060)
            if la: side.laddress = la
            if z:
                side.repacketize = z
                side.soft_repacketize = cfg['soft']
        s.insert_nortpp = cfg['nort']
        self.org = {'a': [], 'o': []}
        self.side = {}
        self.then = None
        self.deleted = False
    def sent(self, c): self.cmds.append(parse_cmd(c))
    # ---- results
    def handler(self, id):
        def cb(res, *a, ex=None, **kw):
            self.result(id, res)
            if self.then is not None:
                t, self.then = self.then, None
                self.op(t)
        return cb
    def result(self, id, res):
        if res is None: self.done.append({'id': id, 'ok': False, 'txt': ''})
        elif isinstance(res, MsgBody):
            p = parse(str(res))
            sid, ver = p['o'][1], int(p['o'][2])
            q = self.org[self.side[id]]
            if not any(x[0] == sid for x in q): q.append((sid, ver))
            n = [x[0] for x in q].index(sid)
            self.done.append({'id': id, 'ok': True, 'txt': 'sdp', 'n': n + 1, 'v': ver - q[n][1], 'oc': p['o'][5], 'sa': p['sa'], 'oth': p['oth'], 'secs': p['secs']})
        elif isinstance(res, tuple): self.done.append({'id': id, 'ok': True, 'txt': ' '.join(str(x) for x in res)})
        else: self.done.append({'id': id, 'ok': True, 'txt': str(res)})
    # ---- inputs
    def op(self, e):
        s, k, x = self.s, e['in'], e.get('x')
        if k == 'sdp':
            self.side[e['id']] = x
            sdp = e['sdp']
            if sdp['txt']:
                body = MsgBody(sdp['txt'], SipContentType('text/plain')); body.mtype.parse()
                before = sdp['txt']
            else:
                t = build(sdp, self.r)
                if sdp['bad']: t = spoil(t, self.r)
                body = MsgBody(t); before = parse(t) if not sdp['bad'] else None
            f = s.on_caller_sdp_change if x == 'a' else s.on_callee_sdp_change
            side = s.caller if x == 'a' else s.callee
            try:
                # (the UA's hook: the side's own method gives the body back when nothing is to be done)
                ret = side._on_sdp_change(s, body, self.handler(e['id']))
            except SdpParseError: self.ret = 'bad'; return
            if ret is None: self.ret = 'wait'
            else:
                self.ret = 'same'
                self.kept = (str(ret) == before) if sdp['txt'] else parse(str(ret)) == before
        elif k == 'play':
            (s.play_caller if x == 'a' else s.play_callee)(e['name'], e['times'], self.handler(e['id']), e['idx'])
        elif k == 'stop':
            (s.stop_play_caller if x == 'a' else s.stop_play_callee)(self.handler(e['id']), e['idx'])
        elif k == 'copy':
            h, p = e['name'].rsplit(':', 1)
            (s.copy_caller if x == 'a' else s.copy_callee)(h, int(p), self.handler(e['id']), e['idx'])
        elif k == 'record':
            kw = {}
            if e['flags'] or self.r.random() < .3: kw['rflags'] = e['flags']
            if e['onlya']: kw['only_a'] = True
            s.start_recording(e['name'] or None, self.handler(e['id']), e['idx'], **kw)
        elif k == 'newport': (s.caller if x == 'a' else s.callee).needs_new_port = True
        elif k == 'timeout': s.media_timeout_index = e['idx']
        elif k == 'delete':
            self.deleted = True
            if s is None: pass
            elif e['drop']:
                self.s = None; del s; gc.collect()
            else: s.delete()
        elif k == 'stats':
            n = len(self.link.stats)
            s.stats(self.handler(e['id']), e['idx'])
            if len(self.link.stats) > n: self.link.stats[-1] += (e['id'],)
        elif k == 'ans':
            if self.link.fl:
                c, cb, p = self.link.fl.pop(0)
                self.then = e['then'] if e['then']['in'] != 'none' else None
                if cb is not None: cb(reply(e['r']), *p)
                self.then = None
        elif k == 'sans':
            for i, q in enumerate(self.link.stats):
                if q[-1] == e['id']:
                    del self.link.stats[i]
                    q[1](reply(e['r']), *q[2]); break
    def apply(self, e):
        self.cmds, self.done, self.exc, self.ret, self.kept = [], [], '', '', False
        try:
            self.op(e)
            vt.pump()
        except Exception as ex:
            import traceback
            self.exc = ''.join(traceback.format_exception(ex))[-900:]
        self.ev.append(dict(e, cmds=self.cmds, done=self.done, exc=self.exc, ret=self.ret, kept=self.kept))

# ---- random behaviour -----------------------------------------------------------
TR = ['RTP/AVP', 'RTP/AVP', 'RTP/SAVP', 'UDP/TLS/RTP/SAVP', 'UDP/TLS/RTP/SAVPF', 'udptl', 'UDP/BFCP', 'udp', 'TCP/MSRP', 'RTP/AVPF', 'tcp', 'rtp/avp', 'RTP/SAVPF']
def A(n, v='', f='', msid=False): return {'n': n, 'v': v, 'f': f, 'msid': msid}
CANDS = [('1 1 udp 2130706431 192.168.1.5 5000 typ host', 'use'), ('2 1 UDP 1694498815 198.51.100.4 4444 typ srflx raddr 0.0.0.0 rport 0', 'use'),
         ('3 1 tcp 1518280447 10.0.0.4 9 typ host tcptype active', ''), ('4 1 udp 2122260223 192.0.0.4 5002 typ host', ''), ('5 2 udp 1 2001:db8::7 6000 typ host', 'use')]
def rnd_sec(r, web, i):
    tr = r.choice(['UDP/TLS/RTP/SAVPF'] * 4 + ['UDP/TLS/RTP/SAVP', 'RTP/AVP', 'TCP/MSRP']) if web else r.choice(['RTP/AVP'] * 5 + TR)
    m = r.choice(['audio', 'audio', 'video']) if 'rtp' in tr.lower() else r.choice(['image', 'application', 'message'])
    fm = r.sample(['0', '8', '18', '96', '101', '120'], r.randint(1, 4)) if m in ('audio', 'video') else [r.choice(['t38', '*', 'x-y'])]
    six = r.random() < .15
    hold = r.random() < .15
    addr = ('::' if hold else r.choice(['2001:db8::1', '2001:db8::2'])) if six else ('0.0.0.0' if hold else r.choice(['192.0.2.1', '192.0.2.2', '192.0.2.3']))
    a = []
    for f in fm:
        if r.random() < .6 and m != 'image': a.append(A('rtpmap', f + ' X/8000'))
        if r.random() < .3: a.append(A('fmtp', f + ' 0-15'))
    if r.random() < .4: a.append(A(r.choice(['sendrecv', 'sendonly', 'recvonly', 'inactive', 'sendrecv'])))
    if r.random() < .3: a.append(A('ptime', r.choice(['20', '30'])))
    if r.random() < .3: a.append(A('rtcp', r.choice(['5001', '5001 IN IP4 192.0.2.1'])))
    if r.random() < .15: a.append(A('x-foo', 'bar:baz'))
    if web or r.random() < .1:
        if r.random() < .97: a.append(A('ice-ufrag', 'uf%d' % i))
        if r.random() < .97: a.append(A('ice-pwd', 'pw%d' % i))
        for c, f in r.sample(CANDS, r.randint(0, 3)): a.append(A('candidate', c, f))
        if r.random() < .8: a.append(A('setup', r.choice(['actpass', 'active', 'passive', 'actpass', 'holdconn' if r.random() < .1 else 'active'])))
        if r.random() < .8: a.append(A('fingerprint', 'sha-256 AA:BB:0%d' % i))
        for n, v in (('mid', str(i)), ('rtcp-mux', ''), ('end-of-candidates', ''), ('extmap', '1 urn:x'), ('extmap', '2 urn:y'), ('rtcp-fb', '96 nack'), ('msid', '- tr'), ('ice-options', 'trickle'), ('extmap-allow-mixed', '')):
            if r.random() < .3: a.append(A(n, v))
        if r.random() < .4:
            a.append(A('ssrc', '1234 cname:x', '1234'))
            if r.random() < .6: a.append(A('ssrc', '1234 msid:- tr', '1234', True))
            if r.random() < .4: a.append(A('ssrc', '99 MSID:- tr', '99', True))
    r.shuffle(a)
    b = sorted(x for x in ['b=AS:%d' % r.choice([64, 512]), 'b=TIAS:64000', 'b=RR:800', 'i=stream', 'k=clear:x'] if r.random() < .15)
    return {'m': m, 'tr': tr, 'at': 'IP6' if six else 'IP4', 'addr': addr, 'port': 0 if r.random() < .08 else r.choice([4000, 4002, 30000]), 'fm': fm, 'b': b, 'a': a}
def rnd_sdp(r, web, cur):
    """cur: this party's session (id, version), changed now and then"""
    if r.random() < .06: cur[0] += 10; cur[1] = r.choice([cur[0], 1])
    elif r.random() < .5: cur[1] += r.choice([1, 1, 1, 5, -1])
    k = r.random()
    if k < .04: return {'txt': r.choice(['hello', 'v=0\r\n']), 'bad': False, 'sid': '', 'ver': '', 'sa': [], 'oth': [], 'secs': []}
    n = 0 if k < .06 else r.choice([1, 1, 1, 2, 2, 3])
    sa = [x for x in [A('setup', 'actpass'), A('fingerprint', 'sha-256 SS:SS'), A('group', 'BUNDLE 0 1'), A('msid-semantic', ' WMS x'), A('ice-options', 'trickle'), A('extmap-allow-mixed')]
          if r.random() < (.5 if web else .05)] + ([A('sendrecv')] if r.random() < .1 else [])
    oth = ['s=' + r.choice(['-', 'call']), 't=0 0'] + [x for x in ['b=CT:1000', 'b=TIAS:3', 'i=info', 'u=http://x/', 'e=a@b', 'p=+1', 'k=prompt', 'r=7d 1h 0 25h', 'z=0 0'] if r.random() < .05]
    return {'txt': '', 'bad': k > .96, 'sid': str(cur[0]), 'ver': str(cur[1]), 'sa': sa, 'oth': oth, 'secs': [rnd_sec(r, web, i) for i in range(n)]}
def rnd_subs(r, cmd):
    out = []
    for c in cmd['s']:
        w = None
        if c == 'M4:1 S': t, w = 'actpass sha-256 DD:EE', ['actpass', 'sha-256 DD:EE']
        elif c == 'M5:1 S':
            cs = ['1 1 udp 99 10.5.5.5 7000 typ host', '2 1 udp 98 10.5.5.6 7000 typ host'][:r.randint(1, 2)]
            w = ['LU', 'LP'] + cs
            t = ' '.join(['LU', 'LP'] + ['c=' + quote(x) for x in cs])
            t = r.choice([t, t.replace('c=', 'C:')])
        else: t, w = '0', ['0']
        if r.random() < .04: t = r.choice(['-1', 'E3', 'x y']); w = t.split(None, 1) if c == 'M4:1 S' else t.split()
        out.append({'t': t, 'w': w})
    k = r.random()
    if k < .03 and out: out = out[:r.randrange(len(out))]
    elif k < .05: out.append({'t': '0', 'w': ['0']})
    return out
def rnd_ans(r, cmd):
    k = r.random()
    R = none()
    if k < .06: return R
    if k < .12: return dict(R, k='err', txt=r.choice(['E1', 'E72 some more'] if cmd['k'] == 'U' else ['E1', 'E72']))
    if cmd['k'] == 'U':
        if k < .15: return dict(R, k='port', port=0)
        six = r.random() < .1
        return dict(R, k='port', port=r.choice([20000, 20002, 31000, 40404]), six=six,
                    addr='' if r.random() < .4 and not six else ('2001:db8::99' if six else r.choice(['10.5.5.5', '10.5.5.6', '10.7.7.7'])), subs=rnd_subs(r, cmd))
    return dict(R, k='txt', txt=r.choice(['0', '0', '1', '12 ok']))

def rnd_cfg(r):
    k = r.choice(['plain', 'plain', 'w2s', 's2w'])
    ad = lambda: r.choice(['', '', '198.51.100.9', '198.51.100.8'])
    z = lambda: r.choice([0, 0, 0, 20, 30])
    return dict(kind=k, sbind=r.random() < .7, tnot=r.random() < .6, local=r.random() < .4, ra=ad(), rb=ad(), la=ad(), lb=ad(), za=z(), zb=z(),
                soft=r.random() < .3, ntag=r.random() < .6, nort=r.random() < .3)

def run_sched(sched):
    r = random.Random(sched.get('seed', 0))
    if 'walk' in sched:
        cfg = sched['walk'][0]['cfg']
        d = D(cfg, r)
        for e in sched['walk'][1:]: d.apply(e)
        return {'cfg': cfg, 'ev': d.ev}
    if 'ops' in sched:
        d = D(sched['cfg'], r)
        for e in sched['ops']: d.apply(e)
        return {'cfg': sched['cfg'], 'ev': d.ev}
    cfg = rnd_cfg(r)
    d = D(cfg, r)
    web = {'a': cfg['kind'] == 'w2s', 'o': cfg['kind'] == 's2w'}
    cur = {'a': [1000, 1000], 'o': [2000, 1]}
    had = set()
    st = {'id': 0}
    def nid(): st['id'] += 1; return st['id']
    def rnd_op(nested=False):
        k, x = r.random(), r.choice('ao')
        if k < .45 or not had:
            sdp = rnd_sdp(r, web[x], cur[x])
            while nested and (sdp['bad'] or sdp['txt'] or not sdp['secs']): sdp = rnd_sdp(r, web[x], cur[x])
            if not sdp['bad'] and any(s['tr'].lower() in ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf', 'udp', 'udptl', 'udp/bfcp') for s in sdp['secs']): had.add(x)
            return {'in': 'sdp', 'id': nid(), 'x': x, 'sdp': sdp}
        if k < .58: return {'in': 'play', 'id': nid(), 'x': r.choice(sorted(had)), 'name': r.choice(['moh', 'p/1']), 'times': r.choice([1, -1, 3]), 'idx': r.choice([0, 0, 1])}
        if k < .68: return {'in': 'stop', 'id': nid(), 'x': x, 'idx': r.choice([0, 0, 1])}
        if k < .76: return {'in': 'copy', 'id': nid(), 'x': x, 'name': r.choice(['192.0.2.50:9000', '192.0.2.51:9002']), 'idx': r.choice([0, 0, 2])}
        if k < .86: return {'in': 'record', 'id': nid(), 'x': 'a', 'name': r.choice(['', 'rec1']), 'flags': r.choice(['', '', 's']), 'onlya': r.random() < .3, 'idx': r.choice([0, 0, 1])}
        if k < .92: return {'in': 'newport', 'x': x}
        if k < .94: return {'in': 'timeout', 'idx': r.choice([0, 1, 2])}
        return {'in': 'stats', 'id': nid(), 'idx': r.choice([0, 1])}
    sids = []
    for i in range(sched['steps']):
        if r.random() < (.6 if len(d.link.fl) else .1):
            t = {'in': 'none'}
            if not d.deleted and r.random() < .15:
                t = rnd_op(True)
                if t['in'] == 'stats': sids.append(t['id'])
                if r.random() < .1: t = {'in': 'delete', 'drop': False}
            a = parse_cmd(d.link.fl[0][0]) if d.link.fl else {'k': 'P', 's': []}
            d.apply({'in': 'ans', 'r': rnd_ans(r, a), 'then': t})
        elif sids and r.random() < .5:
            R = none()
            k = r.random()
            if k > .4: R = dict(R, k='txt', txt='%d 1 2 3 4' % r.randrange(100))
            elif k > .2: R = dict(R, k='err', txt='E8')
            d.apply({'in': 'sans', 'id': sids.pop(r.randrange(len(sids))), 'r': R})
        elif d.deleted:
            if r.random() < .1: d.apply({'in': 'delete', 'drop': r.random() < .3})
        elif i > 8 and r.random() < .05: d.apply({'in': 'delete', 'drop': False})
        else:
            e = rnd_op()
            d.apply(e)
            if e['in'] == 'stats': sids.append(e['id'])
    # let everything end
    while d.link.fl: d.apply({'in': 'ans', 'r': rnd_ans(r, parse_cmd(d.link.fl[0][0])), 'then': {'in': 'none'}})
    d.apply({'in': 'delete', 'drop': r.random() < .5 and not d.link.stats})
    while d.link.fl: d.apply({'in': 'ans', 'r': rnd_ans(r, parse_cmd(d.link.fl[0][0])), 'then': {'in': 'none'}})
    return {'cfg': cfg, 'ev': d.ev}
