"""Driver: the stateful proxy (on the real transaction layer) between clients and one destination, all played here."""
import vt, random, re, contextlib, io
from sipnet import Net, Msg, new_stm, deliver, build, _param
from sippy.Core.EventDispatcher import ED2
from sippy.StatefulProxy import StatefulProxy
DST = ('10.7.0.1', 5072)
CL = [('10.6.0.1', 5060), ('10.6.0.2', 5070), ('10.6.0.2', 5071)]
def split(v, seps, deep=False):
    """split at any of seps outside quoted strings (and, unless deep, angle brackets)"""
    o, q, a, esc = [''], False, False, False
    for c in v:
        if q:
            if esc: esc = False
            elif c == '\\': esc = True
            elif c == '"': q = False
        elif c == '"': q = True
        elif c == '<' and not deep: a = True
        elif c == '>': a = False
        if c in seps and not q and not a: o.append('')
        else: o[-1] += c
    return o
def split_list(v): return split(v, ',')
def squeeze(v):
    """blanks outside quoted strings do not matter"""
    return ''.join(x if x[:1] == '"' else re.sub(r'\s*([,;=<>])\s*', r'\1', re.sub(r'\s+', ' ', x)) for x in re.findall(r'"(?:[^"\\]|\\.)*"|[^"]+|"', v)).strip()
def curi(u):
    """a URI, but for the order of its parameters and needless escapes"""
    u = re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)) if re.match(r"[\w.!~*'()-]", chr(int(m.group(1), 16)), re.A) else m.group(0).upper(), u)
    i = u.find('@') + 1
    b, _, h = u[i:].partition('?')
    p = b.split(';')
    s, c, r = (u[:i] + p[0]).partition(':')
    return s.lower() + c + r + ''.join(';' + x for x in sorted(p[1:])) + ('?' + '&'.join(sorted(h.split('&'))) if h else '')
def norm(v, name=''):
    v = squeeze(v)
    if v.startswith('Digest '): return 'Digest ' + ','.join(sorted(split(v[7:], ',')))
    if name in ('allow', 'supported'): return ','.join(x.strip() for x in v.split(','))
    if name == 'replaces': p = v.split(';'); return ';'.join([p[0]] + sorted(p[1:]))
    if name in ADDR:
        p = split(v, ';')
        m = re.match(r'(.*?)<([^<>]*)>$', p[0])
        if m:
            n = m.group(1).strip()
            if re.match(r"[\w.!%*+`'~ -]+$", n, re.A): n = '"%s"' % n       # a name of plain words means the same in quotes
            p[0] = '%s<%s>' % (n if n != '""' else '', curi(m.group(2)))
        elif re.match('sips?:', p[0], re.I): p[0] = '<%s>' % curi(p[0])
        return p[0] + ''.join(';' + x for x in sorted(p[1:]))
    return v
ADDR = ('from', 'to', 'contact', 'route', 'record-route', 'path', 'refer-to', 'referred-by', 'diversion', 'cc-diversion', 'p-asserted-identity', 'also')
LISTS = ('reason', 'contact', 'route', 'record-route', 'path', 'via')
def per_name(m, skip):
    d = {}
    for k, v in m.h:
        if k in skip or (k == 'content-length' and v == str(len(m.body.encode('utf-8', 'replace')))): continue
        for x in (split_list(v) if k in LISTS else [v]): d.setdefault(k, []).append(norm(x, k))
    return d
COMPACT = {'Via': 'v', 'From': 'f', 'To': 't', 'Call-ID': 'i', 'Contact': 'm', 'Content-Type': 'c', 'Supported': 'k'}
def vary(r, h):
    """the same headers as somebody else might write them"""
    o = []
    for k, v in h:
        j = r.random()
        if j < .08 and k in COMPACT: k = COMPACT[k]
        elif j < .14: k = r.choice([k.upper(), k.lower()])
        if j > .95 and k != 'Content-Type': v = v.replace(' ', '\r\n\t', 1) if ' ' in v and '"' not in v else v
        elif j > .9: v = ' ' + v + ' '
        o.append((k, v))
    return o
def strip_via(v):
    """Via without what the receiver adds to it"""
    return ';'.join(p for p in v.replace(' ;', ';').split(';') if not p.strip().startswith(('received', 'rport')))
def next_of(h, n):
    i = next(i for i, x in enumerate(h) if x[0] == n)
    return h.pop(i)
URIS = ['sip:u%d@dom', 'sip:u%d@dom:5080', 'sip:u%d:pw@dom', 'sips:u%d@dom', 'sip:+1%d;phone-context=x@dom;user=phone', 'sip:u%%61%d@dom', 'sip:u%d@[2001:db8::1]', 'sip:u%d@[2001:db8::1]:5062;transport=tcp', 'sip:dom', 'sip:10.1.1.1:5061;lr',
        'sip:u%d@dom;transport=udp;maddr=10.1.1.1;ttl=1;x-y', 'sip:u%d@dom;method=INVITE?Subject=a%%20b&X=c', 'sip:a.b-c_d!e*f\'(g)%d@dom', 'sip:u&=+$,;?/%d@dom.', 'sip:*%d#1@dom', 'SIP:u%d@Dom.Example']
NAMES = ['', '', '"A \\"B\\" <x>, y" ', 'Bob ', 'Bob Lee ', '"Zo\u00eb" ', '"" ', '"a;b=c" ', '"x\\\\" ', "O'Hara ", '"sip:q@r" ']
PARS = ['', '', ';a=b', ';a', ';a="b, c;d"', ';x=y;z', ';q=0.7', ';n=1;m="\\"quoted\\""']
def uri(r, n): u = r.choice(URIS); return u % n if '%d' in u else u.replace('%%', '%')
def naddr(r, n, pars=PARS): return '%s<%s>%s' % (r.choice(NAMES), uri(r, n), r.choice(pars))
def some(r, f, m=3): return ', '.join(f() for _ in range(r.randint(1, m)))
def dig(r, *must): return 'Digest ' + ', '.join(list(must) + r.sample(['opaque="o,p"', 'algorithm=MD5', 'x-ext="a=b"', 'domain="sip:d"', 'stale=FALSE'], r.randint(0, 3)))
EXTRA = {
    'Route': lambda r, n: some(r, lambda: '<%s>' % r.choice(['sip:p%d.dom;lr' % n, 'sip:10.0.0.3:5070;lr;x=y', 'sip:p@dom', 'sips:p.dom:5061;lr;transport=tls']) + r.choice(['', ';a=b', ';c'])),
    'Record-Route': lambda r, n: some(r, lambda: '<sip:p%d.dom;lr%s>%s' % (r.randrange(9), r.choice(['', ';did=1.2']), r.choice(['', ';a="b,c"']))),
    'Refer-To': lambda r, n: r.choice([naddr(r, n), '<sip:x%d@y?Replaces=abc%%3Bto-tag%%3D1%%3Bfrom-tag%%3D2&X=1>' % n, 'sip:x%d@y' % n, '<sip:x%d@y;method=BYE>' % n]),
    'Referred-By': lambda r, n: r.choice([naddr(r, n), 'sip:x%d@y' % n, '<sip:x%d@y>;cid="a.b@c"' % n]),
    'Replaces': lambda r, n: 'c%d@x;to-tag=1%d;from-tag=2%s' % (n, n, r.choice(['', ';early-only', ';x=y'])),
    'Reason': lambda r, n: some(r, lambda: r.choice(['Q.850;cause=16;text="Terminated"', 'SIP ;cause=580 ;text="Precondition, Failure"', 'SIP;cause=200;text="a;b=c"', 'Q.850;cause=31', 'X-p;text="only"', 'SIP;cause=603;x=y']), 2),
    'Warning': lambda r, n: r.choice(['399 host "text, and; more"', '307 isi.edu "Session parameter \'foo\' not understood"', '370 10.0.0.1:5060 "x"', '301 [::1]:50 ""']),
    'Diversion': lambda r, n: naddr(r, n, [';reason=unconditional', ';reason="follow-me";counter=1;privacy=full', '']),
    'CC-Diversion': lambda r, n: naddr(r, n, [';reason=unconditional', '']),
    'Also': lambda r, n: '<sip:z%d@d>' % n,
    'P-Asserted-Identity': lambda r, n: naddr(r, n, ['']),
    'RSeq': lambda r, n: '%d' % r.choice([1, 988789, 4294967295]),
    'RAck': lambda r, n: '776656 %d INVITE' % n,
    'Allow': lambda r, n: r.choice(['INVITE, ACK, BYE', 'INVITE', 'INVITE,ACK ,CANCEL']),
    'Expires': lambda r, n: '%d' % r.choice([0, 60, 4294967295]),
    'Cisco-Guid': lambda r, n: '%d-2-3-4294967295' % n,
    'User-Agent': lambda r, n: 'A/1.0 (x, y; z="w") B', 'Server': lambda r, n: 'S,T',
    'Proxy-Authorization': lambda r, n: dig(r, 'username="u%d"' % n, 'realm="r, s"', 'nonce="n+/=="', 'uri="sip:dom;a=b"', 'response="00"'),
    'Authorization': lambda r, n: dig(r, 'username="u%d"' % n, 'realm="r"', 'nonce="n"', 'uri="sip:dom"', 'response="0123"', 'qop=auth', 'nc=00000001', 'cnonce="c"'),
    'WWW-Authenticate': lambda r, n: dig(r, 'realm="r %d"' % n, 'nonce="n"', 'qop="auth,auth-int"'),
    'Proxy-Authenticate': lambda r, n: dig(r, 'realm="r"', 'nonce="n%d"' % n),
    'Contact': lambda r, n: r.choice([some(r, lambda: naddr(r, n)), uri(r, n) if 0 else 'sip:u@d;a=b', '*']),
    'Path': lambda r, n: some(r, lambda: '<sip:p%d.dom;lr>' % r.randrange(9)),
    'Subject': lambda r, n: r.choice(['a, b; c="d', '', 'a  b', '<x>']), 'Date': lambda r, n: 'Sat, 13 Nov 2010 23:29:00 GMT', 'Event': lambda r, n: 'reg;id=%d' % n, 'Accept': lambda r, n: 'a/b;q=0.5, c/d',
    'Privacy': lambda r, n: 'id;critical', 'Session-Expires': lambda r, n: '1800;refresher=uas', 'X-A': lambda r, n: 'v=%d:w' % n, 'Call-Info': lambda r, n: '<http://a/b?c=d,e>;purpose=icon'}
def sdp(r):
    """a session description with connection data where it may be"""
    adr = lambda: r.choice(['IN IP4 5.6.7.8', 'IN IP4 0.0.0.0', 'IN IP6 2001:db8::1', 'IN IP4 224.2.1.1/127/3', 'IN IP4 host.example'])
    opt = lambda *ls: [l for l in ls if r.random() < .4]
    c = r.choice([[], ['c=' + adr()]])
    o = ['v=0', 'o=%s %d %d IN %s' % (r.choice(['-', 'u', 'a@b']), r.choice([0, 1, 2890844526, 2 ** 63]), r.choice([0, 1, 2 ** 62]), r.choice(['IP4 1.2.3.4', 'IP6 ::1', 'IP4 h.example'])), 's=' + r.choice(['-', ' ', 'a b', 'x=y:z'])]
    o += opt('i=info: a=b', 'u=http://x/?a=b', 'e=a@b (A)', 'p=+1 2') + c + r.choice([[], ['b=AS:64'], ['b=CT:128', 'b=X-Y:1']]) + ['t=' + r.choice(['0 0', '2873397496 2873404696'])]
    o += opt('k=prompt', 'a=recvonly', 'a=group:BUNDLE 1 2', 'a=x:y:z=w', 'a=x')
    for _ in range(r.randint(1, 3)):
        o.append('m=' + r.choice(['audio 4000 RTP/AVP 0 8 101', 'audio 0 RTP/AVP 0', 'video 5004 RTP/SAVPF 96 97', 'image 4002 udptl t38', 'application 9 UDP/DTLS/SCTP webrtc-datachannel', 'message 2855 TCP/MSRP *', 'audio 65535 RTP/SAVP 18']))
        o += opt('i=title') + (['c=' + adr()] if not c or r.random() < .4 else []) + r.choice([[], ['b=AS:64'], ['b=CT:128', 'b=X-Y:1']]) + opt('k=clear:x', 'a=rtpmap:101 telephone-event/8000', 'a=fmtp:101 0-15', 'a=sendrecv', 'a=ptime:20', 'a=candidate:1 1 UDP 2 10.0.0.1 3 typ host', 'a=crypto:1 A inline:b=|2^20', 'a=ptime:20')
    return '\r\n'.join(o) + '\r\n'
def multi(r):
    b = r.choice(['bnd1', 'a-b=c', 'x y', "q'()+_,./:?z"])
    ct = 'multipart/mixed%s=%s' % (r.choice([';boundary', '; boundary', ' ; boundary']), b if b == 'bnd1' and r.random() < .5 else '"%s"' % b)
    t = ''
    for i in range(r.randint(1, 3)):
        hs = [h for h in ['Content-Disposition: %s' % r.choice(['render', 'session;handling=optional']), 'Content-ID: <a%d@b>' % i, 'X-Y: z'] if r.random() < .4]
        if r.random() < .8 or not hs: hs.insert(r.randrange(len(hs) + 1), 'Content-Type: ' + r.choice(['text/plain', 'application/x;a="b;c"', 'application/sdp']))
        t += '--%s\r\n%s\r\n\r\n%s\r\n' % (b, '\r\n'.join(hs), r.choice(['one', 'a\r\nb', '', 'x: y\r\n\r\nz', '\u00e9\t']))
    return ct, t + '--%s--\r\n' % b
def content(r):
    x = r.random()
    if x < .5: return r.choice(['application/sdp', 'Application/SDP', 'application/sdp;x=y', 'application/sdp ; charset=utf-8']), sdp(r)
    if x < .75: return multi(r)
    return r.choice([('text/plain', 'a\r\n\r\nb\n'), ('application/dtmf-relay', 'Signal=1\r\nDuration=160\r\n'), ('application/pidf+xml;charset="utf-8"', '<x y="z">\u00e9</x>'), ('application/x;q="a;b\\\\"', '\r\n \r\n')])
def nbody(m):
    """a body, but for where an SDP names the connection and how the parts of a mixed one order their headers"""
    ct = norm(m.hs('content-type')[0]) if m.hs('content-type') else ''
    b = m.body
    if ct.lower().split(';')[0] == 'application/sdp':
        sec = [[]]
        for l in b.split('\r\n'):
            if l.startswith('m='): sec.append([])
            sec[-1].append(l)
        c = [l for l in sec[0] if l.startswith('c=')]
        if len(sec) > 1: sec[0] = [l for l in sec[0] if not l.startswith('c=')]
        b = [[l for l in x if not l.startswith('c=')] + ([l for l in x if l.startswith('c=')] or (c if i else [])) for i, x in enumerate(sec)]
    elif ct.lower().startswith('multipart/mixed;boundary='):
        sep = '--' + ct.split('=', 1)[1].strip('"')
        b = []
        for x in m.body.split(sep):
            h, e, c = x.partition('\r\n\r\n')
            b.append((sorted(re.sub('^[^:]*', lambda g: g.group().lower(), squeeze(l)) for l in h.split('\r\n') if l and squeeze(l).lower() != 'content-type: text/plain'), e, c) if e else x)
    return b
class D:
    codec = 0                       # 1: richer messages; the application reads (+2), copies (+4) before passing them on
    def __init__(self, r):
        vt.reset()
        self.r, self.ev, self.out = r, [], []
        self.net = Net()
        with contextlib.redirect_stdout(io.StringIO()): self.px = None
        self.tm, self.gc = new_stm(self.net, lambda *a: self.recv(*a))
        self.srv = [s for s in self.net.servers if s.up][0]
        with contextlib.redirect_stdout(io.StringIO()): self.px = StatefulProxy(self.gc, DST)
        self.q = {}                 # rid -> [datagram, client address, forwarded datagram, number of responses]
        self.sent = set()
        self.resps = {}             # (rid, n) -> message
        self.bads, self.lazy = [], set()
    def look(self, m):
        """what an application may do with a message: read all of it, put copies of its parts in it"""
        if self.codec & 4: self.copy(m)
        if self.codec & 2:
            for h in m.headers: h.getBody()
            if m.getBody() is not None: m.getBody().parse()
        if self.codec & 8: self.copy(m)
        return m
    def copy(self, m):
        m.headers = [h.getCopy() for h in m.headers]
        if m.getBody() is not None: m.setBody(m.getBody().getCopy())
    def recv(self, req, sip_t=None):
        self.look(req)
        with contextlib.redirect_stdout(io.StringIO()): return self.px.recvRequest(req)
    def us(self): return int(round(vt.now() * 1e4))
    def rid_of(self, m):
        c = m.h1('call-id', '')
        k = '%s %d' % (c, m.cseq()[0])
        return next((i for i, x in self.q.items() if x[4] == k), 0)
    def fwd(self, d, m, rid):
        q = self.q[rid]
        o = Msg(q[0])
        v, w = m.vias(), o.vias()
        mf = m.hs('max-forwards')
        path = per_name(m, ()).get('path', [])
        want_path = q[5]
        op = per_name(o, ()).get('path', [])
        good = (d.addr == DST and curi(m.ruri) == curi(o.ruri) and m.method == o.method and nbody(m) == nbody(o) and [strip_via(x) for x in v[1:]] == [strip_via(x) for x in w]
                and (_param(v[0], 'branch') or '').startswith('z9hG4bK') and _param(v[0], 'branch') not in [_param(x, 'branch') for x in w] and '10.0.0.1' in v[0]
                and len(mf) == 1 and per_name(m, ('via', 'max-forwards', 'path')) == per_name(o, ('via', 'max-forwards', 'path'))
                and (path == op if not want_path else len(path) == len(op) + 1 and path[1:] == op and '10.0.0.1' in path[0] and ';lr' in path[0]))
        q[2] = d.data
        return {'k': 'fwd', 'rid': rid, 'n': int(mf[0]) if mf else -1, 'code': 0, 'good': bool(good)}
    def rel(self, d, m, rid):
        q = self.q[rid]
        o = Msg(q[0])
        n = int(m.h1('x-n', '0'))
        good = d.addr == q[1] and [strip_via(x) for x in m.vias()] == [strip_via(x) for x in o.vias()]
        if n:
            w = Msg(self.resps[rid, n])
            good = good and per_name(m, ('via',)) == per_name(w, ('via',)) and nbody(m) == nbody(w) and m.start == w.start
        else:
            good = good and m.callid() == o.callid() and m.cseq() == o.cseq() and m.ftag() == o.ftag() and (m.ttag() is not None or self.short)
        return {'k': 'rel', 'rid': rid, 'n': n, 'code': m.code, 'good': bool(good)}
    def collect(self, again):
        for d in self.net.take():
            m = Msg(d.data)
            rid = self.rid_of(m)
            if not rid: self.out.append({'k': 'alien', 'rid': 0, 'n': 0, 'code': 0, 'good': False}); continue
            if rid in self.lazy: continue
            if m.req:
                if d.data in self.sent: continue              # retransmitted by the transaction layer
                self.sent.add(d.data)
                self.out.append(self.fwd(d, m, rid))
            else: self.out.append(self.rel(d, m, rid))
    def step(self, e, f):
        self.out, exc, self.short = [], '', e['in'] == 'short'
        try: f(); vt.pump()
        except Exception as ex:
            import traceback
            exc = ''.join(traceback.format_exception(ex))[-700:]
        if vt.exceptions and not exc: exc = vt.exceptions[-1][-1][-700:]
        vt.exceptions.clear()
        if e['in'] in ('bad', 'short'): exc = ''            # complaining is all right
        try: self.collect(e['in'] == 'again')
        except Exception as ex: exc = exc or 'unreadable output: %r' % ex
        p = self.ev[-1] if self.ev else None
        if p and e['in'] == p['in'] == 'tick' and not (p['out'] or p['exc']): self.ev.pop()
        self.ev.append(dict(e, t=self.us(), out=self.out, exc=exc))
    def req(self, mth='REGISTER', mf=70, nvia=1, path=0, body='', cl=None, callid=None):
        r = self.r
        rid = len(self.q) + 1
        cl = cl if cl is not None else r.randrange(3)
        cid, cs = callid or 'c%d@x' % rid, 10 + rid
        vias = ['SIP/2.0/UDP %s:%d;branch=z9hG4bKb%d%s' % (CL[cl][0], CL[cl][1], rid, r.choice(['', ';rport']))] + ['SIP/2.0/UDP 10.5.0.%d:5060;branch=z9hG4bKu%d%d' % (i, i, rid) for i in range(1, nvia)]
        h = [('Via', x) for x in vias] if r.random() < .6 else [('Via', ','.join(vias))]
        if mf >= 0: h.append(('Max-Forwards', '%d' % mf))
        h += [('From', r.choice(['<sip:u%d@dom>;tag=f%d', '"A, \\"B\\" <x>" <sip:u%d@dom;user=phone>;tag=f%d', 'Bob <sip:u%d@dom>;tag=f%d;x=y', 'sip:u%d@dom;tag=f%d', '"Zo\u00eb" <sip:u%d@dom>;tag=f%d']) % (rid, rid)), ('To', r.choice(['<sip:u%d@dom>', '"T, o" <sips:u%d@dom:5061;transport=tcp>', 'sip:u%d@dom']) % rid), ('Call-ID', cid), ('CSeq', '%d %s' % (cs, mth)), ('Contact', r.choice(['<sip:u%d@10.6.0.1:5999>', '<sip:u%d@10.6.0.1:5999>;expires=5;q=0.5, "O, ther" <sip:o@10.6.0.9;a=b>', '*', '<sip:u%d@[2001:db8::1]:5062;ob>;+sip.instance="<urn:uuid:1>"']).replace('%d', str(rid)))]
        if r.random() < .5: h.append(('X-Odd', 'a;b="c, d"'))
        if r.random() < .3: h += [('X-Two', '1'), ('X-Two', '2')]
        if r.random() < .3: h.append(('Authorization', 'Digest username="u", realm="r", nonce="n", uri="sip:dom", response="00"'))
        if path: h.append(('Supported', r.choice(['path', 'timer,path', 'path,100rel'])))
        elif r.random() < .3: h.append(('Supported', 'timer'))
        if path == 2: h.append(('Path', '<sip:p1.dom;lr>'))
        if r.random() < .2:                  # any order, but for that among the Vias (and the like)
            k = [x[0] for x in h]; r.shuffle(k)
            h = [next_of(h, n) for n in k]
        if body: h.append(('Content-Type', r.choice(['text/plain', 'application/x-y;a="b c"', 'text/plain;charset=UTF-8'])))
        if r.random() < .5: h = vary(r, h)
        ruri = 'sip:u%d@dom:5080' % rid
        if self.codec:
            h = [(k, naddr(r, rid, ['']) + ';tag=f%d' % rid + r.choice(PARS) if k == 'From' else naddr(r, rid) if k == 'To' else v) for k, v in h if k not in ('Contact', 'Path')]
            for k in r.sample(sorted(EXTRA), 6): h.append((k, EXTRA[k](r, rid)))
            if body: ct, body = content(r); h = [(k, ct if k == 'Content-Type' else v) for k, v in h]
            ruri = uri(r, rid)
            h = vary(r, h)
        data = build('%s %s SIP/2.0' % (mth, ruri), h, body)
        self.q[rid] = [data, CL[cl], None, 0, '%s %d' % (cid, cs), path > 0 and mth == 'REGISTER', mth]
        self.step({'in': 'req', 'rid': rid, 'mf': mf}, lambda: deliver(self.srv, data, CL[cl]))
        return rid
    def young(self, rid):
        """within the time during which the transaction layer knows the request"""
        return self.us() - next(e['t'] for e in self.ev if e['in'] == 'req' and e['rid'] == rid) < 200000
    def again(self, rid): self.step({'in': 'again', 'rid': rid}, lambda: deliver(self.srv, self.q[rid][0], self.q[rid][1]))
    def resp(self, rid, code, body=''):
        q = self.q[rid]
        if q[2] is None: return
        m = Msg(q[2])
        q[3] += 1
        r = self.r
        to = m.h1('to') + (';tag=t%d' % rid if _param(m.h1('to'), 'tag') is None and code > 100 else '')
        h = [('Via', x) for x in m.vias()] if r.random() < .6 else [('Via', ', '.join(m.vias()))]
        if r.random() < .3: h[0] = ('Via', h[0][1].replace('10.0.0.1', '10.0.0.1', 1))
        h += [('From', m.h1('from')), ('To', to), ('Call-ID', m.callid()), ('CSeq', m.h1('cseq')), ('X-n', '%d' % q[3])]
        if code == 200: h += [('Contact', '<sip:a@1.2.3.4>;expires=60'), ('Contact', '<sip:b@1.2.3.5>;expires=70')][:r.randint(0, 2)]
        if code in (401, 407): h.append(('WWW-Authenticate' if code == 401 else 'Proxy-Authenticate', 'Digest realm="r", nonce="n1"'))
        if body: h.append(('Content-Type', r.choice(['text/plain', 'message/sipfrag;version=2.0'])))
        if r.random() < .5: h = vary(r, h)
        if self.codec:
            for k in r.sample(sorted(EXTRA), 6): h.append((k, EXTRA[k](r, rid)))
            if body: ct, body = content(r); h = [(k, ct if k == 'Content-Type' else v) for k, v in h]
            h = vary(r, h)
        data = build('SIP/2.0 %d %s' % (code, r.choice(['Fine', 'So so', 'Not Good At All'])), h, body)
        self.resps[rid, q[3]] = q.append(data) or data
        self.step({'in': 'resp', 'rid': rid, 'n': q[3], 'code': code}, lambda: deliver(self.srv, data, DST))
    def dup(self, rid):
        """the destination sends a response again"""
        q = self.q[rid]
        if len(q) > 7: self.step({'in': 'dup'}, lambda: deliver(self.srv, q[-1], DST))
    # ---- what nobody should send
    def base(self, rid=None):
        r = self.r
        n = 1000 + len(self.bads)
        h = [('Via', 'SIP/2.0/UDP %s:%d;branch=z9hG4bKx%d' % (CL[0] + (n,))), ('Max-Forwards', '70'), ('From', '<sip:u@dom>;tag=x%d' % n), ('To', '<sip:u@dom>'), ('Call-ID', 'x%d@x' % n), ('CSeq', '7 REGISTER'), ('Contact', '<sip:u@10.6.0.1>')]
        return ['REGISTER sip:dom SIP/2.0', h]
    def respbase(self, rid):
        m = Msg(self.q[rid][2])
        return ['SIP/2.0 200 Fine', [('Via', x) for x in m.vias()] + [('From', m.h1('from')), ('To', m.h1('to') + ';tag=zz'), ('Call-ID', m.callid()), ('CSeq', m.h1('cseq')), ('X-n', '0')]]
    def bad(self, kind=None, of=None):
        r = self.r
        fw = [x for x in self.q if self.q[x][2] is not None]
        kind = kind or r.choice(['junk', 'bytes', 'short', 'short', 'again'] + ['req', 'resp'] * 3)
        if kind == 'again':
            if self.bads:
                k, rid, data, src = r.choice(self.bads)
                self.step({'in': k, 'rid': rid}, lambda: deliver(self.srv, data, src))
            return
        if kind == 'resp' and not fw: kind = 'req'
        rid, src, k = 0, r.choice(CL), 'bad'
        x = 'x%d' % len(self.bads)
        if kind == 'junk': data = r.choice(['\r\n' * 30, 'GET / HTTP/1.0\r\nHost: dom\r\nX: %s, some more of it\r\n\r\n', 'SIP/2.0 ' * 8, '\0' * 50, 'REGISTER sip:dom SIP/2.0\r\n%s, but that is not a header at all\r\n\r\n', 'REGISTER sip:dom SIP/2.0 %s                  ', 'jaK' + ' ' * 40]).replace('%s', x)
        elif kind == 'bytes': data = bytes(r.randrange(128, 256) if r.random() < .5 else r.randrange(256) for _ in range(r.choice([31, 60, 400])))
        else:
            st, h = self.base() if kind in ('req', 'short') else self.respbase(r.choice(fw))
            if kind == 'short':
                if of in fw or of is None and fw and r.random() < .4:          # somebody's request, cut short
                    rid = of or r.choice(fw)
                    q = self.q[rid]
                    m, src = Msg(q[0]), q[1]
                    st, h = m.start, [(a, b) for a, b in m.h if a not in ('content-length', 'content-type')]
                else:
                    rid = len(self.q) + 1
                    self.q[rid] = [build(st, h), src, None, 0, 'x%d@x 7' % (1000 + len(self.bads)), False, 'REGISTER']
                b = r.choice(['', 'abc', 'v=0\r\nand then nothing', 'v=0\r\no=- 1 1 IN\r\n', 'all of it\r\n\r\n'])
                h = h + [('Content-Type', 'text/plain'), ('Content-Length', '%d' % (len(b) + r.choice([7, 8, 40, 1400, 100000]))), ('X-b', x)]
                data, k = build(st, h, b), 'short'
            else:
                j = r.choice(['no', 'no', 'cseq', 'colon', 'line'] + (['status', 'branch', 'method', 'short'] if kind == 'resp' else []))
                if j == 'no': n = r.choice(['via', 'from', 'to', 'call-id', 'cseq']); h = [y for y in h if y[0].lower() != n]
                elif j == 'cseq': h = [(a, r.choice(['x REGISTER', '', 'REGISTER', '-']) if a.lower() == 'cseq' else b) for a, b in h]
                elif j == 'colon': h = h[:3] + [('X', 'y')] + h[3:]
                elif j == 'line': st = r.choice(['REGISTER', 'REGISTER sip:dom', 'REGISTER sip:dom SIP/2.0 x']) if kind == 'req' else r.choice(['SIP/2.0 2x0 OK', 'SIP/2.0 200', 'SIP/2.0 '])
                elif j == 'status': st = 'SIP/2.0 %d Odd' % r.choice([0, 99, 1000, 99999])
                elif j == 'branch': h[0] = ('Via', h[0][1].replace('branch=', 'branch=z9hG4bKq'))
                elif j == 'method': h = [(a, b.split()[0] + ' OPTIONS' if a == 'CSeq' else b) for a, b in h]
                elif j == 'short': h = h + [('Content-Length', '500'), ('Content-Type', 'text/plain')]
                if j == 'line' and st == 'SIP/2.0 200': st = 'SIP/2.0 x'
                data = build(st, h + [('X-b', x)], 'abc' if j == 'short' else '')
                if j == 'colon': data = data.replace('X: y', 'X y')
        self.bads.append((k, rid, data, src))
        self.step({'in': k, 'rid': rid}, lambda: deliver(self.srv, data, src))
    def adv(self, dt):
        end = vt.now() + dt
        while True:
            ds = sorted(x.etime.monot - vt.BASE_MONO for x in ED2.tlisteners if x.cb_func is not None)
            if not ds or ds[0] > end: break
            self.step({'in': 'tick'}, lambda: vt.advance(max(0, ds[0] - vt.now()) + 1e-9))
        if end > vt.now(): self.step({'in': 'tick'}, lambda: vt.advance(end - vt.now()))
def run_sched(s):
    r = random.Random(s.get('seed', 0)); random.seed(s.get('seed', 0))
    d = D(r)
    d.codec = s.get('codec', 0)
    if 'walk' in s:
        for e in s['walk']:
            k = e['in']
            d.adv(.01)
            if k == 'req': d.req(mf=e['mf'], path=r.randint(0, 2))
            elif k == 'again': d.young(e['rid']) and d.again(e['rid'])
            elif k == 'resp': d.resp(e['rid'], e['code'])
            elif k == 'dup': d.dup(e['rid'])
            elif k == 'bad': d.bad(r.choice(['req', 'resp', 'junk']))
            elif k == 'short': d.bad('short', e['rid'])
            elif k == 'tick': d.adv(33)
        d.adv(70)
        return {'ev': d.ev}
    for i in range(s['steps']):
        k = r.random()
        live = [x for x in d.q if not d.q[x][4].startswith('x')]
        if k < .2 or not live: d.req(r.choice(['REGISTER', 'REGISTER', 'SUBSCRIBE', 'MESSAGE']), r.choice([70, 70, 2, 1, 0, -1, 10, 255]), r.randint(1, 3), r.choice([0, 0, 1, 2]),
                                     r.choice(['', '', 'hello\r\nworld\r\n', 'na\u00efve\r\n\r\nmore', 'one line']), callid=r.choice([None, None, 'same@x']))
        elif k < .3:
            x = r.choice(live)
            if d.young(x): d.again(x)
        elif k < .65: d.resp(r.choice(live[-3:]), r.choice([100, 180, 183, 200, 200, 202, 302, 401, 407, 404, 408, 500, 503, 603]), r.choice(['', '', 'body\r\n']))
        elif k < .7: d.dup(r.choice(live[-3:]))
        elif k < .7 + s.get('bad', .02): d.bad()
        else: d.adv(r.choice([.002, .03, .3, .6, 2, 4, 9, 31] + [40] * (r.random() < .2)))
    d.adv(70)
    return {'ev': d.ev}
