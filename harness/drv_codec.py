"""SIP messages read, copied, changed and written by an application, against spec/Codec.tla"""
import random, re, io, contextlib
from urllib.parse import unquote
from sipnet import Msg, build
import drv_proxy as G
from sippy.SipRequest import SipRequest
from sippy.SipResponse import SipResponse
from sippy.SipAddressHF import SipAddressHF
from sippy.SipVia import SipVia
MARK = re.compile(r'a=qz(\d+)zq\r\n|(?:[;&]|, ?|-)qz(\d+)zq')
def marks(t): return sorted({int(a or b) for a, b in MARK.findall(t)}), MARK.sub('', t)
def flat(m):
    """the parts of a message as it is on the wire: (name, value) each, last its body"""
    return [(k, x.strip()) for k, v in m.h if k not in ('content-type', 'content-length') for x in (G.split_list(v) if k in G.LISTS else [v])]
def spaced(r, v):
    """blanks where they do not matter: around separators that are in no quotes and no angle brackets"""
    return ''.join(r.choice([' ;', '; ', ' ; ', ';\t']) if x == ';' else r.choice([' =', '= ', ' = ']) if x == '=' else x
                   for x in re.findall(r'"(?:[^"\\\\]|\\\\.)*"|<[^>]*>|[^"<]|.', v))
def message(r):
    n = r.randrange(1, 99)
    mth = r.choice(['INVITE', 'ACK', 'BYE', 'REGISTER', 'REFER', 'SUBSCRIBE', 'FOO'])
    h = [('Via', r.choice(['SIP/2.0/%s h%d.x:5061;branch=z9hG4bK%d;rport', 'SIP/2.0/%s [2001:db8::%d];branch=z9hG4bK.%d;received=10.1.1.1;rport=99', 'SIP/2.0/%s 10.0.0.%d;maddr=1.2.3.4;ttl=3;branch=z9hG4bK%d;x']) % (r.choice(['UDP', 'TCP', 'TLS', 'WSS']), i, i)) for i in range(1, r.randint(2, 4))]
    h += [('From', G.naddr(r, n, ['']) + ';tag=f%d' % n + r.choice(G.PARS)), ('To', G.naddr(r, n)), ('Call-ID', r.choice(['c%d@x', '%d', 'a-b.c!%d*~@[::1]']) % n), ('CSeq', '%d %s' % (r.choice([0, 1, 2 ** 31 - 1]), mth))]
    for k in r.sample(sorted(G.EXTRA), r.randint(2, 8)): h.append((k, G.EXTRA[k](r, n)))
    if r.random() < .3: h = [(k, spaced(r, v) if k in SPACED and r.random() < .6 else v) for k, v in h]
    body = ''
    if r.random() < .75:
        ct, body = G.content(r)
        h.append(('Content-Type', ct))
    if r.random() < .5: h = G.vary(r, h)
    start = '%s %s SIP/2.0' % (mth, G.uri(r, n)) if r.random() < .6 else 'SIP/2.0 %d %s' % (r.choice([100, 200, 404, 699]), r.choice(['OK', 'So so', 'Not, "q" ; <x>']))
    return build(start, h, body)
SPACED = ('From', 'To', 'Via', 'Route', 'Record-Route', 'Contact', 'Refer-To', 'Referred-By', 'Diversion', 'CC-Diversion', 'Path', 'Replaces', 'Reason')
def params(p):
    d = {}
    for x in p: k, e, v = x.partition('='); d[k] = v if e else None
    return d
def url_facts(u):
    m = re.match(r'(sips?):(?:([^@]*)@)?(\[[^]]*\]|[^:;?]*)(?::(\d+))?', u)
    user = m.group(2)
    return [m.group(1), None if user is None else unquote(re.split('[;:]', user)[0]), m.group(3), int(m.group(4) or 5060)]
def url_got(u): return [u.scheme, u.username, u.host, u.getPort()]
def facts(k, v):
    """what is there to be read in a header, by its canonical text; None: nothing this driver knows to ask for"""
    p = G.split(v, ';')
    if k in G.ADDR:
        if v == '*': return ['*']
        m = re.search('<([^<>]*)>$', p[0])
        return url_facts(m.group(1)) + [params(p[1:])]
    if k == 'via':
        a = params(p[1:])
        t, _, h = p[0].rpartition(' ')
        h, port = re.match(r'(\[.*\]|[^:]*)(?::(\d+))?$', h).groups()
        return [a.get('branch'), [a.get('received', h), int(a.get('rport') or port or 5060)], t]
    if k == 'cseq': n, m = v.split(' '); return [int(n), m]
    if k == 'replaces': a = params(p[1:]); return [p[0], a['from-tag'], a['to-tag'], 'early-only' in a]
    if k == 'reason': a = params(p[1:]); return [p[0], int(a['cause']) if 'cause' in a else None, a['text'].strip('"') if 'text' in a else None]
    if v.startswith('Digest '):
        a = params(G.split(v[7:], ','))
        return [a['realm'][1:-1], a['nonce'][1:-1]] + ([a['username'][1:-1], a['response'][1:-1], a['uri'][1:-1]] if 'username' in a else [])
    if k in ('allow', 'supported'): return v.split(',')
    if k in ('expires', 'rseq'): return [int(v)]
    if k == 'warning': c, a, t = v.split(' ', 2); return [int(c), t[1:-1]]
    return None
def got(k, x):
    b = x.getBody()
    if k in G.ADDR:
        if getattr(b, 'asterisk', False): return ['*']
        u = b.getUri()
        pp = {n: u.getParam(n) for n in u.params}
        if k in ('from', 'to') and b.getTag() != pp.get('tag'): return None
        return url_got(b.getUrl()) + [{n: v if v is None or v[:1] == '"' else G.squeeze(v) for n, v in pp.items() if not re.match(r'qz\d+zq$', n)}]
    if k == 'via': return [b.getBranch(), list(b.getTAddr()), '%s/%s' % (b.sipver, b.transport)]
    if k == 'cseq': return [b.getCSeqNum(), b.getCSeqMethod()]
    if k == 'replaces': return [b.call_id, b.from_tag, b.to_tag, b.early_only]
    if k == 'reason': return [b.protocol, b.cause, b.reason]
    if k in ('authorization', 'proxy-authorization'): return [b.realm, b.nonce, b.username, b.response, b.uri]
    if k in ('www-authenticate', 'proxy-authenticate'): return [b.realm, b.nonce]
    if k == 'allow': return [q for q in b.methods if q[:2] != 'qz']
    if k == 'supported': return [q for q in b.caps if q[:2] != 'qz']
    if k in ('expires', 'rseq'): return [b.number]
    if k == 'warning': return [b.code, b.text]
def plain(q): return [MARK.sub('', x) if isinstance(x, str) else x for x in q]
class D:
    def __init__(self, r, data):
        self.r, self.ev = r, []
        m = self.first = Msg(data)
        self.orig = [(k, G.norm(v, k)) for k, v in flat(m)]
        self.parts = len(self.orig) + 1
        self.obj, self.whose = {}, {}
        self.step({'in': 'load'}, lambda: ([], self.load(data, 1)))
        self.row = list(range(1, self.parts + 1))
        self.nm = 0
    def load(self, data, n):
        if isinstance(data, bytes): data = data.decode('utf-8')
        with contextlib.redirect_stdout(io.StringIO()): self.msg = (SipResponse if data.startswith('SIP/2.0 ') else SipRequest)(data)
        if len(self.msg.headers) != self.parts - 1: return False
        for i, x in enumerate(list(self.msg.headers) + [self.msg.getBody()]): self.obj[n + i] = x; self.whose[n + i] = i + 1
        return True
    def step(self, e, f):
        out, exc, same = [], '', True
        try: q = f(); out, same = q if q else ([], True)
        except Exception as ex:
            import traceback
            exc = ''.join(traceback.format_exception(ex))[-700:]
        self.ev.append(dict(e, out=out, same=same, exc=exc))
    def read(self, o):
        def f():
            x = self.obj[o]
            if x is None: return
            good = True
            if self.whose[o] == self.parts:
                x.parse()
                good = self.body_read(x)
                self.why = ('body', self.first.body, x.content)
            else:
                k, v = self.orig[self.whose[o] - 1]
                x.getBody()
                w = facts(k, v)
                good = w is None or plain(got(k, x) or []) == w
                self.why = (k, v, w, w and got(k, x))
            if self.r.random() < .3: str(x)
            return [], good
        self.step({'in': 'read', 'o': o}, f)
    def body_read(self, x):
        m = self.first
        ct = G.norm(m.h1('content-type', '')).lower()
        b = G.nbody(m)
        if ct.split(';')[0] == 'application/sdp':
            return [[q.m_header.stype, q.m_header.port, q.m_header.transport] + [str(z) for z in q.m_header.formats] + plain([q.c_header.addr]) for q in x.content.sections] == \
              [[int(z) if i == 1 else z for i, z in enumerate(l[0][2:].split())] + [next(z for z in l if z.startswith('c=')).split()[2]] for l in b[1:]]
        if isinstance(b, list): return [plain([q.content if isinstance(q.content, str) else ''])[0] for q in x.content.parts] == [q[2] for q in b[1:-1]] and plain([str(q.mtype).partition(';')[0] for q in x.content.parts]) == [self.part_type(q[0]) for q in b[1:-1]]
        return plain([x.content]) == [m.body] and x.getType() == ct.split(';')[0]
    def part_type(self, h): return next((l.split(':', 1)[1].strip() for l in h if l.startswith('content-type:')), 'text/plain').partition(';')[0]
    def copy(self, o):
        n = max(self.obj) + 1
        def f():
            x = self.obj[o]
            if x is None: self.obj[n] = None
            else: self.obj[n] = x.getCopy()
            self.whose[n] = self.whose[o]
        self.step({'in': 'copy', 'o': o, 'n': n}, f)
    def put(self, p, o):
        def f():
            if p == self.parts: self.msg.setBody(self.obj[o])
            else: self.msg.headers[p - 1] = self.obj[o]
            self.row[p - 1] = o
        self.step({'in': 'put', 'p': p, 'o': o}, f)
    def mark(self, o, m=None):
        k = self.marker(o)
        if not k: return
        self.nm += 1
        self.step({'in': 'mark', 'o': o, 'm': self.nm}, lambda: k('qz%dzq' % self.nm))
    def marker(self, o):
        """a change an application may make to this kind of thing"""
        x, r = self.obj[o], self.r
        if x is None: return None
        if self.whose[o] == self.parts:
            def f(q):
                x.parse()
                c = x.content
                if isinstance(c, str): x.content = '-%s' % q + c; return
                if hasattr(c, 'parts'):
                    y = r.choice(c.parts)
                    y.content = '-%s' % q + y.content; return
                s = r.choice(c.sections)
                i = r.randrange(4)
                if i == 0: c.addHeader('a', q)
                elif i == 1: s.addHeader('a', q)
                elif i == 2: s.c_header.addr += '-' + q
                else: c.o_header.username += '-' + q
            return f
        b = x.body
        if isinstance(b, SipAddressHF):
            if self.orig[self.whose[o] - 1][1] == '*': return None
            def f(q):
                b = x.getBody()
                i = r.randrange(4)
                if i == 0: b.getUri().setParam(q)
                elif not b.getUri().hadbrace: b.getUri().setParam(q)
                elif i == 1 and b.getUrl().headers: b.getUrl().headers['X' if 'X' in b.getUrl().headers else next(iter(b.getUrl().headers))] += '-' + q
                else: b.getUrl().other.append(q)
            return f
        if isinstance(b, SipVia): return lambda q: x.getBody().setParam(q)
        a = {'authorization': 'realm', 'proxy-authorization': 'realm', 'www-authenticate': 'realm', 'proxy-authenticate': 'realm', 'reason': 'protocol', 'replaces': 'call_id', 'warning': 'text'}.get(x.name)
        if a: return lambda q: setattr(x.getBody(), a, getattr(x.getBody(), a) + '-' + q)
        a = {'allow': 'methods', 'supported': 'caps'}.get(x.name)
        if a: return lambda q: getattr(x.getBody(), a).append(q)
        return None
    def written(self):
        i = self.r.randrange(4)
        addr = (('10.0.0.1', 5060), 'udp')
        return str(self.msg) if i == 0 else self.msg.localStr(addr, compact=i == 1) if i < 3 else self.msg.localStr()
    def look(self, t):
        m = Msg(t)
        p = [(k, marks(v)) for k, v in flat(m)]
        out = [x[1][0] for x in p]
        q, rest = marks(m.body)
        same = [(k, G.norm(v, k)) for k, (_, v) in p] == self.orig
        # the marks in a message body lie anywhere in it
        m.body = rest
        same = same and G.nbody(m) == G.nbody(self.first) and G.norm(m.h1('content-type', '')) == G.norm(self.first.h1('content-type', '')) and m.h1('content-length') == str(len((t.partition('\r\n\r\n')[2]).encode()))
        a, b = (x.start.split(' ', 2) for x in (m, self.first))
        same = same and (a == b if a[0].startswith('SIP/') else [a[0], G.curi(a[1]), a[2]] == [b[0], G.curi(b[1]), b[2]])
        return out + [q], bool(same)
    def write(self): self.step({'in': 'write'}, lambda: self.look(self.written()))
    def again(self):
        n = max(self.obj) + 1
        def f():
            good = self.load(self.written(), n)
            self.row = list(range(n, n + self.parts))
            return [], good
        self.step({'in': 'again', 'n': n}, f)
    def broken(self): return self.ev[-1]['exc'] or not self.ev[-1]['same']
    def close(self):
        if not self.broken(): self.write()
        return {'parts': self.parts, 'ev': self.ev}
def run_sched(s):
    r = random.Random(s.get('seed', 0)); random.seed(s.get('seed', 0))
    d = D(r, message(r))
    if 'walk' in s:
        # the model's few places are any of the message's; objects are told apart by how they came about
        P = s.get('P', 2)
        m = {p: o for p, o in enumerate(sorted(r.sample(range(1, d.parts + 1), P)), 1)}
        places = dict(m)
        for e in s['walk']:
            k = e['in']
            if d.broken(): break
            if k == 'read': d.read(m[e['o']])
            elif k == 'copy': d.copy(m[e['o']]); m[e['n']] = max(d.obj)
            elif k == 'mark': d.mark(m[e['o']])
            elif k == 'put': d.put(places[e['p']], m[e['o']])
            elif k == 'write': d.write()
            elif k == 'again':
                d.again()
                for p in range(1, P + 1): m[e['n'] + p - 1] = d.row[places[p] - 1]
        return d.close()
    # an application likes a few of the parts best
    fav = r.sample(range(1, d.parts + 1), min(d.parts, r.randint(1, 5))) if r.random() < .7 else list(range(1, d.parts + 1))
    for i in range(s['steps']):
        if d.broken(): break
        os = [o for o in d.obj if d.whose[o] in fav]
        k = r.random()
        if k < .3: d.read(r.choice(os))
        elif k < .5: d.copy(r.choice(os))
        elif k < .7: d.mark(r.choice(os))
        elif k < .9: o = r.choice(os); d.put(d.whose[o], o)
        elif k < .97 : d.write()
        else: d.again()
    return d.close()
