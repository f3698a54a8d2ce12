"""Driver: nonces and credentials of digest authentication."""
import vt, random, hashlib, base64, secrets
from sippy.Security import SipNonce as N
from sippy.SipAuthorization import SipAuthorization
from sippy.SipProxyAuthorization import SipProxyAuthorization
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
from sippy.SipProxyAuthenticate import SipProxyAuthenticate
from sippy.SipHeader import SipHeader

BIT = {'none': N.DGST_MD5, 'MD5': N.DGST_MD5, 'MD5-sess': N.DGST_MD5SESS, 'SHA-256': N.DGST_SHA256, 'SHA-256-sess': N.DGST_SHA256SESS,
       'SHA-512-256': N.DGST_SHA512, 'SHA-512-256-sess': N.DGST_SHA512SESS}
HF = {'MD5': 'md5', 'SHA-256': 'sha256', 'SHA-512-256': 'sha512_256'}
ALGS = list(BIT)

# ---- what RFC 7616 says, independent of the code -------------------------
def answer(g):
    alg = 'MD5' if g['alg'] == 'none' else g['alg']
    hn = HF.get(alg[:-5] if alg.endswith('-sess') else alg, 'md5')
    H = lambda *p: hashlib.new(hn, ':'.join(p).encode()).hexdigest()
    ha1 = H(g['user'], g['realm'], g['pw'])
    if alg.endswith('-sess'): ha1 = H(ha1, g['nonce'], g['cnonce'])
    a2 = [g['meth'], g['uri']]
    if g['qop'] == 'auth-int': a2.append(H(g['body']))
    if g['qop'] != 'none' and g['nc'] and g['cnonce']:
        return H(ha1, g['nonce'], g['nc'], g['cnonce'], g['qop'], H(*a2)), ha1
    return H(ha1, g['nonce'], H(*a2)), ha1

VAL = {'user': 'alice', 'realm': 'sip.example.com', 'uri': 'sip:bob@example.com', 'nc': '0000000', 'cnonce': '0a4f113b', 'meth': 'INVITE',
       'body': 'v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\n', 'pw': 'secret pass'}
SYM = {'u': 'user', 'r': 'realm', 'l': 'uri', '1': 'nc', 'c': 'cnonce', 'm': 'meth', 'b': 'body', 'p': 'pw'}

class D:
    def __init__(self, r):
        vt.reset()
        self.r, self.ev, self.nonces = r, [], {}
        self.form = 0
    def ms(self): return int(round(vt.now() * 1000))
    def issue(self, id, algs):
        err = ''
        try:
            if len(algs) == 1 and self.r.random() < .7:
                cls = self.r.choice([SipWWWAuthenticate, SipProxyAuthenticate])
                ch = cls(algorithm=None if algs[0] == 'none' else algs[0])
                n = cls(str(ch))                        # as the peer reads it
                n.parse()
                n = n.getNonce()
            else:
                n = N.HashOracle().emit_challenge(tuple(BIT[a] for a in algs))
        except Exception as ex: n, err = '', repr(ex)
        self.nonces[id] = n
        self.ev.append({'in': 'issue', 'id': id, 'algs': list(algs), 't': self.ms(), 'err': err})
    def alter(self, n, tam):
        r = self.r
        if tam == 'no': return n
        raw = base64.b64decode(n + '=' * (-len(n) % 4))
        enc = lambda b: base64.b64encode(b).decode().rstrip('=')
        if tam in ('flip', 'flipmac'):
            k = r.randrange(32) if tam == 'flip' else r.randrange(32, 48)
            b = bytearray(raw); b[k] ^= 1 << r.randrange(8); return enc(bytes(b))
        if tam == 'short': return r.choice([n[:-4], n[4:], n[:-1], n[:20], enc(raw[:-1]), enc(raw[1:])])
        if tam == 'long': return r.choice([n + 'AAAA', 'AAAA' + n, n + n, enc(raw + b'\0'), n + 'A'])
        if tam == 'junk':
            k = r.randrange(len(n) + 1)
            return n[:k] + r.choice(['-', '!', '_', ':', '\u00e9', ' ', '.']) + n[k:]
        if tam == 'pad': return n + r.choice(['=', '==', '===', '===='])
        if tam == 'empty': return r.choice(['=', '==', 'A', 'AAAA', '~'])
        if tam == 'foreign':
            H2 = type('H2', (N.HashOracle,), {'key': secrets.token_bytes(64)})
            return H2().emit_challenge(tuple(BIT.values()))
        if tam == 'swap': return enc(raw[16:32] + raw[:16] + raw[32:])
        if tam == 'case': return n.swapcase()
        return r.choice(['deadbeefdeadbeef', 'dcd98b7102dd2f0e8b11d0f600bfb0c093', '\u0434\u0430', '%00', 'null', '0' * 64])
    def validate(self, id, tam, algs):
        err, res = '', False
        try: res = bool(N.HashOracle().validate_challenge(self.alter(self.nonces[id], tam), tuple(BIT[a] for a in algs)))
        except Exception as ex: err = repr(ex)
        self.ev.append({'in': 'validate', 'id': id, 'tam': tam, 'algs': list(algs), 't': self.ms(), 'res': res, 'err': err})
    def conc(self, sym, field):
        """concrete text for a symbolic value"""
        if sym == '': return ''
        if field in ('alg', 'qop'): return sym
        base = sym.rstrip('2'); k = len(sym) - len(base)
        v = VAL[SYM[base]]
        if field == 'nc': return '00000001' if k == 0 else '00000002'
        if field == 'meth': return v if k == 0 else 'REGISTER'
        return v + '2' * k
    def verify(self, c):
        r = self.r
        f, g = c['f'], c['g']
        n = self.alter(self.nonces[c['id']], c['tam'])
        cf = {k: self.conc(f[k], k) for k in ('user', 'realm', 'uri', 'alg', 'qop', 'nc', 'cnonce')}
        cf['nonce'] = n if f['nonce'] else ''
        cg = {k: self.conc(g[k], k) for k in ('user', 'realm', 'uri', 'alg', 'qop', 'nc', 'cnonce', 'meth', 'body', 'pw')}
        cg['nonce'] = n if g['nonce'] == 'n' else secrets.token_hex(8)
        resp, _ = answer(cg)
        rt = c['rtam']
        if rt == 'flip':
            k = r.randrange(len(resp)); resp = resp[:k] + ('0' if resp[k] != '0' else '1') + resp[k + 1:]
        elif rt == 'short': resp = r.choice([resp[:-1], resp[1:], resp[:16], resp[:1]])
        elif rt == 'long': resp = r.choice([resp + '0', '0' + resp, resp + resp])
        elif rt == 'empty': resp = r.choice(['0', 'None', '*'])
        elif rt == 'upper': resp = r.choice(['g' * len(resp), '\u00e9' * 32, 'x' + resp[1:]])
        if not f['resp']: resp = ''
        text = self.header(cf, resp, c)
        pw, meth = self.conc(c['pw'], 'pw'), self.conc(c['meth'], 'meth')
        body = self.conc(c['body'], 'body')
        err, res = '', False
        try:
            k = r.randrange(4)
            if k == 0: h = SipAuthorization(text)
            elif k == 1: h = SipProxyAuthorization(text)
            elif k == 2: h = SipAuthorization(text).getCopy()
            else:
                hf = SipHeader('%s: %s' % (r.choice(['Authorization', 'Proxy-Authorization']), text.strip()))
                h = hf.body
            if r.random() < .8: res = h.verify(pw, meth, body)
            else:
                _, ha1 = answer(dict(cg, **{k: v for k, v in cf.items() if v or k in ('nc', 'cnonce')}, pw=pw))
                res = h.verifyHA1(ha1.encode(), meth, body)
            if res is not True and res is not False: err = 'verdict %r' % (res,)
            if r.random() < .1 and h.verify(pw, meth, body) is not res: err = 'second verdict differs'
        except Exception as ex: err = '%s: %s' % (type(ex).__name__, ex)
        self.ev.append({'in': 'verify', 'c': c, 't': self.ms(), 'res': bool(res), 'err': err, 'text': text})
    def own(self, id, alg, qop, dev):
        # the code's own answer to its own challenge, as a peer running the same code gives it
        r = self.r
        f = honest(alg, qop)
        c = dict(parses=True, f=f, g=dict(f, meth='m', body='b', pw='p'), meth='m', body='b', pw='p', rtam='no', id=id, tam='no', bad='')
        if dev: c[dev] += '2'
        err, res, text = '', False, ''
        try:
            chs = 'Digest realm="%s",nonce="%s"' % (VAL['realm'], self.nonces[id])
            if alg != 'none': chs += r.choice([',algorithm=%s', ', algorithm=%s']) % alg
            if qop != 'none': chs += r.choice([',qop="auth,auth-int"', ', qop="auth-int,auth"', ',qop="auth-int, auth"'])
            if r.random() < .5: chs += ',opaque="xx"'
            cls = r.choice([SipWWWAuthenticate, SipProxyAuthenticate])
            ch = cls(chs); ch.parse()
            if r.random() < .5: ch = ch.getCopy()
            a = ch.genAuthHF(VAL['user'], VAL['pw'], VAL['meth'], VAL['uri'], VAL['body'], None if qop == 'none' else qop)
            text = str(a)
            h = ch.aclass(text)
            res = h.verify(self.conc(c['pw'], 'pw'), self.conc(c['meth'], 'meth'), self.conc(c['body'], 'body'))
        except Exception as ex: err = '%s: %s' % (type(ex).__name__, ex)
        self.ev.append({'in': 'verify', 'c': c, 't': self.ms(), 'res': bool(res), 'err': err, 'text': text})
    def support(self, alg, qops):
        err, res = '', [False, 'none']
        try:
            t = 'Digest realm="x",nonce="y"'
            if alg != 'none': t += ',algorithm=' + alg
            if qops: t += ',qop="%s"' % self.r.choice([',', ', ']).join(qops)
            h = self.r.choice([SipWWWAuthenticate, SipProxyAuthenticate])(t); h.parse()
            ok, q = h.supportedAlgorithm()
            res = [bool(ok), q or 'none']
        except Exception as ex: err = '%s: %s' % (type(ex).__name__, ex)
        self.ev.append({'in': 'support', 'alg': alg, 'qops': qops, 'res': res[0], 'qop': res[1], 'err': err})
    def header(self, cf, resp, c):
        r = self.r
        ps = []
        def add(n, v, q=True):
            if v == '': return
            nm = n if r.random() < .9 else n.capitalize()
            ps.append(('%s="%s"' if q else '%s=%s') % (nm, v))
        add('username', cf['user']); add('realm', cf['realm']); add('nonce', cf['nonce']); add('uri', cf['uri']); add('response', resp)
        if cf['alg'] == 'empty': ps.append('algorithm=""')
        elif cf['alg'] != 'none': add('algorithm', cf['alg'], r.random() < .3)
        if cf['qop'] != 'none': add('qop', cf['qop'], r.random() < .5)
        add('nc', cf['nc'], False); add('cnonce', cf['cnonce'])
        if r.random() < .3: ps.append('opaque="abc"')
        r.shuffle(ps)
        sep = r.choice([',', ', '])
        bad = c.get('bad', '')
        if not c['parses']:
            if bad == 'nospace': return r.choice(['Digest', 'Digest,', 'garbage', ','])
            if bad == 'noeq': ps.insert(r.randrange(len(ps) + 1), r.choice(['stale', 'nonce', '""']))
            elif bad == 'basic': return 'Basic QWxhZGRpbjpvcGVuIHNlc2FtZQ'
            elif bad == 'empty': return r.choice(['Digest  ', 'Digest ,', 'Digest ,,'])
            elif bad == 'scheme': return sep.join(p.replace(' ', '') for p in ps).replace(' ', '')
            elif bad == 'comma': ps.insert(r.randrange(len(ps) + 1), '')
        return 'Digest ' + sep.join(ps)

def honest(alg, qop):
    s = qop != 'none' or alg.endswith('-sess')
    return dict(user='u', realm='r', nonce='n', uri='l', resp='y', alg=alg, qop=qop, nc='1' if qop != 'none' else '', cnonce='c' if s else '')

DEV = [(k, 'miss') for k in ('user', 'realm', 'nonce', 'uri', 'resp', 'nc', 'cnonce')] + [(k, 'other') for k in ('user', 'realm', 'uri', 'alg', 'qop', 'nc', 'cnonce', 'nonce')] + \
      [(k, 'here') for k in ('meth', 'body', 'pw')]
TAMS = ['flip', 'flipmac', 'short', 'long', 'junk', 'pad', 'empty', 'foreign', 'swap', 'text', 'case']

def run_sched(s):
    r = random.Random(s.get('seed', 0))
    d = D(r)
    if 'walk' in s:
        for e in s['walk']:
            if e['in'] == 'issue': d.issue(e['id'], sorted(e['algs']))
            elif e['in'] == 'age': vt.advance(e['dt'] / 1000.0)
            elif e['in'] == 'verify': d.verify(e['c'])
        return {'ev': d.ev}
    ids = []
    for _ in range(s['steps']):
        k = r.random()
        if k < .15 or not ids:
            id = 'n%d' % len(ids); ids.append(id)
            d.issue(id, [r.choice(ALGS)] if r.random() < .6 else r.sample(ALGS, r.randint(2, 7)))
        elif k < .35: vt.advance(r.choice([.001, .5, 1, 8, 15.999, 16, 31.999, 32, 32.001, 40, 3600]))
        elif k < .38: d.support(r.choice(ALGS + ['SHA-1', 'AKAv1-MD5']), r.choice([[], ['auth'], ['auth-int'], ['auth', 'auth-int'], ['auth-int', 'auth'], ['auth-conf'], ['x', 'auth']]))
        elif k < .44:
            id = r.choice(ids[-3:])
            al = [e for e in d.ev if e['in'] == 'issue' and e['id'] == id][0]['algs']
            alg = r.choice(al)
            qop = 'none' if alg == 'none' else r.choice(['auth', 'auth-int'] + ([] if alg.endswith('-sess') else ['none']))
            d.own(id, alg, qop, r.choice([None, None, 'meth', 'body', 'pw']))
        elif k < .5: d.validate(r.choice(ids), 'no' if r.random() < .6 else r.choice(TAMS), r.sample(ALGS, r.randint(0, 3)))
        else:
            id = r.choice(ids[-3:])
            al = d.ev and [e for e in d.ev if e['in'] == 'issue' and e['id'] == id][0]['algs']
            alg = r.choice(al) if r.random() < .9 else r.choice(ALGS)
            f = honest(alg, r.choice(['none', 'auth', 'auth-int']))
            g = dict(f, meth='m', body='b', pw='p')
            c = dict(parses=True, f=f, g=g, meth='m', body='b', pw='p', rtam='no', id=id, tam='no', bad='')
            if r.random() < .6:
                for x, how in r.sample(DEV, r.choice([1, 1, 1, 2, 3])):
                    if how == 'miss': f[x] = ''
                    elif how == 'here': c[x] += '2'
                    elif x == 'alg': f['alg'] = r.choice(ALGS + ['SHA-1', 'empty'])
                    elif x == 'qop': f['qop'] = r.choice(['none', 'auth', 'auth-int', 'auth-conf'])
                    elif x == 'nonce': g['nonce'] = 'n2'
                    elif f[x]: f[x] += '2'
            if r.random() < .1: c['tam'] = r.choice(TAMS)
            if r.random() < .1: c['rtam'] = r.choice(['flip', 'short', 'long', 'empty', 'upper'])
            if r.random() < .06: c['parses'] = False; c['bad'] = r.choice(['nospace', 'noeq', 'basic', 'empty', 'scheme', 'comma'])
            d.verify(c)
    return {'ev': d.ev}
