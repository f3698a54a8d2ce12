"""In-memory datagram transport and a minimal, independent SIP message reader/writer."""
import vt
from sippy.Network_server import Network_server, Remote_address
from sippy.Udp_server import Udp_server_opts
from sippy.SipTransactionManager import SipTransactionManager

class Dgram:
    __slots__ = ('t', 'data', 'addr', 'srv')
    def __init__(self, t, data, addr, srv):
        self.t, self.data, self.addr, self.srv = t, data, addr, srv

class Net:
    """Everything the code under test sends ends here."""
    def __init__(self):
        self.out = []
        self.servers = []
    def take(self):
        o, self.out = self.out, []
        return o

class _Q:
    def __init__(self, srv): self.srv = srv
    def put(self, item):
        if item is None:
            return
        data, addr = item
        self.srv.net.out.append(Dgram(vt.now(), data, tuple(addr[:2]), self.srv))
    def get(self): raise RuntimeError('no')

def make_udp(net):
    class FakeUdp(Network_server):
        transport = 'udp'
        def __init__(self, global_config, uopts):
            super().__init__(uopts)
            self.net = net
            self.sendqueue = _Q(self)
            self.up = True
            net.servers.append(self)
        def join(self): pass
        def shutdown(self):
            self.up = False
            super().shutdown()
    return FakeUdp

class Logger:
    level = 0
    def write(self, *a, **k): pass

class GC(dict):
    """global_config look-alike with the attributes which the code uses."""
    def getdefault(self, k, d): return self.get(k, d)
    def checkkey(self, k): return k in self

def new_stm(net, req_cb, gc=None, **attrs):
    if gc is None:
        gc = GC()
    gc.setdefault('_sip_address', '10.0.0.1')
    gc.setdefault('_sip_port', 5060)
    gc.setdefault('_sip_logger', Logger())
    cls = type('STM', (SipTransactionManager,), dict(model_udp_server=(make_udp(net), Udp_server_opts), **attrs))
    tm = cls(gc, req_cb)
    gc['_sip_tm'] = tm
    return tm, gc

def deliver(srv, data, src):
    """A datagram from src arrives at server srv, as the receiver thread would hand it over."""
    if isinstance(data, str):
        data = data.encode()
    from sippy.Core.EventDispatcher import ED2
    ED2.callFromThread(srv.handle_read, data, Remote_address(src, srv.transport), vt.MonoTime())
    vt.pump()

# ---- minimal SIP reader -------------------------------------------------
LONG = {'v': 'via', 'i': 'call-id', 'f': 'from', 't': 'to', 'm': 'contact', 'l': 'content-length',
        'c': 'content-type', 'k': 'supported', 'r': 'refer-to', 'b': 'referred-by'}

def _param(v, name):
    # parameter after the name-addr (or anywhere for Via)
    tail = v.split('>', 1)[1] if '>' in v else v
    for p in tail.split(';')[1:]:
        n, _, x = p.partition('=')
        if n.strip().lower() == name:
            return x.strip()
    return None

class Msg:
    def __init__(self, data):
        if isinstance(data, bytes):
            data = data.decode('utf-8', 'backslashreplace')
        head, _, self.body = data.partition('\r\n\r\n')
        lines = []
        for l in head.split('\r\n'):
            if l[:1] in (' ', '\t') and lines: lines[-1] += ' ' + l.strip()
            else: lines.append(l)
        self.start = lines[0]
        self.h = []
        for l in lines[1:]:
            n, _, v = l.partition(':')
            n = n.strip().lower()
            self.h.append((LONG.get(n, n), v.strip()))
        if self.start.startswith('SIP/2.0 '):
            self.req = False
            p = self.start.split(' ', 2)
            self.code = int(p[1]); self.reason = p[2] if len(p) > 2 else ''
            self.method = self.cseq()[1]
            self.ruri = None
        else:
            self.req = True
            p = self.start.split(' ')
            self.method, self.ruri = p[0], p[1]
            self.code = None
    def hs(self, n): return [v for k, v in self.h if k == n]
    def h1(self, n, d=None):
        v = self.hs(n)
        return v[0] if v else d
    def cseq(self):
        p = self.h1('cseq', '0 ?').split()
        return int(p[0]), p[1]
    def ftag(self): return _param(self.h1('from', ''), 'tag')
    def ttag(self): return _param(self.h1('to', ''), 'tag')
    def callid(self): return self.h1('call-id')
    def vias(self):
        r = []
        for v in self.hs('via'):
            r.extend(x.strip() for x in v.split(','))
        return r
    def branch(self):
        v = self.vias()
        return _param(v[0], 'branch') if v else None

def build(start, hdrs, body=''):
    s = start + '\r\n' + ''.join('%s: %s\r\n' % (k, v) for k, v in hdrs)
    if body is None: body = ''
    if not any(k.lower() == 'content-length' for k, v in hdrs):
        s += 'Content-Length: %d\r\n' % len(body.encode())
    return s + '\r\n' + body

def reply_to(data, code, reason, totag=None, extra=(), body='', contact=None):
    """A response to request `data` as a well behaved peer would write it."""
    m = Msg(data)
    h = []
    for v in m.hs('via'): h.append(('Via', v))
    h.append(('From', m.h1('from')))
    to = m.h1('to')
    if totag and _param(to, 'tag') is None: to += ';tag=' + totag
    h.append(('To', to))
    h.append(('Call-ID', m.callid()))
    h.append(('CSeq', m.h1('cseq')))
    if contact: h.append(('Contact', contact))
    h.extend(extra)
    return build('SIP/2.0 %d %s' % (code, reason), h, body)
