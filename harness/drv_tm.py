"""Driver: runs the real SIP transaction layer on schedules of inputs and records the outputs."""
import vt, random, json, hashlib
import sipnet
from sipnet import Net, Msg, new_stm, deliver, build, reply_to
from sippy.SipRequest import SipRequest
from sippy.SipURL import SipURL
from sippy.SipVia import SipVia
from sippy.SipFrom import SipFrom
from sippy.SipTo import SipTo
from sippy.SipAddress import SipAddress
from sippy.SipCallId import SipCallId
from sippy.SipExpires import SipExpires
from sippy.SipHeader import SipHeader
from sippy.SipGenericHF import SipGenericHF
from sippy.SipTransactionManager import SipTransactionManager

TICK = 0.5

class Consumer:
    def __init__(self, drv, name, accept=True):
        self.drv, self.name, self.accept = drv, name, accept
    def isYours(self, req):
        return self if self.accept else None
    def recvRequest(self, req, t):
        return self.drv.on_request(req, t, self.name)

class TM:
    def __init__(self, pr=0):
        vt.reset()
        self.pr = pr
        self.net = Net()
        self.tm, self.gc = new_stm(self.net, lambda req, t: self.on_request(req, t, 'gen'),
                                   provisional_retr=pr * TICK)
        self.srv = [s for s in self.net.servers if s.up][0]
        vt.advance(0.25)
        self.ev = []
        self.cur = None
        self.t0 = vt.now()
        self.cinst = {}      # id -> dict for client transactions
        self.sinst = {}      # id -> dict for server transactions
        self.sent = {}       # (bytes, addr) -> label
        self.sums = {}       # datagram -> number
        self.base_timers = vt.live_timers()
        self.base_tab = self.tables()
        self.stk = 0

    # -- recording ----------------------------------------------------------
    def out(self, o):
        at = (vt.now() - self.t0) / TICK
        at = int(at) if at == int(at) else round(at, 4)
        if isinstance(at, float):      # off the grid: keep it visible to the checker
            at = int(at * 1000) + 1000000
        self.cur['out'].append({'at': at, 'o': o})

    def begin(self, e):
        e.setdefault('out', [])
        e['exc'] = ''
        self.cur = e
        self.t0 = vt.now()
        self.ev.append(e)

    def flush(self):
        for d in self.net.take():
            self.label(d)

    def label(self, d):
        # time of sending is that of the datagram
        at = (d.t - self.t0) / TICK
        at = int(at) if at == int(at) else int(at * 1000) + 1000000
        key = (d.data, d.addr)
        dst = '%s:%s' % d.addr
        if key in self.sent:
            o = dict(self.sent[key]); o['rep'] = True
        else:
            try:
                o = self.describe(d, dst)
            except Exception as ex:
                o = {'k': 'req', 'id': '?unreadable', 'm': str(ex), 'dst': dst}
            self.sent[key] = dict(o)
            o['rep'] = False
        if o['k'].startswith('rsp') and o['n'] == 0 and o['code'] in (200, 481, 482):
            o['rep'] = False      # answers the layer makes up itself look the same every time
        self.cur['out'].append({'at': at, 'o': o})

    def describe(self, d, dst):
        m = Msg(d.data)
        cs, meth = m.cseq()
        if m.req:
            if m.method == 'ACK':
                user = m.ruri.split(':', 1)[1].split('@')[0].split('-')[0]
                iid = user
                inst = self.cinst.get(iid)
                br = 'same'
                ok = False
                if inst is not None:
                    br = 'same' if m.branch() == inst['branch'] else 'new'
                    ok = (m.callid() == inst['callid'] and m.ftag() == inst['ftag'] and cs == inst['cseq']
                          and meth == 'ACK')
                if br == 'new' and (m.branch() in self.seen_br or not m.branch().startswith('z9hG4bK')):
                    br = 'reused'
                self.seen_br.add(m.branch())
                return {'k': 'ack', 'id': iid if ok else '?' + str(iid), 'ruri': m.ruri, 'dst': dst,
                        'rts': [x.strip('<>') for x in m.hs('route')], 'tag': m.ttag() or '', 'br': br}
            for iid, inst in self.cinst.items():
                if (m.callid(), m.ftag(), cs, m.branch()) == (inst['callid'], inst['ftag'], inst['cseq'], inst['branch']):
                    if m.method == inst['m'] and meth == m.method:
                        return {'k': 'req', 'id': iid, 'm': m.method, 'dst': dst}
                    if m.method == 'CANCEL' and meth == 'CANCEL' and m.ruri == inst['ruri'] and \
                       m.h1('to') == inst['to'] and m.hs('route') == inst['routes']:
                        inst['cancel_data'] = d.data
                        return {'k': 'req', 'id': iid + '!c', 'm': 'CANCEL', 'dst': dst}
            return {'k': 'req', 'id': '?', 'm': m.method, 'dst': dst}
        n = int(m.h1('x-n', '0'))
        iid = '?'
        for sid, inst in self.sinst.items():
            if (m.callid(), m.ftag(), cs, m.branch()) == (inst['callid'], inst['ftag'], inst['cseq'], inst['branch']) \
               and (1 if meth == 'CANCEL' else inst['vias']) == len(m.vias()):
                if meth == 'CANCEL': iid = sid + '!c'
                elif meth == inst['m']: iid = sid
        k = 'rsp'
        if m.code > 100 and not m.ttag() and m.code != 482 and meth != 'CANCEL':
            k = 'rsp-notag'
        if iid in self.sinst and m.code >= 200:
            self.sinst[iid].setdefault('ftag_final', m.ttag())
        if iid in self.sinst and m.code > 100 and m.ttag():
            self.sinst[iid]['ttag'] = m.ttag()
        return {'k': k, 'id': iid, 'code': m.code, 'n': n, 'dst': dst}

    seen_br = None

    def guarded(self, f, *a, **k):
        """Run an application level call; an escaping exception is an output."""
        try:
            f(*a, **k)
            return True
        except Exception as ex:
            return ex

    def rx(self, data, src):
        deliver(self.srv, data, src)

    def sum_of(self, data):
        if isinstance(data, str): data = data.encode()
        return self.sums.setdefault(data, len(self.sums) + 1)

    # -- client side --------------------------------------------------------
    def new(self, id, m='INVITE', exp=0, uack=False, hascb=True, callid='A', ftag='f1', cseq=1, branch=None,
            dst=('10.0.0.9', 5070)):
        if self.seen_br is None: self.seen_br = set()
        branch = 'z9hG4bK' + (branch or id)
        ruri = 'sip:%s@%s:%d' % (id, dst[0], dst[1])
        inst = dict(m=m, callid=callid, ftag=ftag, cseq=cseq, branch=branch, ruri=ruri, dst=dst, data=None, to=None,
                    routes=[], t=None, done=False, uack=uack and m == 'INVITE')
        via = SipVia(); via.setParam('branch', branch)
        fr = SipFrom(address=SipAddress(url=SipURL('sip:me@10.0.0.1'))); fr.setTag(ftag)
        kw = {}
        if m == 'INVITE' and exp > 0:
            kw['expires'] = SipExpires(number=exp)
        req = SipRequest(method=m, ruri=SipURL(ruri), via=via, fr0m=fr, cseq=cseq,
                         callid=SipCallId(body=callid), target=(dst, 'udp'), **kw)
        inv = m == 'INVITE'
        self.cinst[id] = inst
        e = {'in': 'new', 'id': id, 'm': m, 'inv': inv,
             'exp': (exp * 2 if exp > 0 else 600) if inv else 64, 'uack': uack, 'hascb': hascb,
             'dst': '%s:%d' % dst, 'ruri': ruri}
        self.begin(e)
        def cb(resp, t=None):
            self.flush()
            self.out({'k': 'cb', 'id': id, 'code': resp.getSCode()[0]})
            if resp.getSCode()[0] >= 200: inst['done'] = True
            if resp.getSCode()[0] == 408 and self.cur['in'] == 'adv': inst['timedout'] = True
        def go():
            from sippy.SipTransactionManager import SipTransaction
            t = SipTransaction()
            if uack: t.uack = True
            inst['t'] = self.tm.newTransaction(req, cb if hascb else None, cb_ifver=2 if len(id) % 2 else 1, t=t)
        r = self.guarded(go)
        if r is not True:
            self.out({'k': 'refused', 'id': id})
        else:
            if self.net.out:
                inst['data'] = self.net.out[0].data
                try:
                    mm = Msg(inst['data']); inst['to'] = mm.h1('to'); inst['routes'] = mm.hs('route')
                except Exception: pass
        self.flush()
        return e

    def resp(self, id, code, tag='t1', con='', rts=(), var=0, reuse=None):
        """Response `code` to client request id ('x!c' for its CANCEL); var makes the bytes differ."""
        if id.endswith('!c'):
            inst = self.cinst[id[:-2]]; data = inst.get('cancel_data')
        else:
            inst = self.cinst[id]; data = inst['data']
        if data is None:
            return None
        base = id.split('!')[0]
        if con:
            curi = 'sip:%s-k%d@%s' % (base, var % 3, con)
        else:
            curi = ''
        rl = []
        extra = [('X-V', str(var))] if var else []
        for (h, lr) in rts:
            uri = 'sip:%s-r@%s%s' % (base, h, ';lr' if lr else '')
            rl.append({'uri': uri, 'dst': h, 'lr': lr})
            extra.append(('Record-Route', '<%s>' % uri))
        if 200 <= code < 300 and '!' not in id and inst['uack'] and not inst['done'] and not inst.get('timedout'):
            inst['uacked'] = True
        d = reply_to(data, code, 'Reason %d' % code, totag=tag or None, extra=extra,
                     contact='<%s>' % curi if curi else None)
        return self.raw_resp(id, code, tag, con, curi, rl, d)

    def raw_resp(self, id, code, tag, con, curi, rl, d):
        e = {'in': 'resp', 'id': id, 'code': code, 'sum': self.sum_of(d), 'tag': tag, 'con': con, 'curi': curi, 'rts': rl}
        self.begin(e)
        self.rx(d, ('10.0.0.9', 5070))
        self.flush()
        self.last_resp = (id, code, tag, con, curi, rl, d)
        return e

    def again(self, saved):
        """Redeliver an earlier response datagram."""
        return self.raw_resp(*saved)

    def cancel(self, id):
        e = {'in': 'cancel', 'id': id}
        self.begin(e)
        r = self.guarded(self.tm.cancelTransaction, self.cinst[id]['t'])
        if r is not True:
            self.out({'k': 'refused', 'id': id})
        self.flush()

    def sendack(self, id):
        e = {'in': 'sendack', 'id': id}
        self.begin(e)
        self.cinst[id]['acked'] = True
        r = self.guarded(self.tm.sendACK, self.cinst[id]['t'])
        if r is not True:
            self.out({'k': 'refused', 'id': id})
        self.flush()

    # -- server side --------------------------------------------------------
    def mkreq(self, id, m='INVITE', exp=0, callid='S', ftag='g1', cseq=1, branch=None, vhost='10.0.0.20', vport=5060,
              src=('10.0.0.20', 5060), rport=False, loop='', ttag='', vias=1):
        branch = 'z9hG4bK' + (branch or id)
        via = 'SIP/2.0/UDP %s%s;branch=%s%s' % (vhost, ':%d' % vport if vport else '', branch, ';rport' if rport else '')
        h = [('Via', via)]
        for i in range(1, vias):
            h.append(('Via', 'SIP/2.0/UDP 10.0.7.%d;branch=z9hG4bKup%s%d' % (i, id, i)))
        lc = None
        if loop:
            lc = self.cinst[loop]
            h.append(('Via', 'SIP/2.0/UDP 10.0.0.1;branch=%s' % lc['branch']))
            callid, ftag, cseq = lc['callid'], lc['ftag'], lc['cseq']
        h += [('From', '<sip:peer@10.0.0.20>;tag=%s' % ftag), ('To', '<sip:us@10.0.0.1>' + (';tag=' + ttag if ttag else '')),
              ('Call-ID', callid), ('CSeq', '%d %s' % (cseq, m)), ('Contact', '<sip:peer@10.0.0.20:5060>')]
        if exp != 0: h.append(('Expires', str(exp)))
        host = vhost if vhost == src[0] else src[0]
        port = src[1] if rport else (vport or 5060)
        inst = dict(m=m, callid=callid, ftag=ftag, cseq=cseq, branch=branch, src=src, dst='%s:%d' % (host, port), h=h,
                    exp=(exp * 2 if exp > 0 else 600), req=None, loop=loop, vias=len([1 for k, v in h if k == 'Via']), ttag0=ttag)
        return inst

    def req(self, id, inst=None, var=0, mode='cbs', code=0, n=0, hcc=True, hnc=True, **kw):
        """A request arrives (var > 0: same request with different bytes)."""
        if inst is None:
            inst = self.sinst[id] if id in self.sinst else self.mkreq(id, **kw)
        self.sinst[id] = inst
        h = list(inst['h'])
        if var: h.append(('X-Var', str(var)))
        m = inst['m']
        d = build('%s sip:us@10.0.0.1 SIP/2.0' % m, h)
        self.policy = dict(mode=mode, code=code, n=n, hcc=hcc, hnc=hnc)
        e = {'in': 'req', 'id': id, 'm': m, 'sum': self.sum_of(d), 'cid': inst['callid'], 'loop': inst['loop'],
             'exp': inst['exp'], 'mode': 'resp' if mode == 'inline' else mode, 'code': code, 'n': n, 'dst': inst['dst'],
             'hcc': hcc, 'hnc': hnc}
        self.begin(e)
        self.rx(d, inst['src'])
        self.flush()
        return e

    def find_sid(self, req):
        m = Msg(str(req))
        cs, meth = m.cseq()
        for sid, inst in self.sinst.items():
            if (m.callid(), m.ftag(), cs, m.branch()) == (inst['callid'], inst['ftag'], inst['cseq'], inst['branch']) \
               and meth == inst['m']:
                return sid
        return '?'

    def make_rsp(self, sid, req, code, n):
        inst = self.sinst[sid]
        resp = req.genResponse(code, 'App %d' % code)
        resp.appendHeader(SipHeader(name='x-n', body=SipGenericHF(str(n), name='X-N')) if False else SipHeader('X-N: %d' % n))
        if code > 100 and inst.get('ttag') and not inst['ttag0']:
            resp.getHFBody('to').setTag(inst['ttag'])
        return resp

    def on_request(self, req, t, to):
        self.flush()
        sid = self.find_sid(req)
        self.out({'k': 'dlv', 'id': sid, 'm': req.getMethod(), 'to': to})
        if sid == '?':
            return None
        inst = self.sinst[sid]
        inst['req'] = req
        p = self.policy
        ccb = (lambda rtime, rq: (self.flush(), self.out({'k': 'ccb', 'id': sid, 'viareq': rq is not None}))[0]) if p['hcc'] else None
        ncb = (lambda *a: (self.flush(), self.out({'k': 'ncb', 'id': sid}))[0]) if p['hnc'] else None
        if p['mode'] == 'none':
            return None
        if p['mode'] == 'cbs':
            return (None, ccb, ncb)
        resp = self.make_rsp(sid, req, p['code'], p['n'])
        if p['mode'] == 'inline':
            self.tm.sendResponse(resp)
            self.flush()
            return (None, ccb, ncb)
        return (resp, ccb, ncb)

    def rsp(self, id, code, n, wack=False):
        inst = self.sinst[id]
        e = {'in': 'rsp', 'id': id, 'code': code, 'n': n, 'wack': wack}
        self.begin(e)
        if inst['req'] is None:
            self.ev.pop()
            return
        acb = (lambda rq: (self.flush(), self.out({'k': 'acb', 'id': id}))[0]) if wack else None
        resp = self.make_rsp(id, inst['req'], code, n)
        r = self.guarded(self.tm.sendResponse, resp, ack_cb=acb)
        self.flush()
        if r is not True:
            self.out({'k': 'refused', 'id': id})

    def ack(self, id, match=True, var=0, how='tag'):
        inst = self.sinst[id]
        tag = inst.get('ftag_final') or inst.get('ttag')
        callid, ftag, cseq, br = inst['callid'], inst['ftag'], inst['cseq'], inst['branch']
        if tag is None:
            match = False
            tag = 'none'
        elif not match:
            if how == 'tag': tag = 'wrong' + tag
            elif how == 'callid': callid = callid + 'x'
            elif how == 'ftag': ftag = ftag + 'x'
            else: cseq += 100
        # a 2xx ACK has a branch of its own
        via = 'SIP/2.0/UDP 10.0.0.20;branch=%s' % (br if var % 2 == 0 else br + 'ack%d' % var)
        h = [('Via', via), ('From', '<sip:peer@10.0.0.20>;tag=%s' % ftag), ('To', '<sip:us@10.0.0.1>;tag=%s' % tag),
             ('Call-ID', callid), ('CSeq', '%d ACK' % cseq)]
        if var: h.append(('X-Var', str(var)))
        d = build('ACK sip:us@10.0.0.1 SIP/2.0', h)
        e = {'in': 'ack', 'id': id, 'sum': self.sum_of(d), 'match': match and inst.get('ftag_final') is not None}
        self.begin(e)
        self.rx(d, inst['src'])
        self.flush()

    def cxl(self, id, match=True, var=0, how='branch'):
        inst = self.sinst[id]
        br, cseq, callid, ftag = inst['branch'], inst['cseq'], inst['callid'], inst['ftag']
        h = []
        if not match:
            if how == 'branch': br += 'x%d' % var
            elif how == 'cseq': cseq += 100
            elif how == 'callid': callid += 'x'
            else: ftag += 'x'
        via = inst['h'][0][1].replace(inst['branch'], br) if br != inst['branch'] else inst['h'][0][1]
        h = [('Via', via), ('From', '<sip:peer@10.0.0.20>;tag=%s' % ftag), ('To', '<sip:us@10.0.0.1>'),
             ('Call-ID', callid), ('CSeq', '%d CANCEL' % cseq)]
        if var: h.append(('X-Var', str(var)))
        d = build('CANCEL sip:us@10.0.0.1 SIP/2.0', h)
        if not match:
            # responses to it are labelled through a pseudo instance
            pid = id + '~' + how + (str(var) if how == 'branch' else '')
            self.sinst[pid] = dict(inst, branch=br, cseq=cseq, callid=callid, ftag=ftag, m='-', vias=1, req=None)
            id2 = pid
        else:
            id2 = id
        e = {'in': 'cxl', 'id': id2, 'sum': self.sum_of(d), 'match': match, 'dst': inst['dst']}
        self.begin(e)
        self.rx(d, inst['src'])
        self.flush()

    def reg(self, cid, name):
        self.begin({'in': 'reg', 'cid': cid, 'name': name})
        c = Consumer(self, name)
        self.cons = getattr(self, 'cons', {})
        self.cons[cid] = c
        self.tm.regConsumer(c, cid)

    def unreg(self, cid):
        self.begin({'in': 'unreg', 'cid': cid})
        self.tm.unregConsumer(self.cons.pop(cid), cid)

    def noise(self, data, kind):
        e = {'in': 'noise', 'kind': kind, 'sum': self.sum_of(data)}
        self.begin(e)
        self.rx(data, ('10.0.0.66', 5060))
        self.flush()
        # an error response to a malformed request may be sent to its source; nothing else may happen
        e['out'] = [x for x in e['out'] if not (kind == 'badreq' and x['o']['k'].startswith('rsp')
                                                and x['o']['id'] == '?' and x['o']['code'] in (400, 481))]

    def adv(self, n):
        self.begin({'in': 'adv', 'n': n})
        vt.advance(n * TICK)
        self.flush()
        self.cur['out'].sort(key=lambda x: x['at'])

    def late(self):
        """Nothing may happen any more."""
        self.begin({'in': 'late'})
        vt.advance(70)
        self.flush()

    def ev_uack(self, id):
        inst = self.cinst[id]
        return inst.get('uacked', False) and not inst.get('acked')

    def tables(self):
        tot = 0
        for k, v in vars(self.tm).items():
            if isinstance(v, (dict, list, set)) and v is not self.gc:
                tot += len(v)
        return tot

    def quiet(self):
        self.begin({'in': 'quiet'})
        self.cur['tab'] = max(0, self.tables() - self.base_tab)
        self.cur['timers'] = max(0, vt.live_timers() - self.base_timers)

    def trace(self):
        return {'pr': self.pr, 'ev': self.ev}

# ---- schedules ----------------------------------------------------------
def run_graph(walk):
    """Replay a walk through the transition graph of MCSipTM."""
    d = TM()
    for e in walk['walk']:
        i = e['in']
        if i == 'new':
            d.new('c1', m=e['m'], exp=7 if e['m'] == 'INVITE' else 0, uack=e['uack'])
        elif i == 'resp':
            d.resp(e['id'], e['code'], con='10.0.0.9:5071' if e['id'] == 'c1' else '')
        elif i == 'cancel': d.cancel('c1')
        elif i == 'sendack': d.sendack('c1')
        elif i == 'adv': d.adv(e['n'])
        elif i == 'req':
            if 's1' not in d.sinst:
                d.sinst['s1'] = d.mkreq('s1', m=e['m'], exp=7)
            d.req('s1', inst=d.sinst['s1'], var=0 if e['sum'] == 11 else 1, mode=e['mode'], code=e['code'], n=e['n'])
        elif i == 'rsp':
            d.rn = getattr(d, 'rn', 0) + 1
            d.rsp('s1', e['code'], d.rn, wack=True)
        elif i == 'ack': d.ack('s1', match=e['match'])
        elif i == 'cxl': d.cxl('s1', match=e['match'])
        else: raise RuntimeError(i)
    finish(d)
    return d.trace()

def finish(d):
    # the application finishes what it has to finish
    for id, inst in d.cinst.items():
        t = inst['t']
        if t is not None and d.ev_uack(id):
            d.sendack(id)
    for id, inst in d.sinst.items():
        if inst['req'] is not None and inst['m'] not in ('INVITE', '-') and not inst.get('replied'):
            d.rsp(id, 200, 99)
    for cid in list(getattr(d, 'cons', {})): d.unreg(cid)
    d.adv(1300)
    d.quiet()
    d.late()

NOISE = [
    ('short', lambda r: 'x' * r.randint(1, 31)),
    ('badresp', lambda r: 'SIP/2.0 200 OK\r\nVia: nonsense\r\nX: %d\r\n\r\n' % r.random_serial),
    ('badresp', lambda r: 'SIP/2.0 abc OK\r\nX: %d padding padding padding\r\n\r\n' % r.random_serial),
    ('badreq', lambda r: 'INVITE sip:x@y SIP/2.0\r\nX: %d\r\nFrom: <sip:a@b>;tag=1\r\n\r\n' % r.random_serial),
    ('badreq', lambda r: 'garbage %d garbage garbage garbage garbage' % r.random_serial),
    ('badreq', lambda r: 'OPTIONS sip:us@10.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.66;branch=z9hG4bKn%d\r\nFrom: <sip:a@b>;tag=1\r\n'
                         'To: <sip:c@d>\r\nCall-ID: n%d\r\nCSeq: 1 OPTIONS\r\nContent-Length: 100\r\n\r\nshort' % (r.random_serial, r.random_serial)),
]

def run_random(sched):
    r = random.Random(sched['seed'])
    prof = sched['profile']
    d = TM(pr=7 if prof == 'prov' else 0)
    nc = 0; ns = 0; serial = 0; n = 0
    used_c, used_s = set(), set()
    saved = []          # responses seen, for redelivery
    sacks = []
    steps = sched['steps']
    for _ in range(steps):
        serial += 1
        r.random_serial = serial
        acts = []
        if prof in ('client', 'mix'):
            if nc < 4: acts += ['new'] * (3 if nc == 0 else 1)
            if nc: acts += ['resp'] * 6 + ['cancel', 'sendack', 'foreign']
            if saved: acts += ['again'] * 2
        if prof in ('server', 'mix', 'prov'):
            if ns < 4: acts += ['req'] * (3 if ns == 0 else 1)
            if ns: acts += ['dup'] * 2 + ['rsp'] * 5 + ['ack'] * 3 + ['cxl'] * 2
            acts += ['cons']
        if prof == 'mix' and nc: acts += ['loop']
        acts += ['adv'] * 4 + ['noise']
        a = r.choice(acts)
        if a == 'new':
            for _k in range(20):
                key = (r.choice('AB'), r.choice(['f1', 'f2']), r.choice([1, 2]), r.choice(['b1', 'b2', None]), r.choice(['INVITE', 'INVITE', 'INVITE', 'BYE', 'REGISTER']))
                # INVITEs must differ in the dialog part: a CANCEL/ACK identifies them by it
                if key not in used_c and not any(k[:4] == key[:4] for k in used_c): break
            else: continue
            used_c.add(key); nc += 1
            id = 'c%d' % nc
            d.new(id, m=key[4], exp=r.choice([0, 1, 5, 20, 31]), uack=r.random() < .25, hascb=r.random() < .9, callid=key[0], ftag=key[1],
                  cseq=key[2], branch=key[3], dst=('10.0.0.%d' % r.choice([9, 10]), 5070 + nc))
        elif a == 'resp':
            id = r.choice(list(d.cinst))
            if r.random() < .2 and d.cinst[id].get('cancel_data'): id += '!c'
            code = r.choice([100, 100, 180, 183, 183, 200, 200, 202, 302, 401, 486, 500, 603, 199, 299])
            m = d.cinst[id.split('!')[0]]['m']
            rts = []
            if code // 100 == 2 and r.random() < .6:
                rts = [('10.0.5.%d:%d' % (i, 5080 + i), r.random() < .7) for i in range(r.randint(0, 3))]
            con = '10.0.0.%d:%d' % (r.choice([9, 30]), r.choice([5070, 5099])) if r.random() < .8 else ''
            if d.resp(id, code, tag=r.choice(['t1', 't2', '']) if code > 100 else '', con=con, rts=rts, var=r.choice([0, 0, serial])):
                saved.append(d.last_resp)
        elif a == 'again':
            d.again(r.choice(saved[-6:]))
        elif a == 'cancel':
            id = r.choice(list(d.cinst))
            inst = d.cinst[id]
            if inst['m'] == 'INVITE' and not inst['done'] and not inst.get('cxl') and inst['t'] is not None and not d.ev_uack(id):
                inst['cxl'] = True
                d.cancel(id)
        elif a == 'sendack':
            for id in list(d.cinst):
                if d.ev_uack(id): d.sendack(id); break
        elif a == 'foreign':
            id = r.choice(list(d.cinst)); inst = d.cinst[id]
            how = r.choice(['branch', 'cseq', 'method', 'callid', 'ftag'])
            data = inst['data']
            if data is None: continue
            x = reply_to(data, r.choice([180, 200, 486]), 'Foreign', totag='zz', extra=[('X-V', str(serial))])
            if how == 'branch': x = x.replace(inst['branch'], 'z9hG4bKforeign%d' % serial)
            elif how == 'cseq': x = x.replace('CSeq: %d ' % inst['cseq'], 'CSeq: %d ' % (inst['cseq'] + 50))
            elif how == 'method': x = x.replace('CSeq: %d %s' % (inst['cseq'], inst['m']), 'CSeq: %d %s' % (inst['cseq'], 'PRACK'))
            elif how == 'callid': x = x.replace('Call-ID: %s' % inst['callid'], 'Call-ID: %sforeign' % inst['callid'])
            else: x = x.replace('tag=%s' % inst['ftag'], 'tag=%sforeign' % inst['ftag'])
            d.noise(x, 'foreign')
        elif a == 'req':
            for _k in range(20):
                key = (r.choice(['S', 'T']), r.choice(['g1', 'g2']), r.choice([1, 2]), r.choice(['v1', 'v2', 'v3']))
                if key not in used_s: break
            else: continue
            used_s.add(key); ns += 1
            id = 's%d' % ns
            m = r.choice(['INVITE', 'INVITE', 'INVITE', 'BYE', 'OPTIONS'])
            src = r.choice([('10.0.0.20', 5060), ('10.0.0.21', 40000)])
            inst = d.mkreq(id, m=m, exp=0 if prof == 'prov' else r.choice([0, 1, 5, 20, 32, -1]), callid=key[0], ftag=key[1], cseq=key[2], branch=key[3],
                           vhost=r.choice(['10.0.0.20', '10.0.0.20', '192.168.3.3']), vport=r.choice([5060, 5066, 0]), src=src,
                           rport=r.random() < .4, vias=r.choice([1, 1, 2, 3]))
            n += 1
            mode = r.choice(['cbs', 'cbs', 'cbs', 'none', 'resp', 'inline'])
            code = r.choice([100, 180, 200, 404]) if m == 'INVITE' else 200
            d.req(id, inst=inst, mode=mode, code=code, n=n, hcc=r.random() < .8, hnc=r.random() < .8)
            if mode in ('resp', 'inline') and code >= 200: inst['replied'] = True
            if mode == 'none' and m != 'INVITE': inst['replied'] = True
        elif a == 'loop':
            ns += 1
            id = 's%d' % ns
            lid = r.choice(list(d.cinst))
            # the loop check goes by the request's method too
            inst = d.mkreq(id, m=d.cinst[lid]['m'], loop=lid, branch='loop%d' % serial)
            d.req(id, inst=inst, mode='resp', code=500, n=0)
            inst['replied'] = True
            if r.random() < .5: d.req(id, inst=inst, mode='resp', code=500, n=0)
        elif a in ('dup', 'rsp', 'ack', 'cxl'):
            ids = [x for x in d.sinst if '~' not in x and not d.sinst[x]['loop']]
            if not ids: continue
            id = r.choice(ids); inst = d.sinst[id]
            if a == 'dup':
                fin = inst.get('ftag_final') is not None or inst.get('replied')
                if fin or inst['req'] is None:
                    # only byte-identical ones, while they are recognisable
                    if vt.now() - inst.get('tfin', vt.now()) < 31: d.req(id, inst=inst, **POL(d))
                else:
                    if vt.now() - inst.get('t_in', vt.now()) < 31:
                        d.req(id, inst=inst, var=r.choice([0, 0, 1]), **POL(d))
            elif a == 'rsp':
                code = r.choice([100, 180, 183, 200, 200, 404, 486, 302, 503]) if inst['m'] == 'INVITE' else r.choice([100, 200, 200, 481])
                n += 1
                if inst['req'] is not None:
                    d.rsp(id, code, n, wack=r.random() < .5)
                    if code >= 200: inst['replied'] = True; inst.setdefault('tfin', vt.now())
            elif a == 'ack':
                if inst['m'] == 'INVITE':
                    d.ack(id, match=r.random() < .75, var=r.choice([0, 0, serial]), how=r.choice(['tag', 'callid', 'ftag', 'cseq']))
            else:
                d.cxl(id, match=r.random() < .75, var=r.choice([0, 0, serial]), how=r.choice(['branch', 'cseq', 'callid', 'ftag']))
        elif a == 'cons':
            cid = r.choice(['S', 'T'])
            if cid in getattr(d, 'cons', {}):
                if r.random() < .3: d.unreg(cid)
            else: d.reg(cid, 'h%d' % serial)
        elif a == 'adv':
            d.adv(r.choice([1, 1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 64, 65]) if r.random() < .8 else r.randint(1, 130))
        elif a == 'noise':
            kind, f = r.choice(NOISE)
            d.noise(f(r), kind)
    finish(d)
    return d.trace()

def POL(d):
    d.poln = getattr(d, 'poln', 1000) + 1
    return dict(mode='resp', code=599, n=d.poln)

def run_sched(sched):
    return run_graph(sched) if 'walk' in sched else run_random(sched)
