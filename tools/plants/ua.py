import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from plant import plant
H = ('vt.py', 'sipnet.py', 'drv_ua.py')
PRE = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from drv_ua import *
def cbs(d): return [(x['n'], x['at']) for e in d.ev for x in e['cb']]
def wire(d): return [x for e in d.ev for x in e['w']]
def evs(d): return [x['n'] for e in d.ev for x in e['ev']]
def reqs(d, m): return [x for x in wire(d) if x['k'] == 'q' and x['m'] == m]
def need(c, what):
    if not c: print('BROKEN', what); sys.exit(1)
C = lambda **k: dict(CFG0, **k)
'''
plant('U01-second-death', 'U01', [('sippy/UacStateCancelling.py', '''        if self.te != None:
            self.te.cancel()
            self.te = None
        # When the final''', '''        if self.te != None and code < 300:
            self.te.cancel()
            self.te = None
        # When the final''')],
 'an outgoing call cancelled, its INVITE answered by a failure, and 300 s more', 'the dead leg changes state once more and raises', PRE + '''
d = D('uac', C())
d.ctl('try', s='a0'); d.adv(100); d.resp('INVITE', 0, 180); d.adv(100); d.ctl('disconnect'); d.adv(500)
d.resp('INVITE', 0, 487); d.adv(400000)
need([x[0] for x in cbs(d)].count('dead') == 1 and not any(e['exc'] for e in d.ev), d.ev[-1])
''', H)
plant('U01-event-order', 'U01', [('sippy/UA.py', 'event = self.equeue.pop(0)', 'event = self.equeue.pop()')],
 'a session update rejected with 481, which queues two events at once', 'the controller is told that the call ended before it is told that the update failed', PRE + '''
d = D('uac', C())
d.ctl('try', s='a0'); d.adv(100); d.resp('INVITE', 0, 200, s='b0', con='c1'); d.adv(100); d.ctl('update', s='a2'); d.adv(100)
d.resp('INVITE', 1, 481); d.adv(100)
need(evs(d)[-2:] == ['fail', 'disconnect'], evs(d))
''', H)
plant('U02-crossing-2xx', 'U02', [('sippy/UacStateCancelling.py', '''        if code >= 200 and code < 300:
            if resp''', '''        if code == 200:
            if resp''')],
 'a 2xx other than 200 crossing the CANCEL', 'the callee that answered 202 is never released', PRE + '''
for code in (200, 202):
    d = D('uac', C())
    d.ctl('try', s='a0'); d.adv(100); d.resp('INVITE', 0, 180); d.adv(100); d.ctl('disconnect'); d.adv(5)
    d.resp('INVITE', 0, code, s='b', con='c1'); d.adv(1000)
    need(len(reqs(d, 'BYE')) == 1 and len(reqs(d, 'ACK')) == 1, wire(d))
''', H)
plant('U02-bye-during-reinvite', 'U02', [('sippy/UasStateUpdating.py', '''        self.ua.sendUasResponse(487, 'Request Terminated')
        req.sendResponse(200, 'OK')''', '''        req.sendResponse(200, 'OK')''')],
 'a BYE arriving while a re-INVITE of the same peer is waiting for the controller', 'the pending re-INVITE never gets a final response', PRE + '''
d = D('uas', C())
d.req('INVITE', 1, s='b0'); d.adv(10); d.ctl('connect', code=200, s='a0'); d.adv(10); d.ack(1); d.adv(10)
d.req('INVITE', 2, s='b1'); d.adv(10); d.req('BYE', 3); d.adv(100000)
need([x['code'] for x in wire(d) if x['k'] == 'r' and x['cs'] == 2 and x['code'] >= 200][:1] == [487], wire(d))
''', H)
plant('U03-same-cseq', 'U03', [('sippy/UA.py', 'self.rCSeq >= req', 'self.rCSeq > req')],
 'a new request (own branch) reusing the CSeq number of the last one', 'the stale request takes effect', PRE + '''
d = D('uas', C())
d.req('INVITE', 5, s='b0'); d.adv(10); d.ctl('connect', code=200, s='a0'); d.adv(10); d.ack(5); d.adv(10)
d.req('INFO', 5, s='b1'); d.adv(10)
need([x['code'] for x in wire(d) if x['m'] == 'INFO'] == [500] and 'info' not in evs(d), wire(d))
d.req('INFO', 6, s='b1'); d.adv(10)
need([x['code'] for x in wire(d) if x['m'] == 'INFO'] == [500, 200] and 'info' in evs(d), wire(d))
''', H)
plant('U03-strict-route', 'U03', [('sippy/UacStateTrying.py', '''            if not self.ua.routes[0].getUrl().lr:
                self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
''', '''            if not self.ua.routes[0].getUrl().lr:
                if len(self.ua.routes) > 1:
                    self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
''')],
 'a 2xx with a single strict Record-Route', 'in-dialog requests lose the peer contact', PRE + '''
for rr in ([('r1', False)], [('r1', False), ('r2', False)], [('r1', True)]):
    d = D('uac', C())
    d.ctl('try', s='a0'); d.adv(100); d.resp('INVITE', 0, 200, s='b0', con='c2', rr=rr); d.adv(100); d.ctl('disconnect'); d.adv(10)
    b = reqs(d, 'BYE')[0]
    need('c2' in [b['tgt']] + b['rts'], b)
''', H)
plant('U04-lost-limit', 'U04', [('sippy/UA.py', 'self.credit_times.update(new_credit_times)', 'self.credit_times = dict(new_credit_times)')],
 'a credit limit of another kind set while the call is up', 'the original limit no longer ends the call', PRE + '''
d = D('uac', C(cred=15000))
d.ctl('try', s='a0'); d.adv(100); d.resp('INVITE', 0, 200, s='b0', con='c1'); d.adv(100); d.credit(1, d.ms() + 60000); d.adv(20000)
need([x[0] for x in cbs(d)] == ['conn', 'disc'], cbs(d))
''', H)
plant('U04-expiry-after-100', 'U04', [('sippy/UacStateTrying.py', '''            elif code < 200 and self.ua.expire_time != None:
                self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
        if code == 100:''', '''            elif code > 100 and code < 200 and self.ua.expire_time != None:
                self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
        if code == 100:''')],
 'no-reply and expiry limits set, no no-progress limit, and 100 as first response', 'the expiry limit is never armed', PRE + '''
d = D('uac', C(nor=6000, exp=20000))
d.ctl('try', s='a0'); d.adv(100); d.resp('INVITE', 0, 100); d.adv(1000); d.resp('INVITE', 0, 180); d.adv(25000)
need([x[0] for x in cbs(d)][:2] == ['ring', 'disc'] and 19990 < cbs(d)[1][1] < 20010, cbs(d))
''', H)
