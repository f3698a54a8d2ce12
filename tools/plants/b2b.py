import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from plant import plant
H = ('vt.py', 'sipnet.py', 'drv_ua.py', 'drv_b2b.py')
PRE = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from drv_b2b import *
def need(c, what):
    if not c: print('BROKEN', what); sys.exit(1)
def wire(h, i, x): return [o for e in h.ev for z in e['w'] if z['call'] == i and z['leg'] == x for o in z['w']]
def reqs(h, i, x, m): return [o for o in wire(h, i, x) if o['k'] == 'q' and o['m'] == m]
def finals(h, i): return [o['code'] for o in wire(h, i, 'a') if o['k'] == 'r' and o['m'] == 'INVITE' and o['code'] >= 200]
def outs(h): return [o for e in h.ev for o in e['out']]
C = lambda **k: dict(CF0, **k)
R = lambda **k: dict(RT0, **k)
def ok(*routes, **k): return dict(dict(ok=True, routes=list(routes), credit=-1, cli='=', cnam='='), **k)
'''
def b(id, edits, needs, breaks, demo): plant(id, id[:3], edits, needs, breaks, PRE + demo, H)
b('B01-late-update-lost', [('sippy/b2bua.py', 'if self.state not in (CCStateARComplete, CCStateConnected, CCStateDisconnecting) or self.uaO == None:',
  'if self.state not in (CCStateARComplete, CCStateConnected, CCStateDisconnecting) or self.uaO == None or \\\n              (isinstance(event, CCEventUpdate) and len(self.routes) > 0):')],
 'a call answered by a route that was not the last one, and a re-INVITE of the caller', 'the update of the caller never reaches the callee', '''
for routes in ((R(),), (R(), R(d='d2'))):
    h = Hub(C()); h.new(1); h.answer(1, ok(*routes)); h.adv(7)
    o = h.calls[1]['1']; a = h.calls[1]['a']
    o.resp('INVITE', 0, 200, s='b1', tag='p1', con='c1'); h.adv(7); a.ack(1); h.adv(7)
    a.req('INVITE', 2, s='a2'); h.adv(7)
    need(len([q for q in reqs(h, 1, '1', 'INVITE') if q['cs'] > 0]) == 1, wire(h, 1, '1'))
''')
b('B02-cancel-with-routes-left', [('sippy/b2bua.py', 'if self.uaO != None and self.state != CCStateDead:', 'if self.uaO != None and self.state != CCStateDead and len(self.routes) == 0:')],
 'the caller leaves while routes are left', 'the callee being tried is never released', '''
for routes in ((R(),), (R(), R(d='d2'))):
    h = Hub(C()); h.new(1); h.answer(1, ok(*routes)); h.adv(7)
    h.calls[1]['1'].resp('INVITE', 0, 180, tag='p1'); h.adv(7)
    h.calls[1]['a'].cancel(1); h.adv(1000)
    need(len(reqs(h, 1, '1', 'CANCEL')) >= 1, wire(h, 1, '1'))
''')
b('B02-dead-only-failed', [('sippy/b2bua.py', 'if ua == self.uaO and isinstance(self.uaA.state, self.uaA.UaStateDead):', 'if ua == self.uaO and len(self.routes) == 0 and isinstance(self.uaA.state, self.uaA.UaStateDead):')],
 'a call answered by a route that was not the last one, whose outgoing leg dies last', 'the ended call stays in the list of calls', '''
for routes in ((R(),), (R(), R(d='d2'))):
    h = Hub(C()); h.new(1); h.answer(1, ok(*routes)); h.adv(7)
    a, o = h.calls[1]['a'], h.calls[1]['1']
    o.resp('INVITE', 0, 200, s='b1', tag='p1', con='c1'); h.adv(7); a.ack(1); h.adv(7)
    h.oper(1); h.adv(20); a.resp('BYE', 0, 200, tag='p0') if ('BYE', 0) in a.last_out else None; h.adv(20)
    for _ in range(8): h.adv(100000)
    h.left()
    need(h.ev[-1]['calls'] == 0, h.ev[-1])
''')
b('B03-huntstop-inherited', [('sippy/b2bua.py', "self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())", "self.huntstop_scodes = oroute.params.get('huntstop_scodes', self.huntstop_scodes or ())")],
 'a route with stop codes that fails otherwise, followed by one without stop codes that fails with one of them', 'hunting stops although the failed route did not ask for it', '''
h = Hub(C()); h.new(1); h.answer(1, ok(R(hs=[486]), R(d='d2'), R(d='d3'))); h.adv(7)
h.calls[1]['1'].resp('INVITE', 0, 503, tag='p1'); h.adv(7)
h.calls[1]['2'].resp('INVITE', 0, 486, tag='p1'); h.adv(7)
need('3' in h.calls[1] and not finals(h, 1), wire(h, 1, 'a'))
''')
b('B03-static-route-shared', [('sippy/b2bua.py', "routing = [self.global_config['_static_routes'][''].getCopy(),]", "routing = [self.global_config['_static_routes'][''],]")],
 'two calls through the static route with different headers to pass', 'the second call carries the headers of the first', '''
h = Hub(C(authen=False, static=[R(nxh='ra0')]))
h.new(1, xh='xa'); h.adv(100); h.new(2, xh='xb'); h.adv(100)
need(reqs(h, 1, '1', 'INVITE')[0]['num'].endswith('|ra0,xa') and reqs(h, 2, '1', 'INVITE')[0]['num'].endswith('|ra0,xb'), [reqs(h, 1, '1', 'INVITE')[0]['num'], reqs(h, 2, '1', 'INVITE')[0]['num']])
''')
b('B04-late-answer', [('sippy/b2bua.py', '''        # Check that uaA is still in a valid state, send acct stop
        if not isinstance(self.uaA.state, self.uaA.UasStateTrying):''', '''        # Check that uaA is still in a valid state, send acct stop
        if isinstance(self.uaA.state, self.uaA.UaStateDead):''')],
 'the caller gives up before the authorization answer, which the RADIUS client delivers all the same', 'a callee is called for a call that has ended', '''
h = Hub(C()); h.new(1); h.adv(7); h.calls[1]['a'].cancel(1); h.adv(7)
h.answer(1, ok(R())); h.adv(1000)
need('1' not in h.calls[1] and finals(h, 1) == [487], wire(h, 1, 'a'))
''')
b('B04-proxy-credentials', [('sippy/b2bua.py', "req.countHFs('authorization') == 0:", "req.countHFs('authorization') + req.countHFs('proxy-authorization') == 0:")],
 'digest as the only method and an INVITE with credentials for another hop only', 'the call is not challenged, but handed on to authorization by address', '''
for auth in ('none', 'proxy'):
    h = Hub(C(digest=True, donly=True))
    h.new(1, auth=auth); h.adv(10)
    need(finals(h, 1) == [401] and not h.asked, (auth, wire(h, 1, 'a')))
''')
b('B05-stale-accounting', [('sippy/b2bua.py', '''        else:
            self.acctO = None
        self.acctA.credit_time''', '''        self.acctA.credit_time''')],
 'a failed accounted route followed by an unaccounted one that answers', 'a Start record follows the Stop of the failed leg', '''
h = Hub(C()); h.new(1); h.answer(1, ok(R(), R(d='d2', fof=True))); h.adv(7)
h.calls[1]['1'].resp('INVITE', 0, 503, tag='p1'); h.adv(7)
h.calls[1]['2'].resp('INVITE', 0, 200, s='b1', tag='p1', con='c1'); h.adv(7); h.calls[1]['a'].ack(1); h.adv(7)
need([o['k'] for o in outs(h) if o.get('org') == 'originate'] == ['Stop'], outs(h))
''')
b('B05-alive-after-hangup', [('sippy/RadiusAccounting.py', '''        if self.el != None:
            self.el.cancel()
            self.el = None
        if self.iTime''', '''        if self.el != None and origin != None:
            self.el.cancel()
            self.el = None
        if self.iTime''')],
 'a call ended by the operator or by its credit, with periodic records on', 'Alive records follow the Stop', '''
for how in (0, 1):
    h = Hub(C(alive=13000)); h.new(1); h.answer(1, ok(R(d='d2'))); h.adv(7)
    a, o = h.calls[1]['a'], h.calls[1]['1']
    o.resp('INVITE', 0, 200, s='b1', tag='p1', con='c1'); h.adv(7); a.ack(1); h.adv(1007)
    h.oper(1) if how else a.req('BYE', 2)
    h.adv(30000)
    for org in ('answer', 'originate'):
        k = [x['k'] for x in outs(h) if x.get('org') == org]
        need('Stop' not in k or k[-1] == 'Stop', (org, k))
''')
b('B06-route-credit-unlimited', [('sippy/B2B/Route.py', 'if self.credit_time == None or self.credit_time > max_credit_time:', 'if self.credit_time == None or (not self.crt_set and self.credit_time > max_credit_time):')],
 'a route with a credit of its own above the configured maximum', 'the call outlives the maximum', '''
for r in (R(), R(cred=100)):
    h = Hub(C(maxcred=23)); h.new(1); h.answer(1, ok(r, credit=50)); h.adv(7)
    a, o = h.calls[1]['a'], h.calls[1]['1']
    o.resp('INVITE', 0, 200, s='b1', tag='p1', con='c1'); h.adv(7); a.ack(1); h.adv(22000)
    need(not reqs(h, 1, '1', 'BYE'), 'early'); h.adv(1500)
    need(len(reqs(h, 1, '1', 'BYE')) >= 1 and len(reqs(h, 1, 'a', 'BYE')) >= 1, wire(h, 1, '1'))
''')
b('B06-zero-credit-late', [('sippy/b2bua.py', 'if oroute.credit_time == 0 or oroute.expires == 0:', 'if (oroute.credit_time == 0 and rnum == 1) or oroute.expires == 0:')],
 'no credit on a route that is not the first', 'the exhausted route is called and the call lives', '''
h = Hub(C()); h.new(1); h.answer(1, ok(R(), R(d='d2', cred=0), R(d='d3'))); h.adv(7)
h.calls[1]['1'].resp('INVITE', 0, 503, tag='p1'); h.adv(7)
need('2' not in h.calls[1] and '3' in h.calls[1], list(h.calls[1]))
''')
b('B07-restart-kills-setup', [('sippy/b2bua.py', 'return tuple(x for x in self.ccmap if x.state in (CCStateConnected, CCStateARComplete))', '''return tuple(x for x in self.ccmap if x.state == CCStateConnected or \\
          (x.state == CCStateARComplete and len(x.routes) > 0))''')],
 'a restart requested while the last route of a call is ringing', 'the process replaces itself under a call in progress', '''
h = Hub(C()); h.new(1); h.answer(1, ok(R())); h.adv(7)
h.calls[1]['1'].resp('INVITE', 0, 180, tag='p1'); h.adv(7)
h.drain(); h.adv(61500)
need(h.cur['halt'] == '', h.cur['halt'])
''')
b('B07-admit-while-stopping', [('sippy/b2bua.py', 'if self.safe_restart or self.safe_stop:', 'if self.safe_restart or (self.safe_stop and len(self.getActiveCalls()) > 0):')],
 'a call arriving after the stop was requested and before the process leaves, with no active call left', 'a new call is admitted by a process that is about to leave', '''
h = Hub(C()); h.new(1); h.answer(1, ok(R())); h.adv(7)
h.calls[1]['1'].resp('INVITE', 0, 180, tag='p1'); h.adv(7)
h.stop(); h.adv(100); h.new(2); h.adv(10)
need(finals(h, 2) == [503], wire(h, 2, 'a'))
''')
