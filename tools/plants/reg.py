import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from plant import plant
PRE = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from %s import *
def need(c, what):
    if not c: print('BROKEN', what); sys.exit(1)
random.seed(1)
'''
A, S, P, M, H = 'sippy/SipRegistrationAgent.py', 'sippy/SipTransactionManager.py', 'sippy/StatefulProxy.py', 'sippy/SipMsg.py', 'sippy/SipHeader.py'
def b(id, edits, needs, breaks, demo):
    drv = 'drv_reg' if id.startswith('C04') else 'drv_proxy'
    plant(id, id[:3], edits, needs, breaks, PRE % drv + demo, ('vt.py', 'sipnet.py', drv + '.py'))
REG1 = '''
d = D(dict(CFG, **%s), random.Random(1))
def ch(n): return {'realm': 'r1', 'nonce': 'n%%d' %% n, 'alg': 'MD5', 'qop': 'auth', 'opaque': ''}
def challenge(): d.adv(.01); d.resp(401, 'Auth', ch=ch(len(d.chs)))
def ok(exp=60): d.adv(.01); d.resp(200, 'OK', [{'u': ME, 'own': True, 'exp': exp}])
def sent(): return [x for e in d.ev for x in e['snd']]
def cbs(): return [x for e in d.ev for x in e['cb']]
d.start()
'''
b('C04-tries-add-up', [(A, '''                self.rok_cb(timer.etime.realt, contact, self.cb_arg)
            self.atries = 0
''', '''                self.rok_cb(timer.etime.realt, contact, self.cb_arg)
''')], 'several renewals each of which is challenged once', 'a challenge is not answered although it is the first in its row', REG1 % '{}' + '''
for i in range(5):
    challenge(); ok(); d.adv(60.5)
need(all(x['ok'] for x in cbs()), cbs())
''')
b('C04-failed-tries-stay', [(A, '''        Timeout(self.doregister, 60)
        self.atries = 0
''', '''        Timeout(self.doregister, 60)
        if self.rfail_cb == None:
            self.atries = 0
''')], 'a registration given up after three answered challenges, then challenged again a minute later', 'the later challenge is reported as a failure at once', REG1 % '{}' + '''
for i in range(4): challenge()
need(len(cbs()) == 1 and not cbs()[0]['ok'], cbs())
d.adv(60.5)
n = len(sent())
challenge()
need(len(sent()) == n + 1 and len(cbs()) == 1, cbs())
''')
b('C04-renewal-after-stop', [(A, '''    def doregister(self):
        if self.dead:
            return
''', '''    def doregister(self):
        if self.rmsg == None:
            return
'''), (A, '''        self.dead = True
        self.rmsg = None
''', '''        self.dead = True
''')], 'stopped between an answer and the renewal', 'the renewal is still sent', REG1 % '{}' + '''
ok(); d.adv(10); n = len(sent()); d.halt(); d.adv(100)
need(len(sent()) == n, sent())
''')
b('C04-two-credentials', [(A, '''                for authorization in self.rmsg.getHFs(rhn):
                    self.rmsg.removeHeader(authorization)
''', '''                if self.atries > 0:
                    for authorization in self.rmsg.getHFs(rhn):
                        self.rmsg.removeHeader(authorization)
''')], 'a renewal that carries earlier credentials is challenged afresh', 'the request carries the old and the new credentials', REG1 % '{}' + '''
challenge(); ok(); d.adv(60.5); challenge()
need(sent()[-1]['w'] == 2, sent()[-1])
''')
PX = '''
d = D(random.Random(1))
def out(): return d.ev[-1]['out']
'''
b('C05-path-below', [(P, '''                    path1 = req.getHF('path')
                    req.insertHeaderBefore(path1, mypath)
''', '''                    req.appendHeader(mypath)
''')], 'a REGISTER that has passed another proxy which added a Path', "the proxy's Path goes below the earlier one", PX + '''
d.r.random = lambda: .99
d.req(path=2)
need(out()[0]['good'], Msg(d.q[1][2]).hs('path'))
''')
b('C05-fold-glued', [(M, "lines[i - 1] += ' ' + lines[i].strip()", "lines[i - 1] += lines[i].strip()")], 'a header field folded over several lines', 'the pieces are glued together without the blank between them', PX + '''
q = build('MESSAGE sip:a@dom SIP/2.0', [('Via', 'SIP/2.0/UDP 10.6.0.1:5060;branch=z9hG4bKf'), ('Max-Forwards', '70'), ('From', '<sip:u@dom>;tag=1'), ('To', '<sip:v@dom>'), ('Call-ID', 'f@x'), ('CSeq', '5 MESSAGE'), ('Subject', 'one' + chr(13) + chr(10) + ' two')])
deliver(d.srv, q, CL[0]); vt.pump()
m = Msg(d.net.take()[0].data)
need(m.h1('subject') == 'one two', m.h1('subject'))
''')
b('C05-second-hop-refused', [(P, '''            if mfval <= 0:
''', '''            if mfval <= req.countHFs('via') - 1:
''')], 'a request with few hops left that has passed several proxies', 'it is refused with 483 although it may go on', PX + '''
d.req(mf=3, nvia=3)
need(out()[0]['k'] == 'fwd', out())
''')
b('C05-silence-after-provisional', [(S, '''                t.teB = Timeout(self.timerB, t.expires, 1, t)
                self.l1rcache''', '''                if t.needack or msg.getSCode()[0] == 100:
                    t.teB = Timeout(self.timerB, t.expires, 1, t)
                self.l1rcache''')], 'a destination that says something provisional and then nothing', 'the requester never gets its 408', PX + '''
d.req(); d.adv(.1); d.resp(1, 100); d.adv(.1); d.resp(1, 183); d.adv(70)
need([o['code'] for e in d.ev for o in e['out'] if o['k'] == 'rel'] == [100, 183, 408], d.ev)
''')
b('S07-four-digit-status', [(S, 'resp.getSCode()[0] < 100 or resp.getSCode()[0] > 999', 'resp.getSCode()[0] < 100')], 'a response with a status above 999 on the branch of a pending request', 'it ends the request and is relayed', PX + '''
d.req()
st, h = d.respbase(1)
d.step({'in': 'bad', 'rid': 0}, lambda: deliver(d.srv, build('SIP/2.0 1200 Odd', h), DST))
need(out() == [], out())
d.resp(1, 200)
need([o['code'] for o in out()] == [200], out())
''')
b('S07-addressed-to-nobody', [(M, '''        if 'to' not in header_names:
            raise Exception('To HF is missed')
''', '')], 'a request without To', 'it is processed and passed on', PX + '''
st, h = d.base()
d.step({'in': 'bad', 'rid': 0}, lambda: deliver(d.srv, build(st, [x for x in h if x[0] != 'To']), CL[0]))
d.adv(2)
need(not [o for e in d.ev for o in e['out']], d.ev)
''')
b('S07-cut-body-accepted', [(M, "elif blen - mblen == 2 and self.__mbody[-2:] == '\\r\\n':", "elif blen - mblen >= 2 and self.__mbody[-2:] == '\\r\\n':")], 'a request cut short of its body just behind a line end', 'it is processed as if it were complete', PX + '''
st, h = d.base()
q = build(st, h + [('Content-Type', 'text/plain'), ('Content-Length', '200')], 'line one' + chr(13) + chr(10))
deliver(d.srv, q, CL[0]); vt.pump()
ms = [Msg(x.data) for x in d.net.take()]
need([m.code for m in ms] == [400], [m.start for m in ms])
''')
