import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from plant import plant
H = ('vt.py', 'drv_rtpp.py')
PRE = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from drv_rtpp import *
def need(c, what):
    if not c: print('BROKEN', what); sys.exit(1)
random.seed(1)
def quick(d, c, t):
    d.adv(.005)
    for k in [k for k in d.pend if d.pend[k][0].startswith(c)]: d.reply(k, t)
def up(**kw):
    d = D(random.Random(1), **kw)
    for i in range(2): quick(d, 'V', '20040107' if i == 0 else '1')
    quick(d, 'I', STATS)
    return d
def ask(d, c, got, *par): d.c.send_command(c, (lambda r, *a, ex=None: got.append(r)) if got is not None else None, *par)
def sent(d, c): return [e['t'] for e in d.ev for x in e['snd'] if x['c'].startswith(c)]
'''
def b(id, edits, needs, breaks, demo): plant(id, id[:3], edits, needs, breaks, PRE + demo, H)
U, C, N = 'sippy/Rtp_proxy/Client/udp.py', 'sippy/Rtp_proxy/client.py', 'sippy/Rtp_proxy/session.py'
b('R02-unattended', [(U, '''            del self.pending_requests[cookie]
            self.go_offline()
            if preq.result_callback != None:
                preq.result_callback(None, *preq.callback_parameters)
            return
''', '''            del self.pending_requests[cookie]
            if preq.result_callback != None:
                self.go_offline()
                preq.result_callback(None, *preq.callback_parameters)
            return
''')], 'a command without a result handler that is never answered', 'the proxy stays online although a command exhausted its tries', '''
d = up()
need(d.c.online, 'online')
d.step({}, lambda: ask(d, 'D c f t', None))
t0 = vt.now()
while vt.now() < t0 + 30 and d.c.online:
    d.adv(.05)
    for k in [k for k in d.pend if d.pend[k][0] == 'Ib']: d.reply(k, STATS)
need(not d.c.online, 'still online')
''')
b('R02-shutdown-forgets', [(U, '''        preq = self.pending_requests[cookie]
        #print''', '''        if self.worker == None:
            self.pending_requests.clear()
            return
        preq = self.pending_requests[cookie]
        #print''')], 'shutdown while commands are waiting for their answers', 'their handlers never run', '''
d, got = up(), []
d.step({}, lambda: (ask(d, 'D a f t', got), ask(d, 'D b f t', got)))
d.shut(); d.adv(30)
need(got == [None, None], got)
''')
b('R02-first-line', [(U, 'preq.result_callback(result.strip(), *', "preq.result_callback(result.splitlines()[0].strip() if preq.retransmits else result.strip(), *")],
 'a reply of several lines to a command that was retransmitted', 'the handler gets the first line of the reply only', '''
d, got = up(), []
d.step({}, lambda: ask(d, 'I', got))
d.adv(2)
ck = [k for k in d.pend if d.pend[k][0] == 'I'][0]
d.reply(ck, STATS)
need(got == [STATS], got)
''')
b('R02-backoff-restarts', [(U, '''            nretr = getnretrans(next_retr, exp_time)
''', '''            nretr = getnretrans(next_retr, exp_time)
            if len(self.pending_requests) > 2:
                nretr = max(1, nretr - 1)
'''), (U, 'preq.next_retr *= 2', 'preq.next_retr = preq.next_retr * 2 if preq.retransmits < 3 else self.delay_flt.lastval * 4.0')],
 'a command retransmitted more than twice', 'the schedule of retransmissions stops backing off', '''
d, got = up(), []
d.adv(.0011)
d.step({}, lambda: ask(d, 'I', got))
d.adv(11)
t = sent(d, 'I ') or [x for x in [e['t'] for e in d.ev for y in e['snd'] if y['c'] == 'I']]
g = [b - a for a, b in zip(t, t[1:])]
need(len(g) >= 3 and all(1.9 < y / x < 2.1 for x, y in zip(g, g[1:])), g)
''') if False else None
b('R04-lost-capability', [(C, '''        self.caps_received += 1
        vname = CAPSTABLE[vers]
        if result''', '''        if result is not None:
            self.caps_received += 1
        vname = CAPSTABLE[vers]
        if result''')], 'a capability query that is never answered after a successful version check', 'the proxy never comes online, and nothing is checked any more', '''
d = D(random.Random(1))
quick(d, 'V', '20040107')
d.adv(.005)
for k in [k for k in d.pend if d.pend[k][0].startswith('VF')][1:]: d.reply(k, '1')
t0 = vt.now()
while vt.now() < t0 + 200 and not d.c.online:
    d.adv(.5)
    for k in [k for k in d.pend if d.pend[k][0] == 'V']: d.reply(k, '20040107')
need(d.c.online, 'never online')
''')
b('R04-failure-not-rechecked', [(C, '''        if self.online:
            self.online = False
            to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
            to.spread_runs(0.1)
            to.go()
''', '''        if self.online:
            self.online = False
            if self.active_sessions is None:
                to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
                to.spread_runs(0.1)
                to.go()
''')], 'a session command that exhausts its tries while health checks are answered', 'the proxy is taken offline for good: its version is never checked again', '''
d = up()
d.adv(1.2)
for k in [k for k in d.pend if d.pend[k][0] == 'Ib']: d.reply(k, STATS)
d.step({}, lambda: ask(d, 'D c f t', []))
t0 = vt.now()
while vt.now() < t0 + 30 and d.c.online:
    d.adv(.05)
    for k in [k for k in d.pend if d.pend[k][0] == 'Ib']: d.reply(k, STATS)
need(not d.c.online, 'online')
t0 = vt.now()
while vt.now() < t0 + 120 and not d.c.online:
    d.adv(.5)
    for k in [k for k in d.pend if d.pend[k][0] == 'V']: d.reply(k, '20040107')
need(d.c.online, 'never back')
''')
b('R04-second-chain', [(C, '''        if not self.online:
            return
        if stats == None:
            self.active_sessions = None
            self.go_offline()
        else:''', '''        if stats == None:
            self.active_sessions = None
            self.go_offline()
            return
        else:''')], 'a session command that takes the proxy offline while a health check is outstanding, answered later', 'health checks go on while offline and run twice as often once it is back', '''
d = up()
d.adv(1.2)
d.step({}, lambda: ask(d, 'D c f t', []))
t0 = vt.now()
while vt.now() < t0 + 30 and d.c.online:
    d.adv(.05)
    for k in [k for k in d.pend if d.pend[k][0] == 'Ib']: d.reply(k, STATS)
d.adv(.005)
t0 = vt.now()
while vt.now() < t0 + 75:
    d.adv(.1)
    for k in list(d.pend): d.reply(k, STATS if d.pend[k][0] == 'Ib' else '20040107')
t = sent(d, 'Ib')
need(all(b - a > 850000 for a, b in zip(t[3:], t[4:])), t[-8:])
''')
b('R04-sole-proxy', [(N, '''            rtp_proxy_clients = [x for x in global_config['_rtp_proxy_clients'] if x.online]
            n = len(rtp_proxy_clients)
            if n == 0:''', '''            rtp_proxy_clients = [x for x in global_config['_rtp_proxy_clients'] if x.online] or \\
              [x for x in global_config['_rtp_proxy_clients'] if x.caps_done]
            n = len(rtp_proxy_clients)
            if n == 0:''')], 'every configured proxy offline, one of them having been online before', 'sessions are created on a proxy that is offline', '''
d = up()
d.adv(15)
need(not d.c.online, 'online')
try:
    Rtp_proxy_session({'_rtp_proxy_clients': [d.c]}, 'c', 'f', 't')
    need(False, 'session on an offline proxy')
except SystemExit: raise
except Exception: pass
''')
