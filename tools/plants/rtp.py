import sys; sys.path.insert(0, __file__.rsplit('/', 2)[0])
from plant import plant
H = ('vt.py', 'drv_media.py')
PRE = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from drv_media import *
def need(c, what):
    if not c: print('BROKEN', what); sys.exit(1)
CF = dict(kind='plain', sbind=False, tnot=False, local=False, ra='', rb='', la='', lb='', za=0, zb=0, soft=False, ntag=False, nort=False)
def sec(m='audio', port=4000, **k): return dict(dict(m=m, tr='RTP/AVP', at='IP4', addr='192.0.2.1', port=port, fm=['0'], b=[], a=[]), **k)
def sdp(id, x, *secs, o=('1', '1')): return {'in': 'sdp', 'id': id, 'x': x, 'sdp': dict(txt='', bad=False, sid=o[0], ver=o[1], sa=[], oth=['s=-', 't=0 0'], secs=list(secs))}
def port(p, then=None): return {'in': 'ans', 'r': dict(none(), k='port', port=p), 'then': then or {'in': 'none'}}
def txt(t, then=None): return {'in': 'ans', 'r': dict(none(), k='txt', txt=t), 'then': then or {'in': 'none'}}
def err(): return {'in': 'ans', 'r': dict(none(), k='err', txt='E1'), 'then': {'in': 'none'}}
def stop(id, x='a', idx=0): return {'in': 'stop', 'id': id, 'x': x, 'idx': idx}
def play(id, x='a'): return {'in': 'play', 'id': id, 'x': x, 'name': 'moh', 'times': 1, 'idx': 0}
def delete(): return {'in': 'delete', 'drop': False}
def go(*evs):
    d = D(CF, random.Random(1))
    for e in evs: d.apply(e); need(not d.exc, d.exc)
    return d
def cmds(d): return [(c['k'], c['a']) for e in d.ev for c in e['cmds']]
def done(d): return {x['id']: x for e in d.ev for x in e['done']}
'''
def b(id, edits, needs, breaks, demo): plant(id, id[:3], edits, needs, breaks, PRE + demo, H)
Q, S = 'sippy/Rtp_proxy/Cmd/sequencer.py', 'sippy/Rtp_proxy/Session/side.py'
b('R01-handler-first', [(Q, '''        if self.rtp_proxy_client != None and len(self.comqueue) > 0:
            self.inflight = self.comqueue.pop(0)
            self.rtp_proxy_client.send_command(self.inflight[0], self.result_callback)
        if result_callback != None:
            result_callback(result, *callback_parameters)
''', '''        if result_callback != None:
            result_callback(result, *callback_parameters)
        if self.inflight == None and self.rtp_proxy_client != None and len(self.comqueue) > 0:
            self.inflight = self.comqueue.pop(0)
            self.rtp_proxy_client.send_command(self.inflight[0], self.result_callback)
''')], 'a result handler that issues a command while other commands are waiting', 'the command of the handler overtakes the waiting ones', '''
d = go(sdp(1, 'a', sec()), port(20000), stop(2), stop(3, idx=1), txt('0', stop(4, idx=2)), txt('0'), txt('0'))
need([c[1] for c in cmds(d)][1:] == ['c-0 f t', 'c-1 f t', 'c-2 f t'], cmds(d))
''')
b('R01-delete-drops-queue', [(Q, 'if self.rtp_proxy_client != None and len(self.comqueue) > 0:', 'if self.rtp_proxy_client != None and len(self.comqueue) > 0 and not self.deleted:')],
 'deletion of the session while a command is in flight', 'waiting commands are dropped and the session stays at the proxy', '''
d = go(sdp(1, 'a', sec()), delete(), port(20000), txt('0'))
need(('D', 'c-0 f t') in cmds(d), cmds(d))
''')
b('R01-leg-left', [(S, 'up.rtpps.max_index = max(up.rtpps.max_index, up.index)', 'up.rtpps.max_index = up.index')],
 'two media sections followed by an update that touches the first one only', 'the second leg is never deleted at the proxy', '''
d = go(sdp(1, 'a', sec(), sec('video', 4002)), port(20000), port(20002), sdp(2, 'o', sec()), port(20004), delete(), txt('0'), txt('0'))
need(('D', 'c-1 f t') in cmds(d) and ('D', 'c-0 f t') in cmds(d), cmds(d))
''')
b('R03-origin-sticks', [(S, 'self.oh_remote = sdp_bc.o_header.getCopy()', 'self.oh_remote = self.oh_remote or sdp_bc.o_header.getCopy()')],
 'a session description repeated unchanged after one with a new version', 'the version of the origin grows although the source did not change', '''
d = go(sdp(1, 'a', sec()), port(20000), sdp(2, 'a', sec(), o=('1', '2')), port(20000), sdp(3, 'a', sec(), o=('1', '2')), port(20000))
need([done(d)[i]['v'] for i in (1, 2, 3)] == [0, 1, 1], done(d))
''')
b('R03-half-rewritten', [(S, '''        if ur == None:
            sdp_body.needs_update = False
            if ex''', '''        if ur == None:
            sdp_body.needs_update = len([x for x in sects if x.needs_update]) > 0
            if ex''')],
 'an SDP with two media sections of which only the first is refused by the proxy', 'after the failure the SDP is handed on with the first section unrewritten', '''
d = go(sdp(1, 'a', sec(), sec('video', 4002)), err(), port(20002))
r = [x for e in d.ev for x in e['done']]
need(len(r) == 1 and not r[0]['ok'], r)
''')
b('R03-rejected-stream', [(S, 'if sect.m_header.port != 0:', 'if sect.m_header.port != 0 or sect is sects[-1] and len(sects) > 1:')],
 'an SDP with several sections whose last one is rejected (port 0)', 'the rejected stream comes to life again', '''
d = go(sdp(1, 'a', sec(), sec('video', 0)), port(20000), port(20002))
need([s['port'] for s in done(d)[1]['secs']] == [20000, 0], done(d))
''')
