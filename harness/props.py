"""Which specification layers decide which property."""
TMC = dict(T1=1, TB=64, TC=64, TD=64, TROT=64)

def tm_rand(seed, n, prop):
    prof = {'S01': ['client', 'client', 'mix'], 'S02': ['client', 'client', 'mix'], 'S03': ['server', 'mix', 'client'],
            'S04': ['server', 'server', 'mix', 'prov'], 'S05': ['server', 'server', 'mix'],
            'S06': ['client', 'server', 'mix', 'prov']}[prop]
    return [{'seed': seed * 1000003 + i, 'profile': prof[i % len(prof)], 'steps': 40} for i in range(n)]

CL, SV = ('S01', 'S02', 'S06'), ('S03', 'S04', 'S05', 'S06')
TM = dict(name='transaction layer', driver='drv_tm', tmodule='TSipTM', tconst=TMC, rand=tm_rand, nrand=800,
          models=[dict(module='MCSipTM', consts=dict(TMC, Mode='client', Emit=False), props=CL,
                       kw=dict(invariants=['S01', 'S02'], properties=['S01Live', 'S06'])),
                  dict(module='MCSipTM', consts=dict(TMC, Mode='server', Emit=False), props=SV,
                       kw=dict(invariants=['S03', 'S04', 'S05'], properties=['S06']))],
          graphs=[dict(module='MCSipTM', consts=dict(TMC, Mode='client', Emit=True), props=CL,
                       kw=dict(action_constraints=['EmitEdge']), wrap=lambda w: {'walk': w}),
                  dict(module='MCSipTM', consts=dict(TMC, Mode='server', Emit=True), props=SV,
                       kw=dict(action_constraints=['EmitEdge']), wrap=lambda w: {'walk': w})])

def seeds(**kw):
    return lambda seed, n, prop: [dict(kw, seed=seed * 1000003 + i) for i in range(n)]

TIMERS = dict(name='timers', driver='drv_timers', tmodule='TTimers', nrand=700,
          rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 40, 'crowd': i % 5 == 0} for i in range(n)],
          models=[dict(module='MCTimers', consts=dict(Ids={'a', 'b'}, Horizon=4, MaxMk=2, Emit=False), props=('C01',),
                       kw=dict(invariants=['Conform', 'Armed'], view='SmallView')),
                  dict(module='MCTimers', consts=dict(Ids={'a', 'b'}, Horizon=4, MaxMk=3, Emit=False), props=('C01',), thorough=True,
                       kw=dict(invariants=['Conform', 'Armed'], view='SmallView'), workers=8)],
          graphs=[dict(module='MCTimers', consts=dict(Ids={'a', 'b'}, Horizon=4, MaxMk=2, Emit=True), props=('C01',), limit=3000, shuffle=True,
                       kw=dict(action_constraints=['EmitEdge'], view='SmallView'),
                       wrap=lambda w: {'walk': [e for e in w if e['in'] != 'i']})])

EXT = dict(name='external command pool', driver='drv_ext', tmodule='TExtCmd', rand=seeds(steps=120), nrand=500,
          models=[dict(module='MCExtCmd', consts=dict(NW=2, N=3, Emit=False), props=('C02',),
                       kw=dict(invariants=['Order', 'OnceEach', 'NotRunIfCancelled'], properties=['Abs'])),
                  dict(module='MCExtCmd', consts=dict(NW=2, N=2, Emit=False), props=('C02',), kw=dict(properties=['Answered', 'AllStop'])),
                  dict(module='MCExtCmd', consts=dict(NW=3, N=3, Emit=False), props=('C02',), thorough=True, workers=8,
                       kw=dict(invariants=['Order', 'OnceEach', 'NotRunIfCancelled'], properties=['Abs']))],
          graphs=[dict(module='MCExtCmd', consts=dict(NW=2, N=2, Emit=True), props=('C02',), maxlen=60,
                       kw=dict(action_constraints=['EmitEdge'], view='MView'), wrap=lambda w: {'walk': w, 'workers': 2})])

LAYERS = {'C01': [TIMERS], 'C02': [EXT]}
for p in ('S01', 'S02', 'S03', 'S04', 'S05', 'S06'): LAYERS[p] = [TM]
AGES = {0, 1, 16000, 31999, 32000, 32001, 64000}
DIGEST = dict(name='digest authentication', driver='drv_digest', tmodule='TDigest', rand=seeds(steps=60), nrand=700,
              models=[dict(module='MCDigest', consts=dict(Dev=2, Emit=False, Ages=AGES), props=('C03',), kw=dict(invariants=['Sound', 'Honests']), workers=8)],
              graphs=[dict(module='MCDigest', consts=dict(Dev=1, Emit=True, Ages=AGES), props=('C03',), maxlen=60,
                           kw=dict(action_constraints=['EmitEdge'], view='MView'), wrap=lambda w: {'walk': w}),
                      dict(module='MCDigest', consts=dict(Dev=2, Emit=True, Ages=AGES), props=('C03',), maxlen=200, thorough=True,
                           kw=dict(action_constraints=['EmitEdge'], view='MView'), wrap=lambda w: {'walk': w})])
LAYERS['C03'] = [DIGEST]
def leg(role, cfgs, n, emit):
    return dict(module='MCLeg', consts=dict(Role=role, CfgIds=set(cfgs.split(',')), MaxSteps=n, Emit=emit))
UAP = ('U01', 'U02', 'U03', 'U04')
CFG = {'uac': 'plain,late,limit,limit2,limit3,limit4,auth,pa,ka', 'uas': 'plain,late,limit,limit3,ka'}
LEG = dict(name='call leg', driver='drv_ua', tmodule='TLeg', nrand=4000, chunk=2500,
           rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 35, 'late': .15, 'lim': prop == 'U04' and i % 2 == 0} for i in range(n)],
           models=[dict(leg(r, CFG[r], 5, False), props=UAP, workers=8, kw=dict(invariants=list(UAP), view='MView')) for r in ('uac', 'uas')] +
                  [dict(leg(r, CFG[r], 6, False), props=UAP, workers=8, thorough=True, timeout=600, kw=dict(invariants=list(UAP), view='MView')) for r in ('uac', 'uas')],
           graphs=[dict(leg(r, CFG[r], 4, True), props=UAP, kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w}) for r in ('uac', 'uas')] +
                  [dict(leg(r, CFG[r], 5, True), props=UAP, thorough=True, limit=2000, shuffle=True,
                        kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w}) for r in ('uac', 'uas')])
for p in UAP: LAYERS[p] = [LEG]
HKC = 'hooks,hlate,hlim'
HKI = dict(invariants=['U01', 'U02', 'U03', 'U05'], view='MView')
HOOKS = dict(name='call leg with media hooks', driver='drv_ua', tmodule='TLeg', nrand=5000, chunk=2500,
             rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 35, 'late': .2, 'hooks': 1} for i in range(n)],
             models=[dict(leg(r, HKC, 5, False), props=('U05',), workers=8, kw=HKI) for r in ('uac', 'uas')] +
                    [dict(leg(r, HKC, 6, False), props=('U05',), workers=8, thorough=True, timeout=600, kw=HKI) for r in ('uac', 'uas')],
             graphs=[dict(leg(r, HKC, 4, True), props=('U05',), limit=2500, shuffle=True, kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w}) for r in ('uac', 'uas')] +
                    [dict(leg(r, HKC, 5, True), props=('U05',), thorough=True, limit=3000, shuffle=True,
                          kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w}) for r in ('uac', 'uas')])
LAYERS['U05'] = [HOOKS]
def bri(cfgs, n, emit):
    return dict(module='MCBridge', consts=dict(CfgIds=set(cfgs.split(',')), MaxSteps=n, Emit=emit))
BP = ('B01', 'B02', 'B03', 'B04', 'B05', 'B06', 'B07')
BCF = 'plain,static,hunt,group,limit,chal,only'
BW = dict(action_constraints=['EmitEdge'], view='EView')
BM = dict(invariants=list(BP), view='MView')
BRIDGE = dict(name='back-to-back user agent', driver='drv_b2b', tmodule='TBridge', nrand=1500, chunk=1500,
              rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 40, 'drain': prop == 'B07' or i % 4 == 0, 'hunt': prop == 'B03' and i % 2 == 0 or i % 10 == 0} for i in range(n)],
              models=[dict(bri(BCF, 6, False), props=BP[:6], workers=8, kw=BM),
                      dict(bri('plain,drain', 6, False), props=BP[6:], workers=8, kw=BM),
                      dict(bri(BCF + ',drain', 7, False), props=BP, workers=8, thorough=True, timeout=800, kw=BM)],
              graphs=[dict(bri(BCF, 5, True), props=BP[:6], limit=1500, shuffle=True, kw=BW, wrap=lambda w: {'walk': w}),
                      dict(bri('plain,drain', 5, True), props=BP[6:], limit=1500, shuffle=True, kw=BW, wrap=lambda w: {'walk': w}),
                      dict(bri(BCF + ',drain', 6, True), props=BP, thorough=True, limit=3000, shuffle=True, kw=BW, wrap=lambda w: {'walk': w})])
for p in BP: LAYERS[p] = [BRIDGE]
def med(focus, n, emit):
    return dict(module='MCMedia', consts=dict(CfgIds={'plain', 'pt', 'soft'} if focus == 'cmd' else {'plain', 'w2s', 's2w', 'pt', 'soft'}, MaxSteps=n, Emit=emit, Focus=focus))
MP = ('R01', 'R03')
MW = dict(action_constraints=['EmitEdge'], view='EView')
MI = dict(invariants=list(MP), view='MView')
MEDIA = dict(name='media session', driver='drv_media', tmodule='TMedia', nrand=2500, chunk=2500,
             rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 40} for i in range(n)],
             models=[dict(med('cmd', 5, False), props=('R01',), workers=8, kw=MI), dict(med('sdp', 4, False), props=('R03',), workers=8, kw=MI),
                     dict(med('cmd', 6, False), props=('R01',), workers=8, kw=MI, thorough=True, timeout=800),
                     dict(med('sdp', 5, False), props=('R03',), workers=8, kw=MI, thorough=True, timeout=800)],
             graphs=[dict(med('cmd', 5, True), props=('R01',), limit=2500, shuffle=True, kw=MW, wrap=lambda w: {'walk': w}),
                     dict(med('sdp', 5, True), props=('R03',), limit=1500, shuffle=True, kw=MW, wrap=lambda w: {'walk': w})])
for p in MP: LAYERS[p] = [MEDIA]

def rtc(n, cmds, kinds, emit):
    return dict(module='MCRtpp', consts=dict(Sec=1000, Tol=0, MaxSteps=n, MaxCmds=cmds, Kinds=set(kinds), Emit=emit))
RP = ('R02', 'R04')
RI = dict(invariants=list(RP))
RTPP = dict(name='RTP proxy client', driver='drv_rtpp', tmodule='TRtpp', tconst=dict(Sec=1000000, Tol=30), nrand=1500, rand=seeds(steps=60),
            models=[dict(rtc(9, 2, 'o', False), props=RP, workers=8, kw=RI), dict(rtc(10, 1, 'oIG', False), props=RP, workers=8, kw=RI),
                    dict(rtc(11, 3, 'o', False), props=RP, workers=8, kw=RI, thorough=True, timeout=800)],
            graphs=[dict(rtc(8, 2, 'oG', True), props=RP, limit=2000, shuffle=True, kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w})])
for p in RP: LAYERS[p] = [RTPP]
QP = ('C05', 'S07')
def pcodec(prop, i): return (0, 1)[i % 2] if prop == 'C05' else 0
def pxy(req, n, emit): return dict(module='MCProxy', consts=dict(Sec=1000, Tol=0, MaxReq=req, MaxResp=2, MaxSteps=n, Emit=emit))
QI = dict(invariants=list(QP), properties=['Quiet'], view='MView')
PROXY = dict(name='stateful proxy', driver='drv_proxy', tmodule='TProxy', tconst=dict(Sec=10000, Tol=2), nrand=2500, chunk=2500,
             rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 40, 'bad': .15 if prop == 'S07' else .02, 'codec': pcodec(prop, i)} for i in range(n)],
             models=[dict(pxy(2, 6, False), props=QP, workers=8, kw=QI), dict(pxy(1, 8, False), props=QP, workers=8, kw=QI),
                     dict(pxy(2, 8, False), props=QP, workers=8, kw=QI, thorough=True, timeout=800)],
             graphs=[dict(pxy(2, 6, True), props=QP, limit=2000, shuffle=True, kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w})])
for p in QP: LAYERS[p] = [PROXY]
def rga(n, emit): return dict(module='MCRegAgent', consts=dict(Sec=1000, Tol=0, MaxSteps=n, Emit=emit))
REGAGENT = dict(name='registration agent', driver='drv_reg', tmodule='TRegAgent', tconst=dict(Sec=10000, Tol=2), nrand=2500, chunk=2500, rand=seeds(steps=50),
                models=[dict(rga(9, False), props=('C04',), workers=8, kw=dict(invariants=['C04'], view='MView')),
                        dict(rga(13, False), props=('C04',), workers=8, thorough=True, timeout=800, kw=dict(invariants=['C04'], view='MView'))],
                graphs=[dict(rga(9, True), props=('C04',), limit=2500, shuffle=True, kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w})])
LAYERS['C04'] = [REGAGENT]

def cod(p, o, m, n, emit): return dict(module='MCCodec', consts=dict(P=p, MaxObj=o, MaxMarks=m, MaxSteps=n, Emit=emit))
CK = dict(invariants=['S08'], properties=['Apart'], view='MView')
CODEC = dict(name='message in the hands of an application', driver='drv_codec', tmodule='TCodec', nrand=6000, chunk=3000, rand=seeds(steps=30),
             models=[dict(cod(2, 5, 2, 7, False), props=('S08',), workers=8, kw=CK), dict(cod(3, 6, 2, 6, False), props=('S08',), workers=8, kw=CK),
                     dict(cod(2, 6, 3, 10, False), props=('S08',), workers=8, thorough=True, timeout=800, kw=CK)],
             graphs=[dict(cod(2, 5, 2, 7, True), props=('S08',), limit=4000, shuffle=True, kw=dict(action_constraints=['EmitEdge'], view='EView'), wrap=lambda w: {'walk': w, 'P': 2})])
# the same messages through the proxy, whose application reads or copies what passes
PCODEC = dict(PROXY, name='proxy that reads and copies', models=[], graphs=[], nrand=1500,
              rand=lambda seed, n, prop: [{'seed': seed * 1000003 + i, 'steps': 40, 'bad': .02, 'codec': (1, 3, 5, 7, 11, 15)[i % 6]} for i in range(n)])
LAYERS['S08'] = [CODEC, PCODEC]
