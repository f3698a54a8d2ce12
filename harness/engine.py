"""One check: the specification is model checked, then behaviours of it (and random schedules) are replayed on the
real code, and every recorded trace is checked against the specification with TLC.

A layer (one specification) is described by a dict:
  driver   python module with run_sched(sched) -> trace {'ev': [...], ...}
  tmodule  TLA+ module that validates traces; constants tconst, plus Props
  models   list of dict(module, consts, kw, props)     exhaustive checks of the specification
  graphs   list of dict(module, consts, kw, wrap, props, maxlen)  transition graphs to cover on the real code
  rand     f(seed, n, prop) -> schedules
  fixed    f(prop) -> schedules written by hand
"""
import os, sys, json, time, shutil, concurrent.futures as cf
import tlc, pool, graph

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')

def clean(t):
    return {k: v for k, v in t.items() if k not in ('sched', 'fail', 'skipped', 'aux')}

def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            if line.startswith('known: '):
                x = json.loads(line[7:])
                if x['property'] == prop: res.append(x)
    except FileNotFoundError: pass
    return res

def matches(k, v):
    """Does known finding k describe violation v?  Every string listed in k['match'] must occur in its description."""
    s = json.dumps(v.get('mismatch') or v.get('fail'), sort_keys=True)
    return all(m in s for m in k['match'])

class Check:
    def __init__(self, prop, tier, seed, layers):
        self.prop, self.tier, self.seed, self.layers = prop, tier, seed, layers
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.gr, self.samples, self.viol = [], [], [], []
        self.t0 = time.monotonic()
        self.parts = []

    def run_models(self, layer):
        jobs = [m for m in layer.get('models', []) if self.prop in m['props'] and
                (self.tier == 'thorough' or not m.get('thorough'))]
        for m in jobs:
            r = tlc.check(m['module'], consts=m.get('consts'), workers=m.get('workers', 4), timeout=m.get('timeout', 400),
                          seed=self.seed, **m.get('kw', {}))
            self.states += r.distinct; self.transitions += r.generated
            self.models.append({'module': m['module'], 'consts': {k: str(v) for k, v in m.get('consts', {}).items()},
                                'checked': list(m.get('kw', {}).get('invariants', ())) + list(m.get('kw', {}).get('properties', ())),
                                'distinct_states': r.distinct, 'states_generated': r.generated})

    def graph_scheds(self, layer):
        res = []
        for g in layer.get('graphs', []):
            if self.prop not in g['props'] or (g.get('thorough') and self.tier != 'thorough'): continue
            r = tlc.graph(g['module'], consts=g['consts'], timeout=400, seed=self.seed, **g.get('kw', {}))
            walks, tot, cov = graph.cover(r.edges, self.seed, g.get('maxlen', 30),
                                          (g.get('limit') or 0) * 10 or None if self.tier == 'thorough' else g.get('limit'),
                                          init=r.init, shuffle=g.get('shuffle', False))
            self.gr.append({'module': g['module'], 'consts': {k: str(v) for k, v in g['consts'].items()},
                            'graph_states': r.distinct, 'transitions_to_cover': tot, 'transitions_replayed_on_code': cov,
                            'walks': len(walks)})
            res += [g['wrap'](w) for w in walks]
        return res

    def batch(self, layer, scheds, label):
        trs = pool.run(layer['driver'], scheds, limit=layer.get('limit', 20), wall=layer.get('wall', 400))
        good = []
        for t in trs:
            if t.get('skipped'): continue
            if t.get('fail'):
                self.viol.append({'layer': layer['name'], 'sched': t['sched'], 'fail': t['fail'], 'trace': t['ev'][-30:]})
            else: good.append(t)
        self.validate(layer, good)
        if good and len(self.samples) < 4:
            t = good[len(good) // 2]
            self.samples.append({'layer': layer['name'], 'kind': label, 'events': t['ev'][:12]})
        return good

    def validate(self, layer, good):
        if not good: return
        size = layer.get('chunk', 1200)
        for k in range(0, len(good), size):
            part = good[k:k + size]
            try:
                mism, r = tlc.validate(layer['tmodule'], [clean(t) for t in part],
                                       consts=dict(layer.get('tconst', {}), Props={self.prop}))
            except tlc.TLCError as ex:
                if not getattr(ex, 'evaluation', False): raise
                if len(part) == 1:
                    self.viol.append({'layer': layer['name'], 'sched': part[0]['sched'], 'trace': part[0]['ev'],
                                      'fail': 'the specification cannot interpret what the code did: ' + str(ex)[-1500:]})
                    continue
                # find one trace that cannot be interpreted
                lo, hi = 0, len(part)
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    try:
                        tlc.validate(layer['tmodule'], [clean(t) for t in part[lo:mid]],
                                     consts=dict(layer.get('tconst', {}), Props={self.prop}))
                        lo = mid
                    except tlc.TLCError: hi = mid
                self.viol.append({'layer': layer['name'], 'sched': part[lo]['sched'], 'trace': part[lo]['ev'],
                                  'fail': 'the specification cannot interpret what the code did: ' + str(ex)[-1500:]})
                continue
            self.states += r.distinct; self.transitions += r.generated
            self.traces += len(part); self.events += sum(len(t['ev']) for t in part)
            for x in mism:
                t = part[x['tr']]
                self.viol.append({'layer': layer['name'], 'sched': t['sched'], 'step': x['l'],
                                  'mismatch': {'event': t['ev'][x['l']], 'expected': x.get('want'), 'observed': x.get('got')},
                                  'trace': t['ev'][:x['l'] + 1]})

    def go(self):
        for layer in self.layers:
            self.run_models(layer)
            g = self.graph_scheds(layer)
            if g: self.batch(layer, g, 'walk through the state graph of the specification')
            fx = layer.get('fixed')
            if fx:
                sc = fx(self.prop)
                if sc: self.batch(layer, sc, 'written scenario')
            if 'rand' in layer and not self.viol:
                n = layer.get('nrand', 400)
                if self.tier == 'quick':
                    self.batch(layer, layer['rand'](self.seed, n, self.prop), 'random schedule')
                else:
                    k = 0
                    budget = 600.0 / len(self.layers)
                    t0 = time.monotonic()
                    while time.monotonic() - t0 < budget and not self.viol:
                        self.batch(layer, layer['rand'](self.seed + 7919 * k, 2 * n, self.prop), 'random schedule')
                        k += 1
        return self.finish()

    def finish(self):
        known = known_findings(self.prop)
        new, seen = [], []
        for v in self.viol:
            hit = [k for k in known if matches(k, v)]
            if hit: seen.append(hit[0])
            else: new.append(v)
        for k in known:
            # (a listed finding stays a finding; whether this run met it is in the evidence)
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'events_validated': self.events,
                           'models': self.models, 'graphs': self.gr, 'samples': self.samples or ['none'],
                           'known_findings_met': len(seen)},
              'wall_s': round(time.monotonic() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            # prefer the shortest history
            v = min(new, key=lambda x: len(x.get('trace', ())) if x.get('mismatch') else 10 ** 6)
            path = os.path.join(EVID, 'replay-%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump(dict(v, property=self.prop), f, indent=1)
            d = json.dumps(v.get('mismatch') or v.get('fail'))
            print('%s: %d of %d traces violate the specification; e.g. %s' % (self.prop, len(new), self.traces, d[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s: ok, %d traces (%d events) of the real code conform, %d states, %.1f s'
              % (self.prop, self.traces, self.events, self.states, time.monotonic() - self.t0))
        return 0
