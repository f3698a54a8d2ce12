"""Running TLC: exhaustive models, transition graphs, trace validation."""
import os, sys, subprocess, json, re, tempfile, shutil, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TLCError(Exception): pass

class Result: pass

def tla(v):
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return '{%s}' % ', '.join(sorted(tla(x) for x in v))
    if isinstance(v, (list, tuple)): return '<<%s>>' % ', '.join(tla(x) for x in v)
    raise TypeError(v)

def run(module, consts=None, spec='Spec', invariants=(), properties=(), constraints=(), action_constraints=(),
        view=None, postcondition=None, workers=1, simulate=None, seed=None, timeout=600, heap='4g', keep=None, depth=None):
    wd = tempfile.mkdtemp(prefix='tlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(wd, f))
        with open(os.path.join(wd, 'run.cfg'), 'w') as f:
            f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec)
            for k, v in (consts or {}).items():
                f.write('CONSTANT %s = %s\n' % (k, tla(v) if not (isinstance(v, str) and v.startswith('@')) else v[1:]))
            for i in invariants: f.write('INVARIANT %s\n' % i)
            for i in properties: f.write('PROPERTY %s\n' % i)
            for i in constraints: f.write('CONSTRAINT %s\n' % i)
            for i in action_constraints: f.write('ACTION_CONSTRAINT %s\n' % i)
            if view: f.write('VIEW %s\n' % view)
            if postcondition: f.write('POSTCONDITION %s\n' % postcondition)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', JAR, 'tlc2.TLC', '-config', 'run.cfg',
               '-workers', str(workers), '-metadir', os.path.join(wd, 'states'), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', simulate]
            if depth: cmd += ['-depth', str(depth)]
        if seed is not None: cmd += ['-seed', str(seed), '-fp', '0']
        cmd.append(module + '.tla')
        out = open(os.path.join(wd, 'out'), 'w+')
        t0 = time.monotonic()
        try:
            p = subprocess.run(cmd, cwd=wd, stdout=out, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, JAVA_TOOL_OPTIONS=''))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        r = Result()
        out.flush(); out.seek(0)
        r.out = out.read()
        out.close()
        r.rc = rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)

def check(module, **kw):
    """Exhaustive check that must succeed (the specification itself has the property)."""
    r = run(module, **kw)
    if r.rc != 0 or 'Model checking completed. No error' not in r.out:
        raise TLCError('%s: rc %s\n%s' % (module, r.rc, r.out[-6000:]))
    return r

def graph(module, **kw):
    """Explore and collect the transitions printed as EDGE json lines."""
    r = run(module, **kw)
    if r.rc != 0 or 'Model checking completed. No error' not in r.out:
        raise TLCError('%s: rc %s\n%s' % (module, r.rc, r.out[-6000:]))
    r.edges = []
    r.init = None
    for line in r.out.splitlines():
        if line.startswith('"INIT '):
            r.init = json.loads(json.loads(line)[5:])
        if line.startswith('"EDGE '):
            r.edges.append(json.loads(json.loads(line)[5:]))
    return r

def validate(module, traces, consts=None, workers=8, timeout=600, chunk=None, heap='6g'):
    """Check recorded traces. Returns (mismatches, states). A mismatch: dict tr(0-based), l(0-based), want, got"""
    d = tempfile.mkdtemp(prefix='trc')
    try:
        path = os.path.join(d, 'traces.ndjson')
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        c = dict(consts or {})
        c['TraceFile'] = path
        r = run(module, consts=c, workers=workers, timeout=timeout, heap=heap)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    done, mism = set(), []
    for line in r.out.splitlines():
        m = re.match(r'<<"DONE", (\d+)>>', line)
        if m: done.add(int(m.group(1)) - 1)
        elif line.startswith('"MISMATCH '):
            x = json.loads(json.loads(line)[9:])
            x['tr'] -= 1; x['l'] -= 1
            mism.append(x)
    # with internal steps some branches of the search fail: a trace is accepted if one gets through,
    # and the mismatch shown is the one furthest on
    best = {}
    for x in mism:
        if x['tr'] not in done and (x['tr'] not in best or x['l'] > best[x['tr']]['l']): best[x['tr']] = x
    mism = [best[k] for k in sorted(best)]
    bad = set(best)
    missing = [i for i in range(len(traces)) if i not in done and i not in bad and len(traces[i]['ev']) > 0]
    if missing or 'Model checking completed' not in r.out:
        if not mism or 'Model checking completed' not in r.out:
            ex = TLCError('%s: trace validation did not complete (%d traces unresolved, rc %s)\n%s'
                          % (module, len(missing), r.rc, r.out[-5000:]))
            ex.evaluation = bool(re.search(r'TLC threw an unexpected exception|evaluating the|Attempted to|not in the domain|'
                                           r'Evaluating an expression|occurred when TLC was evaluating', r.out))
            raise ex
    return mism, r
