"""Run schedules on the real code in worker processes, each schedule under a time limit.
The orchestrating process never imports the code under test (nor the virtual clock)."""
import os, sys, json, subprocess, tempfile, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')

def run(module, scheds, limit=20, procs=8, wall=500):
    """Run <module>.run_sched on each schedule; traces come back in the order of scheds."""
    if not scheds: return []
    procs = max(1, min(procs, len(scheds)))
    d = tempfile.mkdtemp(prefix='pool')
    res = [None] * len(scheds)
    try:
        ps = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        for k in range(procs):
            idx = list(range(k, len(scheds), procs))
            inp = os.path.join(d, 'in%d' % k); outp = os.path.join(d, 'out%d' % k)
            with open(inp, 'w') as f:
                for i in idx: f.write(json.dumps([i, scheds[i]]) + '\n')
            err = open(os.path.join(d, 'err%d' % k), 'w')
            wd = os.path.join(d, 'wd%d' % k); os.mkdir(wd)
            p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), module, inp, outp, str(limit)], env=env, cwd=wd,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
            ps.append((p, outp, idx, err))
        end = time.monotonic() + wall
        for p, outp, idx, err in ps:
            try:
                p.wait(max(0.1, end - time.monotonic()))
                why = 'worker ended with code %s' % p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait()
                why = 'hang: worker did not finish within %d s' % wall
            err.close()
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if not line.endswith('\n'): break
                        i, t = json.loads(line)
                        res[i] = t
            first = True
            for i in idx:
                if res[i] is None:
                    if first:
                        with open(err.name) as f: tail = f.read()[-2000:]
                        res[i] = {'ev': [], 'fail': why + '\n' + tail, 'sched': scheds[i]}
                        first = False
                    else:
                        res[i] = {'ev': [], 'skipped': True, 'sched': scheds[i]}
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
