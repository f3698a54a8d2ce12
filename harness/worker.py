import sys, os, json, signal, traceback, importlib, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
module, inp, outp, limit = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])

class Hang(BaseException): pass
def _alarm(*a): raise Hang()
signal.signal(signal.SIGALRM, _alarm)
out = open(outp, 'w')
sys.stdout = open(os.devnull, 'w')
mod = None; imp_err = None
try:
    mod = importlib.import_module(module)
except Exception as ex:
    imp_err = ''.join(traceback.format_exception(ex))[-3000:]
for line in open(inp):
    i, sched = json.loads(line)
    if imp_err:
        tr = {'ev': [], 'fail': 'the code under test cannot be driven: ' + imp_err}
    else:
        signal.setitimer(signal.ITIMER_REAL, limit)
        random.seed(i)
        try:
            tr = mod.run_sched(sched)
        except Hang as ex:
            tr = {'ev': [], 'fail': 'hang: no progress within %g s: %s' % (limit, ''.join(traceback.format_exception(ex))[-1500:])}
        except BaseException as ex:
            tr = {'ev': [], 'fail': 'exception: ' + ''.join(traceback.format_exception(ex))[-3000:]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    tr['sched'] = sched
    out.write(json.dumps([i, tr]) + '\n')
    out.flush()
    if tr.get('fail', '').startswith('hang'):
        out.flush()
out.close()
os._exit(0)
