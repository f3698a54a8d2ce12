"""plant(id, prop, [(file, old, new)...], needs, breaks, demo): make seeded/<id> from edits of /repo."""
import os, json, subprocess, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
def plant(id, prop, edits, needs, breaks, demo, helpers=('vt.py', 'sipnet.py')):
    d = R + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run('git -C ' + REPO + ' status --porcelain', shell=True, stdout=subprocess.PIPE).stdout.strip()
    try:
        for f, old, new in edits:
            p = REPO + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the property holds; 1: broken\ncd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python demo.py\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for h in helpers: shutil.copy(R + '/harness/' + h, d)
