"""Plants bugs: plant.py SPECFILE [id ...].

SPECFILE defines B = [dict(id=, property=, file=, reps=[(old, new)], demo=python text, needs=, what=)].  Each change is made in
a scratch copy of /repo; it is kept in seeded/<id>/ only if the stable tests pass with it and the demonstration passes
without and fails with it.  The checks named in 'property' are then run on the copy and the result is printed."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import textwrap
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO_SH = """#!/bin/bash
cd /repo || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run_demo(d, demo):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = subprocess.run(['timeout', '250', PY, demo], cwd=d, env=env, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def one(b):
    name = b['id']
    d = f'/tmp/plant_{name}'
    shutil.rmtree(d, ignore_errors=True)
    try:
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        demo = d + '_demo.py'
        open(demo, 'w').write(textwrap.dedent(b['demo']))
        rc, out = run_demo(d, demo)
        if rc != 0:
            return name, 'demo fails on the unchanged tree: ' + out
        files = b['file'] if isinstance(b['file'], list) else [b['file']]
        for f in files:
            p = f'{d}/aalpy/{f}'
            s = open(p).read()
            for o, n in b['reps']:
                if o not in s:
                    if len(files) == 1:
                        return name, 'NOT FOUND ' + o
                    continue
                s = s.replace(o, n, 1)
            open(p, 'w').write(s)
        rc, out = run_demo(d, demo)
        if rc == 0:
            return name, 'demo passes with the bug'
        why = out.strip().splitlines()[-1:]
        t = open('/opt/vp/test.sh').read().replace('/repo', d)
        open(d + '_test.sh', 'w').write(t)
        subprocess.run(['bash', d + '_test.sh', d + '_out.json'], capture_output=True, text=True)
        res = json.load(open(d + '_out.json'))
        passed = set(res.get('passed', []))
        bad = [x for x in stable if x not in passed]
        if bad:
            return name, f'stable tests fail: {bad[:3]}'
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        o = os.path.join(ROOT, 'seeded', name)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write(textwrap.dedent(b['demo']))
        open(o + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(o + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(o + '/meta.json', 'w'),
                  indent=1)
        os.makedirs('/tmp/plev', exist_ok=True)
        r = subprocess.run([sys.executable, ROOT + '/check.py', b['property']], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVID='/tmp/plev'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return name, f"KEPT {b['property']} {'caught' if v else 'MISSED'} rc={r.returncode} ({why})"
    finally:
        for x in (d + '_demo.py', d + '_test.sh', d + '_out.json'):
            if os.path.exists(x):
                os.remove(x)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    B = runpy.run_path(sys.argv[1])['B']
    only = sys.argv[2:]
    with ThreadPoolExecutor(6) as ex:
        for name, r in ex.map(one, [b for b in B if not only or b['id'] in only]):
            print(name, r, flush=True)
