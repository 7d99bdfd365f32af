"""Run the quick check of the property of each planted bug against a copy with the bug: tools/trybugs.py [-j N] [--all-props] [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'


def one(i):
    d = f'/verif/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    wt = f'/tmp/try_{i}'
    if os.path.exists(wt):
        shutil.rmtree(wt)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    subprocess.run(['git', '-C', wt, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    env = dict(os.environ, PYORB_REPO=wt, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    r = subprocess.run(['bash', '/verif/check.sh', prop, '--quick'], capture_output=True, text=True, env=env)
    viol = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    shutil.rmtree(wt)
    ok = r.returncode == 1 and any(f'property={prop}' in v for v in viol)
    msg = [x for x in r.stdout.splitlines() if not x.startswith('VIOLATION')][:2]
    return f'{"CAUGHT" if ok else "MISSED"} {i} {prop} rc={r.returncode} n={len(viol)} {time.time() - t:.0f}s' + \
        ('' if ok else f' {msg} {r.stderr[-300:]}')


args = sys.argv[1:]
j = 2
if args[:1] == ['-j']:
    j = int(args[1])
    args = args[2:]
ids = args or sorted(os.listdir('/verif/seeded'))
with ThreadPoolExecutor(j) as ex:
    for s in ex.map(one, ids):
        print(s, flush=True)
