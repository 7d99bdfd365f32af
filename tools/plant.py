"""Confirm and write planted bugs: /opt/venv/bin/python tools/plant.py BUGS.py [id ...]

BUGS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=...)].
A bug is kept in /verif/seeded/<id> only if the tests pass with it, the demo passes without and fails with it,
and only lines of the original repository are replaced.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

REPO = '/repo'
BASE = 'bc5dd56'
WT = '/tmp/plant_wt'
PY = '/opt/venv/bin/python'
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
import pyorb
from pyorb import kepler as kp
assert os.path.realpath(pyorb.__file__).startswith(os.path.realpath(os.getcwd())), pyorb.__file__


def check(cond, msg):
    if not cond:
        print('DEMO FAILS:', msg)
        sys.exit(1)


def close(a, b, rtol=1e-6, atol=1e-9):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    sel = sys.argv[2:]
    base = {f: set(l.strip() for l in sh('git', '-C', REPO, 'show', f'{BASE}:{f}').stdout.splitlines())
            for f in ('pyorb/orbit.py', 'pyorb/kepler.py', 'pyorb/unit.py', 'pyorb/const.py')}
    for b in bugs:
        if sel and b['id'] not in sel:
            continue
        if not sel and os.path.exists(f'/verif/seeded/{b["id"]}/patch.diff'):
            continue
        if os.path.exists(WT):
            shutil.rmtree(WT)
        sh('cp', '-a', REPO, WT)
        sh('git', '-C', WT, 'checkout', '--', '.')
        bad = None
        for ed in b['edits']:
            f, old, new = ed[:3]
            nth = ed[3] if len(ed) > 3 else 0
            s = open(f'{WT}/{f}').read()
            parts = s.split(old)
            if len(parts) < 2 + nth or (len(ed) == 3 and len(parts) != 2):
                bad = f'edit does not match uniquely ({len(parts) - 1}): {old!r}'
                break
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(f'{WT}/{f}', 'w').write(s)
        if bad:
            print(b['id'], 'REJECT', bad)
            continue
        diff = sh('git', '-C', WT, 'diff').stdout
        cur = None
        norig = 0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
            elif l.startswith('-') and not l.startswith('---'):
                if l[1:].strip() in base[cur]:
                    norig += 1
                elif l[1:].strip():
                    bad = f'removes a line that is not original: {l}'
        if bad or not norig:
            print(b['id'], 'REJECT', bad or 'no original line changed')
            continue
        demo = HEAD + b['demo'].strip('\n') + '\n'
        d = '/tmp/plant_demo'
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(demo)
        r0 = sh(PY, '-W', 'ignore', d + '/demo.py', cwd=REPO)
        r1 = sh(PY, '-W', 'ignore', d + '/demo.py', cwd=WT)
        if r0.returncode != 0:
            print(b['id'], 'REJECT demo fails on the clean tree\n', r0.stdout[-800:], r0.stderr[-1500:])
            continue
        if r1.returncode == 0:
            print(b['id'], 'REJECT demo passes with the bug')
            continue
        t = sh(PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider', '-x', 'tests', cwd=WT,
               env=dict(os.environ, PYTHONPATH=WT))
        if t.returncode != 0:
            print(b['id'], 'REJECT tests fail:', [x for x in t.stdout.splitlines() if 'FAILED' in x or 'rror' in x][:3])
            continue
        out = f'/verif/seeded/{b["id"]}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
        last = [x for x in (r1.stdout + r1.stderr).splitlines() if x.strip()][-1:]
        print(b['id'], 'KEPT', last)
    if os.path.exists(WT):
        shutil.rmtree(WT)


main()
