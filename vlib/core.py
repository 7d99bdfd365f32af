"""Common machinery: running TLC, reporting, evidence, timeouts."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('PYORB_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
JAR = '/opt/veriftools/tla/tla2tools.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='verif_')
        owner = os.getpid()
        import atexit

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp


def load_pyorb():
    """Import pyorb from the working tree of /repo, without leaving byte code there."""
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k == 'pyorb' or k.startswith('pyorb.')]:
        del sys.modules[k]
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import pyorb
    f = os.path.realpath(pyorb.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    return pyorb


class MachineryError(Exception):
    """Something of the framework failed (never a verdict about the code)."""


def tla_value(x):
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return x if x.startswith('@') is False and x.startswith('\\') else '"%s"' % x
    if isinstance(x, (set, frozenset)):
        return '{' + ', '.join(sorted(tla_value(y) for y in x)) + '}'
    if isinstance(x, (list, tuple)):
        return '<<' + ', '.join(tla_value(y) for y in x) + '>>'
    raise TypeError(x)


class TLCResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.records = []
        self.error = None
        self.output = []
        self.wall = 0.0
        self.coverage = {}


def run_tlc(module, consts=None, spec='Spec', invariants=(), properties=(), view=None,
            constraint=None, action_constraint=None, postcondition=None, workers=1, simulate=None,
            depth=None, timeout=600, seed=None, extra_files=None, heap='3g', keep=None, deadlock=False,
            coverage=False, init=None, next_=None):
    """Run TLC on spec/<module>.tla with a generated configuration.

    Records printed by the specification with PrintT(ToJson(..)) are collected (or passed to `keep`).
    Violated invariants are returned in .error; any other failure raises MachineryError.
    """
    d = tempfile.mkdtemp(dir=tmpdir())
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (extra_files or {}).items():
        with open(os.path.join(d, name), 'w') as h:
            h.write(text)
    cfg = []
    if init:
        cfg += ['INIT ' + init, 'NEXT ' + next_]
    else:
        cfg.append('SPECIFICATION ' + spec)
    if consts:
        cfg.append('CONSTANTS')
        for k, v in consts.items():
            cfg.append(f' {k} = {tla_value(v)}')
    if invariants:
        cfg.append('INVARIANTS ' + ' '.join(invariants))
    if properties:
        cfg.append('PROPERTIES ' + ' '.join(properties))
    if view:
        cfg.append('VIEW ' + view)
    if constraint:
        cfg.append('CONSTRAINT ' + constraint)
    if action_constraint:
        cfg.append('ACTION_CONSTRAINT ' + action_constraint)
    if postcondition:
        cfg.append('POSTCONDITION ' + postcondition)
    cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    with open(os.path.join(d, 'MC.cfg'), 'w') as h:
        h.write('\n'.join(cfg) + '\n')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dtlc2.TLC.ide=verif',
           '-Djava.io.tmpdir=' + d,
           '-cp', JAR + ':' + _community(), 'tlc2.TLC', '-config', 'MC.cfg', '-metadir', os.path.join(d, 'meta'),
           '-workers', str(workers), '-noGenerateSpecTE']
    if simulate:
        cmd += ['-simulate', f'num={simulate}', '-depth', str(depth)]
        cmd += ['-seed', str(seed if seed is not None else SEED)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd.append(module + '.tla')
    res = TLCResult()
    t0 = time.time()
    env = dict(os.environ)
    env.pop('JAVA_TOOL_OPTIONS', None)
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    timer = _Killer(p, timeout)
    for line in p.stdout:
        if line.startswith('"'):
            try:
                rec = json.loads(json.loads(line))
            except ValueError:
                res.output.append(line.rstrip('\n'))
                continue
            (keep or res.records.append)(rec)
        else:
            res.output.append(line.rstrip('\n'))
    rc = p.wait()
    timer.stop()
    res.wall = time.time() - t0
    res.rc = rc
    text = '\n'.join(res.output)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', text)
    if m:
        res.generated, res.distinct = [int(x.replace(',', '')) for x in m[-1]]
    m = re.findall(r'The number of states generated: ([\d,]+)', text)
    if m:
        res.generated = int(m[-1].replace(',', ''))
    m = re.findall(r'depth of the complete state graph search is (\d+)', text)
    if m:
        res.depth = int(m[-1])
    shutil.rmtree(d, ignore_errors=True)
    if timer.fired:
        raise MachineryError(f'TLC timed out after {timeout} s on {module}')
    if rc in (10, 11, 12, 13):
        res.error = text
    elif rc != 0:
        raise MachineryError(f'TLC failed ({rc}) on {module}:\n' + text[-4000:])
    return res


def _community():
    p = '/opt/veriftools/tla/CommunityModules-deps.jar'
    if not os.path.exists(p):
        import glob
        c = glob.glob('/opt/veriftools/tla/*ommunity*.jar')
        p = c[0] if c else ''
    return p


class _Killer:
    def __init__(self, p, timeout):
        import threading
        self.fired = False
        self.p = p
        self.t = threading.Timer(timeout, self.kill)
        self.t.daemon = True
        self.t.start()

    def kill(self):
        self.fired = True
        try:
            self.p.kill()
        except Exception:
            pass

    def stop(self):
        self.t.cancel()


class Timeout(BaseException):
    pass


class time_limit:
    """Per-case limit for code under test (main thread of the process)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(sig, frm):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Report:
    """Collects what a check covered and what it found."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.suites = []
        self.violations = []
        self.skipped = 0
        self.assumptions = []

    def add_tlc(self, name, res, **extra):
        self.states += res.distinct or res.generated
        self.transitions += res.generated
        self.suites.append(dict(suite=name, states=res.distinct, generated=res.generated,
                                depth=res.depth, wall_s=round(res.wall, 2), **extra))

    def violation(self, what, case):
        self.violations.append((what, case))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        rc = 0
        known = known_findings(self.prop)
        new = []
        printed = set()
        for what, case in self.violations:
            k = next((k for k in known if k['match'](what, case)), None)
            if k:
                if k['text'] not in printed:
                    printed.add(k['text'])
                    print(f'KNOWN-FINDING: property={self.prop} {k["text"]}')
            else:
                new.append((what, case))
        if new:
            rc = 1
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f'{self.prop}.json')
            with open(path, 'w') as h:
                json.dump(dict(property=self.prop, what=new[0][0], case=new[0][1],
                               others=[dict(what=w, case=c) for w, c in new[1:20]]), h, indent=1, default=str)
            print(f'{len(new)} violating case(s); first: {new[0][0]}'[:2000])
            print(f'VIOLATION property={self.prop} replay={path}')
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6],
                   suites=self.suites, skipped_ill_conditioned=self.skipped)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        with open(os.path.join(EVID, f'{self.prop}.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=str)
        print(f'{self.prop}: states={self.states} transitions={self.transitions} traces={self.traces} '
              f'skipped={self.skipped} violations={len(new)} wall={ev["wall_s"]}s')
        return rc


def known_findings(prop):
    """Entries 'finding: property=<id> key=<key> <text>' of KNOWN_FINDINGS.txt."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            key = m.group(2)
            out.append(dict(text=m.group(3), match=lambda w, c, key=key: isinstance(c, dict) and c.get('key') == key))
    return out


_JOB = None


def _run_part(i):
    fn, parts = _JOB
    return fn(parts[i])


def pool_map(fn, items, chunk=None, procs=None):
    """Map over chunks of items in forked processes; fn takes a list of items and returns a list of results."""
    global _JOB
    import concurrent.futures as cf
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    procs = procs or min(8, os.cpu_count() or 1)
    n = len(items)
    chunk = chunk or max(1, min(200, (n + procs * 4 - 1) // (procs * 4)))
    parts = [items[i:i + chunk] for i in range(0, n, chunk)]
    _JOB = (fn, parts)
    with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context('fork')) as ex:
        out = list(ex.map(_run_part, range(len(parts))))
    return [x for p in out for x in p]
