"""Replays the rewritings of Equiv.tla on kep_equivalent."""
import concurrent.futures as cf
import math
import random

import numpy as np

from . import core

pi = math.pi
E = [None, 0.0, 0.5, 1.0, 2.0, 0.1]
INC = [None, 0.0, math.atan2(4, 3), pi / 2, math.atan2(3, -4), pi]
SCALES = (1.0, 1.5e11, 7e-10, 3e-5, 42.0)


def generic_angles(rnd):
    """A generic angle, inclinations and eccentricities; those of the specification in half of the cases."""
    if rnd.random() < 0.5:
        return math.atan2(3, 4), INC, E, True
    while True:
        b = rnd.uniform(0.1, pi)
        if all(abs(math.remainder(k * b, pi / 2)) > 0.02 for k in range(1, 9)):
            break
    x = sorted(rnd.uniform(0.05, pi - 0.05) for _ in range(3))
    while min(x[1] - x[0], x[2] - x[1]) < 0.01:
        x = sorted(rnd.uniform(0.05, pi - 0.05) for _ in range(3))
    if rnd.random() < 0.5:
        x[0] = min(x[0], 10 ** rnd.uniform(-5, -2))
    if rnd.random() < 0.5:
        x[2] = max(x[2], pi - 10 ** rnd.uniform(-3, -2))
    ecc = [None, 0.0, rnd.uniform(0.1, 0.97), 1.0, rnd.uniform(1.02, 3), 10 ** rnd.uniform(-6, -1.2)]
    return b, [None, 0.0] + x + [pi], ecc, False


def elements(k, b, inc, ecc, scale, dtype, rnd, noise):
    def ang(x):
        v = x[0] * pi / 2 + x[1] * b
        return v + (rnd.choice((-1, 1)) * rnd.uniform(0, noise) if noise else 0)
    a = scale * k['a'] * (1 + (rnd.uniform(-1, 1) * 1e-10 if noise else 0))
    return np.array([a, ecc[k['e']], inc[k['i']], ang(k['om']), ang(k['OM']), ang(k['nu'])], dtype=dtype)


def play(pyorb, rec, salt):
    rnd = random.Random(f'{core.SEED} {salt}')
    k = pyorb.kepler
    b, inc, ecc, exact = generic_angles(rnd)
    scale = SCALES[salt % 5]
    dtype = np.float32 if salt % 7 == 0 else np.float64
    noise = 0 if dtype is np.float32 or salt % 3 else 1e-10
    kk = [elements(x, b, inc, ecc, scale, dtype, rnd, noise) for x in rec['ks']]
    same = rec['same']
    n = len(kk)
    if same and isinstance(same[0], list):
        pairs = [(i, j, [i + 1, j + 1] in same) for i in range(n) for j in range(n)]
    else:
        pairs = [(i, n - 1, i + 1 in same) for i in range(n - 1)] + [(n - 1, i, i + 1 in same) for i in range(n - 1)] + [(n - 1, n - 1, True)]
    for i, j, want in pairs:
        x, y = kk[i].copy(), kk[j].copy()
        got = k.kep_equivalent(x, y)
        if bool(got) is not want:
            return (f'kep_equivalent({kk[i].tolist()}, {kk[j].tolist()}) is {got}; they describe '
                    + ('the same state' if want else 'different states'))
        if not (np.array_equal(x, kk[i]) and np.array_equal(y, kk[j])):
            return f'kep_equivalent changed its arguments {kk[i].tolist()}, {kk[j].tolist()}'
    if exact and dtype is np.float64:
        mu = scale ** 3
        x = kk[-1]
        z = k.cart_to_kep(k.kep_to_cart(x.copy(), mu=mu), mu=mu)
        for p, q in ((x, z), (z, x)):
            if not k.kep_equivalent(p, q):
                return f'the elements {z.tolist()} found from the state of {x.tolist()} are not equivalent to them'
        for i in range(n - 1):
            w = (i + 1 in same) if not (same and isinstance(same[0], list)) else ([i + 1, n] in same)
            if bool(k.kep_equivalent(kk[i], z)) is not w:
                return f'kep_equivalent({kk[i].tolist()}, {z.tolist()}) is {not w}'
    return None


def run(rep, suites):
    def gen(s):
        if 'sim' in s:
            return core.run_tlc('Equiv', s['c'], invariants=['CanonIsState'], action_constraint='EmitEnd', simulate=s['sim'],
                                depth=s['c']['Depth'] + 2, seed=core.SEED * 100 + s.get('k', 0), timeout=1500)
        return core.run_tlc('Equiv', s['c'], invariants=['CanonIsState'], properties=['TurnsKeep'], view='View', action_constraint='Emit',
                            timeout=1500)
    with cf.ThreadPoolExecutor(7) as ex:
        results = list(ex.map(gen, suites))
    pyorb = core.load_pyorb()
    items = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError(r.error[-3000:])
        if 'sim' in s:
            r.distinct = 0
        rep.add_tlc(s['name'], r, behaviours=len(r.records))
        rep.traces += len(r.records)
        items += list(enumerate(r.records))
        if r.records:
            rep.samples.append(r.records[len(r.records) // 2])

    def work(part):
        out = []
        for i, rec in part:
            try:
                with core.time_limit(20):
                    x = play(pyorb, rec, i)
            except core.Timeout:
                x = 'no answer within the time limit'
            except Exception as ex:
                x = f'raised {type(ex).__name__}: {ex} for {rec["ks"]}'
            if x:
                out.append((i, rec, x))
        return out
    for i, rec, x in sorted(core.pool_map(work, items), key=lambda v: len(v[1]['ks'])):
        rep.violation(x, dict(kind='equivalent', salt=i, rec=rec))


def suite(prop, rep, T):
    if prop != 'C21':
        return
    s = []
    for e in range(1, 6):
        # changes of eccentricity need a second one
        es = {e, e % 4 + 1}
        s.append(dict(name=f'pairs-{e}', c=dict(Eccs=es, Incs={1, 2, 5} if not T else {1, 2, 3, 4, 5}, InitAngles={1, 2, 5} if not T else {1, 2, 3, 5},
                                                 Shifts={1, 2, 3, 4}, Depth=1)))
    for i in ({1, 2}, {5, 3}, {5, 1}, {4, 2}):
        s.append(dict(name=f'two-steps-{min(i)}{max(i)}', c=dict(Eccs={1, 2} if not T else {1, 2, 3, 4}, Incs=i, InitAngles={4} if not T else {3, 4}, Shifts={1, 2}, Depth=2)))
    for j in range(2 if not T else 5):
        s.append(dict(name='walks', sim=40 if not T else 350, k=j, c=dict(Eccs={1, 2, 3, 4, 5}, Incs={1, 2, 3, 4, 5}, InitAngles={1, 2, 3, 4, 5, 6}, Shifts={1, 2, 3, 4, 5},
                                                                            Depth=6)))
    run(rep, s)
