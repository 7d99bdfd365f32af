"""Replays Stumpff.tla on the Stumpff functions."""
import math
import random

import numpy as np

from . import core
from . import oracle as O
from .driver import explore

pi = math.pi
F = lambda q: q[0] / q[1]
ANG = [None, math.atan2(3, 4), pi / 2, pi, math.atan2(4, -3), 2 * pi - math.atan2(4, 3), 2 * pi - math.atan2(5, 12), math.atan2(9, 40)]
EXP = [None, 2, 3 / 2, 3, 5 / 4, 10, 16 / 15, 20]


def values(p):
    """x and the values c0..c3 by the specification."""
    c, s = F(p['c']), F(p['s'])
    k = 2 ** p['doubled']
    if p['kind'] == 'zero':
        return 0.0, [1, 1, 1 / 2, 1 / 6]
    if p['kind'] == 'pos':
        z = k * (ANG[p['n']] + 2 * pi * p['turns'])
        x = z * z
        if z < 1:      # cancellation in the evaluation of the exact values
            return x, [c, s / z, O.stumpff(2, x), O.stumpff(3, x)]
        return x, [c, s / z, (1 - c) / x, (z - s) / (x * z)]
    z = k * math.log(EXP[p['n']])
    x = -z * z
    if z < 1:
        return x, [c, s / z, O.stumpff(2, x), O.stumpff(3, x)]
    return x, [c, s / z, (1 - c) / x, (z - s) / (x * z)]


def tolerance(x, want, k, eps):
    """Rounding of sqrt, of the argument and of the differences."""
    z = math.sqrt(abs(x))
    big = abs(want) if x < 0 else 1.0
    if x == 0:
        return 4 * eps
    if z < 1:
        return abs(want) * (16 * eps + (1e5 * eps if k > 1 else 0))
    return 16 * eps * (1 + z) * (big if x < 0 else [1, 1 / z, 2 / x, (1 + z) / (x * z)][k])


def check_at(name, k, x, got, want, eps):
    t = tolerance(float(x), want, k, eps)
    if not abs(float(got) - want) <= t:
        return f'{name}({x!r}) is {float(got)!r}, not {want!r}'


def play(pyorb, rec, salt):
    k = pyorb.kepler
    rnd = random.Random(f'{core.SEED} {salt}')
    fns = [k.stumpff0, k.stumpff1, k.stumpff2, k.stumpff3]
    if rec['ser']['k'] or not rec['pts']:
        s = rec['ser']
        x, lo = F(s['x']), F(s['sum'])
        # remainder: below the first term left out times a geometric series
        m = s['k'] + 2 * s['j']
        nxt = abs(F(s['term'])) * abs(x) / ((m + 1) * (m + 2))
        rem = nxt / (1 - abs(x) / ((m + 3) * (m + 4))) + 1e-13
        for a in ((x, np.float64(x)) + ((int(x),) if x == int(x) else ())):
            g = float(fns[s['k']](a))
            h = float(k.stumpff(a)[s['k']])
            for v in (g, h):
                if not abs(v - lo) <= rem:
                    return f'stumpff{s["k"]}({a!r}) = {v!r} is not within {rem:g} of the sum {lo!r} of {s["j"] + 1} terms of its series'
        return None
    pv = [values(p) for p in rec['pts']]
    xs = [x for x, _ in pv]
    n = len(xs)
    # scalars
    for x, c in pv:
        for a in (x, np.float64(x), np.array(x)):
            all4 = k.stumpff(a)
            if not isinstance(all4, tuple) or len(all4) != 4:
                return f'stumpff({a!r}) returned {all4!r}'
            for j in range(4):
                g = fns[j](a)
                if np.ndim(g) != 0 or np.ndim(all4[j]) != 0:
                    return f'stumpff{j}({a!r}) is no scalar: {g!r}'
                r = check_at(f'stumpff{j}', j, x, g, c[j], 2.3e-16) or check_at(f'stumpff[{j}]', j, x, all4[j], c[j], 2.3e-16)
                if r:
                    return r
            # x c[k+2] = 1/k! - c[k], computed from the results
            for j in range(2):
                u, v = float(all4[j + 2]) * x, 1.0 - float(all4[j])
                t = abs(x) * tolerance(x, c[j + 2], j + 2, 2.3e-16) + tolerance(x, c[j], j, 2.3e-16) + 1e-15 * (1 + abs(c[j]))
                if not abs(u - v) <= t:
                    return f'x c{j + 2}(x) = {u!r} but 1 - c{j}(x) = {v!r} at x = {x!r}'
    # arrays: repeated, reordered, in other shapes and types
    reps = list(range(n)) * rnd.choice((1, 2, 3))
    rnd.shuffle(reps)
    a = np.array([xs[i] for i in reps])
    forms = [a, a.reshape(-1, 1), a[::-1], np.stack([a, a[::-1]]), np.asfortranarray(np.stack([a, a[::-1], a])), a.astype(np.float32), a[:0]]
    for f in forms:
        keep = f.copy()
        f.flags.writeable = False
        for j in range(4):
            for g in (fns[j](f), k.stumpff(f)[j]):
                if g.shape != f.shape:
                    return f'stumpff{j} of an array of shape {f.shape} has the shape {g.shape}'
                if not np.array_equal(f, keep):
                    return f'stumpff{j} changed its argument'
                for ix in np.ndindex(f.shape):
                    x = float(f[ix])
                    m = int(np.argmin([abs(y - x) for y in xs]))
                    if f.dtype == np.float32:
                        want, eps = O.stumpff(j, x), 1.2e-7
                        if abs(x) > 5000:
                            continue
                    else:
                        want, eps = pv[m][1][j], 2.3e-16
                    r = check_at(f'(position {ix} of {f.tolist()}) stumpff{j}', j, x, g[ix], want, eps)
                    if r:
                        return r
    # integers next to the points
    ints = np.array([int(round(max(-40, min(40, x)))) for x in a] + [0, 1, -1])
    for j in range(4):
        g = fns[j](ints)
        if g.shape != ints.shape or not np.issubdtype(g.dtype, np.floating):
            return f'stumpff{j} of integers has the type {g.dtype}, shape {g.shape}'
        for i, x in enumerate(ints):
            for v, name in ((g[i], f'stumpff{j} of {ints.tolist()} at'), (fns[j](int(x)), f'stumpff{j}')):
                r = check_at(name, j, int(x), v, O.stumpff(j, float(x)), 2.3e-16)
                if r:
                    return r
    # small arguments of either sign
    for _ in range(3):
        y = rnd.choice((1, -1)) * 10 ** rnd.uniform(-30, 1)
        for j in range(4):
            r = check_at(f'stumpff{j}', j, y, fns[j](y), O.stumpff(j, y), 2.3e-16)
            if r:
                return r
    return None


def suite(prop, rep, T):
    if prop != 'C23':
        return
    q = lambda a, b: b if T else a
    P = {1, 2, 3, 4, 5, 6, 7}
    s = [dict(name='points', c=dict(Kinds={'pos', 'neg', 'zero'}, Points=P, Doublings=2, MaxLen=1, Xs=set(), Terms=0), salts=q(8, 100)),
         dict(name='pairs', c=dict(Kinds={'pos', 'neg', 'zero'}, Points=q({1, 3, 5}, P), Doublings=1, MaxLen=2, Xs=set(), Terms=0)),
         dict(name='mixtures', c=dict(Kinds={'pos', 'neg', 'zero'}, Points=q({1}, {1, 5}), Doublings=q(0, 1), MaxLen=q(4, 3), Xs=set(), Terms=0)),
         dict(name='series', c=dict(Kinds=set(), Points=set(), Doublings=0, MaxLen=0, Xs=set(range(1, 14)), Terms=5))]
    explore(rep, 'Stumpff', s, play, ['Circle', 'TermIs'], kind='stumpff')
