"""Replays arrangements of Pieces.tla: large arrays and Orbits against their pieces."""
import math
import zlib

import numpy as np

from . import core, driver

pi = math.pi
PAIRS = {'true_to_eccentric': 'nu', 'eccentric_to_true': 'E', 'eccentric_to_mean': 'E', 'true_to_mean': 'nu', 'mean_to_eccentric': 'M',
         'mean_to_true': 'M', 'kepler_guess': 'M'}
STATES = {'kep_to_cart', 'cart_to_kep', 'cart_to_equi', 'equi_to_cart', 'equi_to_kep', 'kep_to_equi'}
PLAIN = {'stumpff', 'stumpff0', 'stumpff1', 'stumpff2', 'stumpff3', 'true_of_the_asymptote', 'euler_rotation_matrix', 'orbital_speed', 'orbital_period',
         'semi_major_axis', 'elliptic_radius', 'parabolic_radius', 'hyperbolic_radius', 'orbital_distance', 'orbit_total_angular_momentum',
         'parabolic_total_angular_momentum'}
SLOW = {'mean_to_eccentric', 'mean_to_true', 'equi_to_cart', 'kepler_guess'}
OBJECT = {'to-cartesian', 'to-kepler', 'propagate', 'masses', 'derived', 'equinoctial', 'anomalies', 'write', 'type'}

#: rows of the arguments and of the results that are angles
ANGLES = {f: [0] for f in PAIRS if f != 'kepler_guess'}
ANGLES.update(kep_to_cart=[2, 3, 4, 5], kep_to_equi=[2, 3, 4, 5], equi_to_cart=[5], equi_to_kep=[5], object=[2, 3, 4, 5], euler_rotation_matrix=[0, 1, 2],
              elliptic_radius=[0], parabolic_radius=[0], hyperbolic_radius=[0], orbital_distance=[3])
OUTANGLES = dict(kep_to_cart=[], cart_to_kep=[2, 3, 4, 5], cart_to_equi=[5], equi_to_cart=[], equi_to_kep=[2, 3, 4, 5], kep_to_equi=[5])


def data(fn, n, seed):
    """Arguments for n orbits of all kinds, as rows of a matrix (last axis: orbits); number of leading rows of each argument."""
    r = np.random.RandomState(seed)
    e = np.choose(r.randint(0, 7, n), [np.zeros(n), r.uniform(1e-3, .3, n), r.uniform(.3, .95, n), np.ones(n), r.uniform(1.05, 2, n),
                                       r.uniform(2, 20, n), r.uniform(.05, .5, n)])
    closed = fn in ('cart_to_equi', 'equi_to_cart', 'equi_to_kep', 'kep_to_equi', 'equinoctial')
    if closed or fn == 'elliptic_radius':
        e = np.where(e >= 1, e - np.floor(e), e) * .9
    if fn == 'hyperbolic_radius' or fn == 'true_of_the_asymptote':
        e = 1.01 + e
    a, mu = r.uniform(.5, 2, n), r.uniform(.5, 2, n)
    f = r.uniform(-.95, .95, n)
    nu = np.where(e < 1, f * 7, f * np.arccos(-1 / np.maximum(e, 1)) * .95)
    i = np.choose(r.randint(0, 4, n), [np.zeros(n), r.uniform(.1, 1.5, n), r.uniform(1.6, 3, n), np.full(n, .2)])
    if closed:
        i = np.minimum(i, 2.5)
    om, OM = r.uniform(.1, 6, n), r.uniform(.1, 6, n)
    if fn in PAIRS:
        x = nu if PAIRS[fn] == 'nu' else (r.uniform(-7, 7, n) if PAIRS[fn] == 'M' else r.uniform(-3, 3, n))
        return np.array([x, e])
    if fn in ('true_of_the_asymptote',):
        return np.array([e])
    if 'stumpff' in fn:
        return np.array([r.uniform(-30, 60, n) * np.where(r.rand(n) < .2, 1e-6, 1)])
    if fn == 'euler_rotation_matrix':
        return np.array([i, om, OM])
    if fn in PLAIN:
        return np.array({'orbital_speed': [a, a + 1, mu], 'orbital_period': [a, mu], 'semi_major_axis': [a, mu], 'elliptic_radius': [nu, a, e],
                         'parabolic_radius': [f * 3, a], 'hyperbolic_radius': [nu, a, e], 'orbital_distance': [a, mu, e, nu],
                         'orbit_total_angular_momentum': [np.where(e < 1, a, -a), e, mu], 'parabolic_total_angular_momentum': [a, mu]}[fn])
    if fn in ('equi_to_cart', 'equi_to_kep'):
        lp = om + OM
        return np.array([a, e * np.sin(lp), e * np.cos(lp), np.tan(i / 2) * np.sin(OM), np.tan(i / 2) * np.cos(OM), r.uniform(0, 6, n), mu])
    kep = np.array([a, e, i, om, OM, nu, mu])
    return kep


def cartesian(k, kep):
    return np.concatenate([k.kep_to_cart(kep[:6], mu=kep[6]), kep[6:]])


def evaluate(pyorb, fn, X, how):
    k = pyorb.kepler
    n = X.shape[1]
    deg = how % 4 >= 2
    if deg:
        X = np.array(X)
        for row in ANGLES.get(fn, ANGLES['object'] if fn in OBJECT else []):
            X[row] = np.degrees(X[row])
    d = dict(degrees=True) if deg else {}
    if (fn in PAIRS and fn != 'kepler_guess') or fn in ANGLES and fn in PLAIN:
        return np.asarray(getattr(k, fn)(*[x for x in X], **d)).reshape(-1, n) / (180 / pi if deg and fn in PAIRS else 1)
    if fn in PAIRS or fn in PLAIN:
        y = getattr(k, fn)(*[x for x in X])
        if isinstance(y, tuple):
            y = np.array(y)
        return np.asarray(y).reshape(-1, n)
    if fn in STATES:
        if fn in ('equi_to_kep', 'kep_to_equi'):
            y = getattr(k, fn)(X[:6], **d)
        else:
            y = getattr(k, fn)(X[:6], mu=X[6], **d)
        if deg:
            for row in OUTANGLES[fn]:
                y[row] = np.radians(y[row])
        return y
    typ = ('true', 'eccentric', 'mean')[how // 2 % 3]
    if fn in ('equinoctial', 'type', 'anomalies', 'write', 'masses'):
        typ = ('true', 'mean')[how // 2 % 2]
    lazy = dict(direct_update=bool(how % 2))
    kep = np.array(X[:6])
    if typ != 'true':
        kep[5] = (k.true_to_mean if typ == 'mean' else k.true_to_eccentric)(kep[5], kep[1], **d)
    o = pyorb.Orbit(0.25, G=1.0, num=n, m=X[6] - 0.25, type=typ, **lazy, **d)
    if fn == 'to-kepler':
        o.cartesian = k.kep_to_cart(X[:6], mu=X[6], **d)
        return o.kepler
    o.kepler = kep
    if fn == 'to-cartesian':
        return np.concatenate([o.cartesian, [o.x, o.vz]])
    if fn == 'propagate':
        o.propagate(X[0] * (0.7, 700.0)[how // 8 % 2])
        return np.concatenate([o.cartesian, o.kepler])
    if fn == 'masses':
        o.cartesian
        if not lazy['direct_update']:
            o.update(m=X[0], a=X[6])
        else:
            o.a = X[6]
        return np.concatenate([o.cartesian, [o.m]])
    if fn == 'derived':
        return np.array([o.speed, o.velocity, np.where(X[1] < 1, o.period, 0), np.where(X[1] < 1, o.mean_motion, 0), o.apoapsis, o.periapsis, o.mean_longitude])
    if fn == 'equinoctial':
        q = o.equinoctial
        q[0] *= 1.1
        o.equinoctial = q
        return np.concatenate([q.reshape(6, n), o.cartesian])
    if fn == 'anomalies':
        return np.array([o.mean_anomaly, o.eccentric_anomaly, o.true_anomaly])
    if fn == 'write':
        o.cartesian
        o.vx = o.vx * 1.001
        y = o.kepler
        o.i = np.full(n, 0.3)
        return np.concatenate([y, o.cartesian])
    o.type = 'eccentric'
    y = o.kepler
    o.type = 'mean'
    return np.concatenate([y, o.kepler, o.cartesian])


def arrange(rec, x):
    """Array of the same orbits in another order or layout, and how to find them in the result."""
    n = x.shape[-1]
    idx = np.arange(n)
    if rec['order'] == 'reversed':
        idx = idx[::-1]
        return x[:, ::-1], idx
    if rec['order'] == 'rotated':
        idx = np.roll(idx, n // 3)
        return np.ascontiguousarray(x[:, idx]), idx
    if rec['order'] == 'strided':
        b = np.full((x.shape[0], 2 * n), np.nan)
        b[:, ::2] = x
        return b[:, ::2], idx
    if rec['order'] == 'fortran':
        return np.asfortranarray(x), idx
    return x.copy(), idx


def play(pyorb, rec, salt):
    fn, n = rec['fn'], rec['n']
    X = data(fn, n, core.SEED + salt % 7)
    if fn.startswith('cart'):
        X = cartesian(pyorb.kepler, X)
    A, idx = arrange(rec, X)
    how = zlib.crc32(f'{fn} {rec["cuts"]} {rec["order"]} {salt}'.encode())
    whole = evaluate(pyorb, fn, A, how)
    back = np.empty_like(whole)
    back[:, idx] = whole
    ends = [0] + rec['cuts'] + [n]
    for p, q in zip(ends, ends[1:]):
        part = evaluate(pyorb, fn, np.ascontiguousarray(X[:, p:q]), how)
        w = back[:, p:q]
        if part.shape != w.shape:
            return f'the orbits {p} to {q} give the shape {part.shape}, all together {w.shape}'
        scale = np.maximum(1.0, np.maximum(np.abs(part), np.abs(w)))
        d = np.abs(part - w)
        near = (np.abs(d - 2 * pi) <= 3e-7) | (np.abs(d - 360) <= 3e-5)
        bad = ~((d <= 3e-7 * scale) | near | (np.isnan(part) & np.isnan(w)) | (part == w))
        if np.any(bad):
            j = int(np.argmax(np.any(bad, axis=0)))
            return (f'orbit {p + j} of {n} gives {w[:, j].tolist()} with all the others and {part[:, j].tolist()} together with the orbits {p} to {q - 1} '
                    f'(arguments {X[:, p + j].tolist()})')
    return None


INV = ['Partition', 'Injective']
FOR = {'C01': {'to-cartesian', 'to-kepler', 'write'}, 'C10': {'propagate'}, 'C11': {'masses'}, 'C12': {'derived'}, 'C13': {'equinoctial'},
       'C08': {'type', 'anomalies'}}


def suite(prop, rep, thorough):
    T = thorough
    P = {'first', 'last', 'half', '64', '1024', '4096', '8192', '65536'} | ({'1000', '16384'} if T else set())
    if prop == 'C18':
        fast = (set(PAIRS) | STATES | PLAIN) - SLOW
        suites = [dict(name='pieces', c=dict(Fns=fast, Sizes={300, 5001, 70001}, Points=P, MaxCuts=3 if T else 2, Orders={'same', 'reversed', 'strided'} |
                                             ({'rotated', 'fortran'} if T else set())), salts=1),
                  dict(name='pieces-solved', c=dict(Fns=SLOW, Sizes={300, 5001} | ({70001} if T else {20001}), Points={'last', 'half', '4096', '16384'}, MaxCuts=1,
                                                    Orders={'same', 'reversed'}), salts=1)]
    elif prop in FOR:
        suites = [dict(name='large-orbits', c=dict(Fns=FOR[prop], Sizes={300, 2500} | ({30001} if T else {9001}), Points={'first', 'last', 'half', '1024', '4096', '8192'}, MaxCuts=1,
                                                   Orders={'same', 'reversed'}), salts=2)]
    else:
        return
    driver.explore(rep, 'Pieces', suites, play, invariants=INV, kind='pieces', limit=120,
                   describe=lambda r: f'{r["fn"]} of {r["n"]} orbits ({r["order"]}) cut at {r["cuts"]}')
