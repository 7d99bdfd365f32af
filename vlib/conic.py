"""Replays paths of Conic.tla: exact orbits taken through the library's conversion functions."""
import math
import zlib

import numpy as np

from . import core

pi = math.pi


def q(x):
    return math.inf if x[1] == 0 else x[0] / x[1]


def ang(d):
    return math.atan2(q(d[1]), q(d[0]))


def pos(x):
    return x % (2 * pi)


def anomaly(a):
    k = a['kind']
    if k == 'dir':
        return ang(a['d'])
    if k == 'dirminus':
        return ang(a['d']) - q(a['q'])
    if k == 'num':
        return q(a['q'])
    if k == 'artanh':
        return 2 * math.atanh(q(a['u']))
    return q(a['q']) - 2 * math.atanh(q(a['u']))


def kep(o):
    return [q(o['a']), q(o['e']), ang(o['i']), ang(o['om']), ang(o['OM']), anomaly(o['an'])]


def cart(o):
    return [q(x) for x in o['r']] + [q(x) for x in o['v']]


def equi(o):
    return [q(o['a']), q(o['h']), q(o['k']), q(o['p']), q(o['q']), ang(o['lp']) + anomaly(o['an'])]


def value(rec, rep, out):
    if rep in ('T', 'E', 'M'):
        return kep(out)
    if rep == 'cart':
        return cart(out)
    if rep in ('equi', 'equiT'):
        return equi(out)
    return None


class Way:
    """How the functions are called: unit of length and mu, angle unit, arrays or single objects."""

    def __init__(self, name, L=1.0, K=1.0, degrees=False, single=False, shift=0):
        self.name, self.L, self.K, self.degrees, self.single = name, L, K, degrees, single
        self.V = math.sqrt(K / L)
        self.A = 180 / pi if degrees else 1.0
        self.shift = shift


WAYS = {
    'array': Way('array'),
    'array-deg': Way('array-deg', degrees=True),
    'si': Way('si', L=1.495978707e11, K=1.32712440018e20),
    'single': Way('single', single=True),
    'single-deg': Way('single-deg', single=True, degrees=True),
    'single-si-deg': Way('single-si-deg', L=2.5e6, K=3.986e14, degrees=True, single=True),
}


def units(rep, w):
    if rep in ('T', 'E', 'M'):
        return np.array([w.L, 1, w.A, w.A, w.A, w.A])
    if rep == 'cart':
        return np.array([w.L] * 3 + [w.V] * 3)
    return np.array([w.L, 1, 1, 1, 1, w.A])


def call(k, f, x, mu, w):
    """Apply one function of the library to the state x (rep by rep)."""
    deg = w.degrees
    y = np.array(x)
    if f == 'k2c':
        return k.kep_to_cart(y, mu=mu, degrees=deg)
    if f == 'c2k':
        return k.cart_to_kep(y, mu=mu, degrees=deg)
    if f in ('k2e', 'k2eT'):
        return k.kep_to_equi(y, degrees=deg)
    if f in ('e2k', 'e2kT'):
        return k.equi_to_kep(y, degrees=deg)
    if f == 'c2e':
        return k.cart_to_equi(y, mu=mu, degrees=deg)
    if f == 'e2c':
        return k.equi_to_cart(y, mu=mu, degrees=deg)
    g = {'t2E': k.true_to_eccentric, 'E2t': k.eccentric_to_true, 'E2M': k.eccentric_to_mean,
         'M2E': k.mean_to_eccentric, 't2M': k.true_to_mean, 'M2t': k.mean_to_true}[f]
    an, e = y[5], y[1]
    if w.single:
        an, e = float(an), float(e)
    y[5] = g(an, e, degrees=deg)
    return y


def adiff(x, y):
    d = (x - y) % (2 * pi)
    return min(d, 2 * pi - d)


def compare(rec, got, w):
    """got: numbers in canonical units; returns None or what is wrong"""
    rep = rec['rep']
    path = rec['path']
    lossy = [f for f in path if f in ('c2k', 'c2e')]
    exp = value(rec, rep, rec['out'])
    if rep in ('T', 'E', 'M'):
        ta = 2e-7 if lossy else 2e-11
        tl = 1e-9 if lossy else 1e-11
        closed = rec['ell'] or rep == 'T'
        if not abs(got[0] - exp[0]) <= tl * exp[0]:
            return f'a = {got[0]!r}, expected {exp[0]!r}'
        if not abs(got[1] - exp[1]) <= tl * (1 + exp[1]):
            return f'e = {got[1]!r}, expected {exp[1]!r}'
        if not abs(got[2] - exp[2]) <= ta:
            return f'i = {got[2]!r}, expected {exp[2]!r}'
        om, OM, an = got[3], got[4], got[5]
        om0, OM0, an0 = exp[3], exp[4], exp[5]
        amp = 1.0 if rep == 'T' else 60.0 * (1 + abs(an0))
        ta2 = ta * (amp if lossy else 1) * (1 + abs(an0))
        if 'c2k' == path[-1]:
            for nm, g in (('i', got[2]), ('omega', om), ('Omega', OM), ('anomaly', an)):
                if not -1e-12 <= g <= 2 * pi + 1e-12:
                    return f'{nm} = {g!r} is outside of [0, 2 pi]'
        da = (lambda x, y: adiff(x, y)) if closed else (lambda x, y: abs(x - y))
        if rec['free'] and (rec['circ'] or rec['planar']):
            if rec['circ'] and rec['planar']:
                pairs = [('omega + Omega + anomaly', adiff(om + OM + an, om0 + OM0 + an0), ta2)]
            elif rec['circ']:
                pairs = [('omega + anomaly', adiff(om + an, om0 + an0), ta2), ('Omega', adiff(OM, OM0), ta)]
            else:
                pairs = [('omega + Omega', adiff(om + OM, om0 + OM0), ta), ('anomaly', da(an, an0), ta2)]
        else:
            pairs = [('omega', adiff(om, om0), ta), ('Omega', adiff(OM, OM0), ta), ('anomaly', da(an, an0), ta2)]
        for nm, d, t in pairs:
            if not d <= t:
                return f'{nm}: elements are {[float(z) for z in got]}, expected {exp} (off by {d:.2e})'
        return None
    if rep == 'cart':
        t = 1e-6 if lossy else 1e-11
        r = math.sqrt(sum(z * z for z in exp[:3]))
        v = math.sqrt(sum(z * z for z in exp[3:]))
        for j in range(6):
            if not abs(got[j] - exp[j]) <= t * 20 * (r if j < 3 else v):
                return f'state is {[float(z) for z in got]}, expected {exp}'
        return None
    t = 1e-6 if lossy else 2e-11
    for j in range(5):
        if not abs(got[j] - exp[j]) <= t * (2 + abs(exp[j])) ** 2:
            return f'equinoctial elements are {[float(z) for z in got]}, expected {exp}'
    if not adiff(got[5], exp[5]) <= t * 60:
        return f'longitude: equinoctial elements are {[float(z) for z in got]}, expected {exp}'
    return None


def scalars(k, f, rec, w, pyorb):
    """Functions with a scalar result."""
    o = rec['out']
    s = kep(rec['s'])
    mu = q(rec['o']['mu']) * w.K
    a, e, nu = s[0] * w.L, s[1], s[5] * w.A
    deg = w.degrees
    out = []

    def chk(nm, got, want):
        if not abs(float(got) - want) <= 1e-11 * abs(want):
            out.append(f'{nm} is {float(got)!r}, expected {want!r}')
    if f == 'radius':
        r = q(o['r']) * w.L
        p = q(rec['o']['p']) * w.L
        chk('orbital_distance', k.orbital_distance(math.sqrt(mu * p), mu, e, nu, degrees=deg), r)
        if e < 1:
            E = 2 * math.atan2(*([1.0, 0.0] if o['eh'][1] == 0 else [q(o['eh']), 1.0]))
            chk('elliptic_radius', k.elliptic_radius(E * w.A, a, e, degrees=deg), r)
        elif e == 1:
            chk('parabolic_radius', k.parabolic_radius(nu, a, degrees=deg), r)
        else:
            chk('hyperbolic_radius', k.hyperbolic_radius(nu, a, e, degrees=deg), r)
            th = float(k.true_of_the_asymptote(e, degrees=deg)) / w.A
            if not (abs(1 + e * math.cos(th)) < 1e-9 and 0 < th < pi):
                out.append(f'true_of_the_asymptote is {th}')
    elif f == 'speed':
        v = math.sqrt(q(o['v2'])) * w.V
        aa = a if e < 1 else (np.inf if e == 1 else -a)
        chk('orbital_speed', k.orbital_speed(q(o['r']) * w.L, aa, mu), v)
    elif f == 'angmom':
        h = q(o['h']) * w.L * w.V
        if e == 1:
            chk('parabolic_total_angular_momentum', k.parabolic_total_angular_momentum(a, mu), h)
        else:
            chk('orbit_total_angular_momentum', k.orbit_total_angular_momentum(a if e < 1 else -a, e, mu), h)
    elif f == 'period':
        P = 2 * pi * math.sqrt(q(o['a']) * q(o['a2mu'])) * w.L / w.V
        chk('orbital_period', k.orbital_period(a, mu), P)
        chk('semi_major_axis', k.semi_major_axis(P, mu), a)
    elif f == 'euler':
        R = np.asarray(k.euler_rotation_matrix(s[2] * w.A, s[3] * w.A, s[4] * w.A, degrees=deg))
        want = np.array([[q(z) for z in row] for row in o['m']])
        if R.shape != (3, 3) or not np.all(np.abs(R - want) <= 1e-14 * 4):
            out.append(f'euler_rotation_matrix is {R.tolist()}, expected {want.tolist()}')
        M = k.rot_mat_z(s[4]) @ k.rot_mat_x(s[2]) @ k.rot_mat_z(s[3])
        if not np.all(np.abs(M - want) <= 1e-14 * 8):
            out.append(f'rot_mat_z(Omega) rot_mat_x(i) rot_mat_z(omega) is {M.tolist()}, expected {want.tolist()}')
    return out


def replay_batch(pyorb, recs, wname):
    """All records have the same path and start representation."""
    w = WAYS[wname]
    k = pyorb.kepler
    path, r0 = recs[0]['path'], recs[0]['r0']
    fails = []

    def fail(i, what):
        rec = recs[i]
        fails.append((f'[{wname}] {r0} --' + ', '.join(path) + f'--> {rec["rep"]}: {what}; start {value(rec, r0, rec["s"])}, '
                      f'mu {q(rec["o"]["mu"])}', dict(kind='conic', way=wname, rec=rec)))
    if len(path) == 1 and recs[0]['rep'] == 'val':
        for i, rec in enumerate(recs):
            try:
                for x in scalars(k, path[0], rec, w, pyorb):
                    fail(i, x)
            except Exception as ex:
                fail(i, f'raised {type(ex).__name__}: {ex}')
        return fails
    X = np.array([value(r, r0, r['s']) for r in recs]).T * units(r0, w)[:, None]
    # angles of an input may be given modulo a full turn (negative, more than one turn)
    mu = np.array([q(r['o']['mu']) for r in recs]) * w.K
    if r0 == 'T':
        turns = np.array([[(zlib.crc32(repr((i, j, path)).encode()) % 5 - 2) * (j > 0) for i in range(len(recs))]
                          for j in range(3)]) * 2 * pi * w.A * w.shift
        X[3:6] += turns
    rep = recs[0]['rep']
    u = units(rep, w)
    if w.single:
        for i in range(len(recs)):
            try:
                x = X[:, i].copy()
                for f in path:
                    x = call(k, f, x, float(mu[i]), w)
                if np.shape(x) != (6,):
                    fail(i, f'shape {np.shape(x)}')
                    continue
                r = compare(recs[i], x / u, w)
            except Exception as ex:
                r = f'raised {type(ex).__name__}: {ex}'
            if r:
                fail(i, r)
    else:
        try:
            x = X.copy()
            for f in path:
                x = call(k, f, x, mu, w)
            if x.shape != X.shape:
                fail(0, f'shape {x.shape}')
                return fails
        except Exception as ex:
            fail(0, f'raised {type(ex).__name__}: {ex} (array of {len(recs)})')
            return fails
        for i in range(len(recs)):
            r = compare(recs[i], x[:, i] / u, w)
            if r:
                fail(i, r + f' (one of an array of {len(recs)})')
    return fails


def run(rep, suites):
    """suites: list of (name, constants, ways)"""
    import concurrent.futures as cf

    def gen(s):
        return core.run_tlc('Conic', s[1], invariants=['WellFormed', 'Frame', 'Conserved', 'CanonicalSame', 'EccRadius',
                                                       'HypRadius', 'EquiOK'], action_constraint='Emit', timeout=3000)
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(gen, suites))
    pyorb = core.load_pyorb()
    jobs = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError('Conic.tla violates its own properties:\n' + r.error[-3000:])
        groups = {}
        for x in r.records:
            groups.setdefault((x['r0'], tuple(x['path'])), []).append(x)
        n = 0
        for g in groups.values():
            for wn in s[2]:
                # mixed order: neighbours in an array are orbits of different kinds
                g = sorted(g, key=lambda x: zlib.crc32(repr(x['s']).encode()))
                for a in range(0, len(g), 250):
                    jobs.append((g[a:a + 250], wn))
                n += len(g)
        rep.add_tlc(s[0], r, paths=len(r.records), replays=n)
        rep.traces += n
        if r.records:
            x = r.records[len(r.records) // 2]
            rep.samples.append(dict(start=x['r0'], elements=value(x, x['r0'], x['s']), path=x['path'],
                                    expected=value(x, x['rep'], x['out']) or x['out']))

    def work(part):
        out = []
        for recs, wn in part:
            with np.errstate(all='ignore'):
                try:
                    with core.time_limit(60):
                        out.append(replay_batch(pyorb, recs, wn))
                except core.Timeout:
                    out.append([(f'[{wn}] {recs[0]["path"]}: no answer within the time limit',
                                 dict(kind='conic', way=wn, rec=recs[0]))])
        return out
    for fails in core.pool_map(work, jobs, chunk=max(1, len(jobs) // 48 + 1)):
        for what, case in fails:
            rep.violation(what, case)
