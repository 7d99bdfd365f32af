"""Replays histories of Limits.tla: settings of the limits and conversions of orbits close to them."""
import math
import random

import numpy as np

from . import core
from . import oracle as O

pi = math.pi
SIZE_E = dict(z=0.0, t=3e-11, s=3e-8, b=3e-5, m=0.03, g=0.4)
SIZE_I = dict(z=0.0, s=1e-6, b=3e-4, c=1.0)
LIM_E = dict(medium=1e-6, large=1e-3)
LIM_I = dict(medium=1e-5, large=1e-2)
WAYS = ['array', 'array-deg', 'single', 'single-deg', 'object', 'object-deg']


def draw(o, rnd):
    U = rnd.uniform
    k = o['e']
    d = SIZE_E[{'0': 'z'}.get(k[-1], k[-1])] * U(0.7, 1.4)
    e = d if k in SIZE_E else (1 - d if k[0] == 'o' else 1 + d)
    i = SIZE_I[o['i'][-1]] * U(0.7, 1.4)
    if o['i'][0] == 'r':
        i = pi - i
    L = U(0.7, 2)
    # angles well inside of the quadrants, also in their sums
    while True:
        om, OM, nu = (U(0, 2 * pi) for _ in range(3))
        if e > 0.9:
            nu = U(0.3, 2.0) * rnd.choice((-1, 1))
        x = U(0.4, 1.1)
        if all(abs(math.sin(2 * y)) > 0.3 for y in (om, OM, om + OM, om - OM, om + nu, om + OM + nu, om - OM + nu)) and abs(math.sin(nu)) > 0.15:
            break
    a = L if e == 1 or e < 0.9 else L / abs(1 - e)
    return dict(a=a, e=e, i=i, om=om, OM=OM, nu=nu, x=x)


def canonical(rec, z):
    lin = lambda k: k[0] * z['om'] + k[1] * z['OM'] + k[2] * z['nu']
    el = rec['el']
    e, a = z['e'], z['a']
    if rec['par']:
        a = a if e == 1 else a * abs((1 - e) * (1 + e)) / 2
        e = 1.0
    return [a, e, z['i'], lin(el['om']), lin(el['OM']), lin(el['nu'])]


def tolerances(rec, z):
    e, i = z['e'], min(z['i'], pi - z['i'])
    t = 1e-6
    if rec['planar']:
        t += 4 * i
    else:
        t += math.sqrt(1e-13 / i)
    t2 = t + (0 if rec['circ'] else math.sqrt(1e-13 / e))
    if rec['par']:
        t2 += 100 * abs(1 - z['e'])
    a = 1e-9 + (0 if rec['par'] else 1e-12 / abs(1 - e))
    return [a * z['a'] if not rec['par'] else 1e-9 + 10 * abs(1 - z['e']), 1e-11, 2e-8 + math.sqrt(1e-13) * 0, t2, t, t2]


def differ(got, want, tol):
    for n, g, w, t in zip(('a', 'e', 'i', 'omega', 'Omega', 'anomaly'), got, want, tol):
        d = abs(g - w) if n in 'aei' else O.angdiff(g, w)
        if not d <= t:
            return f'{n} is {float(g)!r}, expected {w!r}: {[float(q) for q in got]}, expected {want}'
    return None


def equi_of(kep, M):
    a, e, i, om, OM, _ = kep
    t = math.tan(i / 2)
    return [a, e * math.sin(om + OM), e * math.cos(om + OM), t * math.sin(OM), t * math.cos(OM), om + OM + M]


def check_one(rec, z, f, y, A):
    """y: result of the last step for one orbit (angles in units of A)."""
    want = canonical(rec, z)
    tol = tolerances(rec, z)
    if f in ('c2k', 'e2k'):
        y = [float(q) / (A if n > 1 else 1) for n, q in enumerate(y)]
        if f == 'c2k':
            if rec['par'] and y[1] != 1:
                return f'eccentricity {y[1]!r} of an orbit within the limit of parabolas'
            if rec['circ'] and y[3] != 0:
                return f'omega = {y[3]!r} of an orbit within the limit of circular ones'
            if rec['planar'] and y[4] != 0:
                return f'Omega = {y[4]!r} of an orbit within the limit of planar ones'
            return differ(y, want, tol)
        e = z['e']
        if rec['circ']:
            if y[3] != 0:
                return f'omega = {y[3]!r} of an orbit within the limit of circular ones'
            lam = y[5] + y[4]
        else:
            if e > 1e-6 and O.angdiff(y[3] + y[4], z['om'] + z['OM']) > 1e-6 + 1e-13 / e:
                return f'omega + Omega is {y[3] + y[4]!r}, expected {z["om"] + z["OM"]!r}'
            lam = y[3] + y[4] + y[5]
        M = O.ecc_to_mean(O.true_to_ecc(z['nu'], e), e)
        if O.angdiff(lam, z['om'] + z['OM'] + M) > 1e-6:
            return f'mean longitude is {lam!r}, expected {z["om"] + z["OM"] + M!r}'
        return None
    if f == 'c2e':
        y = [float(q) / (A if n == 5 else 1) for n, q in enumerate(y)]
        e = want[1]
        M = O.ecc_to_mean(O.true_to_ecc(want[5], e), e)
        w = equi_of(want, M)
        slack = 2e-7 + 4 * (e if rec['circ'] else 0) + sum(tol[3:]) * max(e, 1e-9) + (4 * z['i'] if rec['planar'] else math.sqrt(1e-13 / z['i']) * z['i'])
        for n, g, v in zip('ahkpq', y, w):
            if not abs(g - v) <= slack:
                return f'{n} is {g!r}, expected {v!r} (tolerance {slack:.1e})'
        t = slack + 2e-6 + (4 * z['i'] if rec['planar'] else math.sqrt(1e-13 / z['i'])) + (0 if rec['circ'] else math.sqrt(1e-13 / e))
        if not O.angdiff(y[5], w[5]) <= t:
            return f'mean longitude is {y[5]!r}, expected {w[5]!r} (tolerance {t:.1e})'
        return None
    if f == 'e2c':
        w = O.kep_to_cart((z['a'], z['e'], z['i'], z['om'], z['OM'], z['nu']), 1.0)
        slack = 1e-6 + 8 * (z['e'] if rec['circ'] else 0)
        for s in (slice(0, 3), slice(3, 6)):
            if not O._norm([p - q for p, q in zip(y[s], w[s])]) <= slack * O._norm(w[s]) * 2:
                return f'state {[float(q) for q in y]}, expected {list(w)}'
        return None


def shifted(rec, z):
    k = [z['a'], z['e'], z['i'], z['om'], z['OM'], z['nu']]
    x = z['x']
    s = -1 if rec['back'] else 1
    if rec['o']['shift'] == 'periapsis':
        k[3] += x
        k[5] -= x
    elif rec['o']['shift'] == 'node':
        k[4] += x
        k[3] -= s * x
    elif rec['o']['shift'] == 'both':
        k[4] += x
        k[5] -= s * x
    elif rec['o']['shift'] == 'nu':
        k[5] += x
    return k


def replay(pyorb, recs, zs, way):
    k = pyorb.kepler
    deg = way.endswith('deg')
    A = 180 / pi if deg else 1.0
    d = dict(degrees=deg)
    path = recs[0]['path']
    keep = k.e_lim, k.i_lim
    fails = []

    def fail(i, what):
        fails.append((f'[{way}] ' + ', '.join(f'{a} = {b}' if b else a for a, b in path) + f' of {recs[i]["o"]}: {what}; elements '
                      f'{ {q: v for q, v in zs[i].items()} }', dict(kind='limits', way=way, rec=recs[i], numbers=zs[i])))
    X = np.array([O.kep_to_cart((z['a'], z['e'], z['i'], z['om'], z['OM'], z['nu']), 1.0) for z in zs]).T
    Kp = np.array([[z['a'], z['e'], z['i'], z['om'], z['OM'], z['nu']] for z in zs]).T
    ell = [i for i, z in enumerate(zs) if z['e'] < 1]
    Q = np.ones((6, len(zs)))
    for i in ell:
        z = zs[i]
        Q[:, i] = equi_of(Kp[:, i], O.ecc_to_mean(O.true_to_ecc(z['nu'], z['e']), z['e']))
    Q[5] *= A

    def apply(f, x, n):
        if f == 'c2k':
            if way.startswith('object'):
                orb = pyorb.Orbit(1.0, G=1.0, m=0.0, num=n, **d)
                orb.cartesian = x.reshape(6, n)
                return orb.kepler
            return k.cart_to_kep(x, mu=1.0, **d)
        if f == 'c2e':
            return k.cart_to_equi(x, mu=1.0, **d)
        if f == 'e2k':
            return k.equi_to_kep(x, **d)
        return k.equi_to_cart(x, mu=1.0, **d)
    try:
        last = None
        for f, v in path:
            if f == 'e_lim':
                k.e_lim = keep[0] if v == 'default' else LIM_E[v]
            elif f == 'i_lim':
                k.i_lim = keep[1] if v == 'default' else LIM_I[v]
            elif f == 'eqv':
                last = [bool(k.kep_equivalent(Kp[:, i].copy(), np.array(shifted(r, z)))) for i, (r, z) in enumerate(zip(recs, zs))]
            else:
                x = Q if f in ('e2k', 'e2c') else X
                if way.startswith('single'):
                    last = np.array([apply(f, x[:, i].copy(), 1) for i in range(len(zs))]).T
                else:
                    last = apply(f, x.copy(), len(zs))
        for i, (r, z) in enumerate(zip(recs, zs)):
            if f == 'eqv':
                if last[i] != r['same']:
                    fail(i, f'kep_equivalent says {last[i]} for {Kp[:, i].tolist()} and {shifted(r, z)}')
                continue
            w = check_one(r, z, f, last[:, i], A)
            if w:
                fail(i, w)
    except core.Timeout:
        raise
    except Exception as ex:
        fail(0, f'raised {type(ex).__name__}: {ex}')
    finally:
        k.e_lim, k.i_lim = keep
    return fails


def suite(prop, rep, thorough):
    if prop != 'C31':
        return
    T = thorough
    E = {'z', 't', 's', 'b', 'm', 'g', 'o0', 'ot', 'os', 'ob', 'om', 'pt', 'ps', 'pb', 'pm'}
    I = {'z', 's', 'b', 'c', 'rz', 'rs', 'rb', 'rc'}
    lims = dict(LimE={'default', 'medium', 'large'}, LimI={'default', 'medium', 'large'})
    suites = [('conversions', dict(lims, Es=E, Is=I, Shifts={'none'}, Fns={'c2k', 'c2e', 'e2k', 'e2c'}, MaxLen=4 if T else 3), WAYS, 2 if T else 1),
              ('equivalence', dict(lims, Es=E, Is=I, Shifts={'none', 'periapsis', 'node', 'both', 'nu'}, Fns={'eqv'}, MaxLen=4 if T else 3), ['single'], 3 if T else 1),
              ('several settings', dict(lims, Es={'s', 'b', 'g', 'os', 'pb'}, Is={'s', 'b', 'c', 'rb'}, Shifts={'none'}, Fns={'c2k'}, MaxLen=6 if T else 5), ['array', 'object-deg'], 1)]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(lambda s: core.run_tlc('Limits', s[1], invariants=['Monotone', 'Exclusive', 'Present', 'Kept'], action_constraint='Emit', timeout=3000), suites))
    pyorb = core.load_pyorb()
    jobs = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError('Limits.tla violates its own properties:\n' + r.error[-3000:])
        groups = {}
        for x in r.records:
            groups.setdefault(str(x['path']), []).append(x)
        n = 0
        for key, g in sorted(groups.items()):
            for w in s[2]:
                if w.startswith('object') and any(f not in ('c2k', 'e_lim', 'i_lim') for f, _ in g[0]['path']):
                    continue
                for smp in range(s[3]):
                    jobs.append((g, w, f'{core.SEED} {s[0]} {key} {w} {smp}'))
                    n += len(g)
        rep.add_tlc(s[0], r, histories=len(r.records), replays=n)
        rep.traces += n
        if r.records:
            rep.samples.append(r.records[len(r.records) // 3])

    def work(part):
        out = []
        for recs, w, key in part:
            rnd = random.Random(key)
            recs = sorted(recs, key=lambda r: rnd.random())
            zs = [draw(r['o'], rnd) for r in recs]
            with np.errstate(all='ignore'):
                try:
                    with core.time_limit(60):
                        out.append(replay(pyorb, recs, zs, w))
                except core.Timeout:
                    out.append([(f'[{w}] {recs[0]["path"]}: no answer within the time limit', dict(kind='limits', way=w, rec=recs[0]))])
        return out
    for fails in core.pool_map(work, jobs):
        for what, case in fails:
            rep.violation(what, case)
