"""Replays paths of Regions.tla with numbers drawn from the regions."""
import math
import random
import zlib

import numpy as np

from . import core, conic
from . import oracle as O

pi = math.pi
INV = ['Conserved', 'Idempotent', 'Same', 'CanonicalAfter']
FULL = dict(Eccs={'zero', 'tiny', 'slight', 'small', 'mid', 'high', 'top', 'brink', 'one', 'hbrink', 'hyp', 'far', 'giant'},
            Incs={'zero', 'tiny', 'low', 'direct', 'polar', 'retro', 'near180', 'tinypi', 'pi'},
            Places={'past', 'nearapo', 'pastapo', 'near', 'peri', 'out1', 'quarter', 'out2', 'apo', 'in2', 'threeq', 'in1', 'beyond', 'inbeyond'},
            Angles={'by0', 'by90', 'by180', 'by270', '0', 'q1', '90', 'q2', '180', 'q3', '270', 'q4'},
            Scales={'unit', 'sun', 'earth', 'days', 'small'}, MaxLen=1, Spread=2)


def lim(e):
    if e < 1:
        return pi
    if e == 1:
        return pi * 0.95
    return 0.95 * math.acos(-1 / e)


def draw(c, rnd):
    U = rnd.uniform
    e = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** U(-13, -9.4), 'slight': lambda: 10 ** U(-8.5, -3.5),
         'small': lambda: 10 ** U(-3.5, -1.3), 'mid': lambda: U(0.05, 0.9),
         'high': lambda: U(0.9, 0.99), 'top': lambda: 1 - 10 ** U(-4, -2), 'one': lambda: 1.0, 'brink': lambda: 1 - 10 ** U(-7.5, -4), 'hbrink': lambda: 1 + 10 ** U(-6, -2),
         'giant': lambda: 10 ** U(1.6, 3.5),
         'hyp': lambda: U(1.01, 3), 'far': lambda: U(3, 40)}[c['e']]()
    i = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** U(-13, -9), 'low': lambda: 10 ** U(-4, -1), 'direct': lambda: U(0.1, 1.5),
         'polar': lambda: pi / 2, 'retro': lambda: U(1.6, 3.04), 'near180': lambda: pi - 10 ** U(-4, -1),
         'tinypi': lambda: pi - 10 ** U(-13, -9), 'pi': lambda: pi}[c['i']]()

    def angle(k):
        if k in ('0', '90', '180', '270'):
            return math.radians(float(k))
        if k[:2] == 'by':
            return math.radians(float(k[2:])) + rnd.choice((-1, 1)) * 10 ** U(-9, -2)
        return (int(k[1]) - 1) * pi / 2 + U(0.001, 0.999) * pi / 2
    L = lim(e)
    f = {'past': lambda: 10 ** U(-9, -2), 'near': lambda: -10 ** U(-9, -2), 'nearapo': lambda: 1 - 10 ** U(-9, -2),
         'pastapo': lambda: -1 + 10 ** U(-9, -2), 'peri': lambda: 0.0, 'out1': lambda: U(0.01, 0.49), 'quarter': lambda: 0.5, 'out2': lambda: U(0.51, 0.99),
         'apo': lambda: 1.0, 'in2': lambda: -U(0.51, 0.99), 'threeq': lambda: -0.5, 'beyond': lambda: 1 - 10 ** U(-2.8 if e == 1 else -4, -1.3), 'inbeyond': lambda: -1 + 10 ** U(-2.8 if e == 1 else -4, -1.3), 'in1': lambda: -U(0.01, 0.49)}[c['place']]()
    if c['place'] in ('beyond', 'inbeyond'):
        L = pi if e == 1 else math.acos(-1 / e)
    nu = f * L
    if e < 1 and rnd.random() < 0.5:
        nu %= 2 * pi
    Lx, mu = {'unit': lambda: (1.0, 1.0), 'sun': lambda: (1.495978707e11 * 10 ** U(-1, 2), 1.32712440018e20),
              'earth': lambda: (6.5e6 * 10 ** U(0, 1), 3.986004418e14), 'days': lambda: (10 ** U(-1, 2), 2.9591220828e-4),
              'small': lambda: (10 ** U(2, 4), 10 ** U(-1, 2))}[c['sc']]()
    a = U(0.5, 2)
    t = c['turn'] * 2 * pi * (1 if rnd.random() < 0.7 else rnd.randint(2, 200))
    w = rnd.random() < 0.5
    return dict(a=a, e=e, i=i, om=angle(c['om']) + t * w, OM=angle(c['OM']) - t * w, nu=nu + (t if e < 1 else 0), L=Lx, mu=mu)


def lin(k, z):
    return k[0] * z['om'] + k[1] * z['OM'] + k[2] * z['nu']


def anom(ty, nu, e):
    if ty == 'T':
        return nu
    if e < 1:
        n = math.floor((nu + pi) / (2 * pi))
    else:
        n = 0
    E = O.true_to_ecc(nu, e)
    x = E if ty == 'E' else O.ecc_to_mean(E, e)
    return x + 2 * pi * n


def vector(rep, z, el):
    """Numbers of a representation in units L = mu = 1."""
    e = z['e']
    if rep in ('T', 'E', 'M'):
        return [z['a'], e, z['i'], lin(el['om'], z), lin(el['OM'], z), anom(rep, lin(el['nu'], z), e)]
    if rep == 'cart':
        return list(O.kep_to_cart((z['a'], e, z['i'], z['om'], z['OM'], z['nu']), 1.0))
    lp = z['om'] + z['OM']
    t = math.tan(z['i'] / 2)
    return [z['a'], e * math.sin(lp), e * math.cos(lp), t * math.sin(z['OM']), t * math.cos(z['OM']),
            lp + anom('M' if rep == 'equi' else 'T', z['nu'], e)]


START = dict(om=[1, 0, 0], OM=[0, 1, 0], nu=[0, 0, 1])


def start_vec(rec, z):
    return vector(rec['r0'], z, START)


def observable(rec, v):
    """The quantities that are determined, as (name, value, is an angle)."""
    rep = rec['rep']
    if rep in ('T', 'E', 'M'):
        a, e, i, om, OM, an = v
        wrapan = rec['ell'] or rep == 'T'
        out = [('a', a, 0), ('e', e, 0), ('i', i, 0)]
        if not rec['fixed'] and (rec['circ'] or rec['planar']):
            if rec['circ'] and rec['planar']:
                out += [('omega + Omega + anomaly', om + OM + an, 1)]
            elif rec['circ']:
                out += [('omega + anomaly', om + an, 1), ('Omega', OM, 1)]
            else:
                out += [('omega + Omega', om + OM, 1), ('anomaly', an, int(wrapan))]
        else:
            out += [('omega', om, 1), ('Omega', OM, 1), ('anomaly', an, int(wrapan))]
        return out
    if rep == 'cart':
        return [(n, x, 0) for n, x in zip(('x', 'y', 'z', 'vx', 'vy', 'vz'), v)]
    return [(n, x, 0) for n, x in zip('ahkpq', v)] + [('longitude', v[5], 1)]


def deviation(rec, u, v):
    d = []
    for (n, x, w), (_, y, _) in zip(observable(rec, u), observable(rec, v)):
        d.append(conic.adiff(x, y) if w else abs(x - y))
    return d


def expected(rec, z):
    """The expected numbers with the tolerance of each observable (errors of the inputs amplified by the path)."""
    v = vector(rec['rep'], z, rec['el'])
    path = rec['path']
    lossy = any(f in ('c2k', 'c2e') for f in path)
    d = 1e-7
    tol = [0.0] * len(observable(rec, v))
    # backward errors: relative for elements; angles of cart_to_kep come from arccos
    amt = dict(a=3e-11 if lossy else 1e-13, e=3e-12 if lossy else 1e-14, i=3e-8 if lossy else 1e-14,
               om=3e-8 if lossy else 1e-14, OM=3e-8 if lossy else 1e-14, nu=3e-8 if lossy else 3e-14)
    if lossy and (z['e'] > 1 - 1e-2 or z['e'] > 1) and z['e'] != 1:
        amt['a'] /= abs(1 - z['e'])
    if lossy and not rec['circ'] and z['e'] < 0.1:
        # the direction of the periapsis of a nearly circular orbit: omega and the anomaly err together
        amt['apsis'] = 3e-15 / z['e']
    for key, s in amt.items():
        h = d * max(1.0, abs(z.get(key, 0)))
        best = None
        for sg in (1, -1):
            y = dict(z)
            if key == 'apsis':
                y['om'] += sg * h
                y['nu'] -= sg * h
            else:
                y[key] += sg * h
            if key == 'e' and (z['e'] == 1 or y['e'] < 0 or (y['e'] - 1) * (z['e'] - 1) <= 0):
                continue
            try:
                dv = deviation(rec, v, vector(rec['rep'], y, rec['el']))
            except O.Invalid:
                continue
            best = dv if best is None else [max(p, q) for p, q in zip(best, dv)]
        if best is not None:
            k = 4 * s * max(1.0, abs(z.get(key, 0))) / h
            tol = [t + k * b for t, b in zip(tol, best)]
    # the mean anomaly is solved for with an absolute tolerance
    if any(f in ('M2E', 'M2t', 'e2k', 'e2c', 'k2e', 'k2eT', 'e2kT') for f in path) or rec['r0'] == 'M':
        e = z['e']
        M = anom('M', z['nu'], e)
        y = dict(z)
        for h, k in ((1e-7 * max(1.0, abs(M)), 1e-4), (2e-12 * max(1.0, abs(M)), 2.0)):
            for sg in (1, -1):
                try:
                    y['nu'] = O.anom_convert(M + sg * h, e, 'mean', 'true')
                    dv = deviation(rec, v, vector(rec['rep'], y, rec['el']))
                    tol = [t + k * b for t, b in zip(tol, dv)]
                except O.Invalid:
                    pass
    if z['e'] != 1 and rec['rep'] != 'E':    # an eccentric anomaly on the way is rounded
        E = anom('E', z['nu'], z['e'])
        for sg in (1, -1):
            y = dict(z)
            try:
                y['nu'] = O.anom_convert(E + sg * 2e-15 * max(6.3, abs(E)), z['e'], 'eccentric', 'true')
                dv = deviation(rec, v, vector(rec['rep'], y, rec['el']))
                tol = [t + b for t, b in zip(tol, dv)]
            except O.Invalid:
                pass
    big = max([1.0] + [abs(x) for x in v])
    base = 1e-7 if lossy else 2e-12
    out = []
    for (n, x, w), t in zip(observable(rec, v), tol):
        f = base
        if n in ('a', 'e') and rec['rep'] in ('T', 'E', 'M'):
            f = 1e-10 if lossy else 1e-13
        elif rec['rep'] == 'cart':
            f = (1e-7 if lossy else 1e-12) * max(abs(q) for q in (v[:3] if n in ('x', 'y', 'z') else v[3:]))
        elif w or n in ('anomaly', 'i'):
            f = base * max(1.0, abs(x))
        else:
            f = base * big
        if rec['circ'] and z['e'] > 0 and ('anomaly' in n or n == 'longitude' or n in 'hk' or n == 'omega'):
            f += 4 * z['e']
        if rec['circ'] and rec['rep'] == 'cart':
            f += 6 * z['e'] * max(abs(q) for q in (v[:3] if n in ('x', 'y', 'z') else v[3:]))
        out.append(t + f)
    if rec['rep'] == 'cart':    # errors of a vector are of the size of the vector
        out = [max(out[:3])] * 3 + [max(out[3:])] * 3
    return v, out


def judge(rec, z, got):
    v, tol = expected(rec, z)
    if any(not math.isfinite(x) for x in got):
        return f'{[float(x) for x in got]}, expected {v}'
    for (n, x, w), (_, y, _), t in zip(observable(rec, list(map(float, got))), observable(rec, v), tol):
        dd = conic.adiff(x, y) if w else abs(x - y)
        if not dd <= t:
            return f'{n} is off by {dd:.3e} (tolerance {t:.1e}): {[float(q) for q in got]}, expected {v}'
    if rec['rep'] in ('T', 'E', 'M'):
        if rec['path'][-1] == 'c2k':
            for n, x in zip(('i', 'omega', 'Omega', 'anomaly'), got[2:]):
                if not -1e-9 <= x <= 2 * pi + 1e-9:
                    return f'{n} = {x!r} is outside of [0, 2 pi]'
        if rec['path'][-1] in ('e2k', 'e2kT'):
            for n, x in zip(('omega', 'Omega', 'anomaly'), got[3:]):
                if not -1e-9 <= x <= 2 * pi + 1e-9:
                    return f'{n} = {x!r} is outside of [0, 2 pi]'
        if rec['path'][-1] == 'c2k':
            if rec['circ'] and got[3] != 0:
                return f'omega = {got[3]!r} of a circular orbit'
            if rec['planar'] and got[4] != 0:
                return f'Omega = {got[4]!r} of a planar orbit'
        if not rec['ell'] and rec['rep'] != 'T' and rec['fixed'] and rec['leg'] * got[5] < -tol[-1]:
            return f'anomaly {got[5]!r} is on the wrong leg'
    if rec['path'][-1] in ('k2e', 'k2eT') and not -1e-9 <= got[5] <= 2 * pi + 1e-9:
        return f'mean longitude {got[5]!r} is outside of [0, 2 pi]'
    return None


def replay(pyorb, recs, zs, wname, stats):
    w = conic.WAYS[wname]
    k = pyorb.kepler
    fails = []
    path, r0 = recs[0]['path'], recs[0]['r0']
    rep = recs[0]['rep']

    def unit(r, z):
        A = w.A
        V = math.sqrt(z['mu'] / z['L'])
        if r == 'cart':
            return [z['L']] * 3 + [V] * 3
        if r in ('T', 'E', 'M'):
            return [z['L'], 1, A, A, A, A]
        return [z['L'], 1, 1, 1, 1, A]

    def fail(i, what):
        fails.append((f'[{wname}] {r0} --' + ', '.join(path) + f'--> {rep} for {recs[i]["c"]}: {what}; start '
                      f'{start_vec(recs[i], zs[i])}, length unit {zs[i]["L"]!r}, mu {zs[i]["mu"]!r}',
                      dict(kind='region', way=wname, rec=recs[i], numbers=zs[i])))
    X = np.array([[p * q for p, q in zip(start_vec(r, z), unit(r0, z))] for r, z in zip(recs, zs)]).T
    mu = np.array([z['mu'] for z in zs])
    Uo = np.array([unit(rep, z) for z in zs]).T
    if w.single:
        for i in range(len(recs)):
            try:
                x = X[:, i].copy()
                for f in path:
                    x = conic.call(k, f, x, float(mu[i]), w)
                r = judge(recs[i], zs[i], x / Uo[:, i]) if np.shape(x) == (6,) else f'shape {np.shape(x)}'
            except core.Timeout:
                raise
            except Exception as ex:
                r = f'raised {type(ex).__name__}: {ex}'
            if r:
                fail(i, r)
    else:
        try:
            x = X.copy()
            for f in path:
                x = conic.call(k, f, x, mu, w)
            if x.shape != X.shape:
                fail(0, f'shape {x.shape}')
                return fails
        except core.Timeout:
            raise
        except Exception as ex:
            fail(0, f'raised {type(ex).__name__}: {ex} (array of {len(recs)})')
            return fails
        x = x / Uo
        for i in range(len(recs)):
            r = judge(recs[i], zs[i], x[:, i])
            if r:
                fail(i, r + f' (one of an array of {len(recs)})')
    return fails


def run(rep, suites):
    """suites: list of (name, constants, ways, samples per class)"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(lambda s: core.run_tlc('Regions', s[1], invariants=INV, action_constraint='Emit', timeout=3000),
                              suites))
    pyorb = core.load_pyorb()
    jobs = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError('Regions.tla violates its own properties:\n' + r.error[-3000:])
        groups = {}
        for x in r.records:
            groups.setdefault((x['r0'], tuple(x['path'])), []).append(x)
        n = 0
        for key, g in groups.items():
            for wn in s[2]:
                for smp in range(s[3]):
                    g2 = sorted(g, key=lambda x: zlib.crc32(f'{core.SEED}{x["c"]}{smp}{wn}'.encode()))
                    for a in range(0, len(g2), 200):
                        jobs.append((g2[a:a + 200], wn, f'{core.SEED} {s[0]} {key} {wn} {smp} {a}'))
                    n += len(g)
        rep.add_tlc(s[0], r, paths=len(r.records), replays=n)
        rep.traces += n
        if r.records:
            x = r.records[len(r.records) // 3]
            rep.samples.append({k: x[k] for k in ('c', 'r0', 'path', 'rep', 'el', 'leg')})

    def work(part):
        out = []
        for recs, wn, key in part:
            rnd = random.Random(key)
            good, zs = [], []
            for rec in recs:
                z = draw(rec['c'], rnd)
                try:
                    expected(rec, z)
                    start_vec(rec, z)
                except O.Invalid:
                    continue
                good.append(rec)
                zs.append(z)
            if not good:
                continue
            with np.errstate(all='ignore'):
                try:
                    with core.time_limit(60):
                        out.append(replay(pyorb, good, zs, wn, None))
                except core.Timeout:
                    out.append([(f'[{wn}] {recs[0]["path"]}: no answer within the time limit',
                                 dict(kind='region', way=wn, rec=recs[0]))])
        return out
    for fails in core.pool_map(work, jobs, chunk=max(1, len(jobs) // 64 + 1)):
        for what, case in fails:
            rep.violation(what, case)
