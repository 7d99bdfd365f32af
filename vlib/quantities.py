"""Replays paths of Quantities.tla: functions of the library are applied one after another to the numbers of a drawn orbit."""
import math
import random
import zlib

import numpy as np

from . import core, regions
from . import oracle as O

pi = math.pi
EPS = 2.3e-16
INV = ['Defined', 'UsedIsKnown', 'Complete']
ANG = {'nu', 'E', 'M', 'ninf'}
FUNCTIONS = {'t2E', 'E2t', 'E2M', 'M2E', 't2M', 'M2t', 'er', 'pr', 'hr', 'od', 'hm', 'ph', 'sp', 'esc', 'per', 'sma', 'asy',
             'place', 'placeP', 'mr', 'mv', 'mh'}
OBJECT = {'oP', 'ov', 'oE', 'oM', 'oV'}
#: ways of calling: (one orbit at a time, degrees, a shared gravitational parameter)
WAYS = {'array': (0, 0, 0), 'array-deg': (0, 1, 0), 'single': (1, 0, 0), 'single-deg': (1, 1, 0), 'shared': (0, 0, 1)}


def one_plus(e, nu):
    """1 + e cos(nu) without cancellation"""
    return (1 + e) * math.cos(nu / 2) ** 2 + (1 - e) * math.sin(nu / 2) ** 2


def semi(e):
    return abs((1 - e) * (1 + e))


def place(size, e, nu, mu):
    return O.kep_to_cart((size, e, 0.7, 1.1, 2.3, nu), mu)


def turned(f):
    """Anomalies of closed orbits keep their turn, so errors are those of the whole angle."""
    def g(x, e):
        n = math.floor((x + pi) / (2 * pi)) if e < 1 else 0
        return f(x - 2 * pi * n, e) + 2 * pi * n
    return g


def true(nu, e):
    if e >= 1:
        O.true_to_ecc(nu, e)       # beyond the asymptote?
    return nu


t2E = turned(O.true_to_ecc)
E2t = turned(O.ecc_to_true)
#: reference: function of the inputs in this order
REF = dict(
    t2E=(('nu', 'e'), t2E), E2t=(('E', 'e'), E2t), E2M=(('E', 'e'), O.ecc_to_mean), M2E=(('M', 'e'), O.mean_to_ecc),
    t2M=(('nu', 'e'), lambda nu, e: O.ecc_to_mean(t2E(nu, e), e)), M2t=(('M', 'e'), lambda M, e: E2t(O.mean_to_ecc(M, e), e)),
    er=(('E', 'a', 'e'), lambda E, a, e: a * ((1 - e) + 2 * e * math.sin(E / 2) ** 2)),
    pr=(('nu', 'q'), lambda nu, q: q / math.cos(nu / 2) ** 2),
    hr=(('nu', 'a', 'e'), lambda nu, a, e: a * semi(e) / one_plus(e, nu)),
    od=(('h', 'mu', 'e', 'nu'), lambda h, mu, e, nu: h * h / mu / one_plus(e, nu)),
    hm=(('a', 'e', 'mu'), lambda a, e, mu: math.sqrt(mu * a * semi(e))),
    ph=(('q', 'mu'), lambda q, mu: math.sqrt(2 * mu * q)),
    sp=(('r', 'a', 'mu'), None), esc=(('r', 'mu'), lambda r, mu: math.sqrt(2 * mu / r)),
    per=(('a', 'mu'), lambda a, mu: 2 * pi * a * math.sqrt(a / mu)),
    sma=(('P', 'mu'), lambda P, mu: (mu * (P / 2 / pi) ** 2) ** (1 / 3)),
    asy=(('e',), lambda e: pi - math.atan2(math.sqrt(semi(e)), 1)),
    place=(('a', 'e', 'nu', 'mu'), place), placeP=(('q', 'e', 'nu', 'mu'), place),
    mr=(('x',), lambda x: O._norm(x[:3])), mv=(('x',), lambda x: O._norm(x[3:])),
    mh=(('x',), lambda x: O._norm(O._cross(x[:3], x[3:]))),
    oP=(('a', 'e', 'mu'), lambda a, e, mu: 2 * pi * a * math.sqrt(a / mu)),
    ov=(('a', 'e', 'nu', 'mu'), lambda a, e, nu, mu: math.sqrt(mu / a / semi(e) * ((1 - e) ** 2 + 4 * e * math.cos(nu / 2) ** 2))),
    oV=(('q', 'e', 'nu', 'mu'), lambda q, e, nu, mu: math.sqrt(2 * mu / q) * abs(math.cos(nu / 2))),
    oE=(('nu', 'e', 'a', 'mu'), lambda nu, e, a, mu: t2E(nu, e)),
    oM=(('nu', 'e', 'a', 'mu'), lambda nu, e, a, mu: O.ecc_to_mean(t2E(nu, e), e)))


def speed(r, a, mu, con):
    x = mu * (2 / r + (1 if con == 'hyp' else -1) / a)
    if x <= 0:
        raise O.Invalid('more than the apoapsis')
    return math.sqrt(x)


def given(rec, z):
    """The numbers the path starts from."""
    e, nu = z['e'], z['nu']
    out = dict(e=e, mu=1.0)
    s, an = rec['s']
    out[s] = REF['per'][1](z['a'], 1.0) if s == 'P' else z['a']
    if e >= 1:
        O.true_to_ecc(nu, e)
    out[an] = nu if an == 'nu' else (REF['t2E'] if an == 'E' else REF['t2M'])[1](nu, e)
    return out


def own(f, val, out):
    """Error made by a step itself, besides that of its inputs."""
    m = abs(out) if not isinstance(out, tuple) else 0.0
    if OUT[f] in ANG:
        m = max(m, 1.0)
    if f in ('E2M', 't2M', 'oM'):
        m = max(m, 1.0 if val['e'] <= 1 else 0.0)
        E = val['E'] if f == 'E2M' else t2E(val['nu'], val['e'])
        m = max(m, abs(E)) if abs(E) > 1e-3 or val['e'] != 1 else m
    if f == 'asy':
        return EPS * (8 + 4 / math.sqrt(semi(val['e'])) * val['e'] ** 2 / max(1.0, val['e'] ** 2))
    return 4 * EPS * m


def flat(x):
    return list(x) if isinstance(x, tuple) else [x]


def walk(rec, z):
    """Value and tolerance of the last quantity of a path."""
    val = given(rec, z)
    e = val['e']
    err = {k: 0.0 if k == 'mu' else 2 * EPS * abs(v) for k, v in val.items()}
    if rec['con'] == 'par':
        err['e'] = 0.0       # exactly one
    for f in rec['path']:
        names, g = REF[f]
        if f == 'sp':
            g = lambda r, a, mu: speed(r, a, mu, rec['con'])
        at = [val[n] for n in names]
        y = g(*at)
        if names == ('x',):
            e1 = (4 * EPS + err['x']) * abs(y)
            if f == 'mh':
                e1 = (4 * EPS + 2 * err['x']) * O._norm(val['x'][:3]) * O._norm(val['x'][3:])
        else:
            tot = [0.0] * len(flat(y))
            for k, n in enumerate(names):
                d = max(err[n], 2 * EPS * abs(at[k]))
                if n in ANG:
                    d = max(d, 2 * EPS * max(1.0, abs(at[k])))
                if n == 'M' and f in ('M2E', 'M2t'):
                    d = max(d, 3e-12 * max(1.0, abs(at[k])))
                if n == 'e' and rec['con'] == 'par' or d == 0:
                    continue
                best = [0.0] * len(tot)
                for sg in (1, -1):
                    q = list(at)
                    q[k] += sg * d
                    if n == 'e' and (q[k] < 0 or (q[k] - 1) * (e - 1) <= 0):
                        continue
                    best = [max(b, abs(u - w)) for b, u, w in zip(best, flat(g(*q)), flat(y))]
                tot = [t + b for t, b in zip(tot, best)]
            if isinstance(y, tuple):     # relative error of the position and of the velocity
                r, v = O._norm(y[:3]), O._norm(y[3:])
                e1 = 8 * EPS + max(max(tot[:3]) / r, max(tot[3:]) / v)
            else:
                e1 = tot[0] + own(f, val, y)
        val[rec['out'] if f == rec['path'][-1] else OUT[f]] = y
        err[OUT[f]] = e1
        if not (isinstance(y, tuple) or math.isfinite(y)) or not math.isfinite(e1):
            raise O.Invalid('overflow')
    y, t = val[rec['out']], err[rec['out']]
    return y, 300 * t


OUT = dict(t2E='E', E2t='nu', E2M='M', M2E='E', t2M='M', M2t='nu', er='r', pr='r', hr='r', od='r', hm='h', ph='h', sp='v', esc='v', per='P',
           sma='a', asy='ninf', place='x', placeP='x', mr='r', mv='v', mh='h', oP='P', ov='v', oV='v', oE='E', oM='M')


def elements(a, e, nu, deg, n):
    A = 180 / pi if deg else 1.0
    one = np.ones(n) if n else 1.0
    return np.array([a * one, e * one, 0.7 * A * one, 1.1 * A * one, 2.3 * A * one, nu * one])


def orbit(pyorb, a, e, nu, mu, deg, typ='true'):
    n = np.size(a)
    A = 180 / pi if deg else 1.0
    mu = np.asarray(mu, float)
    if mu.size > 1 and not np.all(mu == mu.flat[0]):
        M0 = 0.5 * float(mu.min())
        return pyorb.Orbit(M0=M0, G=1.0, m=mu - M0, a=a, e=e, i=0.7 * A, omega=1.1 * A, Omega=2.3 * A, anom=nu, num=n, degrees=deg, type=typ)
    return pyorb.Orbit(M0=float(mu.flat[0]), G=1.0, m=0.0, a=a, e=e, i=0.7 * A, omega=1.1 * A, Omega=2.3 * A, anom=nu, num=n, degrees=deg, type=typ)


def step(pyorb, f, v, con, deg, n):
    k = pyorb.kepler
    d = dict(degrees=bool(deg))
    s = -1 if con == 'hyp' else 1
    if f in ('t2E', 'E2t', 'E2M', 'M2E', 't2M', 'M2t'):
        g = dict(t2E=k.true_to_eccentric, E2t=k.eccentric_to_true, E2M=k.eccentric_to_mean, M2E=k.mean_to_eccentric,
                 t2M=k.true_to_mean, M2t=k.mean_to_true)[f]
        return g(v[REF[f][0][0]], v['e'], **d)
    if f == 'er':
        return k.elliptic_radius(v['E'], v['a'], v['e'], **d)
    if f == 'pr':
        return k.parabolic_radius(v['nu'], v['q'], **d)
    if f == 'hr':
        return k.hyperbolic_radius(v['nu'], v['a'], v['e'], **d)
    if f == 'od':
        return k.orbital_distance(v['h'], v['mu'], v['e'], v['nu'], **d)
    if f == 'hm':
        return k.orbit_total_angular_momentum(s * v['a'], v['e'], v['mu'])
    if f == 'ph':
        return k.parabolic_total_angular_momentum(v['q'], v['mu'])
    if f == 'sp':
        return k.orbital_speed(v['r'], s * v['a'], v['mu'])
    if f == 'esc':
        return k.orbital_speed(v['r'], np.inf, v['mu'])
    if f == 'per':
        return k.orbital_period(v['a'], v['mu'])
    if f == 'sma':
        return k.semi_major_axis(v['P'], v['mu'])
    if f == 'asy':
        return k.true_of_the_asymptote(v['e'], **d)
    if f in ('place', 'placeP'):
        return k.kep_to_cart(elements(v['a' if f == 'place' else 'q'], v['e'], v['nu'], deg, n), mu=v['mu'], **d)
    if f == 'mr':
        return np.sqrt(np.sum(v['x'][:3] ** 2, axis=0))
    if f == 'mv':
        return np.sqrt(np.sum(v['x'][3:] ** 2, axis=0))
    if f == 'mh':
        return np.sqrt(np.sum(np.cross(v['x'][:3], v['x'][3:], axis=0) ** 2, axis=0))
    o = orbit(pyorb, v['q' if f == 'oV' else 'a'], v['e'], v['nu'] if f != 'oP' else 0 * v['e'], v['mu'], bool(deg))
    if f == 'oP':
        out = o.period
    elif f in ('ov', 'oV'):
        out = o.speed
        w = o.velocity
        if not np.all(np.abs(np.asarray(w) - out) <= 1e-6 * np.abs(out) + 0.5 * np.abs(out) * (np.asarray(v['e']) > 1e2)):
            raise AssertionError(f'velocity {w!r} and speed {out!r}')
    else:
        out = o.eccentric_anomaly if f == 'oE' else o.mean_anomaly
    return np.asarray(out).reshape(np.shape(v['e']))[()]


def unit(q, z, deg):
    L, mu = z['L'], z['mu']
    T = math.sqrt(L ** 3 / mu)
    return dict(a=L, q=L, r=L, v=L / T, h=L * L / T, P=T, mu=mu, e=1.0).get(q, 180 / pi if deg else 1.0)


def judge(rec, z, got, y, tol, deg):
    L = z['L']
    V = math.sqrt(z['mu'] / L)
    if isinstance(y, tuple):
        got = [float(x) / u for x, u in zip(got, [L] * 3 + [V] * 3)]
        for s in (slice(0, 3), slice(3, 6)):
            n = O._norm(y[s])
            dd = O._norm([p - q for p, q in zip(got[s], y[s])])
            if not dd <= tol * n * 2:
                return f'state {got}, expected {list(y)} (relative tolerance {tol:.1e})'
        return None
    g = float(got) / unit(rec['out'], z, deg)
    dd = abs(g - y)
    if rec['out'] == 'nu' or (rec['out'] in ANG and rec['con'] == 'ell'):
        dd = O.angdiff(g, y)
    if not dd <= tol:
        return f'{rec["out"]} = {float(got)!r} (in units of the orbit {g!r}), expected {y!r}, off by {dd:.2e} with tolerance {tol:.1e}'
    return None


def replay(pyorb, recs, zs, wname):
    single, deg, shared = WAYS[wname]
    path, con = recs[0]['path'], recs[0]['con']
    fails = []
    want = [walk(r, z) for r, z in zip(recs, zs)]
    base = [given(r, z) for r, z in zip(recs, zs)]

    def fail(i, what):
        z = zs[i]
        fails.append((f'[{wname}] from {", ".join(sorted(base[i]))} --' + ', '.join(path) + f'--> {recs[i]["out"]} of a {recs[i]["c"]} orbit: {what}; '
                      f'{ {k: x * unit(k, z, deg) for k, x in base[i].items()} }', dict(kind='quantity', way=wname, rec=recs[i], numbers=z)))
    groups = [[i] for i in range(len(recs))] if single else [list(range(len(recs)))]
    for g in groups:
        try:
            v = {}
            for q in base[g[0]]:
                x = [base[i][q] * unit(q, zs[i], deg) for i in g]
                v[q] = float(x[0]) if single else np.array(x)
            if shared == 1:
                v['mu'] = float(v['mu'][0])
            for f in path:
                v[OUT[f]] = step(pyorb, f, v, con, deg, 0 if single else len(g))
            y = np.asarray(v[recs[0]['out']])
            shape = ((6,) if recs[0]['out'] == 'x' else ()) + (() if single else (len(g),))
            if y.shape != shape:
                fail(g[0], f'shape {y.shape} instead of {shape}')
                continue
        except core.Timeout:
            raise
        except Exception as ex:
            fail(g[0], f'raised {type(ex).__name__}: {ex}')
            continue
        for k, i in enumerate(g):
            r = judge(recs[i], zs[i], y if single else y[..., k], *want[i], deg)
            if r:
                fail(i, r)
    return fails


def run(rep, suites):
    """suites: (name, constants, ways, samples)"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(lambda s: core.run_tlc('Quantities', s[1], invariants=INV, action_constraint='Emit', timeout=3000), suites))
    pyorb = core.load_pyorb()
    jobs = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError('Quantities.tla violates its own properties:\n' + r.error[-3000:])
        groups = {}
        for x in r.records:
            groups.setdefault((x['con'], tuple(x['s']), tuple(x['path'])), []).append(x)
        n = 0
        for num, (key, g) in enumerate(sorted(groups.items())):
            for wn in s[2]:
                for smp in range(s[3]):
                    g2 = sorted(g, key=lambda x: zlib.crc32(f'{core.SEED}{x["c"]}{smp}{wn}'.encode()))
                    for a in range(0, len(g2), 100):
                        jobs.append((g2[a:a + 100], wn, f'{core.SEED} {s[0]} {key} {wn} {smp} {a}'))
                    n += len(g)
        rep.add_tlc(s[0], r, paths=len(r.records), replays=n)
        rep.traces += n
        if r.records:
            x = r.records[len(r.records) // 3]
            rep.samples.append({k: x[k] for k in ('c', 's', 'path', 'out')})

    def work(part):
        out = []
        for recs, wn, key in part:
            rnd = random.Random(key)
            good, zs = [], []
            shared = None
            for rec in recs:
                z = regions.draw(dict(rec['c'], i='direct', om='q1', OM='q2'), rnd)
                if WAYS[wn][2] == 1:
                    shared = shared or z['mu']
                    z['mu'] = shared
                try:
                    walk(rec, z)
                except (O.Invalid, OverflowError, ZeroDivisionError, ValueError):
                    continue
                good.append(rec)
                zs.append(z)
            if not good:
                continue
            with np.errstate(all='ignore'):
                try:
                    with core.time_limit(60):
                        out.append(replay(pyorb, good, zs, wn))
                except core.Timeout:
                    out.append([(f'[{wn}] {recs[0]["path"]}: no answer within the time limit', dict(kind='quantity', way=wn, rec=recs[0]))])
        return out
    for fails in core.pool_map(work, jobs, chunk=max(1, len(jobs) // 64 + 1)):
        for what, case in fails:
            rep.violation(what, case)


def suite(prop, rep, thorough):
    if prop != 'C30':
        return
    T = thorough
    full = dict(Eccs=regions.FULL['Eccs'], Places=regions.FULL['Places'], Scales=regions.FULL['Scales'])
    W = ['array', 'array-deg', 'single', 'single-deg', 'shared']
    run(rep, [('functions', dict(full, Fns=FUNCTIONS, LastFns=FUNCTIONS, MaxLen=6 if T else 5, Spread=3 if T else 1), W, 2 if T else 1),
              ('objects', dict(full, Fns=OBJECT | {'sma', 'per', 'E2t', 'M2t', 't2M', 'E2M'}, LastFns=OBJECT, MaxLen=5 if T else 4, Spread=2),
               ['array', 'array-deg', 'single-deg'], 1)])
