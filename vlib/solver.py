"""Runs the Kepler solver in the configurations of Solver.tla and has TLC validate the recorded runs."""
import concurrent.futures as cf
import json
import math
import os
import random

import numpy as np

from . import core
from . import oracle as O

pi = math.pi
K = 8
BOUND = 40


def draw(c, rnd):
    U = rnd.uniform
    e = {'zero': lambda: 0.0, 'small': lambda: U(0.001, 0.1), 'mid': lambda: U(0.1, 0.9), 'high': lambda: U(0.9, 0.999),
         'just-below': lambda: 1 - 10 ** U(-9, -3), 'just-above': lambda: 1 + 10 ** U(-9, -3), 'hyp': lambda: U(1.05, 5),
         'far': lambda: 10 ** U(0.7, 3)}[c['ecc']]()
    s = rnd.choice((1, -1))
    M = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** U(-9, -3), 'pos': lambda: U(0.01, pi), 'neg': lambda: -U(0.01, pi),
         'upper': lambda: U(pi, 2 * pi), 'turns': lambda: s * U(7, 1000), 'large': lambda: s * 10 ** U(1, 5)}[c['mean']]()
    return e, M


def residual(E, M, e):
    if not math.isfinite(E):
        return math.nan, math.inf
    try:
        t = e * (math.sinh(E) if e > 1 else math.sin(E))
    except OverflowError:
        return math.nan, math.inf
    r = M + E - t if e > 1 else M - E + t
    amp = abs(t) * (abs(E) if e > 1 else 1)
    return abs(r), 4.5e-16 * (abs(M) + 2 * abs(E) + abs(t) + amp)


def classify(E, M, e, tol):
    r, err = residual(E, M, e)
    if math.isnan(r):
        return 'edge'
    return 'below' if r < tol - err else ('above' if r > tol + err else 'edge')


def record(k, c, e, M, rnd):
    """One trace: classes of the iterates and runs with all limits."""
    tol = c['tol'] if isinstance(c['tol'], float) else float(c['tol'])
    deg = int(c['degree'])
    if e > 1:
        root = O.mean_to_ecc(M, e)
    else:
        root = O.mean_to_ecc(M, e)
    g = float(k.kepler_guess(M, e))
    if c['start'] == 'guess':
        E0 = g
    elif c['start'] == 'mean':
        E0 = max(-15.0, min(15.0, M)) if e > 1 else M
    elif c['start'] == 'root':
        E0 = root
    else:
        E0 = root + rnd.choice((1, -1)) * rnd.uniform(1, 5)
    conv_tol = 50 * residual(root, M, e)[1]

    def direct(m):
        E, n = k.laguerre_solve_kepler(E0, M, e, tol=tol, max_iter=m, degree=deg)
        return float(E), int(n)
    its = [E0]
    runs = []
    for m in list(range(K + 1)) + [BOUND]:
        E, n = direct(m)
        while len(its) <= min(n, BOUND):   # iterates not seen yet
            j = len(its)
            Ej, nj = direct(j)
            its.append(Ej if nj == j else math.nan)
        runs.append((m, n, E))
    form = c['form']
    if form != 'direct':
        f = k.mean_to_true if 'true' in form else k.mean_to_eccentric
        deg_in = 'deg' in form
        runs2 = []
        for m, n, _ in runs:
            opts = dict(tol=tol, max_iter=m, degree=deg)
            x = math.degrees(M) if deg_in else M
            if 'equi' in form:
                o = k.equi_to_cart(np.array([1.0, 0.0, e, 0.0, 0.1, x]), mu=1.0, solver_options=opts, degrees=deg_in)
                i = 2 * math.atan(0.1)
                # position in the orbital plane, node along x
                X, Y = o[0], o[1] * math.cos(i) + o[2] * math.sin(i)
                E = O.true_to_ecc(math.atan2(Y, X), e)
            else:
                if 'array' in form:
                    o = f(np.array([x, x, 0.0]), np.array([e, e, 0.2]), solver_options=opts, degrees=deg_in)[0]
                else:
                    o = f(x, e, solver_options=opts, degrees=deg_in)
                E = float(np.radians(o)) if deg_in else float(o)
                if 'true' in form:
                    E = O.true_to_ecc(E, e)
            runs2.append((m, -1, E))
        runs = runs2
    out = []
    for m, n, E in runs:
        if form == 'direct':
            ids = [j for j, x in enumerate(its) if x == E or (math.isnan(x) and math.isnan(E))]
        else:
            d = (lambda x: O.angdiff(x, E)) if e < 1 else (lambda x: abs(x - E))
            # next to the apsides of extreme orbits the true anomaly says little about the eccentric one
            t = 1e-9 * max(1.0, abs(E)) * (1e3 if 'true' in form or 'equi' in form else 1)
            ids = [j for j, x in enumerate(its) if math.isfinite(x) and d(x) <= t]
        out.append(dict(max=m, n=n, ids=ids, conv=bool(m >= BOUND and c['start'] == 'guess' and tol > conv_tol)))
    cls = [classify(x, M, e, tol) for x in its]
    return dict(cls=cls + ['above'], runs=out), dict(e=e, M=M, E0=E0, tol=tol, degree=deg, iterates=its[:12], runs=runs, cls=cls)


ALG_INV = ['Limited', 'RootOrLimit', 'StartKept', 'Prefix', 'Function']


def run(rep, configs, samples, algK=5):
    """configs: list of (name, constants of the configurations)"""
    # the abstract process itself
    r = core.run_tlc('Solver', dict(K=algK, Eccs=set(), Means=set(), Starts=set(), Tols=set(), Degrees=set(), Forms=set(), Emitting=False),
                     invariants=ALG_INV, properties=['Terminates'], timeout=600)
    if r.error:
        raise core.MachineryError('Solver.tla violates its own properties:\n' + r.error[-3000:])
    rep.add_tlc('solver-process', r)
    pyorb = core.load_pyorb()
    k = pyorb.kepler
    items = []
    for name, c in configs:
        r = core.run_tlc('Solver', dict(dict(K=1, Emitting=True), **c), spec='SpecCfg', action_constraint='EmitCfg', timeout=600)
        rep.add_tlc(name, r, configurations=len(r.records))
        recs = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
        items += [(x, s) for s in range(samples) for x in recs]

    def work(part):
        out = []
        for c, s in part:
            rnd = random.Random(f'{core.SEED} {s} {json.dumps(c, sort_keys=True)}')
            e, M = draw(c, rnd)
            try:
                with core.time_limit(20), np.errstate(all='ignore'):
                    t, info = record(k, c, e, M, rnd)
                out.append((c, t, info, None))
            except core.Timeout:
                out.append((c, None, dict(e=e, M=M), 'no answer within the time limit'))
            except O.Invalid:
                continue
            except Exception as ex:
                out.append((c, None, dict(e=e, M=M), f'raised {type(ex).__name__}: {ex}'))
        return out
    res = core.pool_map(work, items)
    good = [x for x in res if x[3] is None]
    for c, t, info, bad in res:
        if bad:
            rep.violation(f'{c}: {info}: {bad}', dict(kind='solver', config=c, info=info))
    rep.traces += len(good)
    if good:
        c, t, info, _ = good[len(good) // 2]
        rep.samples.append(dict(config=c, e=info['e'], M=info['M'], trace=t))
    ok = validate(rep, 'SolverTrace', [t for _, t, _, _ in good])
    for i, (c, t, info, _) in enumerate(good):
        if i not in ok:
            rep.violation(f'the recorded runs are no behaviour of the solver: {c} e={info["e"]!r} M={info["M"]!r} E0={info["E0"]!r} '
                          f'tol={info["tol"]} degree={info["degree"]}: iterates {info["iterates"]} {info["cls"][:12]}, runs (limit, count, result) '
                          f'{info["runs"]}', dict(kind='solver', config=c, info=info))


def validate(rep, module, traces, parts=6):
    """Indices of the traces that TLC accepts."""
    if not traces:
        return set()
    n = max(1, (len(traces) + parts - 1) // parts)
    chunks = [(a, traces[a:a + n]) for a in range(0, len(traces), n)]

    def go(ch):
        a, ts = ch
        r = core.run_tlc(module, dict(File='traces.json'), extra_files={'traces.json': json.dumps(ts)}, action_constraint='Accepted',
                         timeout=1500)
        if r.error:
            raise core.MachineryError(r.error[-3000:])
        return a, r
    ok = set()
    with cf.ThreadPoolExecutor(6) as ex:
        for a, r in ex.map(go, chunks):
            rep.add_tlc(f'{module}-{a}', r, traces=len(chunks[0][1]))
            ok |= {a + x['accepted'] - 1 for x in r.records}
    return ok


# --------------------------------------------------------------------- options of Orbit objects
# elements with clearly different iterates; the second ones need more of them than any other
ELEMENTS = [(0.9, 0.3), (0.999999, 1e-6), (0.97, 3.9)]
TOLS = dict(tight=1e-12, loose=0.5)


def play_options(pyorb, hist, salt):
    k, Orbit = pyorb.kepler, pyorb.Orbit
    objs = []
    deg = bool(salt % 2)
    A = 180 / pi if deg else 1.0
    e, M = ELEMENTS[salt // 2 % 3]

    def expect(o, M=M):
        E, _ = k.laguerre_solve_kepler(k.kepler_guess(M, e), M, e, tol=TOLS[o['tol']], max_iter=o['max'], degree=o['degree'])
        return float(E)
    for n, st in enumerate(hist):
        if st['op'] == 'new':
            so = {}
            if st['max'] != -1:
                so['max_iter'] = st['max']
            if st['degree'] != -1:
                so['degree'] = st['degree']
            if st['tol'] != '-':
                so['tol'] = TOLS[st['tol']]
            kw = dict(solver_options=so) if so or salt % 3 else {}
            passed = dict(so)
            objs.append(Orbit(M0=1.0, G=1.0, degrees=deg, type=st['type'], num=2, direct_update=False, auto_update=bool(salt % 5), **kw))
            if so != passed:
                return f'step {n + 1}: the dictionary passed was changed to {so}'
        elif st['op'] == 'copy':
            o = objs[st['k'] - 1]
            c = {'copy': lambda: o.copy(), 'deepcopy': lambda: __import__('copy').copy(o), 'member': lambda: o[1],
                 'slice': lambda: o[0:2], 'iter': lambda: list(o)[-1]}[st['how']]()
            objs.append(c)
        elif st['op'] == 'set':
            objs[st['k'] - 1].solver_options[st['key']] = st['value']
        else:
            o = objs[st['k'] - 1]
            w = st['with']
            r = st['route']
            base = np.array([1.0, e, 0.5, 0.0, 0.0, 0.0])
            base[2] *= A
            arr = np.repeat(base[:, None], o.num, axis=1)
            E1 = expect(w)
            nu1 = O.ecc_to_true(E1, e)

            def put(x):
                a = arr.copy()
                a[5] = x
                o.kepler = a
            got = want = None
            if r in ('read-true', 'read-eccentric', 'cartesian', 'set-type', 'calc-true', 'calc-eccentric'):
                if o.type != 'mean':
                    return f'step {n + 1}: the type is {o.type}'
                put(M * A)
                if r == 'read-true':
                    got, want = o.true_anomaly, nu1
                elif r == 'read-eccentric':
                    got, want = o.eccentric_anomaly, E1
                elif r == 'calc-true':
                    o.calc_true_anomaly()
                    got, want = o._true_anomaly if hasattr(o, '_true_anomaly') else o.true_anomaly, nu1
                elif r == 'calc-eccentric':
                    o.calc_eccentric_anomaly()
                    got, want = o._eccentric_anomaly if hasattr(o, '_eccentric_anomaly') else o.eccentric_anomaly, E1
                elif r == 'set-type':
                    o.type = 'true'
                    got, want = o.anom, nu1
                    o.type = 'mean'
                else:
                    o.calculate_cartesian()
                    c = o.cartesian
                    i = 0.5
                    got, want = np.arctan2(c[1] * math.cos(i) + c[2] * math.sin(i), c[0]) * A, nu1
            elif r == 'set-mean':
                put(0.1 * A)
                o.mean_anomaly = np.full(o.num, M * A)
                got, want = o.anom, nu1 if o.type == 'true' else E1
            elif r == 'equinoctial':
                q = np.repeat(np.array([1.0, 0.0, e, math.tan(0.25), 0.0, M * A])[:, None], o.num, axis=1)
                # omega + Omega = 0 and Omega = 90 degrees
                o.equinoctial = q
                got, want = o.anom, nu1 if o.type == 'true' else E1
            elif r == 'propagate':
                E0 = O.mean_to_ecc(0.1, e)
                put((O.ecc_to_true(E0, e) if o.type == 'true' else E0) * A)
                o.propagate(M - 0.1)
                got, want = o.anom, nu1 if o.type == 'true' else E1
            got = np.asarray(got, dtype=float) / A
            if got.shape != (o.num,):
                return f'step {n + 1}: shape {got.shape}'
            for g in got:
                if not O.angdiff(float(g), want) <= 1e-7:
                    return f'step {n + 1}: {r} gave the anomaly {float(g)!r}; with the options {w} it is {want!r}'
    return None


def run_options(rep, suites):
    with cf.ThreadPoolExecutor(4) as ex:
        results = list(ex.map(lambda s: core.run_tlc('Options', s[1], invariants=['OwnOptions'], properties=['Separate'], view='View',
                                                     action_constraint='Emit', timeout=1500), suites))
    pyorb = core.load_pyorb()
    items = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError(r.error[-3000:])
        rep.add_tlc(s[0], r, sessions=len(r.records))
        rep.traces += len(r.records)
        items += list(enumerate(r.records))
        if r.records:
            rep.samples.append(r.records[len(r.records) // 2])

    def work(part):
        out = []
        for i, h in part:
            try:
                with core.time_limit(20), np.errstate(all='ignore'):
                    x = play_options(pyorb, h, core.SEED + i)
            except core.Timeout:
                x = 'no answer within the time limit'
            except Exception as ex:
                x = f'raised {type(ex).__name__}: {ex}'
            if x:
                out.append((i, h, x))
        return out
    for i, h, x in core.pool_map(work, items):
        rep.violation('solver options: ' + '; '.join(f'{s["op"]}({", ".join(f"{a}={b}" for a, b in s.items() if a not in ("op", "with"))})' for s in h) + ': ' + x,
                      dict(kind='options', salt=core.SEED + i, hist=h))


# --------------------------------------------------------------------- suites
CFG = dict(Eccs={'zero', 'small', 'mid', 'high', 'just-below', 'just-above', 'hyp', 'far'},
           Means={'zero', 'tiny', 'pos', 'neg', 'upper', 'turns', 'large'}, Starts={'guess', 'mean', 'root', 'far'},
           Tols={'1e-12', '1e-9', '1e-6', '1e-3', '1e-1'}, Degrees={3, 5, 8}, Forms={'direct'})


def suite(prop, rep, T):
    if prop != 'C17':
        return
    q = lambda a, b: b if T else a
    run(rep, [('configurations', CFG if not T else dict(CFG, Degrees={2, 3, 4, 5, 8, 20})),
              ('through-functions', dict(CFG, Means={'zero', 'tiny', 'pos', 'upper'}, Starts={'guess'}, Tols={'1e-12', '1e-6', '1e-3'}, Degrees=q({3, 5}, {3, 5, 8}),
                                         Eccs={'small', 'mid', 'high'}, Forms={'ecc', 'ecc-array', 'true', 'true-array', 'ecc-deg', 'true-array-deg', 'equi',
                                                                              'equi-deg'})),
              ('through-functions-open', dict(CFG, Means={'pos', 'neg', 'large'}, Starts={'guess'}, Tols={'1e-9', '1e-3'}, Degrees={3, 5},
                                              Eccs={'hyp', 'far'}, Forms={'ecc', 'ecc-array', 'ecc-deg', 'ecc-array-deg'}))],
        q(2, 20), algK=q(4, 6))
    R = {'read-true', 'read-eccentric', 'cartesian', 'set-type', 'set-mean', 'equinoctial', 'propagate', 'calc-true', 'calc-eccentric'}
    run_options(rep, [('options', dict(Limits={0, 1, 2}, Degrees={3, 8}, Tols={'loose'}, MaxObj=2, Depth=3, Routes=R, Types={'true', 'mean', 'eccentric'})),
                      ('options-histories', dict(Limits={0, 1}, Degrees={3}, Tols={'loose'}, MaxObj=2, Depth=q(4, 5), Routes=R if T else {'cartesian', 'set-mean', 'set-type'},
                                                 Types=q({'mean', 'true'}, {'true', 'mean', 'eccentric'})))])
