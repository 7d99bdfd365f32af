"""Replays assignments of NumTypes.tla: the same numbers stored in different numeric types and containers."""
import numpy as np

from . import driver

TYPES = {'f8': np.float64, 'i8': np.int64, 'i4': np.int32, 'u8': np.uint64, 'u4': np.uint32, 'bf8': '>f8', 'bi8': '>i8'}
BITS = {'s': 7, 'm': 32, 'l': 50}
X = [1, 2, 1]
A, B = [100, 60, 120], [90, 50, 110]
MM, LM = [4000000000, 3000000000, 2500000000], [4200000000, 4100000000, 3900000000]
LA, LB = [150000000000, 42164000, 300000000000], [100000000000, 37000000, 200000000000]
MU = [398600441800000, 42828375000000, 324858592000000]


def t(*rows):
    return [list(r) for r in rows]


def neg(v):
    return [-x for x in v]


KEP = t((100, 0, 1, 2, 3, 4), (90, 20, 2, 1, 1, 1), (80, 1, 0, 0, 1, 2))
KEPM = t((4000000000, 0, 1, 2, 3, 4), (3500000000, 20, 2, 1, 1, 1), (80, 1, 0, 0, 1, 2))
KEPL = t((150000000000, 0, 1, 2, 3, 4), (42164000000, 2, 2, 1, 1, 1), (80000000000, 1, 0, 0, 1, 2))
KEPN = t((100, 0, 1, -2, 3, -4), (90, 20, 2, 1, -1, -1), (80, 1, 0, 0, -1, -2))
CART = t((100, 3, 1, 2, 3, 4), (100, 20, 2, 1, 1, 1), (100, 1, 0, 0, 1, 2))
CARTN = t((-100, 3, 1, 2, -3, 4), (100, -20, 2, 1, 1, -1), (-100, 1, 0, 0, -1, -2))
CARTL = t((42000000000, 1000000000, 2000000000, 10, 100, 30), (7000000, 6000000, 1000000, 1000, 6000, 20), (150000000000, 20000000000, 1000000000, 200, 3000, 40))
CARTLN = t((-42000000000, 1000000000, 2000000000, 10, -100, 30), (7000000, -6000000, 1000000, 1000, 6000, -20), (150000000000, 20000000000, 0, 200, -3000, 0))
CLOSED = t((10, 3, 1, 0, 1, 0), (11, 2, 2, 1, 1, 1), (10, 1, 0, 0, 1, 2))
CLOSEDN = t((10, -3, 1, 0, 1, 0), (-11, 2, 2, 1, -1, 1), (10, 1, 0, 0, -1, 2))
CLOSEDL = t((42000000000, 1000000000, 2000000000, 10, 80, 30), (7000000, 6000000, 1000000, 1000, 6000, 20), (20000000000, 1000000000, 1000000000, 20, 100, 40))
EQUI = t((10, 0, 0, 0, 1, 0), (11, 0, 0, 1, 1, 1), (10, 0, 0, 0, 0, 2))
EQUIL = t((42164000000, 0, 0, 0, 1, 0), (150000000000, 0, 0, 1, 1, 1), (7000000, 0, 0, 0, 0, 2))
EQUIN = t((10, 0, 0, 0, -1, 0), (11, 0, 0, -1, 1, -1), (10, 0, 0, 0, 0, -2))
K0 = t((100, 0, 1, 2, 3, 4), (90, 0, 2, 1, 1, 1), (80, 0, 0, 0, 1, 2))
K0L = t((150000000000, 0, 1, 2, 3, 4), (42164000, 0, 2, 1, 1, 1), (80000000000, 0, 0, 0, 1, 2))
K0N = t((100, 0, 1, -2, 3, -4), (90, 0, 2, 1, -1, -1), (80, 0, 0, 0, -1, -2))
PAIR = [[X, [0, 1, 2]], [neg(X), [0, 1, 2]]]
MEAN = PAIR + [[MM, [0, 2, 1]], [[10**15, 3 * 10**14, 8 * 10**14], [0, 2, 1]], [[-10**15, 3 * 10**14, -8 * 10**14], [2, 1, 0]]]
STU = [[[0, 3, 100]], [[-3, 0, -50]], [MM]]
ONE = [1, 2, 1]
CASES = dict(
    true_to_eccentric=PAIR, true_to_mean=PAIR, eccentric_to_true=PAIR, eccentric_to_mean=PAIR, mean_to_eccentric=MEAN, mean_to_true=MEAN,
    kepler_guess=[[[1, 3, 4], [0, 0, 2]], [[1, -3, 10**14], [0, 2, 3]]], stumpff0=STU, stumpff1=STU, stumpff2=STU, stumpff3=STU,
    true_of_the_asymptote=[[[1, 2, 20]]], kep_to_cart=[[KEP, A], [KEPM, A], [KEPL, MU], [KEPN, A], [KEP, MU]],
    cart_to_kep=[[CART, A], [CARTN, A], [CARTL, MU], [CARTLN, MU]], cart_to_equi=[[CLOSED, A], [CLOSEDN, A], [CLOSEDL, MU]],
    equi_to_cart=[[EQUI, A], [EQUIL, MU], [EQUIN, A]], equi_to_kep=[[EQUI], [EQUIL], [EQUIN]], kep_to_equi=[[K0], [K0L], [K0N]],
    orbital_period=[[A, B], [MM, B], [LA, MU], [A, MU]], semi_major_axis=[[A, B], [MM, B], [LA, MU], [A, MU]],
    parabolic_total_angular_momentum=[[A, B], [MM, LM], [LA, MU]],
    orbit_total_angular_momentum=[[A, [0] * 3, B], [MM, [0] * 3, LM], [LA, [0] * 3, MU], [neg(A), [2, 3, 20], B], [neg(LA), [2, 3, 20], MU]],
    orbital_speed=[[A, B, ONE], [MM, LM, MU], [LA, LB, MU], [A, neg(B), ONE], [LA, neg(LB), MU]],
    elliptic_radius=[[X, A, [0] * 3], [neg(X), LA, [0] * 3]], hyperbolic_radius=[[ONE, A, [2, 1, 2]], [[-1, 1, -1], LA, [2, 1, 20]]],
    parabolic_radius=[[X, A], [neg(X), LA]], orbital_distance=[[A, B, [0, 1, 2], X], [MM, LM, [0, 1, 2], X], [[10**15, 75 * 10**13, 3 * 10**14], MU, [0, 1, 2], neg(X)]],
    euler_rotation_matrix=[[X, A, B], [neg(X), A, MM]],
    kep_equivalent=[[[100, 0, 1, 2, 3, 4], [100, 0, 1, 1, 3, 5]], [[150000000000, 2, 1, 2, 3, 4], [150000000001, 2, 1, 2, 3, 4]]],
)
CASES.update({'Orbit.kepler': [[KEP, ONE], [KEPL, MU], [KEPN, ONE]], 'Orbit.cartesian': [[CART, ONE], [CARTLN, MU]], 'Orbit.equinoctial': [[EQUI], [EQUIL]],
              'Orbit.a': [[A], [LA]], 'Orbit.x': [[A], [neg(LA)]], 'Orbit.anomalies': [[X], [neg(X)]], 'Orbit.period': [[A], [MM], [LA]], 'Orbit.mean_motion': [[X]],
              'Orbit.velocity': [[X]], 'Orbit.propagate': [[A], [neg(A)], [MM]], 'Orbit.update': [[A, ONE], [LA, MU]], 'Orbit.add': [[A, ONE], [LA, MU]]})
ANG = dict(true_to_eccentric=[0], true_to_mean=[0], eccentric_to_true=[0], eccentric_to_mean=[0], mean_to_eccentric=[0], mean_to_true=[0], elliptic_radius=[0],
           hyperbolic_radius=[0], parabolic_radius=[0], orbital_distance=[3], euler_rotation_matrix=[0, 1, 2])
ANG['Orbit.anomalies'] = [0]
STATES = {'kep_to_cart': (2, 3, 4, 5), 'cart_to_kep': (), 'cart_to_equi': (), 'equi_to_cart': (5,), 'equi_to_kep': (5,), 'kep_to_equi': (2, 3, 4, 5)}
STATES.update({'Orbit.kepler': (2, 3, 4, 5), 'Orbit.cartesian': (), 'Orbit.equinoctial': (5,)})


def numbers(rec):
    """The numbers of each argument, in the unit of angle of the record."""
    fn, deg = rec['fn'], rec['deg'] == 'deg'
    out = []
    for q, v in enumerate(CASES[fn][rec['case'] - 1]):
        z = rec['sizes'][q]
        flat = np.array(v, dtype=object).ravel()
        if max(abs(x) for x in flat) >= 2 ** BITS[z[-1]] or (min(flat) < 0 and z[0] != '-'):
            raise ValueError(f'{fn} {q}: the numbers are not of the size {z}')
        if fn in STATES and q == 0:
            m = np.array(v, dtype=object).T
            if deg:
                for r in STATES[fn]:
                    m[r] *= 25
            out.append(m)
        else:
            m = np.array(v, dtype=object)
            if deg and q in ANG.get(fn, ()) and z[-1] == 's':
                m = m * 25 if max(abs(x) for x in m) < 5 else m
            out.append(m)
    return out


def stored(v, typ, cont):
    if cont == 'array':
        return np.array([int(x) for x in v.ravel()], dtype=TYPES[typ]).reshape(v.shape)
    x = int(v.ravel()[0])
    if cont == 'numpy':
        return np.dtype(TYPES[typ]).newbyteorder('=').type(x)
    return float(x) if typ in ('f8', 'bf8') else x


def call(pyorb, fn, args, deg):
    if not fn.startswith('Orbit.'):
        kw = dict(degrees=True) if deg else {}
        if fn in STATES and len(args) == 2:
            return [getattr(pyorb.kepler, fn)(args[0], mu=args[1], **kw)]
        if fn in ANG or fn in STATES:
            return [getattr(pyorb.kepler, fn)(*args, **kw)]
        return [getattr(pyorb.kepler, fn)(*args)]
    big = np.max(np.abs(np.float64(args[0]))) > 1e6
    M0 = 398600441800000 if big else 10
    o = pyorb.Orbit(M0, G=1.0, num=0 if fn == 'Orbit.add' else 3, degrees=deg, direct_update=fn != 'Orbit.update')
    what = fn.split('.')[1]
    L = 1e11 if big else 100.0
    u = 180 / np.pi if deg else 1.0
    if what == 'add':
        o.add(num=3, a=args[0], m=args[1], e=0.3, i=0.4 * u, omega=1, Omega=2 * u, anom=3)
        return [o.cartesian, o.kepler, o.m]
    if what == 'equinoctial':
        o.equinoctial = args[0]
        return [o.cartesian, o.kepler]
    if what in ('kepler', 'cartesian'):
        o = pyorb.Orbit(M0, G=1.0, num=3, degrees=deg, m=args[1])
        setattr(o, what, args[0])
        return [o.cartesian, o.kepler, o.m]
    o.kepler = np.array([[L, L * 1.5, L * 2], [0.2, 0.5, 0.1], [.3 * u, .2 * u, .1 * u], [1 * u, 2 * u, 3 * u], [2 * u, 3 * u, 1 * u], [.5 * u, .7 * u, 2 * u]])
    if what == 'update':
        o.update(a=args[0], m=args[1])
    elif what == 'anomalies':
        out = []
        for typ in ('true', 'eccentric', 'mean'):
            o.type = typ
            for name in ('true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'anom', 'omega'):
                setattr(o, name, args[0])
                out += [o.kepler, o.cartesian]
        return out
    elif what == 'propagate':
        o.propagate(args[0])
    elif what == 'velocity':
        o.velocity = args[0]
    elif what == 'x':
        o.x = args[0]
    else:
        setattr(o, what, args[0])
    return [o.cartesian, o.kepler, o.m]


def play(pyorb, rec, salt):
    fn, deg = rec['fn'], rec['deg'] == 'deg'
    v = numbers(rec)
    args = [stored(x, ty, c) for x, ty, c in zip(v, rec['types'], rec['conts'])]
    ref = [stored(x, 'f8', 'python' if c != 'array' else c) for x, c in zip(v, rec['conts'])]
    want = call(pyorb, fn, ref, deg)
    got = call(pyorb, fn, args, deg)
    for g, w in zip(got, want):
        if isinstance(w, (bool, np.bool_)):
            if bool(g) != bool(w):
                return f'is {g}, with floating point numbers {w}'
            continue
        ga, wa = np.asarray(g), np.asarray(w, dtype=np.float64)
        if ga.shape != wa.shape:
            return f'has the shape {ga.shape}, with floating point numbers {wa.shape}'
        if ga.ndim and (ga.dtype.kind != 'f' or ga.dtype.itemsize != 8):
            return f'has the type {ga.dtype}'
        ga = ga.astype(np.float64)
        d = np.abs(ga - wa)
        # rows are of one kind of number
        s = np.max(np.abs(np.where(np.isfinite(wa), wa, 0)), axis=-1, keepdims=True) if wa.ndim else np.abs(wa)
        turn = 360.0 if deg else 2 * np.pi
        ok = (d <= 1e-9 * np.maximum(s, 1e-300)) | (np.abs(d - turn) < 1e-7) | (ga == wa) | (np.isnan(ga) & np.isnan(wa))
        if ga.ndim == 3:
            ok |= d < 1e-12
        elif ga.ndim == 2 and ga.shape[0] == 6:
            # elements of a state are as precise as the state
            big = np.where(np.isfinite(wa), np.abs(wa), 0)
            tol = 1e-9 * np.where(np.arange(6)[:, None] < 3, np.max(big[:3], axis=0), np.max(big[3:], axis=0))
            ok |= d <= np.maximum(tol, 1e-11)
        else:
            ok |= d <= 1e-12
        if not np.all(ok):
            return f'is {ga.tolist()}, with floating point numbers {wa.tolist()}'
    return None


INV = ['Represented', 'Carried', 'AllFloat']
OBJ = {f for f in CASES if f.startswith('Orbit.')}


def suite(prop, rep, thorough):
    if prop != 'C20':
        return
    T = thorough
    ty = set(TYPES)
    many = {'orbital_distance', 'euler_rotation_matrix', 'orbital_speed', 'orbit_total_angular_momentum', 'elliptic_radius', 'hyperbolic_radius'}
    C = {'array', 'numpy', 'python'}
    base = dict(Cases=set(range(1, 9)), Units={'rad', 'deg'} if T else {'rad'}, MaxScalars=2 if T else 1)
    suites = [dict(name='numeric-types', c=dict(base, Fns=set(CASES) - many - OBJ, Types=ty, Containers=C)),
              dict(name='numeric-types-many', c=dict(base, Fns=many, Types=ty if T else {'f8', 'i8', 'u8', 'i4'}, Containers=C if T else {'array', 'numpy'})),
              dict(name='numeric-types-objects', c=dict(base, Fns=OBJ, Types=ty, Containers=C, MaxScalars=1))]
    if not T:
        suites.append(dict(name='numeric-types-degrees', c=dict(base, Fns=set(CASES) - OBJ, Types={'f8', 'i8', 'u4'}, Containers={'array'}, Units={'deg'})))
    driver.explore(rep, 'NumTypes', suites, play, invariants=INV, kind='numtypes', limit=60,
                   describe=lambda r: f'{r["fn"]} of {CASES[r["fn"]][r["case"] - 1]} stored as {r["types"]} ({", ".join(r["conts"])})')
