"""Replays Units.tla: get_G for all spellings of unit systems, and the same sessions in two unit systems."""
import math
import random

import numpy as np

from . import core
from . import oracle as O
from .driver import explore

pi = math.pi
PC = 3.08567758149137e16
NUM = {'#1': 1.0, '#2': 2.5, '#3': np.float64(1e-7), '#4': 4.2e11, '#5': 1 / 3}
BAD = {'!1': None, '!2': [1.0], '!3': ('m',), '!4': {'a': 1}, '!5': object()}
SEP = {'': '', 'under': '_', 'blank': ' ', 'dash': '-', 'many': '_- '}


def spell(u, case, sep):
    if u in NUM:
        return NUM[u]
    if u in BAD:
        return BAD[u]
    s = SEP[sep].join([u[0], u[1:]]) if sep and len(u) > 1 else u + SEP[sep]
    return dict(lower=s, upper=s.upper(), title=s.capitalize(), swap=s.capitalize().swapcase())[case]


def value(f, pyorb):
    s = f['sym']
    b = NUM[s] if s in NUM else {'': 1.0, 'AU': pyorb.const.AU, 'pc': PC, 'Msol': pyorb.const.M_sol}[s]
    return b * f['times'] * 10.0 ** f['ten']


def play_name(pyorb, rec, salt):
    c, want = rec['cfg'], rec['hist'][0]
    l = spell(c['length'], c['case'], c['other'])
    m, t = spell(c['mass'], c['case'], c['sep']), spell(c['time'], c['case'], '')
    f = pyorb.get_G if salt % 2 else pyorb.unit.get_G

    def call():
        if c['call'] == 'pos':
            return f(l, m, t)
        if c['call'] == 'kw':
            return f(time=t, mass=m, length=l)
        return f(l, time=t, mass=m)
    if not want['ok']:
        try:
            g = call()
        except TypeError:
            return None
        return f'get_G({l!r}, {m!r}, {t!r}) returned {g!r}; one of them is no unit, TypeError is due'
    g = call()
    w = pyorb.const.G * value(want['m'], pyorb) * value(want['t'], pyorb) ** 2 / value(want['l'], pyorb) ** 3
    if not abs(g - w) <= 1e-14 * w:
        return f'get_G({l!r}, {m!r}, {t!r}) = {g!r}, not {w!r}'
    return None


# systems: names of the units, sizes in SI
SYS = dict(si=('m', 'kg', 's'), km=('km', 'kg', 's'), cgs=('cm', 'g', 's'), astro=('AU', 'Msol', 'y'), gal=('pc', 'M_sun', 'Y'), day=('au', 'MSOL', 'd'),
           hour=('km', 'msol', 'h'), num=(7.0e6, 5.9e24, 806.8), mix=('km', 3.0e22, 'd'))


def sizes(s, pyorb):
    L = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': pyorb.const.AU, 'pc': PC}
    M = {'kg': 1.0, 'g': 1e-3, 'msun': pyorb.const.M_sol, 'msol': pyorb.const.M_sol}
    T = {'s': 1.0, 'h': 3600.0, 'd': 86400.0, 'y': 365.25 * 86400}
    l, m, t = SYS[s]
    return (l if isinstance(l, float) else L[l.lower()], m if isinstance(m, float) else M[m.lower().replace('_', '')],
            t if isinstance(t, float) else T[t.lower()])


ECC = dict(ell=[0.3, 0.05, 0.8, 0.6], circ=[0.0, 0.0, 0.0, 0.0], par=[1.0, 1.0, 1.0, 1.0], hyp=[1.8, 3.0, 1.2, 6.0])
# semi-major axes in units of a0 of the session
AX = [1.0, 2.3, 0.7, 5.2]
ANG = [[0.5, 1.0, 2.0, 0.3], [1.2, 4.0, 0.4, -0.8], [2.4, 5.5, 3.3, 1.1], [0.9, 2.2, 6.0, -0.2]]


class Play:
    """One Orbit per unit system; quantities are given in SI and put in with the factors of the units."""

    def __init__(self, pyorb, rec, salt, s):
        self.k = pyorb.kepler
        self.L, self.M, self.T = sizes(s, pyorb)
        self.dim = rec['dim']
        self.salt = salt
        self.earth = salt % 2
        self.GSI = pyorb.const.G
        self.deg = bool(salt % 3 == 1)
        self.A = 180 / pi if self.deg else 1.0
        self.M0 = 5.97e24 if self.earth else 1.989e30
        self.a0 = 9e6 if self.earth else 1.7e11
        self.G = pyorb.get_G(*SYS[s])
        kinds = self.kinds0(rec)
        n = len(kinds)
        self.types = ['true', 'eccentric', 'mean']
        self.m = [self.M0 * x for x in (0.0, 0.01, 0.3, 0.001)[:n]]
        mode = [dict(), dict(direct_update=False), dict(auto_update=False)][salt % 3]
        self.o = pyorb.Orbit(M0=self.put(self.M0, 'm'), G=self.G, num=n, m=np.array([self.put(x, 'm') for x in self.m]), degrees=self.deg,
                             type=self.types[salt % 3], solver_options=dict(tol=1e-13), **mode)
        self.o.kepler = self.kep(kinds)

    def kinds0(self, rec):
        # the kinds of the members before the first step
        return rec['cfg']['start']

    def factor(self, q):
        l, m, t = self.dim[q]
        return self.L ** l * self.M ** m * self.T ** t

    def put(self, x, q):
        return x / self.factor(q)

    def get(self, x, q):
        return np.asarray(x, dtype=float) * self.factor(q)

    def mu(self):
        return self.GSI * (self.M0 + np.array(self.m))

    def elements(self, kinds, first=0):
        """Elements in SI with the true anomaly in radians."""
        out = []
        for j, kd in enumerate(kinds):
            j += first
            out.append([self.a0 * AX[j % 4], ECC[kd][j % 4], *ANG[j % 4]])
        return np.array(out).T

    def anom(self, nu, e):
        t = self.o.type if hasattr(self, 'o') else self.types[self.salt % 3]
        if t == 'true':
            return nu
        E = O.true_to_ecc(nu, e)
        return E if t == 'eccentric' else O.ecc_to_mean(E, e)

    def kep(self, kinds, first=0):
        K = self.elements(kinds, first)
        K[5] = [self.anom(nu, e) * (1.0) for nu, e in zip(K[5], K[1])]
        K[0] = self.put(K[0], 'a')
        open_ = (K[1] >= 1) & (self.o.type != 'true')
        K[2:5] *= self.A
        K[5] *= self.A
        return K

    def cart(self, kinds, mu, first=0):
        K = self.elements(kinds, first)
        X = np.array([O.kep_to_cart(K[:, j], mu[j]) for j in range(K.shape[1])]).T
        X[:3] = self.put(X[:3], 'r')
        X[3:] = self.put(X[3:], 'v')
        return X

    def step(self, st):
        o, op, n = self.o, st['op'], st['n']
        N = o.num
        if op == 'setK':
            o.kepler = self.kep([st['kind']] * N)
        elif op == 'setC':
            o.cartesian = self.cart([st['kind']] * N, self.mu())
        elif op == 'a':
            o.a = o.a * [None, 1.5, 0.25][n]
        elif op == 'rotate':
            o.Omega = np.full(N, [None, 1.0, 4.0][n] * self.A)
        elif op == 'mass':
            self.m = [self.M0 * x for x in ([None, [0.02, 0.0, 0.1, 0.3], [1.0, 0.5, 0.0, 0.0]][n])[:N]]
            o.kepler       # nothing pending when masses change
            o.m[:] = [self.put(x, 'm') for x in self.m]
            o.calculate_cartesian()
        elif op == 'prop':
            o.propagate(self.put([None, 3000.0, -1.0e4, 12345.6, 0.0][n] * (1 if self.earth else 3000), 'dt'))
        elif op == 'type':
            o.type = self.types[n - 1]
        elif op == 'period':
            o.period = np.full(N, self.put(1e4 * n * (1 if self.earth else 5000), 'period'))
        elif op == 'motion':
            o.mean_motion = np.full(N, self.put(self.A * 1e-4 * n / (1 if self.earth else 5000), 'motion'))
        elif op == 'velocity':
            v = o.v
            o.velocity = o.velocity * [None, 0.98, 1.02][n]
        elif op == 'add':
            j = len(self.m)
            self.m.append(self.M0 * 0.05)
            if self.salt % 2:
                o.add(1, kepler=self.kep([st['kind']], N), m=self.put(self.m[-1], 'm'))
            else:
                mu = [self.GSI * (self.M0 + self.m[-1])]
                o.add(1, cartesian=self.cart([st['kind']], mu, N), m=self.put(self.m[-1], 'm'))
        elif op == 'delete':
            self.m = self.m[1:]
            o.delete(0)

    def read(self):
        o = self.o
        A = self.A
        K, C = o.kepler, o.cartesian
        d = dict(a=self.get(K[0], 'a'), e=K[1], i=K[2] / A, omega=K[3] / A, Omega=K[4] / A, r=self.get(C[:3], 'r'), v=self.get(C[3:], 'v'),
                 m=self.get(o.m, 'm'), speed=self.get(o.speed, 'v'), velocity=self.get(o.velocity, 'v'), periapsis=self.get(o.periapsis, 'a'),
                 true=o.true_anomaly / A, ecc=o.eccentric_anomaly / A, mean=o.mean_anomaly / A, motion=self.get(o.mean_motion, 'motion') / A)
        cl = K[1] < 1
        d['period'] = np.where(cl, self.get(o.period, 'period'), 0)
        d['apoapsis'] = np.where(cl, self.get(o.apoapsis, 'a'), 0)
        # the functions with the same parameters
        k = self.k
        mu = self.G * (o.M0 + o.m)
        nu = o.true_anomaly
        X = k.kep_to_cart(np.vstack([K[:5], nu]), mu=mu, degrees=self.deg)
        d['f-r'], d['f-v'] = self.get(X[:3], 'r'), self.get(X[3:], 'v')
        Y = k.cart_to_kep(C, mu=mu, degrees=self.deg)
        d['f-a'], d['f-e'] = self.get(Y[0], 'a'), Y[1]
        if np.all(cl):
            P = k.orbital_period(K[0], mu)
            d['f-period'] = self.get(P, 'period')
            d['f-a-of-period'] = self.get(k.semi_major_axis(P, mu), 'a')
            d['f-h'] = self.get(k.orbit_total_angular_momentum(K[0], K[1], mu), 'h')
            E = k.cart_to_equi(C, mu=mu, degrees=self.deg)
            d['f-equi-a'], d['f-equi'] = self.get(E[0], 'a'), E[1:5]
        return d


ANGLES = {'i', 'omega', 'Omega', 'true', 'ecc', 'mean'}


def compare(d, g):
    """Same readings; angles of closed orbits modulo a turn, sums where the single angles are undefined."""
    e = d['e']
    if d['a'].shape != g['a'].shape:
        return f"{d['a'].shape} members against {g['a'].shape}"
    scale = {}
    for q in d:
        x, y = np.asarray(d[q]), np.asarray(g[q])
        if x.shape != y.shape:
            return f'{q} has the shapes {x.shape} and {y.shape}'
        if q in ANGLES:
            for j in range(x.shape[0]):
                if e[j] < 1e-6 and q != 'i':
                    continue
                # angles from their cosines, less certain for nearly circular orbits
                t = 1e-6 + 5 * (4e-16 / e[j]) ** 0.5 + 1e-11 / e[j] if e[j] > 0 else 1e-6
                if e[j] < 1:
                    bad = O.angdiff(float(x[j]), float(y[j])) > t
                elif q in ('omega', 'Omega', 'i'):
                    bad = O.angdiff(float(x[j]), float(y[j])) > t
                elif q == 'true':
                    bad = O.angdiff(float(x[j]), float(y[j])) > t
                else:
                    bad = not abs(x[j] - y[j]) <= t * (1 + abs(x[j]))
                if bad:
                    return f'{q} of member {j} is {x[j]!r} in one system, {y[j]!r} in the other (e = {e[j]!r})'
            continue
        if q in ('r', 'v', 'f-r', 'f-v'):
            n = np.linalg.norm(x, axis=0)
            bad = ~(np.linalg.norm(x - y, axis=0) <= 1e-7 * n)
        elif q == 'f-equi':
            bad = ~np.all(np.abs(x - y) <= 1e-7, axis=0)
        elif q in ('e', 'f-e'):
            bad = ~(np.abs(x - y) <= 1e-8 * (1 + x))
        else:
            bad = ~(np.abs(x - y) <= 1e-7 * np.abs(x))
        if np.any(bad):
            j = int(np.argmax(bad))
            return f'{q} of member {j} is {x[..., j].tolist()!r} in one system, {y[..., j].tolist()!r} in the other (in SI)'
    lam = (d['omega'] + d['Omega'] + d['true']) - (g['omega'] + g['Omega'] + g['true'])
    for j in range(len(lam)):
        if e[j] < 1e-6 and abs(math.remainder(float(lam[j]), 2 * pi)) > 1e-6:
            return f'the longitude of member {j} differs by {lam[j]!r}'
    return None


def play_session(pyorb, rec, salt):
    rec = dict(rec)
    h = rec['hist']
    A, B = Play(pyorb, rec, salt, rec['cfg']['from']), Play(pyorb, rec, salt, rec['cfg']['to'])
    for n in range(len(h) + 1):
        if n:
            A.step(h[n - 1])
            B.step(h[n - 1])
        # reading after each step, or only at the end
        if n == len(h) or salt % 4 < 2:
            try:
                a = A.read()
            except O.Invalid:
                return None
            b = B.read()
            r = compare(a, b)
            if r:
                return f'{SYS[rec["cfg"]["from"]]} against {SYS[rec["cfg"]["to"]]}, after step {n}: {r}'
            if not np.allclose(a['m'], A.m, rtol=1e-12):
                return f'after step {n}: masses {a["m"].tolist()}'
    return None


def play(pyorb, rec, salt):
    return play_name(pyorb, rec, salt) if not rec['kinds'] else play_session(pyorb, rec, salt)


def describe(rec):
    if not rec['kinds']:
        return ''
    return f'{rec["cfg"]["start"]} ' + '; '.join(f'{x["op"]} {x["kind"]}{x["n"] or ""}' for x in rec['hist'])


def suite(prop, rep, T):
    if prop != 'C24':
        return
    q = lambda a, b: b if T else a
    L, M, Ti = {'m', 'cm', 'km', 'au', 'pc'}, {'kg', 'g', 'msun', 'msol'}, {'s', 'h', 'd', 'y'}
    N = {f'#{i}' for i in range(1, 6)}
    X = {f'!{i}' for i in range(1, 6)}
    none = dict(Systems=set(), Kinds=set(), Ops=set(), Members=0, Depth=0)
    names = dict(none, Mode='names', Lengths=L, Masses=M, Times=Ti, Cases={'lower'}, Seps={''}, Calls={'pos'})
    s = [dict(name='names', c=dict(names, Cases={'lower', 'upper', 'title', 'swap'}, Calls={'pos', 'kw', 'mixed'})),
         dict(name='numbers', c=dict(names, Lengths=L | N, Masses=M | N, Times=Ti | N, Calls={'pos', 'kw'})),
         dict(name='separators', c=dict(names, Seps={'', 'under', 'blank', 'dash', 'many'}, Times={'d', 's'}, Cases={'lower', 'title'})),
         dict(name='unknown', c=dict(names, Lengths={'m', 'au', 'mm', 'kg', 'ly', '', '#2'} | X, Masses={'kg', 'msun', 'lb', 'm', 'mearth', '', '#1'} | X,
                                     Times={'s', 'y', 'min', 'm', 'yr', '', '#3'} | X, Cases={'lower', 'upper'}))]
    none = dict(Mode='sessions', Lengths=set(), Masses=set(), Times=set(), Cases=set(), Seps=set(), Calls=set())
    OPS = {'setK', 'setC', 'a', 'mass', 'rotate', 'prop', 'type', 'period', 'motion', 'velocity', 'add', 'delete'}
    KD = {'ell', 'circ', 'par', 'hyp'}
    s += [dict(name='systems', c=dict(none, Systems=set(SYS), Kinds=KD, Ops=OPS - {'add', 'delete'}, Members=1, Depth=1), salts=q(1, 6)),
          dict(name='mixed-members', c=dict(none, Systems=set(q(['si', 'astro', 'num'], SYS)), Kinds=KD, Ops={'prop', 'type', 'mass', 'add', 'delete', 'a'}, Members=q(2, 3),
                                            Depth=1)),
          dict(name='sessions', c=dict(none, Systems={'si', 'astro'}, Kinds=q({'ell', 'hyp'}, KD), Ops=OPS, Members=1, Depth=q(2, 3)))]
    for k in range(q(2, 6)):
        s.append(dict(name='histories', sim=q(150, 3000), k=k, c=dict(none, Systems=set(SYS), Kinds=KD, Ops=OPS, Members=2, Depth=7)))
    explore(rep, 'Units', s, play, ['Homogeneous', 'Valid'], kind='units', describe=describe)
