"""Replays behaviours of OrbitObject.tla on the real pyorb.Orbit class.

A behaviour is a list of operations (field h of a record printed by TLC) together with what must be
seen at the end (obs) and on a second object (sh).  Values are terms of the specification; they are
evaluated here with the independent reference (oracle.py).
"""
import copy as copymod
import math
import pickle
import re
from math import sin
import random
import zlib

import numpy as np

from . import oracle as O
from .core import Timeout, time_limit

NAN = float('nan')
KNAMES = ['a', 'e', 'i', 'omega', 'Omega', 'anom']
CNAMES = ['x', 'y', 'z', 'vx', 'vy', 'vz']
pi = math.pi

# ---------------------------------------------------------------- value tables
# odd identifiers: one value for all members; even: one value per position
KLIT = {
    1: (1.4, 0.35, 0.6, 1.1, 2.2, 0.9),
    2: [(1.2, 0.30, 0.9, 0.8, 4.0, 1.3),       # ellipse
        (1.7, 1.60, 1.9, 2.6, 0.7, -1.1),      # hyperbola, inbound, retrograde
        (0.9, 0.00, 0.5, 1.4, 5.2, 0.6),       # circular inclined, omega not canonical
        (0.8, 1.00, 2.4, 5.6, 3.3, 0.9)],      # parabola
    3: (1.1, 1.45, 1.2, 3.9, 5.5, 1.2),        # hyperbola outbound
    4: [(1.5, 0.55, 0.0, 1.9, 0.6, -1.2),      # planar, Omega not canonical
        (1.3, 0.20, pi, 0.7, 1.5, 1.1),        # planar retrograde
        (1.0, 0.00, 0.0, 0.9, 0.4, 1.0),       # circular planar
        (1.25, 0.75, pi / 2, 4.4, pi, -0.8)],  # polar
    5: (1.2, 0.62, 0.9, -0.7, 9.0, 19.5),        # angles beyond one turn and negative
    6: [(2.0, 0.10, 2.7, 6.1, 0.1, 0.3),
        (0.6, 2.20, 0.2, 0.2, 6.2, 0.7),
        (1.6, 0.65, 1.0, 3.0, 2.0, -1.4),
        (1.1, 0.42, 0.4, 2.0, 1.0, 1.5)],
}
S2 = math.sqrt(0.5)
CLIT = {
    1: (0.9, -0.5, 0.3, 0.35, 0.8, -0.2),
    2: [(-0.7, 0.8, 0.25, -0.6, -0.45, 0.5),
        (1.1, 0.6, -0.4, -1.3, -0.9, 0.7),       # hyperbola inbound
        (0.8, 0.3, 0.5, 0.3, -0.9, -0.35),
        (1.5, 0.0, 0.7, 0.1, 0.6, 0.3)],
    3: (1.2, 0.4, -0.3, 1.5, -0.7, 0.6),         # hyperbola outbound
    4: [(S2, S2, 0.0, -S2, S2, 0.0),             # circular planar (mass 0)
        (0.0, 0.6, 0.8, -1.0, 0.0, 0.0),         # circular inclined (mass 0)
        (0.8, -0.9, 0.0, -0.7, -0.5, 0.0),       # planar
        (0.9, 0.2, 0.0, 0.3, -0.8, 0.0)],
    5: (-0.6, -1.4, 0.2, 1.1, -1.3, -0.4),       # fast hyperbola
    6: [(0.5, 0.9, -0.6, -0.7, 0.4, 0.3),
        (-1.0, -0.4, 0.9, 0.5, -0.6, 0.4),
        (0.3, -1.2, 0.4, 0.8, 0.3, 0.2),
        (-0.6, 0.2, -1.1, -0.2, 0.9, 0.1)],
}
KVAL = {
    1: {1: 1.35, 2: [1.15, 1.9, 0.85, 1.6], 3: 0.7, 4: [0.95, 1.05, 2.1, 1.4], 5: 2.6, 6: [1.3, 0.8, 1.1, 1.9]},
    2: {1: 0.45, 2: [0.15, 1.35, 0.6, 0.25], 3: 1.8, 4: [1.0, 0.0, 1.25, 0.5], 5: 0.02, 6: [0.7, 0.05, 0.33, 1.2]},
    3: {1: 1.05, 2: [0.35, 2.0, 1.5, 0.8], 3: 2.5, 4: [pi, 0.0, pi / 2, 2.2], 5: 0.03, 6: [1.9, 0.6, 2.8, 1.1]},
    4: {1: 2.3, 2: [0.5, 3.6, 5.0, 1.2], 3: 4.9, 4: [6.0, 0.0, 2.9, 1.0], 5: -8.5, 6: [1.0, 4.2, 0.3, 5.1]},
    5: {1: 0.95, 2: [4.6, 1.7, 2.8, 0.4], 3: 5.8, 4: [0.0, 3.3, 1.2, 2.0], 5: 27.0, 6: [2.7, 0.8, 5.5, 3.0]},
    6: {1: 0.75, 2: [1.45, -0.9, 0.55, 1.0], 3: -1.25, 4: [-0.3, 1.3, -1.0, 0.2], 5: -6.6, 6: [0.4, 1.2, -0.7, 0.9]},
}
CVAL = {
    1: {1: 0.85, 2: [1.05, -0.8, 0.6, 1.3], 3: -0.95, 4: [0.7, 1.2, -1.1, 0.5], 5: 2.4, 6: [-0.5, 0.9, 1.4, -1.0]},
    2: {1: -0.65, 2: [0.7, 0.9, -1.0, 0.4], 3: 0.8, 4: [-0.9, 0.5, 0.6, 1.1], 5: -0.02, 6: [0.6, -0.7, 0.8, 0.3]},
    3: {1: 0.4, 2: [-0.3, 0.5, 0.7, -0.6], 3: -0.5, 4: [0.0, 0.35, -0.45, 0.2], 5: 3.1, 6: [0.25, -0.55, 0.1, 0.6]},
    4: {1: 0.55, 2: [-0.4, 0.6, 0.3, -0.7], 3: -0.75, 4: [0.2, -0.6, 0.8, 0.5], 5: -1.6, 6: [0.9, 0.1, -0.5, 0.4]},
    5: {1: 0.7, 2: [0.85, -0.55, 0.65, 0.45], 3: -0.6, 4: [-0.8, 0.4, 0.5, -0.9], 5: 0.015, 6: [0.3, 0.95, -0.4, 0.7]},
    6: {1: -0.35, 2: [0.25, 0.45, -0.3, 0.5], 3: 0.5, 4: [0.15, -0.35, 0.4, 0.6], 5: 1.9, 6: [-0.2, 0.3, 0.55, -0.45]},
}
PERIOD = {1: 9.0, 2: [5.5, 14.0, 7.3, 20.0], 3: 3.1, 4: [11.0, 4.4, 6.6, 8.8], 5: 60.0, 6: [7.0, 8.0, 9.5, 5.0]}
MMOT = {1: 0.8, 2: [1.1, 0.45, 0.9, 0.3], 3: 1.9, 4: [0.6, 1.3, 0.7, 1.0], 5: 3.5, 6: [0.5, 0.75, 1.2, 0.95]}
VEL = {1: 0.9, 2: [0.75, 1.6, 1.0, 0.6], 3: 1.9, 4: [0.5, 1.1, 0.8, 1.7], 5: 3.0, 6: [1.2, 0.7, 0.95, 0.85]}
DT = {1: 0.7, 2: [2.3, -1.1, 9.0, 0.0], 3: -1.9, 4: [-13.0, 0.6, 0.3, 4.0], 5: 5000.0, 6: [1e-4, 777.0, -3.0, 1500.0]}
EQUI = {
    1: (1.3, 0.2, -0.35, 0.15, 0.4, 2.0),
    2: [(1.1, -0.3, 0.25, -0.5, 0.2, 4.4), (1.6, 0.0, 0.0, 0.3, -0.6, 1.0),
        (0.9, 0.1, 0.5, 0.0, 0.0, 5.9), (1.2, 0.0, 0.0, 0.0, 0.0, 3.0)],
    3: (0.8, 0.0, 0.6, 0.0, 0.3, 5.2),
    4: [(1.4, 0.5, 0.0, 1.2, 0.0, 0.5), (1.0, -0.2, -0.2, 0.0, 0.0, 2.5),
        (1.7, 0.05, -0.6, -0.9, -0.9, 3.9), (0.7, 0.3, 0.3, 0.1, -0.1, 6.0)],
    5: (1.2, -0.3, 0.1, 0.2, -0.4, -15.0),
    6: [(1.5, 0.3, 0.4, 0.2, 0.2, 1.0), (1.1, -0.1, 0.2, 0.6, -0.3, 2.0),
        (0.8, 0.4, -0.2, -0.1, 0.5, 3.0), (1.9, 0.15, 0.1, 0.3, 0.7, 4.0)],
}
MASS = {0: 0.0, 1: 0.7, 2: 2.3}
GRAV = {0: 1.0, 1: 1.25}
CENTRAL = {0: 1.0, 1: 1.6, 2: 0.75}


def gm(m):
    """Gravitational parameter of a mass identifier (100 * constant + 10 * central mass + own mass), in canonical units."""
    return GRAV[m // 100] * (CENTRAL[m // 10 % 10] + MASS[m % 10])


def table(t, v, p):
    x = t[v]
    if v % 2 == 1:
        return x
    return later(t, x[(p - 1) % len(x)], (p - 1) // len(x))


def later(t, x, k):
    """The value lists repeat from the fifth member on, with other sizes."""
    if k == 0:
        return x
    f = 1 - 0.03 * (k % 21)
    if t is KLIT or t is EQUI:
        return (x[0] * f,) + tuple(x[1:])
    if t is CLIT:       # the same shape of orbit
        return tuple(y * f for y in x[:3]) + tuple(y / math.sqrt(f) for y in x[3:])
    return x * f


class Ctx:
    """How a behaviour is played: units, angle unit, numeric type."""

    def __init__(self, name, degrees=False, dtype='f8', G=1.0, M0=1.0, L=1.0, solver=None):
        self.name, self.degrees, self.G, self.M0, self.L = name, degrees, G, M0, L
        self.dtype = np.float64 if dtype == 'f8' else np.float32
        self.f32 = dtype != 'f8'
        self.mu0 = G * M0
        self.V = math.sqrt(self.mu0 / L)
        self.T = L / self.V
        self.ang = 180.0 / pi if degrees else 1.0
        self.solver = solver
        self.base = 1e-7 if not self.f32 else 4e-3
        self.pert = 1e-11 if not self.f32 else 1e-6
        self.fac = 1e4 if not self.f32 else 1500.0
        self.exact = 1e-12 if not self.f32 else 1e-6
        self.kunit = np.array([L, 1, self.ang, self.ang, self.ang, self.ang])
        self.cunit = np.array([L, L, L, self.V, self.V, self.V])


def contexts():
    return {
        'rad': Ctx('rad'),
        'deg': Ctx('deg', degrees=True, G=39.47812018693255, M0=1.0, L=1.0),
        'si': Ctx('si', G=None or 6.6743e-11, M0=1.98847e30, L=1.495978707e11),
        'mini': Ctx('mini', G=1e-12, M0=1e-6, L=1e-7),
        'maxi': Ctx('maxi', degrees=True, G=1e8, M0=1e22, L=1e9),
        'f32': Ctx('f32', dtype='f4', solver=dict(tol=1e-5, max_iter=100)),
    }


# ------------------------------------------------------------------ evaluation
class Eval:
    """Evaluates terms in canonical units (mu0 = 1, L = 1, radians), optionally slightly perturbed."""

    def __init__(self, pert=0.0, f32=False, alt=0):
        self.pert, self.alt = pert, alt
        self.f32 = f32        # single precision: singular orbits are not recovered from a state
        self.memo = {}

    def px(self, x, *key):
        if not self.pert or x == 0 or isinstance(x, float) and x == 1.0 and key[0] in ('klit2', 'kval2'):
            return x
        r = zlib.crc32(repr((key, self.alt) if self.alt else key).encode()) / 2 ** 31 - 1.0
        r = math.copysign(0.5 + 0.5 * abs(r), r)
        return x * (1 + self.pert * r)

    def vec(self, tab, name, v, p):
        x = table(tab, v, p)
        return tuple(self.px(y, f'{name}{j + 1}', v, p) for j, y in enumerate(x))

    def val(self, tab, name, v, p):
        return self.px(table(tab, v, p), name, v, p)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self.ev(t)
            except (O.Invalid, OverflowError, ZeroDivisionError, ValueError) as ex:
                r = ('invalid', str(ex))
            self.memo[t] = r
        if r[0] == 'invalid':
            raise O.Invalid(r[1])
        return r

    def generic(self, x):
        if self.f32 and (x[1] < 2e-2 or abs(x[1] - 1) < 2e-2 or x[1] > 100 or x[2] < 1e-2 or x[2] > pi - 1e-2):
            raise O.Invalid('singular in single precision')
        return x

    def arccos_noise(self, x, typ):
        """Angles obtained from their cosine are uncertain next to 0 and pi; elements with the true anomaly come in."""
        a, e, i, om, Om, nu = x
        if self.pert:
            eps = 1e-6 if self.f32 else 2e-15
            fac = 1500.0 if self.f32 else 1e4
            ie = 1 / e if e > O.E_LIM else 0.0
            ii = 1 / sin(i) if O.I_LIM < i < pi - O.I_LIM else 0.0

            def noisy(z, q):
                return z + min(math.sqrt(2 * q), q / max(abs(sin(z)), 1e-30)) / fac
            om, Om, nu = noisy(om, eps * (1 + ie + ii)), noisy(Om, eps * (1 + ii)), noisy(nu, eps * (1 + ie))
        return (a, e, i, om, Om, O.anom_from_true(nu, e, typ))

    def ev(self, t):
        k = t[0]
        if k == 'nan':
            return (NAN,) * 6
        if k == 'klit':
            return self.vec(KLIT, 'klit', t[1], t[2])
        if k == 'clit':
            return self.vec(CLIT, 'clit', t[1], t[2])
        if k == 'setk' or k == 'setc':
            x = list(self(t[1]))
            tab = KVAL if k == 'setk' else CVAL
            x[t[2] - 1] = self.val(tab[t[2]], f'{k[3:] == "k" and "kval" or "cval"}{t[2]}', t[3], t[4])
            if k == 'setk' and t[2] == 2 and x[1] >= 1 and self(t[1])[1] < 1 \
                    and 6 not in exact_elements(t[1]) and type_of(t[1]) != 'true':
                # an angle modulo a full turn is read as anomaly of an open orbit
                raise O.Invalid('ambiguous anomaly')
            return tuple(x)
        if k == 'k2c':
            return O.kep_to_cart(self(t[1]), gm(t[2]), t[3])
        if k == 'c2k':
            if self.f32 and any(abs(y) > 100 for y in self(t[1])):
                raise O.Invalid('far away in single precision')
            return self.arccos_noise(self.generic(O.cart_to_kep(self(t[1]), gm(t[2]), 'true')), t[3])
        if k == 'anom':
            x = self(t[1])
            return x[:5] + (O.anom_convert(x[5], x[1], t[2], t[3]),)
        if k == 'can':
            return self.generic(O.canonical(self(t[1]), t[2]))
        if k == 'seta':
            x = self(t[1])
            v = self.val(KVAL[6], 'kval6', t[4], t[5])
            return x[:5] + (O.anom_convert(v, x[1], t[3], t[2]),)
        if k == 'prop':
            x = self(t[1])
            return O.propagate(x, t[2], self.val(DT, 'dt', t[3], t[4]), gm(t[5]))
        if k == 'per' or k == 'mm':
            x = self(t[1])
            P = self.val(PERIOD, 'per', t[2], t[3]) if k == 'per' else 2 * pi / self.val(MMOT, 'mm', t[2], t[3])
            if k == 'mm' and x[1] == 1:
                P /= math.sqrt(2)  # the rate of the mean anomaly of a parabola is sqrt(mu/(2 q^3))
            mu = gm(t[4])
            return ((mu * (P / (2 * pi)) ** 2) ** (1 / 3),) + x[1:]
        if k == 'vel':
            x = self(t[1])
            n = math.sqrt(sum(y * y for y in x[3:]))
            s = self.val(VEL, 'vel', t[2], t[3]) / n
            return x[:3] + tuple(y * s for y in x[3:])
        if k == 'equi':
            return O.anom_equi(self.vec(EQUI, 'equi', t[1], t[2]), t[3]) if hasattr(O, 'anom_equi') else \
                O.equi_to_kep(self.vec(EQUI, 'equi', t[1], t[2]), t[3])
        raise KeyError(k)


def totuple(x, side):
    """JSON term -> hashable term; "set" is resolved to the side it belongs to."""
    k = x[0]
    if k == 'nan':
        return ('nan',)
    if k in ('klit', 'clit', 'equi'):
        return tuple(x)
    if k == 'set':
        return ('set' + side, totuple(x[1], side), x[2], x[3], x[4])
    if k == 'k2c':
        return ('k2c', totuple(x[1], 'k')) + tuple(x[2:])
    if k == 'c2k':
        return ('c2k', totuple(x[1], 'c')) + tuple(x[2:])
    return (k, totuple(x[1], side)) + tuple(x[2:])


def exact_elements(t):
    """Elements (1..6) whose value was written as such: they must come back unchanged."""
    k = t[0]
    if k == 'nan' or k in ('klit', 'clit'):
        return set(range(1, 7))
    if k in ('setk', 'setc'):
        return exact_elements(t[1]) | {t[2]}
    if k in ('anom', 'seta', 'prop'):
        return exact_elements(t[1]) - {6}
    if k in ('per', 'mm'):
        return exact_elements(t[1]) - {1}
    if k == 'vel':
        return exact_elements(t[1]) - {4, 5, 6}
    return set()


def type_of(t):
    """Anomaly type of a Keplerian term whose anomaly is not a written value."""
    k = t[0]
    if k == 'c2k' or k == 'anom' or k == 'equi':
        return t[3]
    if k in ('can', 'seta', 'prop'):
        return t[2]
    if k in ('setk', 'per', 'mm'):
        return type_of(t[1])
    return None


class Expected:
    __slots__ = ('val', 'tol', 'ok', 'exact')


class Judge:
    """Expected values with tolerances that follow the conditioning of the term."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.e0 = Eval(0.0, ctx.f32)
        self.es = [Eval(ctx.pert, ctx.f32, k) for k in range(3)]
        self.memo = {}
        self.mild = {}
        self.skipped = 0

    def moderate(self, t, typ):
        """Single precision: nothing singular or far away on the way to this value."""
        r = self.mild.get((t, typ))
        if r is None:
            r = True
            x = self.e0(t)
            if not any(O.isnan(y) for y in x):
                if is_cart(t):
                    r = max(abs(y) for y in x) < 50
                else:
                    self.e0.generic(x)
                    r = x[1] < 50 and max(abs(y) for y in O.kep_to_cart(x, 1.0, type_of(t) or typ)) < 50
            if r and t[0] != 'nan' and isinstance(t[1], tuple):
                r = self.moderate(t[1], typ)
            self.mild[t, typ] = r
        return r

    def vec(self, term, side, typ):
        key = (term, side, typ)
        r = self.memo.get(key)
        if r is not None:
            return r
        r = Expected()
        r.exact = exact_elements(term)
        try:
            x, ys = self.e0(term), [e(term) for e in self.es]
            r.val = x
            tol = []
            for j in range(6):
                if O.isnan(x[j]):
                    tol.append(0.0)
                    continue
                if side == 'k' and j >= 2 and not (j == 5 and typ != 'true' and not x[1] < 1):
                    d = max(O.angdiff(x[j], y[j]) for y in ys)
                else:
                    d = max(abs(x[j] - y[j]) for y in ys)
                tol.append(self.ctx.base * (1 + abs(x[j])) + self.ctx.fac * d)
            r.tol = tol
            r.ok = all(t < 0.02 * (1 + abs(v)) or O.isnan(v) for t, v in zip(tol, x)) \
                and all(O.isnan(v) or abs(v) < (300 if self.ctx.f32 else 1e6) for v in x)
            if self.ctx.f32 and r.ok and not self.moderate(term, typ):
                r.ok = False
            # representable orbit?
            if r.ok and side == 'k' and not any(O.isnan(v) for v in x):
                O.kep_to_cart(x, 1.0, typ)
        except (O.Invalid, OverflowError, ZeroDivisionError, ValueError):
            r.ok = False
            r.val = None
            r.tol = None
        self.memo[key] = r
        return r


def is_cart(t):
    return t[0] in ('clit', 'k2c', 'setc', 'vel')


class Mismatch(Exception):
    pass


def cmp_vec(got, exp, side, typ, what):
    """got: 6 values in canonical units"""
    for j in range(6):
        g, x = float(got[j]), exp.val[j]
        if O.isnan(x):
            if not O.isnan(g):
                raise Mismatch(f'{what}: element {j + 1} is {g!r}, must be NaN (never specified)')
            continue
        if O.isnan(g):
            raise Mismatch(f'{what}: element {j + 1} is NaN, expected {x!r}')
        if (j + 1) in exp.exact:
            if abs(g - x) > exp.x * (abs(x) if x else 1):
                raise Mismatch(f'{what}: element {j + 1} reads {g!r}, was written as {x!r}')
            continue
        if side == 'k' and j >= 2 and not (j == 5 and typ != 'true' and not exp.val[1] < 1):
            d = O.angdiff(g, x)
        else:
            d = abs(g - x)
        if not d <= exp.tol[j]:
            raise Mismatch(f'{what}: element {j + 1} is {g!r}, expected {x!r} (tolerance {exp.tol[j]:.1e})')


def close(g, x, tol, what, angle=False):
    d = O.angdiff(g, x) if angle else abs(g - x)
    if not d <= tol:
        raise Mismatch(f'{what} is {g!r}, expected {x!r} (tolerance {tol:.1e})')


def same(a, b, what, rtol=1e-11):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Mismatch(f'{what}: shape {a.shape} != {b.shape}')
    bad = ~((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * (1 + np.abs(b))) | (a == b))
    if np.any(bad):
        raise Mismatch(f'{what}: {a[bad][:3]} != {b[bad][:3]}')


class Player:
    def __init__(self, pyorb, ctx):
        self.pyorb, self.ctx = pyorb, ctx
        self.judge = Judge(ctx)
        for_exact = ctx.exact
        self.exact = for_exact
        self.inexact = set()      # sides that were recomputed explicitly: written values come back rounded

    # -- values in user units
    def kscale(self, el):
        return float(self.ctx.kunit[el - 1])

    def cscale(self, el):
        return float(self.ctx.cunit[el - 1])

    def vals(self, tab, v, n, scale=1.0, rng=None):
        """Value for n members: a scalar for odd identifiers, an array otherwise."""
        if v % 2 == 1:
            return tab[v] * scale
        return np.array([table(tab, v, i + 1) for i in range(n)], dtype=np.float64) * scale

    def state(self, tab, v, n, unit, matrix=False):
        if v % 2 == 1:
            x = np.array(tab[v]) * unit
            return np.repeat(x[:, None], n, axis=1) if matrix else x
        return np.array([table(tab, v, i + 1) for i in range(n)]).reshape(n, 6).T * unit[:, None]

    # -- selections
    def sel(self, sel, n, rng, perm_ok=True):
        """Index object for a selection, and the order of its members."""
        f, s = sel['f'], sorted(sel['s'])
        if f == 'all':
            if rng.random() < 0.3:
                return slice(None, None, None), s
            return rng.choice([slice(0, n), slice(None), np.arange(n), list(range(n))]), s
        if f.startswith('int'):
            return (s[0] - 1 if rng.random() < 0.6 else np.int64(s[0] - 1)), s
        if f.startswith('neg'):
            return s[0] - 1 - n, s
        if f.startswith('slice'):
            return slice(s[0] - 1, s[-1]), s
        if f.startswith('mask'):
            m = np.zeros(n, dtype=bool)
            m[[k - 1 for k in s]] = True
            return m, s
        if f == 'none':
            return rng.choice([slice(0, 0), slice(n, None), np.zeros(n, dtype=bool), np.zeros(0, dtype=int), []]), s
        if f.startswith('list'):
            o = list(s)
            steps = {b - a for a, b in zip(o, o[1:])}
            if len(steps) == 1 and rng.random() < 0.3:
                d = steps.pop()
                if perm_ok and rng.random() < 0.4:
                    o.reverse()
                    return slice(o[0] - 1, o[-1] - 2 if o[-1] > 1 else None, -d), o
                return slice(o[0] - 1, rng.choice([o[-1], min(o[-1] + d - 1, n)]), d), o
            if perm_ok and rng.random() < 0.4:
                o.reverse()
            x = [k - 1 for k in o]
            if rng.random() < 0.4:
                x = [k - n for k in x]
            return (x if rng.random() < 0.6 else np.array(x)), o
        raise KeyError(f)

    def per_order(self, vals, order):
        """Values are assigned by rank of the member; reorder them for a permuted list."""
        if np.ndim(vals) == 0:
            return vals
        ranks = {k: i for i, k in enumerate(sorted(order))}
        return np.asarray(vals)[..., [ranks[k] for k in order]]

    def scal(self, vals, idx):
        """Single-member integer selections take a scalar."""
        if np.ndim(idx) == 0 and not isinstance(idx, slice) and np.ndim(vals) >= 1:
            return vals[..., 0]
        return vals

    # -- what is handed to the object: arrays of any layout, which stay the caller's own
    def hand(self, x, rng):
        if np.ndim(x) == 0:
            return float(x) if rng.random() < 0.5 else np.float64(x)
        x = np.array(x, dtype=np.float64)
        f = rng.randrange(6)
        if f == 1:      # every other element of a larger array
            y = np.full(x.shape[:-1] + (2 * x.shape[-1],), -7.0)
            y[..., ::2] = x
            x = y[..., ::2]
        elif f == 2:
            x = np.array(x[..., ::-1])[..., ::-1]
        elif f == 3:
            x = np.asfortranarray(x)
        elif f == 4:
            x.flags.writeable = False
        self.handed.append((x, np.array(x)))
        return x

    def look_handed(self):
        for x, y in self.handed:
            if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=True):
                raise Mismatch('an array passed to the object was modified')
        for x, _ in self.handed:
            if x.flags.writeable:
                x[...] = 0.123
        self.handed = []

    # -- creation
    def create(self, op, rng, ro=None):
        ctx = self.ctx
        n = op['n']
        kw = dict(num=n, degrees=ctx.degrees, dtype=ctx.dtype, G=ctx.G, type=op['t'])
        if ctx.solver:
            kw['solver_options'] = dict(ctx.solver)
        if op['ms']:
            kw['m'] = np.array([MASS[1 + (i % 2)] * ctx.M0 for i in range(1, n + 1)])
        mode = op['mode']
        kw['direct_update'] = mode in ('direct', 'donly')
        kw['auto_update'] = mode in ('direct', 'lazy')
        kind = op['kind']
        single = rng.random() < 0.5
        if kind in ('pk', 'pc') and n > 0:
            for e in ((1, 2, 6) if kind == 'pk' else (2, 3, 4)):
                x = np.array(self.vals((KVAL if kind == 'pk' else CVAL)[e], 2, n,
                                       self.kscale(e) if kind == 'pk' else self.cscale(e)))
                kw[(KNAMES if kind == 'pk' else CNAMES)[e - 1]] = x
        elif kind != 'nan' and n > 0:
            v = int(kind[1:])
            if kind[0] == 'k':
                M = self.state(KLIT, v, n, ctx.kunit, matrix=True)
                names = KNAMES
                whole = 'kepler'
            else:
                M = self.state(CLIT, v, n, ctx.cunit, matrix=True)
                names = CNAMES
                whole = 'cartesian'
            if single:
                for j, nm in enumerate(names):
                    kw[nm] = M[j] if n > 1 or rng.random() < 0.5 else float(M[j, 0])
            else:
                kw[whole] = M
        for k in kw:
            if k in KNAMES or k in CNAMES or k in ('kepler', 'cartesian', 'm'):
                kw[k] = self.hand(kw[k], rng)
        if ro:
            for k, f in (('kepler_read_only', ro['k']), ('cartesian_read_only', ro['c'])):
                if f or rng.random() < 0.5:
                    kw[k] = f
        M0 = ctx.M0
        if rng.random() < 0.3:      # the same settings as NumPy scalars
            kw = {k: np.bool_(x) if isinstance(x, bool) else x for k, x in kw.items()}
            kw.update(num=np.int64(n), G=np.float64(ctx.G), dtype=np.dtype(ctx.dtype))
            M0 = np.float64(M0)
        return self.pyorb.Orbit(M0=M0, **kw)

    # -- one operation; returns the object to continue with and the other one
    def do(self, orb, op, rng):
        ctx = self.ctx
        o = op['op']
        n = orb.num
        H = lambda x: self.hand(x, rng)
        if o in ('setK', 'setC'):
            el, v = op['el'], op['v']
            if o == 'setK':
                setattr(orb, KNAMES[el - 1], H(self.vals(KVAL[el], v, n, self.kscale(el))))
            else:
                setattr(orb, CNAMES[el - 1], H(self.vals(CVAL[el], v, n, self.cscale(el))))
        elif o == 'fullK':
            x = self.state(KLIT, op['v'], n, ctx.kunit, matrix=rng.random() < 0.3)
            orb.kepler = H(x)
        elif o == 'fullC':
            x = self.state(CLIT, op['v'], n, ctx.cunit, matrix=rng.random() < 0.3)
            orb.cartesian = H(x)
        elif o in ('setR', 'setV'):
            els = (1, 2, 3) if o == 'setR' else (4, 5, 6)
            x = np.array([np.full(n, self.vals(CVAL[e], op['v'], n, self.cscale(e))) for e in els])
            setattr(orb, 'r' if o == 'setR' else 'v', H(x))
        elif o == 'anom':
            x = self.vals(KVAL[6], op['v'], n, ctx.ang)
            name = {'true': 'true_anomaly', 'eccentric': 'eccentric_anomaly', 'mean': 'mean_anomaly'}[op['t']]
            setattr(orb, name, H(x))
        elif o == 'period':
            orb.period = H(self.vals(PERIOD, op['v'], n, ctx.T))
        elif o == 'mm':
            orb.mean_motion = H(self.vals(MMOT, op['v'], n, ctx.ang / ctx.T))
        elif o == 'vel':
            orb.velocity = H(self.vals(VEL, op['v'], n, ctx.V))
        elif o == 'equi':
            u = np.array([ctx.L, 1, 1, 1, 1, ctx.ang])
            x = self.state(EQUI, op['v'], n, u, matrix=rng.random() < 0.3)
            orb.equinoctial = H(x)
        elif o == 'prop':
            orb.propagate(H(self.vals(DT, op['v'], n, ctx.T)))
        elif o == 'type':
            t = op['t']
            orb.type = rng.choice([t, t, t.upper(), t.capitalize(), f' {t} ', f'{t.upper()}\t'])
        elif o in ('updK', 'updC', 'updMK', 'updMC'):
            idx, order = self.sel(op['sel'], n, rng)
            el = op['el']
            K = o in ('updK', 'updMK')
            x = self.vals((KVAL if K else CVAL)[el], op['v'], len(order),
                          self.kscale(el) if K else self.cscale(el))
            x = self.scal(self.per_order(x, order), idx)
            kw = {(KNAMES if K else CNAMES)[el - 1]: H(x)}
            if o in ('updMK', 'updMC'):
                kw['m'] = H(self.masses(op['m'], order, idx, rng))
            if op['sel']['f'] == 'all' and rng.random() < 0.5:
                orb.update(**kw)
            else:
                orb.update(inds=idx, **kw)
        elif o in ('updKs', 'updCs', 'updMKs', 'updMCs'):
            idx, order = self.sel(op['sel'], n, rng)
            K = o in ('updKs', 'updMKs')
            kw = {}
            for el in rng.sample(list(op['els']), len(op['els'])):
                x = self.vals((KVAL if K else CVAL)[el], op['v'], len(order),
                              self.kscale(el) if K else self.cscale(el))
                kw[(KNAMES if K else CNAMES)[el - 1]] = H(self.scal(self.per_order(x, order), idx))
            if 'm' in op:
                kw['m'] = H(self.masses(op['m'], order, idx, rng))
            if op['sel']['f'] == 'all' and rng.random() < 0.5:
                orb.update(**kw)
            else:
                orb.update(inds=idx, **kw)
        elif o in ('updKfull', 'updCfull'):
            idx, order = self.sel(op['sel'], n, rng)
            K = o == 'updKfull'
            x = self.state(KLIT if K else CLIT, op['v'], len(order), ctx.kunit if K else ctx.cunit)
            if op['v'] % 2 == 0:
                x = self.scal(self.per_order(x, order), idx)
            orb.update(inds=idx, **{'kepler' if K else 'cartesian': H(x)})
        elif o == 'updM':
            idx, order = self.sel(op['sel'], n, rng)
            orb.update(inds=idx, m=H(self.masses(op['m'], order, idx, rng)))
        elif o == 'mass':
            idx, order = self.sel(op['sel'], n, rng)
            if op['sel']['f'] == 'all' and rng.random() < 0.5:
                orb.m = np.full(n, self.masses(op['m'], order, idx, rng), dtype=ctx.dtype)
            else:
                orb.m[idx] = self.masses(op['m'], order, idx, rng)
        elif o in ('calcC', 'calcK'):
            idx, order = self.sel(op['sel'], n, rng)
            f = orb.calculate_cartesian if o == 'calcC' else orb.calculate_kepler
            if op['sel']['f'] == 'all' and rng.random() < 0.5:
                f()
            else:
                f(idx)
        elif o == 'calcA':
            idx, order = self.sel(op['sel'], n, rng)
            {'true': orb.calc_true_anomaly, 'eccentric': orb.calc_eccentric_anomaly,
             'mean': orb.calc_mean_anomaly}[op['t']](idx)
        elif o == 'add':
            num, v = op['num'], op['v']
            kw = {}
            if op['w'] == 'K':
                M = self.state(KLIT, v, num, ctx.kunit, matrix=True)
                if rng.random() < 0.5:
                    kw['kepler'] = M if rng.random() < 0.7 or num > 1 and v % 2 == 0 else M[:, 0]
                else:
                    kw.update({k: M[j] for j, k in enumerate(KNAMES)})
            elif op['w'] == 'C':
                M = self.state(CLIT, v, num, ctx.cunit, matrix=True)
                if rng.random() < 0.5:
                    kw['cartesian'] = M if rng.random() < 0.7 or num > 1 and v % 2 == 0 else M[:, 0]
                else:
                    kw.update({k: M[j] for j, k in enumerate(CNAMES)})
            elif op['w'] == 'Kpart':
                kw = dict(a=self.vals(KVAL[1], v, num, ctx.L), e=self.vals(KVAL[2], v, num, 1.0))
            elif op['w'] in ('Kset', 'Cset'):
                K = op['w'] == 'Kset'
                for el in op['els']:
                    kw[(KNAMES if K else CNAMES)[el - 1]] = self.vals((KVAL if K else CVAL)[el], v, num,
                                                                      self.kscale(el) if K else self.cscale(el))
            elif op['w'] == 'Cpart':
                kw = dict(x=self.vals(CVAL[1], v, num, ctx.L), vy=self.vals(CVAL[5], v, num, ctx.V))
            if op['m']:
                kw['m'] = self.masses(op['m'], list(range(1, num + 1)), slice(None), rng)
            kw = {k: H(x) for k, x in kw.items()}
            if num == 1 and rng.random() < 0.5:
                orb.add(**kw)
            else:
                orb.add(num=num, **kw)
        elif o == 'delete':
            idx, order = self.sel(op['sel'], n, rng)
            orb.delete(idx)
        elif o == 'mode':
            d, a = op['t'] in ('direct', 'donly'), op['t'] in ('direct', 'lazy')
            # never pass through a mode with both off on the way
            if a:
                orb.auto_update = True
                orb.direct_update = d
            else:
                orb.direct_update = d
                orb.auto_update = False
        elif o == 'central':
            orb.M0 = CENTRAL[op['m']] * ctx.M0
        elif o == 'grav':
            orb.G = GRAV[op['m']] * ctx.G
        elif o == 'ro':
            orb.kepler_read_only = op['k']
            orb.cartesian_read_only = op['c']
        elif o == 'alloc':
            orb.allocate(op['num'])
        elif o == 'badtype':
            orb.type = rng.choice(['foo', 'tru', 'eccentric mean', ''])
        elif o == 'badmix':
            idx, order = self.sel(op['sel'], n, rng)
            orb.update(inds=idx, **{rng.choice(KNAMES): 1.1, rng.choice(CNAMES): 0.9})
        elif o == 'badaddmix':
            orb.add(num=op['num'], **{rng.choice(KNAMES): 1.1, rng.choice(CNAMES): 0.9})
        elif o == 'badval':
            self.bad_value(orb, op, rng)
        elif o in ('readK', 'readC', 'iter', 'copy'):
            pass
        else:
            raise KeyError(o)
        return orb

    def bad_value(self, orb, op, rng):
        """An operation with values of the wrong shape or no values at all, or on members that do not exist."""
        ctx, n, w = self.ctx, orb.num, op['w']
        L = lambda k: rng.choice([np.full(k + 2, 0.4), np.full((k + 2,), 0.4, dtype=np.float32), np.full((2, k + 2), 0.3), 'text'])
        S = lambda k: rng.choice([np.full((6, k + 2), 0.4), np.full((5, k), 0.4) if k != 1 else np.full((5, 1), 0.4), np.full(5, 0.4), 'text'])
        if w == 'K':
            setattr(orb, rng.choice(KNAMES), L(n))
        elif w == 'C':
            setattr(orb, rng.choice(CNAMES), L(n))
        elif w in ('Kfull', 'Cfull'):
            setattr(orb, 'kepler' if w == 'Kfull' else 'cartesian', S(n) if n else np.full((6, 2), 0.4))
        elif w in ('r', 'v'):
            setattr(orb, w, rng.choice([np.full((3, n + 2), 0.4), np.full((2, n + 2), 0.4), 'text']))
        elif w == 'anom':
            setattr(orb, rng.choice(['true_anomaly', 'eccentric_anomaly', 'mean_anomaly']), np.full(n + 2, 0.4))
        elif w == 'derived':
            setattr(orb, rng.choice(['period', 'mean_motion', 'velocity']), np.full(n + 2, 0.4))
        elif w == 'equi':
            orb.equinoctial = np.full((6, n + 2), 0.2)
        elif w == 'prop':
            orb.propagate(np.full(n + 2, 0.4))
        elif w in ('add', 'addfull', 'addmass'):
            k = rng.choice([1, 2])
            names = rng.choice([KNAMES, CNAMES])
            if w == 'add':
                good, bad = rng.sample(names, 2)
                kw = {good: 0.4, bad: L(k)}
            elif w == 'addfull':
                kw = {rng.choice(['kepler', 'cartesian']): S(k)}
            else:
                kw = {rng.choice(names): 0.4, 'm': L(k)}
            orb.add(num=k, **kw)
        elif w == 'noindex':
            i = rng.choice([n, -n - 1, n + 3, [n], np.array([True] * (n + 1)), [-n - 1]])
            f = rng.choice(['update', 'update2', 'full', 'mass', 'delete', 'calculate_cartesian', 'calculate_kepler', 'item'])
            if f == 'update':
                orb.update(inds=i, **{rng.choice(KNAMES + CNAMES): 0.4})
            elif f == 'update2':
                orb.update(inds=i, **{k: 0.4 for k in rng.sample(rng.choice([KNAMES, CNAMES]), 2)})
            elif f == 'full':
                orb.update(inds=i, **{rng.choice(['kepler', 'cartesian']): np.full((6, 1), 0.4)})
            elif f == 'mass':
                orb.update(inds=i, m=0.4, **rng.choice([{}, {'e': 0.3}, {'y': 0.3}]))
            elif f == 'delete':
                orb.delete(i)
            elif f == 'item':
                orb[i]
            else:
                getattr(orb, f)(i)
        else:
            idx, order = self.sel(op['sel'], n, rng)
            k = len(order)
            names = CNAMES if w in ('updC', 'updCs', 'updMC') else KNAMES
            if w in ('updK', 'updC'):
                kw = {rng.choice(names): L(k)}
            elif w in ('updKs', 'updCs'):
                order = rng.sample(names, rng.choice([2, 3]))
                kw = {x: 0.4 for x in order}
                kw[rng.choice(order)] = L(k)
            elif w == 'updfull':
                kw = {rng.choice(['kepler', 'cartesian']): np.full((6, k + 2), 0.4)}
            elif w == 'updM':
                kw = {'m': L(k)}
            else:
                kw = {rng.choice(names): L(k), 'm': 0.3 * ctx.M0}
            orb.update(inds=idx, **kw)

    def masses(self, m, order, idx, rng):
        """A mass for the selected members, one value or one per member."""
        M = self.ctx.M0
        if m == 9:
            x = np.array([MASS[1 + (r % 2)] for r in range(1, len(order) + 1)]) * M
            return self.scal(self.per_order(x, order), idx)
        if np.ndim(idx) == 0 and not isinstance(idx, slice) or rng.random() < 0.6:
            return MASS[m] * M
        return np.full(len(order), MASS[m] * M)

    # -- observations
    def check_object(self, orb, obs, rng, parts='kcad'):
        """Compare everything an object shows with the expected terms."""
        ctx = self.ctx
        n = len(obs['k'])
        if orb.num != n or len(orb) != n:
            raise Mismatch(f'number of orbits is {orb.num}/{len(orb)}, expected {n}')
        if orb.type != obs['type']:
            raise Mismatch(f'anomaly type is {orb.type!r}, expected {obs["type"]!r}')
        m = np.asarray(orb.m)
        want = np.array([MASS[x % 10] * ctx.M0 for x in obs['m']])
        if m.shape != (n,) or not np.allclose(m, want, rtol=1e-6, atol=0):
            raise Mismatch(f'masses are {m}, expected {want}')
        if m.dtype != ctx.dtype:
            raise Mismatch(f'dtype of the masses is {m.dtype}')
        typ = obs['type']
        ks = [self.expect(totuple(t, 'k'), 'k', typ) for t in obs['k']]
        cs = [self.expect(totuple(t, 'c'), 'c', typ) for t in obs['c']]
        steps = [self.see_k, self.see_c, self.see_anom, self.see_derived]
        sel = [s for s, p in zip(steps, 'kcad') if p in parts]
        rng.shuffle(sel)
        for s in sel:
            s(orb, obs, ks, cs, typ, rng)

    # -- arrays handed out earlier do not follow the object
    OUT = ['kepler', 'cartesian', 'r', 'v', 'true_anomaly', 'eccentric_anomaly', 'mean_anomaly', 'mean_longitude',
           'period', 'mean_motion', 'velocity', 'speed', 'periapsis', 'apoapsis', 'equinoctial'] + KNAMES + CNAMES

    def keep(self, orb, names):
        for nm in names:
            x = getattr(orb, nm)
            self.kept.append((nm, x, np.array(x)))

    def bookkeep(self, op):
        """Which side was computed from the other one and back."""
        o = op['op']
        if o in ('calcC', 'calcK'):
            self.inexact.add(o[-1].lower())
        elif o in ('fullC', 'fullK'):
            self.inexact.discard(o[-1].lower())
            if o == 'fullK':
                self.inexact.discard('k6')
        elif o == 'type':
            self.inexact.add('k6')
        elif o == 'setK' and op['el'] == 6:
            self.inexact.discard('k6')

    BROKEN = [('no_such_option', 1), ('tol', 'tight'), ('max_iter', 'many'), ('degree', 'five'), ('tol', None)]

    def failing(self, orb, op, rng):
        """An operation with the solver out of order; True if it has an effect nevertheless."""
        good = dict(orb.solver_options)
        key, value = rng.choice(self.BROKEN)
        orb.solver_options[key] = value
        failed = None
        inner = op['in']
        try:
            if inner['op'] in ('readK', 'readC', 'str'):
                self.touch(orb, rng, False)
                if rng.random() < 0.7:
                    {'readK': lambda: orb.kepler, 'readC': lambda: orb.cartesian, 'str': lambda: str(orb)}[inner['op']]()
            elif self.do(orb, inner, rng) is not orb:
                raise Mismatch('another object')
        except (Mismatch, Timeout):
            raise
        except Exception as ex:
            failed = type(ex).__name__
        finally:
            orb.solver_options.clear()
            orb.solver_options.update(good)
        self.look_handed()
        if failed is None:
            return True
        # looked at through a copy, so that what is pending stays pending
        inexact = set(self.inexact)
        self.bookkeep(inner)
        after = self.inexact
        first = None
        for obs, inx in ((op['obs'], after), (op['alt'], inexact)):
            self.inexact = set(inx)
            try:
                self.check_object(orb.copy(), obs, rng, parts='kca')
                break
            except Mismatch as ex:
                first = first or str(ex)
        else:
            raise Mismatch(f'{inner["op"]} failed with {failed} and left neither what it writes nor what was there: {first}')
        self.inexact = inexact
        return obs is op['obs']

    def touch(self, orb, rng, alive):
        """Look at some of what an object shows: nothing that is looked at may depend on what was looked at before."""
        for nm in rng.sample(self.OUT + ['elements', 'str', 'len', 'num', 'type', 'm'], rng.randint(1, 6)):
            try:
                if nm == 'str':
                    str(orb)
                elif nm == 'len':
                    len(orb)
                elif alive and nm in self.OUT:
                    self.keep(orb, [nm])
                else:
                    getattr(orb, nm)
            except (ValueError, AttributeError, TypeError, FloatingPointError, ZeroDivisionError):
                pass        # whether it can be read at all is judged where it is compared

    def glance(self, orb, names, rng):
        """One component read before the whole: each reading alone has to bring what it shows up to date."""
        return [(nm, np.array(getattr(orb, nm))) for nm in rng.sample(names, 1) if rng.random() < 0.8]

    def look_kept(self):
        for nm, x, y in self.kept:
            same(x, y, f'the array {nm} returned earlier, after the object was changed', 0)

    def afterlife(self, orb, rng):
        """Everything is read, the object is changed in every way, and what was read must have stayed as it was."""
        n = orb.num
        self.keep(orb, self.OUT)
        orb.kepler_read_only = orb.cartesian_read_only = False
        ctx = self.ctx
        for nm in rng.sample(['kepler', 'cartesian'], 2):
            if nm == 'kepler':
                orb.kepler = self.state(KLIT, 2 * rng.randint(1, 3), n, ctx.kunit)
            else:
                orb.cartesian = self.state(CLIT, 2 * rng.randint(1, 3), n, ctx.cunit)
            x = rng.choice(['a', 'omega', 'anom', 'x', 'vy', 'mean_anomaly', 'eccentric_anomaly', 'true_anomaly'])
            if x in CNAMES or x in KNAMES:
                j = (KNAMES + CNAMES).index(x)
                u = (list(ctx.kunit) + list(ctx.cunit))[j]
            else:
                u = ctx.ang
            setattr(orb, x, np.linspace(0.7, 0.9, n) * u)
            getattr(orb, 'kepler'), getattr(orb, 'cartesian')
            self.keep(orb, self.OUT)
        self.look_kept()

    def expect(self, term, side, typ):
        r = self.judge.vec(term, side, typ)
        return r

    def see_k(self, orb, obs, ks, cs, typ, rng):
        glance = self.glance(orb, KNAMES, rng)
        K = orb.kepler
        if K.dtype != self.ctx.dtype:
            raise Mismatch(f'dtype of the Keplerian elements is {K.dtype}')
        if K.shape != (6, len(ks)):
            raise Mismatch(f'shape of kepler is {K.shape}')
        K0 = K.copy()
        for nm, x in glance:
            same(x, K[KNAMES.index(nm)], f'orbit.{nm}, read first, and orbit.kepler', 0)
        for j, nm in enumerate(KNAMES):
            x = getattr(orb, nm)
            same(x, K[j], f'orbit.{nm} and orbit.kepler[{j}]', 0)
            x *= 0
        K *= 0
        same(orb.kepler, K0, 'kepler after changing an array returned earlier', 0)
        for i, x in enumerate(ks):
            if x.ok and self.there_and_back(obs, 'k', i):
                self.cmp(K0[:, i].astype(float) / self.ctx.kunit, x, 'k', typ, f'Keplerian elements of member {i}')
            else:
                self.judge.skipped += 1

    def see_c(self, orb, obs, ks, cs, typ, rng):
        glance = self.glance(orb, CNAMES + ['r', 'v'], rng)
        C = orb.cartesian
        if C.dtype != self.ctx.dtype:
            raise Mismatch(f'dtype of the Cartesian elements is {C.dtype}')
        if C.shape != (6, len(cs)):
            raise Mismatch(f'shape of cartesian is {C.shape}')
        C0 = C.copy()
        for nm, x in glance:
            want = C[:3] if nm == 'r' else C[3:] if nm == 'v' else C[CNAMES.index(nm)]
            same(x, want, f'orbit.{nm}, read first, and orbit.cartesian', 0)
        for j, nm in enumerate(CNAMES):
            x = getattr(orb, nm)
            same(x, C[j], f'orbit.{nm} and orbit.cartesian[{j}]', 0)
            x *= 0
        r, v = orb.r, orb.v
        same(r, C[:3], 'orbit.r and orbit.cartesian[:3]', 0)
        same(v, C[3:], 'orbit.v and orbit.cartesian[3:]', 0)
        r *= 0
        v *= 0
        C *= 0
        same(orb.cartesian, C0, 'cartesian after changing an array returned earlier', 0)
        for i, x in enumerate(cs):
            if x.ok and self.there_and_back(obs, 'c', i):
                self.cmp(C0[:, i].astype(float) / self.ctx.cunit, x, 'c', typ, f'Cartesian elements of member {i}')
            else:
                self.judge.skipped += 1

    def there_and_back(self, obs, side, i):
        """Single precision: elements that were recalculated from the other side need a well conditioned other side."""
        if not self.ctx.f32 or side not in self.inexact:
            return True
        o = 'c' if side == 'k' else 'k'
        t = totuple(obs[o][i], o)
        return t[0] == 'nan' or self.expect(t, o, obs['type']).ok

    def cmp(self, got, exp, side, typ, what):
        ex = self.exact
        for j in range(6):
            g, x = float(got[j]), exp.val[j]
            if x != x:
                if g == g:
                    raise Mismatch(f'{what}: element {j + 1} is {g!r}, must be NaN (not specified)')
                continue
            if g != g:
                raise Mismatch(f'{what}: element {j + 1} is NaN, expected {x!r}')
            if (j + 1) in exp.exact and side not in self.inexact and f'{side}{j + 1}' not in self.inexact:
                if abs(g - x) > ex * (abs(x) if x else 1):
                    raise Mismatch(f'{what}: element {j + 1} reads {g!r} but {x!r} was written')
                continue
            if side == 'k' and j >= 2 and not (j == 5 and typ != 'true' and not exp.val[1] < 1):
                d = O.angdiff(g, x)
            else:
                d = abs(g - x)
            if not d <= exp.tol[j]:
                raise Mismatch(f'{what}: element {j + 1} is {g!r}, expected {x!r} (tolerance {exp.tol[j]:.1e})')

    def see_anom(self, orb, obs, ks, cs, typ, rng):
        ctx = self.ctx
        A = {}
        for t in rng.sample(['true', 'eccentric', 'mean'], 3):
            nm = t + '_anomaly'
            x = getattr(orb, nm)
            if x.shape != (len(ks),):
                raise Mismatch(f'shape of {nm} is {x.shape}')
            y = x.copy()
            x *= 0
            same(getattr(orb, nm), y, f'{nm} after changing an array returned earlier', 0)
            A[t] = y
        for i, x in enumerate(ks):
            if not x.ok:
                continue
            v = x.val
            for t in A:
                g = float(A[t][i]) / ctx.ang
                if t != typ and O.isnan(v[1]) or O.isnan(v[5]):
                    if not O.isnan(g):
                        raise Mismatch(f'{t} anomaly of member {i} is {g!r} but the orbit is not specified')
                    continue
                if O.isnan(v[0]) and t != typ:
                    pass
                try:
                    w = O.anom_convert(v[5], v[1], typ, t)
                except O.Invalid:
                    continue
                # conditioning of the anomaly: shift the anomaly and the eccentricity by their tolerance
                tol = ctx.base * (1 + abs(w)) + 3 * x.tol[5]
                if t != typ:
                    try:
                        for da, de in ((x.tol[5], 0), (0, x.tol[1] * 0.3 if x.tol[1] > ctx.base * 3 else 0)):
                            ww = O.anom_convert(v[5] + da, v[1] + (de if v[1] != 1 else 0), typ, t)
                            tol += 3 * (O.angdiff(ww, w) if v[1] < 1 or t == 'true' else abs(ww - w))
                    except O.Invalid:
                        continue
                if tol > 0.05 * (1 + abs(w)):
                    continue
                close(g, w, tol, f'{t} anomaly of member {i}', angle=(v[1] < 1 or t == 'true'))

    def see_derived(self, orb, obs, ks, cs, typ, rng):
        ctx = self.ctx
        n = len(ks)
        names = ['period', 'mean_motion', 'speed', 'velocity', 'periapsis', 'apoapsis', 'mean_longitude', 'equinoctial']
        got = {nm: getattr(orb, nm) for nm in rng.sample(names, len(names))}
        per, mm, sp, ve, pe, ap, ml, eq = (got[nm] for nm in names)
        for nm, x in (('period', per), ('mean_motion', mm), ('speed', sp), ('velocity', ve), ('periapsis', pe),
                      ('apoapsis', ap), ('mean_longitude', ml)):
            if np.shape(x) != (n,):
                raise Mismatch(f'shape of {nm} is {np.shape(x)}')
        if eq.shape != ((6,) if n == 1 else (6, n)):
            raise Mismatch(f'shape of equinoctial is {eq.shape}')
        eq = eq.reshape(6, n)
        for i, (x, c) in enumerate(zip(ks, cs)):
            if c.ok:
                v = c.val
                g = float(ve[i]) / ctx.V
                if any(O.isnan(y) for y in v[3:]):
                    if not O.isnan(g):
                        raise Mismatch(f'velocity of member {i} is {g!r} but it is not specified')
                else:
                    close(g, math.sqrt(sum(y * y for y in v[3:])), ctx.base * 3 + 3 * max(c.tol[3:]),
                          f'velocity of member {i}')
            if not x.ok:
                continue
            v = x.val
            mu = gm(obs['m'][i])
            if any(O.isnan(y) for y in v):
                for nm, y, need in (('period', per, (0,)), ('mean motion', mm, (0,)), ('speed', sp, (0, 1, 5)),
                                    ('periapsis', pe, (0, 1)), ('apoapsis', ap, (0, 1)),
                                    ('mean longitude', ml, (1, 3, 4, 5))):
                    if nm == 'mean longitude' and typ == 'mean':
                        need = (3, 4, 5)
                    if any(O.isnan(v[q]) for q in need) and not O.isnan(float(y[i])):
                        raise Mismatch(f'{nm} of member {i} is {float(y[i])!r} but the orbit is not specified')
                continue
            a, e = v[0], v[1]
            ta, te = x.tol[0], x.tol[1]
            b = ctx.base * 3
            if e < 1:
                P = O.period(a, mu)
                close(float(per[i]) / ctx.T, P, (b + 2 * ta / a) * P, f'period of member {i}')
                close(float(ap[i]) / ctx.L, a * (1 + e), b * (1 + a) + 3 * ta + 3 * a * te, f'apoapsis of member {i}')
            rate = math.sqrt(mu / (a ** 3 * (2 if e == 1 else 1)))
            close(float(mm[i]) / ctx.ang * ctx.T, rate, (b + 2 * ta / a) * rate, f'mean motion of member {i}')
            q = a if e == 1 else a * abs(1 - e)
            close(float(pe[i]) / ctx.L, q, b * (1 + a) + 3 * ta + 3 * a * te, f'periapsis of member {i}')
            ds = 0.0
            try:
                s = O.speed(v, typ, mu)
                for j in (0, 1, 5):
                    if j == 1 and e == 1:
                        continue
                    for sg in (1, -1):
                        w = list(v)
                        w[j] += sg * x.tol[j]
                        if w[1] < 0:
                            continue
                        ds += abs(O.speed(tuple(w), typ, mu) - s)
                close(float(sp[i]) / ctx.V, s, b * (1 + s) + 2 * ds, f'speed of member {i}')
            except O.Invalid:
                pass
            dM = 3 * x.tol[5]
            try:
                M = O.anom_convert(v[5], e, typ, 'mean')
                for j, d in ((5, x.tol[5]), (1, x.tol[1])):
                    w = list(v)
                    if j == 1 and (e == 1 or e + d >= 1 > e):
                        continue
                    w[j] += d
                    y = O.anom_convert(w[5], w[1], typ, 'mean')
                    dM += 2 * (O.angdiff(y, M) if e < 1 else abs(y - M))
            except O.Invalid:
                continue
            tl = b * (1 + abs(M)) + dM + 2 * x.tol[3] + 2 * x.tol[4]
            if tl < 0.05:
                close(float(ml[i]) / ctx.ang, M + v[3] + v[4], tl, f'mean longitude of member {i}', angle=True)
            if e < 1 and v[2] < pi - 0.05 and tl < 0.05:
                E = O.kep_to_equi(v, typ)
                te6 = [b * (1 + a) + 2 * ta] + [b + 3 * (te + x.tol[3] + x.tol[4])] * 2 + \
                    [(b + 3 * (x.tol[2] + x.tol[4])) * (1 + math.tan(v[2] / 2)) ** 2 * 2] * 2 + [tl]
                G = eq[:, i].astype(float)
                for j, u in enumerate((ctx.L, 1, 1, 1, 1, ctx.ang)):
                    close(G[j] / u, E[j], te6[j], f'equinoctial element {j + 1} of member {i}', angle=j == 5)


def play(pyorb, ctx, player, rec, seed, parts='kcad'):
    """Replay one behaviour; returns None or a description of what went wrong."""
    rng = random.Random(seed)
    step = 0
    try:
        hist = rec['h']
        player.inexact = set()
        player.kept = []
        player.handed = []
        alive = 'l' in parts
        first = 1
        if len(hist) > 1 and hist[1]['op'] == 'ro' and rng.random() < 0.7:
            orb = player.create(hist[0], rng, hist[1])
            first = 2
        else:
            orb = player.create(hist[0], rng)
        player.look_handed()
        other = None
        nosy = rng.random() < 0.3
        for step in range(first, len(hist)):
            op = hist[step]
            o = op['op']
            if nosy:
                player.touch(orb, rng, alive)
                if other is not None:
                    player.touch(other, rng, alive)
            if 'rej' in op:
                want = (AttributeError, ValueError) if o.startswith('badmix') or o.startswith('badadd') else \
                    {'AttributeError': AttributeError, 'ValueError': ValueError,
                     'Error': (ValueError, TypeError, IndexError, AttributeError)}[op['rej']]
                if o in ('badmix', 'badaddmix') and op['rej'] == 'ValueError':
                    want = ValueError
                try:
                    player.do(orb, op, rng)
                except want:
                    player.look_handed()
                    continue
                raise Mismatch(f'{o} was accepted, expected {op["rej"]}')
            if o == 'fail':
                if not player.failing(orb, op, rng):
                    return None         # nothing was done, and everything is as it was
                op = op['in']
                o = op['op']
                if o in ('readK', 'readC', 'str'):
                    continue
                player.bookkeep(op)
                continue
            if o == 'readK':
                obs = op['obs']
                ks = [player.expect(totuple(t, 'k'), 'k', obs['type']) for t in obs['k']]
                player.see_k(orb, obs, ks, None, obs['type'], rng)
                if rng.random() < 0.5:
                    player.see_anom(orb, obs, ks, None, obs['type'], rng)
                if alive:
                    player.keep(orb, KNAMES + ['kepler', 'eccentric_anomaly', 'mean_anomaly', 'true_anomaly', 'period'])
                continue
            if o == 'readC':
                obs = op['obs']
                cs = [player.expect(totuple(t, 'c'), 'c', obs['type']) for t in obs['c']]
                player.see_c(orb, obs, None, cs, obs['type'], rng)
                if alive:
                    player.keep(orb, CNAMES + ['cartesian', 'r', 'v', 'velocity'])
                continue
            if o == 'iter':
                iterate(player, orb, op, rng)
                continue
            if o == 'copy':
                orb, other = make_copy(player, orb, op, rng)
                other_inexact = set(player.inexact)
                continue
            if o == 'str':
                see_str(player, orb, op)
                continue
            orb = player.do(orb, op, rng)
            player.look_handed()
            player.bookkeep(op)
        step = len(hist)
        if nosy:
            player.touch(orb, rng, alive)
        player.check_object(orb, rec['obs'], rng, parts)
        if other is not None:
            player.inexact = other_inexact
            player.check_object(other, rec['sh'][0], rng, parts)
        if alive:
            player.look_kept()
            player.afterlife(orb, rng)
        return None
    except Mismatch as ex:
        return f'{describe(rec["h"], step)}: {ex}'
    except Timeout:
        return f'{describe(rec["h"], step)}: no answer within the time limit'
    except Exception as ex:  # noqa: any exception of the code under test is a wrong behaviour
        return f'{describe(rec["h"], step)}: raised {type(ex).__name__}: {ex}'


def describe(hist, step):
    def one(e):
        e = {k: v for k, v in e.items() if k not in ('obs',)}
        o = e.pop('op')
        if 'sel' in e:
            e['sel'] = f"{e['sel']['f']}{sorted(e['sel']['s'])}"
        return o + '(' + ','.join(f'{k}={v}' for k, v in e.items()) + ')'
    return '; '.join(one(e) for e in hist[:step + 1])


def sub_obs(obs, s):
    return dict(obs, k=[obs['k'][i - 1] for i in s], c=[obs['c'][i - 1] for i in s], m=[obs['m'][i - 1] for i in s])


def iterate(player, orb, op, rng):
    obs = op['obs']
    n = len(obs['k'])
    f = op['form']

    def member(x, i):
        player.check_object(x, sub_obs(obs, [i + 1]), rng, parts=rng.choice(['k', 'c', 'kc']))
    if f == 'plain':
        got = list(orb)
        if len(got) != n:
            raise Mismatch(f'iteration gave {len(got)} members of {n}')
        for i, x in enumerate(got):
            member(x, i)
        # the members are independent of the object
        for x in got:
            x.kepler_read_only = x.cartesian_read_only = False
            x.direct_update = False
            x.kepler = x.kepler * 0 + 1.0
    elif f == 'nested':
        seen = []
        for i, x in enumerate(orb):
            for j, y in enumerate(orb):
                seen.append((i, j))
                if len(seen) > n * n + 1:
                    break
                if i == j:
                    member(y, j)
        if seen != [(i, j) for i in range(n) for j in range(n)]:
            raise Mismatch(f'nested iteration over {n} members visited {seen[:12]}')
    elif f == 'twice':
        a, b = iter(orb), iter(orb)
        for i in range(n):
            member(next(a), i)
            member(next(b), i)
        for it in (a, b):
            try:
                next(it)
            except StopIteration:
                continue
            raise Mismatch('iteration gives more members than there are')
    elif f == 'broken':
        for x in orb:
            break
        if len([1 for x in orb]) != n:
            raise Mismatch('iteration after an interrupted one is incomplete')


def see_str(player, orb, op):
    """The printed form names the current elements, or the number of orbits."""
    obs = op['obs']
    n = len(obs['k'])
    text = str(orb)
    if n != 1:
        if re.findall(r'\d+', text) != [str(n)]:
            raise Mismatch(f'the printed form of {n} orbits is {text!r}')
        return
    got = {}
    for nm, x in re.findall(r'(\w+)\s*[:=]\s*(\S+)', text):
        got[nm] = float(x.rstrip(',;'))
    want = set(KNAMES + CNAMES)
    if set(got) != want:
        raise Mismatch(f'the printed form names {sorted(got)}, not {sorted(want)}: {text!r}')
    typ = obs['type']
    for side, names, unit in (('k', KNAMES, player.ctx.kunit), ('c', CNAMES, player.ctx.cunit)):
        x = player.expect(totuple(obs[side][0], side), side, typ)
        if not x.ok:
            continue
        for j, nm in enumerate(names):
            g, w = got[nm] / unit[j], x.val[j]
            if w != w or g != g:
                if (w != w) != (g != g):
                    raise Mismatch(f'{nm} is printed as {got[nm]!r}, expected {w!r}')
                continue
            angle = side == 'k' and j >= 2 and not (j == 5 and typ != 'true' and not x.val[1] < 1)
            d = O.angdiff(g, w) if angle else abs(g - w)
            if not d <= x.tol[j] + 1e-3 * (abs(g) + abs(w)):
                raise Mismatch(f'{nm} is printed as {got[nm]!r} (in units {g!r}), expected {w!r}')


def make_copy(player, orb, op, rng):
    ctx = player.ctx
    n = orb.num
    orb.epoch = [51544.0]
    if op['form'] == 'copy':
        new = orb.copy()
    elif op['form'] == 'copy.copy':
        new = copymod.copy(orb)
    elif op['form'] == 'deepcopy':
        new = copymod.deepcopy(orb)
    elif op['form'] == 'pickle':
        new = pickle.loads(pickle.dumps(orb))
    else:
        idx, order = player.sel(op['sel'], n, rng, perm_ok=False)
        new = orb[idx]
    for nm in ('auto_update', 'direct_update', 'kepler_read_only', 'cartesian_read_only', 'degrees', 'G', 'M0',
               'type', 'dtype', 'solver_options', 'epoch'):
        if getattr(new, nm) != getattr(orb, nm):
            raise Mismatch(f'setting {nm} of the copy is {getattr(new, nm)!r}, not {getattr(orb, nm)!r}')
    if op['keep'] == 'copy':
        act, other = new, orb
    else:
        act, other = orb, new
    # changes of one object's settings must not reach the other
    sv = copymod.deepcopy(other.solver_options)
    act.solver_options['max_iter'] = act.solver_options['max_iter'] + 1
    if other.solver_options != sv:
        raise Mismatch('solver options are shared with the copy')
    act.epoch.append(0.5)
    if other.epoch != [51544.0]:
        raise Mismatch('a list as epoch is shared with the copy')
    act.epoch = 51544.5
    if other.epoch != [51544.0]:
        raise Mismatch('the epoch is shared with the copy')
    return act, other


def play_many(args):
    """Worker: list of (ctxname, rec, seed) -> list of (what, rec, ctxname, seed) for the failures."""
    pyorb, ctxs, items, limit = args
    players = {}
    out = []
    skipped = 0
    for cname, rec, seed, parts in items:
        ctx = ctxs[cname]
        pl = players.get(cname)
        if pl is None:
            pl = players[cname] = Player(pyorb, ctx)
        with np.errstate(all='ignore'):
            try:
                with time_limit(limit):
                    r = play(pyorb, ctx, pl, rec, seed, parts)
            except Timeout:
                r = describe(rec['h'], len(rec['h'])) + ': no answer within the time limit'
        if r is not None:
            out.append((r, rec, cname, seed))
    skipped = sum(p.judge.skipped for p in players.values())
    return [(len(items), skipped, out)]
