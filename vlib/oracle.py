"""Independent two-body reference used to evaluate the values the specifications predict.

Scalar double precision code, written from the documented conventions (not from pyorb's code):
angles in radians, directions obtained with atan2, Kepler's equation solved by bracketed Newton.
An element vector is a tuple (a, e, i, omega, Omega, anomaly); a > 0 always (periapsis distance if
e == 1), the anomaly is of the stated type.
"""
import math
from math import sin, cos, tan, sqrt, atan2, pi

TWO_PI = 2 * pi
E_LIM = 1e-9
I_LIM = pi * 1e-9
NAN = float('nan')


class Invalid(Exception):
    """The elements do not describe an orbit (beyond the asymptote, rectilinear, ...)."""


def isnan(x):
    return x != x


def wrap(x):
    y = math.fmod(x, TWO_PI)
    return y + TWO_PI if y < 0 else y


def wrap_pm(x):
    """(-pi, pi]"""
    y = wrap(x)
    return y - TWO_PI if y > pi else y


def angdiff(x, y):
    return abs(wrap_pm(x - y))


# ------------------------------------------------------------------ anomalies
def true_to_ecc(nu, e):
    if e < 1:
        h = wrap_pm(nu) / 2
        return 2 * atan2(sqrt(1 - e) * sin(h), sqrt(1 + e) * cos(h))
    if e == 1:
        n = wrap_pm(nu)
        if abs(n) > pi - 1e-6:
            raise Invalid('parabola at infinity')
        return tan(n / 2)
    n = wrap_pm(nu)
    if 1 + e * cos(n) <= 1e-6:
        raise Invalid('beyond asymptote')
    t = sqrt((e - 1) / (e + 1)) * tan(n / 2)
    if abs(t) >= 1:
        raise Invalid('beyond asymptote')
    return 2 * math.atanh(t)


def ecc_to_true(E, e):
    if e < 1:
        h = wrap_pm(E) / 2
        return 2 * atan2(sqrt(1 + e) * sin(h), sqrt(1 - e) * cos(h))
    if e == 1:
        return 2 * math.atan(E)
    return 2 * atan2(sqrt(e + 1) * math.tanh(E / 2), sqrt(e - 1))


def ecc_to_mean(E, e):
    if e < 1:
        return E - e * sin(E)
    if e == 1:
        return E + E ** 3 / 3
    return e * math.sinh(E) - E


def mean_to_ecc(M, e):
    if e < 1:
        turns = math.floor((M + pi) / TWO_PI)
        m = M - turns * TWO_PI
        lo, hi = m - e - 1e-3, m + e + 1e-3
        f = lambda E: E - e * sin(E) - m
        df = lambda E: 1 - e * cos(E)
        x = m
        return _solve(f, df, lo, hi, x) + turns * TWO_PI
    if e == 1:
        # D + D^3/3 = M
        if M == 0:
            return 0.0
        s = 1 if M > 0 else -1
        w = math.asinh(1.5 * abs(M))
        return s * 2 * math.sinh(w / 3)
    if M == 0:
        return 0.0
    s = 1 if M > 0 else -1
    m = abs(M)
    f = lambda H: e * math.sinh(H) - H - m
    df = lambda H: e * math.cosh(H) - 1
    hi = 1.0
    while f(hi) < 0:
        hi *= 2
        if hi > 600:
            raise Invalid('overflow')
    return s * _solve(f, df, 0.0, hi, min(hi, math.asinh(m / e) + 1e-3))


def _solve(f, df, lo, hi, x):
    for _ in range(200):
        y = f(x)
        if y == 0:
            return x
        if y > 0:
            hi = x
        else:
            lo = x
        d = df(x)
        nx = x - y / d if d != 0 else lo - 1
        if not (lo < nx < hi):
            nx = 0.5 * (lo + hi)
        if nx == x or abs(nx - x) <= 1e-16 * max(1.0, abs(x)):
            return nx
        x = nx
    return x


def anom_convert(x, e, frm, to):
    if frm == to or isnan(x) or isnan(e):
        return x if frm == to else NAN
    E = x
    if frm == 'true':
        E = true_to_ecc(x, e)
    elif frm == 'mean':
        E = mean_to_ecc(x, e)
    if to == 'eccentric':
        return E
    if to == 'mean':
        return ecc_to_mean(E, e)
    return ecc_to_true(E, e)


# --------------------------------------------------------------- conversions
def semilatus(a, e):
    return 2 * a if e == 1 else a * abs(1 - e * e)


def kep_to_cart(kep, mu, typ='true'):
    a, e, i, om, Om, an = kep
    nu = anom_convert(an, e, typ, 'true')
    if e < 0 or a <= 0:
        raise Invalid('elements')
    p = semilatus(a, e)
    if p <= 0:
        raise Invalid('rectilinear')
    q = 1 + e * cos(nu)
    if q <= 1e-6:
        raise Invalid('beyond asymptote')
    r = p / q
    # argument of latitude
    u = om + nu
    su, cu, so, co = sin(u), cos(u), sin(Om), cos(Om)
    si, ci = sin(i), cos(i)
    # unit vectors: radial and transverse
    R = (co * cu - so * su * ci, so * cu + co * su * ci, su * si)
    T = (-co * su - so * cu * ci, -so * su + co * cu * ci, cu * si)
    s = sqrt(mu / p)
    vr = s * e * sin(nu)
    vt = s * q
    return tuple([r * x for x in R] + [vr * x + vt * y for x, y in zip(R, T)])


def _dot(x, y):
    return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]


def _cross(x, y):
    return (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])


def _norm(x):
    return sqrt(_dot(x, x))


def cart_to_kep(cart, mu, typ='true', guard=True):
    """Canonical elements: omega = 0 if circular, Omega = 0 if planar (either direction)."""
    r, v = cart[:3], cart[3:]
    rn, vn = _norm(r), _norm(v)
    if rn == 0:
        raise Invalid('r = 0')
    h = _cross(r, v)
    hn = _norm(h)
    if hn <= 1e-7 * rn * max(vn, sqrt(mu / rn)):
        raise Invalid('rectilinear')
    rv = _dot(r, v)
    ev = tuple(((vn * vn - mu / rn) * x - rv * y) / mu for x, y in zip(r, v))
    e = _norm(ev)
    inc = atan2(math.hypot(h[0], h[1]), h[2])
    p = hn * hn / mu
    if abs(e - 1) <= E_LIM:
        e = 1.0
        a = p / 2
    elif guard and abs(e - 1) < 1e-6:
        raise Invalid('near parabolic')
    else:
        a = p / abs(1 - e * e)
    # e from energy is better conditioned near zero than the vector norm, the limit decides
    planar = inc <= I_LIM or inc >= pi - I_LIM
    if guard and not planar and (inc < 1e-5 or inc > pi - 1e-5):
        raise Invalid('near planar')
    if guard and e > E_LIM and e < 1e-6:
        raise Invalid('near circular')
    W = tuple(x / hn for x in h)
    if planar:
        N = (1.0, 0.0, 0.0)
        Om = 0.0
    else:
        N = (-h[1], h[0], 0.0)
        nn = _norm(N)
        N = tuple(x / nn for x in N)
        Om = wrap(atan2(N[1], N[0]))
    M = _cross(W, N)   # in the orbital plane, 90 degrees ahead of the node

    def ang(x):
        return atan2(_dot(x, M), _dot(x, N))
    u = ang(r)
    if e <= E_LIM:
        om = 0.0
        nu = wrap(u)
    else:
        om = wrap(ang(ev))
        nu = wrap(u - om)
    return (a, e, inc, om, Om, anom_from_true(nu, e, typ))


def anom_from_true(nu, e, typ):
    if typ == 'true':
        return wrap(nu)
    x = anom_convert(nu, e, 'true', typ)
    return wrap(x) if e < 1 else x


def canonical(kep, typ):
    a, e, i, om, Om, an = kep
    nu = anom_convert(an, e, typ, 'true')
    kep_to_cart((a, e, i, om, Om, nu), 1.0)    # is there such an orbit?
    ci, si = cos(i), sin(i)
    inc = atan2(abs(si), ci)
    if inc <= I_LIM:
        om, Om = om + Om, 0.0
    elif inc >= pi - I_LIM:
        om, Om = om - Om, 0.0
    if e <= E_LIM:
        nu, om = nu + om, 0.0
    if e != 1 and abs(e - 1) <= E_LIM:
        raise Invalid('near parabolic')
    return (a, e, inc, wrap(om), wrap(Om), anom_from_true(wrap(nu), e, typ))


def mean_rate(a, e, mu):
    n = sqrt(mu / a ** 3)
    return n / sqrt(2) if e == 1 else n


def propagate(kep, typ, dt, mu):
    a, e, i, om, Om, an = kep
    M = anom_convert(an, e, typ, 'mean') + mean_rate(a, e, mu) * dt
    if e < 1:
        M = wrap(M)
    x = anom_convert(M, e, 'mean', typ)
    if e < 1:
        x = wrap(x)
    return (a, e, i, om, Om, x)


def kep_to_equi(kep, typ):
    """(a, h, k, p, q, lambda) with the mean longitude."""
    a, e, i, om, Om, an = kep
    M = anom_convert(an, e, typ, 'mean')
    t = tan(i / 2)
    return (a, e * sin(om + Om), e * cos(om + Om), t * sin(Om), t * cos(Om), wrap(M + om + Om))


def equi_to_kep(eq, typ):
    a, h, k, p, q, lam = eq
    e = math.hypot(h, k)
    i = 2 * math.atan(math.hypot(p, q))
    Om = atan2(p, q) if (p or q) else 0.0
    wb = atan2(h, k) if e > E_LIM else Om
    M = lam - wb
    return (a, e, i, wrap(wb - Om), wrap(Om), wrap(anom_convert(M, e, 'mean', typ)))


def period(a, mu):
    return TWO_PI * sqrt(a ** 3 / mu)


def speed(kep, typ, mu):
    a, e = kep[0], kep[1]
    nu = anom_convert(kep[5], e, typ, 'true')
    p = semilatus(a, e)
    return sqrt(mu / p * (1 + 2 * e * cos(nu) + e * e))


def radius(kep, typ):
    a, e = kep[0], kep[1]
    nu = anom_convert(kep[5], e, typ, 'true')
    return semilatus(a, e) / (1 + e * cos(nu))


def rot(axis, t):
    c, s = cos(t), sin(t)
    if axis == 'x':
        return [[1, 0, 0], [0, c, -s], [0, s, c]]
    if axis == 'y':
        return [[c, 0, s], [0, 1, 0], [-s, 0, c]]
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def stumpff(k, x):
    """c_k(x) from the defining power series (exact rational arithmetic for |x| moderate)."""
    from fractions import Fraction
    X = Fraction(x)
    if abs(x) <= 40:
        tot, term, j = Fraction(0), Fraction(1, math.factorial(k)), 0
        while abs(term) > Fraction(1, 10 ** 22) or j < 4:
            tot += term
            j += 1
            # limit the growth of the fractions, 60 digits are plenty
            term = -term * X / ((k + 2 * j) * (k + 2 * j - 1))
            term = Fraction(round(term * 10 ** 60), 10 ** 60)
        return float(tot)
    z = sqrt(abs(x))
    if x > 0:
        return [cos(z), sin(z) / z, (1 - cos(z)) / x, (z - sin(z)) / (z * x)][k]
    return [math.cosh(z), math.sinh(z) / z, (1 - math.cosh(z)) / x, (z - math.sinh(z)) / (z * x)][k]


def _guard(f):
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except (ValueError, OverflowError, ZeroDivisionError) as ex:
            raise Invalid(str(ex))
    return g


for _n in ('true_to_ecc', 'ecc_to_true', 'ecc_to_mean', 'mean_to_ecc', 'anom_convert', 'kep_to_cart', 'cart_to_kep',
           'canonical', 'propagate', 'kep_to_equi', 'equi_to_kep', 'period', 'speed', 'radius', 'mean_rate'):
    globals()[_n] = _guard(globals()[_n])
