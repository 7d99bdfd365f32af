"""Replays sessions of Calls.tla with the array functions of the library."""
import math
import zlib

import numpy as np

from . import core
from . import oracle as O
from .conic import adiff

pi = math.pi
NAN = float('nan')

NAMES = dict(true_to_eccentric=('nu', 'e'), eccentric_to_true=('E', 'e'), eccentric_to_mean=('E', 'e'), mean_to_eccentric=('M', 'e'),
             true_to_mean=('nu', 'e'), mean_to_true=('M', 'e'), kepler_guess=('M', 'e'),
             kep_to_cart=('kep', 'mu'), cart_to_kep=('cart', 'mu'), kep_to_equi=('kep',), equi_to_kep=('equi',),
             cart_to_equi=('cart', 'mu'), equi_to_cart=('equi', 'mu'),
             stumpff0=('x',), stumpff1=('x',), stumpff2=('x',), stumpff3=('x',), stumpff=('x',), true_of_the_asymptote=('e',),
             orbital_period=('a', 'mu'), semi_major_axis=('P', 'mu'), parabolic_radius=('nu', 'q'),
             parabolic_total_angular_momentum=('q', 'mu'), orbit_total_angular_momentum=('a', 'e', 'mu'),
             elliptic_radius=('E', 'a', 'e'), hyperbolic_radius=('nu', 'a', 'e'), orbital_speed=('r', 'a', 'mu'),
             orbital_distance=('h', 'mu', 'e', 'nu'), euler_rotation_matrix=('inc', 'omega', 'Omega'))
PAIRS = [f for f in NAMES if NAMES[f][-1] == 'e' and len(NAMES[f]) == 2]
STATES = ['kep_to_cart', 'cart_to_kep', 'kep_to_equi', 'equi_to_kep', 'cart_to_equi', 'equi_to_cart']
NOUNIT = {'kepler_guess', 'stumpff0', 'stumpff1', 'stumpff2', 'stumpff3', 'stumpff', 'orbital_period', 'semi_major_axis',
          'parabolic_total_angular_momentum', 'orbit_total_angular_momentum', 'orbital_speed'}
SOLVER = {'mean_to_eccentric', 'mean_to_true', 'equi_to_cart'}

# (anomaly, e): valid for true, eccentric and mean anomalies alike
PTAB = dict(f8=[(0.7, 0.0), (1.9, 0.3), (5.1, 0.95), (-0.8, 1.0), (1.1, 1.7), (-0.6, 1.7), (0.0, 0.5), (pi, 0.2), (1.0, NAN),
                (NAN, 0.4), (2.0, 1.0), (4.0, 0.6), (0.9, 6.0), (0.0, 1.3), (0.0, 1.0)],
            f4=[(0.7, 0.0), (1.9, 0.3), (5.1, 0.7), (-0.8, 1.0), (1.1, 1.7), (-0.6, 1.7), (1.0, NAN), (0.9, 4.0)],
            i8=[(1, 0), (2, 0), (1, 1), (-1, 1), (1, 2), (-1, 2), (4, 0), (0, 2)])
IDEG = [(30, 0), (100, 0), (60, 1), (-50, 1), (70, 2), (-40, 2), (200, 0), (0, 2)]
KTAB = dict(f8=[(1, .3, .7, 1.1, 2.1, .9), (1.5, 0, 1.0, .5, .8, 2), (2, 0, 0, .5, .8, 1), (1, .4, 0, .5, 4, 5), (1, .4, pi, .5, 4, 5),
                (1, 0, pi, .3, .2, .1), (1, 1, 1.2, .3, 4, 5.28), (1.3, 2, .4, 3, 2, 1), (1.3, 1.4, 2.4, 3, 2, 5.5),
                (1, NAN, .5, .5, .5, .5), (1.1, .8, 2.5, 6, 5, 4)],
            f4=[(1, .3, .7, 1.1, 2.1, .9), (1.3, 2, .4, 3, 2, 1), (1.1, .6, 2.5, 5.5, 5, 4)],
            i8=[(2, 0, 1, 2, 3, 1), (2, 2, 1, 0, 3, 1), (1, 1, 0, 1, 2, 2), (3, 0, 3, 1, 1, 5)])
KDEG = [(2, 0, 30, 60, 200, 100), (2, 2, 45, 10, 300, 80), (1, 1, 0, 10, 20, 90), (3, 0, 180, 20, 10, 300)]
CINT = [(1, 0, 0, 0, 2, 0), (1, 0, 0, 0, 2, 1), (3, 1, 2, -1, 0, 1), (1, 2, 0, -1, 1, 3)]
EINT = [(2, 0, 0, 1, 0, 3), (3, 0, 0, 0, 0, 1), (1, 0, 0, 0, 1, 2)]
XTAB = dict(f8=[2.5, -1.7, 0.0, 1e-3, -1e-3, 30.0, -20.0, -0.3, 1e-9, 150.0, 0.0099, 0.0101], f4=[2.5, -1.7, 0.0, 30.0, -0.3], i8=[3, -2, 0, 1, 12])
CAST = dict(orbital_period=([1.0, 2.5, 0.3], [1.0, 2.0, 0.7]), semi_major_axis=([6.0, 1.5, 20.0], [1.0, 2.0, 0.7]),
            parabolic_radius=([0.4, -1.0, 2.0], [1.0, 2.0, 0.5]), parabolic_total_angular_momentum=([1.0, 2.0, .3], [1.0, 2.0, .7]),
            orbit_total_angular_momentum=([1.0, 2.5, 0.3], [0.0, 0.5, 0.9], [1.0, 2.0, 0.7]),
            elliptic_radius=([0.3, 2.0, 5.0, -1.0], [1.0, 3.0, 0.2], [0.0, 0.4, 0.9]),
            hyperbolic_radius=([0.3, -0.9, 1.1], [1.0, 3.0, 0.2], [1.5, 2.0, 1.1]),
            orbital_speed=([1.0, 1.7, 0.2], [1.0, -2.0, 3.0, np.inf], [1.0, 2.0, 0.7]),
            orbital_distance=([1.0, 2.0, 0.5], [1.0, 2.0, 0.7], [0.0, 1.0, 1.5, 0.4], [0.3, -1.0, 1.6]))
CINTS = dict(orbital_period=([1, 2, 3], [1, 2, 5]), semi_major_axis=([6, 2, 20], [1, 2, 3]), parabolic_radius=([1, -1, 2], [1, 2, 3]),
             parabolic_total_angular_momentum=([1, 2, 3], [1, 2, 5]), orbit_total_angular_momentum=([1, 2, 3], [0], [1, 2, 5]),
             elliptic_radius=([1, 2, 5], [1, 3, 2], [0]), hyperbolic_radius=([1, -1, 0], [1, 3, 2], [2, 3]),
             orbital_speed=([1, 2, 3], [2, -2, 3], [1, 2, 5]), orbital_distance=([1, 2, 5], [1, 2, 3], [0, 1, 2], [1, -1, 0]))
CDEG = {0: [20, 60, -70]}
ANG = [0.3, 2.0, 4.4, -1.2, 0.0, 3.3]


def state(fn, kind, j, ty, mu, deg, si):
    """Elements of object j (scalar numbers, angles in the unit)."""
    src = fn.split('_')[0]
    if ty == 'i8':
        tab = dict(kep=KDEG if deg else KTAB['i8'], cart=CINT, equi=EINT)[src]
        if fn == 'kep_to_equi':
            tab = [x for x in tab if x[1] == 0 and x[2] not in (3, 180)]
        elif fn == 'cart_to_equi':
            tab = tab[:2]
        return tab[kind % len(tab)]
    tab = KTAB[ty]
    if src == 'equi' or 'equi' in fn:
        tab = [x for x in tab if not x[1] >= 1 and x[2] < 3]
    x = list(tab[kind % len(tab)])
    if ty == 'f4' and fn == 'cart_to_kep' and x[1] != x[1]:
        x = list(tab[0])
    x[0] *= 1 + 0.03 * j
    x[5] *= 1 - 0.01 * (j % 20)
    L = 1.5e11 if si else 1.0
    if src == 'cart':
        if any(z != z for z in x):
            c = [1.0, NAN, 0.5, 0.3, 0.7, 0.1]
            return [c[0] * L, NAN] + [z * (L if q < 3 else math.sqrt(mu / L)) for q, z in list(enumerate(c))[2:]]
        x[0] *= L
        return list(O.kep_to_cart(x, mu))
    x[0] *= L
    if src == 'equi':
        if any(z != z for z in x):
            y = [1, 0.1, NAN, .2, .1, 2.0]
        else:
            y = list(O.kep_to_equi(x, 'true'))
        if deg:
            y[5] = math.degrees(y[5])
        return y
    return x[:2] + [math.degrees(z) for z in x[2:]] if deg else x


class Session:
    def __init__(self, pyorb, rec, salt):
        self.k = pyorb.kepler
        self.rec = rec
        self.fn = rec['fn']
        self.form = rec['form']
        self.fam = self.form['fam']
        self.deg = self.form['unit'] == 'deg'
        self.opt = self.form['opt']
        self.salt = salt
        self.types = [rec['mem'][q]['type'] for q in range(rec['na'])]
        self.ty = self.types[0]
        # the default of mu is that of the Sun in SI units
        self.si = self.opt == 'defaults' and self.fam == 'state' and not (self.ty == 'i8' and self.fn.startswith('cart'))
        self.objs = []     # real objects
        self.shadow = []   # what they must be
        self.vers = []
        for q in range(rec['na']):
            self.objs.append(self.make(q, 0))
            self.shadow.append(np.array(self.objs[q], copy=True))
            self.vers.append(0)

    def kind(self, j, ver):
        mix = self.form['mix']
        if mix and j < len(mix):
            return mix[j] - 1 + ver
        return self.form['shift'] * 3 + j * 5 + ver + self.salt

    def numbers(self, q, ver):
        """The elements of argument q (flat list) in version ver."""
        shape = self.form['shapes'][q]
        scalar = shape == [-1]
        n = 1 if scalar else int(np.prod(shape))
        ty, fn, deg = self.ty, self.fn, self.deg
        ints = ty == 'i8'
        if self.fam == 'pair':
            tab = IDEG if ints and deg else PTAB[ty]
            other = self.form['shapes'][1 - q]
            res = []
            both = not scalar and other != [-1]
            for j in range(n):
                if both or (scalar and other == [-1]):
                    x, e = tab[self.kind(j, ver) % len(tab)]
                    if not ints and x == x and x not in (0.0, pi):
                        x *= 1 - 0.01 * (j % 20)
                    if q == 0 and not both and x != x:
                        x = 0.4
                elif q == 1 and not scalar:      # array of e with one anomaly
                    e = tab[self.kind(j, ver) % len(tab)][1]
                    x = None
                elif q == 0 and scalar:
                    x = (20 if deg else 1) if ints else 0.4 + 0.1 * ver
                elif q == 1 and scalar:          # one e, array of anomalies
                    es = [e for _, e in tab if e == e]
                    e = es[(self.form['shift'] + self.salt + ver) % len(es)]
                else:
                    if ints:
                        x = [0, 20, -30, 60, 100][self.kind(j, ver) % 5] if deg else [0, 1, -1, 1][self.kind(j, ver) % 4]
                    else:
                        x = [0.0, 0.8, -0.5, 1.2, 0.1, NAN][self.kind(j, ver) % 6]
                v = x if q == 0 else e
                if q == 0 and deg and not ints:
                    v = math.degrees(v)
                res.append(v)
            return res
        if self.fam in ('state', 'plain'):
            if q == 1:
                return [self.mu(j, ver) for j in range(n)]
            cols = shape[1] if len(shape) == 2 else 1
            if shape[0] != 6:
                return [0.1 if not ints else 1] * n
            M = [state(fn, self.kind(j, ver), j, ty, self.mu(j, 0) if not self.si else self.k.GM_sol, deg, self.si)
                 for j in range(cols)]
            return [M[j][r] for r in range(6) for j in range(cols)]
        if self.fam in ('map', 'maps'):
            tab = XTAB[ty] if 'stumpff' in fn else ([2, 3, 5] if ints else [1.2, 2.0, 5.0, 1.01])
            return [tab[self.kind(j, ver) % len(tab)] for j in range(n)]
        if self.fam == 'cast':
            tab = (CINTS if ints else CAST)[fn][q]
            if ints and deg and self.form['argang'][q]:
                tab = [20, 60, -70]
            v = [tab[self.kind(j, ver) % len(tab)] for j in range(n)]
            if deg and not ints and self.form['argang'][q]:
                v = [math.degrees(z) for z in v]
            return v
        tab = [1, 2, 40, -3, 0] if ints else ANG
        v = [tab[(self.kind(j, ver) + q) % len(tab)] for j in range(n)]
        return [math.degrees(z) for z in v] if deg and not ints else v

    def mu(self, j, ver):
        if self.form['shapes'][1:] == [[-1]]:
            j = 0
        if self.ty == 'i8':
            return 4 + j + ver
        return 1.3 + 0.25 * j + 0.5 * ver

    def make(self, q, ver):
        shape = self.form['shapes'][q]
        v = self.numbers(q, ver)
        if shape == [-1]:
            t = self.types[q]
            if t == 'i8':
                return int(v[0])
            return np.float64(v[0]) if self.salt % 2 else float(v[0])
        dt = {'f8': np.float64, 'f4': np.float32, 'i8': np.int64}[self.types[q]]
        a = np.array(v, dtype=dt).reshape(shape)
        lay = self.rec['mem'][q]['layout']
        if lay == 'F':
            return np.asfortranarray(a) if a.ndim else a
        if lay == 'strided' and a.ndim:
            b = np.full([2 * s for s in a.shape], 77, dtype=dt)
            w = b[tuple(slice(None, None, 2) for _ in a.shape)]
            w[...] = a
            return w
        if lay == 'reversed' and a.ndim:
            b = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)], order='C')
            return b[tuple(slice(None, None, -1) for _ in a.shape)]
        if lay == 'transposed' and a.ndim > 1:
            return np.ascontiguousarray(a.T).T
        if lay == 'readonly':
            a.flags.writeable = False
        return a

    # ------------------------------------------------------------- calling
    def invoke(self, args, deg, plain=False):
        f = getattr(self.k, self.fn)
        kw = {}
        if self.fn not in NOUNIT:
            if deg:
                kw['degrees'] = (True, np.True_)[self.salt % 2]
            elif not (plain or self.opt == 'defaults'):
                kw['degrees'] = (False, np.False_)[self.salt % 2]
        if self.fn in SOLVER and self.ty == 'f4' and not plain:
            kw['solver_options'] = dict(tol=1e-5, max_iter=200)
        if self.si:
            args = args[:1]
        if self.opt == 'kw' and not plain:
            return f(**dict(zip(NAMES[self.fn], args)), **kw)
        if self.fam == 'state' and len(args) > 1:
            return f(args[0], mu=args[1], **kw)
        return f(*args, **kw)

    def reference(self):
        """Expected result, element by element, in radians, from scalars (state vectors: one object each)."""
        sh = self.form['shapes']
        S = [np.asarray(s) for s in self.shadow[:self.rec['na']]]
        res = self.rec['res']['shape']

        def rad(q, x):
            x = float(x)
            return math.radians(x) if self.deg and self.form['argang'][q] else x
        if self.fam in ('state', 'plain'):
            cols = sh[0][1] if len(sh[0]) == 2 else None
            out = np.empty(res)
            rin = [r - 1 for r in self.form['rowsin']]
            rout = [r - 1 for r in self.form['rowsout']]
            for j in range(cols if cols is not None else 1):
                x = np.array(S[0][:, j] if cols is not None else S[0], dtype=np.float64)
                if self.deg:
                    x[rin] = np.radians(x[rin])
                args = [x]
                if self.fam == 'state':
                    args.append(float(S[1][j]) if sh[1] != [-1] else float(S[1]))
                y = np.array(self.invoke(args, False, plain=True), dtype=np.float64)
                if y.shape != (6,):
                    raise ValueError(f'one object gives the shape {y.shape}')
                if self.deg:
                    y[rout] = np.degrees(y[rout])
                if cols is None:
                    out[...] = y
                else:
                    out[:, j] = y
            return out
        if self.fam == 'euler':
            n = next((s.size for s in S if s.ndim), 1)
            out = np.empty((3, 3, n))
            for j in range(n):
                out[:, :, j] = self.invoke([rad(q, s if s.ndim == 0 else s[j]) for q, s in enumerate(S)], False, plain=True)
            return out if len(res) == 3 else out[:, :, 0]
        B = [np.broadcast_to(s, res) for s in S]
        outs = [np.empty(res) for _ in range(4 if self.fam == 'maps' else 1)]
        for idx in np.ndindex(*res):
            y = self.invoke([rad(q, b[idx]) for q, b in enumerate(B)], False, plain=True)
            if not isinstance(y, tuple):
                y = (y,)
            for o, z in zip(outs, y):
                o[idx] = math.degrees(float(z)) if self.form['outang'] and self.deg else float(z)
        return outs if self.fam == 'maps' else outs[0]

    def check(self, got, ref):
        if self.fam == 'maps':
            if not isinstance(got, tuple) or len(got) != 4:
                return f'result is {type(got)}'
            for a, b in zip(got, ref):
                r = self.check1(a, b)
                if r:
                    return r
            return None
        return self.check1(got, ref)

    def check1(self, got, ref):
        if list(np.shape(got)) != self.rec['res']['shape']:
            return f'shape {np.shape(got)}, expected {tuple(self.rec["res"]["shape"])}'
        g = np.asarray(got, dtype=np.float64)
        if not np.issubdtype(np.asarray(got).dtype, np.floating):
            if not (self.ty == 'i8' and np.shape(got) == ()):
                return f'result has type {np.asarray(got).dtype}'
        fn = self.fn
        f4 = self.ty == 'f4'
        half = 180.0 if self.deg else pi
        if self.fam in ('state', 'plain'):
            A = (180 / pi if self.deg else 1)
            G, R = g.reshape(6, -1), ref.reshape(6, -1)
            lossy = fn.startswith('cart')
            for j in range(R.shape[1]):
                for r in range(6):
                    x, y = G[r, j], R[r, j]
                    if math.isnan(x) and math.isnan(y):
                        continue
                    if fn.endswith('cart'):
                        v = R[:3, j] if r < 3 else R[3:, j]
                        t = np.sqrt(np.sum(v * v)) * (1e-4 if f4 else 1e-9)
                        d = abs(x - y)
                    elif r + 1 in self.form['rowsout'] or (fn.endswith(('kep', 'equi')) and r == 5):
                        d = adiff(x / half * pi, y / half * pi)
                        t = 5e-3 if f4 else (2e-7 if lossy else 1e-9)
                    else:
                        d = abs(x - y)
                        t = max(1.0 if r else abs(y), abs(y)) * ((1e-4 if f4 else 1e-8) if r == 0 else (5e-3 if f4 else 2e-7 if lossy else 1e-9))
                    if not d <= t:
                        return f'object {j}: {G[:, j].tolist()}, alone it gives {R[:, j].tolist()}'
            return None
        with np.errstate(all='ignore'):
            for idx in np.ndindex(*g.shape):
                x, y = g[idx], ref[idx]
                if (math.isnan(x) and math.isnan(y)) or x == y:
                    continue
                d = abs(x - y)
                if self.fam == 'pair' and self.form['outang'] or fn == 'kepler_guess':
                    e = np.broadcast_to(np.asarray(self.shadow[1], dtype=float), g.shape)[idx]
                    if e < 1 or fn.endswith('true'):
                        d = adiff(x / half * pi, y / half * pi) * half / pi
                t = max(1.0, abs(y)) * (2e-3 if f4 else 1e-9)
                if not d <= t:
                    return f'at {idx}: {x!r}, alone it gives {y!r}'
        return None

    def same(self, q):
        o, s = self.objs[q], self.shadow[q]
        if isinstance(o, tuple):
            return all(np.array_equal(np.asarray(a), b, equal_nan=True) for a, b in zip(o, s))
        a = np.asarray(o)
        return a.shape == s.shape and a.dtype == s.dtype and np.array_equal(a, s, equal_nan=True)

    def run(self):
        na = self.rec['na']
        ref = None
        refver = None
        for n, st in enumerate(self.rec['hist']):
            if st['op'] == 'call':
                args = [o for o in self.objs[:na]]
                flags = [a.flags.writeable if isinstance(a, np.ndarray) else None for a in args]
                try:
                    got = self.invoke(args, self.deg)
                    err = ''
                except core.Timeout:
                    raise
                except Exception as ex:
                    err, text = type(ex).__name__, str(ex)
                    names = [c.__name__ for c in type(ex).__mro__]
                if st['err']:
                    if err == '':
                        return f'step {n + 1}: no {st["err"]}'
                    if st['err'] not in names:
                        return f'step {n + 1}: {err} ({text[:80]}) instead of {st["err"]}'
                elif err:
                    return f'step {n + 1}: raised {err}: {text[:200]}'
                for q, fl in enumerate(flags):
                    if fl is not None and self.objs[q].flags.writeable != fl:
                        return f'step {n + 1}: argument {q + 1} is writeable: {not fl}'
                if not err:
                    if refver != self.vers[:na]:
                        try:
                            ref = self.reference()
                        except core.Timeout:
                            raise
                        except Exception as ex:
                            return f'step {n + 1}: evaluated alone it raised {type(ex).__name__}: {ex}'
                        refver = self.vers[:na]
                    r = self.check(got, ref)
                    if r:
                        return f'step {n + 1}: {r}'
                    self.objs.append(got)
                    self.shadow.append(tuple(np.array(g, copy=True) for g in got) if isinstance(got, tuple) else np.array(got, copy=True))
                    self.vers.append(0)
            else:
                q = st['k'] - 1
                if q < na:
                    self.vers[q] += 1
                    new = np.array(self.numbers(q, self.vers[q]), dtype=self.shadow[q].dtype).reshape(self.shadow[q].shape)
                    self.objs[q][...] = new
                    self.shadow[q] = np.array(new, copy=True)
                else:
                    o = self.objs[q]
                    parts = o if isinstance(o, tuple) else (o,)
                    for z in parts:
                        if isinstance(z, np.ndarray):
                            z[...] = -7
                    self.shadow[q] = tuple(np.array(z, copy=True) for z in parts) if isinstance(o, tuple) else np.array(o, copy=True)
            for q in range(len(self.objs)):
                if not self.same(q):
                    what = f'argument {q + 1}' if q < na else f'result {q - na + 1}'
                    return f'step {n + 1} ({st["op"]}): {what} was changed to {np.asarray(self.objs[q]).tolist()}'
        return None


def run(rep, suites):
    """suites: list of (name, constants)"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(lambda s: core.run_tlc('Calls', s[1], invariants=['Deterministic', 'ShapeLaws'],
                                                     properties=['CallsArePure'], action_constraint='Emit', timeout=3000), suites))
    pyorb = core.load_pyorb()
    items = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError('Calls.tla violates its own properties:\n' + r.error[-3000:])
        rep.add_tlc(s[0], r, sessions=len(r.records))
        rep.traces += len(r.records)
        items += [(x, i) for i, x in enumerate(r.records)]
        if r.records:
            x = r.records[len(r.records) // 2]
            rep.samples.append(dict(fn=x['fn'], shapes=x['form']['shapes'], unit=x['form']['unit'], steps=x['hist'], result=x['res']))
    items.sort(key=lambda x: zlib.crc32(repr(x[0]['form']).encode()))

    def work(part):
        out = []
        for rec, i in part:
            try:
                with core.time_limit(20), np.errstate(all='ignore'):
                    r = Session(pyorb, rec, (core.SEED * 31 + i) % 97).run()
            except core.Timeout:
                r = 'no answer within the time limit'
            if r:
                out.append((rec, i, r))
        return out
    for rec, i, r in core.pool_map(work, items):
        f = rec['form']
        lays = [m['layout'] for m in rec['mem'][:rec['na']]]
        rep.violation(f'{rec["fn"]} shapes {f["shapes"]} {lays} {rec["mem"][0]["type"]} {f["unit"]} {f["opt"]} {f["mix"] or ""}: {r}',
                      dict(kind='call', rec=rec, salt=i))
