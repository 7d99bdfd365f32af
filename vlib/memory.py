"""Replays histories of Memory.tla: the library must not remember anything between calls."""
import decimal
import os
import random
import sys
import threading
import warnings

import numpy as np

from . import calls, core
from .driver import explore

pi = np.pi
KEP = dict(base=[[1, 1.3, 2, 1.1], [.3, 1.7, 0, 1], [.7, 1.2, .3, 2], [1.1, 3, .2, 4], [2.1, 5, 3, 2], [.9, 1.1, 4, .6]],
           one=[[1.2, 1.1, 2.5, 1.3], [.4, 1.5, .1, 1], [.9, 2.2, .1, 1.5], [1.7, 2, .4, 5], [2.5, 4, 1, 3], [1.9, .8, 2, .4]])
MU = dict(base=[1, 2, .7, 1.4], two=[3, 1.1, 1.9, .8])
ELL = dict(base=[[1, 1.3, 2, 1.1], [.3, .7, 0, .1], [.7, 1.2, .3, 2], [1.1, 3, .2, 4], [2.1, 5, 3, 2], [.9, 1.1, 4, .6]],
           one=[[1.2, 1.1, 2.5, 1.3], [.4, .5, .1, .6], [.9, 2.2, .1, 1.5], [1.7, 2, .4, 5], [2.5, 4, 1, 3], [1.9, .8, 2, .4]],
           two=[[1, 1.3, 2, 1.1], [.3, .7, 0, .1], [.7, 1.2, .3, 2], [1.1, 3, .2, 4], [2.1, 5, 3, 2], [1.3, 2.4, 1, 2.6]])
CART = dict(base=[[1, 0, 2, .5], [0, 2, .3, 1], [.2, .5, 0, .4], [0, -1, .1, 1], [1.1, .2, .6, -.9], [.3, .1, .2, .2]],
            one=[[1.2, .3, 1, .7], [.1, 1, .4, 2], [.3, .1, .6, .9], [.2, -1, .1, .3], [.8, .2, .7, -.2], [.1, .5, .4, .3]])
EQUI = dict(base=[[1, 1.3, 2, 1.1], [.3, .1, 0, .1], [.2, .4, .1, -.3], [.1, .5, .7, 0], [.2, 0, .4, -.6], [2, 3, 4, .5]],
            one=[[1.5, 1.1, 2.2, .8], [.1, .4, .1, .2], [.5, .1, .3, -.1], [.3, .2, .4, .1], [.1, .3, .2, -.2], [1, 5, 2, 1.5]],
            two=[[1, 1.3, 2, 1.1], [.3, .1, 0, .1], [.2, .4, .1, -.3], [.1, .5, .7, 0], [.2, 0, .4, -.6], [4, 1, 6, 2.5]])
PAIR = dict(base=([.7, 1.1, -.8, 4.0], [.3, 1.7, 1.0, .95]), one=([1.9, .6, 1.2, 2.0], [.3, 1.7, 1.0, .95]), two=([.7, 1.1, -.8, 4.0], [.6, 1.4, 1.0, 0.0]))
X = dict(base=[2.5, -1.7, 0.0, 30.0], one=[1.1, -.3, .002, 12.0])
E_ = dict(base=[1.2, 2.0, 5.0, 1.01], one=[1.5, 3.0, 9.0, 1.1])
CAST = dict(orbital_period=([1, 2.5, .3, 4], [1, 2, .7, 3]), semi_major_axis=([6, 1.5, 20, 3], [1, 2, .7, 3]),
            parabolic_radius=([.4, -1, 2, .1], [1, 2, .5, 3]), parabolic_total_angular_momentum=([1, 2, .3, 4], [1, 2, .7, 3]),
            orbit_total_angular_momentum=([1, 2.5, .3, 2], [0, .5, .9, .2], [1, 2, .7, 3]),
            elliptic_radius=([.3, 2, 5, -1], [1, 3, .2, 2], [0, .4, .9, .1]), hyperbolic_radius=([.3, -.9, .4, .2], [1, 3, .2, 2], [1.5, 2, 1.1, 4]),
            orbital_speed=([1, 1.7, .2, 2], [1.5, -2, 3, 5], [1, 2, .7, 3]), orbital_distance=([1, 2, .5, 3], [1, 2, .7, 3], [0, 1, 1.5, .4], [.3, -1, 1.6, 2]))
ORB = dict(a=[1.0, 2.0, 1.4], e=[.3, .6, 1.7], i=[.5, 1, 2], omega=[1, 2, 3], Omega=[3, 2, 1], anom=[.7, 2, .4])
ORBITS = ['orbit_cartesian', 'orbit_kepler', 'orbit_anomalies', 'orbit_propagate', 'orbit_print']
NEAR = dict(near=0, near2=1, near3=2)
SOLVES = {'mean_to_eccentric', 'mean_to_true', 'equi_to_cart'}


def arguments(fn, v):
    """(positional arguments, keywords) of a variant; arrays are new objects."""
    single = v.startswith('shape')
    v = v.replace('shape+', '')
    num = v if v in ('one', 'two', 'three') else 'base'
    kw = {}
    if fn in calls.PAIRS:
        a = list(PAIR.get(num))
    elif fn in calls.STATES or fn == 'kep_equivalent':
        src = fn.split('_')[0]
        if fn == 'kep_equivalent':
            a = [np.array(KEP['base'])[:, 0], np.array(KEP['base'])[:, 0] * [1, 1, 1, 1, 1, 1.2]]
            if v in ('one', 'two'):
                a[0 if v == 'one' else 1] = a[1 if v == 'one' else 0].copy()
        else:
            tab = dict(kep=ELL if 'equi' in fn else KEP, cart=CART, equi=EQUI)[src]
            if fn == 'cart_to_equi':
                tab = {x: np.array(CART[x]) * [1, 1, 1, .7] for x in CART}
            a = [np.array(tab.get(num, tab['base']))]
            if fn not in ('kep_to_equi', 'equi_to_kep') and v != 'default':
                a.append(MU.get(num, MU['base']))
    elif fn.startswith('stumpff'):
        a = [X[num]]
    elif fn == 'true_of_the_asymptote':
        a = [E_[num]]
    elif fn in CAST:
        a = [np.array(x, float) for x in CAST[fn]]
        j = dict(one=0, two=1, three=2).get(v)
        if j is not None:
            a[j] = a[j] * 1.07
    elif fn == 'euler_rotation_matrix':
        a = [[.3, 1.2, 2, .1], [1, 4, .2, 3], [2, .6, 5, 1]]
        j = dict(one=0, two=1, three=2).get(v)
        if j is not None:
            a[j] = [y + .3 for y in a[j]]
    elif fn.startswith('rot_mat'):
        a = [dict(one=1.9).get(v, .4) * (1 + 1e-9 * (v == 'near'))]
        return a, dict(dtype=np.float32) if v == 'f32' else {}
    elif fn == 'get_G':
        a = [1.3, 2.2, 1.2]
        if single:
            return [['AU', 'Msol', 'd'], ['km', 'Msol', 'd'], ['AU', 'g', 'd'], ['AU', 'Msol', 'y']][dict(one=1, two=2, three=3).get(v, 0)], {}
        j = dict(one=0, two=1, three=2).get(v)
        if j is not None:
            a[j] *= 1.1
        if v in NEAR:
            a[NEAR[v]] *= 1 + 1e-9
        return a, {}
    elif fn == 'laguerre_solve_kepler':
        a = [1.0, .8, .5]
        j = dict(one=0, two=1, three=2).get(v)
        if j is not None:
            a[j] += .2
        if v in NEAR:
            a[NEAR[v]] *= 1 + 1e-9
        if v == 'opt':
            kw = dict(tol=1e-2, max_iter=1, degree=4)
        return a, kw
    elif fn == 'decorated':
        a = [[.3, 2.0, -1.0], [1.5, 4.0, .1]]
        if v in ('one', 'two'):
            a['one two'.split().index(v)] = [.7, -.2, 3.0]
    elif fn in ORBITS:
        return orbit_arguments(fn, v, single)
    a = [np.array(x, np.float64) for x in a]
    if v in NEAR:
        j = NEAR[v] if NEAR[v] < len(a) else 0
        a[j] = a[j] * (1 + 1e-9 * (1 + NEAR[v]))
    if single:
        a = [x[:, 0].copy() if x.ndim == 2 else (float(x[0]) if x.ndim == 1 and (a[0].ndim == 2 or len(a) > 0) else x) for x in a]
    if v == 'f32':
        a = [x.astype(np.float32) for x in a]
        if fn in SOLVES:
            kw = dict(solver_options=dict(tol=1e-5))
    if v == 'deg':
        kw['degrees'] = True
    if v == 'opt':
        kw['solver_options'] = dict(tol=1e-2, max_iter=1)
    return a, kw


def orbit_arguments(fn, v, single):
    kw = dict(M0=1.0, G=1.0, m=np.array([.1, .2, .3]), num=3)
    el = {k: np.array(x) for k, x in ORB.items()}
    if v == 'one':
        el['a'] = el['a'] * 1.2
    elif v == 'two':
        kw['m'] = kw['m'] * 2
    elif v == 'three':
        kw['M0'] = 1.7
    elif v in NEAR:
        k = ('a', 'e', 'anom')[NEAR[v]]
        el[k] = el[k] * (1 + 1e-9)
    if single:
        el = {k: x[:1] for k, x in el.items()}
        kw.update(num=1, m=kw['m'][:1])
    if v == 'f32':
        kw.update(dtype=np.float32, solver_options=dict(tol=1e-5))
    elif v == 'deg':
        kw['degrees'] = True
    elif v == 'opt':
        kw['solver_options'] = dict(tol=1e-2, max_iter=1)
    if fn in ('orbit_anomalies', 'orbit_propagate'):
        kw['type'] = 'mean'
    kw.update(el)
    return [], kw


_decorated = {}


def decorated(pyorb):
    if pyorb.unit not in _decorated:
        _decorated.clear()

        @pyorb.unit.angle_units([0], ['y'], [0])
        def f(x, y):
            return x + 2 * y, y * 1.0
        _decorated[pyorb.unit] = f
    return _decorated[pyorb.unit]


def call(pyorb, fn, a, kw):
    if fn == 'decorated':
        return decorated(pyorb)(a[0], y=a[1], **kw)
    if fn not in ORBITS:
        return (pyorb.get_G if fn == 'get_G' else getattr(pyorb.kepler, fn))(*a, **kw)
    kw = dict(kw)
    orb = pyorb.Orbit(kw.pop('M0'), **kw)
    if fn == 'orbit_cartesian':
        out = orb.cartesian
    elif fn == 'orbit_kepler':
        c = orb.cartesian
        orb.cartesian = c * 1.01
        out = orb.kepler
    elif fn == 'orbit_anomalies':
        out = np.array([orb.true_anomaly, orb.eccentric_anomaly, orb.mean_anomaly])
        orb.type = 'true'
        out = [out, orb.kepler, orb.period, orb.true_anomaly]
    elif fn == 'orbit_propagate':
        orb.propagate(.3)
        out = orb.kepler
    else:
        out = [str(orb), str(orb[0]), np.array(len(orb))]
    return [out, orb]


def parts(r):
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in parts(x)]
    return [r]


def copies(r):
    return [np.array(x) for x in parts(r) if isinstance(x, (np.ndarray, float, int, np.generic, str))] + \
           [dict(x.solver_options) for x in parts(r) if hasattr(x, 'solver_options')]


def differ(x, y):
    if len(x) != len(y):
        return f'{len(x)} values instead of {len(y)}'
    for p, q in zip(x, y):
        if isinstance(p, dict) or isinstance(q, dict):
            if p != q:
                return f'options {p} instead of {q}'
            continue
        if p.dtype != q.dtype or p.shape != q.shape:
            return f'{p.dtype}{p.shape} instead of {q.dtype}{q.shape}'
        if p.dtype.kind in 'USbi':
            if not np.array_equal(p, q):
                return f'{p} instead of {q}'
        else:
            s = np.max(np.abs(np.where(np.isfinite(q), q, 0)), initial=0)
            with np.errstate(all='ignore'):
                ok = (p == q) | (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= 1e-13 * s)
            if not np.all(ok):
                return f'{p.ravel()[~ok.ravel()][:3]} instead of {q.ravel()[~ok.ravel()][:3]}'
    return None


def spoil(r):
    for x in parts(r):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == 'f':
            x[...] = -7.5
        elif hasattr(x, 'solver_options'):
            x.solver_options.update(tol=1.0, max_iter=0)
            x.kepler = np.full((6, x.num), .4)
            x.G = 5.0


def overwrite(old, new):
    """Write the numbers of new into the objects of old (kept objects), return what is passed from now on."""
    if isinstance(old, np.ndarray) and np.shape(new) == old.shape:
        old[...] = new
        return old
    return new


def failing(pyorb, fn, how):
    a, kw = arguments(fn, 'base')
    try:
        if how == 'shape':
            a = [x[..., :2] if j == 0 and isinstance(x, np.ndarray) else x for j, x in enumerate(a)]
            kw = {k: (np.ones(2) if k in ('e', 'm') else x) for k, x in kw.items()}
            if not a and not kw:
                return
        elif how == 'text':
            if a:
                a[-1] = 'text'
            else:
                kw['e'] = 'text'
        else:
            kw['solver_options'] = dict(no_such_option=1)
        with core.time_limit(20):
            call(pyorb, fn, a, kw)
    except core.Timeout:
        raise
    except Exception:
        pass


class Moment:
    """Runs fn; when the n-th line of the library is reached another call is made from another thread."""
    def __init__(self, root, n, other):
        self.root, self.n, self.other, self.seen, self.thread = root, n, other, 0, None

    def line(self, frame, event, arg):
        if event == 'line':
            self.seen += 1
            if self.seen == self.n and self.other:
                self.thread = threading.Thread(target=self.other, daemon=True)
                self.thread.start()
                self.thread.join(5)
        return self.line

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def run(self, f):
        sys.settrace(self.enter)
        try:
            return f()
        finally:
            sys.settrace(None)
            if self.thread:
                self.thread.join(20)


def first(part):
    """The values of first calls: every one of a library that was just imported."""
    out = []
    for fn, v in part:
        try:
            pyorb = core.load_pyorb()
            with core.time_limit(20):
                a, kw = arguments(fn, v)
                r = copies(call(pyorb, fn, a, kw))
            pyorb = core.load_pyorb()
            m = Moment(os.path.join(os.path.realpath(core.REPO), 'pyorb'), -1, None)
            a, kw = arguments(fn, v)
            with core.time_limit(20):
                m.run(lambda: call(pyorb, fn, a, kw))
            out.append(((fn, v), (r, m.seen)))
        except core.Timeout:
            out.append(((fn, v), ('no answer within the time limit', 0)))
        except Exception as ex:
            out.append(((fn, v), (f'raised {type(ex).__name__}: {ex}', 0)))
    return out


def called(kind, flag):
    pass


def settings(w):
    """Floating point errors, printing of arrays, warnings and random numbers of the whole process."""
    np.seterrcall(called)
    np.seterr(all='ignore' if w == 'silent' else 'call')
    np.set_printoptions(precision=4 if w == 'digits' else 8)


def shared():
    p = np.get_printoptions()
    r = np.random.get_state()
    return dict(floating_point_errors=np.geterr(), error_call=np.geterrcall(), printing=p, buffer=np.getbufsize(),
                warnings=[tuple(map(str, f)) for f in warnings.filters], numpy_random=(str(r[1].tobytes()), r[2]), random=random.getstate(),
                decimals=decimal.getcontext().prec, limit=sys.getrecursionlimit())


def play(pyorb, rec, values):
    old = np.get_printoptions(), np.getbufsize(), sys.getrecursionlimit(), random.getstate()
    try:
        with np.errstate(all='call', call=called), warnings.catch_warnings():
            return steps(pyorb, rec, values)
    finally:
        np.set_printoptions(**old[0])
        np.setbufsize(old[1])
        sys.setrecursionlimit(old[2])
        random.setstate(old[3])


def steps(pyorb, rec, values):
    settings('calls')
    before = shared()
    store = []      # argument objects of the calls
    held = []       # [result, copy]
    mine = set()

    def value(f, v):
        w = values[f, v][0]
        if isinstance(w, str):
            raise RuntimeError(f'{f} ({v}) of a new process {w}')
        return w
    for n, st in enumerate(rec['hist']):
        op = st['op']
        what = f'step {n + 1} ({op} {st["f"]} {st["v"]})'
        if op in ('call', 'again'):
            a, kw = arguments(st['f'], st['v']) if op == 'call' else store[st['k'] - 1]
            r = call(pyorb, st['f'], a, kw)
            store.append((a, kw) if op == 'call' else store[st['k'] - 1])
            held.append([r, copies(r)])
            d = differ(held[-1][1], value(st['f'], st['v']))
            if d:
                return f'{what} gives {d} of the first call of a new process'
        elif op == 'over':
            a, kw = store[st['k'] - 1]
            b, kb = arguments(st['f'], st['v'])
            a[:] = [overwrite(x, y) for x, y in zip(a, b)]
            for key in kb:
                kw[key] = overwrite(kw.get(key), kb[key])
        elif op == 'spoil':
            spoil(held[st['k'] - 1][0])
            mine.add(st['k'] - 1)
        elif op == 'fail':
            failing(pyorb, st['f'], st['v'])
        elif op == 'settings':
            settings(st['v'])
            before = shared()
        elif op == 'overlap':
            a, kw = arguments(st['f'], st['v'])
            b, kb = arguments(st['g'], st['w'])
            got = []

            def other():
                with np.errstate(all='ignore'):
                    try:
                        got.append(call(pyorb, st['g'], b, kb))
                    except Exception as ex:
                        got.append(ex)
            lines = values[st['f'], st['v']][1]
            # moments are spread over the lines that are passed; 0 is the very first one
            at = 1 + round((lines - 1) * st['at'] / 40)
            m = Moment(os.path.join(os.path.realpath(core.REPO), 'pyorb'), at, other)
            r = m.run(lambda: call(pyorb, st['f'], a, kw))
            if not got:
                if m.thread is None:
                    other()
                else:
                    return f'{what}: {st["g"]} does not come back while {st["f"]} is under way'
            if isinstance(got[0], Exception):
                return f'{what}: {st["g"]} ({st["w"]}) raised {type(got[0]).__name__}: {got[0]} during it'
            for f, v, x, y in ((st['f'], st['v'], r, (a, kw)), (st['g'], st['w'], got[0], (b, kb))):
                store.append(y)
                held.append([x, copies(x)])
                d = differ(held[-1][1], value(f, v))
                if d:
                    return f'{what} with {st["g"]} {st["w"]} in the middle: {f} {v} gives {d} of the first call of a new process'
        now = shared()
        for key in now:
            if now[key] != before[key]:
                return f'{what} changed a setting of the whole process: {key}: {str(before[key])[:150]} became {str(now[key])[:150]}'
        for k, (r, c) in enumerate(held):
            if k not in mine:
                d = differ(copies(r), c)
                if d:
                    return f'{what}: the result of call {k + 1}, held since, became {d}'
    return None


def alone(pyorb, rec, values):
    """The history after whatever this process did before; if something is wrong, also in a library that was just imported."""
    x = play(pyorb, rec, values)
    if x:
        y = play(core.load_pyorb(), rec, values)
        return y or x + ' (after other calls: alone this history passes)'
    return None


ALL = ['base', 'one', 'two', 'three', 'near', 'near2', 'near3', 'shape', 'f32', 'deg', 'opt', 'default',
       'shape+one', 'shape+two', 'shape+three', 'shape+near', 'shape+near2', 'shape+near3', 'shape+deg', 'shape+opt']
FNS = calls.PAIRS + calls.STATES + [f for f in calls.NAMES if f.startswith('stumpff')] + \
    ['true_of_the_asymptote', 'euler_rotation_matrix', 'rot_mat_x', 'rot_mat_y', 'rot_mat_z', 'get_G', 'laguerre_solve_kepler', 'kep_equivalent', 'decorated'] + \
    list(CAST) + ORBITS


def describe(rec):
    out = []
    for x in rec['hist']:
        o = f'{x["op"]} {x["f"]}'
        if x['op'] in ('again', 'over', 'spoil'):
            o += f' #{x["k"]}'
        if x['v']:
            o += ' ' + x['v']
        if x['op'] == 'overlap':
            o += f' / {x["g"]} {x["w"]} at {x["at"]}'
        out.append(o)
    return '; '.join(out)


def suite(prop, rep, T):
    if prop != 'C29':
        return
    q = lambda a, b: b if T else a
    F = set(FNS)
    base = dict(Fns=F, Aspects=set(ALL), Others=set(), OtherAspects={'base'}, Ops={'call'}, Depth=2, Moments={0}, Single=True)
    some = {'mean_to_true', 'kep_to_cart', 'cart_to_kep', 'equi_to_cart', 'orbit_anomalies', 'orbit_kepler'}
    S = [dict(name='one-function', c=dict(base, Depth=q(2, 3))),
         dict(name='kept-and-overwritten', c=dict(base, Aspects=q({'base', 'two'}, {'base', 'one', 'two', 'shape'}),
                                                  Ops={'call', 'again', 'over', 'spoil', 'fail'}, Depth=3)),
         dict(name='two-functions', c=dict(base, Aspects=q({'base'}, {'base', 'deg', 'opt', 'f32'}), Single=False)),
         dict(name='overlapping', c=dict(base, Aspects=q({'base', 'shape', 'deg'}, set(ALL)), OtherAspects=q({'one', 'shape+one'}, {'one', 'two', 'shape', 'shape+two', 'deg', 'opt'}),
                                         Others=F, Ops={'overlap'}, Depth=1, Moments=set(range(41)))),
         dict(name='overlapping-functions', c=dict(base, Fns=q(some, F), Others=F, Aspects={'base'}, Single=False,
                                                   Ops={'overlap'}, Depth=1, Moments=q({17}, {5, 17, 29, 35})))]
    rng = random.Random(core.SEED)
    for j in range(q(6, 60)):
        one = j % 2
        f = set(rng.sample(FNS, 3 if one else 5))
        S.append(dict(name=f'long-{j}', sim=q(25, 60), k=j, c=dict(base, Fns=f, Others=f, Aspects=set(rng.sample(ALL, 5)) | {'base'}, OtherAspects=set(rng.sample(ALL[1:], 2)) | {'base'},
                      Ops={'call', 'again', 'over', 'spoil', 'fail', 'overlap', 'settings', 'stop'}, Depth=14, Moments={rng.randint(1, 39)}, Single=bool(one))))
    values = {}

    def prepare():
        values.update(core.pool_map(first, [(f, v) for f in FNS for v in ALL]))
    explore(rep, 'Memory', S, lambda pyorb, rec, salt: alone(pyorb, rec, values), ['Paired'], ['HeldStill', 'Fresh', 'Untouched'], kind='memory', limit=60,
            describe=describe, prepare=prepare)
