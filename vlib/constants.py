"""Replays Constants.tla on pyorb.const; every history uses names of its own for new constants."""
import importlib
import math

import numpy as np

from . import core
from .driver import explore

PI = math.pi
DOC = dict(pi=PI, e=math.e, _2pi=2 * PI, _4pi=4 * PI, c=299792458.0, G=6.6743e-11, wgs84_a=6378137.0, wgs84_invf=298.257223563,
           wgs84_f=1 / 298.257223563, wgs84_omega=7292115e-11, wgs84_GM=3986004.418e8, AU=1.495978707e11, M_sol=1.98847e30,
           GM_sol=1.32712440018e20, K_a=0, K_e=1, K_i=2, K_om=3, K_OM=4, K_nu=5, E_a=0, E_h=1, E_k=2, E_p=3, E_q=4, E_lam=5)
VAL = {1: 17, 2: 17.0, 3: 'text', 4: 2.5, 5: None, 6: 19, 7: (1, 2), 8: math.nextafter(17.0, 18.0), 9: '17', 10: 'TEXT'}
_count = [0]


def documented(const, where):
    """The documented values and relations."""
    for n, v in DOC.items():
        g = getattr(const, n)
        if not (g == v if isinstance(v, int) else abs(g - v) <= 1e-15 * abs(v)):
            return f'{where}: {n} is {g!r}, not {v!r}'
    g = const.wgs84_M_earth
    if not abs(g * const.G - const.wgs84_GM) <= 1e-15 * const.wgs84_GM:
        return f'{where}: wgs84_M_earth {g!r} times G is not wgs84_GM'
    # what is exact by definition: speed of light, astronomical unit rounded to the metre, flattening
    if abs(const.AU - 149597870700.0) > 1 or not 0.99 < const.GM_sol / (const.G * const.M_sol) < 1.01:
        return f'{where}: AU {const.AU!r}, GM_sol {const.GM_sol!r}, G M_sol {const.G * const.M_sol!r}'
    return None


def snapshot(const):
    return {n: getattr(const, n) for n in list(DOC) + ['wgs84_M_earth']}


def play(pyorb, rec, salt):
    const = pyorb.const
    _count[0] += 1
    tag = f'_{salt}_{_count[0]}'
    hs = dict(module=const)
    before = snapshot(const)
    exported = (pyorb.G, pyorb.AU, pyorb.M_sol, pyorb.GM_sol, pyorb.GM_earth, pyorb.M_earth)
    builtin = set(DOC) | {'wgs84_M_earth'}
    defined = {}
    for n, st in enumerate(rec['hist']):
        if st['op'] == 'handle':
            hs[st['h']] = {'instance': lambda: type(const)(), 'instance2': lambda: type(hs.get('instance', const))(),
                           'import': lambda: importlib.import_module('pyorb.const'), 'attribute': lambda: pyorb.kepler.__dict__.get('const', pyorb.const)}[st['h']]()
        else:
            h = hs[st['h']]
            name = st['n'] if st['n'] in builtin else st['n'] + tag
            v = None
            if st['op'] == 'set':
                if st['v'] == 0:
                    v = before[name]
                elif st['v'] == 100:
                    v = np.float64(before[name]) if isinstance(before[name], float) else float(before[name])
                elif st['v'] > 100:
                    b = before[name]
                    v = {101: lambda: float(np.nextafter(b, np.inf)), 102: lambda: b * (1 + 2e-8) if b else 1e-9, 103: lambda: -b if b else -1e-300,
                         104: lambda: str(b)}[st['v']]()
                else:
                    v = VAL[st['v']]
            what = f'step {n + 1}: {st["op"]} {name}' + (f' = {v!r}' if st['op'] == 'set' else '') + f' through {st["h"]}'
            try:
                if st['way'] == 'statement':
                    if st['op'] == 'set':
                        exec(f'h.{name} = v', dict(h=h, v=v))
                    else:
                        exec(f'del h.{name}', dict(h=h))
                elif st['op'] == 'set':
                    setattr(h, name, v)
                else:
                    delattr(h, name)
                out = 'ok'
            except Exception as ex:
                out = ('ConstError' if isinstance(ex, const.ConstError) else type(ex).__name__)
                if out == 'ConstError' and not isinstance(ex, TypeError):
                    return f'{what}: ConstError is no TypeError'
            if out != st['out']:
                return f'{what} ended with {out}, not {st["out"]}'
            if st['op'] == 'set' and st['out'] == 'ok' and name not in builtin and name not in defined:
                defined[name] = v
        for hn, h in hs.items():
            for name, v in list(defined.items()) + ([(b, before[b]) for b in ('G', 'pi', 'K_nu')] if n + 1 < len(rec['hist']) else list(before.items())):
                try:
                    g = getattr(h, name)
                except AttributeError:
                    return f'after step {n + 1}: {name} cannot be read through {hn}'
                if not (g == v and type(g) is type(v)):
                    return f'after step {n + 1}: {name} read through {hn} is {g!r}, not {v!r}'
    for name in {x['n'] for x in rec['hist'] if x['op'] in ('set', 'del')} - builtin:
        if name + tag not in defined and any(hasattr(h, name + tag) for h in hs.values()):
            return f'{name} exists although it was never assigned'
    want = {(x[0] if x[0] in builtin else x[0] + tag): x[1] for x in rec['store']}
    if set(defined) != set(want) - builtin:
        return f'defined are {sorted(defined)}, not {sorted(want)}'
    if (pyorb.G, pyorb.AU, pyorb.M_sol, pyorb.GM_sol, pyorb.GM_earth, pyorb.M_earth) != exported:
        return 'the constants exported by the package changed'
    for name, v in zip(('G', 'AU', 'M_sol', 'GM_sol', 'wgs84_GM', 'wgs84_M_earth'), exported):
        if v != getattr(const, name):
            return f'pyorb exports {v!r} for {name}, the constant is {getattr(const, name)!r}'
    return documented(const, 'afterwards')


def describe(rec):
    return '; '.join(f'{x["op"]} {x["n"]} {x["v"] if x["op"] == "set" else ""} via {x["h"]}' for x in rec['hist'])


def suite(prop, rep, T):
    if prop != 'C26':
        return
    q = lambda a, b: b if T else a
    H = {'instance', 'instance2', 'import', 'attribute'}
    W = {'statement', 'function'}
    B = set(DOC) | {'wgs84_M_earth'}
    base = dict(Builtin={'G'}, New={'alpha'}, Values={0, 100, 1, 2, 4}, Handles=H, Ways={'statement'}, Depth=3, EmitReads=False)
    s = [dict(name='every-constant', c=dict(base, Builtin=B, New=set(), Handles={'instance'}, Ways=W, Depth=2, Values={0, 100, 101, 102, 103, 104, 1, 3, 4, 5, 6})),
         dict(name='new-names', c=dict(base, New={'alpha', 'beta'}, Values={1, 2, 3, 5, 6, 7, 8, 9, 10}, Handles={'instance'}, Depth=q(3, 4))),
         dict(name='handles', c=dict(base, Values={0, 1, 2, 4}, Depth=q(4, 5), Handles=q({'instance', 'import', 'instance2'}, H))),
         dict(name='histories', sim=q(20, 200), c=dict(base, Builtin={'G', 'pi', 'K_nu', '_2pi', 'wgs84_M_earth'}, New={'alpha', 'beta', '_x', 'K_z'}, Values={0, 100, 101, 102, 103, 104, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10},
                                                       Ways=W, Depth=12))]
    explore(rep, 'Constants', s, play, ['Documented'], ['WriteOnce', 'RejectedIsNothing'], view='View', kind='constants', describe=describe)
