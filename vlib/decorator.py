"""Replays Decorator.tla on pyorb.unit.angle_units."""
import math

import numpy as np

from . import core
from .driver import explore

pi = math.pi
NAMES = ('p', 'q', 's', 'k')
INDS = [None, None, [0], [1], [0, 2], (0, 1, 2), [], [2]]
KEYS = [None, None, ['p'], ['k'], ('q', 'k'), ['p', 'q', 's', 'k'], [], ['s', 'other']]
OUTS = [None, None, True, [0], (1,), [0, 2], [2, 0, 1], []]
MISSING = 'missing'


def argument(form, j, salt):
    v = 10.0 + 35 * j + salt % 7
    return {'float': v, 'int': int(v), 'array': np.array([v, -v, 3 * v]), 'ints': np.array([int(v), 400]), 'f4': np.array([v], dtype=np.float32),
            'list': [v, 2 * v], 'np': np.float64(v), 'empty': np.array([]), 'matrix': np.array([[v, 1.0], [2.0, 3.0]])}[form]


def same(x, y):
    return x is y or (type(x) is type(y) and np.array_equal(x, y) and getattr(x, 'dtype', None) == getattr(y, 'dtype', None))


def close(x, y):
    x, y = np.asarray(x), np.asarray(y)
    t = 1e-6 if x.dtype == np.float32 else 1e-14
    return x.shape == y.shape and np.all(np.abs(x - y) <= t * np.abs(y))


def copied(x):
    return x.copy() if isinstance(x, (np.ndarray, list)) else x


def play(pyorb, hist, salt):
    angle_units = pyorb.unit.angle_units
    wrapped, seen, rets = [], {}, {}
    for n, st in enumerate(hist):
        if st['op'] == 'decorate':
            m = len(wrapped)

            def f(p=MISSING, q=MISSING, s=MISSING, *, k=MISSING, _m=m, **rest):
                seen[_m] = dict(p=p, q=q, s=s, k=k, rest=rest)
                return rets[_m]
            inds, keys, out = INDS[st['inds']], KEYS[st['keys']], OUTS[st['out']]
            decl = (copied(inds), copied(keys), copied(out) if isinstance(out, list) else out)
            if st['dflt']:
                w = angle_units(inds, keys, out, degrees=True)(f)
            elif salt % 2:
                w = angle_units(inds, keys, out)(f)
            else:
                w = angle_units(inds, keys, out, False)(f)
            wrapped.append((w, (inds, keys, out), decl))
            continue
        m = st['n'] - 1
        w, given, decl = wrapped[m]
        form, ret = st['form'], st['ret']
        args = [argument(form, j, salt) for j in range(st['npos'])]
        kws = {x: argument(form, NAMES.index(x), salt) for x in st['kw']}
        keep_a, keep_k = [copied(a) for a in args], {x: copied(a) for x, a in kws.items()}
        objs = dict(kws)
        if ret == 'scalar':
            r = 0.7 + salt % 5
        elif ret == 'array':
            r = np.array([0.5, -1.0, 7.0])
        elif ret == 'nothing':
            r = None
        else:
            r = [1.1, np.array([0.2, 0.3]), 2.5]
            r = tuple(r) if ret == 'tuple' else r
        rets[m] = r
        items = list(r) if ret in ('tuple', 'list') else None
        keep_r = copied(r) if items is None else [copied(x) for x in items]
        flag = {'absent': {}, 'true': dict(degrees=True), 'false': dict(degrees=False)}[st['flag']]
        call = (f'step {n + 1}: angle_units({given[0]}, {given[1]}, {given[2]}, degrees={[s for s in hist if s["op"] == "decorate"][m]["dflt"]}), called with '
                f'{args}, {kws}, {flag}')
        seen.pop(m, None)
        got = w(*args, **kws, **flag)
        if m not in seen:
            return f'{call}: the function was not called'
        s = seen[m]
        if s['rest']:
            return f'{call}: the function received the keywords {s["rest"]}'
        want = {x: ('', MISSING) for x in NAMES}
        for j, u in enumerate(st['positional']):
            want[NAMES[j]] = (u, args[j])
        kunits = st['keyword'] if isinstance(st['keyword'], dict) else {}
        for x in st['kw']:
            want[x] = (kunits[x], kws[x])
        orig = {NAMES[j]: a for j, a in enumerate(keep_a)}
        orig.update(keep_k)
        for x, (u, v) in want.items():
            if u == 'rad':
                if isinstance(s[x], str) or not close(s[x], np.asarray(orig[x], dtype=float) * (pi / 180)):
                    return f'{call}: {x} arrived as {s[x]!r}, it was {orig[x]!r} degrees'
            elif u == 'raw':
                if not same(s[x], v):
                    return f'{call}: {x} arrived as {s[x]!r} instead of {v!r}'
            elif not isinstance(s[x], str) or s[x] != MISSING:
                return f'{call}: {x} was not given but arrived as {s[x]!r}'
        # the caller's objects
        for a, b in list(zip(args, keep_a)) + [(objs[x], keep_k[x]) for x in kws]:
            if not (type(a) is type(b) and np.array_equal(a, b) and getattr(a, 'dtype', 0) == getattr(b, 'dtype', 0)):
                return f'{call}: an argument of the caller was changed from {b!r} to {a!r}'
        if [copied(x) if isinstance(x, list) else x for x in given] != list(decl):
            return f'{call}: the declaration changed to {given}'
        # results
        if items is None:
            if st['whole'] == 'deg':
                if not close(got, np.asarray(keep_r) * (180 / pi)):
                    return f'{call}: returned {got!r} for {keep_r!r} radians'
            elif not same(got, r):
                return f'{call}: returned {got!r} instead of {r!r}'
            if not same(copied(r), keep_r):
                return f'{call}: the object returned by the function was changed'
        else:
            if not st['deg'] and got is not r:
                return f'{call}: returned {got!r}, not the very object {r!r}'
            if not isinstance(got, (tuple, list)) or len(got) != 3:
                return f'{call}: returned {got!r}'
            for j, u in enumerate(st['parts']):
                if u == 'deg':
                    if not close(got[j], np.asarray(keep_r[j]) * (180 / pi)):
                        return f'{call}: result {j} is {got[j]!r} for {keep_r[j]!r} radians'
                elif not same(got[j], items[j]):
                    return f'{call}: result {j} is {got[j]!r}, not {items[j]!r}'
            for x, y in zip(items, keep_r):
                if not np.array_equal(x, y):
                    return f'{call}: the objects returned by the function were changed'
            if isinstance(r, list) and not all(x is y for x, y in zip(r, items)):
                return f'{call}: the list returned by the function was changed'
    return None


FORMS = {'float', 'int', 'array', 'ints', 'f4', 'list', 'np', 'empty', 'matrix'}


def suite(prop, rep, T):
    if prop != 'C25':
        return
    q = lambda a, b: b if T else a
    A = set(range(1, 8))
    both, flags, rets = {False, True}, {'absent', 'true', 'false'}, {'scalar', 'array', 'tuple', 'list', 'nothing'}
    base = dict(Inds=A, Keys=A, Outs=A, Defaults=both, Flags=flags, ArgForms={'float'}, RetForms={'tuple'}, MaxFun=1, Depth=2)
    s = [dict(name='inputs', c=dict(base, Outs={1}, ArgForms=q({'array'}, {'float', 'array'}))),
         dict(name='outputs', c=dict(base, Inds={1, 2, 4}, Keys={1, 3}, ArgForms={'float'}, RetForms=rets)),
         dict(name='forms', c=dict(base, Inds={4}, Keys={4}, Outs={1, 5}, ArgForms=FORMS, RetForms={'tuple', 'list'})),
         dict(name='two-functions', c=dict(base, Inds=q({1, 5}, {1, 2, 5}), Keys=q({1}, {1, 4}), Outs={2, 5}, Flags=flags, ArgForms={'array'},
                                           RetForms={'array', 'list'}, MaxFun=2, Depth=3), sim=q(100, 1500)),
         dict(name='sessions', sim=q(8, 60), c=dict(base, ArgForms=FORMS, RetForms=rets, MaxFun=3, Depth=6))]
    explore(rep, 'Decorator', s, play, ['Plain', 'Declared'], ['Fixed'], view='View', kind='decorator', describe=lambda h: f'{len(h)} steps')
