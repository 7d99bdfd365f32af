"""Replays the rotation sequences of Rotations.tla on the rotation matrices of the library."""
import itertools
import math
import random

import numpy as np

from . import core
from .driver import explore

pi = math.pi
F = lambda q: q[0] / q[1]
PAD = [0.3, -2.0, 5.5]


def euler_oracle(i, w, W):
    def R(x, t):
        c, s = math.cos(t), math.sin(t)
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]] if x == 'x' else [[c, -s, 0], [s, c, 0], [0, 0, 1]])
    return R('z', W) @ R('x', i) @ R('z', w)


def play(pyorb, rec, salt):
    k = pyorb.kepler
    rnd = random.Random(f'{core.SEED} {salt}')
    fn = dict(x=k.rot_mat_x, y=k.rot_mat_y, z=k.rot_mat_z)
    h = rec['h']
    want = np.array([[F(q) for q in row] for row in rec['m']])
    ang = [math.atan2(F(s['dir'][1]), F(s['dir'][0])) + 2 * pi * s['turns'] for s in h]
    for dt in (None, np.float64, np.float32):
        P = np.eye(3)
        for s, t in zip(h, ang):
            x = t if salt % 2 else np.float64(t)
            M = fn[s['axis']](x) if dt is None else fn[s['axis']](x, dtype=dt)
            tol = (1e-6 if dt is np.float32 else 2e-15) * (1 + abs(t) / 4)
            if not isinstance(M, np.ndarray) or M.shape != (3, 3) or M.dtype != (dt or np.float64):
                return f'rot_mat_{s["axis"]}({x!r}, dtype={dt}) has shape {getattr(M, "shape", None)}, type {getattr(M, "dtype", None)}'
            if not np.abs(M.T @ M - np.eye(3)).max() < tol or not abs(np.linalg.det(M) - 1) < 3 * tol:
                return f'rot_mat_{s["axis"]}({x!r}, dtype={dt}) = {M.tolist()} is no proper rotation'
            P = P @ M
        tol = sum((1e-6 if dt is np.float32 else 3e-15) * (1 + abs(t) / 4) for t in ang)
        if not np.abs(P - want).max() < tol:
            return f'the product of rot_mat for {[(s["axis"], t) for s, t in zip(h, ang)]}, dtype {dt}, is {P.tolist()}, not {want.tolist()}'
    if [s['axis'] for s in h] != ['z', 'x', 'z']:
        return None
    W, i, w = ang
    exact = all(s['ang'] <= 4 for s in h)
    for deg in (False, True):
        A = 180 / pi if deg else 1.0
        for form in itertools.product('saif', repeat=3):
            # s: number, a: array, i: whole degrees, f: single precision (multiples of a right angle)
            if ('i' in form or 'f' in form) and (not deg or not exact or rnd.random() < 0.5):
                continue
            whole = lambda v: int(round(math.degrees(v)))
            args, cols = [], []
            form = [rnd.choice('iI') if f == 'i' else rnd.choice('fF') if f == 'f' else f for f in form]
            arr = any(f in 'aIF' for f in form)
            n = rnd.choice((1, 3, 4)) if arr else 1
            pos = rnd.randrange(n)
            for v, f, off in zip((i, w, W), form, (0, 1, 2)):
                if f == 's':
                    args.append(v * A)
                    cols.append([v] * n)
                elif f in 'if':
                    args.append(rnd.choice((int, np.int64, np.int32))(whole(v)) if f == 'i' else np.float32(whole(v)))
                    cols.append([v] * n)
                elif f in 'IF':
                    c = [17 * off + 31 * j - 8 for j in range(n)]
                    c[pos] = whole(v)
                    args.append(np.array(c, dtype=rnd.choice((np.int64, np.int32)) if f == 'I' else np.float32))
                    cols.append([math.radians(q) for q in c])
                else:
                    c = [PAD[(off + j) % 3] + j for j in range(n)]
                    c[pos] = v
                    cols.append(c)
                    args.append(np.array(c) * A)
            before = [np.copy(a) for a in args]
            how = rnd.randrange(3)
            if how == 0:
                M = k.euler_rotation_matrix(*args, degrees=deg)
            elif how == 1:
                M = k.euler_rotation_matrix(inc=args[0], omega=args[1], Omega=args[2], degrees=deg)
            else:
                M = k.euler_rotation_matrix(*args) if not deg else k.euler_rotation_matrix(*args, deg)
            call = f'euler_rotation_matrix({", ".join(repr(a) for a in args)}, degrees={deg})'
            shape = (3, 3, n) if arr else (3, 3)
            if M.shape != shape:
                return f'{call} has the shape {M.shape}, not {shape}'
            for a, b in zip(args, before):
                if not np.array_equal(a, b):
                    return f'{call} changed its arguments'
            for j in range(n):
                X = M[..., j] if arr else M
                tol = (2e-7 if 'f' in form or 'F' in form else 3e-15) * (3 + sum(abs(c[j]) for c in cols))
                e = want if j == pos else euler_oracle(*[c[j] for c in cols])
                if not np.abs(X - e).max() < tol:
                    return f'{call}: matrix {j} is {X.tolist()}, not {e.tolist()} = Rz(Omega) Rx(i) Rz(omega)'
    return None


INV = ['Orthonormal', 'Proper', 'Associative', 'Named', 'Adds']


def suite(prop, rep, T):
    if prop != 'C22':
        return
    A = set(range(1, 12))
    s = [dict(name='sequences', c=dict(Angles=A, Axes={'x', 'y', 'z'}, Turns={1}, Depth=2)),
         dict(name='turns', c=dict(Angles={5, 7, 10, 2}, Axes={'x', 'y', 'z'}, Turns={1, 2, 3, 4, 5}, Depth=1 if not T else 2)),
         dict(name='deep', c=dict(Angles={2, 5} if not T else {2, 5, 7}, Axes={'x', 'y', 'z'}, Turns={1}, Depth=4))]
    for j in ({1, 5, 9}, {2, 6, 10}, {3, 7, 11}, {4, 8}) if not T else ({1, 2, 5, 9, 10}, {3, 4, 6, 7, 11}, {8, 5, 10, 2, 7}):
        s.append(dict(name='three', c=dict(Angles=j, Axes={'x', 'z'}, Turns={1}, Depth=3)))
    explore(rep, 'Rotations', s, play, INV, kind='rotations', salts=1 if not T else 4)
