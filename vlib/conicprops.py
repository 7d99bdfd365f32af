"""Which paths of Conic.tla are explored for which property."""
from . import conic

ALL = set(range(1, 12))
BASE = dict(Eccs=ALL, Tans=set(range(1, 13)), Incs={1, 2, 3, 5, 6}, Oms={1, 2, 5, 7}, OMs={1, 3, 6, 8},
            Scales={1, 2, 3, 4, 5}, MaxLen=1, Mix=True)
W = list(conic.WAYS)
ANOM = {'t2E', 'E2t', 'M2E', 'E2M', 't2M', 'M2t'}
EQUI = {'k2e', 'e2k', 'c2e', 'e2c', 'k2eT', 'e2kT'}
VAL = {'radius', 'speed', 'angmom', 'period', 'euler'}


def c(fns, start, last=None, **kw):
    d = dict(BASE, Fns=set(fns), LastFns=set(last or fns), Start=set(start))
    d.update(kw)
    return d


def by_ecc(name, consts, ways, groups):
    """The same exploration, split over several TLC processes by eccentricity."""
    return [(f'{name}-{i}', dict(consts, Eccs=set(g)), ways) for i, g in enumerate(groups)]


G3 = [{1, 5, 2, 9}, {3, 6, 10, 4}, {7, 8, 11}]


def suites(prop, T):
    q = lambda a, b: b if T else a
    wide = dict(Incs={1, 2, 3, 5, 6, 9}, Oms=set(range(1, 12)), OMs=set(range(1, 12)))
    mid = dict(Oms={1, 2, 4, 5, 6}, OMs={1, 3, 5, 6, 8})
    few = q(['array', 'array-deg', 'single-si-deg'], W)
    S = {
        'C12': lambda: [('two-body-values', c(VAL - {'euler'}, {'T'}, Incs={2, 5}, Oms={2, 5}, OMs={1, 6}, Mix=not T), W)],
        'C13': lambda: by_ecc('equinoctial-paths',
                              c(EQUI, {'T', 'M', 'cart', 'equi', 'equiT'}, MaxLen=q(2, 3), Tans=q({1, 3, 4, 8, 9, 12}, BASE['Tans']),
                                Incs=q({1, 2, 5, 6}, {1, 2, 5, 6, 9}), Oms=q({1, 5, 7}, {1, 2, 5, 7}), OMs=q({1, 6, 8}, {1, 3, 6, 8})),
                              few, [{1, 9}, {2, 11}, {3, 4}]),
        'C14': lambda: by_ecc('placing', c({'k2c'}, {'T'}, **q(mid, dict(wide, Mix=True))), W if T else
                              ['array', 'array-deg', 'si', 'single-deg', 'single-si-deg'], G3) +
               [('distance-speed-momentum', c({'radius', 'speed', 'angmom'}, {'T'}, Incs={2, 5}, Oms={2, 5}, OMs={1}, Mix=False), W)],
        'C15': lambda: by_ecc('canonical', c({'c2k'}, {'cart'}, **q(mid, wide)), W if T else
                              ['array', 'array-deg', 'si', 'single-deg', 'single-si-deg'], G3) +
               by_ecc('there-and-back', c({'c2k', 'k2c'}, {'cart', 'T'}, last={'c2k', 'k2c'}, MaxLen=q(3, 4),
                                          Incs={1, 2, 3, 5}, Oms=q({2, 7}, {2, 5, 7}), OMs=q({3, 6}, {1, 3, 6}),
                                          Tans=q({1, 2, 3, 5, 8, 9}, BASE['Tans'])), q(['array', 'single-si-deg'], W), G3),
        'C16': lambda: by_ecc('anomaly-paths', c(ANOM, {'T', 'E', 'M'}, MaxLen=q(3, 5), Incs={5}, Oms={5}, OMs={6}), W, G3),
        'C22': lambda: [('euler', c({'euler'}, {'T'}, Eccs={2}, Tans={1}, Incs={1, 2, 3, 5, 6, 9, 10}, Oms=ALL, OMs=ALL), W)],
    }
    return S[prop]() if prop in S else []


def run(prop, rep, thorough):
    s = suites(prop, thorough)
    if s:
        conic.run(rep, s)
