"""Which paths of Regions.tla are explored for which property."""
from . import regions

ANOM = {'t2E', 'E2t', 'M2E', 'E2M', 't2M', 'M2t'}
EQUI = {'k2e', 'e2k', 'c2e', 'e2c', 'k2eT', 'e2kT'}
W4 = ['array', 'array-deg', 'single', 'single-deg']


def c(fns, start, last=None, **k):
    d = dict(regions.FULL, Fns=set(fns), LastFns=set(last or fns), Start=set(start))
    d.update(k)
    return d


def suites(prop, T):
    q = lambda a, b: b if T else a
    S = {
        'C13': lambda: [('equinoctial-regions', c(EQUI, {'T', 'M', 'cart', 'equi', 'equiT'}, MaxLen=q(2, 3), Spread=q(2, 5)),
                         ['array', 'array-deg', 'single-deg'], q(1, 2))],
        'C14': lambda: [('placing-regions', c({'k2c'}, {'T'}, Spread=q(4, 16)), W4, q(2, 12)),
                        ('placing-from-anomalies', c({'k2c', 'E2t', 'M2t'}, {'E', 'M'}, last={'k2c'}, MaxLen=2, Spread=q(2, 8)),
                         ['array', 'single-deg'], q(1, 4))],
        'C15': lambda: [('canonical-regions', c({'c2k'}, {'cart'}, Spread=q(4, 16)), W4, q(2, 12)),
                        ('there-and-back-regions', c({'c2k', 'k2c'}, {'cart', 'T'}, MaxLen=q(3, 5), Spread=q(2, 5)), W4, q(1, 3))],
        'C16': lambda: [('anomaly-regions', c(ANOM, {'T', 'E', 'M'}, MaxLen=q(3, 5), Incs={'direct'}, Angles={'q1'}, Spread=q(3, 8)),
                         W4, q(3, 8))],
    }
    return S[prop]() if prop in S else []


def run(prop, rep, thorough):
    s = suites(prop, thorough)
    if s:
        regions.run(rep, s)
