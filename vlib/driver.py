"""Generate behaviours of a specification with TLC and play each of them on the real code."""
import concurrent.futures as cf

import numpy as np

from . import core


def explore(rep, module, suites, play, invariants=(), properties=(), kind='behaviour', salts=1, limit=20, end='EmitEnd', emit='Emit', view=None,
            describe=str, spec='Spec', workers=7, prepare=None):
    """suites: dicts with name, c (constants), optionally sim (number of random behaviours), k (seed), salts."""
    def gen(s):
        if s.get('sim'):
            return core.run_tlc(module, s['c'], spec=spec, invariants=invariants, action_constraint=end, simulate=s['sim'],
                                depth=s['c'].get('Depth', 6) + 3, seed=core.SEED * 100 + s.get('k', 0), timeout=1500)
        return core.run_tlc(module, s['c'], spec=spec, invariants=invariants, properties=properties, view=view, action_constraint=emit, timeout=1500)
    with cf.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(gen, suites))
    if prepare:
        prepare()
    pyorb = core.load_pyorb()
    items = []
    for s, r in zip(suites, results):
        if r.error:
            raise core.MachineryError('the specification violates its own properties:\n' + r.error[-3000:])
        if s.get('sim'):
            r.distinct = 0
        n = s.get('salts', salts)
        rep.add_tlc(s['name'], r, behaviours=len(r.records), replays=n * len(r.records),
                    constants={k: sorted(v) if isinstance(v, set) else v for k, v in s['c'].items()})
        rep.traces += n * len(r.records)
        items += [(i * 13 + j, rec) for j in range(n) for i, rec in enumerate(r.records)]
        if r.records:
            rep.samples.append(r.records[len(r.records) // 2])

    def work(part):
        out = []
        for salt, rec in part:
            try:
                with core.time_limit(limit), np.errstate(all='ignore'):
                    x = play(pyorb, rec, salt)
            except core.Timeout:
                x = 'no answer within the time limit'
            except Exception as ex:
                x = f'raised {type(ex).__name__}: {ex}'
            if x:
                out.append((salt, rec, x))
        return out
    bad = core.pool_map(work, items)
    for salt, rec, x in sorted(bad, key=lambda b: len(str(b[1]))):
        rep.violation(f'{describe(rec)}: {x}', dict(kind=kind, salt=salt, rec=rec))
