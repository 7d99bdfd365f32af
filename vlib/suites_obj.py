"""Suites that replay behaviours of OrbitObject.tla on the real Orbit class."""
import concurrent.futures as cf

from . import core
from . import objreplay as R

INV = ['Refines', 'NoContradiction', 'NothingInvented']
PROP = ['FailLosesNothing', 'Untouched', 'RejectedUnchanged', 'TypeKeepsOrbit', 'ReadsSilent']
ALLT = {'true', 'mean', 'eccentric'}
ALLM = {'direct', 'donly', 'lazy', 'manual'}
AUTO = {'direct', 'lazy'}
WRITES = {'setK', 'setC', 'fullK', 'fullC'}
EVERY = {'setK', 'setC', 'fullK', 'fullC', 'type', 'read', 'modes', 'calc', 'anom', 'prop', 'derived', 'equi', 'rv',
         'calcA', 'ro', 'bad', 'updK', 'updC', 'updF', 'updM', 'updME', 'mass', 'add', 'delete', 'iter', 'copy',
         'alloc', 'masses', 'ownmasses', 'central', 'copies', 'updS', 'updSM', 'addS'}
SEL = {'none', 'all', 'int', 'neg', 'slice', 'list', 'mask'}
SEL1 = {'all', 'int1', 'neg1', 'mask1', 'list1', 'slice1'}
KINDS = {'nan', 'pk', 'pc', 'k1', 'k2', 'k3', 'k4', 'c1', 'c2'}

BASE = dict(InitModes=AUTO, InitTypes={'true'}, InitKinds={'k2', 'c2'}, N0={2}, MaxN=2, Depth=3, Vals={2},
            KEls={1, 2, 6}, CEls={1, 5}, SelForms={'all'}, ViewLast=1)


def bfs(name, classes, ctxs=('rad', 'deg', 'si', 'f32'), parts='kca', each=1, **kw):
    c = dict(BASE, Classes=set(classes))
    c.update(kw)
    return dict(name=name, kind='bfs', consts=c, ctxs=list(ctxs), parts=parts, each=each)


def sim(name, classes, num, ctxs=('rad', 'deg', 'si', 'f32', 'mini', 'maxi'), parts='kca', each=1, seeds=1, **kw):
    c = dict(BASE, Classes=set(classes), InitModes=ALLM, InitTypes=ALLT, InitKinds=KINDS, N0={1, 2, 3}, MaxN=4,
             Depth=9, Vals={1, 2, 3, 4, 5, 6}, KEls=set(range(1, 7)), CEls=set(range(1, 7)), SelForms=SEL)
    c.update(kw)
    return dict(name=name, kind='sim', consts=c, num=num, ctxs=list(ctxs), parts=parts, each=each, seeds=seeds)


def run_suites(rep, suites, limit=20):
    """Generate all behaviours with TLC, then replay them."""
    jobs = []
    for s in suites:
        for k in range(s.get('seeds', 1)):
            jobs.append((s, k))

    def gen(job):
        s, k = job
        if s['kind'] == 'bfs':
            r = core.run_tlc('OrbitObject', s['consts'], invariants=INV, properties=PROP, view='View',
                             constraint='Bound', action_constraint='Emit', timeout=3000)
        else:
            r = core.run_tlc('OrbitObject', s['consts'], spec='SpecEnd', invariants=INV, action_constraint='EmitEnd',
                             simulate=s['num'], depth=s['consts']['Depth'] + 3, seed=core.SEED * 1000 + 17 * k,
                             timeout=3000)
        return r
    with cf.ThreadPoolExecutor(6) as ex:
        results = list(ex.map(gen, jobs))
    pyorb = core.load_pyorb()
    ctxs = R.contexts()
    items = []
    for (s, k), r in zip(jobs, results):
        if r.error:
            raise core.MachineryError('the specification violates its own properties:\n' + r.error[-3000:])
        if s['kind'] == 'sim':
            r.distinct = 0
        n = 0
        for i, rec in enumerate(r.records):
            for q in range(min(s['each'], len(s['ctxs']))):
                cn = s['ctxs'][(i + q) % len(s['ctxs'])]
                items.append((cn, rec, core.SEED * 7919 + i * 31 + q, s['parts']))
                n += 1
        rep.add_tlc(s['name'], r, behaviours=len(r.records), replays=n, constants=describe(s['consts']))
        if r.records:
            rec = r.records[len(r.records) // 2]
            rep.samples.append(R.describe(rec['h'], len(rec['h'])))
    chunks = [items[i::96] for i in range(96)]
    out = core.pool_map(lambda ch: R.play_many((pyorb, ctxs, ch[0], limit)), [c for c in chunks if c], chunk=1)
    bad = []
    for n, sk, fails in out:
        rep.traces += n
        rep.skipped += sk
        bad += fails
    bad.sort(key=lambda b: (len(b[1]['h']), b[3], b[2]))
    for what, rec, cname, seed in bad:
        rep.violation(f'[{cname}] {what}', dict(kind='object', context=cname, seed=seed, h=rec['h'], obs=rec['obs'],
                                               sh=rec['sh']))


def describe(c):
    return {k: sorted(v) if isinstance(v, set) else v for k, v in c.items()}
