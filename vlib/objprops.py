"""Which behaviours of OrbitObject.tla are explored for which property."""
from .suites_obj import (bfs, sim, run_suites, ALLT, ALLM, AUTO, WRITES, EVERY, SEL, SEL1, KINDS)

F64 = ('rad', 'deg', 'si', 'mini', 'maxi')
AUTO3 = {'direct', 'donly', 'lazy'}


def bfs2(*a, **k):
    """Histories are told apart by their last two operations."""
    k.setdefault('ViewLast', 2)
    return bfs(*a, **k)


MANY = {'C01': {'ro', 'bad', 'alloc', 'mass', 'updM', 'updME', 'updSM', 'central', 'copy', 'iter', 'modes'},
        'C02': {'ro', 'bad', 'alloc', 'mass', 'updM', 'updME', 'updSM', 'central', 'copy', 'iter', 'calc', 'calcA', 'delete', 'prop'},
        'C03': {'ro', 'bad', 'alloc', 'mass', 'updM', 'updME', 'updSM', 'central', 'modes'},
        'C05': {'ro', 'bad', 'alloc', 'copy', 'iter', 'central'},
        'C06': {'ro', 'bad', 'alloc', 'central'},
        'C10': {'ro', 'bad', 'alloc', 'copy', 'iter', 'updK', 'updC', 'calcA', 'central', 'mass', 'updM', 'updME', 'updSM', 'derived', 'equi'},
        'C11': {'ro', 'bad', 'alloc', 'iter', 'equi', 'anom', 'rv'}}


def suites(prop, T):
    """T: True for the thorough tier."""
    q = lambda a, b: b if T else a
    S = {
        'C01': lambda: [
            bfs('writes', WRITES | {'read', 'mode', 'calc', 'type'}, InitKinds={'nan', 'k2', 'c2'},
                InitTypes=q({'mean'}, ALLT), N0={2}, Depth=q(3, 4), parts='kca'),
            bfs2('rates', {'setK', 'setC', 'prop', 'derived', 'anom', 'equi', 'rv'}, InitTypes={'eccentric'},
                Depth=q(3, 4), KEls={2}, CEls={4}, Vals=q({2, 3}, {2, 3, 4}), parts='kca'),
            bfs('members', {'updK', 'updC', 'updF', 'add', 'delete', 'setK'}, N0={2}, MaxN=3, SelForms=SEL1,
                KEls={1}, CEls={5}, Depth=q(3, 4), parts='kca'),
            sim('histories', EVERY - {'ro', 'bad', 'iter', 'alloc', 'updM', 'updME', 'updSM', 'mass', 'central'}, q(1200, 20000), seeds=q(2, 4),
                InitModes=AUTO3, Depth=q(9, 14), parts='kca')],
        'C02': lambda: [
            bfs('writes', WRITES | {'rv', 'anom', 'derived', 'equi', 'type'}, InitKinds={'nan', 'k2', 'c4'} & KINDS | {'c2'},
                InitTypes=q({'mean'}, ALLT), InitModes=ALLM, KEls=set(range(1, 7)), CEls=q({1, 4, 6}, set(range(1, 7))),
                N0={2}, Vals={2, 5}, Depth=q(2, 3), parts='kcad'),
            bfs('update-add', {'updK', 'updC', 'updF', 'updME', 'add', 'setK', 'setC'}, MaxN=q(3, 4), SelForms=SEL1,
                KEls=q({1, 6}, {1, 2, 6}), CEls=q({2, 6}, {1, 3, 6}), InitKinds={'k2', 'nan'}, Depth=2, InitModes=q(AUTO, ALLM),
                parts='kcad'),
            bfs('six', {'fullK', 'fullC', 'updF', 'rv', 'add', 'equi'}, N0={6}, MaxN=7, SelForms={'all', 'int1', 'slice1'}, InitKinds={'nan', 'k2'},
                Vals={1, 2}, Depth=1, parts='kc'),
            bfs('several', {'updS', 'updSM', 'addS'}, MaxN=3, SelForms={'int1', 'list1'}, InitKinds=q({'k2', 'pc'}, {'k2', 'c2', 'pk', 'pc'}),
                Depth=q(1, 2), InitModes=ALLM, Vals={2, 5}, InitTypes={'mean'}, parts='kcad'),
            sim('histories', {'setK', 'setC', 'fullK', 'fullC', 'rv', 'anom', 'derived', 'equi', 'updK', 'updC', 'updF', 'updS', 'addS',
                              'add', 'type', 'mode'}, q(1200, 20000), seeds=q(2, 4), Depth=q(5, 8), parts='kcad')],
        'C03': lambda: [
            bfs('pending', WRITES | {'read', 'mode', 'calc'}, InitModes={'lazy'}, InitKinds={'k2', 'c2', 'nan'},
                KEls={1, 6}, CEls={1, 5}, Depth=q(3, 4), parts='kcad'),
            bfs2('pending-ops', WRITES | {'type', 'anom', 'prop', 'derived', 'equi', 'mode', 'rv'}, InitModes={'lazy'},
                InitTypes={'mean'}, KEls={2}, CEls={5}, Depth=q(3, 4), parts='kcad'),
            bfs('pending-members', {'setK', 'setC', 'updK', 'updC', 'updF', 'add', 'delete', 'copy', 'mode'}, MaxN=3,
                InitModes={'lazy'}, KEls={1}, CEls={5}, SelForms={'int1', 'mask1'}, Depth=q(3, 4), parts='kcad'),
            bfs('pending-several', {'updS', 'updSM', 'addS', 'setK', 'setC'}, N0={2}, MaxN=3, InitModes={'lazy'}, KEls={1}, CEls={5},
                SelForms={'int1'}, InitKinds={'k2'}, Vals=q({2}, {2, 5}), Depth=q(2, 3), parts='kcad'),
            sim('histories', EVERY - {'ro', 'bad', 'alloc', 'updM', 'updME', 'updSM', 'mass', 'central', 'modes'} | {'mode'},
                q(1200, 20000), seeds=q(2, 4), InitModes={'lazy'}, Depth=q(9, 14), parts='kcad')],
        'C04': lambda: [
            bfs('manual', WRITES | {'calc', 'read', 'rv', 'anom', 'type'}, InitModes={'manual'}, InitKinds={'nan', 'k2', 'c2'},
                InitTypes={'true', 'mean'}, SelForms={'all', 'int1'}, KEls={2, 6}, CEls={1, 5}, Depth=q(3, 4), parts='kc'),
            bfs('selected', {'fullK', 'fullC', 'setK', 'setC', 'calc', 'updK', 'updC', 'modes'}, InitModes={'manual'}, N0={3}, MaxN=3,
                SelForms=q(SEL1 | {'int', 'neg'}, SEL), KEls={1}, CEls={4}, InitKinds={'nan', 'k2'}, Depth=q(3, 4), parts='kc'),
            sim('histories', EVERY - {'ro', 'bad', 'alloc', 'modes'}, q(1200, 20000), seeds=q(2, 4),
                InitModes={'manual'}, Depth=q(8, 12), parts='kcad')],
        'C05': lambda: [
            bfs('forms', {'updK', 'updC', 'updF', 'calc', 'calcA', 'delete', 'add', 'updM'}, N0={3}, MaxN=4, SelForms=SEL,
                KEls={1}, CEls={5}, InitModes=q({'direct', 'lazy'}, ALLM), InitTypes={'mean'}, InitKinds=q({'k2'}, {'k2', 'c2'}),
                Depth=1, parts='kca'),
            bfs('several', {'updS', 'updSM', 'addS'}, N0={3}, MaxN=4, SelForms=q({'int1', 'slice1', 'list1', 'none'}, SEL), Depth=1,
                InitModes={'direct', 'lazy'}, InitKinds={'k2'}, Vals={3, 6}, parts='kc'),
            bfs('pending', {'setK', 'setC', 'updK', 'updC', 'updF', 'calc', 'delete', 'calcA'}, N0={3}, MaxN=3,
                SelForms=q({'int1', 'mask1', 'slice1', 'neg1'}, SEL), KEls={2}, CEls={4}, Depth=2,
                InitModes={'direct', 'lazy', 'manual'}, parts='kca'),
            bfs('many', {'setK', 'updK', 'updC', 'delete', 'masses', 'calc'}, N0={130}, MaxN=131, SelForms={'int1', 'mask1', 'slice1'},
                KEls={6}, CEls={5}, InitModes={'lazy', 'direct'}, InitTypes={'mean'}, InitKinds={'k2'}, Depth=q(1, 2), ctxs=('rad', 'si'), parts='kca'),
            bfs('deeper', {'updK', 'updC', 'updME', 'calc', 'delete', 'addK', 'masses'}, N0={3}, MaxN=3, SelForms={'int1', 'mask1'},
                KEls={6}, CEls={5}, Depth=q(3, 4), InitModes={'lazy'}, InitKinds={'k2'}, parts='kc'),
            sim('histories', {'updK', 'updC', 'updF', 'updME', 'updM', 'updS', 'updSM', 'addS', 'calc', 'calcA', 'delete', 'add', 'setK', 'setC',
                              'read', 'modes', 'mass', 'masses', 'ownmasses'}, q(1500, 20000), seeds=q(2, 4), N0={3, 4}, MaxN=5,
                Depth=q(7, 10), Vals={1, 3, 6}, parts='kca')],
        'C06': lambda: [
            bfs('copies', {'copies', 'setK', 'setC', 'updK', 'copy', 'fullK', 'fullC', 'delete', 'addK', 'masses'}, N0={2}, MaxN=3,
                SelForms={'int1', 'mask1', 'all'}, KEls={1}, CEls={5}, InitModes=q(AUTO, AUTO | {'manual'}), Depth=q(3, 4), parts='kcal'),
            bfs('iterate', {'iter', 'setK', 'setC', 'fullC', 'delete', 'add'}, N0={1, 2, 3}, MaxN=3, SelForms={'int1'},
                KEls={6}, CEls={1}, InitTypes={'mean'}, InitModes=q(AUTO, AUTO | {'manual'}), Depth=2, parts='kcl'),
            bfs('settings', {'copy', 'type', 'ro', 'modes', 'setK', 'setC', 'prop', 'read'}, N0={2}, SelForms={'int1', 'slice1'}, KEls={2},
                CEls={5}, Depth=q(3, 4), InitModes={'lazy'}, parts='kcal'),
            sim('histories', EVERY - {'alloc'}, q(1200, 20000), seeds=q(2, 4), Depth=q(9, 14), parts='kcal')],
        'C07': lambda: [
            bfs('read-only', WRITES | {'ro', 'rv', 'anom', 'prop', 'type', 'derived', 'equi', 'bad', 'add', 'updK', 'updC', 'updF',
                                       'mode'},
                N0={2}, MaxN=3, KEls=q({2}, {2, 6}), CEls={5}, SelForms={'int1'}, InitModes=AUTO, Depth=q(2, 3),
                InitTypes={'mean'}, parts='kca'),
            bfs('all-elements', {'ro', 'setK', 'setC', 'rv', 'updK', 'updC'}, N0={2}, KEls=set(range(1, 7)),
                CEls=set(range(1, 7)), SelForms={'int1', 'all'}, Depth=2, InitModes={'direct', 'lazy', 'manual'}, parts='kc'),
            bfs('several', {'ro', 'updS', 'updSM', 'addS'}, N0={2}, MaxN=3, SelForms={'int1'}, InitModes={'direct', 'lazy'}, Vals={2},
                Depth=2, parts='kc'),
            bfs('mass', {'updM', 'updME', 'ro', 'bad', 'updK', 'mode'}, N0={2}, KEls={1}, CEls={5}, SelForms={'int1', 'mask1'},
                Depth=q(2, 3), InitModes=ALLM, parts='kc'),
            bfs('values', {'badval', 'setK', 'setC', 'fullK', 'fullC'}, N0={2}, KEls={2}, CEls={5}, SelForms={'int1', 'all'},
                InitModes=ALLM, InitTypes={'mean'}, InitKinds={'k2', 'nan'}, Depth=q(2, 3), each=2, parts='kca'),
            sim('histories', EVERY - {'iter', 'copy'} | {'ro', 'bad', 'badval'}, q(1500, 20000), seeds=q(2, 4), Depth=q(9, 12), parts='kca')],
        'C08': lambda: [
            bfs2('types', {'type', 'anom', 'setK', 'setC', 'fullK', 'fullC', 'calcA'}, InitTypes=ALLT, InitModes=ALLM, N0={3}, MaxN=3,
                InitKinds={'k2', 'c2', 'k4'}, KEls={6}, CEls={4}, Depth=q(2, 3), parts='kca'),
            bfs('pending', {'type', 'anom', 'setK', 'setC', 'prop', 'updK', 'updC', 'calc'}, InitTypes=ALLT, N0={3}, MaxN=3,
                InitModes={'lazy'}, KEls={6}, CEls={4}, SelForms={'int1'}, Depth=q(3, 4), parts='kca'),
            sim('histories', {'type', 'anom', 'setK', 'setC', 'fullK', 'fullC', 'calcA', 'prop', 'calc', 'modes', 'updF', 'add'},
                q(1500, 20000), seeds=q(2, 4), N0={1, 3}, Depth=q(8, 12), parts='kca')],
        'C09': lambda: [
            bfs('incomplete', {'setK', 'setC', 'updK', 'updC', 'add', 'read', 'calc'}, InitKinds={'nan'}, N0={2}, MaxN=3,
                KEls={1, 2, 6}, CEls={1, 5}, SelForms={'int1'}, InitModes=q(AUTO, ALLM), Depth=q(3, 4), parts='kcad'),
            bfs('completed', {'setK', 'updK', 'read'}, InitKinds={'nan'}, N0={2}, MaxN=2, KEls=set(range(1, 7)), CEls={1},
                SelForms={'int1'}, InitModes=q({'lazy'}, AUTO), Depth=q(4, 5), Vals=q({2}, {2, 3}), ViewLast=0, parts='kcad'),
            bfs('completedC', {'setC', 'updC', 'rv'}, InitKinds={'nan'}, N0={2}, MaxN=2, KEls={1},
                CEls=set(range(1, 7)), SelForms={'int1'}, InitModes=q({'direct'}, AUTO), Depth=q(4, 5), Vals={2}, ViewLast=0,
                parts='kcad'),
            bfs('several', {'updS', 'addS', 'updK'}, InitKinds={'nan', 'pk', 'pc'}, N0={2}, MaxN=3, KEls={1, 6}, SelForms={'int1'}, Vals={2},
                InitModes=q({'direct', 'lazy'}, ALLM), Depth=q(2, 3), parts='kcad'),
            bfs('allocated', {'alloc', 'setK', 'setC', 'fullK', 'updK', 'add', 'type', 'anom', 'calcA'}, InitKinds={'k2', 'c2', 'nan'}, N0={2, 3}, MaxN=3,
                InitModes=q(AUTO, ALLM), InitTypes=q({'mean', 'true'}, ALLT), KEls={2}, CEls={5}, SelForms={'int1'}, Depth=q(2, 3), parts='kca'),
            sim('nan-histories', {'alloc', 'updS', 'addS', 'setK', 'setC', 'updK', 'updC', 'rv', 'add', 'calc', 'read', 'modes', 'type', 'anom', 'delete'},
                q(1500, 20000), seeds=q(2, 4), InitKinds={'nan', 'pk', 'pc'}, N0={1, 2, 3}, Depth=q(12, 18), parts='kcad')],
        'C10': lambda: [
            bfs2('propagate', {'prop', 'type', 'setK', 'setC', 'read'}, InitTypes=ALLT, InitKinds={'k2', 'c2', 'k3'}, InitModes=q(AUTO, ALLM),
                N0={4}, MaxN=4, Vals=q({2, 3}, {2, 3, 4}), KEls={6}, CEls={4}, Depth=q(2, 3), parts='kca', ctxs=F64),
            bfs2('split', {'prop', 'type'}, InitTypes=ALLT, InitKinds={'k2', 'k3', 'k4'}, N0={4}, MaxN=4, Vals={1, 2, 3, 4},
                Depth=q(3, 4), parts='kca', ctxs=F64),
            sim('histories', {'prop', 'type', 'anom', 'setK', 'updF', 'modes', 'mass', 'masses', 'copy', 'fullK', 'fullC'},
                q(1500, 20000), seeds=q(2, 4), N0={1, 4}, Depth=q(7, 12), parts='kca', ctxs=F64)],
        'C11': lambda: [
            bfs('masses', {'masses', 'ownmasses', 'central', 'mass', 'calc', 'setK', 'setC', 'fullK', 'fullC', 'derived'}, InitKinds={'k2', 'c2'}, N0={3}, MaxN=3,
                SelForms={'all', 'int1', 'mask1'}, KEls={1}, CEls={5}, InitModes=q({'direct', 'lazy'}, ALLM), Depth=q(2, 3),
                parts='kcad'),
            bfs2('update-mass', {'masses', 'ownmasses', 'updM', 'updME', 'calc', 'prop', 'mode'}, N0={2}, SelForms={'int1', 'mask1'}, KEls={1},
                CEls={5}, InitModes={'lazy'}, Depth=q(3, 4), parts='kcad'),
            bfs2('moves', {'masses', 'ownmasses', 'central', 'add', 'delete', 'copy', 'fullC', 'prop'}, N0={2}, MaxN=4, SelForms={'int1'}, Depth=q(2, 3),
                parts='kcad'),
            sim('histories', EVERY - {'ro', 'bad', 'alloc'}, q(1200, 20000), seeds=q(2, 4), Depth=q(8, 12), parts='kcad')],
        'C12': lambda: [
            bfs2('derived', {'derived', 'setK', 'setC', 'fullK', 'fullC', 'masses', 'type'}, InitKinds={'k2', 'k3', 'c2', 'k4'}, N0={4}, MaxN=4,
                InitModes=q(AUTO, ALLM), InitTypes=ALLT, KEls={2}, CEls={4}, Depth=2, Vals={2, 3}, parts='kcd'),
            bfs2('setters', {'derived', 'mode', 'anom', 'calc'}, InitKinds={'k2', 'c2'}, N0={3}, MaxN=3, InitModes=AUTO,
                InitTypes={'mean'}, Depth=q(3, 4), Vals={2, 3}, parts='kcd'),
            sim('histories', {'derived', 'setK', 'setC', 'fullK', 'fullC', 'masses', 'mass', 'type', 'anom', 'prop', 'calc', 'copy',
                              'updF', 'modes'}, q(1500, 20000), seeds=q(2, 4), N0={1, 4}, Depth=q(7, 10), parts='kcad')],
        'C13': lambda: [
            bfs('equinoctial', {'equi', 'type', 'setK', 'setC', 'mode'}, InitTypes=ALLT, InitKinds={'nan', 'k4', 'c4'} & KINDS | {'c2'},
                InitModes=q(AUTO, ALLM), N0={1, 4}, MaxN=4, KEls={2, 6}, CEls={5}, Vals={2, 3, 4}, Depth=q(2, 3), parts='kcad'),
            sim('histories', {'equi', 'type', 'setK', 'setC', 'fullK', 'fullC', 'prop', 'modes', 'ro', 'updK', 'masses'},
                q(1000, 20000), seeds=q(1, 4), N0={1, 4}, Depth=q(7, 10), parts='kcad')],
        'C19': lambda: [
            sim('degrees', EVERY, q(1200, 20000), seeds=q(2, 4), ctxs=('deg', 'maxi'), Depth=q(8, 12), parts='kcad'),
            bfs('degrees-angles', {'setK', 'type', 'anom', 'prop', 'equi', 'derived', 'updK', 'add'}, InitTypes=ALLT, N0={2}, MaxN=3,
                KEls={3, 4, 5, 6}, SelForms={'int1'}, ctxs=('deg',), Depth=q(2, 3), parts='kcad')],
        'C20': lambda: [
            sim('single-precision', EVERY, q(1200, 20000), seeds=q(2, 4), ctxs=('f32',), Depth=q(6, 9), parts='kcad')],
        'C24': lambda: [
            sim('units', EVERY - {'bad', 'ro', 'alloc', 'iter'}, q(1200, 20000), seeds=q(2, 4), ctxs=('si', 'maxi', 'mini', 'deg', 'rad'), each=3,
                Depth=q(6, 9), parts='kcad')],
        'C28': lambda: [
            bfs('writes', {'fail', 'setK', 'setC', 'fullK', 'fullC', 'anom', 'prop', 'type', 'read', 'mode'}, InitTypes={'mean', 'eccentric'},
                InitKinds={'k2', 'c2'}, KEls={1}, CEls={5}, Depth=q(2, 3), parts='kca'),
            bfs('members', {'fail', 'updK', 'updC', 'updF', 'updS', 'add', 'setK', 'calc'}, N0={2}, MaxN=3, InitTypes={'mean'}, InitModes=q({'direct', 'lazy'}, ALLM),
                InitKinds={'k2'}, KEls={2}, CEls={4}, SelForms={'int1'}, Depth=q(2, 3), parts='kca'),
            bfs('pending', {'fail', 'setK', 'setC', 'read', 'calc'}, InitModes={'lazy', 'direct'}, InitTypes={'mean'}, KEls={6}, CEls={1},
                SelForms={'int1'}, Depth=q(3, 4), parts='kca'),
            sim('histories', EVERY - {'ro', 'bad', 'alloc', 'iter'} | {'fail', 'str'}, q(1500, 20000), seeds=q(2, 4), InitTypes={'mean', 'eccentric'},
                Depth=q(8, 12), parts='kca')],
        'C27': lambda: [
            bfs('printed', {'str', 'setK', 'setC', 'fullK', 'fullC', 'updK', 'updC', 'type', 'delete', 'addK', 'modes'}, N0={0, 1, 2}, MaxN=2,
                InitKinds={'nan', 'k1', 'c1'}, InitModes=ALLM, InitTypes=q({'mean'}, ALLT), SelForms={'int1', 'all'}, KEls={1, 6}, CEls={1, 5},
                Depth=q(2, 3), parts='kc'),
            sim('histories', EVERY - {'iter', 'bad', 'ro'} | {'str'}, q(1000, 15000), seeds=q(2, 4), N0={1}, MaxN=2, Depth=q(8, 12), parts='kc')],
    }
    out = S[prop]() if prop in S else []
    if prop in MANY:
        out.append(sim('many-members', EVERY - MANY[prop], q(150, 2500), seeds=q(1, 2), N0={6, 9, 12}, MaxN=14,
                       SelForms={'int', 'neg', 'slice', 'list1', 'mask1'}, InitModes=q(ALLM, ALLM) if prop not in ('C01', 'C03') else AUTO,
                       Depth=q(6, 9), parts='kcad'))
    return out


def run(prop, rep, thorough):
    s = suites(prop, thorough)
    if s:
        run_suites(rep, s)
