import numpy as np

from lib import gen, huge, models
from lib.pbt import Property, require, equal, raises, Violation

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical

P = Property('C03', rule='Random simplicial and cubical cell complexes, orientable and not (tori, Klein bottles, Moebius bands, RP2), '
             'connected and not, with cells given in consistent or random orientation; non-trivial: at least two cells sharing '
             'a facet.')


def expect(cells, kind):
    table = gen.facet_table(cells) if kind == 'simplicial' else gen.cube_facet_table(cells)
    sign, comp, ok = gen.orient_cells(len(cells), table)
    consistent = all(l[0][1] == -l[1][1] for l in table.values() if len(l) == 2)
    return table, all(ok), consistent


def check(cls, b, kind, rec):
    cells = b['cells']
    table, orientable, consistent = expect(cells, kind)
    shared = sum(1 for l in table.values() if len(l) == 2)
    rec.nt(shared > 0)
    comps = len(set(models.components(len(cells), models.facet_pairs(table))))
    rec.label('d=%d' % b['d'], 'orientable' if orientable else 'non-orientable', 'consistent' if consistent else 'inconsistent',
              'connected' if comps == 1 else 'disconnected')
    T = cls.from_elements(cells)
    if not orientable:
        raises(ValueError, T.relative_parity, 'relative parity of a non-orientable topology')
        raises(ValueError, T.fix_orientation, 'fix_orientation of a non-orientable topology')
        try:
            o = T.is_oriented
        except ValueError:
            o = False
        require(not o, 'a non-orientable topology is not oriented')
        return
    require(bool(T.is_oriented) == consistent, 'is_oriented is %s; neighbouring cells %s' % (
        T.is_oriented, 'agree on all shared facets' if consistent else 'disagree on some shared facet'))
    p = np.asarray(T.relative_parity())
    require(p.shape == (len(cells),), 'one parity per cell, got shape %s for %d cells' % (p.shape, len(cells)))
    s = 1 - 2 * p.astype(int)
    for l in table.values():
        if len(l) == 2:
            (i, a), (j, c) = l
            require(a * s[i] == -c * s[j], 'flipping the cells of odd parity orients the topology')
    F = T.fix_orientation()
    require(type(F) is type(T), 'type')
    got = F.elements[-1]
    require(got.shape == cells.shape, 'shape')
    for x, y in zip(got, cells):
        require(models.key(x) == models.key(y), 'the cells keep their vertices and their order')
        if kind == 'cubical':
            require(gen.cube_relative_parity(x, y) is not None, 'each cell remains the same cube')
    require(models.is_consistent(got, kind), 'fix_orientation gives consistently oriented cells')
    require(F.is_oriented, 'fix_orientation gives an oriented topology')
    models.check_chain_complex(F, kind, 'after fix_orientation: ')
    # incidence of an oriented topology: opposite signs on interior facets
    m = models.dense(F.matrices[-1]).astype(int)
    n = np.abs(m).sum(axis=1)
    require(not m.sum(axis=1)[n == 2].any(), 'the two cells at an interior facet induce opposite orientations')


@P.sub('simplicial', gen.simplicial(dims=(1, 2, 2, 2, 3), ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'random')), n=2400)
def simplicial(case, rec):
    check(TopologySimplicial, gen.build_simplicial(case), 'simplicial', rec)


@P.sub('cubical', gen.cubical(dims=(1, 2, 2, 3), orient=('keep', 'random')), n=1600)
def cubical(case, rec):
    b = gen.build_cubical(case)
    if b['d'] < 1:
        return
    check(TopologyCubical, b, 'cubical', rec)


@P.sub('doubled', gen.doubled(), n=200)
def doubled(case, rec):
    b = gen.build_doubled(case)
    rec.label(case[0])
    check(TopologyCubical if b['kind'] == 'cubical' else TopologySimplicial, b, b['kind'], rec)


@P.sub('high_simplicial', gen.simplicial(dims=(4, 5, 5, 6), ops=('st', 'rm'), max_ops=2, orient=('keep', 'keep', 'random')), n=60)
def high_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('high_cubical', gen.cubical(dims=(4, 5, 5, 6), kinds=('grid', 'surf'), max_rm=2, orient=('keep', 'keep', 'random')), n=30)
def high_cubical(case, rec):
    cubical(case, rec)


@P.sub('large_simplicial', gen.large('simplicial', dims=(1, 2, 3, 3), orient=('keep', 'random')), n=16)
def large_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('large_cubical', gen.large('cubical', dims=(1, 2, 3, 3), orient=('keep', 'random')), n=16)
def large_cubical(case, rec):
    cubical(case, rec)


huge.register(P, huge.SIMPLICIAL + huge.CUBICAL, huge.orientation)
