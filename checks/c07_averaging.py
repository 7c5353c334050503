import numpy as np
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, close

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical

P = Property('C07', rule='Random simplicial and cubical complexes, including vertices with hundreds of incident cells; averaging and degree '
             'compared with direct enumeration of the faces of each cell; non-trivial: at least two cells.')


def check(cls, cells, d, kind, rec):
    rec.nt(len(cells) > 1)
    T = cls.from_elements(cells)
    N = T.n_elements
    C = T.corners
    # for each n-element: set of vertices, and set of cells that contain it
    pos = [{models.key(e): i for i, e in enumerate(C[k])} for k in range(d + 1)]
    cof = [[set() for _ in range(N[k])] for k in range(d + 1)]
    for j, c in enumerate(T.elements[-1]):
        for k in range(d + 1):
            if kind == 'simplicial':
                import itertools
                fs = [models.key(f) for f in itertools.combinations(c, k + 1)]
            else:
                fs = [models.key(f) for f in models.cube_faces(np.asarray(c), k)]
            for f in fs:
                cof[k][pos[k][f] if k < d else j].add(j)
    rec.label('d=%d' % d, 'max degree %s' % ('>127' if max(len(s) for s in cof[0]) > 127 else '<=127'))
    A0, AN, deg = T.averaging_operators_0, T.averaging_operators_N, T.degree
    ac0, acN = T.accumulated_operators_0(), T.accumulated_operators_N()
    for k in range(d + 1):
        W = np.zeros((N[k], N[0]))
        for i, e in enumerate(C[k]):
            W[i, e] = 1. / len(e)
        close(A0[k], W, 'average of the vertices of %d-elements' % k)
        equal(models.dense(ac0[k]).T != 0, W != 0, 'accumulated_operators_0[%d]' % k)
        W = np.zeros((N[k], N[d]))
        for i, s in enumerate(cof[k]):
            W[i, sorted(s)] = 1. / len(s)
        close(AN[k], W, 'average of the cells around %d-elements' % k)
        equal(models.dense(acN[k]).T != 0, W != 0, 'accumulated_operators_N[%d]' % k)
        equal(np.asarray(deg[k]).astype(int), np.array([len(s) for s in cof[k]]), 'degree of %d-elements' % k)
    for k in range(d + 1):
        require(T.chain(k).shape == (N[k],) and not T.chain(k).any(), 'chain')
        require((T.chain(k, fill=1) == 1).all(), 'chain filled with ones')
        m = np.arange(N[k]) % 3 == 0
        equal(T.chain(k, fill=m), m.astype(int), 'chain from a mask')
        equal(T.range(k), np.arange(N[k]), 'range')
        f = T.form(k, fill=2.5, dtype=float)
        require(f.shape == (N[k],) and (f == 2.5).all(), 'form')
    require(T.chain(-1, fill=1).shape == (N[d],), 'negative dimension')


@P.sub('simplicial', gen.simplicial(dims=(1, 2, 2, 3, 4), ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'random')), n=1200)
def simplicial(case, rec):
    b = gen.build_simplicial(case)
    check(TopologySimplicial, b['cells'], b['d'], 'simplicial', rec)


@P.sub('cubical', gen.cubical(dims=(1, 2, 2, 3, 4), orient=('keep', 'random')), n=800)
def cubical(case, rec):
    b = gen.build_cubical(case)
    check(TopologyCubical, b['cells'], b['d'], 'cubical', rec)


@P.sub('doubled', gen.doubled(), n=150)
def doubled(case, rec):
    b = gen.build_doubled(case)
    rec.label(case[0])
    check(TopologyCubical if b['kind'] == 'cubical' else TopologySimplicial, b['cells'], b['d'], b['kind'], rec)


@P.sub('high_degree', st.tuples(st.integers(100, 400), st.booleans(), st.integers(2, 3), st.sampled_from(['simplicial', 'cubical'])).map(list), n=48)
def high_degree(case, rec):
    """A vertex (d=2) or an edge (d=3) with hundreds of cells around it"""
    n, closed, d, kind = case
    cells, _ = gen.fan(n, closed)
    if kind == 'simplicial':
        if d == 3:
            top = 1 + max(v for c in cells for v in c)
            cells = [tuple(c) + (top,) for c in cells]
        check(TopologySimplicial, np.array(cells), d, kind, rec)
    else:
        m = n if closed else n + 1
        cubes = np.array([[[0, 1 + i], [1 + (i + 1) % m, 1 + m + i]] for i in range(n)])
        if d == 3:
            cubes = np.stack([cubes, cubes + cubes.max() + 1], axis=-1)
        check(TopologyCubical, cubes, d, kind, rec)


@P.sub('high_simplicial', gen.simplicial(dims=(4, 5, 5, 6), ops=('st', 'rm'), max_ops=2, orient=('keep', 'random')), n=60)
def high_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('high_cubical', gen.cubical(dims=(4, 5, 5, 6), kinds=('grid', 'surf'), max_rm=2, orient=('keep', 'random')), n=30)
def high_cubical(case, rec):
    cubical(case, rec)


@P.sub('large_simplicial', gen.large('simplicial', dims=(1, 2, 3, 3), orient=('keep',)), n=16)
def large_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('large_cubical', gen.large('cubical', dims=(1, 2, 3, 3), orient=('keep',)), n=16)
def large_cubical(case, rec):
    cubical(case, rec)


huge.register(P, ('tri', 'tet', 'quad', 'hex'), huge.averaging)
