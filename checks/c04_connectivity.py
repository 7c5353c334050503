import numpy as np
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, close

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical

P = Property('C04', rule='Random simplicial and cubical cell complexes, connected and not, manifold and not (wedges, pinched vertices, '
             'diagonal gaps after removing cells); compared with union-find on shared facets; non-trivial: more than one '
             'component, or a vertex whose incident cells fall in several regions, or at least five cells.')


def check(cls, b, kind, rec):
    cells = b['cells']
    n = len(cells)
    table = gen.facet_table(cells) if kind == 'simplicial' else gen.cube_facet_table(cells)
    pairs = models.facet_pairs(table)
    lab = models.components(n, pairs)
    nc = lab.max() + 1
    corners = cells.reshape(n, -1)
    # around a vertex, only the facets count that the vertex is part of
    here = [models.facet_pairs({f: l}) for f, l in table.items()]
    here = [(set(f), p) for f, p in zip(table, here)]
    regions = np.zeros(b['n_vertices'], dtype=int)
    for v in range(b['n_vertices']):
        inc = [i for i in range(n) if v in corners[i]]
        pos = {i: k for k, i in enumerate(inc)}
        sub = models.components(len(inc), [(pos[i], pos[j]) for f, ps in here if v in f for i, j in ps])
        regions[v] = sub.max() + 1
    rec.nt(nc > 1 or regions.max() > 1 or n >= 5)
    rec.label('d=%d' % b['d'], 'components=%d' % min(nc, 4), 'manifold' if (regions == 1).all() else 'non-manifold')

    T = cls.from_elements(cells)
    c, l = T.label_connections()
    require(c == nc, 'number of components: %s, expected %s' % (c, nc))
    l = np.asarray(l)
    require(l.shape == (n,), 'one label per cell')
    require(len({(int(x), int(y)) for x, y in zip(l, lab)}) == nc, 'labels group the cells by component')
    require(set(l.tolist()) == set(range(nc)), 'labels are a range')
    require(bool(T.is_connected) == (nc == 1), 'is_connected')
    equal(np.asarray(T.regions_per_vertex).astype(int), regions, 'regions_per_vertex')
    require(bool(T.is_manifold) == bool((regions == 1).all()), 'is_manifold')
    from pycomplex.topology import ManifoldException
    try:
        T.check_manifold()
        ok = True
    except ManifoldException:
        ok = False
    require(ok == bool((regions == 1).all()), 'check_manifold')

    parts = T.split_connected_components()
    require(len(parts) == nc, 'number of parts')
    sizes = [p.n_elements[-1] for p in parts]
    require(sizes == sorted(sizes, reverse=True), 'parts are sorted from most to least cells: %s' % sizes)
    seen = []
    for p in parts:
        require(type(p) is type(T), 'type of a part')
        ids = np.asarray(p.parent_idx[-1])
        require(len(ids) == p.n_elements[-1], 'parent_idx of a part')
        require(len(set(lab[ids].tolist())) == 1, 'a part lies in one component')
        seen.extend(ids.tolist())
        for i, q in zip(p.elements[-1].reshape(len(ids), -1), ids):
            equal(np.asarray(p.parent_idx[0])[i], corners[q], 'corners of a cell of a part')
        require(bool(p.is_connected), 'a part is connected')
        require(p.parent is T, 'parent')
    require(sorted(seen) == list(range(n)), 'the parts partition the cells')


@P.sub('simplicial', gen.simplicial(dims=(1, 2, 2, 2, 3), ops=('st', 'rm', 'rm', 'union', 'wedge', 'pinch'), max_ops=6, orient=('keep', 'random')), n=1600)
def simplicial(case, rec):
    check(TopologySimplicial, gen.build_simplicial(case), 'simplicial', rec)


@P.sub('cubical', gen.cubical(dims=(1, 2, 2, 2, 3), orient=('keep', 'random'), max_rm=8), n=1200)
def cubical(case, rec):
    b = gen.build_cubical(case)
    check(TopologyCubical, b, 'cubical', rec)


@P.sub('doubled', gen.doubled(), n=200)
def doubled(case, rec):
    b = gen.build_doubled(case)
    rec.label(case[0])
    check(TopologyCubical if b['kind'] == 'cubical' else TopologySimplicial, b, b['kind'], rec)


@P.sub('large_simplicial', gen.large('simplicial', dims=(1, 2, 3, 3), orient=('keep', 'random')), n=16)
def large_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('large_cubical', gen.large('cubical', dims=(1, 2, 3, 3), orient=('keep', 'random')), n=16)
def large_cubical(case, rec):
    cubical(case, rec)


@P.sub('bouquet', st.tuples(st.integers(2, 3), st.integers(120, 300), gen.noise(24), gen.noise(24), st.booleans()).map(list), n=12)
def bouquet(case, rec):
    """Very many cells, and pairs of adjacent cells, around a single vertex"""
    d, count, order, labels, cubical = case
    nz = gen.Noise(order)
    cells, n = [], 1
    twin = nz.bits(count) if order else np.zeros(count, dtype=bool)
    m = 2 ** d if cubical else d + 1
    for k in range(count):
        c = [0] + list(range(n, n + m - 1))
        n += m - 1
        cells.append(c)
        if twin[k]:         # a second cell sharing the facet opposite to the last axis or corner, with its apex at the centre included
            h = m // 2 if cubical else d
            cells.append(c[:h] + list(range(n, n + m - h)))
            n += m - h
    cells = np.array(cells)[nz.perm(len(cells))]
    p = gen.Noise(labels).perm(n)
    inv = np.empty(n, dtype=np.int64)
    inv[p] = np.arange(n)
    cells = inv[cells]
    if cubical:
        cells = cells.reshape((-1,) + (2,) * d)
    rec.label('more than 127 regions' if count > 127 else '')
    check(TopologyCubical if cubical else TopologySimplicial, {'cells': cells, 'n_vertices': n, 'd': d}, 'cubical' if cubical else 'simplicial', rec)


huge.register(P, ('tri', 'tet', 'quad', 'hex'), huge.connection)
