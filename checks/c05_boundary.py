import numpy as np
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, raises

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical

P = Property('C05', rule='Random simplicial and cubical complexes with and without boundary, connected and not, and random cell masks; '
             'non-trivial: a boundary and at least two cells, or a mask that is neither empty nor everything.')


def table_of(cells, kind):
    return gen.facet_table(cells) if kind == 'simplicial' else gen.cube_facet_table(cells)


def all_faces(cells, kind, k):
    if kind == 'simplicial':
        return models.faces_of(cells, k)
    return {models.key(f) for c in cells for f in models.cube_faces(c, k)}


def check_parent_idx(S, T, kind, msg):
    """S.parent_idx maps elements of S to the elements of T on the same vertices"""
    idx = [np.asarray(i) for i in S.parent_idx]
    require(len(idx) == S.n_dim + 1, msg + 'one index array per dimension')
    for k in range(S.n_dim + 1):
        require(idx[k].shape == (S.n_elements[k],), msg + 'length of parent_idx[%d]' % k)
        require(len(set(idx[k].tolist())) == len(idx[k]), msg + 'parent_idx[%d] repeats elements' % k)
        for i, e in zip(idx[k], S.corners[k]):
            require(models.key(idx[0][e]) == models.key(T.corners[k][i]), msg + 'parent_idx[%d] points at another element' % k)
    require(S.parent is T, msg + 'parent')


def check_boundary(cls, b, kind, rec):
    cells = b['cells']
    d = b['d']
    T = cls.from_elements(cells)
    if not models.is_consistent(cells, kind):
        rec.label('not oriented')
        raises(ValueError, lambda: T.boundary, 'boundary of a non-oriented topology')
        return
    table = table_of(cells, kind)
    want = {f for f, l in table.items() if len(l) == 1}
    rec.nt(len(want) > 0 and len(cells) > 1)
    rec.label('d=%d' % d, 'closed' if not want else 'bounded')
    require(bool(T.is_closed) == (not want), 'is_closed')
    B = T.boundary
    sel_i, sel_b = T.selector_interior, T.selector_boundary
    require(len(sel_i) == d + 1 and len(sel_b) == d + 1, 'one selector per dimension')
    bset = [set() for k in range(d + 1)]
    if not want:
        require(B is None, 'a closed topology has no boundary')
    else:
        require(B.n_dim == d - 1, 'dimension of the boundary')
        check_parent_idx(B, T, kind, 'boundary: ')
        for k in range(d):
            got = {models.key(T.corners[k][i]) for i in np.asarray(B.parent_idx[k])}
            faces = set()
            for f in want:
                if kind == 'simplicial':
                    faces |= models.faces_of([f], k)
            if kind == 'cubical':
                by = {models.key(q): q for c in cells for q in models.cube_faces(c, d - 1)}
                faces = {models.key(q) for f in want for q in models.cube_faces(by[f], k)}
            require(got == faces, 'the %d-elements of the boundary are the faces of the facets with a single cell' % k)
            bset[k] = set(np.asarray(B.parent_idx[k]).tolist())
        if d >= 2:
            models.check_chain_complex(B, kind, 'boundary: ')
            ft = table_of(B.elements[-1], kind)
            if max(len(l) for l in ft.values()) <= 2:
                require(all(len(l) == 2 for l in ft.values()), 'model: boundary has no boundary')
                require(bool(B.is_oriented), 'the boundary of an oriented manifold is oriented')
                require(bool(B.is_closed), 'the boundary of a manifold is closed')
                # induced orientation: each facet of the boundary has the orientation its cell induces, up to one global sign
                m = models.dense(T.matrices[-1]).astype(int)
                s = set()
                for i, e in zip(np.asarray(B.parent_idx[-1]), B.elements[-1]):
                    f = T.elements[-2][i]
                    e = np.asarray(B.parent_idx[0])[e]
                    if d >= 3 or kind == 'simplicial' and d == 2:
                        r = gen.relative_parity(tuple(e), tuple(f)) if kind == 'simplicial' else gen.cube_relative_parity(e, f)
                    else:
                        r = int(e.flatten()[0] != f.flatten()[0])
                    s.add(int(m[i].sum()) * (-1) ** r)
                require(len(s) == 1, 'the boundary carries the induced orientation')
    for k in range(d + 1):
        n = T.n_elements[k]
        ids_b = np.asarray(B.parent_idx[k]).astype(int).tolist() if k < d and B is not None else []   # in the numbering of the boundary
        ids_i = [i for i in range(n) if i not in bset[k]]
        eye = np.eye(n, dtype=int)
        equal(models.dense(sel_b[k]).reshape(-1, n), eye[ids_b], 'selector_boundary[%d]' % k)
        equal(models.dense(sel_i[k]).reshape(-1, n), eye[ids_i], 'selector_interior[%d]' % k)


ORI = ('keep', 'keep', 'keep', 'random')


@P.sub('simplicial', gen.simplicial(dims=(1, 2, 2, 3, 3), ops=('st', 'rm', 'union', 'wedge'), orient=ORI), n=1500)
def simplicial(case, rec):
    b = gen.build_simplicial(case)
    if not all(b['orientable']):
        rec.label('non-orientable')
        return
    check_boundary(TopologySimplicial, b, 'simplicial', rec)


@P.sub('cubical', gen.cubical(dims=(1, 2, 2, 3, 3), orient=ORI), n=900)
def cubical(case, rec):
    b = gen.build_cubical(case)
    if not all(b['orientable']):
        rec.label('non-orientable')
        return
    check_boundary(TopologyCubical, b, 'cubical', rec)


def check_subset(cls, b, kind, case, rec):
    cells = b['cells']
    n = len(cells)
    nz = gen.Noise(case[1])
    style = case[2]
    mask = nz.ints(n) > (case[3] - 128)
    if not mask.any():
        mask[case[3] % n] = True
    rec.nt(0 < mask.sum() < n)
    T = cls.from_elements(cells)
    chain = mask if style == 0 else (mask.astype(np.int8) if style == 1 else mask * -1)
    if style == 3:
        chain = mask.tolist()
    S = T.select_subset(chain)
    require(type(S) is type(T), 'type of the subset')
    ids = np.flatnonzero(mask)
    require(S.n_elements[-1] == len(ids), 'number of selected cells')
    equal(np.asarray(S.parent_idx[-1]), ids, 'the selected cells, in their order')
    check_parent_idx(S, T, kind, 'subset: ')
    p0 = np.asarray(S.parent_idx[0])
    equal(p0[S.elements[-1]], cells[ids], 'cells of the subset keep their oriented corners')
    require((np.diff(p0) > 0).all(), 'vertices keep their relative order')
    for k in range(b['d'] + 1):
        require(S.n_elements[k] == (len(all_faces(cells[ids], kind, k)) if k < b['d'] else len(ids)), 'number of %d-elements of the subset' % k)
    models.check_chain_complex(S, kind, 'subset: ')
    raises(ValueError, lambda: T.select_subset(np.ones(n + 1)), 'mask of the wrong length')


@P.sub('subset_simplicial', st.tuples(gen.simplicial(dims=(1, 2, 2, 3), ops=('st', 'rm', 'union', 'wedge'), orient=('keep', 'random')), gen.noise(24), st.integers(0, 3), st.integers(0, 255)).map(list), n=900)
def subset_simplicial(case, rec):
    check_subset(TopologySimplicial, gen.build_simplicial(case[0]), 'simplicial', case, rec)


@P.sub('subset_cubical', st.tuples(gen.cubical(dims=(1, 2, 2, 3), orient=('keep', 'random')), gen.noise(24), st.integers(0, 3), st.integers(0, 255)).map(list), n=600)
def subset_cubical(case, rec):
    check_subset(TopologyCubical, gen.build_cubical(case[0]), 'cubical', case, rec)


@P.sub('doubled', st.tuples(gen.doubled(), gen.noise(24), st.integers(0, 3), st.integers(0, 255)).map(list), n=200)
def doubled(case, rec):
    b = gen.build_doubled(case[0])
    cls = TopologyCubical if b['kind'] == 'cubical' else TopologySimplicial
    rec.label(case[0][0])
    check_subset(cls, b, b['kind'], case, rec)
    if not case[0][0].startswith('moebius') and max(len(l) for l in table_of(b['cells'], b['kind']).values()) <= 2:
        check_boundary(cls, b, b['kind'], rec)


@P.sub('high_simplicial', gen.simplicial(dims=(4, 5, 5, 6), ops=('st', 'rm'), max_ops=2, orient=('keep', 'keep', 'random')), n=60)
def high_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('high_cubical', gen.cubical(dims=(4, 5, 5, 6), kinds=('grid', 'surf'), max_rm=2, orient=('keep', 'keep', 'random')), n=30)
def high_cubical(case, rec):
    cubical(case, rec)


@P.sub('large_simplicial', gen.large('simplicial', dims=(1, 2, 3, 3), orient=('keep',)), n=16)
def large_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('large_cubical', gen.large('cubical', dims=(1, 2, 3, 3), orient=('keep',)), n=16)
def large_cubical(case, rec):
    cubical(case, rec)


huge.register(P, ('tri', 'tet', 'quad', 'hex'), huge.boundary, huge.subset, consistent=True)
