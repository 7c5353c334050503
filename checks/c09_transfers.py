import itertools

import numpy as np
from scipy.sparse import csr_matrix as csr
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, close

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical

P = Property('C09', rule='Random triangulations and cubical complexes (any numbering and orientation, open or closed), subdivided once or '
             'twice; the transfer matrices are compared with the geometric ancestry of the cells; non-trivial: at least two coarse cells.')

dense = models.dense


def dot(a, b):
    return (csr(a) * csr(b)).toarray()


def face_index(T):
    idx = [{models.key(e): i for i, e in enumerate(c)} for c in T.corners]
    off = np.cumsum([0] + [len(c) for c in T.corners])
    return idx, off


def carriers(T, kind, vertices='all'):
    """for each fine vertex, the vertex set of the smallest coarse element containing it"""
    orders = range(T.n_dim + 1) if vertices == 'all' else vertices
    out = []
    for k in orders:
        out.extend(frozenset(int(v) for v in c) for c in T.corners[k])
    return out


def expected_transfer(T, S, k, car):
    """0/1 matrix: fine k-element is part of coarse k-element"""
    M = np.zeros((S.n_elements[k], T.n_elements[k]), dtype=int)
    coarse = {frozenset(int(v) for v in c): j for j, c in enumerate(T.corners[k])}
    for i, c in enumerate(S.corners[k]):
        u = frozenset().union(*[car[int(v)] for v in np.atleast_1d(c)])
        j = coarse.get(u)
        if j is None:
            # the union of the carriers may not be a face itself, but span one of a bigger element; for cubes the span of
            # two opposite corners is found among the elements containing all
            continue
        M[i, j] = 1
    return M


def check_transfers(T, S, car, msg, signed=True):
    require(len(S.transfer_matrices) == T.n_dim + 1, msg + 'one transfer matrix per dimension')
    tm = [dense(t).astype(int) for t in S.transfer_matrices]
    for k in range(T.n_dim + 1):
        equal(tm[k], expected_transfer(T, S, k, car), msg + 'transfer of %d-elements' % k)
    if signed:
        for k in range(T.n_dim):
            fine = dense(S.matrices[k]).astype(int)
            coarse = dense(T.matrices[k]).astype(int)
            equal(dot(fine, tm[k + 1])[tm[k].any(axis=1)], dot(tm[k], coarse)[tm[k].any(axis=1)],
                  msg + 'fine elements inherit the orientation of coarse %d-elements' % (k + 1))
            rest = dot(fine, tm[k + 1])[~tm[k].any(axis=1)]
            require(not rest.any(), msg + 'internal boundaries of subdivided %d-elements cancel' % (k + 1))


def check_dual(T, S, msg):
    if not models.is_consistent(T.elements[-1], 'simplicial' if isinstance(T, TopologySimplicial) else 'cubical'):
        return False
    if not (T.is_manifold and T.is_oriented) or T.is_closed:
        return False
    D = S.dual.transfer_matrices
    tm = [dense(t).astype(int) for t in S.transfer_matrices]
    n = T.n_dim
    require(len(D) == n + 1, msg + 'one dual transfer per dimension')
    for k in range(n + 1):
        d = dense(D[n - k]).astype(int)     # pairs with primal k-elements
        nf, nc = S.n_elements[k], T.n_elements[k]
        if k == 0:
            equal(d, tm[k], msg + 'dual transfer of dual %d-elements' % (n - k))
            continue
        require(d.shape == (S.dual.n_elements[n - k], T.dual.n_elements[n - k]), msg + 'shape of dual transfer')
        equal(d[:nf, :nc], tm[k], msg + 'interior of dual transfer')
        require(not d[:nf, nc:].any() and not d[nf:, :nc].any(), msg + 'dual transfer does not mix interior and boundary')
        pf, pc = S.boundary.parent_idx[k - 1], T.boundary.parent_idx[k - 1]
        want = tm[k - 1][np.asarray(pf)][:, np.asarray(pc)]
        equal(d[nf:, nc:], want, msg + 'boundary of dual transfer')
    return True


SIMP2 = gen.simplicial(dims=(2,), top=3, ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'keep', 'random'), max_ops=4)


@P.sub('loop', st.tuples(SIMP2, st.booleans(), st.booleans()).map(list), n=900)
def loop(case, rec):
    r, direct, twice = case
    b = gen.build_simplicial(r)
    rec.nt(len(b['cells']) > 1)
    T = TopologySimplicial.from_simplices(b['cells']).as_2()
    if twice and len(b['cells']) < 9:
        T = T.subdivide_loop_direct() if direct else T.subdivide_loop()
        rec.label('composed')
    car = carriers(T, 'simplicial', (0, 1))
    for S, m in [(T.subdivide_loop(), 'loop: '), (T.subdivide_loop_direct(), 'direct: ')]:
        check_transfers(T, S, car, m)
        if check_dual(T, S, m):
            rec.label('dual')


def cube_ancestry(T, S, k, kind='cubical'):
    """fine k-cube -> coarse k-cube containing it"""
    off = np.cumsum([0] + [len(c) for c in T.corners])
    rows = []
    for i, c in enumerate(np.asarray(S.corners[k]).reshape(S.n_elements[k], -1)):
        low = [v for v in c if v < off[1]]
        top = max(int(v) for v in c)
        o = int(np.searchsorted(off, top, side='right') - 1)
        if low and o == k:
            rows.append((i, top - off[k]))
    M = np.zeros((S.n_elements[k], T.n_elements[k]), dtype=int)
    for i, j in rows:
        M[i, j] = 1
    return M


@P.sub('cubical', st.tuples(gen.cubical(dims=(1, 2, 2, 3), orient=('keep', 'keep', 'random')), st.booleans()).map(list), n=700)
def cubical(case, rec):
    r, twice = case
    b = gen.build_cubical(r)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'])
    T = TopologyCubical.from_cubes(b['cells'])
    if twice and len(b['cells']) < 6 and b['d'] < 3:
        T = T.subdivide_cubical()
        rec.label('composed')
    S = T.subdivide_cubical()
    off = np.cumsum([0] + T.n_elements)
    tm = [dense(t).astype(int) for t in S.transfer_matrices]
    require(len(tm) == T.n_dim + 1, 'one transfer matrix per dimension')
    for k in range(T.n_dim + 1):
        equal(tm[k], cube_ancestry(T, S, k), 'transfer of %d-cubes' % k)
        require((tm[k].sum(axis=0) == 2 ** k).all(), 'a %d-cube has 2^%d descendants' % (k, k))
        f, c = S.transfers[k]
        pairs = sorted(zip(f.tolist(), c.tolist()))
        require(pairs == sorted(zip(*map(lambda q: q.tolist(), np.nonzero(tm[k])))), 'transfers of %d-cubes' % k)
    order, parent = T.subdivide_cubical_relations(S)
    for k in range(T.n_dim + 1):
        e = np.asarray(S.elements[k])
        o = np.searchsorted(off, e, side='right') - 1
        equal(np.asarray(order[k]).astype(int).reshape(e.shape), o, 'order of the coarse element at each corner')
        equal(np.asarray(parent[k]).reshape(e.shape), e - off[o], 'index of the coarse element at each corner')
    if b['d'] < 3:
        for k in range(T.n_dim):
            fine = dense(S.matrices[k]).astype(int)
            equal(dot(fine, tm[k + 1]), dot(tm[k], dense(T.matrices[k]).astype(int)), 'fine cubes inherit the orientation of %d-cubes' % (k + 1))
    if check_dual(T, S, 'cubical: '):
        rec.label('dual')
    if b['d'] == 2:
        Q = T.as_2()
        F = Q.subdivide_simplicial()
        require(F.parent is Q, 'quads to triangles: parent')
        A = dense(F.transfer_operators[0])
        n0 = T.n_elements[0]
        want = np.zeros((n0 + T.n_elements[2], n0))
        want[:n0] = np.eye(n0)
        for j, c in enumerate(T.corners[2]):
            want[n0 + j, c] += .25
        close(A, want, 'quads to triangles: transfer of vertices')
        A = dense(F.transfer_operators[2]).astype(int)
        want = np.zeros((F.n_elements[2], T.n_elements[2]), dtype=int)
        for i, c in enumerate(F.elements[2]):
            want[i, max(c) - n0] = 1
        equal(A, want, 'quads to triangles: transfer of cells')


@P.sub('high_cubical', st.tuples(gen.cubical(dims=(4,), kinds=('grid', 'surf'), top=2, orient=('keep', 'keep', 'random'))).map(list), n=20)
def high_cubical(case, rec):
    cubical(case + [False], rec)


@P.sub('large_loop', st.tuples(gen.large('simplicial', dims=(2,)), st.booleans()).map(list), n=8)
def large_loop(case, rec):
    loop(case + [False], rec)


@P.sub('large_cubical', st.tuples(gen.large('cubical', dims=(1, 2))).map(list), n=8)
def large_cubical(case, rec):
    cubical(case + [False], rec)


huge.register(P, ('tri', 'curve', 'quad', 'hex'), huge.transfer, consistent=True)
