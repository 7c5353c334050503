import numpy as np
from scipy.sparse import csr_matrix as csr

from lib import gen, huge, models
from lib.pbt import Property, require, equal, raises

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.topology.dual import Dual, ClosedDual

P = Property('C06', rule='Random oriented manifold simplicial and cubical complexes, closed and bounded, connected and not; '
             'non-trivial: at least two cells; bounded and closed cases are counted separately in the labels.')


def check(cls, b, kind, rec):
    d = b['d']
    T = cls.from_elements(b['cells'])
    if not all(b['orientable']) or not models.is_consistent(b['cells'], kind):
        rec.label('not oriented')
        raises(ValueError, lambda: T.dual, 'dual of a topology that is not oriented')
        return
    if not (T.regions_per_vertex == 1).all():
        rec.label('non-manifold')
        return
    B = T.boundary
    if B is not None and d >= 2:
        ft = gen.facet_table(B.elements[-1]) if kind == 'simplicial' else gen.cube_facet_table(B.elements[-1])
        if max(len(l) for l in ft.values()) > 2 or not (B.regions_per_vertex == 1).all():
            rec.label('non-manifold boundary')
            return
    D = T.dual
    require(D.n_dim == d, 'dimension')
    raises(ValueError, lambda: (Dual if B is None else ClosedDual)(T), 'the dual of the other kind')
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % d, 'closed' if B is None else 'bounded')
    nb = [0] * (d + 1) if B is None else list(B.n_elements) + [0]
    nb = [int(q) for q in nb]
    # dual k-elements: one per primal (d-k)-element, plus one per boundary (d-1-k)-element
    want = [T.n_elements[d - k] + (nb[d - 1 - k] if k < d else 0) for k in range(d + 1)]
    require([int(q) for q in D.n_elements] == want, 'dual element counts %s, expected %s' % (D.n_elements, want))
    M = [models.dense(m).astype(int) for m in D.matrices]
    require(len(M) == d, 'number of dual matrices')
    for k in range(d):
        require(M[k].shape == (want[k], want[k + 1]), 'shape of dual matrix %d' % k)
    for k in range(d - 1):
        require(not (csr(M[k]) * csr(M[k + 1])).data.any(), 'dual boundary of boundary')
    D.check_chain()
    # the dual of the interior is the transpose of the primal
    for k in range(d):
        m = models.dense(T.matrices[d - 1 - k]).astype(int)
        equal(M[k][:m.shape[1], :m.shape[0]], m.T, 'interior block of dual matrix %d' % k)
        equal(models.dense(D.matrices_2[k]).astype(int)[:m.shape[1]], m.T if B is None else M[k][:m.shape[1], :m.shape[0]], 'matrices_2')
        require(models.dense(D.matrices_2[k]).shape == (want[k], T.n_elements[d - 1 - k]), 'shape of matrices_2')
        equal(models.dense(D.matrices_2[k]).astype(int), M[k][:, :m.shape[0]], 'matrices_2 drops the dual boundary columns')
    # every dual edge runs between exactly two dual vertices
    equal(np.abs(M[0]).sum(axis=0), np.full(want[1], 2), 'each dual edge has two ends')
    require(not M[0].sum(axis=0).any(), 'the ends of a dual edge have opposite sign')
    # boundary part: dual of the boundary complex, and one glue entry per boundary element
    if B is not None:
        for k in range(d):
            p = d - 1 - k                       # primal dimension of dual k+1 elements
            top = T.n_elements[d - k]
            rows = M[k][top:, :]
            nr = rows.shape[0]
            require(nr == nb[p], 'rows of the dual boundary')
            glue = rows[:, :T.n_elements[p]]
            ids = np.asarray(B.parent_idx[p])
            G = np.zeros_like(glue)
            G[np.arange(nr), ids] = 1
            equal(np.abs(glue), G, 'each boundary element closes the dual of its own primal element')
            if p > 0:
                bb = rows[:, T.n_elements[p]:]
                equal(np.abs(bb), np.abs(models.dense(B.matrices[p - 1]).astype(int)).T, 'dual of the boundary complex')
            require(not M[k][:top, T.n_elements[p]:].any(), 'dual boundary elements are bounded by dual boundary elements only')
    # the dual complex, boundary included, is a cell decomposition of the same space
    if sum(T.n_elements) < 260:
        pb = models.betti([models.dense(m).astype(int) for m in T.matrices], T.n_elements)
        db = models.betti(M, want)
        require(pb == db, 'Betti numbers of the dual %s, of the primal %s' % (db, pb))
        rec.label('betti=%s' % pb)
    # selectors are indexed by primal dimension and split the dual elements
    SI, SB = D.selector_interior, D.selector_boundary
    for p in range(d + 1):
        n, nd = T.n_elements[p], want[d - p]
        eye = np.eye(nd, dtype=int)
        equal(models.dense(SI[p]).reshape(-1, nd), eye[:n], 'selector_interior[%d]' % p)
        equal(models.dense(SB[p]).reshape(-1, nd), eye[n:], 'selector_boundary[%d]' % p)
    # forms and chains have the size of the dual elements
    for k in range(d + 1):
        require(D.form(k).shape == (want[k],) and D.chain(k).shape == (want[k],), 'size of dual forms')
    # averaging of dual vertices: uniform over the dual vertices in the closure of each dual element
    R = np.eye(want[0], dtype=int)
    for k in range(d):
        R = ((csr(R) * csr(np.abs(M[k]))).toarray() > 0).astype(int)
        A = models.dense(D.averaging_operators_0[k + 1])
        equal(A > 0, R.T > 0, 'support of the average of dual vertices over dual %d-elements' % (k + 1))
        require(np.allclose(A.sum(axis=1), 1), 'averages of dual vertices have weights adding up to one')


@P.sub('simplicial', gen.simplicial(dims=(1, 2, 2, 3, 3), ops=('st', 'rm', 'union'), orient=('keep', 'keep', 'keep', 'random')), n=1500)
def simplicial(case, rec):
    check(TopologySimplicial, gen.build_simplicial(case), 'simplicial', rec)


@P.sub('cubical', gen.cubical(dims=(1, 2, 2, 3, 3), orient=('keep', 'keep', 'keep', 'random')), n=900)
def cubical(case, rec):
    check(TopologyCubical, gen.build_cubical(case), 'cubical', rec)


@P.sub('doubled', gen.doubled(), n=200)
def doubled(case, rec):
    b = gen.build_doubled(case)
    rec.label(case[0])
    table = gen.facet_table(b['cells']) if b['kind'] == 'simplicial' else gen.cube_facet_table(b['cells'])
    if max(len(v) for v in table.values()) > 2:
        return      # a dual edge has two ends
    b['orientable'] = gen.orient_cells(len(b['cells']), table)[2]
    check(TopologyCubical if b['kind'] == 'cubical' else TopologySimplicial, b, b['kind'], rec)


@P.sub('high_simplicial', gen.simplicial(dims=(4, 5, 5, 6), ops=('st', 'rm'), max_ops=2, orient=('keep', 'keep', 'random')), n=60)
def high_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('high_cubical', gen.cubical(dims=(4, 5, 5, 6), kinds=('grid', 'surf'), max_rm=2, orient=('keep', 'keep', 'random')), n=30)
def high_cubical(case, rec):
    cubical(case, rec)


@P.sub('large_simplicial', gen.large('simplicial', dims=(1, 2, 3, 3), orient=('keep',)), n=16)
def large_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('large_cubical', gen.large('cubical', dims=(1, 2, 3, 3), orient=('keep',)), n=16)
def large_cubical(case, rec):
    cubical(case, rec)


huge.register(P, ('line', 'tri', 'tet', 'curve', 'quad', 'hex'), huge.dual, consistent=True)
