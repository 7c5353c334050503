"""Multigrid transfers of subdivided cubical complexes against dense linear algebra"""
import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises
from lib.models import dense

from pycomplex.complex.cubical import ComplexCubical

P = Property('C34', rule='Subdivisions of random cubical complexes of one to three dimensions (grids with missing cubes, periodic and twisted grids, hollow boxes, split simplices), oriented or not '
             'in the way cells are listed; non-trivial: more than one coarse cube.')


@P.sub('transfer', st.one_of(gen.cubical(dims=(1, 2, 2), top=3, orient=('keep', 'random')), gen.cubical(dims=(3,), top=1, kinds=('grid', 'simp', 'surf'))), n=250)
def transfer(case, rec, limit=900):
    check(gen.build_cubical(case), rec, limit)


def check(b, rec, limit):
    cells, n, d = b['cells'], b['n_vertices'], b['d']
    g = geo.rng(n)
    C = ComplexCubical(vertices=g.normal(size=(n, d)), cubes=cells)
    F = C.subdivide_cubical()
    require(F.parent is C, 'parent')
    T, fine = C.topology, F.topology
    if sum(fine.n_elements) > limit:
        return
    rec.nt(len(cells) > 1)
    offset = np.cumsum([0] + list(T.n_elements))
    order = np.concatenate([np.full(m, k) for k, m in enumerate(T.n_elements)])
    R = F.multigrid_transfers
    require(len(R) == d + 1, 'a transfer for each dimension')
    M = [dense(m).astype(float) for m in fine.matrices]
    for k in range(d + 1):
        nf, nc = fine.n_elements[k], T.n_elements[k]
        L = np.zeros((nf, nf))
        if k:
            L += M[k - 1].T.dot(M[k - 1])
        if k < d:
            L += M[k].dot(M[k].T)
        lam = np.linalg.eigvalsh(L).max()
        S = np.eye(nf) - L / lam
        TM = np.zeros((nf, nc))
        low = np.zeros(nf, dtype=int)
        for i, c in enumerate(fine.corners[k]):
            o = order[c]
            low[i] = o.min()
            if o.min() == 0:
                top = c[np.argmax(o)]
                require(o.max() == k, 'order of fine corners')
                TM[i, top - offset[k]] = 1
        equal(dense(fine.transfer_matrices[k]), TM, 'direct ancestry of %d-elements' % k)
        want = np.zeros((nf, nc))
        A = TM
        for j in range(d + 1):
            want[low == j] = A[low == j]
            A = S.dot(A)
        got = dense(R[k])
        require(got.shape == (nf, nc), 'shape of the transfer of %d-elements' % k)
        close(got, want, 'transfer of %d-elements' % k, tol=7e-09, scale=1.)
        rec.label('k=%d' % k)
    equal(C.topology.elements[-1], cells, 'the complex is left alone')


@P.sub('transfer_large', st.tuples(st.sampled_from([[11, 11], [16, 7], [8, 12], [300], [420], [3, 4, 3]]), st.booleans(), geo.seeds).map(list), n=4, thorough=5)
def transfer_large(case, rec):
    """of several hundreds of coarse cubes, with random numbers and some of them turned around"""
    shape, mixed, seed = case
    g = geo.rng(seed)
    transfer({'base': ['grid', shape], 'labels': g.bytes(64).hex(), 'orient': 'random' if mixed else 'keep', 'inner': g.bytes(64).hex()}, rec, limit=6000)


@P.sub('hub', st.tuples(st.sampled_from(['star', 'fan', 'book']), st.sampled_from([100, 128, 150, 200, 256, 270]), geo.seeds).map(list), n=6, thorough=5)
def hub(case, rec):
    """with very many cubes around a single vertex or edge, so that the Laplacian has numbers beyond those of a byte"""
    kind, count, seed = case
    g = geo.rng(seed)
    if kind == 'star':
        cells = np.array([[0, 1 + k] for k in range(count)])
    elif kind == 'fan':
        count = count // 2 + 20
        ring = np.arange(2 * count) + 1
        cells = np.array([[[0, ring[2 * k]], [ring[2 * k - 2], ring[2 * k - 1]]] for k in range(count)])
    else:
        count = count // 2 + 20
        cells = np.array([[[0, 1], [2 + 2 * k, 3 + 2 * k]] for k in range(count)])
    rec.label(kind, 'beyond a byte' if count > 127 else '')
    d = cells.ndim - 1
    n = int(cells.max()) + 1
    p = g.permutation(n)
    group = gen.hyperoctahedral(d)
    cells = np.array([gen.act(p[c], group[g.randint(len(group))]) for c in cells])
    check({'cells': cells[g.permutation(len(cells))], 'n_vertices': n, 'd': d}, rec, 6000)
