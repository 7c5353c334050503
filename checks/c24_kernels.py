import itertools
import math
import operator

import numpy as np
import scipy.sparse
from hypothesis import strategies as st

from lib import gen, geo
from lib.pbt import Property, require, equal, close, raises

from pycomplex import sparse, solvers, util
from pycomplex.math import combinatorial
from pycomplex.topology import util as tutil, index_dtype, sign_dtype

P = Property('C24', rule='Random lists, permutations, index arrays, sparse matrices and symmetric systems; non-trivial: more than one element or unknown.')


@P.sub('combinatorial', st.tuples(st.lists(st.integers(-50, 50), min_size=1, max_size=6, unique=True), st.integers(0, 6)).map(list), n=150 * 3)
def comb(case, rec):
    L, n = case
    n = min(n, len(L))
    rec.nt(len(L) > 1)
    keep = list(L)
    got = [(int(p), tuple(q)) for p, q in combinatorial.permutations(L)]
    require(sorted(q for _, q in got) == sorted(itertools.permutations(L)), 'all permutations, once')
    for p, q in got:
        require(p == gen.parity([L.index(v) for v in q]), 'parity of %s' % (q,))
    require(got[0][1] == tuple(L) and got[0][0] == 0, 'the identity comes first')
    c = [tuple(q) for _, q in combinatorial.combinations(L, n)]
    require(c == list(itertools.combinations(L, n)), 'combinations in order')
    require([int(p) for p, _ in combinatorial.combinations(L, 1)] == [i % 2 for i in range(len(L))], 'parity of single elements')
    equal(L, keep, 'input is left alone')
    # running totals and pairs
    require(list(util.accumulate(L)) == list(itertools.accumulate(L)), 'running sums')
    require(list(util.accumulate(L, operator.mul)) == list(itertools.accumulate(L, operator.mul)), 'running products')
    require(list(util.accumulate([])) == [], 'running sums of nothing')
    require(list(util.pairs(L)) == list(zip(L[:-1], L[1:])), 'pairs')
    require(list(util.pairs(iter(L))) == list(zip(L[:-1], L[1:])), 'pairs of an iterator')
    require(list(util.pairs([])) == [], 'pairs of nothing')


@P.sub('indices', st.tuples(geo.seeds, st.lists(st.integers(1, 5), min_size=1, max_size=4), st.integers(2, 5), st.integers(1, 30),
                            st.sampled_from([10, 300, 70000, 2 ** 31 - 10])).map(list), n=400 * 3)
def indices(case, rec):
    seed, shape, m, n, top = case
    g = geo.rng(seed)
    rec.nt(n > 1)
    I = tutil.indices(tuple(shape))
    require(len(I) == len(shape), 'one index array for each axis')
    for a, b in zip(I, np.indices(shape)):
        equal(a, b, 'indices')
    # sort and argsort
    arr = np.array([g.choice(12, size=m, replace=False) for _ in range(n)]) + top
    for axis in (0, 1):
        keep = arr.copy()
        s, a = tutil.sort_and_argsort(arr, axis)
        equal(s, np.sort(arr, axis=axis), 'sorted')
        equal(np.take_along_axis(arr, a, axis), s, 'argsort')
        equal(arr, keep, 'input is left alone')
    # relative permutations
    p, q = [np.array([g.permutation(m) for _ in range(n)]) for _ in range(2)]
    r = tutil.relative_permutations(p, q)
    for i in range(n):
        for j in range(m):
            require(r[i, q[i, j]] == p[i, j], 'relative permutation')
    # looking up elements by their vertices, whatever the order of those
    base = np.array(sorted({tuple(sorted(int(v) for v in g.randint(0, 9, size=m))) for _ in range(n)}))
    base = base + (top if top > 20 else 0)
    this = np.array([g.permutation(b) for b in base])
    that_i = g.randint(len(base), size=(n, 2))
    that = np.array([[g.permutation(base[k]) for k in row] for row in that_i])
    keep = this.copy(), that.copy()
    got = tutil.element_indices(this, that)
    equal(got, that_i, 'element indices')
    require(got.dtype == index_dtype, 'dtype of indices')
    if m == 4:
        # cubes have their corners in a grid
        got = tutil.element_indices(this.reshape(-1, 2, 2), that.reshape(n, 2, 2, 2))
        equal(got, that_i, 'element indices of cubes')
    equal(this, keep[0], 'input is left alone')
    equal(that, keep[1], 'input is left alone')
    missing = np.full((1, m), 10 ** 6 + 20)
    raises(KeyError, lambda: tutil.element_indices(this, missing), 'an element that does not exist')


@P.sub('matrices', st.tuples(geo.seeds, st.integers(1, 8), st.integers(1, 8), st.integers(1, 4)).map(list), n=300 * 3)
def matrices(case, rec):
    seed, n, m, k = case
    g = geo.rng(seed)
    rec.nt(n > 1)
    s = g.randint(-1, 2, size=n)
    S = tutil.selection_matrix(s)
    want = np.eye(n)[np.flatnonzero(s)]
    equal(S, want, 'selection matrix')
    S = tutil.selection_matrix(s != 0)
    equal(S, want, 'selection matrix of flags')
    x = g.normal(size=n)
    equal(S * x, x[s != 0], 'selection')
    # transfer matrices
    r = g.permutation(n * m)[:n * m // 2 + 1]
    T = tutil.transfer_matrix(r % n, r // n, (n, m))
    want = np.zeros((n, m))
    want[r % n, r // n] = 1
    equal(T, want, 'transfer matrix')
    # topology matrices: column j has the boundary elements of element j
    nb = k + g.randint(1, 6)
    el = np.array([g.choice(nb, size=k, replace=False) for _ in range(m)])
    el[g.randint(m), g.randint(k)] = nb - 1
    for row in el:
        # no element occurs twice
        if len(set(row)) < k:
            row[:] = g.permutation(nb)[:k]
    if el.max() < nb - 1:
        el[0] = np.arange(nb - k, nb)
    o = g.choice([-1, 1], size=el.shape)
    M = tutil.topology_matrix(el, o)
    want = np.zeros((nb, m))
    for j in range(m):
        want[el[j], j] = o[j]
    equal(M, want, 'topology matrix')
    back = tutil.sparse_to_elements(M.T)
    equal(np.sort(back, axis=1), np.sort(el, axis=1), 'elements of a topology matrix')
    # parity and orientation
    par = g.randint(0, 2, size=5)
    equal(tutil.parity_to_orientation(par), par * 2 - 1, 'parity to orientation')
    equal(tutil.parity_to_orientation(par.astype(bool)), par * 2 - 1, 'parity to orientation')
    equal(tutil.orientation_to_parity(par * 2 - 1), par == 0, 'orientation to parity')


@P.sub('sparse', st.tuples(geo.seeds, st.integers(1, 8), st.integers(1, 8), st.sampled_from(['csr', 'csc', 'coo'])).map(list), n=300 * 3)
def sp(case, rec):
    seed, n, m, fmt = case
    g = geo.rng(seed)
    rec.nt(n * m > 1)
    D = g.normal(size=(n, m)) * (g.uniform(size=(n, m)) < .6)
    D[np.arange(n), g.randint(m, size=n)] = g.choice([-2., 3.], size=n)
    D[g.randint(n, size=m), np.arange(m)] = g.choice([-1., .5], size=m)
    A = scipy.sparse.coo_matrix(D).asformat(fmt)
    equal(sparse.ones_like(A), (D != 0) * 1., 'all nonzeros set to one')
    equal(A, D, 'input is left alone')
    for axis in (0, 1):
        got = sparse.normalize_l1(A, axis=axis)
        close(got, D / np.abs(D).sum(axis=axis, keepdims=True), 'absolute sums of one along axis %d' % axis, tol=1e-12, scale=1)
    close(sparse.normalize_l1(A), D / np.abs(D).sum(axis=1, keepdims=True), 'absolute sums of one', tol=1e-12, scale=1)
    equal(A, D, 'input is left alone')
    signs = scipy.sparse.csr_matrix(np.sign(D).astype(np.int8))
    close(sparse.normalize_l1(signs), np.sign(D) / (D != 0).sum(axis=1, keepdims=True), 'normalized incidence', tol=1e-12, scale=1)
    d = g.uniform(.1, 3, size=n) * g.choice([-1, 1], size=n)
    close(sparse.inv_diag(scipy.sparse.diags(d)), np.diag(1 / d), 'inverse of a diagonal matrix', tol=1e-12)
    raises(AssertionError, lambda: sparse.inv_diag(A.tocsr()), 'inverse of a matrix that is not diagonal')
    if n > 1:
        raises(AssertionError, lambda: sparse.inv_diag(scipy.sparse.diags([d[1:]], [1]).todia()), 'inverse of an off-diagonal matrix')
    big = (n * 100, m * 1000)
    Z = sparse.sparse_zeros(big)
    require(Z.shape == big and Z.nnz == 0, 'zeros')
    Z = sparse.zeros_like(A)
    equal(Z, np.zeros((n, m)), 'zeros of the same shape')
    equal(sparse.zeros_like(D), np.zeros((n, m)), 'zeros of the same shape')


@P.sub('cg', st.tuples(geo.seeds, st.integers(1, 12), st.sampled_from(['none', 'mean', 'subspace']), st.booleans(), st.sampled_from([1, 10])).map(list), n=300 * 3)
def cg(case, rec):
    seed, n, kind, guess, scale = case
    g = geo.rng(seed)
    rec.nt(n > 1)
    rec.label(kind)
    Q = ortho = np.linalg.qr(g.normal(size=(n, n)))[0]
    # operators of either sign
    A = Q.dot(np.diag(g.uniform(1, 10, size=n))).dot(Q.T) * g.choice([1, 1, -1])
    k = 0 if kind == 'none' or n < 2 else (1 if kind == 'mean' else g.randint(1, n))
    N = np.linalg.qr(np.ones((n, 1)) if kind == 'mean' else g.normal(size=(n, k)))[0][:, :k]
    Pr = np.eye(n) - N.dot(N.T)

    def deflate(x):
        x[...] = Pr.dot(x)
    b = g.normal(size=n) * scale
    # the solution within the subspace: P A x = P b with x = P x
    want = np.linalg.pinv(Pr.dot(A).dot(Pr), rcond=1e-9).dot(Pr.dot(b))
    x0 = g.normal(size=n) * scale if guess else None
    kept = None if x0 is None else x0.copy()
    bk = b.copy()
    x = solvers.solve_cg(deflate, lambda q: A.dot(q), b, x0)
    close(x, want, 'solution of a constrained system', tol=1e-3, scale=np.abs(want).max() + (0 if x0 is None else np.abs(x0).max()))
    close(Pr.dot(x), x, 'the solution obeys the constraint', tol=1e-10, scale=scale * 10)
    equal(b, bk, 'right hand side is left alone')
    if x0 is not None:
        equal(x0, kept, 'guess is left alone')
        x = solvers.solve_cg(deflate, lambda q: A.dot(q), b, want)
        close(x, want, 'starting from the solution', tol=1e-10, scale=np.abs(want).max())
    if n % 2 == 0 and kind == 'none':
        # forms with more than one axis
        x = solvers.solve_cg(lambda q: None, lambda q: A.dot(q.reshape(-1)).reshape(q.shape), b.reshape(2, -1))
        close(x, want.reshape(2, -1), 'system over an array', tol=1e-3, scale=np.abs(want).max())


@P.sub('cg_long', st.tuples(geo.seeds, st.integers(60, 160), st.sampled_from(['none', 'mean', 'subspace']), st.booleans()).map(list), n=60)
def cg_long(case, rec):
    """systems that take more than a hundred iterations"""
    seed, n, kind, guess = case
    g = geo.rng(seed)
    Q = np.linalg.qr(g.normal(size=(n, n)))[0]
    A = Q.dot(np.diag(10 ** np.linspace(0, 3.5, n))).dot(Q.T)
    A = (A + A.T) / 2
    k = 0 if kind == 'none' else (1 if kind == 'mean' else g.randint(1, 5))
    N = np.linalg.qr(np.ones((n, 1)) if kind == 'mean' else g.normal(size=(n, k)))[0][:, :k]
    count = [0]

    def deflate(x):
        x[...] = x - N.dot(N.T.dot(x))

    def apply(x):
        count[0] += 1
        return A.dot(x)
    b = g.normal(size=n) * 1e3 + N.dot(g.normal(size=k)) * 1e4
    x0 = g.normal(size=n) if guess else None
    x = solvers.solve_cg(deflate, apply, b, x0)
    rec.nt(count[0] > 60)
    rec.label(kind, 'iterations > 100' if count[0] > 100 else '')
    require(np.abs(N.T.dot(x)).max() < 1e-9 * np.abs(x).max() if k else True, 'the solution obeys the constraint')
    r0 = b - (A.dot(x0 - N.dot(N.T.dot(x0))) if guess else 0)
    r = b - A.dot(x)
    deflate(r0)
    deflate(r)
    require(np.linalg.norm(r) < 1e-3 * np.linalg.norm(r0), 'residual of a system after %d iterations: %g of %g' % (count[0], np.linalg.norm(r), np.linalg.norm(r0)))
    require(count[0] < 12 * n, 'conjugate gradients converges in about as many steps as there are unknowns: %d for %d' % (count[0], n))


@P.sub('minres', st.tuples(geo.seeds, st.integers(1, 10), st.booleans(), st.sampled_from([0, 0, .5, -2])).map(list), n=300 * 3)
def minres(case, rec):
    seed, n, definite, shift = case
    g = geo.rng(seed)
    rec.nt(n > 1)
    rec.label('definite' if definite else 'indefinite')
    Q = np.linalg.qr(g.normal(size=(n, n)))[0]
    e = g.uniform(1, 10, size=n) * (1 if definite else g.choice([-1, 1], size=n))
    A = Q.dot(np.diag(e + shift)).dot(Q.T)
    A = (A + A.T) / 2
    b = g.normal(size=n)
    want = np.linalg.solve(A - shift * np.eye(n), b)
    kb, kA = b.copy(), A.copy()
    for x0 in (None, np.zeros(n)):
        x = solvers.solve_minres(A, b, x0=x0, shift=shift, tol=1e-10)
        close(x, want, 'solution of a symmetric system', tol=1e-08)
        x = solvers.solve_minres(A, b, x0=x0, shift=shift)
        close((A - shift * np.eye(n)).dot(x), b, 'residual', tol=2e-3)
    S = A - shift * np.eye(n)
    close(solvers.solve_minres(S, b, tol=1e-09), want, 'not shifted by default', tol=1e-5)
    close(S.dot(solvers.solve_minres(S, b)), b, 'residual by default', tol=2e-3)
    # systems of integers
    I = g.randint(-3, 4, size=(n, n))
    I = I + I.T + np.diag([20 * n] * n)
    c = g.randint(-9, 10, size=n)
    close(solvers.solve_minres(I, c, tol=3e-06), np.linalg.solve(I, c), 'solution of a system of integers', tol=1e-4)
    equal(solvers.solve_minres(A, b * 0, shift=shift), b * 0, 'zero right hand side')
    equal(A, kA, 'input is left alone')
    equal(b, kb, 'input is left alone')
