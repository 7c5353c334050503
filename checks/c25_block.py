import itertools

import numpy as np
import scipy.sparse
from hypothesis import strategies as st

from lib import gen, geo
from lib.pbt import Property, require, equal, close, raises

from pycomplex import block
from pycomplex.sparse import sparse_zeros

P = Property('C25', rule='Random block matrices and block vectors with blocks of equal and unequal, also zero, sizes, in various sparse formats; '
             'non-trivial: more than one block.')

SIZES = st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=4), st.integers(1, 3).flatmap(lambda k: st.lists(st.just(k), min_size=1, max_size=4)))
FORMATS = ['csr', 'csc', 'coo']


def matrix(g, r, c, sparse=True):
    """(block object, dense equivalent)"""
    blocks, dense = [], []
    for m in r:
        row, drow = [], []
        for n in c:
            d = g.randint(-3, 4, size=(m, n)) * (g.uniform(size=(m, n)) < .6) * 1.
            if g.randint(4) == 0:
                d[:] = 0
            if sparse:
                row.append(sparse_zeros((m, n)) if not d.any() and g.randint(2) else scipy.sparse.coo_matrix(d).asformat(FORMATS[g.randint(3)]))
            else:
                row.append(d)
            drow.append(d)
        blocks.append(row)
        dense.append(drow)
    return (block.SparseBlockMatrix if sparse else block.DenseBlockArray)(blocks), np.block(dense)


def vector(g, r, extra=()):
    v = [g.normal(size=(n,) + extra) for n in r]
    return block.DenseBlockArray(v), np.concatenate(v)


@P.sub('matrix', st.tuples(geo.seeds, SIZES, SIZES, SIZES).map(list), n=300 * 3)
def mat(case, rec):
    seed, r, c, k = case
    g = geo.rng(seed)
    rec.nt(len(r) * len(c) > 1)
    rec.label('equal sizes' if len(set(r)) == 1 and len(r) > 1 else 'other sizes')
    A, a = matrix(g, r, c)
    B, b = matrix(g, c, k)
    A2, a2 = matrix(g, r, c)
    require(A.ndim == 2 and A.block.shape == (len(r), len(c)), 'shape of the grid of blocks')
    require([list(s) for s in A.shape] == [list(r), list(c)], 'sizes of blocks')
    require((A.rows, A.cols) == (len(r), len(c)), 'rows and columns')
    require(bool(A.square) == (list(r) == list(c)), 'square')
    require(not A.nested, 'not nested')
    equal(A.merge(), a, 'merged')
    equal(A.transpose().merge(), a.T, 'transpose')
    require([list(s) for s in A.transpose().shape] == [list(c), list(r)], 'sizes of a transpose')
    equal((A + A2).merge(), a + a2, 'sum')
    AB = A * B
    require([list(s) for s in AB.shape] == [list(r), list(k)], 'sizes of a product')
    close(AB.merge(), a.dot(b), 'product', tol=1e-12, scale=10)
    close((A.transpose() * A).merge(), a.T.dot(a), 'normal equations', tol=1e-12, scale=10)
    equal(A.copy().merge(), a, 'copy')
    equal(A.apply(lambda q: q * 2).merge(), a * 2, 'applied to each block')
    C = A.copy()
    C.block[0, 0] = C.block[0, 0] * 7
    equal(A.merge(), a, 'a copy is independent')
    # vectors
    x, xd = vector(g, c)
    close((A * x).merge(), a.dot(xd), 'matrix times vector', tol=1e-12, scale=10)
    require([list(s) for s in (A * x).shape] == [list(r)], 'sizes of the result')
    cols = block.DenseBlockArray([[g.normal(size=(n, m)) for m in k] for n in c])
    close((A * cols).merge(), a.dot(cols.merge()), 'matrix times block columns', tol=1e-12, scale=10)
    # slices by block
    i, j = g.randint(len(r)), g.randint(len(c))
    R, Cc = np.cumsum([0] + list(r)), np.cumsum([0] + list(c))
    equal(A[i:].merge(), a[R[i]:], 'rows of blocks')
    equal(A[:, j:].merge(), a[:, Cc[j]:], 'columns of blocks')
    equal(A[i:i + 1, j:j + 1].merge(), a[R[i]:R[i + 1], Cc[j]:Cc[j + 1]], 'a block')
    # norms
    for axis in (0, 1):
        n = A.norm_l1(axis)
        close(n.merge(), np.abs(a).sum(axis=axis), 'absolute sums', tol=1e-12, scale=10)
        require([list(s) for s in n.shape] == [[list(c), list(r)][axis]], 'sizes of absolute sums')
    # scaling by row sums
    n = 1. / (A.norm_l1(1) + 1.)
    D = block.SparseBlockMatrix.as_diagonal(n)
    close(D.merge(), np.diag(1 / (np.abs(a).sum(axis=1) + 1)), 'diagonal block matrix', tol=1e-12)
    close((D * A).merge(), a / (np.abs(a).sum(axis=1, keepdims=True) + 1), 'rows scaled', tol=1e-12, scale=1)
    close(block.SparseBlockMatrix.diags(n).merge(), np.diag(1 / (np.abs(a).sum(axis=1) + 1)), 'diagonal block matrix', tol=1e-12)
    require([list(s) for s in D.shape] == [list(r), list(r)], 'sizes of a diagonal block matrix')
    # diagonal
    S, s = matrix(g, r, r)
    equal(S.diagonal().merge(), np.diag(s), 'diagonal')
    require([list(q) for q in S.diagonal().shape] == [list(r)], 'sizes of the diagonal')
    equal(A.merge(), a, 'operands are left alone')
    equal(B.merge(), b, 'operands are left alone')
    if len(c) != len(k):
        raises(AssertionError, lambda: A * block.DenseBlockArray([np.ones(n) for n in k]), 'incompatible product')


@P.sub('vector', st.tuples(geo.seeds, SIZES, SIZES, st.integers(0, 2)).map(list), n=300 * 3)
def vec(case, rec):
    seed, r, c, e = case
    g = geo.rng(seed)
    extra = (2, 3)[:e]
    rec.nt(len(r) > 1)
    rec.label('equal sizes' if len(set(r)) == 1 and len(r) > 1 else 'other sizes')
    x, xd = vector(g, r)
    y, yd = vector(g, r)
    yd = yd + np.sign(yd)
    y = x.split(yd)
    require(y.block.shape == (len(r),) and [list(s) for s in y.shape] == [list(r)], 'split keeps the sizes')
    for q, i, j in zip(y.block, np.cumsum([0] + list(r)), np.cumsum(r)):
        equal(q, yd[i:j], 'blocks of a split vector')
    equal(y.merge(), yd, 'split and merge')
    equal(x.merge(), xd, 'merge')
    equal((x + y).merge(), xd + yd, 'sum')
    equal((x * y).merge(), xd * yd, 'pointwise product')
    equal((x / y).merge(), xd / yd, 'quotient')
    equal((x + 2.).merge(), xd + 2, 'plus a number')
    equal((x * 3.).merge(), xd * 3, 'times a number')
    equal((1. / y).merge(), 1 / yd, 'reciprocal')
    equal((x / 4.).merge(), xd / 4, 'divided by a number')
    equal(x.apply(np.abs).merge(), np.abs(xd), 'applied to each block')
    k = g.randint(len(r))
    equal(x[k:].merge(), xd[sum(r[:k]):], 'a slice of blocks')
    require([q.shape for q in (x + y).block] == [(n,) for n in r], 'sizes of a sum')
    # forms with further axes, merged along the first
    z = block.DenseBlockArray([g.normal(size=(n,) + extra) for n in r])
    if e == 0:
        equal(z.split(z.merge()).merge(), z.merge(), 'split undoes merge')
    # two-dimensional
    A, a = matrix(g, r, c, sparse=False)
    require([list(s) for s in A.shape] == [list(r), list(c)], 'sizes of a dense block matrix')
    equal(A.merge(), a, 'dense block matrix')
    equal(A.transpose().merge(), a.T, 'transpose of a dense block matrix')
    S = A.split(a * 2)
    equal(S.merge(), a * 2, 'split and merge a dense block matrix')
    for i, j in itertools.product(range(len(r)), range(len(c))):
        equal(S.block[i, j], A.block[i, j] * 2, 'blocks of a split matrix')
    equal(x.merge(), xd, 'operands are left alone')
