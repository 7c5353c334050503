import itertools

import numpy as np
from hypothesis import strategies as st

from lib import geo, sten
from lib.pbt import Property, require, equal, close, raises

from pycomplex.stencil.complex import StencilComplex
from pycomplex.stencil.operator import DiagonalOperator, IdentityOperator, ZeroOperator, StencilOperator
from pycomplex.stencil.block import BlockArray, BlockOperator
from pycomplex.stencil.linear_system import System
from pycomplex.stencil.equation import Equation

P = Property('C28', rule='Systems over periodic grids of dimension 1 to 3 with random coefficients, sliced by ranges and lists of blocks, and block arrays with blocks of equal and '
             'unequal shape; non-trivial: more than one block.')


def coefficients(g, C, system):
    """multiply the blocks of a system with random fields, return dense blocks that should result"""
    shape, scale, D = C.shape, float(C.scale), C.n_dim
    fs = [sten.form_shape(shape, n) for n in range(D + 1)]
    N = [int(np.prod(f)) for f in fs]
    h = [scale ** (D - 2 * n) for n in range(D + 1)]
    B = [[np.zeros((N[i], N[j])) for j in range(D + 1)] for i in range(D + 1)]
    for n in range(D + 1):
        B[n][n] = np.eye(N[n]) * h[n]
    for n in range(D):
        M = sten.derivative_matrix(shape, n)
        B[n + 1][n] = M * h[n + 1]
        B[n][n + 1] = M.T * h[n + 1]
    return B, N


def build(g, C, mode):
    """(system, its dense blocks)"""
    S = System.canonical(C)
    B, N = coefficients(g, C, S)
    D = C.n_dim
    if mode:
        for i, j in itertools.product(range(D + 1), repeat=2):
            if abs(i - j) > 1:
                continue
            k = g.randint(5)
            if k == 0:
                S.A[i, j] = 0
                B[i][j] = B[i][j] * 0
            elif k == 1 and i == j:
                S.A[i, j] = 1
                B[i][j] = np.eye(N[i])
            elif k == 2:
                v = g.uniform(.5, 1.5, size=sten.form_shape(C.shape, j))
                S.A[i, j] = S.A[i, j] * DiagonalOperator(v, v.shape)
                B[i][j] = B[i][j].dot(np.diag(v.ravel()))
            elif k == 3:
                v = g.uniform(-1.5, -.5, size=sten.form_shape(C.shape, i))
                S.A[i, j] = DiagonalOperator(v, v.shape) * S.A[i, j]
                B[i][j] = np.diag(v.ravel()).dot(B[i][j])
    return S, B, N


def vector(g, C, degrees):
    v = [g.randint(-5, 6, size=sten.form_shape(C.shape, n)).astype(float) for n in degrees]
    return BlockArray(v, ndim=1), np.concatenate([q.ravel() for q in v])


ITEM = st.tuples(st.integers(0, 6), st.integers(0, 3), st.integers(0, 3)).map(list)


def select(it, N):
    """(index, list of blocks)"""
    kind, a, b = it
    if kind < 2:
        q = slice(None)
    elif kind < 4:
        a, b = sorted((a % N, b % N))
        q = slice(a, b + 1)
    elif kind == 4:
        q = [a % N]
    elif kind == 5:
        q = slice(None, None, 2)
    else:
        q = sorted({a % N, b % N}, reverse=bool(a % 2))
    return q, list(np.arange(N)[q])


@P.sub('system', st.tuples(geo.seeds, sten.shapes(max_dim=3, cells=12), sten.SCALES, st.integers(0, 1), ITEM, ITEM).map(list), n=500)
def system(case, rec):
    seed, shape, scale, mode, it0, it1 = case
    g = geo.rng(seed)
    D = len(shape)
    C = StencilComplex.from_shape(tuple(shape), scale=scale)
    S, B, N = build(g, C, mode)
    q0, r = select(it0, D + 1)
    q1, c = select(it1, D + 1)
    rec.nt(len(r) * len(c) > 1)
    rec.label('%dx%d' % (len(r), len(c)))
    full = np.block(B)
    close(S.A.to_dense(), full, 'matrix of the full complex', tol=4e-6)
    if not mode:
        close(S.A.transpose().to_dense(), full, 'the canonical system is symmetric', tol=4e-6)
    equal(S.B.to_dense(), np.eye(len(full)), 'right matrix is the identity')
    equal(S.L, np.arange(D + 1), 'degrees of rows')
    equal(S.R, np.arange(D + 1), 'degrees of columns')
    s = S[q0, q1]
    A = np.block([[B[i][j] for j in c] for i in r])
    T = np.abs(A).max() + 1e-300
    require(s.complex is C, 'complex of a subsystem')
    equal(s.L, r, 'degrees of rows of a subsystem')
    equal(s.R, c, 'degrees of columns of a subsystem')
    close(s.A.to_dense(), A, 'matrix of a subsystem', tol=4e-6, scale=T)
    equal(s.B.to_dense(), np.eye(len(A)), 'right matrix of a subsystem')
    fr, fc = [sten.form_shape(shape, n) for n in r], [sten.form_shape(shape, n) for n in c]
    require([[tuple(q) for q in z] for z in s.A.shape] == [fr, fc], 'shape of a block operator')
    require((s.A.rows, s.A.cols) == (len(r), len(c)), 'rows and columns')
    require(bool(s.A.is_square) == (fr == fc), 'square')
    # vectors
    x, xd = vector(g, C, c)
    y, yd = vector(g, C, r)
    F = np.abs(A).sum(axis=1).max() * 10 + 1e-300
    B0 = A.copy()
    close((s.A * x).to_dense(), A.dot(xd), 'matrix times vector', tol=4e-6, scale=F)
    close((s.A.transpose() * y).to_dense(), A.T.dot(yd), 'transposed matrix times vector', tol=4e-6, scale=F * len(A))
    require([b.shape for b in (s.A * x).block] == fr, 'shapes of the result')
    equal(x.to_dense(), xd, 'vector is left alone')
    L = s.A.aslinearoperator()
    require(L.shape == A.shape, 'shape as linear operator')
    close(L.matvec(xd), A.dot(xd), 'as linear operator', tol=4e-6, scale=F)
    close(L.rmatvec(yd), A.T.dot(yd), 'as transposed linear operator', tol=4e-6, scale=F * len(A))
    close(L.matvec(xd[:, None]).ravel(), A.dot(xd), 'as linear operator on a column', tol=4e-6, scale=F)
    for al, deg in ((s.allocate_x(), c), (s.allocate_y(), r)):
        require([b.shape for b in al.block] == [sten.form_shape(shape, n) for n in deg], 'shape of allocated vectors')
        require(not al.to_dense().any(), 'allocated vectors are zero')
    # sums and products
    close((s.A + s.A).to_dense(), 2 * A, 'sum', tol=4e-6, scale=T)
    G = T ** 2 * 20
    close((s.A.transpose() * s.A).to_dense(), A.T.dot(A), 'product', tol=1e-5, scale=G)
    # normal equations
    n = s.normal()
    close(n.A.to_dense(), A.T.dot(A), 'normal equations', tol=1e-5, scale=G)
    close(n.B.to_dense(), A.T, 'right matrix of the normal equations', tol=4e-6, scale=T)
    equal(n.L, c, 'degrees of rows of the normal equations')
    equal(n.R, c, 'degrees of columns of the normal equations')
    close(n.A.diagonal().to_dense(), np.diag(A.T.dot(A)), 'diagonal of the normal equations', tol=1e-5, scale=G)
    require([b.shape for b in n.A.diagonal().block] == fc, 'shapes of the diagonal')
    n = s.normal_ne()
    close(n.A.to_dense(), A.dot(A.T), 'normal equations of the second kind', tol=1e-5, scale=G)
    equal(n.B.to_dense(), np.eye(len(A)), 'right matrix of normal equations of the second kind')
    equal(n.L, r, 'degrees of rows')
    equal(n.R, r, 'degrees of columns')
    close(n.A.diagonal().to_dense(), np.diag(A.dot(A.T)), 'diagonal of the normal equations of the second kind', tol=1e-5, scale=G)
    # systems with another right matrix
    V = [g.choice([-2., .5, 3.], size=sten.form_shape(shape, k)) for k in range(D + 1)]
    R = BlockOperator.zeros(C.n_elements, C.n_elements)
    for k, v in enumerate(V):
        R[k, k] = DiagonalOperator(v, v.shape)
    t = S.copy(B=R)
    close(t.A.to_dense(), full, 'copy of a system', tol=4e-6)
    t = t[q0, q1]
    dr = np.diag(np.concatenate([V[k].ravel() for k in r]))
    equal(t.B.to_dense(), dr, 'right matrix of a subsystem')
    close(t.normal().B.to_dense(), B0.T.dot(dr), 'right matrix of the normal equations', tol=4e-6, scale=3 * T)
    equal(t.normal_ne().B.to_dense(), dr, 'right matrix of the normal equations of the second kind')
    e = Equation(t)
    close(e.residual(x, y).to_dense(), B0.dot(xd) - dr.dot(yd), 'residual', tol=4e-6, scale=F + 30)
    close(e.normal.residual(x, y).to_dense(), B0.T.dot(B0.dot(xd) - dr.dot(yd)), 'residual of the normal equations', tol=1e-5, scale=(F + 30) * T * len(A) * 3)
    close(e.normal_ne.residual(y, y).to_dense(), B0.dot(B0.T.dot(yd)) - dr.dot(yd), 'residual of the normal equations of the second kind', tol=1e-5, scale=(F + 30) * T * len(A) * 3)
    # a subsystem can be modified without an effect on the system
    s.A[0, 0] = 0
    close(S.A.to_dense(), full, 'the system is left alone', tol=4e-6)
    if r == c:
        s.A[0, 0] = 1
        A[:N[r[0]], :N[c[0]]] = np.eye(N[r[0]])
        close(s.A.to_dense(), A, 'a block set to one', tol=4e-6)
    # restriction
    if all(q % 2 == 0 for q in shape):
        rec.label('restricted')
        half = tuple(q // 2 for q in shape)
        for got, deg, v, dual in ((s.restrict_primal(x), c, x, 0), (s.restrict_dual(y), r, y, 1)):
            require(len(got.block) == len(deg), 'blocks of a restricted vector')
            for b, k, w in zip(got.block, deg, v.block):
                f = sten.bin(sten.smooth(w, shape, k, 4), shape, k)
                if dual:
                    f = f * 2. ** (D - 2 * k)
                close(b, f, 'restricted vector', tol=4e-6, scale=10 * 2. ** D)


SHAPES = st.lists(st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), min_size=1, max_size=4)


@P.sub('arrays', st.tuples(geo.seeds, SHAPES, st.booleans(), st.integers(0, 1)).map(list), n=400)
def arrays(case, rec):
    seed, shapes, same, how = case
    g = geo.rng(seed)
    if same:
        shapes = [shapes[0]] * len(shapes)
    shapes = [tuple(s) for s in shapes]
    rec.nt(len(shapes) > 1)
    rec.label('equal shapes' if len(set(shapes)) == 1 and len(shapes) > 1 else 'other shapes')
    new = lambda v: BlockArray(v, ndim=1) if how else BlockArray(v)
    a, b = [[g.choice([-2., -1., 1., 2., 3.], size=s) for s in shapes] for _ in range(2)]
    A, B = new(a), new(b)
    flat = lambda v: np.concatenate([q.ravel() for q in v])
    require(A.ndim == 1 and len(A.block) == len(shapes) and [q.shape for q in A.block] == shapes, 'blocks')
    require([list(q) for q in A.shape] == [[s[0] for s in shapes]], 'shape')
    equal(A.to_dense(), flat(a), 'dense vector')
    back = A.from_dense(flat(b))
    require([q.shape for q in back.block] == shapes, 'shapes of blocks from a dense vector')
    equal(back.to_dense(), flat(b), 'from dense and back')
    for p, q in zip(back.block, b):
        equal(p, q, 'blocks from a dense vector')
    raises(AssertionError, lambda: A.from_dense(np.zeros(len(flat(a)) + 1)), 'dense vector of another size')
    for got, want, msg in ((A + B, flat(a) + flat(b), 'sum'), (A - B, flat(a) - flat(b), 'difference'), (A * B, flat(a) * flat(b), 'product'), (A * 2., flat(a) * 2, 'times a number'),
                           (A + 1., flat(a) + 1, 'plus a number'), (A - 1., flat(a) - 1, 'minus a number'), (A.abs(), np.abs(flat(a)), 'absolute value'), (A.invert(), 1 / flat(a), 'reciprocal'),
                           (A.apply(lambda q: q * q), flat(a) ** 2, 'function of each block'), (A * 0, flat(a) * 0, 'zero')):
        require([q.shape for q in got.block] == shapes, msg + ': shapes of blocks')
        close(got.to_dense(), want, msg, tol=1e-12)
    close(A.sum(), flat(a).sum(), 'sum of all elements', tol=1e-12, scale=max(1, np.abs(flat(a)).sum()))
    equal(A.to_dense(), flat(a), 'operands are left alone')
    K = A.copy()
    k = g.randint(len(shapes))
    K[k] = b[k]
    equal(K[k], b[k], 'a block that was set')
    K[k] = np.zeros(shapes[k])
    equal(K[k], np.zeros(shapes[k]), 'a block that was set to zeros')
    K[k] = np.ones(shapes[k])
    equal(K[k], np.ones(shapes[k]), 'a block that was set to ones')
    equal(A.to_dense(), flat(a), 'a copy is independent')
    bad = np.zeros((shapes[k][0] + 1, shapes[k][1]))
    raises(NotImplementedError, lambda: K.__setitem__(k, bad), 'a block of another shape')
    # operators
    I = BlockOperator.identity(shapes)
    equal(I.to_dense(), np.eye(len(flat(a))), 'identity')
    equal((I * A).to_dense(), flat(a), 'identity times a vector')
    other = [(2, 2)] * 2
    Z = BlockOperator.zeros(shapes, other)
    require(Z.to_dense().shape == (len(flat(a)), 8) and not Z.to_dense().any(), 'zeros')
    z = Z * BlockArray([np.ones(s) for s in other], ndim=1)
    require([q.shape for q in z.block] == shapes and not z.to_dense().any(), 'zeros times a vector')
    W = BlockOperator.zeros(shapes, shapes)
    for i, s in enumerate(shapes):
        W[i, i] = DiagonalOperator(b[i], s)
    equal((W * A).to_dense(), flat(a) * flat(b), 'diagonal operator')
    equal(W.diagonal().to_dense(), flat(b), 'diagonal')
    equal(W.transpose().to_dense(), np.diag(flat(b)), 'transpose')
    equal((W * W).to_dense(), np.diag(flat(b) ** 2), 'square')
    equal((W + I).to_dense(), np.diag(flat(b) + 1), 'sum with the identity')
    equal(W.simplify().to_dense(), np.diag(flat(b)), 'simplified')
    i, j = g.randint(len(shapes)), g.randint(len(shapes))
    raises(NotImplementedError, lambda: W.__setitem__((i, j), ZeroOperator(((9, 9), shapes[j]))), 'an operator of another shape')
