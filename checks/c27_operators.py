import numpy as np
from hypothesis import strategies as st

from lib import geo, sten
from lib.pbt import Property, require, equal, close, raises

from pycomplex.stencil.complex import StencilComplex
from pycomplex.stencil.operator import (StencilOperator, ZeroOperator, DiagonalOperator, HodgeOperator, IdentityOperator, ComposedOperator, CombinedOperator,
                                        DerivativeOperator, SymmetricOperator)

P = Property('C27', rule='Random expressions of up to ten compositions, sums and transposes of derivatives, hodge stars, diagonals (also tiny, and close to one), identities, zeros '
             'and smoothers over small periodic grids; non-trivial: at least three operators.')

STEP = st.tuples(st.sampled_from(['d', 'delta', 'hodge', 'hodgeI', 'diag', 'tiny', 'near', 'ones', 'zeros', 'id', 'zero', 'smooth', 'T', 'T', 'add', 'add', 'twice', 'simplify', 'right', 'diagI']),
                 st.integers(0, 5)).map(list)


def primitive(name, k, n, C, g):
    """(operator, matrix, degree of its result) that acts on n-forms; None when there is no such operator"""
    shape = C.shape
    D = len(shape)
    N = int(np.prod(sten.form_shape(shape, n)))
    fs = sten.form_shape(shape, n)
    eye = np.eye(N)
    if name == 'd':
        return (C.topology.primal[n], sten.derivative_matrix(shape, n), n + 1) if n < D else None
    if name == 'delta':
        return (C.topology.dual[n - 1], sten.derivative_matrix(shape, n - 1).T, n - 1) if n else None
    if name == 'hodge':
        return C.hodge[n], eye * float(C.scale) ** (D - 2 * n), n
    if name == 'hodgeI':
        return C.hodge[n].I, eye / float(C.scale) ** (D - 2 * n), n
    if name in ('diag', 'tiny', 'near', 'ones', 'zeros', 'diagI'):
        v = {'diag': lambda: g.uniform(.5, 2, size=fs) * g.choice([-1, 1], size=fs), 'tiny': lambda: g.uniform(1, 2, size=fs) * 1e-9,
             'near': lambda: 1 + g.uniform(-1, 1, size=fs) * 4e-6, 'ones': lambda: np.ones(fs), 'zeros': lambda: np.zeros(fs),
             'diagI': lambda: g.uniform(.5, 2, size=fs)}[name]()
        op = DiagonalOperator(v, fs)
        if name == 'diagI':
            return op.I, np.diag(1 / v.ravel()), n
        return op, np.diag(v.ravel()), n
    if name == 'id':
        return IdentityOperator(fs), eye, n
    if name == 'zero':
        m = k % (D + 1)
        ms = sten.form_shape(shape, m)
        return ZeroOperator((ms, fs)), np.zeros((int(np.prod(ms)), N)), m
    if name == 'smooth':
        return C.smoothers(scale=bool(k % 2))[n], sten.dense(lambda f: sten.smooth(f, shape, n, 4 if k % 2 else 2), fs), n
    raise KeyError(name)


def run(prog, n0, C, g):
    """operator, matrix, degrees (result, argument), number of operators"""
    D = C.n_dim
    op, M, m = primitive('id', 0, n0, C, g) if not prog or prog[0][1] % 2 else primitive('diag', 0, n0, C, g)
    n, count = n0, 1
    size = np.abs(M)
    for name, k in prog:
        if name == 'T':
            op, M, (m, n) = op.T if k % 2 else op.transpose(), M.T, (n, m)
            size = size.T
        elif name == 'simplify':
            op = op.simplify()
        elif name == 'twice':
            op, M, size = op + op, M * 2, size * 2
            count += 1
        elif name == 'add':
            # something of the same shape
            a = primitive(['diag', 'hodge', 'id', 'zero', 'smooth'][k % 5], m, m, C, g)
            if k % 2:
                o2, M2 = a[0] * op, a[1].dot(M)
                s2 = np.abs(a[1]).dot(size)
            else:
                z = primitive('zero', m, n, C, g)
                o2, M2, s2 = z[0], z[1], np.abs(z[1])
                if m == n:
                    q = primitive(['diag', 'hodge', 'id', 'smooth'][k % 4], 1, n, C, g)
                    o2, M2, s2 = q[0], q[1], np.abs(q[1])
            if k < 3:
                op = op + o2
            else:
                op = o2 + op
            M, size = M + M2, size + s2
            count += 1
        elif name == 'right':
            q = primitive(['diag', 'hodge', 'd', 'delta', 'id', 'near'][k], 0, n, C, g)
            if q is None or (k in (2, 3) and q[2] == n):
                continue
            if q[2] != n:
                # its transpose maps to n-forms
                op, M, n, size = op * q[0].T, M.dot(q[1].T), q[2], size.dot(np.abs(q[1].T))
            else:
                op, M, size = op * q[0], M.dot(q[1]), size.dot(np.abs(q[1]))
            count += 1
        else:
            q = primitive(name, k, m, C, g)
            if q is None:
                continue
            o = q[0]
            op = ComposedOperator([o, op]) if k == 5 else o * op
            M, m, size = q[1].dot(M), q[2], np.abs(q[1]).dot(size)
            count += 1
    return op, M, m, n, count, size


@P.sub('algebra', st.tuples(geo.seeds, sten.shapes(max_dim=3, cells=12), sten.SCALES, st.integers(0, 3), st.lists(STEP, min_size=1, max_size=10)).map(list), n=800)
def algebra(case, rec):
    seed, shape, scale, n0, prog = case
    g = geo.rng(seed)
    D = len(shape)
    C = StencilComplex.from_shape(tuple(shape), scale=scale)
    op, M, m, n, count, size = run(prog, min(n0, D), C, g)
    rec.nt(count > 2)
    rec.label(type(op).__name__)
    require(isinstance(op, StencilOperator), 'expressions are operators')
    ms, ns = sten.form_shape(shape, m), sten.form_shape(shape, n)
    require((tuple(op.shape[0]), tuple(op.shape[1])) == (ms, ns), 'shape of an expression')
    # entry by entry; terms may cancel
    S = size + 1e-300

    def same(q, want, msg, S):
        q = np.asarray(q)
        require(q.shape == want.shape, msg + ': shape')
        bad = np.abs(q - want) > 4e-6 * S + 1e-30
        require(not bad.any(), msg + ': %s rather than %s' % (q[bad][:3], want[bad][:3]))
    near = any(p[0] == 'near' or (p[0] == 'right' and p[1] == 5) for p in prog)
    f = g.randint(-5, 6, size=ns).astype(float)
    h = g.randint(-5, 6, size=ms).astype(float)
    kf, kh = f.copy(), h.copy()
    Sf, Sh = size.dot(np.abs(f.ravel())), size.T.dot(np.abs(h.ravel()))

    def verify(o, what):
        same(o.to_dense(), M, what + ' as a matrix', S)
        same(np.asarray(o(f)).ravel(), M.dot(f.ravel()), what + ' of a form', Sf)
        same(np.asarray(o * f).ravel(), M.dot(f.ravel()), what + ' times a form', Sf)
        require(np.shape(o(f)) == ms, 'shape of the result')
        same(np.asarray(o.transpose()(h)).ravel(), M.T.dot(h.ravel()), what + ', transpose of', Sh)
        same(o.T.to_dense(), M.T, what + ', transposed matrix', S.T)
        same(o.T.T.to_dense(), M, what + ', transposed twice', S)
        L = o.aslinearoperator()
        require(L.shape == M.shape, what + ' as linear operator: shape')
        same(L.matvec(f.ravel()), M.dot(f.ravel()), what + ' as linear operator', Sf)
        same(L.rmatvec(h.ravel()), M.T.dot(h.ravel()), what + ' as transposed linear operator', Sh)
        same(L.matvec(f.reshape(-1, 1)).ravel(), M.dot(f.ravel()), what + ' as linear operator of a column', Sf)
    verify(op, 'expression')
    verify(op.simplify(), 'simplified expression')
    verify(CombinedOperator([op, op]).simplify() * DiagonalOperator(np.full(ns, .5), ns), 'half of twice the expression')
    equal(f, kf, 'forms are left alone')
    equal(h, kh, 'forms are left alone')
    # shapes must match
    bad = np.zeros((ns[0] + 1,) + tuple(shape))
    raises(AssertionError, lambda: op(bad), 'form of another shape')
    other = IdentityOperator((ms[0] + 1,) + tuple(shape))
    raises(AssertionError, lambda: other * op, 'composition of incompatible operators')
    raises(AssertionError, lambda: op + ZeroOperator(((ms[0] + 1,) + tuple(shape), ns)), 'sum of incompatible operators')


@P.sub('diagonal', st.tuples(geo.seeds, sten.shapes(max_dim=3, cells=12), st.sampled_from(['field', 'number', 'ones', 'zeros', 'tiny', 'near', 'somezero'])).map(list), n=300)
def diagonal(case, rec):
    seed, shape, kind = case
    g = geo.rng(seed)
    fs = (1 + g.randint(3),) + tuple(shape)
    rec.nt()
    rec.label(kind)
    v = {'field': g.uniform(.5, 2, size=fs), 'number': float(g.uniform(.5, 2)), 'ones': np.ones(fs), 'zeros': np.zeros(fs), 'tiny': g.uniform(1, 2, size=fs) * 1e-12,
         'near': 1 + g.uniform(1, 2, size=fs) * 1e-7, 'somezero': np.where(np.arange(np.prod(fs)).reshape(fs) == 0, 0., g.uniform(.5, 2, size=fs))}[kind]
    cls = [DiagonalOperator, HodgeOperator][g.randint(2)]
    op = cls(v, fs)
    f = g.normal(size=fs)
    full = np.broadcast_to(v, fs)
    equal(op(f), f * full, 'diagonal operator')
    equal(op.T(f), f * full, 'diagonal operators are symmetric')
    close(op.simplify()(f), f * full, 'simplified', tol=1e-12, scale=np.abs(full).max() * 10 + 1e-300)
    equal(op.to_dense(), np.diag(full.ravel()), 'matrix')
    if kind in ('zeros', 'somezero'):
        raises(FloatingPointError, lambda: op.inverse(), 'inverse of a diagonal with zeros')
    else:
        close(op.I(op(f)), f, 'inverse', tol=1e-12)
        close(op(op.inverse()(f)), f, 'inverse', tol=1e-12)
        close((op.I * op).to_dense(), np.eye(f.size), 'product with the inverse', tol=1e-12)
    I = IdentityOperator(fs)
    equal(I(f), f, 'identity')
    equal(I.I(f), f, 'inverse of the identity')
    equal(I.T(f), f, 'transpose of the identity')
    w = g.uniform(.5, 2, size=fs)
    W = DiagonalOperator(w, fs)
    for a, b in ((op * W, full * w), (W * op, full * w), (op + W, full + w), (I * op, full), (op * I, full), (I * I, np.ones(fs)), (I + op, full + 1)):
        close(a(f), b * f, 'products and sums of diagonals', tol=1e-12, scale=np.abs(b).max() * 10 + 1e-300)
        close(a.T(f), b * f, 'transposed products and sums of diagonals', tol=1e-12, scale=np.abs(b).max() * 10 + 1e-300)
