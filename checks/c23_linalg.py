import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo
from lib.pbt import Property, require, equal, close

from pycomplex.math import linalg

P = Property('C23', rule='Random stacks of vectors and matrices of various sizes, with zero vectors, singular, mirrored and rank-deficient matrices; '
             'non-trivial: the matrices are not all identities or zero.')

LEAD = st.sampled_from([[], [3], [2, 3], [1], [0]])
SCALE = st.sampled_from([1, 1, 1e-3, 1e3])


@P.sub('vectors', st.tuples(geo.seeds, LEAD, st.integers(1, 5), st.sampled_from([1, 1, 1e-3, 1e3, 1e-9, 1e-15, 1e-60, 1e12]), st.booleans()).map(list), n=300 * 3)
def vectors(case, rec):
    seed, lead, n, scale, integer = case
    g = geo.rng(seed)
    lead = tuple(lead)
    a, b = g.normal(size=lead + (n,)) * scale, g.normal(size=lead + (n,)) * scale
    if integer:
        a, b = g.randint(-4, 5, size=a.shape), g.randint(-4, 5, size=a.shape)
    rec.nt(n > 1)
    a, b = gen.dress(a), gen.dress(b)
    ka, kb = a.copy(), b.copy()
    close(linalg.dot(a, b), (a * b).sum(axis=-1), 'dot', tol=1e-12, scale=(scale ** 2 if not integer else 1) * 100)
    # broadcast against one vector
    one = g.normal(size=n)
    close(linalg.dot(a, one), (a * one).sum(axis=-1), 'dot broadcasts', tol=1e-12, scale=(scale if not integer else 1) * 100)
    # normalization
    axis = int(g.randint(-a.ndim, a.ndim))
    if a.shape[axis] == 0:
        return
    a = np.array(a)
    if a.size and g.randint(2):
        idx = [slice(None)] * a.ndim
        for q in range(a.ndim):
            if q != axis % a.ndim:
                idx[q] = int(g.randint(a.shape[q])) if a.shape[q] else slice(None)
        a[tuple(idx)] = 0
        rec.label('with a zero vector')
        zero = True
    else:
        zero = False
    a = gen.dress(a)
    ka = a.copy()
    for order in (2, 1, np.inf):
        norm = {2: lambda q: np.sqrt((q * q).sum(axis=axis)), 1: lambda q: np.abs(q).sum(axis=axis), np.inf: lambda q: np.abs(q).max(axis=axis)}[order](a.astype(float))
        safe = np.where(norm == 0, 1, norm)
        want = a / np.expand_dims(safe, axis)
        got, r = linalg.normalized(a, axis=axis, ord=order, ignore_zeros=True, return_norm=True)
        close(got, want, 'normalized along an axis, zeros left alone', tol=1e-12, scale=1)
        close(r, norm, 'returned norms', tol=1e-12, scale=scale * 100 if not integer else 100)
        close(linalg.normalized(a, axis=axis, ord=order, ignore_zeros=True), want, 'normalized without norms', tol=1e-12, scale=1)
        if not (norm == 0).any():
            close(linalg.normalized(a, axis=axis, ord=order), want, 'normalized', tol=1e-12, scale=1)
            g2, r2 = linalg.normalized(a, axis=axis, ord=order, return_norm=True)
            close(g2, want, 'normalized', tol=1e-12, scale=1)
            close(r2, norm, 'returned norms', tol=1e-12, scale=scale * 100 if not integer else 100)
    equal(a, ka, 'input is left alone')
    equal(b, kb, 'input is left alone')
    close(linalg.normalized([3., 4.]), np.array([.6, .8]), 'list of numbers', tol=1e-12)


def ortho(g, n):
    return np.linalg.qr(g.normal(size=(n, n)))[0]


@P.sub('orthonormalize', st.tuples(geo.seeds, st.integers(1, 5), st.integers(1, 5), st.sampled_from(['proper', 'mirrored', 'singular', 'any']), SCALE).map(list), n=400 * 3)
def orthonormalize(case, rec):
    seed, n, m, kind, scale = case
    g = geo.rng(seed)
    if kind != 'any':
        m = n
    k = min(n, m)
    u, v = ortho(g, n), ortho(g, m)
    # distinct singular values, well apart, so that the answer is well-defined
    s = np.cumprod(g.uniform(1.2, 2, size=k))[::-1]
    if kind in ('proper', 'mirrored'):
        if (np.linalg.det(u) * np.linalg.det(v) < 0) != (kind == 'mirrored'):
            u[:, 0] *= -1
    if kind == 'singular':
        s[-1] = 0
    S = np.zeros((n, m))
    S[range(k), range(k)] = s
    A = u.dot(S).dot(v) * scale
    rec.nt(max(n, m) > 1)
    rec.label(kind)
    A = gen.dress(A)
    keep = A.copy()
    for demirror in (True, False):
        Q = np.asarray(linalg.orthonormalize(A, demirror=demirror)) if not demirror else np.asarray(linalg.orthonormalize(A))
        require(Q.shape == (n, m), 'shape')
        gram = Q.dot(Q.T) if n <= m else Q.T.dot(Q)
        close(gram, np.eye(k), 'orthonormal', tol=1e-10)
        if demirror and n == m:
            require(abs(np.linalg.det(Q) - 1) < 1e-9, 'determinant %g of an orthonormalized matrix' % np.linalg.det(Q))
        # nearest: the trace of A'Q is the sum of singular values, less twice the smallest when the mirror is undone
        best = s.sum()
        if demirror and n == m and kind != 'singular' and np.linalg.det(u) * np.linalg.det(v) < 0:
            best = best - 2 * s[-1]
        close(np.trace(A.T.dot(Q)) / scale, best, 'orthonormal matrix most like the input', tol=1e-10, scale=s.sum())
    equal(A, keep, 'input is left alone')
    if n == m:
        R = geo.rotation(seed + 1, n)
        close(linalg.orthonormalize(R * scale), R, 'a scaled rotation gives the rotation', tol=1e-10)


@P.sub('power', st.tuples(geo.seeds, LEAD, st.integers(1, 4), st.booleans(), st.floats(-2, 2), st.floats(-2, 2)).map(list), n=300 * 3)
def power(case, rec):
    seed, lead, n, rot, p, q = case
    g = geo.rng(seed)
    lead = tuple(lead)
    A = np.zeros(lead + (n, n))
    for i in np.ndindex(*lead):
        if rot:
            # rotation with angles away from a half turn
            B = g.normal(size=(n, n))
            B = B - B.T
            w = np.abs(np.linalg.eigvals(B)).max()
            B = B / (w + 1e-9) * g.uniform(.2, 2.5)
            import scipy.linalg
            A[i] = scipy.linalg.expm(B)
        else:
            u = ortho(g, n) + .2 * g.normal(size=(n, n))
            A[i] = u.dot(np.diag(1 + np.arange(n) * .5 + g.uniform(0, .2, size=n))).dot(np.linalg.inv(u))
    rec.nt(A.size > 1)
    rec.label('rotations' if rot else 'positive')
    cond = max([1.] + [np.linalg.cond(np.linalg.eig(A[i])[1]) for i in np.ndindex(*lead)])
    if cond > 1e4:
        return
    t = 1e-9 * cond ** 2
    mul = lambda a, b: np.einsum('...ij,...jk->...ik', a, b)
    A = gen.dress(A)
    keep = A.copy()
    big = max(1, np.abs(A).max() if A.size else 1) ** 4 * cond
    Ap, Aq = linalg.power(A, p), linalg.power(A, q)
    require(Ap.shape == A.shape and np.isrealobj(Ap), 'real matrices')
    close(mul(Ap, Aq), linalg.power(A, p + q), 'powers add', tol=t, scale=big)
    close(linalg.power(A, 1), A, 'first power', tol=t, scale=big)
    close(linalg.power(A, 0), np.broadcast_to(np.eye(n), A.shape), 'zeroth power', tol=t, scale=big)
    close(linalg.power(A, 2), mul(A, A), 'square', tol=t, scale=big)
    close(linalg.power(A, -1), np.linalg.inv(A), 'inverse', tol=t, scale=big)
    close(linalg.power(linalg.power(A, .5), 2), A, 'root', tol=t, scale=big)
    pp = g.uniform(-1, 1, size=lead)
    got = linalg.power(A, pp)
    for i in np.ndindex(*lead):
        close(got[i], linalg.power(A[i], pp[i]), 'a power for each matrix', tol=t, scale=big)
    ps = g.uniform(-1, 1, size=4)
    if not lead:
        got = linalg.power(A, ps)
        for i in range(4):
            close(got[i], linalg.power(A, ps[i]), 'several powers of a matrix', tol=t, scale=big)
    equal(A, keep, 'input is left alone')


@P.sub('power_coinciding', st.tuples(geo.seeds, LEAD, st.integers(2, 6), st.sampled_from(['shear', 'turn', 'turns', 'scaling']), st.sampled_from([0, 0, 1e-15, 1e-12])).map(list), n=300)
def power_coinciding(case, rec):
    """of matrices that have eigenvalues in common, exactly or up to rounding; for these the powers are known"""
    seed, lead, n, kind, noise = case
    g = geo.rng(seed)
    lead = tuple(lead)
    A, want = np.zeros(lead + (n, n)), np.zeros(lead + (n, n))
    ps = g.uniform(-2, 2, size=lead)
    for i in np.ndindex(*lead):
        p = ps[i]

        def make(p):
            B = np.eye(n)
            if kind == 'shear':
                N = np.diag(np.ones(n - 1), 1) * a     # (1 + N)**p is a binomial series that ends
                T = np.eye(n)
                for k in range(1, n):
                    T = T.dot(N) * (p - k + 1) / k
                    B = B + T
                return B
            if kind == 'scaling':
                return B * (1 + abs(a)) ** p
            for k in range(n // 2 if kind == 'turns' else 1):
                c, s = math.cos(a * p), math.sin(a * p)
                B[2 * k:2 * k + 2, 2 * k:2 * k + 2] = [[c, -s], [s, c]]
            return B
        a = g.uniform(.1, .6)
        q = geo.rotation(int(g.randint(1, 10000)), n)
        A[i] = q.T.dot(make(1)).dot(q) + noise * g.normal(size=(n, n))
        want[i] = q.T.dot(make(p)).dot(q)
    rec.nt(A.size > 0)
    rec.label(kind)
    close(linalg.power(A, ps), want, 'power of a matrix with coinciding eigenvalues', tol=1e-7, scale=1)


@P.sub('rotation', st.tuples(geo.seeds, st.integers(2, 5), LEAD).map(list), n=300 * 3)
def rotation(case, rec):
    seed, n, lead = case
    g = geo.rng(seed)
    Q = geo.rotation(seed + 1, n)
    u, v = Q[0], Q[1]
    rec.nt(n > 2)
    R = np.asarray(linalg.rotation_from_plane(u, v))
    require(R.shape == (n, n), 'shape')
    close(R.dot(R.T), np.eye(n), 'orthonormal', tol=1e-10)
    require(abs(np.linalg.det(R) - 1) < 1e-9, 'proper')
    close(u.dot(R), v, 'first vector to second', tol=1e-10)
    close(v.dot(R), -u, 'second vector to minus first', tol=1e-10)
    for k in range(2, n):
        close(Q[k].dot(R), Q[k], 'vectors orthogonal to the plane are fixed', tol=1e-10)
    close(linalg.angle_from_rotation(R), np.array(math.pi / 2), 'quarter turn', tol=1e-10)
    # turns in random planes by random angles
    lead = tuple(lead)
    A = np.zeros(lead + (n, n))
    want = np.zeros(lead)
    for i in np.ndindex(*lead):
        q = geo.rotation(int(g.randint(1, 10000)), n)
        a = g.choice([g.uniform(0, math.pi), 0, math.pi, 1e-3, math.pi - 1e-3])
        G = np.eye(n)
        G[:2, :2] = [[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]]
        A[i] = q.T.dot(G).dot(q)
        want[i] = a
    got = linalg.angle_from_rotation(A)
    close(got, want, 'angle of a rotation', tol=1e-6, scale=1)
    # fractions of a turn
    p = g.uniform(-1, 1)
    close(linalg.angle_from_rotation(np.asarray(linalg.power(R, p))), np.array(abs(p) * math.pi / 2), 'angle of a fraction of a turn', tol=9e-10, scale=1)


@P.sub('three', st.tuples(geo.seeds, LEAD, SCALE, st.booleans()).map(list), n=300 * 3)
def three(case, rec):
    seed, lead, scale, integer = case
    g = geo.rng(seed)
    lead = tuple(lead)
    rec.nt()
    A = g.normal(size=lead + (3, 3)) + np.eye(3)
    A = A * scale
    if integer:
        A = g.randint(-3, 4, size=lead + (3, 3)) + 9 * np.eye(3, dtype=int)
    A = gen.dress(A)
    keep = A.copy()
    F = A.astype(float)
    ok = np.ones(lead, dtype=bool)
    for i in np.ndindex(*lead):
        ok[i] = np.linalg.cond(F[i]) < 1e4
    det = np.linalg.det(F)
    cof = np.zeros(F.shape)
    for i in np.ndindex(*lead):
        for r, c in itertools.product(range(3), repeat=2):
            cof[i][r, c] = (-1) ** (r + c) * np.linalg.det(np.delete(np.delete(F[i], r, 0), c, 1))
    big = max(1e-12, np.abs(F).max() if F.size else 1)
    close(linalg.adjoint(A), cof, 'matrix of cofactors', tol=1e-10, scale=big ** 2)
    if ok.all():
        close(linalg.inverse(A), np.linalg.inv(F), 'inverse', tol=1e-10)
        close(linalg.inverse_transpose(A), np.swapaxes(np.linalg.inv(F), -1, -2), 'transpose of the inverse', tol=1e-10)
    # matrices of rank two
    B = F.copy()
    c = g.uniform(.3, 2, size=lead + (2,)) * g.choice([-1, 1, 0], size=lead + (2,))
    if seed % 3 == 0:
        c[..., 1] = -1 - c[..., 0]      # the crosses of the pairs of rows add up to zero
    B[..., 2, :] = -c[..., :1] * B[..., 0, :] - c[..., 1:] * B[..., 1, :]
    n = linalg.null(B)
    require(np.shape(n) == lead + (3,), 'shape of null vectors')
    close(np.einsum('...ij,...j->...i', B, n), np.zeros(lead + (3,)), 'null vectors', tol=1e-10, scale=big ** 3 * 30)
    want = np.cross(B[..., 0, :], B[..., 1, :]) * (1 + np.abs(c[..., :1]) + np.abs(c[..., 1:]))
    s = np.sign(np.einsum('...i,...i->...', n, want))[..., None]
    close(n * s, want, 'null vectors are not zero', tol=1e-10, scale=big ** 2 * 30)
    equal(A, keep, 'input is left alone')


@P.sub('pinv', st.tuples(geo.seeds, LEAD, st.integers(1, 5), st.integers(1, 5), st.integers(0, 5), SCALE).map(list), n=400 * 3)
def pinv(case, rec):
    seed, lead, n, m, rank, scale = case
    g = geo.rng(seed)
    lead = tuple(lead)
    rank = min(rank, n, m)
    A = np.einsum('...ij,...jk->...ik', g.normal(size=lead + (n, rank)), g.normal(size=lead + (rank, m))) * scale
    rec.nt(rank > 0)
    rec.label('full' if rank == min(n, m) else 'deficient')
    for i in np.ndindex(*lead):
        s = np.linalg.svd(A[i])[1]
        if rank and s[rank - 1] < 1e-3 * s[0]:
            return
    A = gen.dress(A)
    keep = A.copy()
    I = np.asarray(linalg.pinv(A))
    require(I.shape == lead + (m, n), 'shape %s' % (I.shape,))
    want = np.zeros(I.shape)
    for i in np.ndindex(*lead):
        want[i] = np.linalg.pinv(A[i], rcond=1e-6)
    close(I, want, 'pseudoinverse', tol=1e-10, scale=max(1, np.abs(want).max() if want.size else 1))
    equal(A, keep, 'input is left alone')
