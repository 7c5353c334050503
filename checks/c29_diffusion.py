import numpy as np
from hypothesis import strategies as st

from lib import geo, sten
from lib.pbt import Property, require, equal, close, raises

from pycomplex.stencil.complex import StencilComplex
from pycomplex.stencil.block import BlockArray
from pycomplex.stencil.diffusion import Diffusion
from pycomplex.stencil.equation import Equation, NormalEquation, NormalSmoothEquation
from pycomplex.stencil import multigrid

P = Property('C29', rule='Diffusion problems over periodic grids of dimension 1 to 3 with random constraint, conductance and resistance, random right hand sides and guesses, and multigrid '
             'hierarchies of random dense systems; non-trivial: more than one cell.')


def fields_of(g, shape, foo, weak):
    f0, f1 = sten.form_shape(shape, 0), sten.form_shape(shape, 1)
    F = dict(constraint=g.uniform(.5, 1.5, size=f0), conductance=g.uniform(.5, 1.5, size=f1), resistance=g.uniform(.5, 1.5, size=f1))
    if foo:
        F['foo'] = g.uniform(.5, 1.5, size=f1)
    if weak == 1:
        F['conductance'][:, ..., :max(1, shape[-1] // 2)] *= .1
    if weak == 2:
        F['resistance'][:, ..., :max(1, shape[-1] // 2)] = 0
    if weak == 3:
        F = {k: v.astype(np.float32) for k, v in F.items()}
    return F


def blocks(C, F, kind):
    """dense blocks"""
    shape, D, s = C.shape, C.n_dim, float(C.scale)
    h = [s ** (D - 2 * n) for n in range(D + 1)]
    dg = lambda k: np.diag(np.asarray(F[k], dtype=float).ravel())
    d0 = sten.derivative_matrix(shape, 0)
    div = d0.T.dot(dg('conductance')) * h[1]
    if kind == 'potential':
        grad = d0 * h[1]
        if 'foo' in F:
            grad = dg('foo').dot(grad)
        return [[-dg('constraint') * h[0], div], [grad, dg('resistance') * h[1]]], [0, 1], [0, 1]
    curl = sten.derivative_matrix(shape, 1).dot(dg('resistance')) * h[2]
    if kind == 'flux':
        return [[div], [curl]], [0, 2], [1]
    return [[-dg('constraint') * h[0], div], [d0 * h[1], dg('resistance') * h[1]], [np.zeros((len(curl), len(d0.T))), curl]], [0, 1, 2], [0, 1]


def vec(g, C, deg, kind=0):
    return BlockArray([sten.form(g, sten.form_shape(C.shape, n), 1) for n in deg], ndim=1)


PROBLEM = st.tuples(geo.seeds, sten.shapes(max_dim=3, cells=16), sten.SCALES.filter(lambda s: .4 < s < 2.5), st.sampled_from(['potential', 'potential', 'flux', 'all']), st.booleans(),
                    st.integers(0, 3)).map(list)


def formulate(case):
    seed, shape, scale, kind, foo, weak = case
    g = geo.rng(seed)
    if len(shape) < 2 and kind != 'potential':
        kind = 'potential'
    C = StencilComplex.from_shape(tuple(shape), scale=scale)
    F = fields_of(g, shape, foo and kind == 'potential', weak)
    keep = {k: v.copy() for k, v in F.items()}
    E = {'potential': Diffusion.formulate, 'flux': Diffusion.formulate_flux_only, 'all': Diffusion.formulate_all}[kind](C, F)
    B, L, R = blocks(C, F, kind)
    for k in F:
        equal(F[k], keep[k], 'fields are left alone')
    return g, C, F, E, B, L, R, kind


@P.sub('smooth', PROBLEM, n=300)
def smooth(case, rec):
    g, C, F, E, B, L, R, kind = formulate(case)
    rec.nt(np.prod(C.shape) > 1)
    rec.label(kind)
    A = np.block(B)
    T = np.abs(A).max()
    close(E.system.A.to_dense(), A, 'matrix of the problem', tol=4e-6, scale=T)
    equal(E.system.L, L, 'degrees of equations')
    equal(E.system.R, R, 'degrees of unknowns')
    require(E.complex is C, 'complex of the problem')
    x, y = vec(g, C, R), vec(g, C, L)
    xd, yd = x.to_dense(), y.to_dense()
    S = T * 30 * 3
    close(E.residual(x, y).to_dense(), A.dot(xd) - yd, 'residual', tol=4e-6, scale=S)
    N = A.T.dot(A)
    if np.diag(N).min() <= 1e-3 * T ** 2:
        rec.label('weak unknowns')
        return
    D = 1 / np.diag(N)
    close(E.inverse_normal_diagonal.to_dense(), D, 'inverse of the diagonal of the normal equations', tol=1e-5)
    close(E.normal.residual(x, y).to_dense(), N.dot(xd) - A.T.dot(yd), 'residual of the normal equations', tol=1e-5, scale=S * T * 30)
    require(isinstance(E.normal, NormalEquation), 'normal equations')

    def jac(x, w):
        return x - D * A.T.dot(A.dot(x) - yd) * w / 2
    w = g.uniform(.1, 2)
    q = np.abs(D).max() * T * S * 10
    close(E.jacobi(x, y, w).to_dense(), jac(xd, w), 'jacobi iteration', tol=1e-5, scale=q)
    close(E.jacobi(x, y).to_dense(), jac(xd, 1), 'jacobi iteration', tol=1e-5, scale=q)
    z = xd
    knots = g.uniform(.1, 2, size=g.randint(0, 4))
    for k in knots:
        z = jac(z, k)
    close(E.overrelax(x, y, knots).to_dense(), z, 'overrelaxation', tol=1e-5, scale=q * 10)
    for base in (None, .3):
        z = xd
        for k in (1, 2.5, 4):
            z = jac(z, k * (base or .5))
        close((E.smooth(x, y) if base is None else E.smooth(x, y, base)).to_dense(), z, 'smoothing', tol=1e-5, scale=q * 10)
    # block by block
    off = np.cumsum([0] + [b.size for b in x.block])
    z = xd.copy()
    for i in range(len(R)):
        k = slice(off[i], off[i + 1])
        z[k] -= D[k] * (N[k].dot(z) - A.T.dot(yd)[k]) / 2
    got = E.NR_BLOCK_GS(x, y)
    close(got.to_dense(), z, 'block gauss-seidel on the normal equations', tol=1e-5, scale=q * 10)
    M = np.diag(A.dot(A.T))
    if M.min() > 1e-3 * T ** 2:
        off = np.cumsum([0] + [b.size for b in y.block])
        z = xd.copy()
        for i in range(len(L)):
            k = slice(off[i], off[i + 1])
            z -= A[k].T.dot((A[k].dot(z) - yd[k]) / M[k]) / 2
        close(E.NE_BLOCK_GS(x, y).to_dense(), z, 'block gauss-seidel on the normal equations of the second kind', tol=1e-5, scale=S * T / M.min() * 30 * T)
    equal(x.to_dense(), xd, 'guess is left alone')
    equal(y.to_dense(), yd, 'right hand side is left alone')
    require([b.shape for b in got.block] == [b.shape for b in x.block], 'shapes of unknowns')
    # a solution is a fixed point
    s = x.from_dense(np.linalg.lstsq(A, yd, rcond=1e-9)[0])
    t = np.abs(s.to_dense()).max() + 1e-9
    for fn in (E.smooth, E.jacobi, E.NR_BLOCK_GS):
        close(fn(s, y).to_dense(), s.to_dense(), 'solutions are fixed points', tol=1e-4, scale=q + t)
    if kind == 'potential':
        close(E.inverse_sg_normal_diagonal.to_dense(), D, 'inverse of the diagonal, block by block', tol=1e-5)


@P.sub('solve', PROBLEM, n=200)
def solve(case, rec):
    g, C, F, E, B, L, R, kind = formulate(case)
    A = np.block(B)
    s = np.linalg.svd(A, compute_uv=False)
    rec.nt(np.prod(C.shape) > 1)
    rec.label(kind)
    y = vec(g, C, L)
    yd = y.to_dense()
    want = np.linalg.lstsq(A, yd, rcond=1e-6)[0]
    full = A.shape[0] >= A.shape[1] and s.min() > .05 * s.max()
    N = A.T.dot(A)
    bt = A.T.dot(yd)

    def verify(x, what, tol):
        require([b.shape for b in x.block] == [sten.form_shape(C.shape, n) for n in R], what + ': shapes of unknowns')
        z = x.to_dense()
        r = np.linalg.norm(N.dot(z) - bt) / (np.linalg.norm(bt) + np.linalg.norm(N) * np.linalg.norm(z) * 1e-2 + 1e-9)
        require(r < tol, what + ': residual %g' % r)
        if full:
            close(z, want, what, tol=tol * 10, scale=np.abs(want).max())
    verify(E.solve(y), 'solution', 1e-2)
    verify(E.solve_minres_normal(y), 'solution', 1e-2)
    verify(E.normal.solve(y), 'solution of the normal equations', 1e-2)
    verify(E.solve(y, tol=1e-9), 'precise solution', 1e-3)
    x0 = vec(g, C, R)
    xd = x0.to_dense()
    verify(E.solve(y, x0), 'solution from a guess', 5e-2)
    verify(E.solve(y, x0, tol=1e-9), 'precise solution from a guess', 5e-3)
    equal(x0.to_dense(), xd, 'guess is left alone')
    equal(y.to_dense(), yd, 'right hand side is left alone')
    if kind == 'potential' and full:
        # symmetric after a change of sign only when coefficients are equal; use the normal equations of the second kind
        ne = E.normal_ne
        t = ne.solve(y, tol=1e-9)
        close((E.system.A.transpose() * t).to_dense(), want, 'solution by the normal equations of the second kind', tol=5e-2, scale=np.abs(want).max())


@P.sub('levels', st.tuples(geo.seeds, st.one_of(st.lists(st.sampled_from([4, 4, 8]), min_size=1, max_size=2), st.lists(st.sampled_from([4, 4, 8]), min_size=1, max_size=2), st.just([4, 4, 4])), sten.SCALES.filter(lambda s: .4 < s < 2.5), st.booleans(), st.integers(0, 3)).map(list), n=60)
def levels(case, rec):
    seed, shape, scale, foo, weak = case
    g, C, F, E, B, L, R, kind = formulate([seed, shape, scale, 'potential', foo, weak if weak != 2 else 0])
    D = len(shape)
    n = int(g.randint(1, 3))
    H = E.hierarchy(levels=n)
    rec.nt()
    rec.label('%d levels' % n)
    require(len(H) == n + 1 and H[-1] is E, 'finest level comes last')
    G, shp, s = F, tuple(shape), scale
    M = [np.block(B)]
    for k in range(n - 1, -1, -1):
        G = {q: sten.bin(sten.smooth(np.asarray(v, dtype=float), shp, 0 if q == 'constraint' else 1, 4), shp, 0 if q == 'constraint' else 1) for q, v in G.items()}
        shp, s = tuple(q // 2 for q in shp), s * 2
        require(tuple(H[k].complex.shape) == shp and H[k].complex.scale == s, 'shape and scale of coarse levels')
        require(set(H[k].fields) == set(G), 'fields of coarse levels')
        for q in G:
            close(H[k].fields[q], G[q], 'field of a coarse level', tol=4e-6)
        A = np.block(blocks(H[k].complex, G, 'potential')[0])
        close(H[k].system.A.to_dense(), A, 'matrix of a coarse level', tol=1e-5)
        require(H[k].fine is H[k + 1], 'fine level')
        M.insert(0, A)
    y = vec(g, C, L)
    x = vec(g, C, R)
    half = tuple(q // 2 for q in shape)
    r = E.restrict(y)
    for b, q, k in zip(r.block, y.block, L):
        close(b, sten.bin(sten.smooth(q, shape, k, 4), shape, k) * 2. ** (D - 2 * k), 'restriction', tol=4e-6, scale=20)
    r = E.restrict_primal(y)
    for b, q, k in zip(r.block, y.block, L):
        close(b, sten.bin(sten.smooth(q, shape, k, 4), shape, k), 'restriction of primal forms', tol=4e-6, scale=20)
    c = vec(g, C.coarse, R)
    u = E.interpolate(c)
    for b, q, k in zip(u.block, c.block, R):
        close(b, sten.smooth(sten.tile(q, shape, k), shape, k, 2), 'interpolation', tol=4e-6, scale=20)
    # cycles on the whole: reference built from the parts
    want = np.linalg.solve(M[-1], y.to_dense())
    close(multigrid.v_cycle(H, y, x).to_dense(), ref_cycle(H, y, x).to_dense(), 'v-cycle', tol=1e-6, scale=np.abs(want).max() * 10 + 10)
    close(multigrid.solve_v_cycle(H, y, x, iterations=2).to_dense(), ref_cycle(H, y, ref_cycle(H, y, x)).to_dense(), 'two v-cycles', tol=1e-6, scale=np.abs(want).max() * 10 + 10)
    close(multigrid.solve_full_cycle(H, y, iterations=1).to_dense(), ref_full(H, y, 1).to_dense(), 'full cycle', tol=1e-6, scale=np.abs(want).max() * 10 + 10)


def ref_cycle(H, y, x):
    if len(H) == 1:
        return H[0].solve(y, x)
    E = H[-1]
    x = E.smooth(x, y)
    r = E.restrict(E.residual(x, y))
    x = x - E.interpolate(ref_cycle(H[:-1], r, r * 0))
    return E.smooth(x, y)


def ref_full(H, y, k):
    if len(H) == 1:
        return H[0].solve(y)
    x = H[-1].interpolate(ref_full(H[:-1], H[-1].restrict(y), k))
    for _ in range(k):
        x = ref_cycle(H, y, x)
    return x


class Level(object):
    """equation of dense matrices"""
    def __init__(self, g, n, m):
        Q = np.linalg.qr(g.normal(size=(n, n)))[0]
        self.A = Q.dot(np.diag(g.uniform(.8, 1.2, size=n))).dot(Q.T)
        self.R = g.normal(size=(m, n)) / n if m else None
        self.I = g.normal(size=(n, m)) / n if m else None
        self.w = g.uniform(.1, .5)

    def residual(self, x, y):
        return self.A.dot(x) - y

    def smooth(self, x, y):
        return x - self.w * self.residual(x, y)

    def solve(self, y, x=None):
        """an inexact solver, whose result depends on the guess"""
        exact = np.linalg.solve(self.A, y)
        return exact if x is None else exact + .1 * (x - exact)

    def restrict(self, y):
        return self.R.dot(y)

    def interpolate(self, x):
        return self.I.dot(x)


@P.sub('cycle', st.tuples(geo.seeds, st.integers(1, 4), st.integers(0, 4)).map(list), n=200)
def cycle(case, rec):
    seed, n, k = case
    g = geo.rng(seed)
    rec.nt(n > 1)
    sizes = np.sort(g.randint(1, 6, size=n))
    H = [Level(g, int(s), int(sizes[i - 1]) if i else 0) for i, s in enumerate(sizes)]
    y, x = g.normal(size=sizes[-1]), g.normal(size=sizes[-1])
    ky, kx = y.copy(), x.copy()
    close(multigrid.v_cycle(H, y, x), ref_cycle(H, y, x), 'v-cycle', tol=1e-10, scale=max(1, np.abs(ref_cycle(H, y, x)).max()))
    close(multigrid.v_cycle(H, y), ref_cycle(H, y, y * 0), 'v-cycle without a guess', tol=1e-10, scale=max(1, np.abs(ref_cycle(H, y, y * 0)).max()))
    z = x
    for _ in range(k):
        z = ref_cycle(H, y, z)
    close(multigrid.solve_v_cycle(H, y, x, iterations=k), z, 'repeated v-cycles', tol=1e-9, scale=max(1, np.abs(z).max()))
    z = y * 0
    for _ in range(10):
        z = ref_cycle(H, y, z)
    close(multigrid.solve_v_cycle(H, y), z, 'ten v-cycles', tol=1e-9, scale=max(1, np.abs(z).max()))
    z = ref_full(H, y, k)
    close(multigrid.solve_full_cycle(H, y, iterations=k), z, 'full cycle', tol=1e-9, scale=max(1, np.abs(z).max()))
    close(multigrid.solve_full_cycle(H, y), ref_full(H, y, 2), 'full cycle', tol=1e-9, scale=max(1, np.abs(z).max()))
    equal(y, ky, 'right hand side is left alone')
    equal(x, kx, 'guess is left alone')
