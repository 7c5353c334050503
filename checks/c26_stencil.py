import itertools

import numpy as np
from hypothesis import strategies as st

from lib import geo, sten
from lib.pbt import Property, require, equal, close, raises

from pycomplex.stencil.complex import StencilComplex, StencilComplex2D, StencilComplex3D
from pycomplex.stencil.topology import StencilTopology
from pycomplex.stencil import util

P = Property('C26', rule='Periodic grids of dimension 1 to 4 with axes of length 1 and up, odd and even, with random forms of single and double precision, contiguous or '
             'not; non-trivial: more than one element.')

CASE = st.tuples(geo.seeds, sten.shapes(), st.integers(0, 4), sten.SCALES).map(list)
EVEN = st.tuples(geo.seeds, sten.shapes(cells=64, even=True), st.integers(0, 4), sten.SCALES).map(list)


def make(shape, scale):
    cls = {2: StencilComplex2D, 3: StencilComplex3D}.get(len(shape), StencilComplex)
    return cls.from_shape(tuple(shape), scale=scale)


def tol(kind):
    return 0 if kind in (0, 3) else 2e-6


def same(got, want, kind, msg, scale=None):
    got = np.asarray(got)
    require(got.shape == want.shape, msg + ': shape %s, not %s' % (got.shape, want.shape))
    if kind in (0, 3):
        equal(got, want, msg)
    else:
        close(got, want, msg, tol=2e-6, scale=scale or 10)


@P.sub('derivative', CASE, n=600)
def derivative(case, rec):
    seed, shape, kind, scale = case
    g = geo.rng(seed)
    D = len(shape)
    rec.nt(np.prod(shape) > 1)
    rec.label('d=%d' % D)
    C = make(shape, scale)
    T = C.topology
    require(C.scale == scale and type(C).from_shape(tuple(shape)).scale == 1, 'scale, one by default')
    require(C.n_dim == D and tuple(C.shape) == tuple(shape), 'dimension and shape')
    for n in range(D + 1):
        require(tuple(T.n_elements[n]) == sten.form_shape(shape, n) and tuple(C.n_elements[n]) == sten.form_shape(shape, n), 'shape of %d-forms' % n)
        require([tuple(s) for s in T.symbols[n]] == sten.comps(D, n), 'components of %d-forms' % n)
        for init, v in (('zeros', 0), ('ones', 1)):
            f = T.form(n, init=init)
            require(f.shape == sten.form_shape(shape, n) and (f == v).all(), 'new form')
            require(T.form(n, dtype=np.float64, init=init).dtype == np.float64, 'dtype of a new form')
        require(T.form(n, init='empty').shape == sten.form_shape(shape, n), 'new form')
    require(len(T.primal) == D and len(T.dual) == D, 'one derivative for each degree')
    for n in range(D):
        f = sten.form(g, sten.form_shape(shape, n), kind)
        h = sten.form(g, sten.form_shape(shape, n + 1), kind)
        keep = f.copy(), h.copy()
        df = T.primal[n](f)
        same(df, sten.d(f, shape, n), kind, 'derivative of a %d-form' % n)
        same(T.primal[n] * f, sten.d(f, shape, n), kind, 'derivative of a %d-form' % n)
        dh = T.dual[n](h)
        M = sten.derivative_matrix(shape, n)
        same(dh, M.T.dot(h.ravel()).reshape(f.shape), kind, 'dual derivative of a %d-form' % (n + 1))
        same(T.primal[n].T(h), M.T.dot(h.ravel()).reshape(f.shape), kind, 'transpose of the derivative')
        same(T.dual[n].T(f), sten.d(f, shape, n), kind, 'transpose of the dual derivative')
        if n + 1 < D:
            z = T.primal[n + 1](df)
            close(z, np.zeros(z.shape), 'derivative of a derivative', tol=2e-6, scale=40)
        if n:
            z = T.dual[n - 1](dh)
            close(z, np.zeros(z.shape), 'dual derivative of a dual derivative', tol=2e-6, scale=40)
        equal(f, keep[0], 'form is left alone')
        equal(h, keep[1], 'form is left alone')
        bad = np.zeros((len(sten.comps(D, n)) + 1,) + tuple(shape))
        raises(AssertionError, lambda: T.primal[n](bad), 'form of another shape')
    # constants and periodic boundary
    equal(T.primal[0](np.full(sten.form_shape(shape, 0), 3.)), np.zeros(sten.form_shape(shape, 1)), 'derivative of a constant')
    top = sten.form(g, sten.form_shape(shape, D - 1), 0)
    require(T.primal[D - 1](top).sum() == 0, 'the derivative of a form over a closed domain sums to zero')


@P.sub('pointwise', CASE, n=600)
def pointwise(case, rec):
    seed, shape, kind, scale = case
    g = geo.rng(seed)
    D = len(shape)
    rec.nt(np.prod(shape) > 1)
    C = make(shape, scale)
    T = C.topology
    f0 = sten.form(g, sten.form_shape(shape, 0), kind)
    keep = f0.copy()
    require(len(T.averaging_operators_0) == D + 1 and len(C.hodge) == D + 1, 'one operator for each degree')
    for n in range(D + 1):
        got = T.averaging_operators_0[n](f0)
        close(got, sten.average(f0, shape, n), 'average of vertices over %d-elements' % n, tol=2e-6, scale=10)
        require(got.dtype == f0.dtype, 'dtype of averages')
        f = sten.form(g, sten.form_shape(shape, n), kind)
        h = C.hodge[n]
        close(h(f), f * float(scale) ** (D - 2 * n), 'hodge star of %d-forms' % n, tol=2e-6, scale=10 * float(scale) ** (D - 2 * n))
        close(h.I(h(f)), f, 'inverse of the hodge star', tol=2e-6, scale=10)
        close(h.T(f), h(f), 'hodge star is symmetric', tol=0)
        # smoothing
        for norm, flag in ((4, True), (2, False)):
            S = C.smoothers(scale=flag)[n]
            kf = f.copy()
            close(S(f), sten.smooth(f, shape, n, norm), 'smoothing of %d-forms' % n, tol=2e-6, scale=10 * 2 ** D)
            close(S.T(f), sten.smooth(f, shape, n, norm), 'smoothing is symmetric', tol=2e-6, scale=10 * 2 ** D)
            equal(f, kf, 'form is left alone')
    equal(f0, keep, 'form is left alone')
    # positions
    x = np.asarray(C.primal_position[0])
    require(x.shape == (1,) + tuple(shape) + (D,), 'shape of positions')
    for i in np.ndindex(*shape):
        close(x[(0,) + i], np.array(i) * scale, 'position of a vertex', tol=1e-12, scale=10)
    # sampling
    p = g.uniform(-3, 3, size=(20, D)) * np.array(shape) * scale
    if kind % 2:
        p[:10] = np.round(p[:10] / scale) * scale
        p[5:10] = np.remainder(p[5:10], np.array(shape) * scale)
    kp = p.copy()
    q = p / scale
    base = np.floor(q + 1e-9).astype(int)
    fr = q - base
    want = np.zeros(20)
    for k in itertools.product([0, 1], repeat=D):
        w = np.prod([fr[:, a] if k[a] else 1 - fr[:, a] for a in range(D)], axis=0)
        want += w * f0[0][tuple((base[:, a] + k[a]) % shape[a] for a in range(D))]
    got = C.sample_0(f0, p)
    require(np.shape(got) == (20,), 'shape of samples')
    close(got, want, 'sampled 0-form', tol=1e-5, scale=10)
    equal(p, kp, 'points are left alone')
    if min(shape) > 1:
        inner = g.uniform(0, 1, size=(20, D)) * (np.array(shape) - 1) * scale
        close(C.sample_0(f0, inner, assume_interior=True), C.sample_0(f0, inner), 'interior points', tol=1e-5, scale=10)
    equal(f0, keep, 'form is left alone')


@P.sub('transfer', EVEN, n=400)
def transfer(case, rec):
    seed, shape, kind, scale = case
    g = geo.rng(seed)
    D = len(shape)
    rec.nt()
    rec.label('d=%d' % D)
    C = make(shape, scale)
    T = C.topology
    half = tuple(s // 2 for s in shape)
    require(T.is_even and tuple(T.coarse.shape) == half and tuple(C.coarse.shape) == half, 'shape of the coarse grid')
    require(tuple(T.fine.shape) == tuple(2 * s for s in shape) and tuple(C.fine.shape) == tuple(2 * s for s in shape), 'shape of the fine grid')
    require(type(C.coarse) is type(C) and type(C.fine) is type(C), 'coarse and fine complexes are of the same kind')
    require(C.coarse.scale == scale * 2 and C.fine.scale == scale / 2, 'scale of coarse and fine grids')
    for n in range(D + 1):
        fine = sten.form(g, sten.form_shape(shape, n), kind)
        coarse = sten.form(g, sten.form_shape(half, n), kind)
        keep = fine.copy(), coarse.copy()
        close(T.transfers[n](fine), sten.bin(fine, shape, n), 'fine %d-form to coarse' % n, tol=2e-6, scale=10)
        close(T.transfers[n].T(coarse), sten.tile(coarse, shape, n), 'coarse %d-form to fine' % n, tol=2e-6, scale=10)
        down = C.coarsen[n](fine)
        up = C.refine[n](coarse)
        close(down, sten.bin(sten.smooth(fine, shape, n, 4), shape, n), 'coarsened %d-form' % n, tol=2e-6, scale=10)
        close(up, sten.smooth(sten.tile(coarse, shape, n), shape, n, 2), 'refined %d-form' % n, tol=2e-6, scale=10)
        # transpose of each other up to a factor
        close(np.sum(down * coarse.astype(float)) * 2 ** D, np.sum(up * fine.astype(float)), 'refinement is the transpose of coarsening', tol=1e-5, scale=100 * np.prod(shape) * 2 ** D)
        close(C.refine[n](np.full(coarse.shape, 2.)), np.full(fine.shape, 2.), 'refined constants', tol=1e-6)
        close(C.coarsen[n](np.full(fine.shape, 2.)), np.full(coarse.shape, 2.), 'coarsened constants', tol=1e-6)
        if n < D:
            close(T.primal[n](up) * 2, C.refine[n + 1](T.coarse.primal[n](coarse)), 'refinement commutes with the derivative', tol=4e-6, scale=20)
        equal(fine, keep[0], 'form is left alone')
        equal(coarse, keep[1], 'form is left alone')
        require(C.coarsen[n].shape == (sten.form_shape(half, n), sten.form_shape(shape, n)), 'shape of coarsening')
        require(C.refine[n].shape == (sten.form_shape(shape, n), sten.form_shape(half, n)), 'shape of refinement')
    odd = list(shape)
    k = g.randint(D)
    odd[k] += 1
    require(not StencilTopology(tuple(odd)).is_even, 'odd shape')
    raises(AssertionError, lambda: StencilTopology(tuple(odd)).coarse, 'coarse grid of an odd shape')


@P.sub('kernels', st.tuples(geo.seeds, st.integers(1, 4), st.lists(st.integers(1, 5), min_size=1, max_size=4)).map(list), n=100)
def kernels(case, rec):
    seed, D, shape = case
    g = geo.rng(seed)
    rec.nt()
    symbols, terms, axes, parities = util.generate(D)
    for n in range(D + 1):
        require(len(symbols[n]) == util.pascal(D, n), 'number of components')
        require([tuple(s) for s in symbols[n]] == sten.comps(D, n), 'components')
    for n in range(D):
        for c, (t, a, p) in enumerate(zip(terms[n], axes[n], parities[n])):
            s = symbols[n + 1][c]
            require(sorted(a) == sorted(s), 'a term for each direction')
            for ti, ai, pi in zip(t, a, p):
                require(tuple(sorted(symbols[n][ti] + (ai,))) == tuple(s), 'component that is differentiated')
                require(int(pi) % 2 == sum(1 for q in s if q > ai) % 2, 'sign of a term')
    steps = [int(g.choice([1, 2, 3])) for _ in shape]
    f = g.normal(size=[a * b for a, b in zip(shape, steps)])
    got = util.binning(f, steps)
    require(got.shape == tuple(shape), 'shape of bins')
    for i in np.ndindex(*shape):
        close(got[i], f[tuple(slice(k * b, (k + 1) * b) for k, b in zip(i, steps))].mean(), 'mean of a bin', tol=1e-12, scale=1)
    c = util.checkerboard(shape)
    for i in np.ndindex(*shape):
        require(c[i] == sum(i) % 2, 'checkerboard')
    total = np.zeros(shape)
    for k in range(2 ** len(shape)):
        m = util.checkerboard_2(shape, k)
        total += m
        for i in zip(*np.nonzero(m)):
            require(sum((q % 2) << a for a, q in enumerate(i)) == k, 'checkerboard of blocks')
    require((total == 1).all(), 'checkerboards of blocks partition the grid')
    k = util.smoother(D)
    require(k.shape == (3,) * D, 'shape of a smoothing kernel')
    close(k.sum(), 1., 'smoothing kernel sums to one', tol=1e-12)
    for i in np.ndindex(*k.shape):
        close(k[i], np.prod([[.25, .5, .25][q] for q in i]), 'smoothing kernel', tol=1e-12, scale=1)
    L = [int(q) + 1 for q in g.permutation(6)[:len(shape)]]
    require(list(util.adjecent_pairs(L)) == list(zip(L[:-1], L[1:])), 'adjacent pairs')
