import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close
from checks.c13_metric import usable, make_weights, sheared, W, barys, CURVE, build_curve

from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular

P = Property('C14', rule='Random planar, surface and solid complexes, weighted or not; the complex is moved, scaled, renumbered and its weights shifted, and '
             'Laplacians are applied to random affine functions; non-trivial: more than one cell.')


def make(cells, x, w):
    if len(cells[0]) == 3:
        return ComplexTriangularEuclidian(vertices=x, triangles=cells, weights=w)
    return ComplexSimplicialEuclidian(vertices=x, simplices=cells, weights=w)


def size_of(cells, x):
    return max(np.linalg.norm(x[a] - x[b]) for c in cells for a, b in itertools.combinations(c, 2))


def check_hodge(C, rec):
    PM, DM = C.metric
    d = C.topology.n_dim
    require(C.primal_metric is PM or all((np.asarray(a) == b).all() for a, b in zip(C.primal_metric, PM)), 'primal_metric')
    require(all((np.asarray(a) == b).all() for a, b in zip(C.dual_metric, DM)), 'dual_metric')
    require(len(C.hodge_DP) == d + 1 and len(C.hodge_PD) == d + 1, 'one hodge for each dimension')
    for k in range(d + 1):
        p, q = np.asarray(PM[k]), np.asarray(DM[d - k])
        ok = np.abs(q) > 1e-9 * np.abs(q).max()
        close(C.hodge_DP[k], q / p, 'primal to dual hodge', tol=1e-10)
        close(np.asarray(C.hodge_PD[k])[ok], (p / q)[ok], 'dual to primal hodge', tol=1e-10)
        close((np.asarray(C.hodge_PD[k]) * C.hodge_DP[k])[ok], np.ones(ok.sum()), 'hodges are inverse', tol=1e-10)


def check_moves(C, cells, x, w, move, rec):
    seed, k, shift = move
    d = len(cells[0]) - 1
    n = x.shape[1]
    L = size_of(cells, x)
    g = geo.rng(seed)
    R = geo.rotation(seed, n)
    s = [1, .25, 7, 1e-3, 1e3][k % 5]
    y = (x.dot(R)) * s + g.uniform(-2, 2, size=n) * L * s
    v = None if w is None else w * s ** 2 + shift * L ** 2 * s ** 2
    p = g.permutation(len(x))            # new vertex i is old vertex p[i]
    inv = np.argsort(p)
    order = g.permutation(len(cells))
    E = make(inv[np.asarray(cells)][order], y[p], None if v is None else v[p])
    for k in range(d + 1):
        for a, b, h in ((C.metric[0][k], E.metric[0][k], k), (C.metric[1][d - k], E.metric[1][d - k], d - k)):
            a = {models.key(c): q for c, q in zip(C.topology.corners[k], a)}
            b = {models.key(p[np.asarray(c)]): q for c, q in zip(E.topology.corners[k], b)}
            require(a.keys() == b.keys(), 'elements of a renumbered complex')
            big = max([abs(q) for q in a.values()] + [L ** h])
            for f in a:
                require(abs(b[f] / s ** h - a[f]) <= 1e-6 * big, 'metric of a moved, scaled and renumbered complex: %r, expected %r' % (b[f] / s ** h, a[f]))


def check_laplacian(C, cells, x, w, seed, rec):
    T = C.topology
    d = T.n_dim
    g = geo.rng(seed)
    # oracle: vertices not in any facet with a single cell
    table = gen.facet_table(cells)
    on = {v for f, l in table.items() if len(l) == 1 for v in f}
    if d == 1:
        on = {int(v) for v in np.unique(cells) if (np.asarray(cells) == v).sum() == 1}
    inner = [v for v in range(len(x)) if v not in on]
    T0 = T.matrices[0].astype(float)
    H = np.asarray(C.hodge_DP[1])
    f = x.dot(g.normal(size=(x.shape[1], 2))) + g.normal(size=2)
    L = size_of(cells, x)
    Lf = T0.dot(H[:, None] * T0.T.dot(f))
    big = np.abs(H).max() * np.abs(f - f.mean(axis=0)).max()
    close(Lf.sum(axis=0), np.zeros(2), 'the laplacian conserves', tol=1e-10, scale=big * len(x))
    if x.shape[1] == d:
        for v in inner:
            require((np.abs(Lf[v]) <= 1e-6 * big * 6).all(), 'the laplacian of an affine function is %r at interior vertex %d' % (Lf[v], v))
        if inner:
            rec.label('interior vertices')
        if d == 2 and w is None:
            # energy of an affine function
            grad = g.normal(size=2)
            e = T0.T.dot(x.dot(grad))
            area = sum(geo.volume(x[list(c)]) for c in cells)
            close((H * e * e).sum(), area * grad.dot(grad), 'dirichlet energy of an affine function', tol=1e-08, scale=abs(H).max() * (grad ** 2).sum() * L ** 2)


def check_excess(C, cells, x, w, rec):
    """dual edge excess, remapping and the delaunay predicate"""
    T = C.topology
    d = T.n_dim
    E = T.elements[-1]
    L = size_of(cells, x)
    want = np.zeros(E.shape)
    for i, c in enumerate(E):
        b = barys(c, x, w)
        q = b.dot(x[c])
        for j in range(d + 1):
            f = [v for v in c if v != c[j]]
            m = geo.power_center(x[sorted(f)], None if w is None else w[sorted(f)])
            want[i, j] = ((q - m) ** 2).sum() * np.sign(b[j])
    got = C.dual_edge_excess()
    close(got, want, 'dual edge excess', tol=1e-07, scale=max(L ** 2, np.abs(want).max()))
    close(C.dual_edge_excess(signed=False), np.abs(want), 'unsigned dual edge excess', tol=1e-07, scale=max(L ** 2, np.abs(want).max()))
    # remaps, against loops over the incidence matrix
    fld = np.random.normal(size=E.shape)
    M = T.matrices[-1].tocoo()
    inc = {(int(r), int(c)): int(v) for r, c, v in zip(M.row, M.col, M.data)}
    facets = {models.key(f): i for i, f in enumerate(T.corners[-2])}
    plain, signed, at = np.zeros(len(facets)), np.zeros(len(facets)), np.zeros(len(x))
    exc = np.zeros(len(facets))
    for i, c in enumerate(E):
        for j in range(d + 1):
            k = facets[models.key([v for v in c if v != c[j]])]
            plain[k] += fld[i, j]
            signed[k] += fld[i, j] * inc[k, i]
            exc[k] += want[i, j]
            at[c[j]] += fld[i, j]
    # the j-th facet of a cell is opposite to its j-th corner
    close(C.remap_boundary_N(fld, oriented=False), plain, 'remapping to facets', tol=1e-10)
    close(C.remap_boundary_N(fld, oriented=True), signed, 'oriented remapping to facets', tol=1e-10)
    close(C.remap_boundary_0(fld), at, 'remapping to vertices', tol=1e-10)
    if (np.abs(exc) > 1e-5 * L ** 2).all():
        want = bool((exc > 0).all())
        require(bool(C.is_pairwise_delaunay) == want, 'is_pairwise_delaunay, expected %r' % want)
        rec.label('delaunay' if want else 'not delaunay')


def check_position(C, cells, x, w):
    T = C.topology
    d = T.n_dim
    L = size_of(cells, x)
    pp = C.primal_position
    for k in range(d + 1):
        want = np.array([geo.power_center(x[np.asarray(c)], None if w is None else w[np.asarray(c)]) for c in T.corners[k]])
        s = max(L, np.abs(x).max(), np.abs(want).max())
        close(pp[k], want, 'position of primal %d-elements' % k, tol=4e-10, scale=s)
    dp = C.dual_position
    B = T.boundary
    require(len(dp) == d + 1, 'one array of dual positions for each dimension')
    for k in range(d + 1):
        want = pp[k]
        if B is not None and k > 0:
            want = np.concatenate([pp[k], pp[k - 1][np.asarray(B.parent_idx[k - 1])]])
        close(dp[d - k], want, 'dual positions', tol=1e-10)
    close(C.box, np.array([x.min(axis=0), x.max(axis=0)]), 'bounding box', tol=1e-10)


def check(cells, x, w, seed, move, rec):
    rec.nt(len(cells) > 1)
    rec.label('d=%d' % (len(cells[0]) - 1), 'weighted' if w is not None else 'plain')
    C = make(cells, x, w)
    check_position(C, cells, x, w)
    check_excess(C, cells, x, w, rec)
    check_hodge(C, rec)
    check_laplacian(C, cells, x, w, seed, rec)
    check_moves(C, cells, x, w, move, rec)


MV = st.tuples(geo.seeds, st.integers(0, 4), st.integers(-3, 3)).map(list)


@P.sub('planar', st.tuples(geo.planar(top=5), W, geo.seeds, MV).map(list), n=450)
def planar(case, rec):
    r, (noise, level), seed, move = case
    cells, x = geo.build_planar(r)
    w = make_weights(noise, level, cells, x)
    if not usable(cells, x, w, 2):
        return
    check(cells, x, w, seed, move, rec)


@P.sub('surface', st.tuples(geo.surface(), W, geo.seeds, MV).map(list), n=200)
def surface(case, rec):
    r, (noise, level), seed, move = case
    cells, x = geo.build_surface(r)
    w = make_weights(noise, level, cells, x)
    if not usable(cells, x, w, 2):
        return
    check(cells, x, w, seed, move, rec)


@P.sub('solid', st.tuples(geo.solid(dims=(3,), kinds=('kuhn', 'kuhn', 'kuhn', 'simplex', 'delaunay')).map(sheared), W, geo.seeds, MV).map(list), n=300)
def solid(case, rec):
    r, (noise, level), seed, move = case
    cells, x = geo.build_solid(r)
    w = make_weights(noise, level, cells, x)
    if not usable(cells, x, w, r['d']):
        return
    check(cells, x, w, seed, move, rec)


@P.sub('solid_4', st.tuples(geo.solid(dims=(1, 4, 4, 4), kinds=('kuhn', 'kuhn', 'simplex'), top=1).map(lambda r: dict(r, shear=r['d'] == 4, amp=r['amp'] // 4, n=[2, 1, 1] if r['seed'] % 4 == 0 and r['d'] == 4 else r['n'])), W, geo.seeds, MV).map(list), n=60)
def solid_4(case, rec):
    solid(case, rec)


@P.sub('curve', st.tuples(CURVE, W, MV).map(list), n=200)
def curve(case, rec):
    """open and closed polylines in any number of dimensions"""
    r, (noise, level), move = case
    cells, x = build_curve(r)
    if not usable(cells, x, None, 1):
        return
    w = make_weights(noise, level, cells, x)
    check(cells, x, w, r[0], move, rec)
