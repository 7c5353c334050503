import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close

from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian

P = Property('C13', rule='Random planar and solid simplicial complexes and surfaces in space (acute and obtuse, Delaunay or not, weighted or not, open or '
             'closed, any numbering, motion and scale); primal and dual metrics are compared with signed sums over flags; non-trivial: more than one cell.')


def barys(f, x, w):
    p = x[list(f)]
    q = geo.power_center(p, None if w is None else w[list(f)])
    e = p[1:] - p[0]
    b = np.linalg.solve(e.dot(e.T), e.dot(q - p[0]))
    return np.concatenate([[1 - b.sum()], b])


def faces_inside(cells, x, w, dims, tol=1e-3):
    """the centers of all faces of the given dimensions are inside"""
    fs = {f for c in cells for k in dims for f in itertools.combinations(sorted(int(v) for v in c), k + 1)}
    return all((barys(f, x, w) > tol).all() for f in fs)


def make_weights(noise, level, cells, x):
    """weights up to a fraction of the squared length of the shortest edge"""
    if not level:
        return None
    L = min(np.linalg.norm(x[a] - x[b]) for c in cells for a, b in itertools.combinations(c, 2))
    return gen.Noise(noise).floats(len(x)) * L ** 2 * level / 4 + 7 * L ** 2


def keyed(T, k, values):
    require(len(values) == T.n_elements[k], 'one value for each %d-element' % k)
    return {models.key(c): v for c, v in zip(T.corners[k], values)}


def compare(T, k, got, want, scale, msg, tol=1e-6):
    got = keyed(T, k, got)
    for f, v in got.items():
        require(abs(v - want[f]) <= tol * scale, '%s of %s: got %r, expected %r' % (msg, list(f), float(v), float(want[f])))


def check(C, cells, x, w, rec):
    T = C.topology
    d = T.n_dim
    rec.nt(len(cells) > 1)
    rec.label('d=%d' % d, 'weighted' if w is not None else 'plain')
    PM, DM = C.metric
    require(len(PM) == d + 1 and len(DM) == d + 1, 'one metric for each dimension')
    Pw, Dw = geo.flag_metrics(cells, x, w)
    size = max(np.linalg.norm(x[a] - x[b]) for c in cells for a, b in itertools.combinations(c, 2))
    for k in range(d + 1):
        sp = max(abs(v) for f, v in Pw.items() if len(f) == k + 1)
        sd = max([abs(v) for f, v in Dw.items() if len(f) == k + 1] + [size ** (d - k)])
        compare(T, k, PM[k], Pw, sp, 'primal %d-metric' % k)
        compare(T, k, DM[d - k], Dw, sd, 'dual %d-metric' % (d - k))
    total = sum(v for f, v in Pw.items() if len(f) == d + 1)
    s0 = max([abs(v) for f, v in Dw.items() if len(f) == 1] + [total])
    require(abs(np.sum(DM[d]) - total) <= 1e-6 * s0 * len(x) ** .5, 'the dual cells partition the complex')
    require(abs(np.sum(PM[d]) - total) <= 1e-6 * s0, 'total of the primal cells')
    # signs, as far as they are clear
    for k in range(d + 1):
        sd = max([abs(v) for f, v in Dw.items() if len(f) == k + 1])
        if min(Dw[f] for f in Dw if len(f) == k + 1) < -1e-5 * sd:
            require(not C.positive_dual_metric, 'a negative dual metric is noticed')
            rec.label('negative dual metric')
    if all(v > 1e-5 * max(Dw[q] for q in Dw if len(q) == len(f)) for f, v in Dw.items()):
        require(C.positive_dual_metric, 'the dual metric is positive')
    wc = geo.well_centered(cells, x, w, tol=1e-4)
    notwc = not geo.well_centered(cells, x, w, tol=-1e-4)
    if wc or notwc:
        require(bool(C.is_well_centered) == wc, 'is_well_centered')
        rec.label('well-centered' if wc else 'not well-centered')
    return Dw


def check_boundary(C, cells, x, w, rec, Dw):
    """metrics closed off at the boundary"""
    T = C.topology
    d = T.n_dim
    full = C.dual_metric_closed
    B = T.boundary
    if B is None:
        for k in range(d + 1):
            close(full[k], C.dual_metric[k], 'closed dual metric', tol=1e-10)
        return
    rec.label('bounded')
    bc = np.asarray(B.parent_idx[0])[np.asarray(B.corners[-1])] if d > 1 else None
    for k in range(d + 1):
        n = T.n_elements[d - k]
        close(full[k][:n], C.dual_metric[k], 'closed dual metric, interior', tol=1e-10)
        if k == d:
            require(len(full[k]) == n, 'closed dual metric has no boundary cells')
    if d == 1:
        return
    _, Db = geo.flag_metrics(bc, x, w)
    for k in range(d):
        b = full[k][T.n_elements[d - k]:]
        require(len(b) == B.n_elements[d - 1 - k], 'dual boundary elements of the closed dual metric')
        want = np.array([Db[models.key(np.asarray(B.parent_idx[0])[np.asarray(c)])] for c in B.corners[d - 1 - k]])
        close(b, want, 'dual %d-metric of the boundary' % k, tol=3e-07)


def usable(cells, x, w, d, flat=True):
    q = geo.min_quality(cells, x).min()
    if q < (.02 if d == 2 else .004):
        return False
    # signs of flags below the facets are not tracked: centers of edges (and in 3d of triangles) have to be inside
    return faces_inside(cells, x, w, range(1, d))


W = st.tuples(gen.noise(16), st.sampled_from([0, 0, 1, 2, 3])).map(list)


@P.sub('planar', st.tuples(geo.planar(), W).map(list), n=900)
def planar(case, rec):
    r, (noise, level) = case
    cells, x = geo.build_planar(r)
    w = make_weights(noise, level, cells, x)
    if not usable(cells, x, w, 2):
        return
    rec.label(r['kind'])
    C = ComplexTriangularEuclidian(vertices=x, triangles=cells, weights=w)
    Dw = check(C, cells, x, w, rec)
    check_boundary(C, cells, x, w, rec, Dw)


@P.sub('surface', st.tuples(geo.surface(), W).map(list), n=400)
def surface(case, rec):
    r, (noise, level) = case
    cells, x = geo.build_surface(r)
    w = make_weights(noise, level, cells, x)
    if not usable(cells, x, w, 2):
        return
    rec.label(r['kind'])
    C = ComplexTriangularEuclidian(vertices=x, triangles=cells, weights=w)
    Dw = check(C, cells, x, w, rec)
    check_boundary(C, cells, x, w, rec, Dw)


def sheared(r):
    # lattices of near-regular tetrahedra; others have right or obtuse faces
    return dict(r, shear=r['d'] == 3 and r['seed'] % 8 > 0, amp=r['amp'] // 2)


@P.sub('solid', st.tuples(geo.solid(dims=(1, 3, 3, 3), kinds=('kuhn', 'kuhn', 'kuhn', 'simplex', 'delaunay')).map(sheared), W).map(list), n=600)
def solid(case, rec):
    r, (noise, level) = case
    cells, x = geo.build_solid(r)
    w = make_weights(noise, level, cells, x)
    if not usable(cells, x, w, r['d']):
        rec.label('unusable')
        return
    rec.label(r['kind'])
    C = ComplexSimplicialEuclidian(vertices=x, simplices=cells, weights=w)
    Dw = check(C, cells, x, w, rec)
    check_boundary(C, cells, x, w, rec, Dw)


CURVE = st.tuples(geo.seeds, st.integers(2, 8), st.integers(1, 3), st.booleans()).map(list)


def build_curve(r):
    """open or closed polyline, oriented along it or against it"""
    seed, n, dim, closed = r
    g = geo.rng(seed)
    x = np.cumsum(g.uniform(.2, 1, size=n))[:, None] * np.eye(1, dim) if dim == 1 else g.normal(size=(n, dim))
    cells = [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if closed and n > 2 and dim > 1 else [])
    p = g.permutation(n)
    cells = np.argsort(p)[np.array(cells)][g.permutation(len(cells))]
    if g.randint(2):
        cells = cells[:, ::-1]
    x = x[p] * g.choice([1, 100, .01])
    # no edge is much shorter than the others
    e = np.linalg.norm(x[cells[:, 0]] - x[cells[:, 1]], axis=1)
    return (cells, x) if e.min() > .05 * e.max() else build_curve([seed + 1000003, n, dim, closed])


@P.sub('curve', st.tuples(CURVE, W).map(list), n=200)
def curve(case, rec):
    r, (noise, level) = case
    cells, x = build_curve(r)
    w = make_weights(noise, level, cells, x)
    C = ComplexSimplicialEuclidian(vertices=x, simplices=cells, weights=w)
    Dw = check(C, cells, x, w, rec)
    check_boundary(C, cells, x, w, rec, Dw)


@P.sub('solid_4', st.tuples(geo.solid(dims=(4,), kinds=('simplex', 'kuhn', 'kuhn'), top=1).map(lambda r: dict(r, shear=True, amp=r['amp'] // 4)), W).map(list), n=30)
def solid_4(case, rec):
    solid(case, rec)


@P.sub('predicates', st.tuples(st.one_of(geo.planar(), geo.solid(dims=(1, 2, 3, 3), kinds=('simplex', 'simplex', 'kuhn', 'delaunay'), top=2)), W, st.sampled_from([0, 1, 2, 2])).map(list), n=500)
def predicates(case, rec):
    """complexes of any shape: a cell may have its center inside while an edge or facet does not"""
    r, (noise, level), aim = case
    cells, x = geo.build_solid(r) if 'd' in r else geo.build_planar(r)
    d = len(cells[0]) - 1
    if geo.min_quality(cells, x).min() < (.02 if d < 3 else .004):
        return
    g = geo.rng(r['seed'])
    if aim == 2:
        # a single cell of any shape
        x = g.normal(size=(d + 1, x.shape[1])) * g.choice([.3, 1, 1], size=x.shape[1])
        cells = geo.orient_by_volume(np.arange(d + 1)[None], x) if x.shape[1] == d else np.arange(d + 1)[None]
        if geo.min_quality(cells, x).min() < (.05 if d < 3 else .01):
            return
    w = make_weights(noise, level, cells, x)
    if d == 1 and len(x) > 2 and r['seed'] % 2:
        w = g.uniform(0, 4, size=len(x)) * np.abs(x[cells[0][0]] - x[cells[0][1]]).max() ** 2       # centers of edges are outside of them
    elif aim:
        # weights that put the center of one cell at a given place inside it
        c = cells[g.randint(len(cells))]
        L = max(np.linalg.norm(x[a] - x[b]) for a, b in itertools.combinations(c, 2))
        b = g.dirichlet([1] * (d + 1)) * .9 + .1 / (d + 1)
        w = g.uniform(-.1, .1, size=len(x)) * L ** 2
        w[c] = ((x[c] - b.dot(x[c])) ** 2).sum(axis=1)
    rec.nt(d > 1)
    C = ComplexSimplicialEuclidian(vertices=x, simplices=cells, weights=w)
    rec.label('d=%d' % d, 'weighted' if w is not None else 'plain')
    fs = {f for c in cells for k in range(1, d + 1) for f in itertools.combinations(sorted(int(v) for v in c), k + 1)}
    low = {}
    for f in fs:
        low[len(f) - 1] = min(low.get(len(f) - 1, 1), barys(f, x, w).min())
    if all(abs(v) > 1e-4 for v in low.values()):
        require(bool(C.is_well_centered) == (min(low.values()) > 0), 'is_well_centered, with least barycentric coordinates %r' % low)
        if low[d] > 0 and min(low.values()) < 0:
            rec.label('centers of cells inside, of their faces outside')
    m = [np.asarray(q) for q in C.dual_metric]
    require(bool(C.positive_dual_metric) == all((q > 0).all() for q in m), 'positive_dual_metric')
    if not (m[d] > 0).all() and all((q > 0).all() for q in m[:d]):
        rec.label('only dual cells are not positive')
    if not (m[1] > 0).all():
        rec.label('a dual edge is not positive')
