"""Optimization of vertex weights against the published formulas, and the embedding of weights as an extra coordinate"""
import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises
from checks.c13_metric import CURVE, build_curve

from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
from pycomplex.complex.simplicial.spherical import ComplexSpherical2

P = Property('C32', rule='Random simplicial complexes of one to three dimensions, flat, curved and on the sphere, of any numbering, size and place; '
             'non-trivial: more than one cell, and (fundamental) all cells well-centered.')

ANY = st.one_of(st.tuples(st.just('solid'), geo.solid()), st.tuples(st.just('planar'), geo.planar(top=3)), st.tuples(st.just('surface'), geo.surface(max_level=1)),
                st.tuples(st.just('sphere'), geo.sphere(max_level=1, max_rm=2)), st.tuples(st.just('curve'), CURVE)).map(list)


def build(kind, r):
    cells, x = {'solid': geo.build_solid, 'planar': geo.build_planar, 'surface': geo.build_surface, 'sphere': geo.build_sphere, 'curve': build_curve}[kind](r)
    cells = np.asarray(cells)
    if kind in ('solid', 'curve'):
        return cells, x, ComplexSimplicialEuclidian(vertices=x, simplices=cells)
    if kind == 'planar':
        return cells, x, ComplexTriangularEuclidian2(vertices=x, triangles=cells)
    if kind == 'surface':
        return cells, x, ComplexTriangularEuclidian3(vertices=x, triangles=cells)
    return cells, x, ComplexSpherical2(vertices=x, simplices=cells)


def unit(v):
    return v / np.linalg.norm(v)


def centers(cells, x, sphere):
    """center of each cell and facet, and its barycentric coordinates for cells"""
    C, B = {}, {}
    for c in cells:
        c = [int(v) for v in c]
        for f in [tuple(sorted(c))] + [tuple(sorted(c[:i] + c[i + 1:])) for i in range(len(c))]:
            p = x[list(f)]
            q = geo.power_center(p) if len(f) > 1 else p[0]
            C[f] = unit(q) if sphere else q
        B[tuple(c)] = geo.barycentric(geo.power_center(x[c]), x[c])
    return C, B


@P.sub('excess', ANY, n=400)
def excess(case, rec):
    kind, r = case
    cells, x, C = build(kind, r)
    rec.nt(len(cells) > 1)
    rec.label(kind)
    sphere = kind == 'sphere'
    cen, bary = centers(cells, x, sphere)
    n = len(x)
    tot, deg = np.zeros(n), np.zeros(n)
    big = 0.
    for c in cells:
        c = [int(v) for v in c]
        b = bary[tuple(c)]
        if np.abs(b).min() < 1e-6:
            # the sign of the excess is a matter of rounding, but then so is its size
            pass
        for i, v in enumerate(c):
            f = tuple(sorted(c[:i] + c[i + 1:]))
            e = ((cen[tuple(sorted(c))] - cen[f]) ** 2).sum() * np.sign(b[i])
            tot[v] += e
            deg[v] += 1
            big = max(big, abs(e))
    mean = tot / deg
    keep = x.copy(), cells.copy()
    W = C.optimize_weights()
    require(type(W) is type(C), 'type')
    require(W is not C and C.weights is None, 'the complex is left alone')
    equal(C.vertices, keep[0], 'the complex is left alone')
    equal(W.vertices, x, 'vertices')
    equal(W.topology.elements[-1], cells, 'cells')
    h2 = max(((x[c[0]] - x[c[1]]) ** 2).sum() for c in cells)
    close(W.weights, mean - mean.mean(), 'weights are the mean excess of the cells around a vertex', tol=2e-08, scale=big + h2)
    require(W.weights.shape == (n,), 'one weight for each vertex')
    raises(AssertionError, W.optimize_weights, 'weights are not optimized twice')
    raises(AssertionError, W.optimize_weights_metric, 'weights are not optimized twice')
    if sphere:
        require(W.radius == C.radius, 'radius')


@P.sub('metric', ANY, n=300)
def metric(case, rec):
    kind, r = case
    cells, x, C = build(kind, r)
    sphere = kind == 'sphere'
    d = cells.shape[1] - 1
    # dual metric of edges is only well-defined where centers of facets lie inside of them
    PV, DV = geo.flag_metrics(cells, x)
    if d == 3 and not geo.well_centered([f for f in gen.facet_table([tuple(int(q) for q in c) for c in cells])], x):
        rec.label('facets not well-centered')
        return
    n = len(x)
    hodge = {e: DV[e] / PV[e] for e in DV if len(e) == 2}
    diag, size = np.zeros(n), np.zeros(n)
    for e, h in hodge.items():
        for v in e:
            diag[v] += h
            size[v] += abs(h)
    if (np.abs(diag) < 1e-2 * size.max()).any():
        rec.label('small diagonal')
        return
    rec.nt(len(cells) > 1)
    rec.label(kind)
    field = np.zeros(n)
    big = 0.
    for c in cells:
        c = [int(v) for v in c]
        p = x[c]
        q = geo.power_center(p)
        if sphere:
            q = unit(q)
        m = p.mean(axis=0)
        for i, v in enumerate(c):
            f = c[:i] + c[i + 1:]
            # unit normal of the facet, towards the vertex, within the cell
            e = x[v] - x[f[0]]
            if len(f) > 1:
                Q, _ = np.linalg.qr((x[f[1:]] - x[f[0]]).T)
                e = e - Q.dot(Q.T.dot(e))
            k = (q - m).dot(unit(e)) * PV[tuple(sorted(f))]
            field[v] += k
            big = max(big, abs(k))
    want = (field - field.mean()) / diag
    W = C.optimize_weights_metric()
    require(type(W) is type(C) and C.weights is None, 'type')
    equal(W.vertices, x, 'vertices')
    equal(W.topology.elements[-1], cells, 'cells')
    L = np.abs(x - x.mean(axis=0)).max()
    S = np.abs(x).max()
    close(W.weights, want, 'weights bring circumcenters to barycenters', tol=5e-08, scale=max(np.abs(want).max(), (big + L ** (d - 1) * S * 1e-3) / np.abs(diag).min()))


@P.sub('fundamental', st.one_of(
    st.tuples(st.just('solid'), geo.solid()), st.tuples(st.just('solid'), geo.solid(dims=(3,), kinds=('cross', 'kuhn', 'simplex'), top=1)),
    st.tuples(st.just('planar'), geo.planar(kinds=('hex', 'delaunay'), top=3)), st.tuples(st.just('surface'), geo.surface(max_level=1))).map(list), n=300)
def fundamental(case, rec):
    kind, r = case
    cells, x, C = build(kind, r)
    d = cells.shape[1] - 1
    well = geo.well_centered(cells, x, tol=2e-3)
    rec.label(kind, 'well-centered' if well else 'other')
    S = C.subdivide_fundamental()
    W = S.optimize_weights_fundamental()
    require(type(W) is type(S) and S.weights is None, 'the complex is left alone')
    equal(W.vertices, S.vertices, 'vertices')
    equal(W.topology.elements[-1], S.topology.elements[-1], 'cells')
    w = np.asarray(W.weights)
    require(w.shape == (len(S.vertices),), 'one weight for each vertex')
    raises(AssertionError, W.optimize_weights_fundamental, 'weights are not optimized twice')
    n = C.topology.n_elements
    require((w[:n[0]] > 0).all(), 'parent vertices are pushed away')
    middle = w[n[0]:len(w) - (n[-1] if d > 2 else 0)]
    require((middle == 0).all(), 'others are not')
    if not well:
        return
    rec.nt()
    v = np.asarray(S.vertices)
    for c in np.asarray(S.topology.elements[-1]):
        q = geo.power_center(v[c], w[c].astype(float))
        b = geo.barycentric(q, v[c])
        require((b > 1e-7).all(), 'fundamental domains are well-centered: %r' % (b,))
    require(bool(W.is_well_centered), 'complex reports that it is well-centered')
    require(bool(W.positive_dual_metric), 'complex reports a positive dual metric')


@P.sub('augment', st.tuples(geo.seeds, st.integers(1, 4), st.integers(1, 6), st.booleans()).map(list), n=200)
def augment(case, rec):
    seed, d, n, sphere = case
    g = geo.rng(seed)
    rec.nt(n > 1)
    x = g.normal(size=(d + 1, d))
    C = ComplexSimplicialEuclidian(vertices=x, simplices=np.arange(d + 1)[None])
    if sphere:
        C = ComplexSpherical2(vertices=np.eye(3), simplices=np.arange(3)[None])
        d = 3
    v, p, w = g.normal(size=(n, d)), g.normal(size=(5, d)), g.normal(size=n)
    kv, kw = v.copy(), w.copy()
    A, B = C.augment(v, w), C.augment(p)
    require(A.shape == (n, d + 1) and B.shape == (5, d + 1), 'an extra coordinate')
    power = ((p[:, None] - v[None]) ** 2).sum(axis=-1) - w
    close(((B[:, None] - A[None]) ** 2).sum(axis=-1), power + w.max(), 'distances of augmented points are power distances', tol=1e-10, scale=100)
    o = C.weights_to_offsets(w)
    require((o >= 0).all() and o.min() == 0, 'offsets')
    close(o ** 2, w.max() - w, 'offsets', tol=1e-12, scale=10)
    h = C.homogenize(p)
    if sphere:
        equal(h, p, 'points on a sphere are homogeneous')
    else:
        equal(h, np.concatenate([p, np.ones((5, 1))], axis=1), 'a column of ones')
        q = p.reshape(5, 1, d)
        require(C.homogenize(q).shape == (5, 1, d + 1), 'any leading axes')
    equal(v, kv, 'points are left alone')
    equal(w, kw, 'weights are left alone')
