import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models, reg
from lib.pbt import Property, require, equal, close, raises
from checks.c16_regular_metric import make as make_regular
from checks.c13_metric import faces_inside, CURVE, build_curve
from checks.c21_picking import FLAT, build, excess, size_of

from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.complex.simplicial.spherical import ComplexSpherical2

P = Property('C22', rule='Random pairwise Delaunay complexes in the plane, in space and on curved surfaces, and grids of boxes of dimension 1 to 4, with random '
             'dual 1-forms and gradients of affine functions; non-trivial: more than one cell.')

F = st.tuples(geo.seeds, st.integers(0, 2), st.sampled_from([0, 0, 1, 2])).map(list)


def inward(cells, x):
    """per cell: dict from facet to (unit normal pointing inward within the cell, area)"""
    out = []
    for c in cells:
        c = [int(v) for v in c]
        q = {}
        for i in range(len(c)):
            f = c[:i] + c[i + 1:]
            n = x[c[i]] - x[f[0]]
            if len(f) > 1:
                B, _ = np.linalg.qr((x[f[1:]] - x[f[0]]).T)
                n = n - B.dot(B.T.dot(n))
            q[tuple(sorted(f))] = n / np.linalg.norm(n), geo.volume(x[f])
        out.append(q)
    return out


def check(C, cells, normals, n, g, extra, hodge, rec):
    """against least squares per cell"""
    T = C.topology
    d = T.n_dim
    index = {models.key(c): i for i, c in enumerate(T.corners[d - 1])} if d > 1 or not hasattr(cells, 'ndim') else None
    if index is None:
        index = {(int(c),): i for i, c in enumerate(np.asarray(T.corners[0]).reshape(-1))}
    M = T.matrices[-1].tocsr()
    D = T.dual
    u = gen.dress(g.normal(size=(D.n_elements[1],) + [(), (2,), (2, 3)][extra]))
    keep = u.copy()
    v = np.asarray(C.dual_flux_to_dual_velocity(u))
    equal(u, keep, 'flux is left alone')
    require(v.shape == (D.n_elements[0], n) + u.shape[1:], 'shape of the velocity %s' % (v.shape,))
    require((v[len(cells):] == 0).all(), 'velocity of boundary dual vertices')
    for i, q in enumerate(normals):
        fs = [index[f] for f in q]
        N = np.array([nn * a for nn, a in q.values()])
        fl = np.array([M[f, i] * hodge[f] for f in fs])
        want = np.tensordot(np.linalg.pinv(N, rcond=1e-9), fl.reshape((-1,) + (1,) * (u.ndim - 1)) * u[fs], axes=1)
        close(v[i], want, 'velocity of cell %d' % i, tol=1e-7, scale=np.abs(want).max() + np.abs(np.linalg.pinv(N, rcond=1e-9)).max() * np.abs(fl).max())
    return D


def gradient(C, x, m, g, rec, what):
    """of affine functions; for complexes that fill their space"""
    n = x.shape[1]
    a = g.normal(size=n)
    S = np.abs(x).max()
    pos = np.asarray(C.dual_position[0])
    d1 = C.topology.dual.matrices[0].T * pos.dot(a)
    v = np.asarray(C.dual_flux_to_dual_velocity(d1))[:m]
    h = np.abs(np.asarray(C.dual_metric[1])).min()
    close(v, np.repeat(a[None], m, axis=0), what, tol=1e-9 + 1e-13 * S / h, scale=10 * np.abs(a).max())


@P.sub('flat', st.tuples(FLAT, F).map(list), n=400)
def flat(case, rec):
    r, (seed, extra, wk) = case
    cells, x = build(r)
    L = size_of(cells, x)
    g = geo.rng(seed)
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * [0, .02, .1][wk]
    run(cells, x, w, L, g, extra, rec, True)


def run(cells, x, w, L, g, extra, rec, filled):
    E, centers, clear = excess(cells, x, w)
    e = min(E.values())
    if not clear or abs(e) < 1e-5 * L ** 2:
        return
    if len(cells[0]) == 3:
        C = ComplexTriangularEuclidian(vertices=x, triangles=cells, weights=w)
    else:
        C = ComplexSimplicialEuclidian(vertices=x, simplices=cells, weights=w)
    if e < 0:
        rec.label('refused')
        raises(AssertionError, lambda: C.dual_flux_to_dual_velocity, 'flux in a complex that is not pairwise delaunay')
        return
    rec.nt(len(cells) > 1)
    rec.label('%d-d in %d' % (len(cells[0]) - 1, x.shape[1]), 'weighted' if w is not None else 'plain')
    # a dual edge may be short, when centers of cells nearly coincide
    h = np.abs(C.dual_metric[1])
    if h.min() < 1e-3 * L:
        rec.label('short dual edge')
        return
    check(C, cells, inward(cells, x), x.shape[1], g, extra, np.asarray(C.hodge_PD[-2]), rec)
    # areas of facets are right when the centers of the edges and facets are inside them, as in C13
    if filled and faces_inside(cells, x, w, range(1, x.shape[1])):
        gradient(C, x, len(cells), g, rec, 'gradient of an affine function')


@P.sub('surface', st.tuples(geo.surface(max_level=1), F).map(list), n=200)
def surface(case, rec):
    r, (seed, extra, wk) = case
    cells, x = geo.build_surface(r)
    L = size_of(cells, x)
    g = geo.rng(seed)
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * [0, .02, .05][wk]
    run(cells, x, w, L, g, extra, rec, False)


@P.sub('curve', st.tuples(st.one_of(CURVE, geo.solid(dims=(1, 1, 4), kinds=('kuhn', 'simplex'), top=2).map(lambda r: dict(r, n=r['n'] if r['d'] == 1 else [r['n'][0], 1, 1], shear=True, amp=r['amp'] // 4))), F).map(list), n=150)
def curve(case, rec):
    """curves, and four dimensions"""
    r, (seed, extra, wk) = case
    cells, x = geo.build_solid(r) if isinstance(r, dict) else build_curve(r)
    L = size_of(cells, x)
    g = geo.rng(seed)
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * [0, .02, .1][wk]
    run(cells, x, w, L, g, extra, rec, x.shape[1] == len(cells[0]) - 1)


@P.sub('sphere', st.tuples(geo.sphere(kinds=('ico', 'octa'), max_rm=2, max_level=1), F).map(list), n=60)
def sphere(case, rec):
    r, (seed, extra, _) = case
    cells, x = geo.build_sphere(r)
    E, centers, clear = excess(cells, x, None)
    if not clear or min(E.values()) < 1e-4:
        return
    C = ComplexSpherical2(vertices=x, simplices=cells)
    if not geo.well_centered(cells, x, None, tol=.02):
        return
    rec.nt(len(cells) > 1)
    check(C, cells, inward(cells, x), 3, geo.rng(seed), extra, np.asarray(C.hodge_PD[-2]), rec)


@P.sub('regular', st.tuples(reg.regular(), F).map(list), n=300)
def regular(case, rec):
    r, (seed, extra, _) = case
    b = reg.build(r)
    d = b['d']
    g = geo.rng(seed)
    C = make_regular(b)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % d)
    normals = []
    for i, c in enumerate(b['cells']):
        lo, hi = b['lo'][i], b['hi'][i]
        q = {}
        for a in range(d):
            for s in (0, 1):
                at = lo[a] if s == 0 else hi[a]
                f = tuple(sorted(int(v) for v in c.ravel() if abs(b['x'][v, a] - at) < 1e-9 * (hi[a] - lo[a])))
                n = np.zeros(d)
                n[a] = 1 - 2 * s
                q[f] = n, float(np.prod(np.delete(hi - lo, a)))
        normals.append(q)
    check(C, list(b['cells']), normals, d, g, extra, np.asarray(C.hodge_PD[-2]), rec)
    gradient(C, b['x'], len(b['cells']), g, rec, 'gradient of an affine function')
