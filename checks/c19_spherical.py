import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo
from lib.pbt import Property, require, equal, close, raises

from pycomplex.geometry import spherical

P = Property('C19', rule='Random batches of spherical points, arcs and triangles (large, small, right-angled, degenerate, nearly opposite), in any orientation; '
             'non-trivial: at least one arc or triangle that is not degenerate.')

SHAPES = [[], [1], [4], [2, 3]]
BATCH = st.tuples(st.sampled_from(SHAPES), geo.seeds, st.sampled_from(['any', 'small', 'tiny', 'half', 'lattice', 'coincident', 'opposite', 'same'])).map(list)


def unit(a):
    return a / np.linalg.norm(a, axis=-1, keepdims=True)


def points(case, k, n=3):
    shape, seed, kind = case
    g = geo.rng(seed)
    p = unit(g.normal(size=tuple(shape) + (k, n)))
    c = p[..., :1, :].copy()
    if kind in ('small', 'tiny'):
        p = unit(c + p * {'small': .3, 'tiny': 3e-3}[kind])
    if kind == 'half':
        p = unit(c + p)
    if kind == 'lattice':
        p = g.randint(-1, 2, size=p.shape).astype(float)
        p[..., 0] += (np.abs(p).sum(axis=-1) == 0)
        p = unit(p)
    if k > 1 and kind == 'coincident':
        p[..., 1, :] = p[..., 0, :]
    if kind == 'same':
        p = unit(p[..., :1, :] + p * g.choice([0, 1e-16, 1e-12, 1e-8]))
    if k > 1 and kind == 'opposite':
        p[..., 1, :] = unit(-p[..., 0, :] + g.normal(size=p[..., 0, :].shape) * 1e-2)
    return gen.dress(p)


def flat(a, k):
    a = np.asarray(a)
    return a.reshape((-1,) + a.shape[a.ndim - k:])


def arc(a, b):
    return 2 * math.atan2(np.linalg.norm(a - b), np.linalg.norm(a + b))


def excess(a, b, c):
    """area of the smaller spherical triangle, in [0, 2 pi]"""
    t = abs(float(np.linalg.det(np.array([a, b, c]))))
    return 2 * math.atan2(t, 1 + a.dot(b) + b.dot(c) + c.dot(a))


@P.sub('arcs', st.tuples(BATCH, st.integers(2, 5)).map(list), n=300)
def arcs(case, rec):
    case, n = case
    p = points(case, 2, n)
    shape = tuple(case[0])
    rec.nt(case[2] not in ('coincident', 'same'))
    rec.label(case[2])
    want = np.array([arc(*q) for q in flat(p, 2)]).reshape(shape)
    got = spherical.edge_length(p[..., 0, :], p[..., 1, :])
    close(got, want, 'length of arcs', tol=1e-6, scale=1.)
    close(spherical.edge_length(p[..., 1, :], p[..., 0, :]), got, 'length of reversed arcs', tol=1e-10, scale=1.)
    close(spherical.unsigned_volume(p), want, 'volume of arcs', tol=1e-6, scale=1.)
    close(spherical.unsigned_volume(p[..., :1, :]), np.ones(shape), 'volume of points', tol=1e-10)
    close(spherical.circumcenter(p[..., :1, :]), p[..., 0, :], 'center of points', tol=1e-10)
    if want.max() > math.pi - 1e-3:
        return              # opposite points have no center
    for fn in (spherical.circumcenter, spherical.edge_circumcenter):
        c = fn(p)
        close(np.linalg.norm(c, axis=-1), np.ones(shape), 'centers lie on the sphere', tol=1e-10)
        for o, q, w in zip(flat(c, 1), flat(p, 2), np.ravel(want)):
            require(abs(arc(o, q[0]) - w / 2) < 1e-5 and abs(arc(o, q[1]) - w / 2) < 1e-5, 'center of an arc is in the middle of it')
    raises(ValueError, lambda: spherical.edge_circumcenter(p[..., :1, :]), 'center of an arc of one point')


@P.sub('triangles', BATCH, n=500)
def triangles(case, rec):
    p = points(case, 3)
    shape = tuple(case[0])
    rec.label(case[2])
    qs = flat(p, 2)
    # triangles with all of the sphere's great circles well-defined
    deg = [min(arc(a, b) for a, b in itertools.combinations(q, 2)) < 1e-4 for q in qs]
    opp = [max(arc(a, b) for a, b in itertools.combinations(q, 2)) > math.pi - 1e-3 for q in qs]
    if any(opp):
        return              # great circles are not defined
    want = np.array([excess(*q) for q in qs]).reshape(shape)
    rec.nt(bool((want > 1e-3).any()) or case[2] == 'tiny' and not any(deg))
    a, b, c = (p[..., i, :] for i in range(3))
    tol = 1e-7
    flatness = min([1] + [abs(np.linalg.det(q)) / (arc(q[0], q[1]) * arc(q[1], q[2]) * arc(q[2], q[0]) + 1e-300) for q, d in zip(qs, deg) if not d])
    got = spherical.unsigned_volume(p)
    close(got, want, 'area of triangles', tol=tol, scale=1.)
    for i in itertools.permutations(range(3)):
        close(spherical.unsigned_volume(p[..., list(i), :]), got, 'area does not depend on the order of corners', tol=tol, scale=1.)
    R = geo.rotation(case[1] + 1, 3)
    close(spherical.unsigned_volume(p.dot(R)), got, 'area does not depend on rotation', tol=tol, scale=1.)
    close(np.abs(spherical.triangle_area_from_corners(a, b, c)), want, 'area from corners', tol=tol, scale=1.)
    if not any(deg):
        close(np.abs(spherical.triangle_area_from_normals(np.cross(b, c), np.cross(c, a), np.cross(a, b))), want, 'area from normals', tol=tol, scale=1.)
        k = geo.rng(case[1]).uniform(.1, 5, size=(3,) + shape + (1,))
        close(np.abs(spherical.triangle_area_from_normals(np.cross(b, c) * k[0], np.cross(c, a) * k[1], np.cross(a, b) * k[2])), want,
              'length of normals does not count', tol=tol, scale=1.)
        # additive under splitting along an interior point of each triangle
        m = unit(a * k[0] + b * k[1] + c * k[2])
        parts = [np.asarray(spherical.unsigned_volume(np.stack(t, axis=-2))) for t in ((m, b, c), (a, m, c), (a, b, m))]
        if max(arc(x, y) for x, y in itertools.product(flat(m, 1), qs.reshape(-1, 3))) < math.pi - 1e-3:
            close(sum(parts), want, 'area is additive', tol=1e-5 if flatness < 1e-2 else 1e-7, scale=1.)
        # voronoi parts: half of the triangles at both sides
        around = spherical.triangle_areas_around_center(m, p)
        want3 = np.stack([(parts[1] + parts[2]) / 2, (parts[0] + parts[2]) / 2, (parts[0] + parts[1]) / 2], axis=-1)
        close(around, want3, 'areas around a center', tol=1e-08, scale=1.)
    q4 = np.concatenate([p, p[..., :1] * 0], axis=-1)
    raises(ValueError, lambda: spherical.unsigned_volume(q4), 'area in four dimensions')
    raises(ValueError, lambda: spherical.unsigned_volume(p[..., :2]), 'area in the plane')
    raises(ValueError, lambda: spherical.triangle_circumcenter(q4), 'center of a triangle in four dimensions')
    raises(ValueError, lambda: spherical.triangle_circumcenter(p[..., :2, :]), 'center of a triangle of two points')
    raises(ValueError, lambda: spherical.edge_circumcenter(p), 'center of an arc of three points')
    # circumcenters
    thick = [geo.volume(q) for q in qs]
    if min(thick) > 1e-3 * max(max(arc(x, y) for x, y in itertools.combinations(q, 2)) for q in qs) ** 2:
        e = np.array([geo.power_center(q) for q in qs])
        for fn in (spherical.circumcenter, spherical.triangle_circumcenter):
            o = np.asarray(fn(p))
            require(o.shape == shape + (3,), 'shape of circumcenters')
            close(np.linalg.norm(o, axis=-1), np.ones(shape), 'circumcenters lie on the sphere', tol=1e-10)
            for x, q, ee in zip(flat(o, 1), qs, e):
                if fn is spherical.circumcenter and np.linalg.norm(ee) < 1e-3:
                    continue        # on a great circle: either pole would do
                d = [arc(x, y) for y in q]
                require(max(d) - min(d) < 1e-5, 'circumcenters are as far from all corners: %r' % d)
                if fn is spherical.circumcenter:
                    require(x.dot(ee) > 0, 'circumcenters are on the side of the triangle')
        rec.label('circumcenter')


@P.sub('intersections', st.tuples(st.sampled_from(SHAPES), geo.seeds).map(list), n=200)
def intersections(case, rec):
    shape, seed = case
    g = geo.rng(seed)
    p = unit(g.normal(size=(4,) + tuple(shape) + (3,)))
    p = gen.dress(p)
    n0, n1 = unit(np.cross(p[0], p[1])), unit(np.cross(p[2], p[3]))
    if np.linalg.norm(np.cross(n0, n1), axis=-1).min() < 1e-3:
        return
    rec.nt()
    x = spherical.intersect_edges(*p)
    require(np.shape(x) == tuple(shape) + (3,), 'shape of intersections')
    close(np.linalg.norm(x, axis=-1), np.ones(tuple(shape)), 'intersections lie on the sphere', tol=1e-10)
    close(np.sum(x * n0, axis=-1), np.zeros(tuple(shape)), 'intersections lie on the first circle', tol=1e-10, scale=1.)
    close(np.sum(x * n1, axis=-1), np.zeros(tuple(shape)), 'intersections lie on the second circle', tol=1e-10, scale=1.)
    y = spherical.intersect_edges(p[1], p[0], p[2], p[3])
    close(y, -np.asarray(x), 'reversing an arc gives the opposite point', tol=1e-10, scale=1.)
