import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises

from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
from pycomplex.complex.cubical import ComplexCubical1Euclidian2
from pycomplex.topology.cubical import TopologyCubical

P = Property('C15', rule='Random open and closed triangulated surfaces in the plane and in space (obtuse triangles, any place, scale, numbering), and closed '
             'polygons; measures are compared with direct evaluation per element; non-trivial: more than one triangle or edge.')


def angle(p, q, r):
    """interior angle at p"""
    a, b = q - p, r - p
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    return 2 * math.atan2(np.linalg.norm(a - b), np.linalg.norm(a + b))


def check_plain(C, cells, x, rec):
    T = C.topology
    tris = np.asarray(T.triangles)
    equal(np.sort(tris, axis=1), np.sort(np.asarray(cells), axis=1), 'triangles')
    A = np.array([geo.volume(x[c]) for c in tris])
    ang = np.array([[angle(x[c[i]], x[c[i - 2]], x[c[i - 1]]) for i in range(3)] for c in tris])
    close(C.compute_triangle_angles, ang, 'angles of the triangles', tol=1e-10, scale=1.)
    close(np.asarray(C.compute_triangle_angles).sum(axis=1), np.full(len(tris), math.pi), 'sum of angles', tol=1e-10)
    close(C.compute_triangle_areas, A, 'areas of the triangles', tol=1e-10)
    va = np.zeros(len(x))
    for c, a in zip(tris, A):
        for v in c:
            va[v] += a / 3
    close(C.compute_vertex_areas, va, 'areas of the vertices', tol=1e-10)
    # cotangents of the angles opposite to each edge
    cot = {}
    for c, an in zip(tris, ang):
        for i in range(3):
            k = models.key([c[i - 1], c[i - 2]])
            cot[k] = cot.get(k, 0) + .5 / math.tan(an[i])
    want = np.array([cot[models.key(e)] for e in T.edges])
    close(C.compute_edge_ratio, want, 'cotangent edge ratio', tol=2e-10, scale=max(1, np.abs(want).max()))
    close(C.hodge_DP[1], want, 'cotangent edge ratio is the hodge of edges', tol=6e-09, scale=max(1, np.abs(want).max()))
    return A, va


def check_3(C, cells, x, rec):
    T = C.topology
    A, va = check_plain(C, cells, x, rec)
    tris = np.asarray(T.triangles)
    N = np.array([np.cross(x[c[1]] - x[c[0]], x[c[2]] - x[c[0]]) for c in tris])
    close(C.triangle_normals(), N, 'normals of the triangles', tol=1e-10)
    close(C.triangle_centroids(), x[tris].mean(axis=1), 'centroids of the triangles', tol=1e-10)
    vn = np.zeros(x.shape)
    for c, n in zip(tris, N):
        for v in c:
            vn[v] += n
    close(C.vertex_normals(), vn, 'normals of the vertices', tol=1e-10, scale=np.abs(N).max())
    close(C.vertex_areas(), va, 'vertex areas', tol=1e-10)
    close(C.area(), A.sum(), 'total area', tol=1e-10)
    close(C.edge_lengths(), np.array([np.linalg.norm(x[e[0]] - x[e[1]]) for e in T.edges]), 'edge lengths', tol=1e-10)
    # volume and center of mass of the cone to the origin, which is what they are for closed surfaces
    vol = np.array([np.linalg.det(x[c]) / 6 for c in tris])
    s = np.abs(vol).sum() + 1e-3 * np.abs(x).max() ** 3
    close(C.volume(), vol.sum(), 'enclosed volume', tol=1e-10, scale=s)
    if abs(vol.sum()) > 1e-3 * s:
        com = (vol[:, None] * x[tris].sum(axis=1) / 4).sum(axis=0) / vol.sum()
        close(C.center_of_mass(), com, 'center of mass', tol=1e-10, scale=np.abs(x).max() * s / abs(vol.sum()))
    closed = all(len(l) == 2 for l in gen.facet_table(cells).values())
    rec.label('closed' if closed else 'open')
    if closed:
        close(vn.sum(axis=0), np.zeros(3), 'normals of a closed surface add up to zero', tol=1e-10, scale=np.abs(N).sum())
        t = np.random.normal(size=3) * np.abs(x).max()
        M = C.translate(t)
        ss = np.abs([np.linalg.det((x + t)[c]) / 6 for c in tris]).sum()
        close(M.volume(), C.volume(), 'volume of a moved surface', tol=1e-10, scale=s + ss)
        if abs(vol.sum()) > 1e-3 * (s + ss):
            close(M.center_of_mass(), C.center_of_mass() + t, 'center of mass of a moved surface', tol=1e-10,
                  scale=np.abs(x).max() * (s + ss) / abs(vol.sum()))
        # six times the gradient of the volume
        k, ax = np.random.randint(len(x)), np.random.randint(3)
        h = 1e-3 * np.abs(x - x.mean(axis=0)).max()
        y = x.astype(float)
        y[k, ax] += h
        z = x.astype(float)
        z[k, ax] -= h
        d = (C.copy(vertices=y).volume() - C.copy(vertices=z).volume()) / (2 * h)
        close(d * 6, C.vertex_normals()[k, ax], 'vertex normals are the gradient of the volume', tol=1e-5, scale=s / h * 1e-6 + np.abs(N).max())
        R = ComplexTriangularEuclidian3(vertices=x, triangles=tris[:, ::-1])
        close(R.volume(), -C.volume(), 'volume of the surface turned inside out', tol=1e-10, scale=s)


@P.sub('space', geo.surface(), n=500)
def space(case, rec):
    cells, x = geo.build_surface(case)
    if geo.min_quality(cells, x).min() < .02:
        return
    rec.nt(len(cells) > 1)
    rec.label(case['kind'])
    C = ComplexTriangularEuclidian3(vertices=x, triangles=cells)
    check_3(C, cells, x, rec)
    if case['seed'] % 4 == 0:
        D = ComplexTriangularEuclidian(vertices=x, triangles=cells).as_3()
        require(type(D) is ComplexTriangularEuclidian3, 'as_3')
        check_3(D, cells, x, rec)


@P.sub('plane', geo.planar(), n=400)
def plane(case, rec):
    cells, x = geo.build_planar(case)
    if geo.min_quality(cells, x).min() < .02:
        return
    rec.nt(len(cells) > 1)
    C = ComplexTriangularEuclidian2(vertices=x, triangles=cells)
    check_plain(C, cells, x, rec)
    if case['seed'] % 4 == 0:
        D = ComplexTriangularEuclidian(vertices=x, triangles=cells).as_2()
        require(type(D) is ComplexTriangularEuclidian2, 'as_2')
        check_plain(D, cells, x, rec)
    W = ComplexTriangularEuclidian2(vertices=x, triangles=cells, weights=np.zeros(len(x)))
    raises(AssertionError, lambda: W.compute_edge_ratio, 'cotangents of a weighted complex')


@P.sub('polygon', st.tuples(st.lists(st.integers(3, 9), min_size=1, max_size=3), geo.seeds, gen.noise(24), st.booleans(), st.sampled_from([1, .01, 100]), st.integers(-3, 3)).map(list), n=500)
def polygon(case, rec):
    sizes, seed, labels, flip, scale, shift = case
    g = geo.rng(seed)
    edges, x, n, area = [], [], 0, 0.
    for i, s in enumerate(sizes):
        a = np.sort(g.uniform(0, 2 * math.pi, size=s))
        r = g.uniform(.2, 1, size=s)
        p = np.stack([np.cos(a) * r, np.sin(a) * r], axis=1) * scale + np.array([3. * i + shift, -shift])
        e = [(n + j, n + (j + 1) % s) for j in range(s)]
        sign = 1
        if flip:
            e = [q[::-1] for q in e]
            sign = -1
        area += sign * .5 * sum(p[j, 0] * p[(j + 1) % s, 1] - p[j, 1] * p[(j + 1) % s, 0] for j in range(s))
        edges += e
        x.append(p)
        n += s
    x = np.concatenate(x)
    edges, x = geo.relabel(np.array(edges), x, labels, labels)
    rec.nt(True)
    rec.label('polygons=%d' % len(sizes))
    C = ComplexCubical1Euclidian2(vertices=x, topology=TopologyCubical.from_cubes(edges))
    # oriented counterclockwise or clockwise: the sign is that of the orientation
    got = C.volume()
    s = (np.abs(x).max() ** 2 + 1) * len(edges)
    close(got, area, 'enclosed area', tol=1e-9, scale=s)
    O = ComplexCubical1Euclidian2(vertices=x, topology=TopologyCubical.from_cubes(edges[:-1]))
    if len(np.unique(edges[:-1])) == len(x):
        raises(ValueError, O.volume, 'volume of an open curve')
