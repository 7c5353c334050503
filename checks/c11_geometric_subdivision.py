import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.complex.simplicial.spherical import ComplexSpherical, ComplexSpherical2
from pycomplex.complex.cubical import ComplexCubical, ComplexCubical2

P = Property('C11', rule='Random embedded complexes (planar and solid simplices of any quality, surfaces in space, perturbed grids, spherical '
             'triangulations; any numbering, motion and scale); new vertex positions, volumes of the fine cells, and boundaries are '
             'compared with direct computation; non-trivial: more than one coarse cell.')


def centers(x, corners, w=None):
    return np.array([geo.power_center(x[c], None if w is None else w[c]) for c in corners])


def sval(cells, x):
    return np.array([geo.signed_volume(x[c]) for c in cells])


def quad_area(x, c):
    """signed area of a quad given as 2x2 array"""
    p = x[[c[0, 0], c[1, 0], c[1, 1], c[0, 1]]]
    q = np.roll(p, -1, axis=0)
    return float((p[:, 0] * q[:, 1] - p[:, 1] * q[:, 0]).sum() / 2)


def parallelepiped(x, c):
    d = c.ndim
    o = x[c[(0,) * d]]
    return np.linalg.det(np.array([x[c[tuple(int(i == j) for j in range(d))]] - o for i in range(d)]))


def sorted_rows(a, scale):
    a = np.round(np.asarray(a) / scale, 6) + 0.
    return a[np.lexsort(a.T[::-1])]


def same_points(a, b, scale, msg):
    require(len(a) == len(b), msg + ': %d points, expected %d' % (len(a), len(b)))
    a, b = np.asarray(a), np.asarray(b)
    if not len(a):
        return
    d = np.linalg.norm(a[:, None] - b[None], axis=-1)
    require((d.min(axis=1) < 1e-7 * scale).all() and (d.min(axis=0) < 1e-7 * scale).all(), msg + ': different points')


def extent(x):
    return float(np.abs(x - x.mean(axis=0)).max() + 1e-12)


def size(x):
    return float(np.abs(x).max() + 1e-12)


@P.sub('simplicial', geo.solid(dims=(2, 2, 3)), n=1500)
def simplicial(case, rec):
    cells, x = geo.build_solid(case)
    d = case['d']
    if geo.min_quality(cells, x).min() < (.02 if d == 2 else .004):
        return
    rec.nt(len(cells) > 1)
    rec.label('d=%d' % d)
    C = ComplexSimplicialEuclidian(vertices=x, simplices=cells)
    T = C.topology
    V = sval(cells, x)
    total = V.sum()
    pos = [centers(x, c) for c in T.corners]
    tol = dict(tol=1e-8, scale=max(size(x), max(np.abs(p).max() for p in pos)))
    for k in range(d + 1):
        close(C.primal_position[k], pos[k], 'position of %d-elements is their circumcenter' % k, **tol)
    vs = 1e-7 * max(extent(q) for q in pos) ** d / max(abs(total), 1e-300)
    S = C.subdivide_fundamental()
    require(type(S) is type(C), 'type of the subdivided complex')
    close(S.vertices, np.concatenate(pos), 'fundamental: vertices', **tol)
    got = sval(S.topology.elements[-1], S.vertices).sum()
    close(got if d == 2 else abs(got), total, 'fundamental: volume', tol=max(1e-6, vs))
    S = C.subdivide_simplicial()
    close(S.vertices, np.concatenate([pos[0], pos[-1]]), 'simplicial: vertices', **tol)
    got = sval(S.topology.elements[-1], S.vertices).sum()
    close(got if d == 2 else abs(got), total, 'simplicial: volume', tol=max(1e-6, vs))
    if d == 2:
        tri = C.as_2()
        require(type(tri) is ComplexTriangularEuclidian, 'cast to triangles')
        for D in [tri, tri.as_2()]:
            L = D.subdivide_loop()
            require(type(L) is type(D), 'loop: type')
            mid = x[T.elements[1]].mean(axis=1)
            close(L.vertices, np.concatenate([x, mid]), 'loop: vertices', **tol)
            close(sval(L.topology.elements[2], L.vertices), np.repeat(V / 4, 4), 'loop: area of the four parts of each triangle', tol=3e-08)
        Q = tri.subdivide_cubical()
        require(isinstance(Q, ComplexCubical2), 'triangles to quads: type')
        close(Q.vertices, np.concatenate(pos), 'triangles to quads: vertices', **tol)
        a = sum(quad_area(Q.vertices, c) for c in Q.topology.elements[2])
        close(a, total, 'triangles to quads: area', tol=max(1e-6, vs))
        R = Q.subdivide_simplicial()
        require(isinstance(R, ComplexTriangularEuclidian), 'quads to triangles: type')
        close(abs(sval(R.topology.elements[2], R.vertices).sum()), abs(total), 'quads to triangles: area', tol=max(1e-6, vs))
    # subdivision commutes with taking the boundary
    if C.boundary is not None and d == 2:
        b = C.boundary
        require(isinstance(b, ComplexSimplicialEuclidian), 'type of the boundary')
        close(b.vertices, x[b.topology.parent_idx[0]], 'vertices of the boundary', **tol)
        fb = C.subdivide_fundamental().boundary
        want = b.subdivide_fundamental()
        same_points(fb.vertices, want.vertices, extent(x), 'boundary of the subdivided complex')
        require(fb.topology.n_elements == want.topology.n_elements, 'boundary of the subdivided complex: number of elements')
    if d == 3:
        rec.label('cubes')
        Q = C.subdivide_cubical()
        require(isinstance(Q, ComplexCubical), 'tetrahedra to cubes: type')
        close(Q.vertices, np.concatenate(pos), 'tetrahedra to cubes: vertices', **tol)


@P.sub('simplicial_4', geo.solid(dims=(4,), kinds=('kuhn', 'simplex', 'cross', 'delaunay'), top=1), n=60)
def simplicial_4(case, rec):
    simplicial(case, rec)


@P.sub('cubical', st.tuples(gen.cubical(dims=(1, 2, 2, 3), kinds=('grid', 'simp')), geo.seeds, st.integers(0, 16), st.booleans()).map(list), n=900)
def cubical(case, rec):
    r, seed, amp, lift = case
    b = gen.build_cubical(r)
    d = b['d']
    x = b['coords']
    if x is None or x.shape[1] != d:
        return
    cells = b['cells']
    rec.nt(len(cells) > 1)
    rec.label('d=%d' % d, r['base'][0])
    g = geo.rng(seed)
    A = np.eye(d) + g.uniform(-1, 1, size=(d, d)) * .3 * amp / 16
    x = x.dot(A)
    if d == 2:
        x = x + g.uniform(-1, 1, size=x.shape) * .02 * amp / 16
    C = ComplexCubical(vertices=x, cubes=cells)
    T = C.topology
    pos = [x[c].mean(axis=1) for c in T.corners]
    for k in range(d + 1):
        close(C.primal_position[k], pos[k], 'position of %d-elements is the mean of their corners' % k, scale=size(x), tol=1e-10)
    S = C.subdivide_cubical()
    require(type(S) is type(C) and S.parent is C, 'cubical: type and parent')
    close(S.vertices, np.concatenate(pos), 'cubical: vertices', scale=size(x), tol=1e-10)
    if d == 2:
        V = np.array([quad_area(x, c) for c in cells])
        W = np.array([quad_area(S.vertices, c) for c in S.topology.elements[2]])
        n0 = sum(T.n_elements[:2])
        got = np.zeros(len(V))
        for c, w in zip(S.topology.elements[2], W):
            got[c.max() - n0] += w
        close(got, V, 'cubical: the parts of each quad add up to it', scale=np.abs(V).max(), tol=1e-10)
        F = ComplexCubical2(vertices=x, topology=T).subdivide_simplicial()
        require(isinstance(F, ComplexTriangularEuclidian), 'quads to triangles: type')
        close(F.vertices, np.concatenate(pos[::2]), 'quads to triangles: vertices', scale=size(x), tol=1e-10)
        got = sval(F.topology.elements[2], F.vertices).reshape(-1, 4).sum(axis=1)
        sg = 1 if np.sign(got[0]) == np.sign(V[0]) else -1     # of all alike
        close(got, sg * V, 'quads to triangles: area', scale=np.abs(V).max(), tol=1e-10)
        U = C.subdivide_fundamental()
        require(isinstance(U, ComplexSimplicialEuclidian), 'quads to domains: type')
        close(U.vertices, np.concatenate(pos), 'quads to domains: vertices', scale=size(x), tol=1e-10)
        got = np.zeros(len(V))
        s = sval(U.topology.elements[2], U.vertices)
        for c, w in zip(U.topology.elements[2], s):
            got[c.max() - n0] += w
        sg = 1 if np.sign(got[0]) == np.sign(V[0]) else -1
        close(got, sg * V, 'quads to domains: area', scale=np.abs(V).max(), tol=1e-10)
    elif r['base'][0] == 'grid':
        V = np.array([parallelepiped(x, np.asarray(c)) for c in cells])
        W = np.array([parallelepiped(S.vertices, np.asarray(c)) for c in S.topology.elements[d]])
        close(np.abs(W), np.full(len(W), abs(V[0]) / 2 ** d), 'cubical: volume of the parts', tol=1e-10)
        require((np.sign(W) == np.sign(W[0])).all() and np.sign(W[0]) == np.sign(V[0]), 'cubical: orientation of the parts')
        if d == 3:
            U = C.subdivide_fundamental()
            close(np.abs(sval(U.topology.elements[3], U.vertices)), np.full(48 * len(V), abs(V[0]) / 48), 'cubes to domains: volume', tol=1e-10)
    if C.boundary is not None and d > 1:
        bb = C.boundary
        fb = S.boundary
        want = bb.subdivide_cubical()
        same_points(fb.vertices, want.vertices, extent(x), 'boundary of the subdivided complex')
        require(fb.topology.n_elements == want.topology.n_elements, 'boundary of the subdivided complex: number of elements')


@P.sub('surface', geo.surface(), n=450)
def surface(case, rec):
    cells, x = geo.build_surface(case)
    if geo.min_quality(cells, x).min() < .02:
        return
    rec.nt(len(cells) > 1)
    rec.label(case['kind'])
    C = ComplexTriangularEuclidian(vertices=x, triangles=cells).as_3()
    T = C.topology
    L = C.subdivide_loop()
    require(type(L) is type(C), 'loop: type')
    close(L.vertices, np.concatenate([x, x[T.elements[1]].mean(axis=1)]), 'loop: vertices', scale=size(x), tol=1e-10)
    area = lambda c, p: np.array([np.cross(p[t[1]] - p[t[0]], p[t[2]] - p[t[0]]) / 2 for t in c])
    A = area(cells, x)
    close(area(L.topology.elements[2], L.vertices), np.repeat(A / 4, 4, axis=0), 'loop: normals and areas of the parts', scale=np.abs(A).max(), tol=6e-09)
    pos = [centers(x, c) for c in T.corners]
    S = C.subdivide_fundamental()
    close(S.vertices, np.concatenate(pos), 'fundamental: vertices', scale=max(np.abs(p).max() for p in pos), tol=2e-10)
    n0 = sum(T.n_elements[:2])
    got = np.zeros_like(A)
    for c, a in zip(S.topology.elements[2], area(S.topology.elements[2], S.vertices)):
        got[c.max() - n0] += a
    # parts add up for the whole, and per triangle (its edges are cut at their midpoints)
    close(got, A, 'fundamental: area of the parts of each triangle', scale=max(np.abs(A).max(), extent(pos[2]) ** 2 * 1e-2), tol=1e-08)
    U = C.subdivide_fundamental(oriented=False)
    require(U.topology.n_elements == S.topology.n_elements, 'unoriented: same number of elements')
    close(U.vertices, S.vertices, 'unoriented: vertices', scale=size(x), tol=1e-10)


def sphere_area(t, v):
    out = []
    for c in t:
        a, b, e = v[c]
        num = np.linalg.det(np.array([a, b, e]))
        den = 1 + a.dot(b) + b.dot(e) + e.dot(a)
        out.append(2 * np.arctan2(num, den))
    return np.array(out)


@P.sub('spherical', st.tuples(geo.sphere(kinds=('ico', 'octa'), max_rm=3, max_level=1), st.sampled_from([1, .5, 3])).map(list), n=360)
def spherical(case, rec):
    r, radius = case
    t, v = geo.build_sphere(r)
    rec.nt(len(t) > 1)
    unit = lambda p: p / np.linalg.norm(p, axis=1, keepdims=True)
    C = ComplexSpherical2(vertices=v, topology=TopologySimplicial.from_simplices(t).as_2(), radius=radius)
    T = C.topology
    mid = unit(v[T.elements[1]].mean(axis=1))
    A = sphere_area(t, v)
    if A.min() <= 0:
        return
    for L, m in [(C.subdivide_loop(), 'loop: '), (C.subdivide_loop_direct(), 'direct: ')]:
        require(type(L) is ComplexSpherical2 and L.radius == radius, m + 'type and radius')
        close(L.vertices, np.concatenate([v, mid]), m + 'vertices', tol=1e-10)
        close(sphere_area(L.topology.elements[2], L.vertices).reshape(-1, 4).sum(axis=1), A, m + 'the parts of each triangle add up to it', tol=1e-10)
    cc = unit(np.array([np.cross(v[b] - v[a], v[c] - v[a]) for a, b, c in t]))
    S = C.subdivide_fundamental()
    close(S.vertices, np.concatenate([v, mid, cc]), 'fundamental: vertices', tol=1e-10)
    n0 = sum(T.n_elements[:2])
    got = np.zeros_like(A)
    for c, a in zip(S.topology.elements[2], sphere_area(S.topology.elements[2], S.vertices)):
        got[c.max() - n0] += a
    close(got, A, 'fundamental: the parts of each triangle add up to it', tol=1e-10)
