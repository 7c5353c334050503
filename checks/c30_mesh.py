import itertools
import math
import os
import shutil
import struct
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises

from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3

P = Property('C30', rule='Random open and closed triangulated surfaces in the plane and in space, cut by random planes (through vertices and edges, too), extruded along random '
             'displacements, and written to and read from files; non-trivial: some triangles are cut, or there is more than one.')

MESH = st.one_of(geo.planar(), geo.surface(), geo.surface(kinds=('sheet', 'octa', 'torus')))


def build(r):
    return geo.build_planar(r) if 'level' not in r else geo.build_surface(r)


def make(cells, x):
    return {2: ComplexTriangularEuclidian2, 3: ComplexTriangularEuclidian3}[x.shape[1]](vertices=x, triangles=cells)


def area2(t, x):
    """area vectors"""
    p = x[t]
    a, b = p[:, 1] - p[:, 0], p[:, 2] - p[:, 0]
    if x.shape[1] == 2:
        return (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0])[:, None] / 2
    return np.cross(a, b) / 2


def below(p, s, n):
    """polygon of the part of a triangle where (p - s).n <= 0, by the usual clipping"""
    out = []
    h = (p - s).dot(n)
    for i in range(len(p)):
        a, b, ha, hb = p[i], p[(i + 1) % len(p)], h[i], h[(i + 1) % len(p)]
        if ha <= 0:
            out.append(a)
        if (ha > 0) != (hb > 0):
            out.append(a + (b - a) * ha / (ha - hb))
    return np.array(out)


def fan(p):
    if len(p) < 3:
        return 0.
    t = np.array([[0, i, i + 1] for i in range(1, len(p) - 1)])
    return area2(t, p).sum(axis=0)


@P.sub('clip', st.tuples(MESH, geo.seeds, st.sampled_from(['any', 'any', 'vertex', 'edge', 'far'])).map(list), n=500)
def clip(case, rec):
    r, seed, kind = case
    cells, x = build(r)
    g = geo.rng(seed)
    n = x.shape[1]
    L = np.abs(x - x.mean(axis=0)).max()
    s = x.mean(axis=0) + g.normal(size=n) * L * .3
    v = g.normal(size=n)
    if kind == 'vertex':
        s = x[g.randint(len(x))]
    if kind == 'edge':
        c = cells[g.randint(len(cells))]
        s = x[c[0]]
        e = x[c[1]] - x[c[0]]
        v = v - e * v.dot(e) / e.dot(e)
    if kind == 'far':
        s = x.mean(axis=0) + v / np.linalg.norm(v) * L * 10 * g.choice([-1, 1])
    h = (x - s).dot(v)
    # vertices near the plane, but not on it, are on an unknown side
    near = (np.abs(h) < 1e-9 * (np.abs(x).max() + L) * np.linalg.norm(v)) & (h != 0)
    if kind == 'edge' or near.any():
        exact = not near.any()
    else:
        exact = True
    side = h > 0
    C = make(cells, x)
    keep = x.copy(), cells.copy()
    S = np.abs(x).max()
    A = area2(cells, x)
    cut = side[cells].any(axis=1) & ~side[cells].all(axis=1)
    rec.nt(bool(cut.any()))
    rec.label(kind, 'cut' if cut.any() else 'missed')
    edges = sorted({tuple(sorted(int(q) for q in e)) for c in cells for e in itertools.combinations(c, 2)})
    ce = [e for e in edges if side[e[0]] != side[e[1]]]
    tol, sc = 1e-8, L * S

    # merely split
    D = C.clip(s, v, clip=False)
    require(type(D) is type(C), 'type')
    X, T = np.asarray(D.vertices), np.asarray(D.topology.triangles)
    require(len(X) == len(x) + len(ce), 'one new vertex for each cut edge: %d' % (len(X) - len(x)))
    equal(X[:len(x)], x, 'the vertices of the mesh come first')
    close((X[len(x):] - s).dot(v), np.zeros(len(ce)), 'new vertices lie on the plane', tol=tol, scale=S * np.linalg.norm(v) * 10)
    require(len(T) == len(cells) + 2 * cut.sum(), 'cut triangles are replaced by three')
    # the pieces of each triangle, by the original triangle their corners are on
    table = gen.facet_table([list(t) for t in T])
    require(all(len(l) <= 2 for l in table.values()), 'the split mesh is a manifold')
    AT = area2(T, X)
    close(AT.sum(axis=0), A.sum(axis=0), 'area of the split mesh', tol=tol, scale=sc * len(cells))
    old = {tuple(t) for t in T.tolist()}
    new_e = {}
    for i, p in enumerate(X[len(x):]):
        # the edge it is on
        best = min(ce, key=lambda e: np.abs(x[e[0]] + (x[e[1]] - x[e[0]]) * h[e[0]] / (h[e[0]] - h[e[1]]) - p).max())
        new_e[len(x) + i] = best
    if exact and kind in ('any', 'far'):
        require(sorted(new_e.values()) == ce, 'one new vertex on each cut edge')
        owner = {}
        for i, c in enumerate(cells):
            owner[tuple(sorted(int(q) for q in c))] = i
        part = np.zeros((len(cells), A.shape[1]))
        low = np.zeros((len(cells), A.shape[1]))
        for t, a in zip(T, AT):
            corners = set()
            for q in t:
                corners |= set(new_e[int(q)]) if int(q) >= len(x) else {int(q)}
            require(len(corners) == 3, 'pieces stay within a triangle')
            i = owner.get(tuple(sorted(corners)))
            require(i is not None, 'pieces stay within a triangle')
            part[i] += a
            require((a * A[i]).sum() > -1e-9 * sc ** 2, 'pieces are oriented like the triangle')
            m = (X[t].mean(axis=0) - s).dot(v)
            if m < 0:
                low[i] += a
        close(part, A, 'pieces cover the triangle', tol=tol, scale=sc)
        for i, c in enumerate(cells):
            close(low[i], fan(below(x[c], s, v)) * np.ones(A.shape[1]), 'pieces below the plane', tol=tol, scale=sc)
    # orientation of the mesh
    require(bool(D.topology.is_oriented) == bool(C.topology.is_oriented), 'orientation of the split mesh')

    # clipped
    want = np.array([fan(below(x[c], s, v)) * np.ones(A.shape[1]) for c in cells])
    if side.any() and not (~side[cells]).any():
        rec.label('nothing left')
        return
    E = C.clip(s, v)
    require(type(E) is type(C), 'type')
    X, T = np.asarray(E.vertices), np.asarray(E.topology.triangles)
    require(((X - s).dot(v) <= 1e-7 * S * np.linalg.norm(v) * 10).all(), 'no vertex is left above the plane')
    require(len(np.unique(T)) == len(X), 'no vertex is left over')
    close(area2(T, X).sum(axis=0), want.sum(axis=0), 'area of the clipped mesh', tol=tol, scale=sc * len(cells))
    close(np.linalg.norm(area2(T, X), axis=1).sum(), np.linalg.norm(want, axis=1).sum(), 'total area of the clipped mesh', tol=tol, scale=sc * len(cells))
    two = sum(1 for c in cells if cut[[k for k, q in enumerate(cells) if q is c or (q == c).all()][0]] and side[c].sum() == 1)
    require(len(T) == (~side[cells].any(axis=1)).sum() + 2 * two + (cut.sum() - two), 'number of triangles left')
    equal(C.vertices, keep[0], 'mesh is left alone')
    equal(C.topology.triangles, keep[1], 'mesh is left alone')


@P.sub('clip_huge', geo.seeds, n=2, thorough=4)
def clip_huge(seed, rec):
    """a sheet of more than 65536 vertices, in arbitrary order"""
    g = geo.rng(seed)
    k = 258
    i = np.arange(k * k).reshape(k, k)
    a, b, c, d = i[:-1, :-1].ravel(), i[1:, :-1].ravel(), i[1:, 1:].ravel(), i[:-1, 1:].ravel()
    cells = np.concatenate([np.stack([a, b, c], axis=1), np.stack([a, c, d], axis=1)])
    x = np.stack([i.ravel() // k, i.ravel() % k, 3 * np.sin(i.ravel() / 7. / k)], axis=1) + g.uniform(-.2, .2, size=(k * k, 3))
    p = g.permutation(len(x))
    inv = np.argsort(p)
    x, cells = x[p], inv[cells]
    cells = cells[g.permutation(len(cells))]
    n = g.randint(2)
    s, v = x.mean(axis=0) + g.normal(size=3), g.normal(size=3) * [1, 1, .2]
    if n:
        x, s, v = x[:, :2], s[:2], v[:2]
        cells = geo.orient_by_volume(cells, x)
    C = make(cells, x)
    h = (x - s).dot(v)
    side = h > 0
    e = np.unique(np.sort(np.concatenate([cells[:, [0, 1]], cells[:, [1, 2]], cells[:, [2, 0]]]), axis=1), axis=0)
    ce = e[side[e[:, 0]] != side[e[:, 1]]]
    f = (h[ce[:, 0]] / (h[ce[:, 0]] - h[ce[:, 1]]))[:, None]
    new = x[ce[:, 0]] * (1 - f) + x[ce[:, 1]] * f
    cut = side[cells].any(axis=1) & ~side[cells].all(axis=1)
    rec.nt(bool(cut.any()))
    A = area2(cells, x)
    D = C.clip(s, v, clip=False)
    X, T = np.asarray(D.vertices), np.asarray(D.topology.triangles)
    require(len(X) == len(x) + len(ce) and len(T) == len(cells) + 2 * cut.sum(), 'numbers of vertices and triangles')
    equal(X[:len(x)], x, 'the vertices of the mesh come first')
    order = lambda q: q[np.lexsort(np.round(q, 7).T)]
    close(order(X[len(x):]), order(new), 'one new vertex on each cut edge', tol=1e-9)
    B = area2(T, X)
    close(B.sum(axis=0), A.sum(axis=0), 'area', tol=1e-9, scale=np.abs(A).sum())
    close(np.linalg.norm(B, axis=1).sum(), np.linalg.norm(A, axis=1).sum(), 'total area', tol=1e-9)
    require(D.topology.is_oriented, 'orientation')
    E = C.clip(s, v)
    Y, U = np.asarray(E.vertices), np.asarray(E.topology.triangles)
    low = (X[T].mean(axis=1) - s).dot(v) < 0
    require(len(U) == low.sum() and len(np.unique(U)) == len(Y), 'numbers of triangles and vertices that are left')
    close(area2(U, Y).sum(axis=0), B[low].sum(axis=0), 'area below the plane', tol=1e-9, scale=np.abs(A).sum())
    require(((Y - s).dot(v) < 1e-9 * k).all(), 'nothing is left above the plane')


@P.sub('extrude', st.tuples(st.one_of(geo.planar(), geo.surface(max_rm=5), geo.surface(kinds=('sheet',))), geo.seeds, st.booleans()).map(list), n=300)
def extrude(case, rec):
    r, seed, rigid = case
    cells, x = build(r)
    g = geo.rng(seed)
    if x.shape[1] == 2:
        x = np.concatenate([x, np.zeros((len(x), 1))], axis=1)
    C = make(cells, x)
    L = np.abs(x - x.mean(axis=0)).max()
    if rigid:
        v = g.normal(size=3) * L
        O = C.translate(v)
    else:
        v = np.array([0, 0, 1.]) * L + g.normal(size=x.shape) * .1 * L
        O = C.copy(vertices=x + v)
    table = gen.facet_table(cells)
    rim = [f for f, l in table.items() if len(l) == 1]
    rec.label('closed' if not rim else 'open')
    if not rim:
        raises(AssertionError, lambda: C.extrude(O), 'extrusion of a closed surface')
        return
    rec.nt(len(cells) > 1)
    S = C.extrude(O)
    require(type(S) is type(C), 'type')
    X, T = np.asarray(S.vertices), np.asarray(S.topology.triangles)
    equal(X, np.concatenate([x, np.asarray(O.vertices)]), 'vertices of both surfaces')
    n = len(x)
    # rotations of a triangle are the same triangle
    rot = lambda t: tuple(int(q) for q in np.roll(t, -int(np.argmin(t))))
    got = sorted(rot(t) for t in T)
    strip = list(got)
    for c in cells:
        require(rot(c) in strip, 'triangles of the first surface')
        strip.remove(rot(c))
        require(rot(c[::-1] + n) in strip, 'triangles of the second surface, reversed')
        strip.remove(rot(c[::-1] + n))
    require(len(strip) == 2 * len(rim), 'two triangles for each edge of the rim')
    corners = {}
    for t in strip:
        e = tuple(sorted({q % n for q in t}))
        require(e in rim, 'the strip connects edges of the rim')
        corners[e] = corners.get(e, 0) + 1
    require(all(k == 2 for k in corners.values()), 'two triangles for each edge of the rim')
    tab = gen.facet_table([list(t) for t in T])
    require(all(len(l) == 2 for l in tab.values()), 'the solid is closed')
    directed = [(int(t[i]), int(t[(i + 1) % 3])) for t in T for i in range(3)]
    require(len(set(directed)) == len(directed), 'the solid is oriented')
    if rigid:
        close(S.volume(), -area2(cells, x).sum(axis=0).dot(v), 'volume of an extrusion', tol=1e-10, scale=(np.abs(X).max()) ** 3 * len(cells))
    # weights belong to the vertices
    W = C.copy(weights=g.uniform(-.01, .01, size=n) * L ** 2)
    K = W.extrude(O.copy(topology=W.topology, weights=[None, W.weights * 2][seed % 2]))
    equal(K.vertices, X, 'vertices of a weighted extrusion')
    require(K.weights is None or len(K.weights) == len(X), 'one weight for each vertex of a weighted extrusion')
    if K.weights is not None and seed % 2:
        equal(K.weights, np.concatenate([W.weights, W.weights * 2]), 'weights of an extrusion')
    require(all(np.asarray(q).shape == (m, 3) for q, m in zip(K.primal_position, K.topology.n_elements)), 'positions in a weighted extrusion')
    other = make(cells, x)
    raises(AssertionError, lambda: C.extrude(other), 'extrusion to another surface')


@P.sub('extrude_part', st.tuples(st.one_of(geo.planar(), geo.surface(max_rm=2), geo.surface(kinds=('sheet',))), geo.seeds).map(list), n=200)
def extrude_part(case, rec):
    """extrusion of a random part of a surface; its rims may touch at vertices, and it may consist of several pieces"""
    r, seed = case
    cells, x = build(r)
    g = geo.rng(seed)
    if x.shape[1] == 2:
        x = np.concatenate([x, np.zeros((len(x), 1))], axis=1)
    keep = g.uniform(size=len(cells)) < g.choice([.3, .5, .7])
    keep[g.randint(len(cells))] = True
    used, cells = np.unique(np.asarray(cells)[keep], return_inverse=True)
    cells = cells.reshape(-1, 3)
    x = x[used]
    n = len(x)
    C = make(cells, x)
    v = g.normal(size=3) * (np.abs(x - x.mean(axis=0)).max())
    table = gen.facet_table([list(c) for c in cells])
    rim = {f for f, l in table.items() if len(l) == 1}
    if not rim:
        raises(AssertionError, lambda: C.extrude(C.translate(v)), 'extrusion of a closed surface')
        return
    degree = np.bincount(np.array(sorted(rim)).ravel(), minlength=n)
    rec.label('pinched' if degree.max() > 2 else 'plain')
    rec.nt(degree.max() > 2)
    S = C.extrude(C.translate(v))
    X, T = np.asarray(S.vertices), np.asarray(S.topology.triangles)
    close(X, np.concatenate([x, x + v]), 'vertices of both surfaces', tol=1e-12, scale=np.abs(X).max())
    require(len(T) == 2 * len(cells) + 2 * len(rim), 'two triangles for each edge of the rim')
    require(list(S.topology.n_elements) == [2 * n, 2 * len(table) + len({q for e in rim for q in e}) + len(rim), len(T)], 'numbers of elements')
    strip = [t for t in T if (t < n).any() and (t >= n).any()]
    count = {}
    for t in strip:
        e = tuple(sorted({int(q) % n for q in t}))
        count[e] = count.get(e, 0) + 1
    require(set(count) == rim and set(count.values()) == {2}, 'two triangles for each edge of the rim')
    sums = {}
    for t in T:
        for i in range(3):
            p, q = int(t[i]), int(t[(i + 1) % 3])
            k = (min(p, q), max(p, q))
            sums[k] = sums.get(k, 0) + (1 if p < q else -1)
    require(not any(sums.values()), 'the solid is closed and oriented')
    close(S.volume(), -area2(cells, x).sum(axis=0).dot(v), 'volume of an extrusion', tol=1e-10, scale=(np.abs(X).max()) ** 3 * len(cells))


@P.sub('files', st.tuples(geo.surface(max_level=1), st.booleans()).map(list), n=120)
def files(case, rec):
    r, double = case
    cells, x = geo.build_surface(r)
    rec.nt(len(cells) > 1)
    C = ComplexTriangularEuclidian3(vertices=x, triangles=cells)
    f32 = x.astype(np.float32)
    if len(np.unique(f32, axis=0)) < len(x):
        return
    d = tempfile.mkdtemp(prefix='verif-c30-')
    try:
        fn = os.path.join(d, 'mesh.stl')
        if double:
            # an existing file is overwritten
            with open(fn, 'wb') as fh:
                fh.write(b'x' * 10000)
        C.save_STL(fn)
        raw = open(fn, 'rb').read()
        require(len(raw) == 84 + 50 * len(cells), 'size of the file: %d' % len(raw))
        require(struct.unpack('<I', raw[80:84])[0] == len(cells), 'number of triangles in the file')
        N = area2(cells, x) * 2
        tris = np.asarray(C.topology.triangles)
        for i in range(len(cells)):
            rec_ = raw[84 + 50 * i:84 + 50 * (i + 1)]
            q = np.array(struct.unpack('<12f', rec_[:48])).reshape(4, 3)
            require(rec_[48:] == b'\0\0', 'attribute bytes')
            c = tris[i]
            # same triangle up to rotation
            ok = any((q[1:] == f32[np.roll(c, k)].astype(float)).all() for k in range(3))
            require(ok, 'corners of a triangle in the file')
            nn = np.cross(q[2] - q[1], q[3] - q[1])
            if np.linalg.norm(nn) > 1e-3 * np.abs(q[1:] - q[1]).max() ** 2:
                close(q[0], nn / np.linalg.norm(nn), 'normal in the file', tol=1e-3 * max(1, np.abs(x).max() / np.abs(q[1:] - q[1]).max() / 100), scale=1)
        M = ComplexTriangularEuclidian3.load_STL(fn)
        require(type(M) is ComplexTriangularEuclidian3, 'type')
        X, T = np.asarray(M.vertices), np.asarray(M.topology.triangles)
        require(X.shape == x.shape and len(T) == len(cells), 'number of vertices and triangles read')
        at = {tuple(p): i for i, p in enumerate(f32.tolist())}
        back = [at.get(tuple(p)) for p in X.astype(np.float32).tolist()]
        require(None not in back and sorted(back) == list(range(len(x))), 'vertices read')
        rot = lambda t: tuple(int(q) for q in np.roll(t, -int(np.argmin(t))))
        equal(sorted(rot(np.array([back[q] for q in t])) for t in T), sorted(rot(c) for c in cells), 'triangles read')
        require(bool(M.topology.is_oriented) == bool(C.topology.is_oriented), 'orientation')
        # and again
        M.save_STL(fn)
        K = ComplexTriangularEuclidian3.load_STL(fn)
        equal(K.vertices, M.vertices, 'a second round trip')
        equal(K.topology.triangles, M.topology.triangles, 'a second round trip')
    finally:
        shutil.rmtree(d)


@P.sub('files_large', st.tuples(st.integers(182, 190), st.integers(182, 195), geo.seeds).map(list), n=2)
def files_large(case, rec):
    """more triangles than fit in 16 bits"""
    a, b, seed = case
    g = geo.rng(seed)
    cells, x = gen.kuhn([a, b])
    cells = np.array(cells)
    x = np.concatenate([np.asarray(x), np.zeros((len(x), 1))], axis=1) + g.uniform(-.3, .3, size=(len(x), 3))
    C = ComplexTriangularEuclidian3(vertices=x, triangles=cells)
    rec.nt(len(cells) > 65536)
    rec.label('%d triangles' % len(cells))
    d = tempfile.mkdtemp(prefix='verif-c30-')
    try:
        fn = os.path.join(d, 'mesh.stl')
        C.save_STL(fn)
        raw = open(fn, 'rb').read()
        require(len(raw) == 84 + 50 * len(cells) and struct.unpack('<I', raw[80:84])[0] == len(cells), 'number of triangles in the file')
        M = ComplexTriangularEuclidian3.load_STL(fn)
    finally:
        shutil.rmtree(d)
    X, T = np.asarray(M.vertices), np.asarray(M.topology.triangles)
    require(X.shape == x.shape and len(T) == len(cells), 'number of vertices and triangles read')
    canon = lambda t: np.array(sorted(np.roll(q, -int(np.argmin(q[:, 0])), axis=0).ravel().tolist() for q in t))
    equal(canon(X.astype(np.float32)[T]), canon(x.astype(np.float32)[cells]), 'triangles read')
