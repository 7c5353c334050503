"""Generators of standard complexes"""
import contextlib
import io
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises

from pycomplex import synthetic
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
from pycomplex.complex.simplicial.spherical import ComplexSpherical, ComplexSpherical2, ComplexSpherical3
from pycomplex.complex.cubical import ComplexCubical, ComplexCubical1Euclidian2

P = Property('C33', rule='Generators called with random shapes, dimensions, refinements, densities and options, and seeded random numbers; non-trivial: more than one cell.')


def cells_of(C):
    return np.asarray(C.topology.elements[-1])


def oriented(C):
    c = cells_of(C)
    cube = isinstance(C, ComplexCubical)
    t = gen.cube_facet_table(list(c)) if cube else gen.facet_table([tuple(int(q) for q in e) for e in c])
    t = t[0] if isinstance(t, tuple) else t
    return all(len(l) == 1 or (len(l) == 2 and l[0][1] != l[1][1]) for l in t.values()), sum(1 for l in t.values() if len(l) == 1)


@P.sub('grid', st.tuples(st.lists(st.integers(1, 5), min_size=1, max_size=4).filter(lambda s: np.prod(s) <= 60), st.booleans(), st.booleans(), st.booleans()).map(list), n=200)
def grid(case, rec):
    shape, centering, mirror, as_cube = case
    shape = tuple(shape)
    d = len(shape)
    if as_cube:
        shape = (1,) * d
        C = synthetic.n_cube(d, centering=centering, mirror=mirror)
    elif mirror:
        C = synthetic.n_cube_grid(shape, centering=centering)
    else:
        C = synthetic.n_cube_grid(shape, centering=centering, mirror=False)
    rec.nt(np.prod(shape) > 1)
    if mirror and not as_cube and centering:
        D = synthetic.n_cube_grid(shape)
        equal(D.vertices, C.vertices, 'centered by default')
        equal(cells_of(D), cells_of(C), 'mirrored by default')
    if mirror and as_cube and not centering:
        D = synthetic.n_cube(d)
        equal(D.vertices, C.vertices, 'a single cube is not centered by default')
        equal(cells_of(D), cells_of(C), 'mirrored by default')
    require(type(C) is ComplexCubical, 'type')
    off = np.array(shape) / 2. if centering else np.zeros(d)
    x = np.asarray(C.vertices)
    want = {tuple(i) for i in np.ndindex(*[s + 1 for s in shape])}
    at = np.round(x + off).astype(int)
    close(x, at - off, 'vertices on the grid', tol=1e-12, scale=10)
    require(len(at) == len(want) and {tuple(int(q) for q in a) for a in at} == want, 'every grid point once')
    got = set()
    cells = cells_of(C)
    require(cells.shape == (int(np.prod(shape)),) + (2,) * d, 'number of cubes')
    for c in cells:
        lo = at[c.reshape(-1)].min(axis=0)
        for i in np.ndindex(*(2,) * d):
            step = at[c[i]] - at[c[(0,) * d]]
            require(np.abs(step).sum() == sum(i), 'corners of a cube differ by one step along each axis')
        pts = {tuple(int(q) for q in p) for p in at[c.reshape(-1)] - lo}
        require(pts == set(itertools.product((0, 1), repeat=d)), 'cubes are unit cubes')
        got.add(tuple(int(q) for q in lo))
    require(got == set(np.ndindex(*shape)), 'every cube once')
    for k in range(d + 1):
        n = sum(np.prod([shape[i] if i in s else shape[i] + 1 for i in range(d)]) for s in itertools.combinations(range(d), k))
        require(C.topology.n_elements[k] == n, 'number of %d-elements' % k)
    if mirror:
        require(bool(C.topology.is_oriented), 'oriented')
        require(oriented(C)[0], 'oriented')
        vol = sum(np.linalg.det(np.array([x[c[tuple(int(i == j) for j in range(d))]] - x[c[(0,) * d]] for i in range(d)])) for c in cells)
        close(abs(vol), float(np.prod(shape)), 'cubes are of one sign', tol=1e-10)
    elif d > 1 and len(cells) > 1:
        require(not C.topology.is_oriented, 'not oriented without mirror images')


@P.sub('grid_large', st.tuples(st.sampled_from([(33000,), (70000,), (33000, 2), (2, 33000), (300, 300), (257, 3, 70), (130, 2, 2, 40)]), st.booleans(), st.booleans()).map(list), n=5, thorough=4)
def grid_large(case, rec):
    """axes and grids that are longer than small integers reach"""
    shape, centering, mirror = case
    shape = tuple(shape)
    d = len(shape)
    rec.nt()
    C = synthetic.n_cube_grid(shape, centering=centering, mirror=mirror)
    off = np.array(shape) / 2. if centering else np.zeros(d)
    x = np.asarray(C.vertices, dtype=float) + off
    at = np.round(x).astype(np.int64)
    require(float(np.abs(x - at).max()) < 1e-9, 'vertices on the grid')
    dims = tuple(s + 1 for s in shape)
    require(at.min() >= 0 and (at.max(axis=0) == np.array(shape)).all(), 'extent of the grid')
    ids = np.ravel_multi_index(tuple(at.T), dims)
    require(len(ids) == np.prod(dims) and len(np.unique(ids)) == len(ids), 'every grid point once')
    cells = cells_of(C)
    require(cells.shape == (int(np.prod(shape)),) + (2,) * d, 'number of cubes')
    p = at[cells.reshape(len(cells), -1)]
    lo = p.min(axis=1)
    require(len(np.unique(np.ravel_multi_index(tuple(lo.T), shape))) == len(cells), 'every cube once')
    base = at[cells.reshape(len(cells), -1)[:, 0]]
    for j, i in enumerate(np.ndindex(*(2,) * d)):
        require((np.abs(p[:, j] - base).sum(axis=1) == sum(i)).all(), 'corners of a cube differ by one step along each axis')
        require((np.abs(p[:, j] - base).max(axis=1) <= 1).all(), 'cubes are unit cubes')
    for k in range(d + 1):
        n = sum(np.prod([shape[i] if i in s else shape[i] + 1 for i in range(d)]) for s in itertools.combinations(range(d), k))
        require(C.topology.n_elements[k] == n, 'number of %d-elements' % k)
    if mirror:
        e = np.array([[x[cells[(slice(None),) + tuple(int(i == j) for j in range(d))]] - x[cells[(slice(None),) + (0,) * d]] for i in range(d)]])[0]
        v = np.linalg.det(np.moveaxis(e, 0, 1))
        close(np.abs(v), np.ones(len(cells)), 'unit volume', tol=1e-9)
        require(abs(float(v.sum())) > len(cells) - .5, 'cubes are of one sign')


@P.sub('simplex', st.tuples(st.integers(1, 6), st.booleans()).map(list), n=20)
def simplex(case, rec):
    n, equilateral = case
    rec.nt()
    C = synthetic.n_simplex(n, equilateral)
    require(type(C) is ComplexSimplicialEuclidian, 'type')
    x = np.asarray(C.vertices, dtype=float)
    require(x.shape == (n + 1, n), 'vertices')
    equal(cells_of(C), np.arange(n + 1)[None], 'one simplex')
    if equilateral:
        equal(synthetic.n_simplex(n).vertices, x, 'equilateral by default')
        close(np.linalg.norm(x, axis=1), np.ones(n + 1), 'unit circumradius', tol=1e-12)
        close(x.sum(axis=0), np.zeros(n), 'centered', tol=1e-12, scale=1)
        d = np.linalg.norm(x[:, None] - x[None], axis=-1)
        close(d, np.sqrt(2 + 2 / n) * (1 - np.eye(n + 1)), 'edges of equal length', tol=1e-12, scale=1)
        require(bool(C.is_well_centered), 'well-centered')
        close(C.primal_position[-1], np.zeros((1, n)), 'center', tol=1e-10, scale=1)
    else:
        close(x, np.concatenate([np.zeros((1, n)), np.eye(n)]), 'origin and unit vectors', tol=1e-12)
    require(bool(C.topology.is_oriented), 'oriented')


@P.sub('round', st.tuples(st.sampled_from(['circle', 'cylinder', 'icosphere', 'cross', 'cell600']), st.integers(0, 3), st.sampled_from([1, .5, 3]), st.sampled_from([1, .25, 10])).map(list), n=40)
def roundish(case, rec):
    kind, k, length, radius = case
    rec.nt()
    rec.label(kind)
    if kind == 'circle':
        C = synthetic.circle(k)
        n = 4 * 2 ** k
        require(type(C) is ComplexCubical1Euclidian2, 'type')
        x, e = np.asarray(C.vertices), cells_of(C)
        require(len(x) == n and len(e) == n, 'number of vertices and edges')
        close(np.linalg.norm(x, axis=1), np.ones(n), 'on the circle', tol=1e-12)
        close(np.linalg.norm(x[e[:, 0]] - x[e[:, 1]], axis=1), np.full(n, 2 * math.sin(math.pi / n)), 'edges of a regular polygon', tol=1e-10)
        require(oriented(C) == (True, 0), 'closed and oriented')
        close(abs(C.volume()), n / 2. * math.sin(2 * math.pi / n), 'area', tol=1e-10)
        return
    if kind == 'cylinder':
        C = synthetic.cylinder(length, radius, k)
        if k == 1:
            equal(synthetic.cylinder(length, radius).vertices, C.vertices, 'one division by default')
        n = 4 * 2 ** k
        m = 2 ** k
        require(type(C) is ComplexCubical, 'type')
        x, e = np.asarray(C.vertices), cells_of(C)
        require(x.shape == (n * (m + 1), 3) and e.shape == (n * m, 2, 2), 'number of vertices and quads')
        close(np.linalg.norm(x[:, 1:], axis=1), np.full(len(x), float(radius)), 'radius', tol=1e-10)
        close(np.unique(np.round(x[:, 0] / length, 6)), np.linspace(-.5, .5, m + 1), 'rings', tol=1e-10, scale=1)
        a = np.array([np.linalg.norm(np.cross(x[q[0, 1]] - x[q[0, 0]], x[q[1, 0]] - x[q[0, 0]])) for q in e])
        close(a, np.full(len(e), length / m * radius * 2 * math.sin(math.pi / n)), 'rectangles', tol=1e-10)
        require(oriented(C) == (True, 2 * n), 'oriented, with two rims')
        return
    if kind == 'icosphere':
        C = synthetic.icosphere(k)
        require(type(C) is ComplexSpherical2, 'type')
        require(list(C.topology.n_elements) == [10 * 4 ** k + 2, 30 * 4 ** k, 20 * 4 ** k], 'numbers of elements')
        if k == 0:
            D = synthetic.icosahedron()
            equal(D.vertices, C.vertices, 'icosahedron')
            equal(synthetic.icosphere().vertices, C.vertices, 'not refined by default')
        x, e = np.asarray(C.vertices), cells_of(C)
        close(np.linalg.norm(x, axis=1), np.ones(len(x)), 'on the sphere', tol=1e-12)
        require(oriented(C) == (True, 0), 'closed and oriented')
        s = np.sign(np.linalg.det(x[e]))
        require((s == s[0]).all() and s[0] != 0, 'covers the sphere once')
        L = np.linalg.norm(x[np.asarray(C.topology.elements[1])[:, 0]] - x[np.asarray(C.topology.elements[1])[:, 1]], axis=1)
        require(L.max() < 1.2 * L.min() and (k or L.max() < L.min() * (1 + 1e-9)), 'nearly regular triangles')
        deg = np.bincount(e.reshape(-1))
        require((np.sort(deg)[:12] == 5).all() and (np.sort(deg)[12:] == 6).all(), 'degrees of vertices')
        require(bool(C.is_well_centered), 'well-centered')
        close(np.abs(np.asarray(C.metric[0][2])).sum(), 4 * math.pi, 'area', tol=1e-10)
        return
    if kind == 'cross':
        n = k + 2
        C = synthetic.n_cube_dual(n)
        require(type(C) is ComplexSpherical, 'type')
        x, e = np.asarray(C.vertices), cells_of(C)
        require(list(C.topology.n_elements) == [2 ** (j + 1) * math.comb(n, j + 1) for j in range(n)], 'numbers of elements')
        got = sorted(tuple(int(q) for q in v) for v in np.round(x))
        close(np.abs(x).max(axis=1), np.ones(len(x)), 'unit vectors', tol=1e-12)
        close(np.abs(x).sum(axis=1), np.ones(len(x)), 'unit vectors', tol=1e-12)
        require(len(set(got)) == 2 * n, 'unit vectors')
        for c in e:
            require(len({int(np.argmax(np.abs(x[v]))) for v in c}) == n, 'one vertex of each axis in each simplex')
        require(oriented(C) == (True, 0), 'closed and oriented')
        s = np.sign(np.linalg.det(x[e]))
        require((s == s[0]).all(), 'simplices of one sign')
        return
    C = synthetic.hexacosichoron()
    require(type(C) is ComplexSpherical3, 'type')
    require(list(C.topology.n_elements) == [120, 720, 1200, 600], 'numbers of elements')
    x = np.asarray(C.vertices)
    close(np.linalg.norm(x, axis=1), np.ones(120), 'on the sphere', tol=1e-12)
    E = np.asarray(C.topology.elements[1])
    close(np.linalg.norm(x[E[:, 0]] - x[E[:, 1]], axis=1), np.full(720, 2 / (1 + math.sqrt(5))), 'regular edges', tol=1e-10)
    require(oriented(C) == (True, 0), 'closed and oriented')
    require((np.bincount(cells_of(C).reshape(-1)) == 20).all(), 'twenty cells at every vertex')


@P.sub('square', st.tuples(st.integers(2, 7), st.integers(0, 3), geo.seeds).map(list), n=60)
def square(case, rec):
    n, it, seed = case
    rec.nt()
    keep = np.random.get_state()
    try:
        np.random.seed(seed % 2 ** 32)
        C = synthetic.delaunay_cube(n, 2, it)
    finally:
        np.random.set_state(keep)
    require(type(C) is ComplexSimplicialEuclidian, 'type')
    x, e = np.asarray(C.vertices), cells_of(C)
    require(((x >= -1e-9) & (x <= 1 + 1e-9)).all(), 'within the unit square')
    require(set(int(q) for q in e.reshape(-1)) == set(range(len(x))), 'every vertex is used')
    require(oriented(C)[0], 'oriented')
    v = np.array([geo.signed_volume(x[c]) for c in e])
    require((v > 0).all() or (v < 0).all(), 'triangles of one sign')
    close(abs(v.sum()), 1., 'covers the square', tol=1e-10)
    rim = [f for f, l in gen.facet_table([tuple(int(q) for q in c) for c in e]).items() if len(l) == 1]
    require(len(rim) == 4 * n, 'edges of the rim')
    for f in rim:
        p = x[list(f)]
        close(np.linalg.norm(p[0] - p[1]), 1. / n, 'edges of the rim are of the given density', tol=1e-10, scale=1)
    inner = ((x > 1e-9) & (x < 1 - 1e-9)).all(axis=1)
    require((np.minimum(x, 1 - x).min(axis=1)[inner] > .5 / n - 1e-9).all(), 'inner vertices keep their distance to the rim')
    require(it or inner.sum() <= n ** 2, 'inner vertices')
    if n >= 5 and it == 0:
        # points are uniform: the expected number of points this far from the rim is (n - 1) ** 2
        require(inner.sum() > (n - 1) ** 2 / 4, 'inner vertices fill the square')
    require(len(x) - inner.sum() == 4 * n, 'vertices on the rim')
    # no vertex in the circumcircle of a triangle
    for c in e:
        q = geo.power_center(x[c])
        r = np.linalg.norm(q - x[c[0]])
        require(np.linalg.norm(x - q, axis=1).min() > r - 1e-7 * (1 + r), 'Delaunay')


@P.sub('sphere', st.tuples(st.integers(2, 4), st.integers(6, 24), st.integers(1, 4), geo.seeds, st.booleans(), st.sampled_from([0, 1, 5])).map(list), n=60)
def sphere(case, rec):
    d, n, it, seed, weights, push = case
    n = n + 4 * (d - 2)
    rec.nt()
    keep = np.random.get_state()
    try:
        np.random.seed(seed % 2 ** 32)
        with contextlib.redirect_stdout(io.StringIO()):
            C = synthetic.optimal_delaunay_sphere(n, d, iterations=it, weights=weights, push_iterations=push, condition=['delaunay', 'centered', None][seed % 3])
    finally:
        np.random.set_state(keep)
    require(type(C) is ComplexSpherical, 'type')
    x, e = np.asarray(C.vertices), cells_of(C)
    require(x.shape == (n, d), 'number of points')
    close(np.linalg.norm(x, axis=1), np.ones(n), 'on the sphere', tol=1e-10)
    require((C.weights is not None) == weights, 'weights')
    require(set(int(q) for q in e.reshape(-1)) == set(range(n)), 'every point is used')
    require(oriented(C) == (True, 0), 'closed and oriented')
    require(sum((-1) ** k * m for k, m in enumerate(C.topology.n_elements)) == 1 + (-1) ** (d - 1), 'Euler characteristic of a sphere')
    for c in e:
        # all points are on one side of the plane through a simplex
        p = x[c]
        _, _, V = np.linalg.svd(p[1:] - p[0])
        h = (x - p[0]).dot(V[-1])
        require(min(abs(h.max()), abs(h.min())) < 1e-7, 'Delaunay: simplices are on the convex hull')
