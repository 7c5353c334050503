import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises
from checks.c19_spherical import arc, excess, unit

from pycomplex.complex.simplicial.spherical import ComplexSpherical, ComplexSpherical2, ComplexCircular
from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular

P = Property('C20', rule='Random well-centered triangulations of the sphere, closed or with holes, weighted or not, of any radius and numbering, and polygons on the circle; '
             'non-trivial: all cases that are well-centered.')

RADII = [1, 1, 2, .5, 10]


def centers(cells, x, w):
    """dict from sorted element to (barycentric coordinates in sorted order, position on the sphere)"""
    out = {}
    d = len(cells[0])
    for c in cells:
        for k in range(1, d + 1):
            for f in itertools.combinations(sorted(int(v) for v in c), k):
                if f not in out:
                    q = x[list(f)]
                    e = geo.power_center(q, None if w is None else w[list(f)])
                    out[f] = geo.barycentric(e, q), unit(e)
    return out


def check_metric(C, cells, x, w, R, rec):
    T = C.topology
    d = T.n_dim
    cen = centers(cells, x, w)
    low = min(b.min() for b, _ in cen.values())
    if abs(low) < 1e-3:
        return False
    require(bool(C.is_well_centered) == bool(low > 0), 'is_well_centered, expected %r' % bool(low > 0))
    if low < 0:
        rec.label('not well-centered')
        raises(AssertionError, lambda: C.metric, 'metric of a complex that is not well-centered')
        return False
    rec.nt()
    PM, DM = C.metric
    pos = {k: p for k, (_, p) in cen.items()}
    keys = [[models.key(c) for c in T.corners[k]] for k in range(d + 1)]
    for k in range(d + 1):
        close(C.primal_position[k], np.array([pos[f] for f in keys[k]]), 'positions of %d-elements' % k, tol=1e-10, scale=1.)
    vol = {1: lambda f: 1., 2: lambda f: arc(*x[list(f)]), 3: lambda f: excess(*x[list(f)])}
    for k in range(d + 1):
        close(PM[k], np.array([vol[k + 1](f) for f in keys[k]]) * R ** k, 'primal %d-metric' % k, tol=1e-10, scale=R ** k)
    # duals from flags
    dual = [dict.fromkeys(q, 0.) for q in keys]
    for f in dual[d]:
        dual[d][f] = 1.
    for c in cells:
        c = models.key(c)
        if d == 1:
            for v in c:
                dual[0][v,] += arc(x[v], pos[c])
        else:
            for e in itertools.combinations(c, 2):
                dual[1][e] += arc(pos[e], pos[c])
                for v in e:
                    dual[0][v,] += excess(x[v], pos[e], pos[c])
    for k in range(d + 1):
        close(DM[d - k], np.array([dual[k][f] for f in keys[k]]) * R ** (d - k), 'dual %d-metric' % (d - k), tol=1e-09, scale=R ** (d - k))
        q = np.array([dual[k][f] for f in keys[k]]) * R ** (d - k) / PM[k]
        close(C.hodge_DP[k], q, 'hodge', tol=2e-09, scale=np.abs(q).max())
        close(np.asarray(C.hodge_PD[k]) * C.hodge_DP[k], np.ones(len(q)), 'hodges are inverse', tol=1e-10)
    close(np.sum(PM[d]), np.sum(DM[d]), 'dual cells partition the complex', tol=1e-10)
    require(bool(C.positive_dual_metric), 'dual metric of a well-centered complex is positive')
    # boundary
    single = [f for f, l in gen.facet_table(cells).items() if len(l) == 1]
    B = C.boundary
    require((B is None) == (not single), 'there is a boundary iff the complex is open')
    rec.label('open' if single else 'closed')
    if not single:
        if d == 2 and len(models.components(len(cells), models.facet_pairs(gen.facet_table(cells)))) >= 1:
            close(np.sum(PM[d]), round(np.sum(PM[d]) / (4 * math.pi * R ** 2)) * 4 * math.pi * R ** 2, 'area of the sphere', tol=1e-10)
        equal(np.concatenate(C.dual_metric_closed), np.concatenate(DM), 'closed dual metric of a closed complex')
    elif d == 2:
        idx = np.asarray(T.boundary.parent_idx[0])
        close(B.vertices, x[idx], 'vertices of the boundary', tol=1e-10)
        require(B.radius == R, 'radius of the boundary')
        require((B.weights is None) == (w is None), 'weights of the boundary')
        if w is not None:
            close(B.weights, w[idx], 'weights of the boundary', tol=1e-10)
        full = C.dual_metric_closed
        bl = {}
        for f in single:
            for v in f:
                bl[v] = bl.get(v, 0) + arc(x[v], pos[models.key(f)])
        close(full[1], np.concatenate([DM[1], np.array([bl[v] for v in idx]) * R]), 'closed dual 1-metric', tol=1e-10, scale=R)
        equal(full[0], np.ones(len(cells) + len(single)), 'closed dual 0-metric')
        close(full[2], DM[2], 'closed dual 2-metric', tol=1e-10)
    return True


def check_subdivided(C, cells, x, w, R):
    cen = centers(cells, x, w)
    d = C.topology.n_dim
    keys = [[models.key(c) for c in q] for q in C.topology.corners]
    total = sum(excess(*x[list(c)]) for c in cells) if d == 2 else sum(arc(*x[list(c)]) for c in cells)
    cases = [('subdivide_fundamental', range(d + 1))]
    if d == 2:
        cases += [('subdivide_simplicial', (0, d))]
    if d == 2 and isinstance(C, ComplexSpherical2):
        cases += [('subdivide_loop', (0, 1)), ('subdivide_loop_direct', (0, 1))]
    for name, parts in cases:
        S = getattr(C, name)()
        require(type(S) is type(C), name + ': type')
        require(S.radius == R, name + ': radius')
        require(S.weights is None, name + ': weights of the original do not fit')
        close(S.vertices, np.concatenate([np.array([cen[f][1] for f in keys[k]]) for k in parts]), name + ': vertices', tol=1e-10, scale=1.)
        sub = S.topology.elements[-1]
        area = [excess(*S.vertices[c]) if d == 2 else arc(*S.vertices[c]) for c in sub]
        require(len(sub) == len(cells) * {'subdivide_fundamental': math.factorial(d + 1), 'subdivide_simplicial': d + 1}.get(name, 4), name + ': number of cells')
        close(np.sum(area), total, name + ': area', tol=1e-10)


@P.sub('metric', st.tuples(geo.sphere(max_rm=3), st.sampled_from(RADII), st.sampled_from([0, 0, 1, 3]), st.booleans()).map(list), n=300)
def metric(case, rec):
    r, R, wamp, two = case
    cells, x = geo.build_sphere(r)
    w = None
    if wamp:
        w = geo.rng(r['seed'] + 3).uniform(-.01, .01, size=len(x)) * wamp / (1 + r['level'])
    rec.label(r['kind'], 'weighted' if wamp else 'plain')
    if two:
        C = ComplexSpherical2(vertices=x, simplices=cells, radius=R, weights=w)
    else:
        C = ComplexSpherical(vertices=x, topology=TopologySimplicial.from_simplices(cells), radius=R, weights=w)
    if not check_metric(C, cells, x, w, R, rec):
        return
    check_subdivided(C, cells, x, w, R)
    require(type(C)(vertices=x, topology=C.topology).radius == 1, 'radius is one by default')
    E = C.as_euclidian()
    equal(E.vertices, x, 'vertices of the euclidian complex')
    equal(E.topology.elements[-1], C.topology.elements[-1], 'cells of the euclidian complex')
    require((E.weights is None) == (w is None), 'weights of the euclidian complex')
    if w is not None:
        equal(E.weights, w, 'weights of the euclidian complex')
    if two:
        # rotated and renumbered
        Q = geo.rotation(r['seed'] + 5, 3)
        M = C.transform(Q)
        require(type(M) is type(C) and M.radius == R, 'a rotated complex has the same radius')
        for a, b in zip(C.metric[0] + C.metric[1], M.metric[0] + M.metric[1]):
            close(b, a, 'metric of a rotated complex', tol=9e-10)
        B = C.copy(radius=R * 3)
        for i, (a, b, c, e) in enumerate(zip(C.metric[0], B.metric[0], C.metric[1], B.metric[1])):
            close(b, a * 3. ** i, 'primal metric scales with the radius', tol=1e-10)
            close(e, c * 3. ** i, 'dual metric scales with the radius', tol=1e-10)


@P.sub('circle', st.tuples(st.integers(3, 12), geo.seeds, st.sampled_from(RADII), gen.noise(24), st.integers(0, 3), st.booleans()).map(list), n=200)
def circle(case, rec):
    n, seed, R, labels, rm, circular = case
    g = geo.rng(seed)
    a = (np.arange(n) + g.uniform(-.2, .2, size=n)) * 2 * math.pi / n
    x = np.stack([np.cos(a), np.sin(a)], axis=1)
    if max(arc(x[i], x[i - 1]) for i in range(n)) > 3:
        return
    e = np.array([(i, (i + 1) % n) for i in range(n)])
    e = e[:max(1, n - rm)]
    e, x = geo.compact(e, x)
    e, x = geo.relabel(e, x, labels, labels)
    C = (ComplexCircular if circular else ComplexSpherical)(vertices=x, topology=TopologySimplicial.from_simplices(e), radius=R)
    require(type(C)(vertices=x, topology=C.topology).radius == 1, 'radius is one by default')
    if not check_metric(C, e, x, None, R, rec):
        return
    check_subdivided(C, e, x, None, R)
    if circular:
        S = C.subdivide()
        require(S.topology.n_elements[1] == 2 * len(e) and S.radius == R, 'subdivided circle')
    if len(x) == len(e):
        close(np.sum(C.metric[0][1]), 2 * math.pi * R, 'circumference', tol=1e-10)


# -- overlap of dual cells -------------------------------------------------------------------------------------------------

def clip(poly, n):
    """part of a spherical polygon (list of unit vectors) in the half space x.n >= 0"""
    out = []
    for i, a in enumerate(poly):
        b = poly[(i + 1) % len(poly)]
        sa, sb = a.dot(n), b.dot(n)
        if sa >= 0:
            out.append(a)
        if (sa > 0 > sb) or (sa < 0 < sb):
            out.append(unit(a * sb - b * sa) * (1 if sb > sa else -1))
    return out


def area(poly):
    if len(poly) < 3:
        return 0.
    m = unit(np.sum(poly, axis=0))
    return sum(excess(m, poly[i - 1], poly[i]) for i in range(len(poly)))


def voronoi(cells, x):
    """polygon of each vertex of a closed well-centered triangulation"""
    cen = {models.key(c): unit(geo.power_center(x[list(c)])) for c in cells}
    out = []
    for v in range(len(x)):
        pts = [cen[models.key(c)] for c in cells if v in c]
        u = unit(np.cross(x[v], pts[0]))
        t = np.cross(u, x[v])
        pts.sort(key=lambda p: math.atan2(p.dot(u), p.dot(t)))
        out.append(pts)
    return out


@P.sub('overlap', st.tuples(geo.sphere(max_rm=2, max_level=1), st.sampled_from(RADII), st.booleans()).map(list), n=110)
def overlap(case, rec):
    r, R, inward = case
    if r['kind'] == 'hull':
        r = dict(r, kind='ico')
    cells, x = geo.build_sphere(r)
    if inward:
        cells = cells[:, ::-1]
    C = ComplexSpherical2(vertices=x, simplices=cells, radius=R)
    F = C.subdivide_loop()
    low = [min(b.min() for b, _ in centers(c, y, None).values()) for c, y in ((cells, x), (F.topology.elements[-1], F.vertices))]
    if min(low) < 1e-3:
        return
    rec.nt()
    M = C.multigrid_transfer_dual(C, F)
    require(M.shape == (len(x), len(F.vertices)), 'shape of the transfer')
    M = M.toarray()
    require(M.min() > -1e-12, 'overlaps are positive')
    close(M.sum(axis=1), np.asarray(C.metric[1][2]) / R ** 2, 'overlaps add up to the coarse dual cells', tol=1e-10)
    close(M.sum(axis=0), np.asarray(F.metric[1][2]) / R ** 2, 'overlaps add up to the fine dual cells', tol=1e-10)
    if all(len(l) == 2 for l in gen.facet_table(cells).values()):
        rec.label('closed')
        fc = [tuple(int(v) for v in c) for c in F.topology.elements[-1]]
        fine = voronoi(fc, F.vertices)
        nb = {}
        for c in cells:
            for a in c:
                nb.setdefault(int(a), set()).update(int(b) for b in c if b != a)
        want = np.zeros(M.shape)
        for i in range(len(x)):
            near = np.flatnonzero(F.vertices.dot(x[i]) > .2)
            for j in near:
                p = fine[j]
                for k in nb[i]:
                    p = clip(p, unit(x[i] - x[k]))
                want[i, j] = area(p)
        close(M, want, 'overlap of dual cells', tol=1e-10, scale=np.abs(want).max())
