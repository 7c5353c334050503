import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close, raises

from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.complex.simplicial.spherical import ComplexCircular, ComplexSpherical2
from pycomplex.topology.simplicial import TopologySimplicial

P = Property('C21', rule='Random (regular) Delaunay complexes in the plane and in space, and on the sphere, with cells removed, weighted or not, with random query '
             'points; non-trivial: more than one cell and the complex qualifies (otherwise only the refusal is checked).')

Q = st.tuples(geo.seeds, st.integers(1, 40), st.sampled_from([0, 0, 1, 2])).map(list)


def connected(cells):
    table = gen.facet_table(cells)
    adj = {i: set() for i in range(len(cells))}
    for l in table.values():
        ids = [i for i, _ in l]
        for a in ids:
            adj[a].update(ids)
    seen, todo = {0}, [0]
    while todo:
        for j in adj[todo.pop()]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return len(seen) == len(cells)


def bcc(r):
    """tetrahedra of the body centered cubic lattice, each around an edge shared by two cube centers; well centered"""
    a, b, c = (r['n'] * 3)[:3]
    cells, pts = set(), {}

    def idx(p):
        return pts.setdefault(tuple(p), len(pts))
    for i, j, k in itertools.product(range(a), range(b), range(c)):
        o = 2 * np.array([i, j, k])
        for ax in range(3):
            e = np.eye(3, dtype=int)[ax] * 2
            p, q = o + 1, o + 1 + e
            u, v = [np.eye(3, dtype=int)[t] for t in range(3) if t != ax]
            m = o + 1 + e // 2
            ring = [m - u - v, m + u - v, m + u + v, m - u + v]
            for s in range(4):
                cells.add(tuple([idx(p), idx(q), idx(ring[s]), idx(ring[(s + 1) % 4])]))
    x = np.zeros((len(pts), 3))
    for p, i in pts.items():
        x[i] = p
    return np.array(sorted(cells)), x / 2.


def build(r):
    if r['kind'] != 'bcc':
        return geo.build_planar(r) if 'd' not in r else geo.build_solid(r)
    g = geo.rng(r['seed'])
    c, x = bcc(r)
    x = x + g.uniform(-1, 1, size=x.shape) * .03 * r['amp'] / 16.
    c = geo.remove(c, r['rm'])
    c, x = geo.compact(c, x)
    c = geo.orient_by_volume(c, x)
    x = x.dot(geo.rotation(r['turn'], 3)) * r['scale'] + np.array(r['shift'][:3]) * geo.unit(r)
    c, x = geo.relabel(c, x, r['labels'], r['order'])
    return geo.rotate_corners(c, r['inner']), x


FLAT = st.one_of(geo.planar(max_rm=6), geo.planar(kinds=('hex',), max_rm=6), geo.solid(dims=(3,), kinds=('delaunay', 'kuhn'), top=2),
                 geo.solid(dims=(3,), kinds=('delaunay', 'kuhn', 'simplex'), top=1, max_rm=0).map(lambda r: dict(r, kind='bcc')))


def size_of(cells, x):
    return max(np.linalg.norm(x[a] - x[b]) for c in cells for a, b in itertools.combinations(c, 2))


def excess(cells, x, w):
    """signed squared distance of cell center to facet center, by facet, summed over the cells of the facet; also the centers of cells"""
    out, centers = {}, []
    clear = True
    for c in cells:
        c = [int(v) for v in c]
        cc = geo.power_center(x[c], None if w is None else w[c])
        centers.append(cc)
        b = geo.barycentric(cc, x[c])
        clear = clear and np.abs(b).min() > 1e-6
        for i in range(len(c)):
            f = c[:i] + c[i + 1:]
            fc = geo.power_center(x[f], None if w is None else w[f])
            k = tuple(sorted(f))
            out[k] = out.get(k, 0.) + np.sign(b[i]) * ((cc - fc) ** 2).sum()
    return out, np.array(centers), clear


def delaunay(cells, x, w, centers, L):
    """no vertex inside the (weighted) circumsphere of a cell"""
    for c, cc in zip(cells, centers):
        c = [int(v) for v in c]
        # the sign of the weights is that of geo.power_center
        pw = ((x - cc) ** 2).sum(axis=1) + (0 if w is None else -w)
        rest = np.delete(pw, c)
        if len(rest) and rest.min() < pw[c[0]] + 1e-4 * L ** 2:
            return False
    return True


def make(cells, x, w):
    if len(cells[0]) == 3:
        return ComplexTriangularEuclidian(vertices=x, triangles=cells, weights=w)
    return ComplexSimplicialEuclidian(vertices=x, simplices=cells, weights=w)


def interior(g, n, nc, k, low):
    """random cells and barycentric coordinates, none below low"""
    c = g.randint(nc, size=n)
    b = g.dirichlet([1] * k, size=n)
    return c, b * (1 - k * low) + low


def setup(case, rec):
    """returns None when the complex does not qualify, after checking the refusal"""
    r, (seed, n, wk) = case
    cells, x = build(r)
    L = size_of(cells, x)
    g = geo.rng(seed)
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * [0, .02, .1][wk]
    if not connected(cells):
        rec.label('several components')
        return None
    E, centers, clear = excess(cells, x, w)
    if not clear:
        rec.label('center on a facet')
        return None
    e = min(E.values())
    if abs(e) < 1e-5 * L ** 2:
        rec.label('borderline')
        return None
    C = make(cells, x, w)
    require(bool(C.is_pairwise_delaunay) == (e > 0), 'is_pairwise_delaunay is %s, smallest excess %g' % (C.is_pairwise_delaunay, e))
    if e < 0:
        rec.label('refused')
        raises(AssertionError, lambda: C.pick_primal(x[:1]), 'picking in a complex that is not pairwise delaunay')
        raises(AssertionError, lambda: C.pick_fundamental(x[:1]), 'picking domains in a complex that is not pairwise delaunay')
        return None
    if not delaunay(cells, x, w, centers, L):
        rec.label('not delaunay')
        return None
    rec.nt(len(cells) > 1)
    rec.label('%d-d %s' % (len(cells[0]) - 1, 'weighted' if wk else 'plain'))
    return cells, x, w, L, g, n, C


def near_facets(C, cells, x, S, L, g, n, rec):
    """points just inside a cell, with the cell across the near facet as a guess"""
    if S > 300 * L:
        return
    inner = [(l[a][0], l[1 - a][0], q) for q, l in gen.facet_table(cells).items() if len(l) == 2 for a in (0, 1)]
    if not inner:
        return
    d = len(cells[0]) - 1
    k, b, guess = [], [], []
    for t in g.randint(len(inner), size=n + 4):
        c, o, q = inner[t]
        e = 10 ** g.uniform(-5, -2.5)
        far = [i for i in range(d + 1) if int(cells[c][i]) not in q]
        require(len(far) == 1, 'a facet misses one corner')
        bb = np.insert((g.dirichlet([1] * d) * (1 - .1 * d) + .1) * (1 - e), far[0], e)
        k.append(c), b.append(bb), guess.append(o)
    k, b, guess = np.array(k), np.array(b), np.array(guess)
    p = np.einsum('ij,ijk->ik', b, x[cells[k]])
    rec.label('near a facet')
    for what, s in (('no guess', None), ('the cell across the facet as a guess', guess), ('the right guess', k.copy())):
        s, bb = C.pick_primal(p) if s is None else C.pick_primal(p, simplex_idx=s)
        equal(s, k, 'close to a facet, ' + what + ': picked cells')
        close(bb, b, 'close to a facet, ' + what + ': barycentric coordinates', tol=2e-09, scale=1)


@P.sub('primal', st.tuples(FLAT, Q).map(list), n=500)
def primal(case, rec):
    q = setup(case, rec)
    if q is None:
        return
    cells, x, w, L, g, n, C = q
    d = len(cells[0]) - 1
    k, b = interior(g, n, len(cells), d + 1, 2e-3)
    p = np.einsum('ij,ijk->ik', b, x[cells[k]])
    p = gen.dress(p)
    keep = p.copy()
    S = np.abs(x).max() + L
    tol = 1e-8 * S / L

    def verify(got, what):
        s, bb = got
        equal(s, k, what + ': picked cells')
        close(bb, b, what + ': barycentric coordinates', tol=max(tol, 1e-8) * 100, scale=1)
    el = np.asarray(C.topology.elements[-1])
    equal(el, cells, 'cells of the complex')
    verify(C.pick_primal(p), 'no guess')
    guess = g.randint(len(cells), size=n)
    right = g.uniform(size=n) < .5
    guess[right] = k[right]
    guess = gen.dress(guess)
    kept = guess.copy()
    verify(C.pick_primal(p, simplex_idx=guess), 'with a guess')
    equal(guess, kept, 'guess is left alone')
    verify(C.pick_primal(p, simplex_idx=k.copy()), 'with the right guess')
    equal(p, keep, 'points are left alone')
    near_facets(C, cells, x, S, L, g, n, rec)
    # without weights the nearest center decides
    cc = np.array([geo.power_center(x[c], None if w is None else w[c]) for c in cells])
    D = np.linalg.norm(p[:, None] - cc[None], axis=2)
    near = np.argsort(D, axis=1)
    ok = np.ones(n, dtype=bool) if len(cells) == 1 else (np.sort(D, axis=1)[:, 1] - np.sort(D, axis=1)[:, 0]) > 1e-6 * L
    s, bb = C.pick_primal(p, weighted=False)
    equal(np.asarray(s)[ok], near[ok, 0], 'cell with nearest center')
    close(np.einsum('ij,ijk->ik', bb, x[cells[s]]), p, 'coordinates with respect to the cell with nearest center', tol=1e-10, scale=S * max(1, np.abs(bb).max()))
    # outside
    out = p + g.normal(size=p.shape) * L * 2
    s, bb = C.pick_primal(out)
    close(np.einsum('ij,ijk->ik', bb, x[cells[s]]), out, 'points outside', tol=1e-10, scale=S * max(1, np.abs(bb).max()))
    # sampling
    u = gen.dress(g.normal(size=len(x)))
    close(C.sample_primal_0(u, p), (u[cells[k]] * b).sum(axis=1), 'primal 0-form at points', tol=max(tol, 1e-8) * 100, scale=np.abs(u).max())
    a, a0 = g.normal(size=x.shape[1]) / S, g.normal()
    close(C.sample_primal_0(x.dot(a) + a0, p), p.dot(a) + a0, 'affine functions are reproduced', tol=max(tol, 1e-8) * 100, scale=1)


@P.sub('primal_other', st.tuples(geo.solid(dims=(1, 1, 4), kinds=('kuhn', 'simplex', 'delaunay'), top=2).map(lambda r: dict(r, n=r['n'] if r['d'] == 1 else [r['n'][0], 1, 1], shear=True, amp=r['amp'] // 4)), Q).map(list), n=150)
def primal_other(case, rec):
    """curves, and four dimensions"""
    primal(case, rec)


@P.sub('dual', st.tuples(st.one_of(geo.planar(max_rm=3), geo.solid(dims=(1, 2, 3))), Q).map(list), n=400)
def dual(case, rec):
    r, (seed, n, wk) = case
    cells, x = build(r)
    L = size_of(cells, x)
    g = geo.rng(seed)
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * [0, .1, 1][wk]
    rec.nt(len(cells) > 1)
    rec.label('weighted' if wk else 'plain', 'd=%d in %d' % (len(cells[0]) - 1, x.shape[1]))
    C = make(cells, x, w)
    p = x[g.randint(len(x), size=n)] + g.normal(size=(n, x.shape[1])) * L
    D = ((p[:, None] - x[None]) ** 2).sum(axis=2) - (0 if w is None else w)
    o = np.sort(D, axis=1)
    ok = o[:, 1] - o[:, 0] > 1e-6 * (L ** 2 + np.abs(D).max())
    p = gen.dress(p)
    keep = p.copy()
    got = np.asarray(C.pick_dual(p))
    require(got.shape == (n,), 'shape of the picked vertices')
    equal(got[ok], D.argmin(axis=1)[ok], 'vertex of smallest power distance')
    equal(p, keep, 'points are left alone')


def domains_of(cells, C):
    """index of elements by key"""
    return [{models.key(c): i for i, c in enumerate(q)} for q in C.topology.corners]


def dual_members(C, cells, index):
    """dual vertices of each element: its cells, then the boundary facets"""
    d = len(cells[0]) - 1
    members = [dict() for _ in range(d + 1)]
    B = C.topology.boundary
    bk = []
    if B is not None:
        bk = [models.key(np.asarray(B.parent_idx[0])[np.asarray(c).reshape(-1)]) for c in B.corners[-1]]
    table = gen.facet_table(cells)
    require(sorted(bk) == sorted(f for f, l in table.items() if len(l) == 1), 'facets of the boundary')
    for j, c in enumerate(list(cells) + list(bk)):
        i = index[d][models.key(c)] if j < len(cells) else j
        for k in range(1, d + 2):
            for f in itertools.combinations(sorted(int(v) for v in c), k):
                members[k - 1].setdefault(f, []).append(i)
    return members, len(bk)


def even(cells, x, w):
    """is the shortest half edge of every vertex long relative to the average distance to the centers of its elements"""
    d = len(cells[0]) - 1
    faces = {tuple(sorted(int(v) for v in f)) for c in cells for k in range(2, d + 2) for f in itertools.combinations(c, k)}
    dist = {}
    for f in faces:
        q = geo.power_center(x[list(f)], None if w is None else w[list(f)])
        for v in f:
            dist.setdefault(v, []).append((((x[v] - q) ** 2).sum()))
    return all(np.mean(l) / 4 < .9 * min(l) for l in dist.values())


@P.sub('fundamental', st.tuples(FLAT, Q).map(list), n=500)
def fundamental(case, rec):
    if len(case[0]['n']) == 3:
        case[0]['kind'] = 'bcc'          # others are hardly ever well-centered
    r, (seed, n, wk) = case
    cells, x = build(r)
    if not connected(cells):
        return
    L = size_of(cells, x)
    g = geo.rng(seed)
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * [0, .01, .04][wk]
    if not geo.well_centered(cells, x, w, tol=.02):
        rec.label('not well-centered')
        return
    if not even(cells, x, w):
        rec.label('uneven edges')
        return
    C = make(cells, x, w)
    require(bool(C.is_well_centered), 'well-centered')
    rec.nt(len(cells) > 1)
    rec.label('%d-d %s' % (len(cells[0]) - 1, 'weighted' if wk else 'plain'))
    check_fundamental(C, cells, x, w, L, g, n, rec)


@P.sub('fundamental_other', st.tuples(geo.solid(dims=(1,), kinds=('kuhn', 'simplex'), top=4), Q).map(list), n=150)
def fundamental_other(case, rec):
    """curves"""
    r, (seed, n, wk) = case
    cells, x = geo.build_solid(r)
    if not connected(cells):
        return
    L = size_of(cells, x)
    g = geo.rng(seed)
    d = len(cells[0]) - 1
    w = None if wk == 0 else g.uniform(-1, 1, size=len(x)) * L ** 2 * np.array([0, .01, .04])[wk] / (1 if d == 1 else 10)
    if not geo.well_centered(cells, x, w, tol=.02 if d == 1 else .004):
        rec.label('not well-centered')
        return
    if not even(cells, x, w):
        rec.label('uneven edges')
        return
    C = make(cells, x, w)
    rec.nt(len(cells) > 1)
    rec.label('%d-d %s' % (d, 'weighted' if wk else 'plain'))
    check_fundamental(C, cells, x, w, L, g, n, rec)


def check_fundamental(C, cells, x, w, L, g, n, rec):
    d = len(cells[0]) - 1
    index = domains_of(cells, C)
    k, b = interior(g, n, len(cells), d + 1, 0)
    flags = [g.permutation(d + 1) for _ in range(n)]
    f = [[tuple(sorted(int(v) for v in cells[k[i]][flags[i][:m + 1]])) for m in range(d + 1)] for i in range(n)]
    m = 5e-3 if g.uniform() < .5 else 10 ** g.uniform(-4.5, -2.5)
    b = b * (1 - (d + 1) * m) + m
    if m < 5e-3:
        # close to one side
        b[np.arange(n), g.randint(d + 1, size=n)] = m
        b /= b.sum(axis=1)[:, None]
    corner = np.array([[geo.power_center(x[list(q)], None if w is None else w[list(q)]) for q in F] for F in f])
    p = np.einsum('ij,ijk->ik', b, corner)
    want = np.array([[index[m][F[m]] for m in range(d + 1)] for F in f])
    S = np.abs(x).max() + L
    tol = 1e-6 * max(1, S / L * 1e-2)

    def verify(got, what):
        idx, bb, dom = got
        equal(dom, want, what + ': elements of the picked domains')
        # an odd domain lists its corners with the last two swapped
        bb = np.array(bb)
        odd = np.asarray(idx) % 2 == 1
        bb[odd, -2:] = bb[odd, :-3:-1]
        close(bb, b, what + ': barycentric coordinates', tol=tol * 50, scale=1)
        return idx
    p = gen.dress(p)
    keep = p.copy()
    idx = verify(C.pick_fundamental(p), 'no guess')
    total = len(cells) * math.factorial(d + 1)
    guess = g.randint(total, size=n)
    half = g.uniform(size=n) < .5
    guess[half] = np.asarray(idx)[half]
    verify(C.pick_fundamental(p, domain_idx=guess.copy()), 'with a guess')
    verify(C.pick_fundamental(p, domain_idx=np.asarray(idx).copy()), 'with the right guess')
    equal(p, keep, 'points are left alone')

    # dual 0-forms
    members, nb = dual_members(C, cells, index)
    nd = len(cells) + nb
    require(C.topology.dual.n_elements[0] == nd, 'number of dual vertices')
    u = g.normal(size=(nd,) + [(), (2,), (2, 3)][g.randint(3)])
    if u.ndim > 2:
        u = u[:, 0]
    u = gen.dress(u)
    val = np.zeros((n,) + u.shape[1:])
    for i in range(n):
        for m in range(d + 1):
            val[i] += b[i, m] * u[members[m][f[i][m]]].mean(axis=0)
    close(C.sample_dual_0(u, p, weighted=False), val, 'dual 0-form, plain averages', tol=tol * 100, scale=np.abs(u).max())
    # weighted
    W = C.weighted_average_operators
    for m in range(d):
        A = np.asarray(W[d - m].toarray())
        require(A.shape[1] == nd, 'columns of averaging operators')
        for q, i in index[m].items():
            inner = [j for j in members[m][q] if j < len(cells)]
            if len(inner) < len(members[m][q]):
                continue
            row = A[i].copy()
            require(abs(row.sum() - 1) < 1e-9, 'weights sum to one')
            require((row[inner] > 0).all(), 'weights are positive')
            row[inner] = 0
            require((row == 0).all(), 'weights outside the cells of the element')
    inside = np.array([all(j < len(cells) for m in range(d + 1) for j in members[m][f[i][m]]) for i in range(n)])
    got = C.sample_dual_0(u, p)
    val = np.zeros((n,) + u.shape[1:])
    for i in range(n):
        for m in range(d):
            val[i] += b[i, m] * np.tensordot(np.asarray(W[d - m].getrow(want[i, m]).toarray()).ravel(), u, axes=1)
        val[i] += b[i, d] * u[want[i, d]]
    if inside.any():
        rec.label('interior points')
        close(np.asarray(got)[inside], val[inside], 'dual 0-form, weighted averages', tol=tol * 100, scale=np.abs(u).max())
        close(np.asarray(C.sample_dual_0(np.full(nd, 2.5), p))[inside], np.full(inside.sum(), 2.5), 'constants', tol=1e-10)
    close(C.sample_dual_0(np.full(nd, 2.5), p, weighted=False), np.full(n, 2.5), 'constants', tol=1e-10)
    # at the center of facets the interpolation is affine between the two cells
    A = W[1]
    cc = np.asarray(C.primal_position[-1])
    for q, i in index[d - 1].items():
        m = members[d - 1][q]
        if all(j < len(cells) for j in m):
            row = np.asarray(A.getrow(i).toarray()).ravel()
            close(row[:len(cells)].dot(cc), geo.power_center(x[list(q)], None if w is None else w[list(q)]), 'affine along dual edges', tol=1e-10, scale=S)


@P.sub('sphere', st.tuples(geo.sphere(kinds=('ico', 'hull'), max_rm=3), Q).map(list), n=150)
def sphere(case, rec):
    r, (seed, n, wk) = case
    r = dict(r, level=max(1, r['level']))
    if r['kind'] == 'ico':
        r['amp'] = r['amp'] // 2
    cells, x = geo.build_sphere(r)
    if not connected(cells):
        return
    E, cc, clear = excess(cells, x, None)
    if not clear or min(E.values()) < 1e-4:
        return
    e = np.array([np.abs(np.linalg.norm(x[c[0]] - x[c[1]])) for c in cells])
    if size_of(cells, x) > 1.9:
        return
    C = ComplexSpherical2(vertices=x, simplices=cells)
    if not C.is_pairwise_delaunay:
        return
    rec.nt()
    rec.label(r['kind'], 'large cells' if size_of(cells, x) > .8 else 'small cells')
    g = geo.rng(seed)
    k, b = interior(g, n, len(cells), 3, .005)
    p = np.einsum('ij,ijk->ik', b, x[cells[k]])
    p = p / np.linalg.norm(p, axis=1)[:, None]

    def verify(got, what):
        s, bb = got
        equal(s, k, what + ': picked cells')
        close(bb, b, what + ': barycentric coordinates', tol=1e-10, scale=1)
    verify(C.pick_primal(p), 'no guess')
    guess = g.randint(len(cells), size=n)
    verify(C.pick_primal(p, simplex_idx=guess), 'with a guess')
    verify(C.pick_primal(p, simplex_idx=k.copy()), 'with the right guess')
    u = gen.dress(g.normal(size=len(x)))
    close(C.sample_primal_0(u, p), (u[cells[k]] * b).sum(axis=1), 'primal 0-form at points', tol=1e-10, scale=np.abs(u).max())
    near = np.argsort(((p[:, None] - x[None]) ** 2).sum(axis=2), axis=1)
    D = np.sort(((p[:, None] - x[None]) ** 2).sum(axis=2), axis=1)
    ok = D[:, 1] - D[:, 0] > 1e-6
    equal(np.asarray(C.pick_dual(p))[ok], near[ok, 0], 'nearest vertex')


@P.sub('sphere_other', st.tuples(geo.seeds, st.integers(1, 40), st.sampled_from([0, 0, 0, 1])).map(list), n=120)
def sphere_other(case, rec):
    """circles, with edges that run either way, and the three dimensional sphere"""
    seed, n, kind = case
    g = geo.rng(seed)
    if kind == 0:
        m = g.randint(4, 13)
        gap = g.uniform(.6, 1.4, size=m)
        t = np.cumsum(gap / gap.sum() * 2 * np.pi) + g.uniform(0, 6)
        x = np.stack([np.cos(t), np.sin(t)], axis=1)
        o = g.permutation(m)
        cells = np.stack([np.arange(m), np.roll(np.arange(m), -1)], axis=1)
        x, cells = x[o], np.argsort(o)[cells][g.permutation(m)]
        C = ComplexCircular(vertices=x, topology=TopologySimplicial.from_simplices(cells))
        cells = np.asarray(C.topology.elements[-1])
    else:
        from pycomplex import synthetic
        if not HEX:
            HEX.append(synthetic.hexacosichoron())
        C = HEX[0]
        x, cells = np.asarray(C.vertices), np.asarray(C.topology.elements[-1])
    d = cells.shape[1] - 1
    k, b = interior(g, n, len(cells), d + 1, .005)
    p = np.einsum('ij,ijk->ik', b, x[cells[k]])
    p = p / np.linalg.norm(p, axis=1)[:, None]
    rec.nt()
    rec.label('%d-sphere' % d)

    def verify(got, what):
        s, bb = got
        equal(s, k, what + ': picked cells')
        close(bb, b, what + ': barycentric coordinates', tol=1e-10, scale=1)
    q = p.copy()
    verify(C.pick_primal(p), 'no guess')
    guess = g.randint(len(cells), size=n)
    verify(C.pick_primal(p, simplex_idx=guess), 'with a guess')
    verify(C.pick_primal(p, simplex_idx=k.copy()), 'with the right guess')
    u = gen.dress(g.normal(size=len(x)))
    close(C.sample_primal_0(u, p), (np.asarray(u)[cells[k]] * b).sum(axis=1), 'primal 0-form at points', tol=1e-10, scale=np.abs(u).max())
    D = ((p[:, None] - x[None]) ** 2).sum(axis=2)
    o = np.sort(D, axis=1)
    ok = o[:, 1] - o[:, 0] > 1e-6
    equal(np.asarray(C.pick_dual(p))[ok], D.argmin(axis=1)[ok], 'nearest vertex')
    equal(p, q, 'points are left alone')


HEX = []


@P.sub('many', st.tuples(geo.seeds, st.sampled_from([2, 2, 3, 3]), st.booleans(), st.integers(0, 1)).map(list), n=14, thorough=10)
def many(case, rec):
    """many points, some close to facets, in Delaunay complexes of many cells"""
    import scipy.spatial
    seed, d, weighted, kind = case
    g = geo.rng(seed)
    if d == 2:
        k = 12
        q = np.stack(np.meshgrid(np.arange(k), np.arange(k)), axis=-1).reshape(-1, 2) * 1.
        q[:, 0] += q[:, 1] % 2 / 2.
        q[:, 1] *= .75 ** .5
        x = q + g.uniform(-.1, .1, size=q.shape)
        cells = scipy.spatial.Delaunay(x).simplices
    else:
        cells, x = bcc(dict(n=[3, 3, 3]))
        x = x + g.uniform(-.03, .03, size=x.shape)
    cells = np.array([c for c in cells if gen_quality(x[c]) > (.45 if d == 2 else .05)])
    cells, x = geo.compact(cells, x)
    cells = geo.orient_by_volume(cells, x)
    L = size_of(cells, x)
    w = g.uniform(-1, 1, size=len(x)) * .02 if weighted else None
    C = make(cells, x, w)
    n = 2000
    # vertices first
    p = x.min(axis=0) + g.uniform(size=(n, d)) * np.ptp(x, axis=0)
    D = ((p[:, None] - x[None]) ** 2).sum(axis=2) - (0 if w is None else w)
    o = np.sort(D, axis=1)
    ok = o[:, 1] - o[:, 0] > 1e-7
    rec.nt()
    rec.label('%d-d' % d, 'weighted' if weighted else 'plain')
    equal(np.asarray(C.pick_dual(p))[ok], D.argmin(axis=1)[ok], 'vertex of smallest power distance, many points')
    # a flood of points between neighbours: nothing is nearer than what is picked
    W = np.zeros(len(x)) if w is None else w
    e = np.array(sorted({tuple(sorted(q)) for c in cells.tolist() for q in itertools.combinations(c, 2)}))
    e = e[g.randint(len(e), size=40000)]
    f = x[e[:, 1]] - x[e[:, 0]]
    l = (f ** 2).sum(axis=1)
    q = .5 + (W[e[:, 0]] - W[e[:, 1]]) / (2 * l) + g.uniform(-1, 1, size=len(e)) * 1e-2
    p = x[e[:, 0]] + q[:, None] * f + g.normal(size=f.shape) * 1e-2 * L
    i = np.asarray(C.pick_dual(p))
    require(i.shape == (len(p),), 'one vertex per point')
    own = scipy.spatial.cKDTree(np.concatenate([x, np.sqrt(W.max() - W)[:, None]], axis=1)).query(np.concatenate([p, np.zeros((len(p), 1))], axis=1))[1]
    power = lambda j: ((p - x[j]) ** 2).sum(axis=1) - W[j]
    gap = power(i) - power(own)
    require(gap.max() < 1e-9 * L ** 2, 'another vertex is nearer than the one picked, by %g' % gap.max())
    E, centers, clear = excess(cells, x, w)
    if not clear or min(E.values()) < 1e-5 or not delaunay(cells, x, w, centers, L) or not connected(cells):
        rec.label('does not qualify')
        return
    k, b = interior(g, n, len(cells), d + 1, 2e-3)
    e = 10 ** g.uniform(-4.5, -2, size=n)
    i = np.flatnonzero(g.uniform(size=n) < .5)
    b[i, g.randint(d + 1, size=len(i))] = e[i]
    b /= b.sum(axis=1)[:, None]
    p = np.einsum('ij,ijk->ik', b, x[cells[k]])
    s, bb = C.pick_primal(p)
    equal(s, k, 'picked cells, many points')
    close(bb, b, 'barycentric coordinates, many points', tol=1e-10, scale=1)
    s, bb = C.pick_primal(p, simplex_idx=k[g.permutation(n)])
    equal(s, k, 'picked cells with a guess, many points')
    k, b = interior(g, 40000, len(cells), d + 1, 1e-3)
    b[np.arange(len(b)), g.randint(d + 1, size=len(b))] = 10 ** g.uniform(-6, -3, size=len(b))
    b /= b.sum(axis=1)[:, None]
    p = np.einsum('ij,ijk->ik', b, x[cells[k]])
    for q in (None, k[::-1].copy()):
        s, bb = C.pick_primal(p) if q is None else C.pick_primal(p, simplex_idx=q)
        equal(s, k, 'picked cells, a flood of points')
        close(bb, b, 'barycentric coordinates, a flood of points', tol=1e-7, scale=1)
    if not geo.well_centered(cells, x, w, tol=.02) or not even(cells, x, w):
        return
    rec.label('domains')
    if d == 2:
        check_fundamental(C, cells, x, w, L, g, 100, rec)


def gen_quality(p):
    d = len(p) - 1
    return geo.volume(p) * math.factorial(d) / max(np.linalg.norm(a - b) for a, b in itertools.combinations(p, 2)) ** d
