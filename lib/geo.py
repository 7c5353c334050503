"""Geometric generators: embedded complexes from small JSON recipes, and geometric oracles.  No code from /repo is used."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen

seeds = st.integers(0, 2 ** 20)


def rng(seed):
    return np.random.RandomState(int(seed) % (2 ** 32))


def unit(r):
    """unit of the shift: tiny and huge complexes are not moved by many times, or a fraction of, their size"""
    s = r.get('scale', 1)
    return 1 if 1e-3 < s < 1e3 else s


def rotation(seed, d):
    """proper rotation; identity for seed 0"""
    if not seed:
        return np.eye(d)
    q, r = np.linalg.qr(rng(seed).normal(size=(d, d)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


# -- combinatorial helpers --------------------------------------------------------------------------------------

def is_manifold(cells):
    """every facet has at most two cells and the cells around every vertex are linked through facets at that vertex"""
    table = gen.facet_table(cells)
    if any(len(l) > 2 for l in table.values()):
        return False
    at = {}
    for i, c in enumerate(cells):
        for v in c:
            at.setdefault(int(v), set()).add(i)
    for v, group in at.items():
        todo, seen = [min(group)], {min(group)}
        while todo:
            i = todo.pop()
            c = tuple(int(q) for q in cells[i])
            for f in itertools.combinations(sorted(c), len(c) - 1):
                if v in f:
                    for j, _ in table[f]:
                        if j in group and j not in seen:
                            seen.add(j)
                            todo.append(j)
        if seen != group:
            return False
    return True


def remove(cells, picks):
    """remove cells while what remains is a manifold"""
    cells = [tuple(int(v) for v in c) for c in cells]
    for p in picks:
        if len(cells) > 1:
            k = p % len(cells)
            rest = cells[:k] + cells[k + 1:]
            if is_manifold(rest):
                cells = rest
    return np.array(cells)


def compact(cells, x):
    used, inv = np.unique(np.asarray(cells).flatten(), return_inverse=True)
    return inv.reshape(np.shape(cells)), x[used]


def relabel(cells, x, labels, order=''):
    n = len(x)
    p = gen.Noise(labels).perm(n)
    inv = np.empty(n, dtype=np.int64)
    inv[p] = np.arange(n)
    cells = inv[cells]
    k = gen.Noise(order).perm(len(cells))
    return cells[k], x[p]


def rotate_corners(cells, noise):
    """even permutation of the corners of each cell"""
    cells = np.array(cells)
    n = cells.shape[1]
    even = [p for p in itertools.permutations(range(n)) if gen.parity(p) == 0]
    k = gen.Noise(noise).ints(len(cells)) % len(even)
    return np.array([c[list(even[q])] for c, q in zip(cells, k)])


def orient_by_volume(cells, x):
    """positive volume"""
    out = []
    for c in cells:
        m = x[c[1:]] - x[c[0]]
        c = list(c)
        if np.linalg.det(m) < 0:
            c[0], c[1] = c[1], c[0]
        out.append(c)
    return np.array(out)


# -- planar triangulations -----------------------------------------------------------------------------------------

def lattice(nx, ny):
    """patch of equilateral triangles with unit edges"""
    x = np.array([[i + j * .5, j * math.sqrt(3) / 2] for j in range(ny + 1) for i in range(nx + 1)])
    idx = lambda i, j: j * (nx + 1) + i
    t = []
    for j in range(ny):
        for i in range(nx):
            t.append((idx(i, j), idx(i + 1, j), idx(i, j + 1)))
            t.append((idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)))
    return np.array(t), x


def min_quality(cells, x):
    """smallest volume relative to the longest edge"""
    q = []
    d = x.shape[1]
    for c in cells:
        p = x[list(c)]
        L = max(np.linalg.norm(a - b) for a, b in itertools.combinations(p, 2))
        e = p[1:] - p[0]
        v = math.sqrt(max(0, np.linalg.det(e.dot(e.T)))) / math.factorial(len(c) - 1)
        q.append(v / L ** (len(c) - 1))
    return np.array(q)


@gen.dressed
def build_planar(r):
    """r: kind 'hex' | 'kuhn' | 'delaunay', n [a, b], amp in 0..16 (sixteenths of the admissible perturbation), seed, rm, turn, labels, order, inner
    returns (tris counterclockwise, x)"""
    g = rng(r['seed'])
    a, b = r['n']
    if r['kind'] == 'hex':
        cells, x = lattice(a, b)
        x = x + g.uniform(-1, 1, size=x.shape) * .12 * r['amp'] / 16.
    elif r['kind'] == 'kuhn':
        k = gen.kuhn([a, b])
        cells, x = np.array(k[0]), np.array(k[1], dtype=float)
        x = x + g.uniform(-1, 1, size=x.shape) * .2 * r['amp'] / 16.
    else:
        import scipy.spatial
        x = g.uniform(-1, 1, size=(max(4, a * b + 3), 2)) * 2
        cells = np.array(scipy.spatial.Delaunay(x).simplices, dtype=np.int64)
        # flat triangles along the hull are of no use
        for _ in range(20):
            q = min_quality(cells, x)
            bad = [i for i in np.argsort(q) if q[i] < .03]
            for i in bad:
                rest = np.delete(cells, i, axis=0)
                if len(rest) and is_manifold(rest):
                    cells = rest
                    break
            else:
                break
    cells = remove(cells, r.get('rm', []))
    cells, x = compact(cells, x)
    cells = orient_by_volume(cells, x)
    x = x.dot(rotation(r.get('turn', 0), 2)) * r.get('scale', 1) + np.array(r.get('shift', [0, 0])) * unit(r)
    cells, x = relabel(cells, x, r.get('labels', ''), r.get('order', ''))
    cells = rotate_corners(cells, r.get('inner', ''))
    return cells, x


def planar(kinds=('hex', 'kuhn', 'delaunay'), top=4, max_rm=4):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(list(kinds)), 'n': st.lists(st.integers(1, top), min_size=2, max_size=2),
        'amp': st.integers(0, 16), 'seed': seeds, 'rm': st.lists(st.integers(0, 60), max_size=max_rm),
        'turn': st.one_of(st.just(0), seeds), 'scale': st.sampled_from([1, .5, 3, .01, 100, 1e-7, 1e6]),
        'shift': st.lists(st.integers(-3, 3), min_size=2, max_size=2),
        'labels': gen.noise(24), 'order': gen.noise(24), 'inner': gen.noise(24)})


# -- closed and open surfaces in space -------------------------------------------------------------------------------

ICOSA = None


def icosahedron():
    phi = (1 + math.sqrt(5)) / 2
    v = np.array([(0, s, t * phi) for s in (-1, 1) for t in (-1, 1)], dtype=float)
    v = np.concatenate([np.roll(v, k, axis=1) for k in range(3)])
    t = []
    for c in itertools.combinations(range(12), 3):
        if all(abs(np.linalg.norm(v[a] - v[b]) - 2) < 1e-6 for a, b in itertools.combinations(c, 2)):
            t.append(c)
    return outward(np.array(t), v), v / np.linalg.norm(v[0])


def outward(t, v):
    out = []
    for c in t:
        c = list(c)
        if np.dot(np.cross(v[c[1]] - v[c[0]], v[c[2]] - v[c[0]]), v[c].mean(axis=0)) < 0:
            c[1], c[2] = c[2], c[1]
        out.append(c)
    return np.array(out)


def refine(t, v):
    """split every triangle in four"""
    mid = {}
    v = [list(p) for p in v]

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            mid[k] = len(v)
            v.append(list((np.array(v[a]) + np.array(v[b])) / 2))
        return mid[k]
    out = []
    for a, b, c in t:
        ab, bc, ca = m(a, b), m(b, c), m(c, a)
        out += [(ab, bc, ca), (a, ab, ca), (b, bc, ab), (c, ca, bc)]
    return np.array(out), np.array(v)


def tetrahedron():
    v = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) / math.sqrt(3)
    return outward(np.array(list(itertools.combinations(range(4), 3))), v), v


def octahedron():
    v = np.concatenate([np.eye(3), -np.eye(3)])
    t = [[0 + 3 * a, 1 + 3 * b, 2 + 3 * c] for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    return outward(np.array(t), v), v


def torus(a, b):
    """a x b quads, each in two triangles"""
    v = []
    for i in range(a):
        for j in range(b):
            u, w = 2 * math.pi * i / a, 2 * math.pi * j / b
            v.append([(2 + math.cos(w)) * math.cos(u), (2 + math.cos(w)) * math.sin(u), math.sin(w)])
    idx = lambda i, j: (i % a) * b + j % b
    t = []
    for i in range(a):
        for j in range(b):
            t.append((idx(i, j), idx(i + 1, j), idx(i + 1, j + 1)))
            t.append((idx(i, j), idx(i + 1, j + 1), idx(i, j + 1)))
    return np.array(t), np.array(v)


@gen.dressed
def build_surface(r):
    """r: kind 'ico' | 'octa' | 'tetra' | 'torus' | 'sheet', level, amp, seed, rm, turn, labels, order, inner; oriented outward"""
    g = rng(r['seed'])
    k = r['kind']
    if k == 'torus':
        t, v = torus(3 + r['level'], 3)
        v = v + g.uniform(-1, 1, size=v.shape) * .3 * r['amp'] / 16.
    elif k == 'sheet':
        t, v = lattice(1 + r['level'], 2)
        v = np.concatenate([v, np.zeros((len(v), 1))], axis=1)
        v[:, :2] += g.uniform(-1, 1, size=(len(v), 2)) * .12 * r['amp'] / 16.
        v[:, 2] = g.uniform(-1, 1, size=len(v)) * .3 * r['amp'] / 16.
    else:
        t, v = {'ico': icosahedron, 'octa': octahedron, 'tetra': tetrahedron}[k]()
        for _ in range(min(r['level'], 1 if k == 'ico' else 2)):
            t, v = refine(t, v)
            v = v / np.linalg.norm(v, axis=1, keepdims=True)
        v = v * (1 + g.uniform(-1, 1, size=(len(v), 1)) * .3 * r['amp'] / 16.) + g.uniform(-1, 1, size=v.shape) * .05 * r['amp'] / 16.
        v = v * np.array(r.get('aniso', [1, 1, 1]))
    t = remove(t, r.get('rm', []))
    t, v = compact(t, v)
    v = v.dot(rotation(r.get('turn', 0), 3)) * r.get('scale', 1) + np.array(r.get('shift', [0, 0, 0])) * unit(r)
    t, v = relabel(t, v, r.get('labels', ''), r.get('order', ''))
    return rotate_corners(t, r.get('inner', '')), v


def surface(kinds=('ico', 'octa', 'tetra', 'torus', 'sheet'), max_rm=3, max_level=2, aniso=True):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(list(kinds)), 'level': st.integers(0, max_level), 'amp': st.integers(0, 16), 'seed': seeds,
        'rm': st.lists(st.integers(0, 60), max_size=max_rm), 'turn': st.one_of(st.just(0), seeds),
        'aniso': st.lists(st.sampled_from([1, .5, 2]), min_size=3, max_size=3) if aniso else st.just([1, 1, 1]),
        'scale': st.sampled_from([1, .5, 3, .01, 100, 1e-7, 1e6]),
        'shift': st.lists(st.integers(-3, 3), min_size=3, max_size=3), 'labels': gen.noise(24), 'order': gen.noise(24), 'inner': gen.noise(24)})


# -- n-dimensional simplicial complexes in n-space --------------------------------------------------------------------

@gen.dressed
def build_solid(r):
    """r: d, kind 'kuhn' | 'simplex' | 'cross' | 'delaunay', n, amp, seed, ...; positive orientation"""
    d = r['d']
    g = rng(r['seed'])
    k = r['kind']
    if d == 1 and k == 'delaunay':
        k = 'kuhn'
    if k == 'kuhn':
        c, x = gen.kuhn((r['n'] * d)[:d])
        c, x = np.array(c), np.array(x, dtype=float)
        # the sheared lattice of near-regular simplices
        if r.get('shear'):
            A = np.eye(d) - np.ones((d, d)) / d * (1 - 1 / math.sqrt(d + 1))
            x = x.dot(A)
        x = x + g.uniform(-1, 1, size=x.shape) * .1 * r['amp'] / 16.
    elif k == 'cross':
        c, x = gen.cross_polytope(d - 1)
        c = np.array(c)
        x = np.array(x, dtype=float)
        c = np.concatenate([c, np.full((len(c), 1), len(x))], axis=1)
        x = np.concatenate([x, np.zeros((1, d))])
        x = x + g.uniform(-1, 1, size=x.shape) * .15 * r['amp'] / 16.
    elif k == 'simplex':
        c = np.arange(d + 1)[None]
        x = np.concatenate([np.zeros((1, d)), np.eye(d)])
        if r.get('shear'):
            t = (1 + math.sqrt(d + 1)) / d
            x[0] = (1 - math.sqrt(d + 1)) / d
        x = x + g.uniform(-1, 1, size=x.shape) * .25 * r['amp'] / 16.
    else:
        import scipy.spatial
        n = d + 1 + r['n'][0] * 2
        x = g.uniform(-1, 1, size=(n, d))
        c = np.array(scipy.spatial.Delaunay(x).simplices, dtype=np.int64)
        for _ in range(30):
            q = min_quality(c, x)
            for i in [i for i in np.argsort(q) if q[i] < .004]:
                rest = np.delete(c, i, axis=0)
                if len(rest) and is_manifold(rest):
                    c = rest
                    break
            else:
                break
    c = remove(c, r.get('rm', []))
    c, x = compact(c, x)
    c = orient_by_volume(c, x)
    x = x.dot(rotation(r.get('turn', 0), d)) * r.get('scale', 1) + np.array((r.get('shift', [0, 0, 0, 0]) * d)[:d]) * unit(r)
    c, x = relabel(c, x, r.get('labels', ''), r.get('order', ''))
    return rotate_corners(c, r.get('inner', '')), x


def solid(dims=(1, 2, 3), kinds=('kuhn', 'simplex', 'cross', 'delaunay'), top=2, max_rm=3):
    return st.fixed_dictionaries({
        'd': st.sampled_from(list(dims)), 'kind': st.sampled_from(list(kinds)), 'n': st.lists(st.integers(1, top), min_size=3, max_size=3),
        'shear': st.booleans(), 'amp': st.integers(0, 16), 'seed': seeds, 'rm': st.lists(st.integers(0, 60), max_size=max_rm),
        'turn': st.one_of(st.just(0), seeds), 'scale': st.sampled_from([1, .5, 3, .01, 100, 1e-7, 1e6]),
        'shift': st.lists(st.integers(-3, 3), min_size=4, max_size=4), 'labels': gen.noise(24), 'order': gen.noise(24), 'inner': gen.noise(24)})


# -- spheres -----------------------------------------------------------------------------------------------------------

@gen.dressed
def build_sphere(r):
    """triangulated unit sphere; r: kind 'ico' | 'octa' | 'hull', level, amp, seed, rm..."""
    g = rng(r['seed'])
    if r['kind'] == 'hull':
        import scipy.spatial
        v = g.normal(size=(5 + 4 * r['level'] + r['amp'] // 2, 3))
        v = np.concatenate([v, octahedron()[1] + g.uniform(-1, 1, size=(6, 3)) * .3])
        v = v / np.linalg.norm(v, axis=1, keepdims=True)
        t = np.array(scipy.spatial.ConvexHull(v).simplices, dtype=np.int64)
        t, v = compact(t, v)
    else:
        t, v = {'ico': icosahedron, 'octa': octahedron}[r['kind']]()
        for _ in range(min(r['level'], 1 if r['kind'] == 'ico' else 2)):
            t, v = refine(t, v)
            v = v / np.linalg.norm(v, axis=1, keepdims=True)
        h = {'ico': .12, 'octa': .0}[r['kind']] / (1 + r['level'])
        v = v + g.uniform(-1, 1, size=v.shape) * h * r['amp'] / 16.
        v = v / np.linalg.norm(v, axis=1, keepdims=True)
    t = outward(t, v)
    t = remove(t, r.get('rm', []))
    t, v = compact(t, v)
    v = v.dot(rotation(r.get('turn', 0), 3))
    t, v = relabel(t, v, r.get('labels', ''), r.get('order', ''))
    return rotate_corners(t, r.get('inner', '')), v


def sphere(kinds=('ico', 'octa', 'hull'), max_rm=0, max_level=2):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(list(kinds)), 'level': st.integers(0, max_level), 'amp': st.integers(0, 16), 'seed': seeds,
        'rm': st.lists(st.integers(0, 60), max_size=max_rm), 'turn': st.one_of(st.just(0), seeds),
        'labels': gen.noise(24), 'order': gen.noise(24), 'inner': gen.noise(24)})


# -- oracles -------------------------------------------------------------------------------------------------------------

def signed_volume(p):
    """of a d-simplex in d-space"""
    p = np.asarray(p, dtype=float)
    return np.linalg.det(p[1:] - p[0]) / math.factorial(len(p) - 1)


def volume(p):
    """unsigned volume of a k-simplex in any space"""
    p = np.asarray(p, dtype=float)
    if len(p) == 1:
        return 1.
    e = p[1:] - p[0]
    return math.sqrt(max(0., np.linalg.det(e.dot(e.T)))) / math.factorial(len(p) - 1)


def power_center(p, w=None):
    """the point of the affine span of the corners with equal power distance |c - p_i|^2 - w_i ... to all corners, where the sign of
    the weights is such that a corner of higher weight repels the center"""
    p = np.asarray(p, dtype=float)
    if len(p) == 1:
        return p[0]
    w = np.zeros(len(p)) if w is None else np.asarray(w, dtype=float)
    e = p[1:] - p[0]
    rhs = ((e * e).sum(axis=1) - (w[1:] - w[0])) / 2
    y = np.linalg.solve(e.dot(e.T), rhs)
    return p[0] + y.dot(e)


def flag_metrics(cells, x, w=None):
    """Signed circumcentric metrics of a simplicial complex by summation over flags.
    returns (P, D, margin): dicts keyed by sorted vertex tuple of the k-face: primal volume and dual volume, and the smallest relative
    height among all flags (how far the complex is from not being well-centered)"""
    d = len(cells[0]) - 1
    P, D = {}, {}
    margin = {}
    for c in cells:
        c = [int(v) for v in c]
        for perm in itertools.permutations(c):
            # flag: perm[0], perm[:2], ...
            cc = [power_center(x[list(sorted(perm[:k + 1]))], None if w is None else w[list(sorted(perm[:k + 1]))]) for k in range(d + 1)]
            h = []
            for k in range(d):
                f, opp = list(perm[:k + 1]), perm[k + 1]
                # unit direction from the span of f towards the opposite corner
                n = x[opp] - x[f[0]]
                if k:
                    B = (x[f[1:]] - x[f[0]]).T
                    q, _ = np.linalg.qr(B)
                    n = n - q.dot(q.T.dot(n))
                n = n / np.linalg.norm(n)
                h.append(float(np.dot(cc[k + 1] - cc[k], n)))
            for k in range(d + 1):
                key = tuple(sorted(perm[:k + 1]))
                # primal volume of the k-face: sum over flags below, counted for one completion
                up = np.prod(h[k:]) / math.factorial(d - k) if k < d else 1.
                # each completion above appears once per ordering below
                D[key] = D.get(key, 0.) + up / math.factorial(k + 1)
                margin.setdefault(k, []).append(min(h[k:]) if k < d else 0)
    for k in range(d + 1):
        for c in cells:
            for f in itertools.combinations(sorted(int(v) for v in c), k + 1):
                P[f] = volume(x[list(f)])
    return P, D


def well_centered(cells, x, w=None, tol=1e-3):
    """are the centers of all faces of all cells inside"""
    for c in cells:
        c = [int(v) for v in c]
        for k in range(2, len(c) + 1):
            for f in itertools.combinations(c, k):
                p = x[list(f)]
                q = power_center(p, None if w is None else w[list(f)])
                e = p[1:] - p[0]
                b = np.linalg.solve(e.dot(e.T), e.dot(q - p[0]))
                b = np.concatenate([[1 - b.sum()], b])
                if (b < tol).any():
                    return False
    return True


def barycentric(c, p):
    """barycentric coordinates of point c in the affine hull of the rows of p"""
    e = (p[1:] - p[0]).T
    b = np.linalg.lstsq(e, c - p[0], rcond=None)[0]
    return np.concatenate([[1 - b.sum()], b])
