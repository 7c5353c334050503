"""Generators: hypothesis strategies for JSON recipes, and the deterministic builders that turn a recipe into
cell arrays and coordinates.  Nothing in here uses code from /repo."""
import functools
import itertools
import math
import zlib

import numpy as np
from hypothesis import strategies as st


# -- drawn bytes as a stream of small numbers ----------------------------------------------------------------

class Noise(object):
    """Deterministic stream of integers in [-128, 127] derived from drawn bytes; empty or zero bytes give zeros"""
    def __init__(self, hexbytes):
        b = np.frombuffer(bytes.fromhex(hexbytes), dtype=np.uint8).astype(np.int64)
        self.b = b
        self.k = 0

    def ints(self, n):
        if len(self.b) == 0 or not self.b.any():
            return np.zeros(n, dtype=np.int64)
        k = np.arange(self.k, self.k + n)
        self.k += n
        L = len(self.b)
        r = k // L
        v = self.b[k % L]
        # beyond the drawn bytes: mix neighbouring bytes with the round number
        w = self.b[(k * 7 + 3 * r + 1) % L]
        u = np.where(r == 0, v, (v * (2 * r + 1) + w * (3 * r + 1) + 29 * r * (1 + v % 5)) % 256)
        return (u + 128) % 256 - 128

    def floats(self, *shape):
        """in [-1, 1)"""
        return self.ints(int(np.prod(shape))).reshape(shape) / 128.

    def perm(self, n):
        return np.argsort(self.ints(n), kind='stable')

    def bits(self, n):
        return (self.ints(n) & 1).astype(bool)


def noise(max_size=48):
    return st.binary(min_size=0, max_size=max_size).map(lambda b: b.hex())


def rich(n=32):
    return st.binary(min_size=n, max_size=n).map(lambda b: b.hex())


# -- the same array in another dress ------------------------------------------------------------------------------

def dress(a, integer=False, unsigned=False):
    """The same values in another memory layout, integer type, or write-protected; which one follows from the values"""
    a = np.asarray(a)
    k = zlib.crc32(np.ascontiguousarray(a).tobytes() + repr(a.shape).encode())
    t, k = k % 4, k // 4
    if a.dtype.kind == 'i':
        top = np.abs(a).max() if a.size else 0
        small = np.int16 if top < 2 ** 7 else np.int32      # leaves room for products of values
        a = a.astype([np.int64, np.int32, small, np.uint32 if unsigned else np.int64][t])
    elif integer and t == 0 and (a == np.round(a)).all() and np.abs(a).max() < 2 ** 20:
        a = a.astype(int)
    t, k = k % 8, k // 8
    if t == 1:
        a = np.asfortranarray(a)
    elif t == 2:
        b = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[...] = 77
        b[..., ::2] = a
        a = b[..., ::2]
    elif t == 3:
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif t == 4:
        a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    elif t == 5:
        a = np.repeat(a, 2, axis=0)[::2]
    if k % 3 == 0:
        a = a.view()
        a.setflags(write=False)
    return a


def dressed(build):
    """Decorator of builders that return (cells, positions) or a dict with cells and coords or x"""
    @functools.wraps(build)
    def wrapper(*args, **kwargs):
        b = build(*args, **kwargs)
        if isinstance(b, dict):
            b = dict(b)
            for q in ('cells', 'coords', 'x'):
                if b.get(q) is not None:
                    b[q] = dress(b[q], integer=q != 'cells', unsigned=q == 'cells')
            return b
        return (dress(b[0], unsigned=True), dress(b[1], integer=True)) + tuple(b[2:])
    wrapper.plain = build
    return wrapper


# -- permutations and orientation ------------------------------------------------------------------------------

def parity(p):
    """Parity of a permutation given as sequence, by counting inversions"""
    p = list(p)
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2


def relative_parity(a, b):
    """parity of the permutation taking tuple b to tuple a; both hold the same distinct entries"""
    pos = {v: i for i, v in enumerate(b)}
    return parity([pos[v] for v in a])


def simplex_facets(c):
    """Signed facets of an oriented simplex: [(sign, tuple)]"""
    return [((-1) ** i, c[:i] + c[i + 1:]) for i in range(len(c))]


def facet_table(cells):
    """sorted facet -> list of (cell index, induced sign relative to the sorted facet)"""
    t = {}
    for i, c in enumerate(cells):
        c = tuple(int(v) for v in c)
        for s, f in simplex_facets(c):
            g = tuple(sorted(f))
            p = relative_parity(f, g)
            t.setdefault(g, []).append((i, s * (-1) ** p))
    return t


def orient_cells(n_cells, table):
    """Try to orient: returns (sign per cell, component label per cell, orientable flag per component);
    table: facet -> [(cell, sign)]"""
    adj = [[] for _ in range(n_cells)]
    for f, l in table.items():
        if len(l) == 2:
            (i, s), (j, t) = l
            # consistent iff sign_i * s == - sign_j * t
            adj[i].append((j, -s * t))
            adj[j].append((i, -s * t))
    sign = [0] * n_cells
    comp = [-1] * n_cells
    ok = []
    for r in range(n_cells):
        if sign[r]:
            continue
        c = len(ok)
        ok.append(True)
        sign[r] = 1
        comp[r] = c
        todo = [r]
        while todo:
            i = todo.pop()
            for j, q in adj[i]:
                if not sign[j]:
                    sign[j] = sign[i] * q
                    comp[j] = c
                    todo.append(j)
                elif sign[j] != sign[i] * q:
                    ok[c] = False
    return sign, comp, ok


# -- simplicial bases ------------------------------------------------------------------------------------------

def kuhn(shape, periodic=None, twist=False):
    """Freudenthal triangulation of a box grid; returns cells (list of tuples) and coords (or None if glued)"""
    d = len(shape)
    periodic = periodic or [False] * d
    idx = {}

    def vid(p):
        p = list(p)
        for a in range(d):
            if periodic[a] and p[a] == shape[a]:
                p[a] = 0
                if twist and a == 0 and d > 1:
                    p[1] = (shape[1] - p[1])
                    if periodic[1]:
                        p[1] %= shape[1]
        p = tuple(p)
        return idx.setdefault(p, len(idx))

    cells = []
    for o in itertools.product(*[range(s) for s in shape]):
        for perm in itertools.permutations(range(d)):
            p = list(o)
            c = [vid(p)]
            for a in perm:
                p[a] += 1
                c.append(vid(p))
            cells.append(tuple(c))
    coords = None
    if not any(periodic):
        coords = np.array([p for p, i in sorted(idx.items(), key=lambda q: q[1])], dtype=float)
    return cells, coords


def cross_polytope(d):
    """Boundary of the (d+1)-cross polytope; a d-sphere with unit vertices"""
    cells = []
    for s in itertools.product([0, 1], repeat=d + 1):
        cells.append(tuple(2 * a + b for a, b in enumerate(s)))
    coords = np.zeros((2 * (d + 1), d + 1))
    for a in range(d + 1):
        coords[2 * a, a] = 1
        coords[2 * a + 1, a] = -1
    return cells, coords


def simplex_boundary(d):
    """Boundary of the (d+1)-simplex; a d-sphere, on the unit sphere in R^(d+1)"""
    cells = [tuple(v for v in range(d + 2) if v != i) for i in range(d + 2)]
    e = np.eye(d + 2) - 1. / (d + 2)
    u, s, vt = np.linalg.svd(e)
    coords = e.dot(vt[:d + 1].T)
    coords /= np.linalg.norm(coords, axis=1)[:, None]
    return cells, coords


RP2 = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 5, 1), (1, 2, 4), (2, 3, 5), (3, 4, 1), (4, 5, 2), (5, 1, 3)]


def stacked(d, picks):
    """Grow a stacked ball: glue a new simplex with a fresh vertex onto a boundary facet, again and again"""
    cells = [tuple(range(d + 1))]
    coords = [np.zeros(d)] + [np.eye(d)[i] for i in range(d)]
    for p in picks:
        t = {}
        for i, c in enumerate(cells):
            for v in c:
                f = tuple(sorted(set(c) - {v}))
                t.setdefault(f, []).append((i, v))
        facets = sorted(f for f, l in t.items() if len(l) == 1)
        f = facets[p % len(facets)]
        (i, v), = t[f]
        pts = np.array([coords[q] for q in f])
        new = 2 * pts.mean(axis=0) - coords[v]
        cells.append(tuple(f) + (len(coords),))
        coords.append(new)
    return cells, np.array(coords)


def fan(n, closed):
    """n triangles around a central vertex"""
    m = n if closed else n + 1
    cells = [(0, 1 + i, 1 + (i + 1) % m) for i in range(n)]
    a = np.arange(m) * (2 * np.pi / n) * (1 if closed else .8)
    coords = np.concatenate([[[0, 0]], np.array([np.cos(a), np.sin(a)]).T])
    return cells, coords


def base_cells(b):
    k = b[0]
    if k == 'kuhn':
        return kuhn(b[1], b[2] if len(b) > 2 else None, b[3] if len(b) > 3 else False)
    if k == 'cross':
        return cross_polytope(b[1])
    if k == 'dsimplex':
        return simplex_boundary(b[1])
    if k == 'rp2':
        return list(RP2), None
    if k == 'stacked':
        return stacked(b[1], b[2])
    if k == 'fan':
        return fan(b[1], b[2])
    raise ValueError(k)


def compact(cells, coords=None):
    used = sorted({v for c in cells for v in c})
    m = {v: i for i, v in enumerate(used)}
    cells = [tuple(m[v] for v in c) for c in cells]
    if coords is not None:
        coords = np.asarray(coords)[used]
    return cells, coords


def apply_op(cells, coords, op):
    d = len(cells[0]) - 1
    if op[0] == 'st':       # stellar subdivision of the face picked by (k, i)
        k = 1 + op[1] % d if d > 0 else 0
        faces = sorted({f for c in cells for f in itertools.combinations(sorted(c), k + 1)})
        f = set(faces[op[2] % len(faces)])
        n = 1 + max(v for c in cells for v in c)
        out = []
        for c in cells:
            if f <= set(c):
                for v in sorted(f):
                    out.append(tuple(n if q == v else q for q in c))
            else:
                out.append(c)
        if coords is not None:
            coords = np.concatenate([coords, np.asarray(coords)[sorted(f)].mean(axis=0)[None]])
        return out, coords
    if op[0] == 'rm':       # remove a cell, keeping at least one
        if len(cells) > 1:
            i = op[1] % len(cells)
            cells = cells[:i] + cells[i + 1:]
        return compact(cells, coords)
    if op[0] == 'union':    # disjoint union with another base of the same dimension
        c2, x2 = base_cells(op[1])
        n = 1 + max(v for c in cells for v in c)
        cells = cells + [tuple(v + n for v in c) for c in c2]
        if coords is not None and x2 is not None and x2.shape[1] == coords.shape[1]:
            shift = np.zeros(coords.shape[1])
            shift[0] = coords[:, 0].max() - x2[:, 0].min() + 1.5
            coords = np.concatenate([coords, x2 + shift])
        else:
            coords = None
        return cells, coords
    if op[0] == 'wedge' and d == 1:
        return cells, coords
    if op[0] == 'wedge':    # glue another base on at a single vertex (non-manifold for d > 1)
        c2, x2 = base_cells(op[1])
        n = 1 + max(v for c in cells for v in c)
        a = op[2] % n
        b = op[3] % (1 + max(v for c in c2 for v in c))
        m = {}
        nxt = n
        for v in sorted({v for c in c2 for v in c}):
            if v == b:
                m[v] = a
            else:
                m[v] = nxt
                nxt += 1
        return cells + [tuple(m[v] for v in c) for c in c2], None
    if op[0] == 'pinch':    # identify two vertices that share no cell and no common neighbour simplex
        n = 1 + max(v for c in cells for v in c)
        a, b = op[1] % n, op[2] % n
        if a != b:
            new = [tuple(a if v == b else v for v in c) for c in cells]
            if all(len(set(c)) == len(c) for c in new) and len({tuple(sorted(c)) for c in new}) == len(new):
                la = {tuple(sorted(c)) for c in cells if a in c}
                t = {}
                for c in new:
                    for v in c:
                        f = tuple(sorted(set(c) - {v}))
                        t[f] = t.get(f, 0) + 1
                if max(t.values()) <= 2:
                    return compact(new, None)
        return cells, coords
    raise ValueError(op)


@dressed
def build_simplicial(r):
    """Recipe -> dict(cells=[n, d+1] array, coords or None, sign: consistent orientation or None, ...)

    r: {'base': .., 'ops': [..], 'order': hex, 'labels': hex, 'inner': hex, 'orient': 'keep'|'random'}
    Cells come out consistently oriented if possible, unless orient == 'random'.
    """
    cells, coords = base_cells(r['base'])
    for op in r.get('ops', []):
        cells, coords = apply_op(cells, coords, op)
    cells, coords = compact(cells, coords)
    table = facet_table(cells)
    sign, comp, ok = orient_cells(len(cells), table)
    cells = [list(c) for c in cells]
    d = len(cells[0]) - 1
    if all(ok) and d >= 1:
        for i, s in enumerate(sign):
            if s < 0:
                cells[i][0], cells[i][1] = cells[i][1], cells[i][0]
    if coords is not None and all(ok) and coords.shape[1] == d and d >= 1:
        # prefer positive orientation where there are full-dimensional coordinates
        for c in range(len(ok)):
            ids = [i for i in range(len(cells)) if comp[i] == c]
            x = coords[cells[ids[0]]]
            if np.linalg.det(x[1:] - x[0]) < 0:
                for i in ids:
                    cells[i][0], cells[i][1] = cells[i][1], cells[i][0]
    n = 1 + max(v for c in cells for v in c)
    cells = np.array(cells, dtype=np.int64)
    # relabel vertices
    p = Noise(r.get('labels', '')).perm(n)          # new label of old vertex p[k] is k
    inv = np.empty(n, dtype=np.int64)
    inv[p] = np.arange(n)
    cells = inv[cells]
    if coords is not None:
        coords = coords[p]
    # permute within cells: even permutations only, unless orientation is to be randomised
    inner = Noise(r.get('inner', ''))
    perms = [q for q in itertools.permutations(range(d + 1))]
    even = [q for q in perms if parity(q) == 0]
    rnd = r.get('orient') == 'random'
    pool = perms if rnd else even
    k = inner.ints(len(cells)) % len(pool)
    cells = np.array([[c[j] for j in pool[q]] for c, q in zip(cells, k)], dtype=np.int64)
    # reorder cells
    order = Noise(r.get('order', '')).perm(len(cells))
    cells = cells[order]
    comp = np.array(comp)[order]
    return {'cells': cells, 'coords': coords, 'n_vertices': n, 'd': d, 'orientable': ok, 'component': comp}


# -- strategies for simplicial recipes ---------------------------------------------------------------------------

def _kuhn_base(d, top):
    return st.tuples(st.just('kuhn'), st.lists(st.integers(1, top), min_size=d, max_size=d)).map(list)


def _periodic_kuhn(d):
    lo = 3
    def mk(args):
        shape, per, twist = args
        shape = [max(s, lo) if p else s for s, p in zip(shape, per)]
        if twist:
            shape[0] = max(shape[0], 4)
            per[0] = True
            if d > 1:
                shape[1] = max(shape[1], 4) if per[1] else shape[1]
        return ['kuhn', shape, per, twist]
    top = {1: 8, 2: 5, 3: 3, 4: 3}[d]
    return st.tuples(st.lists(st.integers(1, top), min_size=d, max_size=d),
                     st.lists(st.booleans(), min_size=d, max_size=d),
                     st.booleans() if d == 2 else st.just(False)).map(mk)


def bases(d, kinds=None, top=None):
    top = top or {1: 8, 2: 4, 3: 2, 4: 1, 5: 1, 6: 1}[d]
    all_kinds = {
        'kuhn': _kuhn_base(d, top),
        'cross': st.just(['cross', d]),
        'dsimplex': st.just(['dsimplex', d]),
        'stacked': st.lists(st.integers(0, 50), max_size=8).map(lambda l: ['stacked', d, l]),
    }
    if d > 4:
        del all_kinds['kuhn']
    if d > 5:
        del all_kinds['cross']
    if d <= 3:
        all_kinds['torus'] = _periodic_kuhn(d)
    if d == 2:
        all_kinds['rp2'] = st.just(['rp2'])
        all_kinds['fan'] = st.tuples(st.integers(3, 9), st.booleans()).map(lambda a: ['fan', a[0], a[1]])
    kinds = kinds or sorted(all_kinds)
    return st.one_of([all_kinds[k] for k in kinds if k in all_kinds])


def simplicial(dims=(1, 2, 3), kinds=None, ops=('st', 'rm'), max_ops=4, orient=('keep',), top=None, d=None):
    """Strategy for a simplicial recipe"""
    @st.composite
    def s(draw):
        dim = d or draw(st.sampled_from(list(dims)))
        base = draw(bases(dim, kinds, top))
        pool = []
        if 'st' in ops and dim >= 1:
            pool.append(st.tuples(st.just('st'), st.integers(0, 5), st.integers(0, 99)).map(list))
        if 'rm' in ops:
            pool.append(st.tuples(st.just('rm'), st.integers(0, 99)).map(list))
        if 'union' in ops:
            pool.append(st.tuples(st.just('union'), bases(dim, kinds, 2 if dim < 3 else 1)).map(list))
        if 'wedge' in ops:
            pool.append(st.tuples(st.just('wedge'), bases(dim, kinds, 2 if dim < 3 else 1), st.integers(0, 30), st.integers(0, 30)).map(list))
        if 'pinch' in ops:
            pool.append(st.tuples(st.just('pinch'), st.integers(0, 40), st.integers(0, 40)).map(list))
        o = draw(st.lists(st.one_of(pool), max_size=max_ops)) if pool else []
        return {'base': base, 'ops': o, 'order': draw(noise(24)), 'labels': draw(noise(24)),
                'inner': draw(noise(24)), 'orient': draw(st.sampled_from(list(orient)))}
    return s()


# -- cubical ----------------------------------------------------------------------------------------------------

def cube_grid(shape, periodic=None, twist=False):
    d = len(shape)
    periodic = periodic or [False] * d
    idx = {}

    def vid(p):
        p = list(p)
        for a in range(d):
            if periodic[a] and p[a] == shape[a]:
                p[a] = 0
                if twist and a == 0 and d > 1:
                    p[1] = shape[1] - p[1]
                    if periodic[1]:
                        p[1] %= shape[1]
        return idx.setdefault(tuple(p), len(idx))

    cubes = []
    for o in itertools.product(*[range(s) for s in shape]):
        c = np.zeros((2,) * d, dtype=np.int64)
        for q in itertools.product([0, 1], repeat=d):
            c[q] = vid(np.add(o, q))
        cubes.append(c)
    coords = None
    if not any(periodic):
        coords = np.array([p for p, i in sorted(idx.items(), key=lambda q: q[1])], dtype=float)
    return np.array(cubes), coords


def hypercube_surface(d, n):
    """Boundary of an n^(d+1) grid of (d+1)-cubes, as d-cubes"""
    D = d + 1
    idx = {}
    cubes = []
    for a in range(D):
        for side in (0, n):
            other = [i for i in range(D) if i != a]
            for o in itertools.product(range(n), repeat=d):
                c = np.zeros((2,) * d, dtype=np.int64)
                for q in itertools.product([0, 1], repeat=d):
                    p = [0] * D
                    p[a] = side
                    for i, oo, qq in zip(other, o, q):
                        p[i] = oo + qq
                    c[q] = idx.setdefault(tuple(p), len(idx))
                cubes.append(c)
    coords = np.array([p for p, i in sorted(idx.items(), key=lambda q: q[1])], dtype=float)
    return np.array(cubes), coords


def simplices_to_cubes(cells, coords):
    """Split each d-simplex into d+1 cubes; vertices are the barycentres of all faces"""
    cells = [tuple(sorted(c)) for c in cells]
    d = len(cells[0]) - 1
    idx = {}
    X = []

    def vid(f):
        f = tuple(sorted(f))
        if f not in idx:
            idx[f] = len(idx)
            if coords is not None:
                X.append(np.asarray(coords)[list(f)].mean(axis=0))
        return idx[f]
    cubes = []
    for c in cells:
        for v in c:
            o = [w for w in c if w != v]
            q = np.zeros((2,) * d, dtype=np.int64)
            for b in itertools.product([0, 1], repeat=d):
                q[b] = vid((v,) + tuple(w for w, s in zip(o, b) if s))
            cubes.append(q)
    return np.array(cubes), (np.array(X) if coords is not None else None)


def cube_facets(c):
    """Signed facets of an oriented cube array: [(sign, array)]"""
    out = []
    for a in range(c.ndim):
        for s in (0, 1):
            out.append(((-1) ** (a + s), np.take(c, s, axis=a)))
    return out


def cube_relative_parity(a, b):
    """Parity of the hyperoctahedral transformation taking cube array b to cube array a (same vertex set).
    Returns None if they are not related by a symmetry of the cube."""
    n = b.ndim
    if n == 0:
        return 0 if int(a) == int(b) else None
    pos = {int(a[q]): q for q in itertools.product([0, 1], repeat=n)}
    origin = np.array(pos.get(int(b[(0,) * n]), (9,) * n))
    if origin.max() > 1:
        return None
    axes = []
    for i in range(n):
        e = [0] * n
        e[i] = 1
        q = pos.get(int(b[tuple(e)]))
        if q is None:
            return None
        diff = np.array(q) - origin
        nz = np.flatnonzero(diff)
        if len(nz) != 1:
            return None
        axes.append(int(nz[0]))
    if sorted(axes) != list(range(n)):
        return None
    for q in itertools.product([0, 1], repeat=n):
        r = origin.copy()
        for i in range(n):
            if q[i]:
                r[axes[i]] ^= 1
        if int(a[tuple(r)]) != int(b[q]):
            return None
    return (parity(axes) + int(origin.sum())) % 2


def cube_facet_table(cubes):
    t = {}
    ref = {}
    for i, c in enumerate(cubes):
        for s, f in cube_facets(c):
            g = tuple(sorted(int(v) for v in f.flatten()))
            if g not in ref:
                ref[g] = f
            p = cube_relative_parity(f, ref[g])
            t.setdefault(g, []).append((i, s * (-1) ** p))
    return t


@functools.lru_cache(maxsize=None)
def hyperoctahedral(d):
    out = []
    for perm in itertools.permutations(range(d)):
        for flips in itertools.product([0, 1], repeat=d):
            out.append((perm, flips, (parity(perm) + sum(flips)) % 2))
    return out


def act(c, g):
    perm, flips, _ = g
    c = np.transpose(c, perm)
    for a, f in enumerate(flips):
        if f:
            c = np.flip(c, axis=a)
    return c


@dressed
def build_cubical(r):
    """r: {'base': ['grid', shape, periodic, twist] | ['surf', d, n] | ['simp', simplicial recipe], 'rm': [..],
    'order', 'labels', 'inner', 'orient'}"""
    b = r['base']
    if b[0] == 'grid':
        cubes, coords = cube_grid(b[1], b[2] if len(b) > 2 else None, b[3] if len(b) > 3 else False)
    elif b[0] == 'surf':
        cubes, coords = hypercube_surface(b[1], b[2])
    elif b[0] == 'simp':
        s = build_simplicial(b[1])
        cubes, coords = simplices_to_cubes(s['cells'], s['coords'])
    d = cubes.ndim - 1
    cubes = list(cubes)
    for i in r.get('rm', []):
        if len(cubes) > 1:
            del cubes[i % len(cubes)]
    cubes = np.array(cubes)
    used, inv = np.unique(cubes.flatten(), return_inverse=True)
    cubes = inv.reshape(cubes.shape)
    if coords is not None:
        coords = coords[used]
    n = len(used)
    sign, comp, ok = orient_cells(len(cubes), cube_facet_table(cubes)) if d >= 1 else ([1] * len(cubes), list(range(len(cubes))), [True])
    sign = np.array(sign)
    if coords is not None and coords.shape[1] == d and all(ok):
        c0 = cubes[0]
        e = [tuple(int(i == j) for j in range(d)) for i in range(d)]
        for k in range(len(ok)):
            i = int(np.flatnonzero(np.array(comp) == k)[0])
            c0 = cubes[i]
            m = np.array([coords[c0[q]] - coords[c0[(0,) * d]] for q in e])
            if np.linalg.det(m) * sign[i] < 0:
                sign[np.array(comp) == k] *= -1
    if all(ok) and d >= 1:
        cubes = np.array([np.flip(c, axis=-1) if s < 0 else c for c, s in zip(cubes, sign)])
    p = Noise(r.get('labels', '')).perm(n)
    inv = np.empty(n, dtype=np.int64)
    inv[p] = np.arange(n)
    cubes = inv[cubes]
    if coords is not None:
        coords = coords[p]
    group = hyperoctahedral(d)
    even = [g for g in group if g[2] == 0]
    pool = group if r.get('orient') == 'random' else even
    k = Noise(r.get('inner', '')).ints(len(cubes)) % len(pool)
    cubes = np.array([act(c, pool[q]) for c, q in zip(cubes, k)])
    order = Noise(r.get('order', '')).perm(len(cubes))
    return {'cells': cubes[order], 'coords': coords, 'n_vertices': n, 'd': d, 'orientable': ok,
            'component': np.array(comp)[order]}


def cubical(dims=(1, 2, 3), kinds=('grid', 'periodic', 'surf', 'simp'), orient=('keep',), max_rm=3, top=None, inner=True):
    @st.composite
    def s(draw):
        d = draw(st.sampled_from(list(dims)))
        t = top or {1: 8, 2: 4, 3: 2, 4: 2, 5: 1, 6: 1}[d]
        kk = [k for k in kinds if not (k == 'simp' and d not in (2, 3)) and not (k == 'surf' and d > 5)
              and not (k == 'periodic' and d > 3)]
        k = draw(st.sampled_from(kk))
        if k == 'grid':
            shape = draw(st.lists(st.integers(1, t), min_size=d, max_size=d))
            if d == 5:
                shape[draw(st.integers(0, 4))] = draw(st.integers(1, 2))
            base = ['grid', shape]
        elif k == 'periodic':
            per = draw(st.lists(st.booleans(), min_size=d, max_size=d))
            shape = draw(st.lists(st.integers(1, t), min_size=d, max_size=d))
            twist = draw(st.booleans()) if d == 2 else False
            if twist:
                per[0] = True
            shape = [max(q, 3 if d < 3 else 3) if p else q for q, p in zip(shape, per)]
            base = ['grid', shape, per, twist]
        elif k == 'surf':
            base = ['surf', d, draw(st.integers(1, 2 if d < 3 else 1))]
        else:
            base = ['simp', {'base': draw(bases(d, ['kuhn', 'stacked', 'cross', 'dsimplex', 'fan'], 2 if d == 2 else 1)), 'ops': []}]
        return {'base': base, 'rm': draw(st.lists(st.integers(0, 60), max_size=max_rm)),
                'order': draw(noise(24)), 'labels': draw(noise(24)),
                'inner': draw(noise(24)) if inner else '', 'orient': draw(st.sampled_from(list(orient)))}
    return s()


DOUBLED_CUBICAL = ('moebius', 'moebius3', 'ring', 'ring3', 'quads', 'cubes', 'edges')


def doubled():
    """Complexes with pairs of cells that have all corners in common: Moebius strips that are two cells long (where the signs of two shared facets conflict),
    rings of two cells that are closed at one corner only, and cells that are glued along their whole boundary; recipes are simplicial or cubical"""
    return st.tuples(st.sampled_from(['moebius', 'moebius', 'moebius3', 'ring', 'ring3', 'quads', 'cubes', 'edges', 'triangles', 'tets', 'edges_s']), st.integers(0, 3), noise(16), noise(16), noise(16)).map(list)


@dressed
def build_doubled(r):
    kind, extra, order, labels, inner = r
    nz = Noise(inner)
    if kind in ('moebius', 'moebius3'):
        cells = cube_grid([2, 1 if kind == 'moebius' else 3], [True, False], True)[0]
    elif kind in ('ring', 'ring3'):
        # two cells in a row, of which the first and last corner are the same vertex
        cells = np.array(cube_grid([2, 1] if kind == 'ring' else [2, 1, 1], [False] * 3, False)[0])
        cells[cells == cells.max()] = 0
    else:
        d = {'quads': 2, 'cubes': 3, 'edges': 1, 'triangles': 2, 'tets': 3, 'edges_s': 1}[kind]
        c = np.arange(2 ** d).reshape((2,) * d) if kind in ('quads', 'cubes', 'edges') else np.arange(d + 1)
        cells = np.array([c, c])
    cubical = kind in DOUBLED_CUBICAL
    d = cells.ndim - 1 if cubical else cells.shape[1] - 1
    # more cells, next to it or elsewhere
    n = int(cells.max()) + 1
    for k in range(extra):
        c = np.arange(n, n + (2 ** d if cubical else d + 1))
        n += len(c)
        if k % 2:
            # attached at a facet
            f = cells[0].reshape(-1)[:2 ** (d - 1) if cubical else d]
            c = np.concatenate([f, c[len(f):]])
            n = int(max(c.max(), cells.max())) + 1
        cells = np.concatenate([cells, c.reshape((1,) + cells.shape[1:])])
    used, inv = np.unique(cells.reshape(-1), return_inverse=True)
    cells = inv.reshape(cells.shape)
    n = len(used)
    p = Noise(labels).perm(n)
    cells = np.argsort(p)[cells]
    group = hyperoctahedral(d) if cubical else [(q,) for q in itertools.permutations(range(d + 1))]
    k = nz.ints(len(cells)) % len(group)
    cells = np.array([act(c, group[i]) if cubical else c[list(group[i][0])] for c, i in zip(cells, k)])
    return {'cells': cells[Noise(order).perm(len(cells))], 'n_vertices': n, 'd': d, 'kind': 'cubical' if cubical else 'simplicial', 'coords': None}


# -- complexes with more vertices than fit in a byte -----------------------------------------------------------------------

LARGE = {1: [[300], [259]], 2: [[16, 16], [2, 90], [1, 130]], 3: [[1, 1, 65], [2, 2, 28], [4, 4, 10], [6, 6, 6]]}


def large(kind, dims=(1, 2, 3), orient=('keep',), max_rm=3):
    """recipes of complexes with 257 to a few hundred vertices"""
    def mk(a):
        d, k, rm, labels, order, inner, o, periodic = a
        pool = LARGE[d][:3] if kind == 'simplicial' else LARGE[d]
        shape = list(pool[k % len(pool)])
        per = [bool(periodic)] + [False] * (d - 1)
        if periodic:
            shape[0] = max(shape[0], 4)
        if kind == 'simplicial':
            return {'base': ['kuhn', shape, per, False], 'ops': [['rm', r] for r in rm], 'order': order, 'labels': labels, 'inner': inner, 'orient': o}
        return {'base': ['grid', shape, per, False], 'rm': rm, 'order': order, 'labels': labels, 'inner': inner, 'orient': o}
    return st.tuples(st.sampled_from(list(dims)), st.integers(0, 11), st.lists(st.integers(0, 60), max_size=max_rm), noise(24), noise(24),
                     noise(24), st.sampled_from(list(orient)), st.booleans()).map(mk)
