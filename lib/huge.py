"""Complexes of more than 65536 vertices, with oracles that work on whole arrays.

Numbers are beyond what fits 16 bits, and products of two vertex numbers beyond 32 bits."""
import itertools

import numpy as np
import scipy.sparse
from hypothesis import strategies as st

from lib import geo
from lib.pbt import require, equal, raises

SIMPLICIAL = ('line', 'tri', 'tet')
CUBICAL = ('curve', 'quad', 'hex')
DIM = {'line': 1, 'tri': 2, 'tet': 3, 'curve': 1, 'quad': 2, 'hex': 3}


def cases(kinds, consistent=None):
    return st.builds(lambda k, e, s, c, h, p, f: {'kind': k, 'extra': e, 'seed': s, 'cuts': c, 'holes': h, 'periodic': p, 'flip': f if consistent is None else not consistent},
                     st.sampled_from(list(kinds)), st.integers(0, 4), geo.seeds, st.integers(0, 3), st.booleans(), st.booleans(), st.booleans())


def build(r):
    g = geo.rng(r['seed'])
    kind = r['kind']
    d = DIM[kind]
    n = {1: (66000 + 1000 * r['extra'],), 2: (257 + r['extra'], 261), 3: (16500 + r['extra'], 1, 1)}[d]
    per = r['periodic']
    v = np.arange((n[0] + (0 if per else 1)) * int(np.prod([m + 1 for m in n[1:]]))).reshape([n[0] + (0 if per else 1)] + [m + 1 for m in n[1:]])
    at = np.indices(n).reshape(d, -1).T
    cubes = np.zeros((len(at),) + (2,) * d, dtype=np.int64)
    for o in itertools.product((0, 1), repeat=d):
        q = at + np.array(o)
        q[:, 0] %= len(v)
        cubes[(slice(None),) + o] = v[tuple(q.T)]
    keep = np.ones(len(at), dtype=bool)
    cuts = sorted({int(c) for c in g.randint(5, n[0] - 5, size=r['cuts'])})
    cuts = [c for i, c in enumerate(cuts) if i == 0 or c > cuts[i - 1] + 3]
    for c in cuts:
        keep &= at[:, 0] != c
    if r['holes'] and d == 2:
        keep &= ~((at[:, 0] % 7 == 3) & (at[:, 1] % 5 == 3) & (at[:, 0] < 100) & ~np.isin(at[:, 0][:, None] + [-1, 0, 1], cuts).any(axis=1))
    part = np.searchsorted(np.array(cuts), at[:, 0], side='left') if cuts else np.zeros(len(at), dtype=int)
    if per and cuts:
        part[part == len(cuts)] = 0
    cubes, part = cubes[keep], part[keep]
    if kind in CUBICAL:
        cells = cubes
        sign = np.ones(len(cells), dtype=int)
        if r['flip']:
            f = g.randint(2, size=len(cells)) == 1
            cells[f] = cells[f, ::-1] if d > 0 else cells[f]
            sign[f] = -1
        if d > 1:
            # turned, with the same orientation
            f = g.randint(2, size=len(cells)) == 1
            cells[f] = np.swapaxes(cells[f], 1, 2)[:, ::-1]
    else:
        out, sg = [], []
        for p in itertools.permutations(range(d)):
            o = np.zeros(d, dtype=int)
            c = [cubes[(slice(None),) + tuple(o)]]
            for a in p:
                o[a] = 1
                c.append(cubes[(slice(None),) + tuple(o)])
            c = np.stack(c, axis=1)
            if np.linalg.det(np.eye(d)[list(p)]) < 0:
                c[:, [-1, -2]] = c[:, [-2, -1]]
            out.append(c)
        part = np.tile(part, len(out))
        cells = np.concatenate(out)
        sign = np.ones(len(cells), dtype=int)
        if d > 1:
            f = g.randint(2, size=len(cells)) == 1
            cells[f, :3] = np.roll(cells[f, :3], 1, axis=1)
        if r['flip']:
            f = g.randint(2, size=len(cells)) == 1
            cells[f, :2] = cells[f, 1::-1]
            sign[f] = -1
    order = g.permutation(len(cells))
    cells, part, sign = cells[order], part[order], sign[order]
    label = g.permutation(v.size)
    cells = label[cells]
    used = np.unique(cells)
    back = np.zeros(v.size, dtype=np.int64)
    back[used] = np.arange(len(used))
    return {'cells': back[cells].astype(np.int32), 'sign': sign, 'part': part, 'd': d, 'n': len(used), 'cubical': kind in CUBICAL}


def topology(b):
    from pycomplex.topology.simplicial import TopologySimplicial
    from pycomplex.topology.cubical import TopologyCubical
    return TopologyCubical.from_cubes(b['cells']) if b['cubical'] else TopologySimplicial.from_simplices(b['cells'])


def packed(rows):
    """rows as sets of corners, in a form that can be compared"""
    q = np.sort(np.asarray(rows).reshape(len(rows), -1), axis=1).astype('>i4')
    return np.ascontiguousarray(q).view('V%d' % (4 * q.shape[1])).ravel()


def find(table, query):
    """index of each row of query in table, rows being sets of corners"""
    u, i = np.unique(np.concatenate([packed(table), packed(query)]), return_inverse=True)
    require(len(np.unique(i[:len(table)])) == len(table), 'elements are distinct')
    to = np.full(len(u), -1)
    to[i[:len(table)]] = np.arange(len(table))
    j = to[i[len(table):]]
    require((j >= 0).all(), 'all faces are among the elements')
    return j


def faces(cells, k, cubical):
    """all k-faces of all cells: [n_cells, n_faces, corners]"""
    n = len(cells)
    if not cubical:
        d = cells.shape[1] - 1
        return np.stack([cells[:, list(c)] for c in itertools.combinations(range(d + 1), k + 1)], axis=1)
    d = cells.ndim - 1
    out = []
    for free in itertools.combinations(range(d), k):
        for fixed in itertools.product((0, 1), repeat=d - k):
            f = iter(fixed)
            out.append(cells[(slice(None),) + tuple(slice(None) if a in free else next(f) for a in range(d))].reshape(n, -1))
    return np.stack(out, axis=1)


def sparse(m):
    return scipy.sparse.csc_matrix(m).astype(np.int64)


def incidence(T, cubical):
    """0/1 relation of cells and k-elements, for each k: index arrays [n_cells, n_faces]"""
    cells = np.asarray(T.elements[-1])
    out = []
    for k in range(T.n_dim + 1):
        f = faces(cells, k, cubical)
        out.append(find(np.asarray(T.corners[k]), f.reshape(-1, f.shape[-1])).reshape(f.shape[:2]))
    return out


def chain(b, T):
    """elements are the faces of the cells, once each; incidence; boundaries have no boundary"""
    cells, cubical, d = b['cells'], b['cubical'], b['d']
    equal(T.elements[-1], cells, 'cells')
    require(T.n_elements[0] == b['n'], 'number of vertices')
    for k in range(d + 1):
        f = faces(cells, k, cubical)
        u = np.unique(packed(f.reshape(-1, f.shape[-1])))
        e = np.asarray(T.corners[k])
        require(len(e) == len(u) == T.n_elements[k] and (np.sort(packed(e)) == u).all(), '%d-elements are the faces of the cells' % k)
    for k in range(d):
        m = sparse(T.matrices[k])
        require(m.shape == (T.n_elements[k], T.n_elements[k + 1]), 'shape of matrix %d' % k)
        hi, lo = np.asarray(T.elements[k + 1]), np.asarray(T.corners[k])
        f = faces(hi, k, cubical)
        j = find(lo, f.reshape(-1, f.shape[-1]))
        col = np.repeat(np.arange(len(hi)), f.shape[1])
        w = scipy.sparse.csc_matrix((np.ones(len(j), dtype=np.int64), (j, col)), shape=m.shape)
        require((abs(m) != w).nnz == 0, 'incidence of %d- and %d-elements' % (k, k + 1))
        I = np.asarray(T.incidence[k + 1, k]).reshape(len(hi), -1)
        equal(np.sort(I, axis=1), np.sort(j.reshape(len(hi), -1), axis=1), 'incidence array of %d- and %d-elements' % (k, k + 1))
        if k == 0:
            equal(np.asarray(m.sum(axis=0)).ravel(), np.zeros(m.shape[1]), 'an edge has a start and an end')
            e = hi.reshape(-1, 2)
            equal(np.asarray(m[e[:, 1], np.arange(len(e))]).ravel(), np.ones(len(e)), 'an edge runs from its first to its second vertex')
    for k in range(d - 1):
        require(not (sparse(T.matrices[k]) * sparse(T.matrices[k + 1])).data.any(), 'boundary of boundary')
    T.check_chain()


def shared(b, T):
    """signed incidence of cells and facets, if all cells had their canonical orientation"""
    return sparse(T.matrices[-1]) * scipy.sparse.diags(b['sign'])


def orientation(b, T):
    S = sparse(T.matrices[-1])
    W = shared(b, T)
    two = np.asarray(abs(S).sum(axis=1)).ravel() == 2
    require(not np.asarray(W.sum(axis=1)).ravel()[two].any(), 'signs of incidence follow the orientation of cells')
    agree = not np.asarray(S.sum(axis=1)).ravel()[two].any()
    require(bool(T.is_oriented) == agree, 'is_oriented')
    s = 1 - 2 * np.asarray(T.relative_parity()).astype(int)
    require(s.shape == (len(b['cells']),), 'one parity for each cell')
    require(not np.asarray((S * scipy.sparse.diags(s)).sum(axis=1)).ravel()[two].any(), 'flipping the cells of odd parity orients the topology')
    F = T.fix_orientation()
    require((packed(F.elements[-1]) == packed(b['cells'])).all(), 'cells keep their vertices and their order')
    q = sparse(F.matrices[-1])
    two = np.asarray(abs(q).sum(axis=1)).ravel() == 2
    require(not np.asarray(q.sum(axis=1)).ravel()[two].any(), 'cells of the oriented topology agree')
    require(bool(F.is_oriented), 'the result is oriented')


def connection(b, T):
    n, lab = T.label_connections()
    p = b['part']
    require(n == len(np.unique(p)), 'number of components')
    pairs = np.unique(np.stack([p, np.asarray(lab)], axis=1), axis=0)
    require(len(pairs) == n and len(np.unique(pairs[:, 0])) == n and len(np.unique(pairs[:, 1])) == n, 'labels of components')
    require(bool(T.is_connected) == (n == 1), 'is_connected')
    if n < 5:
        C = T.split_connected_components()
        sizes = sorted(np.bincount(p)[np.unique(p)].tolist(), reverse=True)
        require([c.n_elements[-1] for c in C] == sizes, 'sizes of components')
        for c in C:
            require(len(np.unique(p[np.asarray(c.parent_idx[-1])])) == 1, 'components do not mix')


def subset_of(S, T, msg):
    p0 = np.asarray(S.parent_idx[0])
    for k in range(S.n_dim + 1):
        i = np.asarray(S.parent_idx[k])
        require(i.shape == (S.n_elements[k],) and len(np.unique(i)) == len(i), msg + ': parents of %d-elements' % k)
        require((packed(p0[np.asarray(S.corners[k])]) == packed(np.asarray(T.corners[k])[i])).all(), msg + ': parent_idx[%d] points at another element' % k)


def boundary(b, T):
    """b is consistently oriented"""
    d = b['d']
    ones = np.asarray(abs(sparse(T.matrices[-1])).sum(axis=1)).ravel() == 1
    B = T.boundary
    require(bool(T.is_closed) == (not ones.any()), 'is_closed')
    ids = [np.zeros(0, dtype=int)] * (d + 1)
    if not ones.any():
        require(B is None, 'no boundary')
    else:
        require(B.n_dim == d - 1, 'dimension of the boundary')
        subset_of(B, T, 'boundary')
        equal(np.sort(np.asarray(B.parent_idx[-1])), np.flatnonzero(ones), 'the boundary consists of the facets of a single cell')
        f = np.asarray(T.elements[-2])[ones]
        for k in range(d):
            ids[k] = np.asarray(B.parent_idx[k])
            q = faces(f, k, b['cubical']) if d > 1 else f.reshape(-1, 1, 1)
            equal(np.sort(ids[k]), np.unique(find(T.corners[k], q.reshape(-1, q.shape[-1]))), '%d-elements of the boundary' % k)
        if d > 1:
            require(bool(B.is_closed), 'the boundary is closed')
            require(not np.asarray(sparse(B.matrices[-1]).sum(axis=1)).ravel().any(), 'the boundary is oriented')
    for k in range(d + 1):
        n = T.n_elements[k]
        s = sparse(T.selector_boundary[k])
        require(s.shape == (len(ids[k]), n) and (sparse(T.selector_boundary[k]) != scipy.sparse.csc_matrix((np.ones(len(ids[k])), (np.arange(len(ids[k])), ids[k])), shape=s.shape)).nnz == 0,
                'selector_boundary[%d]' % k)
        rest = np.setdiff1d(np.arange(n), ids[k])
        s = sparse(T.selector_interior[k])
        require(s.shape == (len(rest), n) and (s != scipy.sparse.csc_matrix((np.ones(len(rest)), (np.arange(len(rest)), rest)), shape=s.shape)).nnz == 0, 'selector_interior[%d]' % k)


def subset(b, T, seed):
    m = geo.rng(seed).randint(3, size=len(b['cells'])) > 0
    S = T.select_subset(m)
    equal(S.parent_idx[-1], np.flatnonzero(m), 'selected cells')
    subset_of(S, T, 'subset')
    equal(np.asarray(S.parent_idx[0])[S.elements[-1]], b['cells'][m], 'cells of the subset')


def dual(b, T):
    d = b['d']
    D = T.dual
    B = T.boundary
    nb = [0] * (d + 1) if B is None else list(B.n_elements) + [0]
    want = [T.n_elements[d - k] + (nb[d - 1 - k] if k < d else 0) for k in range(d + 1)]
    require([int(q) for q in D.n_elements] == [int(q) for q in want], 'dual element counts')
    M = [sparse(m) for m in D.matrices]
    for k in range(d):
        require(M[k].shape == (want[k], want[k + 1]), 'shape of dual matrix %d' % k)
        t = sparse(T.matrices[d - 1 - k]).T
        require((M[k][:t.shape[0], :t.shape[1]] != t).nnz == 0, 'interior of dual matrix %d' % k)
        if k < d - 1:
            require(not (M[k] * M[k + 1]).data.any(), 'dual boundary of boundary')
        if B is not None:
            p = d - 1 - k
            glue = M[k][T.n_elements[d - k]:, :T.n_elements[p]]
            i = np.asarray(B.parent_idx[p])
            w = scipy.sparse.csc_matrix((np.ones(len(i)), (np.arange(len(i)), i)), shape=glue.shape)
            require((abs(glue) != w).nnz == 0, 'each boundary element closes the dual of its own primal element')
    require((np.asarray(abs(M[0]).sum(axis=0)) == 2).all() and not np.asarray(M[0].sum(axis=0)).any(), 'each dual edge has two ends of opposite sign')
    D.check_chain()


def averaging(b, T):
    inc = incidence(T, b['cubical'])
    d = b['d']
    deg = T.degree
    for k in range(d + 1):
        n = T.n_elements[k]
        cnt = np.bincount(inc[k].ravel(), minlength=n)
        equal(np.asarray(deg[k]).astype(np.int64), cnt, 'degree of %d-elements' % k)
        col = np.repeat(np.arange(len(b['cells'])), inc[k].shape[1])
        w = scipy.sparse.csc_matrix((1. / cnt[inc[k].ravel()], (inc[k].ravel(), col)), shape=(n, len(b['cells'])))
        q = abs(scipy.sparse.csc_matrix(T.averaging_operators_N[k]) - w)
        require(q.shape == w.shape and q.max() < 1e-6, 'average of the cells around %d-elements' % k)
        c = np.asarray(T.corners[k])
        w = scipy.sparse.csc_matrix((np.full(c.size, 1. / c.shape[1]), (np.repeat(np.arange(n), c.shape[1]), c.ravel())), shape=(n, T.n_elements[0]))
        q = abs(scipy.sparse.csc_matrix(T.averaging_operators_0[k]) - w)
        require(q.shape == w.shape and q.max() < 1e-6, 'average of the vertices of %d-elements' % k)


def flags(T, cubical):
    """index of the element of each dimension, for each flag [n, d + 1]"""
    cells = np.asarray(T.elements[-1])
    out = []
    if not cubical:
        d = cells.shape[1] - 1
        ids = {s: find(T.corners[len(s) - 1], cells[:, list(s)]) for k in range(d + 1) for s in itertools.combinations(range(d + 1), k + 1)}
        for p in itertools.permutations(range(d + 1)):
            out.append(np.stack([ids[tuple(sorted(p[:k + 1]))] for k in range(d + 1)], axis=1))
        return np.concatenate(out)
    d = cells.ndim - 1
    ids = {}
    for s in itertools.product((0, 1, None), repeat=d):
        k = sum(q is None for q in s)
        ids[s] = find(T.corners[k], cells[(slice(None),) + tuple(slice(None) if q is None else q for q in s)].reshape(len(cells), -1))
    for o in itertools.product((0, 1), repeat=d):
        for p in itertools.permutations(range(d)):
            s = list(o)
            row = [ids[tuple(s)]]
            for a in p:
                s[a] = None
                row.append(ids[tuple(s)])
            out.append(np.stack(row, axis=1))
    return np.concatenate(out)


def subdivision(b, T):
    off = np.cumsum([0] + list(T.n_elements))[:-1]
    two = lambda S: np.asarray(abs(sparse(S.matrices[-1])).sum(axis=1)).ravel() == 2
    same = lambda S, want, msg: require(len(S.elements[-1]) == len(want) and (np.sort(packed(S.elements[-1])) == np.sort(packed(want))).all(), msg)
    F = flags(T, b['cubical']) + off
    S = T.subdivide_fundamental()
    same(S, F, 'fundamental subdivision')
    require(not np.asarray(sparse(S.matrices[-1]).sum(axis=1)).ravel()[two(S)].any(), 'fundamental subdivision is oriented')
    d = b['d']
    if b['cubical'] or d == 2:
        # cubes between each vertex and each cell around it
        i = F.reshape(-1, d + 1)
        u, inv = np.unique(i[:, 0] * (1 << 40) + i[:, d], return_inverse=True)
        o = np.argsort(inv, kind='stable')
        i = i[o].reshape(len(u), -1, d + 1)
        want = [i[:, 0, :1], i[:, 0, d:]]
        for k in range(1, d):
            q = np.sort(i[:, :, k], axis=1)
            want.append(q[:, ::q.shape[1] // d] if d < 3 else q[:, ::2])
        want = np.concatenate(want, axis=1)
        S = T.subdivide_cubical()
        same(S, want, 'cubical subdivision')
        require(not np.asarray(sparse(S.matrices[-1]).sum(axis=1)).ravel()[two(S)].any(), 'cubical subdivision is oriented')
    if not b['cubical'] and d == 2:
        c = b['cells']
        n0 = T.n_elements[0]
        m = [find(T.corners[1], c[:, q]) + n0 for q in ([1, 2], [2, 0], [0, 1])]
        want = np.concatenate([np.stack(q, axis=1) for q in ((m[0], m[1], m[2]), (c[:, 0], m[1], m[2]), (c[:, 1], m[0], m[2]), (c[:, 2], m[0], m[1]))])
        for S in (T.as_2().subdivide_loop(), T.as_2().subdivide_loop_direct()):
            same(S, want, 'loop subdivision')
            require(not np.asarray(sparse(S.matrices[-1]).sum(axis=1)).ravel()[two(S)].any(), 'loop subdivision is oriented')
            require(not (sparse(S.matrices[0]) * sparse(S.matrices[1])).data.any(), 'loop subdivision is a chain complex')


def transfer(b, T):
    """fine elements that are part of coarse elements of the same dimension"""
    d = b['d']
    n0 = T.n_elements[0]
    off = np.cumsum([0] + list(T.n_elements))
    if b['cubical']:
        S = [T.subdivide_cubical()]
    else:
        S = [T.as_2().subdivide_loop(), T.as_2().subdivide_loop_direct()]
    for f in S:
        require(len(f.transfer_matrices) == d + 1, 'one transfer matrix for each dimension')
        for k in range(d + 1):
            c = np.asarray(f.corners[k])
            shape = (f.n_elements[k], T.n_elements[k])
            if b['cubical']:
                top = c.max(axis=1)
                row = np.flatnonzero((top >= off[k]) & (top < off[k + 1]))
                col = top[row] - off[k]
            elif k < 2:
                lo, hi = c.min(axis=1), c.max(axis=1)
                row = np.flatnonzero(lo < n0)
                col = (hi[row] - n0) if k else hi[row]
            else:
                # three fine vertices span the triangle of their carriers
                e = np.asarray(T.corners[1])
                car = np.where((c < n0)[:, :, None], c[:, :, None], e[np.maximum(c - n0, 0)]).reshape(len(c), -1)
                car = np.sort(car, axis=1)
                first = np.ones(car.shape, dtype=bool)
                first[:, 1:] = car[:, 1:] != car[:, :-1]
                require((first.sum(axis=1) == 3).all(), 'fine triangles are within coarse triangles')
                row = np.arange(len(c))
                col = find(T.corners[2], car[first].reshape(-1, 3))
            w = scipy.sparse.csc_matrix((np.ones(len(row), dtype=np.int64), (row, col)), shape=shape)
            m = sparse(f.transfer_matrices[k])
            require(m.shape == shape and (m != w).nnz == 0, 'transfer of %d-elements' % k)


def register(P, kinds, *fns, consistent=None, n=2):
    """one sub-check for each kind of complex"""
    def one(kind):
        @P.sub('huge_' + kind, cases([kind], consistent), n=n)
        def check(case, rec):
            b = build(case)
            rec.nt()
            rec.label('%d vertices' % b['n'])
            T = topology(b)
            for f in fns:
                f(b, T, case['seed']) if f is subset else f(b, T)
    for kind in kinds:
        one(kind)
