"""Reference models for topologies, written from the definitions and sharing no code with /repo."""
import itertools

import numpy as np
import scipy.sparse

from lib import gen
from lib.pbt import require, equal, close, Violation


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def faces_of(cells, k):
    """All k-faces of simplicial cells as a set of sorted tuples"""
    out = set()
    for c in cells:
        out.update(itertools.combinations(sorted(int(v) for v in c), k + 1))
    return out


def cube_faces(c, k):
    """All k-dimensional face arrays of a cube array"""
    d = c.ndim
    out = []
    for axes in itertools.combinations(range(d), k):
        fixed = [a for a in range(d) if a not in axes]
        for q in itertools.product([0, 1], repeat=len(fixed)):
            ix = [slice(None)] * d
            for a, s in zip(fixed, q):
                ix[a] = s
            out.append(c[tuple(ix)])
    return out


def key(a):
    return tuple(sorted(int(v) for v in np.asarray(a).flatten()))


def simplicial_boundary_matrix(high, low):
    """Signed boundary matrix of the oriented simplices `high` in terms of the oriented simplices `low`"""
    index = {key(f): i for i, f in enumerate(low)}
    M = np.zeros((len(low), len(high)), dtype=int)
    for j, c in enumerate(high):
        c = tuple(int(v) for v in c)
        for s, f in gen.simplex_facets(c):
            i = index[key(f)]
            M[i, j] += s * (-1) ** gen.relative_parity(f, tuple(int(v) for v in low[i]))
    return M


def cubical_boundary_matrix(high, low):
    index = {key(f): i for i, f in enumerate(low)}
    M = np.zeros((len(low), len(high)), dtype=int)
    for j, c in enumerate(high):
        for s, f in gen.cube_facets(np.asarray(c)):
            i = index[key(f)]
            p = gen.cube_relative_parity(f, np.asarray(low[i]))
            if p is None:
                raise Violation('stored face %d is not the same cube as the face of cell %d' % (i, j))
            M[i, j] += s * (-1) ** p
    return M


def check_chain_complex(T, kind, msg=''):
    """Every structural fact that holds for any primal topology object, against brute force.
    Returns list of brute force boundary matrices with the sign convention of T"""
    d = T.n_dim
    E = [np.asarray(e) for e in T.elements]
    require(len(E) == d + 1, msg + 'number of element arrays')
    cells = E[-1]
    for k in range(d + 1):
        if kind == 'simplicial':
            expect = faces_of(cells, k)
            require(k == 0 or E[k].ndim == 2 and E[k].shape[1] == k + 1, msg + 'shape of %d-elements %s' % (k, E[k].shape))
        else:
            expect = {key(f) for c in cells for f in cube_faces(c, k)}
            require(E[k].shape[1:] == (2,) * k, msg + 'shape of %d-elements %s' % (k, E[k].shape))
        got = [key(e) for e in E[k]]
        # two cells may have all corners in common, when they are glued along their whole boundary
        require(k == d or len(set(got)) == len(got), msg + 'duplicate %d-elements' % k)
        require(set(got) == expect, msg + 'set of %d-elements differs from the faces of the cells' % k)
        require(T.n_elements[k] == len(got), msg + 'n_elements[%d]' % k)
        equal(T.corners[k], E[k].reshape(len(got), -1), msg + 'corners[%d]' % k)
    equal(E[0].flatten(), np.arange(len(E[0])), msg + 'vertex elements')
    out = []
    for k in range(d):
        bf = simplicial_boundary_matrix if kind == 'simplicial' else cubical_boundary_matrix
        if k == 0:
            M = np.zeros((len(E[0]), len(E[1])), dtype=int)
            for j, e in enumerate(E[1].reshape(-1, 2)):
                M[e[0], j] -= 1
                M[e[1], j] += 1
        else:
            M = bf(E[k + 1], E[k])
        m = dense(T.matrices[k]).astype(int)
        if m.shape != M.shape:
            raise Violation(msg + 'matrix %d has shape %s, expected %s' % (k, m.shape, M.shape))
        # a single global sign per degree is convention
        nz = np.nonzero(M)
        s = 1
        if len(nz[0]) and m[nz[0][0], nz[1][0]] == -M[nz[0][0], nz[1][0]]:
            s = -1
        if k == 0:
            s = 1   # an edge runs from its first to its second vertex
        equal(m, s * M, msg + 'signed incidence of %d- and %d-elements' % (k, k + 1))
        out.append(s * M)
        # incidence arrays describe the same relation
        I = np.asarray(T.incidence[k + 1, k]).reshape(len(E[k + 1]), -1)
        S = np.zeros(M.shape, dtype=int)
        for j, row in enumerate(I):
            for i in row:
                S[i, j] += 1
        equal(S, np.abs(M), msg + 'incidence[%d,%d]' % (k + 1, k))
        equal(dense(T[k]).astype(int), m, msg + 'indexing')
    for k in range(d - 1):
        q = scipy.sparse.csr_matrix(out[k]) * scipy.sparse.csr_matrix(out[k + 1])
        require(not q.data.any(), msg + 'boundary of boundary')
        p = dense(T.matrices[k].astype(int) * T.matrices[k + 1].astype(int))
        require(not p.any(), msg + 'product of consecutive matrices is not zero')
    T.check_chain()
    return out


def induced_facet_signs(T):
    """dense top boundary matrix as ints"""
    return dense(T.matrices[-1]).astype(int)


def is_consistent(cells, kind):
    table = gen.facet_table(cells) if kind == 'simplicial' else gen.cube_facet_table(cells)
    return all(l[0][1] == -l[1][1] for l in table.values() if len(l) == 2)


def components(n, pairs):
    p = list(range(n))

    def find(i):
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i
    for a, b in pairs:
        p[find(a)] = find(b)
    roots = {}
    return np.array([roots.setdefault(find(i), len(roots)) for i in range(n)], dtype=int)


def facet_pairs(table):
    return [(l[0][0], q[0]) for l in table.values() for q in l[1:]]


def rank(M):
    """Exact rank over GF(p) of an integer matrix; p large, so equals the rational rank up to p-torsion"""
    p = 32003
    M = np.array(M, dtype=np.int64) % p
    r = 0
    rows, cols = M.shape
    for c in range(cols):
        if r == rows:
            break
        piv = np.flatnonzero(M[r:, c])
        if not len(piv):
            continue
        i = r + piv[0]
        if i != r:
            M[[r, i]] = M[[i, r]]
        M[r] = M[r] * pow(int(M[r, c]), p - 2, p) % p
        f = M[:, c].copy()
        f[r] = 0
        nz = np.flatnonzero(f)
        if len(nz):
            M[nz] = (M[nz] - f[nz][:, None] * M[r][None]) % p
        r += 1
    return r


def betti(mats, n_elements):
    """Betti numbers from dense boundary matrices; mats[k]: k+1 chains -> k chains"""
    ranks = [0] + [rank(m) for m in mats] + [0]
    return [n_elements[k] - ranks[k] - ranks[k + 1] for k in range(len(n_elements))]
