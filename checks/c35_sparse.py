"""Sparse arrays with explicit coordinates against dictionaries"""
import numpy as np
from hypothesis import strategies as st

from lib import geo
from lib.pbt import Property, require, equal, close, raises

from pycomplex.sparse import Sparse, multi_indices

P = Property('C35', rule='Random sparse arrays of one to three dimensions with coordinates over small and large, overlapping and disjoint ranges, in any order; '
             'non-trivial: at least one pair of entries interacts.')


def rand(g, nd, lo=0, hi=3, unique=True, m=10):
    k = [tuple(int(q) for q in g.randint(lo, hi, size=nd)) for _ in range(g.randint(1, m))]
    if unique:
        k = sorted(set(k), key=lambda t: hash((t, 7)))
    f = g.choice([1, 1, 1000003])
    k = [tuple(q * f for q in t) for t in k]
    v = g.randint(-9, 10, size=len(k)).astype(float)
    return Sparse(np.array(k).T, v), k, v


def check(S, want, msg, nd):
    require(isinstance(S, Sparse), msg + ': type')
    require(S.nnz == len(S.data) == len(want), '%s: number of entries %d, expected %d' % (msg, S.nnz, len(want)))
    require(S.ndim == nd, msg + ': dimensions')
    got = {tuple(int(a[i]) for a in S.axes): float(S.data[i]) for i in range(S.nnz)}
    require(set(got) == set(want), msg + ': coordinates')
    for k in want:
        require(abs(got[k] - want[k]) <= 1e-9, '%s: entry %r is %r, expected %r' % (msg, k, got[k], want[k]))


def total(keys, values):
    out = {}
    for k, v in zip(keys, values):
        out[k] = out.get(k, 0.) + v
    return out


@P.sub('algebra', st.tuples(geo.seeds, st.integers(1, 3), st.sampled_from([0, 0, 0, 2, 5]), st.booleans()).map(list), n=400)
def algebra(case, rec):
    seed, nd, gap, unique = case
    g = geo.rng(seed)
    A, ka, va = rand(g, nd, unique=unique)
    B, kb, vb = rand(g, nd, gap, gap + 3, unique=unique)
    rec.nt(bool(set(ka) & set(kb)))
    keep = [np.array(a) for a in A.axes + B.axes] + [A.data.copy(), B.data.copy()]
    check(A + B, total(ka + kb, list(va) + list(vb)), 'sum', nd)
    require((A.concatenate(B)).nnz == len(ka) + len(kb), 'concatenation')
    check(A + A, {k: 2 * v for k, v in total(ka, va).items()}, 'twice', nd)
    if unique:
        da, db = dict(zip(ka, va)), dict(zip(kb, vb))
        check(A * B, {k: da[k] * db[k] for k in set(da) & set(db)}, 'product', nd)
        check(A * A, {k: v * v for k, v in da.items()}, 'square', nd)
        check(A * 3, {k: v * 3 for k, v in da.items()}, 'times a number', nd)
        check(A * .5, {k: v * .5 for k, v in da.items()}, 'times a number', nd)
        check(A.T, {k[::-1]: v for k, v in da.items()}, 'transpose', nd)
        check(A.T.T, da, 'transposed twice', nd)
        check(A.filter(lambda v: v > 0), {k: v for k, v in da.items() if v > 0}, 'filter', nd)
        C = A.astype(np.int32)
        require(C.data.dtype == np.int32, 'dtype')
        check(C, da, 'other dtype', nd)
        shape = tuple(g.randint(1, 4, size=nd))
        D = g.randint(-9, 10, size=shape).astype(float)
        S = Sparse.fromdense(D)
        check(S, {i: D[i] for i in np.ndindex(*shape)}, 'from dense', nd)
        axes, back = S.todense()
        equal(back, D, 'from dense and back')
        for a, n in zip(axes, shape):
            equal(a, np.arange(n), 'ranges')
    raises(ValueError, lambda: Sparse(list(A.axes), np.append(A.data, 1.)), 'coordinates and data of unequal length')
    for a, b in zip(list(A.axes) + list(B.axes) + [A.data, B.data], keep):
        equal(a, b, 'operands are left alone')


@P.sub('wide', st.tuples(geo.seeds, st.sampled_from([[130], [300], [2, 150], [260, 2], [40000], [3, 70000]])).map(list), n=12)
def wide(case, rec):
    seed, shape = case
    g = geo.rng(seed)
    rec.nt()
    D = g.randint(-9, 10, size=shape).astype(float)
    S = Sparse.fromdense(D)
    require(S.nnz == D.size, 'number of entries')
    back = np.zeros(shape)
    back[tuple(np.asarray(a) for a in S.axes)] = S.data
    equal(back, D, 'entries of a wide array')
    if len(shape) == 2:
        T = S.T
        back = np.zeros(shape[::-1])
        back[tuple(np.asarray(a) for a in T.axes)] = T.data
        equal(back, D.T, 'transpose of a wide array')
        G = S.dot(S.T)
        want = D.dot(D.T)
        if len(want) < 1000:
            back = np.zeros(want.shape)
            back[tuple(np.asarray(a) for a in G.axes)] = G.data
            equal(back, want, 'product of wide arrays')
    T = S + S
    back = np.zeros(shape)
    back[tuple(np.asarray(a) for a in T.axes)] = T.data
    equal(back, 2 * D, 'sum of wide arrays')


@P.sub('dot', st.tuples(geo.seeds, st.integers(1, 2), st.integers(1, 2), st.sampled_from([0, 0, 2, 5]), st.booleans()).map(list), n=400)
def dot(case, rec):
    seed, na, nb, gap, unique = case
    if na == nb == 1:
        nb = 2
    g = geo.rng(seed)
    A, ka, va = rand(g, na, unique=unique)
    B, kb, vb = rand(g, nb, gap, gap + 3, unique=unique)
    want = {}
    for k, v in zip(ka, va):
        for l, w in zip(kb, vb):
            if k[-1] == l[0]:
                q = k[:-1] + l[1:]
                want[q] = want.get(q, 0.) + v * w
    rec.nt(bool(want))
    check(A.dot(B), want, 'dot product', na + nb - 2)


@P.sub('match', st.tuples(st.lists(st.integers(0, 6), min_size=1, max_size=12), st.lists(st.integers(0, 6), min_size=1, max_size=12), st.sampled_from(['int', 'float', 'rows'])).map(list), n=300)
def match(case, rec):
    a, b, kind = case
    want = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
    rec.nt(bool(want))
    a, b = np.array(a), np.array(b)
    if kind == 'float':
        a, b = a / 7., b / 7.
    if kind == 'rows':
        a, b = np.stack([a // 3, a % 3], axis=1), np.stack([b // 3, b % 3], axis=1)
    i, j = multi_indices(a, b)
    got = sorted(zip(np.asarray(i).tolist(), np.asarray(j).tolist()))
    require(got == want, 'all pairs of equal items, once each: %r, expected %r' % (got, want))
