import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close

from pycomplex.topology.cubical import TopologyCubical
from pycomplex.complex.cubical import ComplexCubical

P = Property('C10', rule='Pairs (and triples) of random cubical complexes of dimension 0-3 with any numbering, open or closed, with random vertex '
             'positions; products are compared cell by cell with pairs of cells; non-trivial: both factors have two or more cells.')


def chi(T):
    return sum((-1) ** k * int(n) for k, n in enumerate(T.n_elements))


def check(A, B, rec, chain=True, msg=''):
    n0 = A.n_elements[0]
    S = A.product(B)
    da, db = A.n_dim, B.n_dim
    require(S.n_dim == da + db, msg + 'dimension of the product')
    # one element per pair of elements
    for k in range(da + db + 1):
        want = sum(A.n_elements[i] * B.n_elements[k - i] for i in range(da + 1) if 0 <= k - i <= db)
        require(S.n_elements[k] == want, msg + 'number of %d-elements of the product: %d, expected %d' % (k, S.n_elements[k], want))
        got = {models.key(c) for c in S.corners[k]}
        want = {tuple(sorted(int(u) + n0 * int(v) for u in a for v in b))
                for i in range(da + 1) if 0 <= k - i <= db for a in A.corners[i] for b in B.corners[k - i]}
        require(got == want, msg + '%d-elements of the product are not the pairs of elements' % k)
    # oriented as the pair (axes of the first factor, axes of the second)
    index = {models.key(c): c for c in S.elements[-1]}
    for a in np.asarray(A.elements[-1]):
        for b in np.asarray(B.elements[-1]):
            c = a.reshape(a.shape + (1,) * db) + n0 * b.reshape((1,) * da + b.shape)
            got = index[models.key(c)]
            require(gen.cube_relative_parity(np.asarray(got), c) == 0, msg + 'a product cell is not oriented as the pair of its factors')
    if chain:
        models.check_chain_complex(S, 'cubical', msg)
    require(chi(S) == chi(A) * chi(B), msg + 'Euler characteristic of the product')
    return S


def kunneth(a, b):
    out = [0] * (len(a) + len(b) - 1)
    for i, p in enumerate(a):
        for j, q in enumerate(b):
            out[i + j] += p * q
    return out


def betti(T):
    return models.betti([models.dense(m).astype(int) for m in T.matrices], T.n_elements)


def factor(dims, top):
    return gen.cubical(dims=dims, kinds=('grid', 'periodic', 'surf'), orient=('keep', 'keep', 'random'), top=top, max_rm=2)


FACT = st.one_of(st.tuples(factor((1,), 4), factor((1,), 4)), st.tuples(factor((1,), 3), factor((2,), 2)), st.tuples(factor((2,), 2), factor((1,), 4)))


@P.sub('pair', st.tuples(FACT, gen.noise(16)).map(list), n=1500)
def pair(case, rec):
    (ra, rb), noise = case
    ba, bb = gen.build_cubical(ra), gen.build_cubical(rb)
    if len(ba['cells']) * len(bb['cells']) > 60:
        return
    rec.nt(len(ba['cells']) > 1 and len(bb['cells']) > 1)
    rec.label('%d x %d' % (ba['d'], bb['d']))
    A, B = TopologyCubical.from_cubes(ba['cells']), TopologyCubical.from_cubes(bb['cells'])
    S = check(A, B, rec)
    if sum(S.n_elements) < 400:
        require(betti(S) == kunneth(betti(A), betti(B)), 'Betti numbers of the product')
        rec.label('kunneth')
    simple = all(len(l) <= 2 for T in (A, B) for l in gen.cube_facet_table(np.asarray(T.elements[-1])).values())
    oa = models.is_consistent(np.asarray(A.elements[-1]), 'cubical')
    ob = models.is_consistent(np.asarray(B.elements[-1]), 'cubical')
    if simple:
        try:
            o = bool(S.is_oriented)
        except ValueError:
            o = False       # not orientable at all
        require(o == (oa and ob), 'the product is oriented exactly when both factors are')
        if oa and ob:
            require(bool(S.is_closed) == bool(A.is_closed and B.is_closed), 'the product is closed exactly when both factors are')
            rec.label('oriented')
    # complexes: positions of the product are pairs of positions, in the numbering of the topology
    nz = gen.Noise(noise)
    va = nz.floats(A.n_elements[0], max(1, ba['d']))
    vb = nz.floats(B.n_elements[0], max(1, bb['d']))
    CA, CB = ComplexCubical(vertices=va, topology=A), ComplexCubical(vertices=vb, topology=B)
    C = CA.product(CB)
    na = A.n_elements[0]
    want = np.array([np.concatenate([va[i % na], vb[i // na]]) for i in range(na * len(vb))])
    close(C.vertices, want, 'vertex positions of the product')
    require(C.topology.n_elements == S.n_elements, 'topology of the product complex')
    # positions of product elements are the pairs of element positions
    for k in range(C.topology.n_dim + 1):
        pp = np.asarray(C.primal_position[k])
        by = {models.key(c): p for c, p in zip(C.topology.corners[k], pp)}
        for i in range(A.n_dim + 1):
            j = k - i
            if not 0 <= j <= B.n_dim:
                continue
            for a, x in zip(A.corners[i], CA.primal_position[i]):
                for b, y in zip(B.corners[j], CB.primal_position[j]):
                    q = by[tuple(sorted(int(u) + na * int(v) for u in a for v in b))]
                    require(np.allclose(q, np.concatenate([x, y])), 'positions of the elements of the product')


@P.sub('high', st.tuples(st.one_of(st.tuples(factor((2,), 1), factor((3,), 1)), st.tuples(factor((4,), 1), factor((1,), 2)),
                                 st.tuples(factor((3,), 1), factor((2,), 1)), st.tuples(factor((3,), 1), factor((3,), 1))), gen.noise(16)).map(list), n=40)
def high(case, rec):
    (ra, rb), noise = case
    ba, bb = gen.build_cubical(ra), gen.build_cubical(rb)
    if len(ba['cells']) * len(bb['cells']) > 12:
        return
    rec.nt(ba['d'] + bb['d'] > 4)
    rec.label('%d x %d' % (ba['d'], bb['d']))
    check(TopologyCubical.from_cubes(ba['cells']), TopologyCubical.from_cubes(bb['cells']), rec)


@P.sub('triple', st.tuples(factor((1,), 3), factor((1,), 3), factor((1,), 2)).map(list), n=200)
def triple(case, rec):
    T = [TopologyCubical.from_cubes(gen.build_cubical(r)['cells']) for r in case]
    rec.nt(all(t.n_elements[-1] > 1 for t in T))
    if np.prod([t.n_elements[-1] for t in T]) > 30:
        return
    AB = check(T[0], T[1], rec, msg='first two: ')
    L = check(AB, T[2], rec, chain=False, msg='(ab)c: ')
    R = T[0].product(check(T[1], T[2], rec, chain=False, msg='bc: '))
    ind = {models.key(c): c for c in R.elements[-1]}
    for c in L.elements[-1]:
        require(gen.cube_relative_parity(np.asarray(c), np.asarray(ind[models.key(c)])) == 0, 'the product is associative')


@P.sub('large', st.tuples(st.sampled_from([(33000, 1), (1, 33000), (66000, 1), (260, 255), (190, 350)]), st.booleans(), st.booleans(), geo.seeds).map(list), n=5, thorough=4)
def large(case, rec):
    """products of more elements than fit 16 bits, of curves that are numbered in any way"""
    (a, b), ca, cb, seed = case
    g = np.random.RandomState(seed)

    def curve(n, closed):
        closed = closed and n > 2
        m = n if closed else n + 1
        at = np.arange(n)
        return g.permutation(m)[np.stack([at, (at + 1) % m], axis=1)], m

    (ea, na), (eb, nb) = curve(a, ca), curve(b, cb)
    A = ComplexCubical(vertices=g.normal(size=(na, 1)), cubes=ea)
    B = ComplexCubical(vertices=g.normal(size=(nb, 2)), cubes=eb)
    rec.nt()
    rec.label('%d x %d' % (a, b))
    C = A.product(B)
    T = C.topology
    require(T.n_elements == [na * nb, a * nb + na * b, a * b], 'number of elements of the product')
    v = np.asarray(C.vertices)
    require(v.shape == (na * nb, 3), 'shape of the vertices of the product')
    equal(v[:, :1].reshape(nb, na, 1), np.broadcast_to(np.asarray(A.vertices), (nb, na, 1)), 'positions of the first factor')
    equal(v[:, 1:].reshape(nb, na, 2), np.broadcast_to(np.asarray(B.vertices)[:, None], (nb, na, 2)), 'positions of the second factor')
    ea, eb = np.asarray(A.topology.elements[-1]).astype(np.int64), np.asarray(B.topology.elements[-1]).astype(np.int64)
    want = ea[:, None, :, None] + na * eb[None, :, None, :]
    want = want.reshape(-1, 2, 2)

    def turned(c):
        # lowest corner first, then the corner that follows it in the positive direction
        c = np.stack([c[:, 0, 0], c[:, 0, 1], c[:, 1, 1], c[:, 1, 0]], axis=1)
        k = c.argmin(axis=1)
        c = np.take_along_axis(c, (k[:, None] + np.arange(4)) % 4, axis=1)
        return c[np.lexsort(c.T)]

    equal(turned(np.asarray(T.elements[-1]).astype(np.int64)), turned(want), 'cells of the product are pairs of edges, oriented as the pair')
    edges = np.concatenate([(ea[:, None] + na * np.arange(nb)[None, :, None]).reshape(-1, 2), (np.arange(na)[None, :, None] + na * eb[:, None]).reshape(-1, 2)])
    edges.sort(axis=1)
    got = np.sort(np.asarray(T.corners[1]).astype(np.int64), axis=1)
    equal(got[np.lexsort(got.T)], edges[np.lexsort(edges.T)], 'edges of the product')
