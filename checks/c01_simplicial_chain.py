import numpy as np
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, raises

from pycomplex.topology.simplicial import TopologySimplicial

P = Property('C01', rule='Random simplicial cell arrays of dimension 1-6 (triangulated boxes, tori, Klein bottles, Moebius '
             'bands, RP2, cross-polytopes, stacked balls; stellar subdivisions, removed cells, disjoint unions, wedges, pinched '
             'vertices; random cell order, vertex labels and corner order); non-trivial: at least two cells and dimension >= 2, '
             'or at least three cells in dimension 1.')

CELLS = gen.simplicial(dims=(1, 2, 2, 3, 3, 4), ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'random'))


def note(rec, b):
    rec.nt(len(b['cells']) >= (3 if b['d'] == 1 else 2))
    rec.label('d=%d' % b['d'], 'cells<10' if len(b['cells']) < 10 else 'cells>=10')


@P.sub('chain_complex', CELLS, n=2800)
def chain(case, rec):
    b = gen.build_simplicial(case)
    note(rec, b)
    T = TopologySimplicial.from_simplices(b['cells'])
    equal(T.elements[-1], b['cells'], 'the given cells are the top elements, in the given order')
    models.check_chain_complex(T, 'simplicial')
    # the k-th facet listed for a cell is the one opposite its k-th corner
    for n in range(2, T.n_dim + 1):
        I = np.asarray(T.incidence[n, n - 1])
        E, F = T.elements[n], T.elements[n - 1]
        for c, row in zip(E, I):
            for k, i in enumerate(row):
                require(set(F[i]) == set(c) - {c[k]}, 'facet %d of a %d-element is not opposite to corner %d' % (k, n, k))
    T2 = TopologySimplicial.from_elements(b['cells'])
    for m, q in zip(T.matrices, T2.matrices):
        equal(m, q, 'from_elements')
    if T.n_dim == 2:
        T3 = T.as_2()
        models.check_chain_complex(T3, 'simplicial', 'as_2: ')
        for m, q in zip(T.matrices, T3.matrices):
            equal(m, q, 'as_2')
    # relations to the own dimension and vertices
    for n in range(T.n_dim + 1):
        equal(T.matrix(n, n), np.eye(T.n_elements[n], dtype=int), 'matrix(n, n)')
    for n in range(1, T.n_dim + 1):
        V = np.zeros((T.n_elements[0], T.n_elements[n]), dtype=int)
        for j, e in enumerate(T.elements[n]):
            V[e, j] = 1
        equal(T.matrix(n, 0), V, 'matrix(n, 0) is the vertex incidence')


@P.sub('doubled', gen.doubled().filter(lambda r: (r[0] in gen.DOUBLED_CUBICAL) == False), n=100)
def doubled(case, rec):
    b = gen.build_doubled(case)
    rec.nt(len(b['cells']) > 1)
    rec.label(case[0])
    T = TopologySimplicial.from_simplices(b['cells'])
    equal(T.elements[-1], b['cells'], 'the given cells are the top elements, in the given order')
    models.check_chain_complex(T, 'simplicial')


@P.sub('rejects_bad', st.tuples(CELLS, st.integers(0, 200), st.integers(0, 200), st.integers(0, 3)).map(list), n=800)
def bad(case, rec):
    r, i, j, k = case
    b = gen.build_simplicial(r)
    note(rec, b)
    cells = b['cells']
    # a gap in the vertex numbering is rejected
    gap = cells.copy()
    gap[gap >= i % b['n_vertices']] += 1
    raises(ValueError, lambda: TopologySimplicial.from_simplices(gap), 'gap in the vertex range')
    # arrays that do not fit together are rejected
    T = TopologySimplicial.from_simplices(cells)
    n = k % T.n_dim
    for what, e, bd, o in (('boundary and signs of unequal shape', None, None, lambda q: q[:, :-1]),
                           ('signs of another type', None, None, lambda q: q.astype(np.float64)),
                           ('boundary of another type', None, lambda q: q.astype(np.float64), None),
                           ('elements of another type', lambda q: q.astype(np.float64), None, None)):
        parts = [[(f(q) if f is not None and i == n else q) for i, q in enumerate(l)] for f, l in ((e, T.elements), (bd, T._boundary), (o, T._orientation))]
        raises(ValueError, lambda: TopologySimplicial(elements=parts[0], boundary=parts[1], orientation=parts[2]), what)
    # a corrupted sign makes the self-check of the chain complex fail
    T = TopologySimplicial.from_simplices(cells)
    T.check_chain()
    if T.n_dim >= 2:
        O = [o.copy() for o in T._orientation]
        n = k % T.n_dim
        o = O[n]
        if n == 0:
            # flipping one end of one edge only
            o[j % len(o), i % o.shape[1]] *= -1
        else:
            o[j % len(o), i % o.shape[1]] *= -1
        bad = TopologySimplicial(elements=T.elements, boundary=T._boundary, orientation=O)
        M = [models.dense(m).astype(int) for m in bad.matrices]
        broken = any(M[q].dot(M[q + 1]).any() for q in range(T.n_dim - 1))
        rec.label('corrupted' if broken else 'still closed')
        if broken:
            raises(ValueError, bad.check_chain, 'check_chain on a complex whose boundary of boundary is not zero')
        else:
            bad.check_chain()


@P.sub('high', gen.simplicial(dims=(5, 5, 6), ops=('st', 'rm', 'wedge'), max_ops=2, orient=('keep', 'random')), n=60)
def high(case, rec):
    chain(case, rec)


@P.sub('large', gen.large('simplicial', dims=(1, 2, 3, 3), orient=('keep', 'random')), n=16)
def large(case, rec):
    chain(case, rec)


huge.register(P, huge.SIMPLICIAL, huge.chain)
