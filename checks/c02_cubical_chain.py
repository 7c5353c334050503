import numpy as np
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, raises

from pycomplex.topology.cubical import TopologyCubical, generate_cube_boundary, relative_cube_parity

P = Property('C02', rule='Random cubical cell arrays of dimension 1-6 (grids, periodic and twisted grids, hypercube surfaces, '
             'cubes from split simplices with irregular vertices; removed cells; random cell order, vertex labels and a random '
             'element of the hyperoctahedral group applied to each cell); non-trivial: at least two cells and dimension >= 2, or '
             'at least three cells in dimension 1.')

CELLS = gen.cubical(dims=(1, 2, 2, 3, 3, 4), orient=('keep', 'random'))


def note(rec, b):
    rec.nt(len(b['cells']) >= (3 if b['d'] == 1 else 2))
    rec.label('d=%d' % b['d'], 'cells<10' if len(b['cells']) < 10 else 'cells>=10')


@P.sub('chain_complex', CELLS, n=2000)
def chain(case, rec):
    b = gen.build_cubical(case)
    note(rec, b)
    T = TopologyCubical.from_cubes(b['cells'])
    equal(T.elements[-1], b['cells'], 'the given cells are the top elements, in the given order')
    models.check_chain_complex(T, 'cubical')
    T2 = TopologyCubical.from_elements(b['cells'])
    for m, q in zip(T.matrices, T2.matrices):
        equal(m, q, 'from_elements')
    if T.n_dim == 2:
        T3 = T.as_2()
        models.check_chain_complex(T3, 'cubical', 'as_2: ')
    for n in range(T.n_dim + 1):
        equal(T.matrix(n, n), np.eye(T.n_elements[n], dtype=int), 'matrix(n, n)')
    for n in range(1, T.n_dim + 1):
        V = np.zeros((T.n_elements[0], T.n_elements[n]), dtype=int)
        for j, e in enumerate(T.corners[n]):
            V[e, j] = 1
        equal(T.matrix(n, 0), V, 'matrix(n, 0) is the vertex incidence')
    # the boundary arrays keep the structure of the cube: [cell, axis, side]
    for n in range(2, T.n_dim + 1):
        I = np.asarray(T.incidence[n, n - 1])
        require(I.shape == (T.n_elements[n], n, 2), 'shape of the incidence array')
        F = T.elements[n - 1]
        for c, row in zip(T.elements[n], I):
            for a in range(n):
                for s in range(2):
                    require(models.key(F[row[a, s]]) == models.key(np.take(c, s, axis=a)),
                            'facet [axis, side] of the incidence array of a %d-cube' % n)


@P.sub('doubled', gen.doubled().filter(lambda r: (r[0] in gen.DOUBLED_CUBICAL) == True), n=100)
def doubled(case, rec):
    b = gen.build_doubled(case)
    rec.nt(len(b['cells']) > 1)
    rec.label(case[0])
    T = TopologyCubical.from_cubes(b['cells'])
    equal(T.elements[-1], b['cells'], 'the given cells are the top elements, in the given order')
    models.check_chain_complex(T, 'cubical')


@P.sub('rejects_bad', st.tuples(CELLS, st.integers(0, 200), st.integers(0, 200), st.integers(0, 3), st.integers(0, 20)).map(list), n=600)
def bad(case, rec):
    r, i, j, k, l = case
    b = gen.build_cubical(r)
    note(rec, b)
    cells = b['cells']
    gap = cells.copy()
    gap[gap >= i % b['n_vertices']] += 1
    raises(ValueError, lambda: TopologyCubical.from_cubes(gap), 'gap in the vertex range')
    raises(ValueError, lambda: TopologyCubical.from_cubes(cells[..., :1]), 'wrong cube shape')
    T = TopologyCubical.from_cubes(cells)
    if T.n_dim >= 2:
        O = [o.copy() for o in T._orientation]
        n = k % T.n_dim
        o = O[n].reshape(len(O[n]), -1)
        o[j % len(o), i % o.shape[1]] *= -1
        O[n] = o.reshape(O[n].shape)
        bad = TopologyCubical(elements=T.elements, boundary=T._boundary, orientation=O)
        M = [models.dense(m).astype(int) for m in bad.matrices]
        broken = any(M[q].dot(M[q + 1]).any() for q in range(T.n_dim - 1))
        rec.label('corrupted' if broken else 'still closed')
        if broken:
            raises(ValueError, bad.check_chain, 'check_chain on a complex whose boundary of boundary is not zero')
        else:
            bad.check_chain()


@st.composite
def parity_case(draw):
    n = draw(st.integers(1, 6))
    return {'n': n, 'ops': draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 5), st.integers(0, 5)), max_size=9)),
            'swap': draw(st.one_of(st.none(), st.tuples(st.integers(0, 63), st.integers(0, 63))))}


@P.sub('cube_parity', parity_case(), n=2400)
def cube_parity(case, rec):
    """Parity of a random word in the generators of the hyperoctahedral group; non-symmetries are rejected"""
    n = case['n']
    c = np.arange(2 ** n).reshape((2,) * n)
    p = 0
    for kind, a, b in case['ops']:
        a, b = a % n, b % n
        if kind:
            c = np.flip(c, axis=a)
            p ^= 1
        elif a != b:
            c = np.swapaxes(c, a, b)
            p ^= 1
    ref = np.arange(2 ** n).reshape((2,) * n)
    if case['swap']:
        i, j = (q % (2 ** n) for q in case['swap'])
        f = c.flatten()
        f[[i, j]] = f[[j, i]]
        c = f.reshape(c.shape)
        p = gen.cube_relative_parity(c, ref)
    rec.nt(n > 1 and len(case['ops']) > 1)
    if p is None:
        rec.label('not a symmetry')
        raises(ValueError, lambda: relative_cube_parity(c[None]), 'vertex order that is no symmetry of the cube')
    else:
        require(int(relative_cube_parity(c[None])[0]) == p, 'parity of cube symmetry')


@P.sub('faces', st.tuples(st.integers(1, 6), st.integers(1, 3), st.integers(1, 6), gen.noise(24)).map(list), n=800)
def faces(case, rec):
    """generate_cube_boundary of any degree lists every face of that dimension once, with its axes"""
    n, count, degree, bits = case
    degree = 1 + (degree - 1) % n
    rec.nt(degree < n)
    cubes = gen.Noise(bits).perm(count * 2 ** n).reshape((count,) + (2,) * n)
    b, corners = generate_cube_boundary(cubes, degree=degree, return_corners=True)
    for c, row in zip(cubes, b):
        m = n - degree
        got = sorted(models.key(f) for f in row.reshape((-1,) + (2,) * m))
        want = sorted(models.key(f) for f in models.cube_faces(c, m))
        require(got == want, 'faces of dimension %d of a %d-cube' % (m, n))
        for comb, corner in zip(row, corners):
            axes = np.flatnonzero(corner)
            require(len(axes) == degree, 'number of fixed axes')
            for q in np.ndindex(*(2,) * degree):
                ix = [slice(None)] * n
                for a, s in zip(axes, q):
                    ix[a] = s
                require(models.key(comb[q]) == models.key(c[tuple(ix)]), 'face is indexed by the sides of its fixed axes')


@P.sub('high', gen.cubical(dims=(5, 5, 5, 6), kinds=('grid', 'surf'), orient=('keep', 'random')), n=50)
def high(case, rec):
    chain(case, rec)
    rec.nt()


@P.sub('large', gen.large('cubical', dims=(1, 2, 3, 3), orient=('keep', 'random')), n=16)
def large(case, rec):
    chain(case, rec)


huge.register(P, huge.CUBICAL, huge.chain)
