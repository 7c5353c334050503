import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, huge, models
from lib.pbt import Property, require, equal, close

from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular
from pycomplex.topology.cubical import TopologyCubical

P = Property('C08', rule='Random simplicial and cubical complexes (any numbering, cell order and orientation, closed or bounded, manifold or '
             'not) under every topological subdivision, and compositions of two; the fine cells are compared with the chains of '
             'faces of the coarse cells; non-trivial: at least two coarse cells.')


def face_index(T):
    """dict: vertex key of coarse k-element -> index, for each k; and the offset of each k in the fine vertices"""
    idx = [{models.key(e): i for i, e in enumerate(c)} for c in T.corners]
    off = np.cumsum([0] + [len(c) for c in T.corners])
    return idx, off


def local_simplex(c):
    d = len(c) - 1
    X = np.concatenate([np.zeros((1, d)), np.eye(d)])
    return {int(v): X[i] for i, v in enumerate(c)}


def local_cube(c):
    return {int(c[q]): np.array(q, dtype=float) for q in itertools.product([0, 1], repeat=c.ndim)}


def sub_faces(c, kind):
    """all faces of a cell as list over k of list of keys"""
    if kind == 'simplicial':
        d = len(c) - 1
        return [[models.key(f) for f in itertools.combinations(sorted(int(v) for v in c), k + 1)] for k in range(d + 1)]
    d = c.ndim
    return [sorted({models.key(f) for f in models.cube_faces(c, k)}) for k in range(d + 1)]


def flags(c, kind):
    F = sub_faces(c, kind)
    out = [[f] for f in F[0]]
    for k in range(1, len(F)):
        out = [p + [f] for p in out for f in F[k] if set(p[-1]) <= set(f)]
    return out


def check_cells(fine, expected, charts, fine_kind, msg):
    """expected: list of (parent cell, frozenset of fine vertices); charts: parent -> {fine vertex: local position}.
    Fine cells must be exactly these, and each must have the orientation of its parent up to one global sign"""
    cells = fine.elements[-1]
    keys = [models.key(c) for c in cells]
    want = {tuple(sorted(k)): p for p, k in expected}
    require(len(set(keys)) == len(keys), msg + 'duplicate fine cells')
    require(set(keys) == set(want), msg + 'fine cells are not those spanned by the faces of the coarse cells (%d, expected %d)' % (len(keys), len(want)))
    signs = set()
    d = fine.n_dim
    for c, k in zip(cells, keys):
        chart = charts[want[k]]
        if fine_kind == 'simplicial':
            x = np.array([chart[int(v)] for v in c])
            signs.add(int(np.sign(np.linalg.det(x[1:] - x[0]))))
        else:
            o = chart[int(c[(0,) * d])]
            x = np.array([chart[int(c[tuple(int(i == j) for j in range(d))])] - o for i in range(d)])
            signs.add(int(np.sign(np.linalg.det(x))))
    return signs


def check_oriented(signs, msg):
    require(len(signs) == 1 and 0 not in signs, msg + 'fine cells do not all inherit the orientation of their coarse cell')


def charts_of(T, kind, idx, off):
    """local positions of all fine vertices (barycentres of faces) in each coarse cell"""
    out = {}
    for j, c in enumerate(T.elements[-1]):
        X = local_simplex(c) if kind == 'simplicial' else local_cube(np.asarray(c))
        ch = {}
        for k, fs in enumerate(sub_faces(np.asarray(c), kind)):
            for f in fs:
                ch[int(off[k] + idx[k][f])] = np.mean([X[v] for v in f], axis=0)
        out[j] = ch
    return out


def fundamental(T, kind, msg='fundamental: '):
    idx, off = face_index(T)
    exp = []
    for j, c in enumerate(T.elements[-1]):
        for fl in flags(np.asarray(c), kind):
            exp.append((j, frozenset(int(off[k] + idx[k][f]) for k, f in enumerate(fl))))
    charts = charts_of(T, kind, idx, off)
    S = T.subdivide_fundamental()
    signs = check_cells(S, exp, charts, 'simplicial', msg)
    check_oriented(signs, msg)
    require(S.n_elements[0] == sum(T.n_elements), msg + 'one fine vertex per coarse element')
    require(S.parent is T, msg + 'parent')
    if kind == 'simplicial':
        U = T.subdivide_fundamental(oriented=False)
        signs = check_cells(U, exp, charts, 'simplicial', msg)
        for c in U.elements[-1]:
            require(all(off[k] <= v < off[k + 1] for k, v in enumerate(c)), msg + 'unoriented: corner k of a fine cell sits on a coarse k-element')
    D = T.fundamental_domains()
    D = D.reshape(len(T.elements[-1]), -1, T.n_dim + 1)
    for j, c in enumerate(T.elements[-1]):
        want = sorted(tuple(idx[k][f] for k, f in enumerate(fl)) for fl in flags(np.asarray(c), kind))
        require(sorted(map(tuple, D[j].tolist())) == want, msg + 'fundamental domains of a cell')
    return S


def to_cubical(T, kind, msg='cubical: '):
    idx, off = face_index(T)
    exp = []
    for j, c in enumerate(T.elements[-1]):
        F = sub_faces(np.asarray(c), kind)
        for (v,) in F[0]:
            exp.append((j, frozenset(int(off[k] + idx[k][f]) for k in range(len(F)) for f in F[k] if v in f)))
    S = T.subdivide_cubical()
    # for d == 2, 3 a fine cube has 2^d corners, as many as there are faces around a corner
    signs = check_cells(S, exp, charts_of(T, kind, idx, off), 'cubical', msg)
    if kind == 'simplicial' and T.n_dim == 3:
        # here the orientation of the cubes is left to the caller
        if models.is_consistent(T.elements[-1], kind):
            S = S.fix_orientation()
            check_cells(S, exp, charts_of(T, kind, idx, off), 'cubical', msg)
    else:
        check_oriented(signs, msg)
    require(S.n_elements[0] == sum(T.n_elements), msg + 'one fine vertex per coarse element')
    models.check_chain_complex(S, 'cubical', msg)
    return S


def loop(T, S, msg):
    idx, off = face_index(T)
    exp = []
    charts = {}
    for j, c in enumerate(T.elements[-1]):
        X = local_simplex(c)
        ch = {int(v): X[int(v)] for v in c}
        e = {}
        for a, b in itertools.combinations([int(v) for v in c], 2):
            e[frozenset((a, b))] = int(off[1] + idx[1][models.key((a, b))])
            ch[e[frozenset((a, b))]] = (X[a] + X[b]) / 2
        charts[j] = ch
        exp.append((j, frozenset(e.values())))
        for v in c:
            exp.append((j, frozenset([int(v)] + [q for f, q in e.items() if int(v) in f])))
    check_oriented(check_cells(S, exp, charts, 'simplicial', msg), msg)
    require(S.n_elements[0] == T.n_elements[0] + T.n_elements[1], msg + 'one new vertex per edge')
    models.check_chain_complex(S, 'simplicial', msg)
    require(S.parent is T, msg + 'parent')
    # four fine triangles per coarse one, in the order of the parents, the central one first
    for i, c in enumerate(S.elements[-1]):
        require(set(int(v) for v in c) <= set(charts[i // 4]), msg + 'fine triangles are listed by parent')
    for j in range(T.n_elements[2]):
        require((S.elements[-1][4 * j] >= T.n_elements[0]).all(), msg + 'the central triangle comes first')
    return S


def stellar(T, msg='simplicial: '):
    exp, charts = [], {}
    n0 = T.n_elements[0]
    for j, c in enumerate(T.elements[-1]):
        X = local_simplex(c)
        tip = n0 + j
        charts[j] = dict(X)
        charts[j][tip] = np.mean(list(X.values()), axis=0)
        for v in c:
            exp.append((j, frozenset([int(w) for w in c if w != v] + [tip])))
    S = T.subdivide_simplicial()
    check_oriented(check_cells(S, exp, charts, 'simplicial', msg), msg)
    require(S.n_elements[0] == n0 + T.n_elements[-1], msg + 'one new vertex per cell')
    return S


def quad_to_tri(T, msg='quads to triangles: '):
    exp, charts = [], {}
    n0 = T.n_elements[0]
    for j, c in enumerate(T.elements[-1]):
        X = local_cube(np.asarray(c))
        tip = n0 + j
        charts[j] = dict(X)
        charts[j][tip] = np.full(2, .5)
        for f in models.cube_faces(np.asarray(c), 1):
            exp.append((j, frozenset([int(v) for v in f] + [tip])))
    S = T.as_2().subdivide_simplicial()
    check_oriented(check_cells(S, exp, charts, 'simplicial', msg), msg)
    require(S.n_elements[0] == n0 + T.n_elements[-1], msg + 'one new vertex per quad')
    for i, c in enumerate(S.elements[-1]):
        require(set(int(v) for v in c) <= set(charts[i // 4]), msg + 'fine triangles are listed by parent')
    return S


def invariants(T, S, kind, fine_kind, msg):
    """properties that follow for the whole: Euler characteristic, orientability, connectivity, boundary"""
    chi = lambda t: sum((-1) ** k * int(n) for k, n in enumerate(t.n_elements))
    require(chi(T) == chi(S), msg + 'Euler characteristic')
    if len(S.elements[-1]) > 400:
        return
    require(T.label_connections()[0] == S.label_connections()[0], msg + 'number of components')
    if models.is_consistent(T.elements[-1], kind):
        require(bool(S.is_oriented), msg + 'fine topology of an oriented one is oriented')
        require(bool(S.is_closed) == bool(T.is_closed), msg + 'closedness')


SIMP = gen.simplicial(dims=(1, 2, 2, 3), top=2, ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'random'), max_ops=3)
SIMP2 = gen.simplicial(dims=(2,), top=3, ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'random'), max_ops=4)
SMALL3 = gen.simplicial(dims=(2, 3), top=2, ops=('st', 'rm', 'union', 'pinch'), orient=('keep', 'random'), max_ops=3)


@P.sub('simplicial', st.tuples(SIMP, st.booleans()).map(list), n=200)
def simplicial(case, rec):
    r, twice = case
    b = gen.build_simplicial(r)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'])
    T = TopologySimplicial.from_simplices(b['cells'])
    S = fundamental(T, 'simplicial')
    if len(S.elements[-1]) < 200:
        models.check_chain_complex(S, 'simplicial', 'fundamental: ')
    invariants(T, S, 'simplicial', 'simplicial', 'fundamental: ')
    Q = stellar(T)
    invariants(T, Q, 'simplicial', 'simplicial', 'simplicial: ')
    if twice and b['d'] < 3 and len(b['cells']) < 10:
        rec.label('composed')
        stellar(S, 'fundamental, simplicial: ')


@P.sub('loop', st.tuples(SIMP2, st.sampled_from(['', 'l', 'd', 'ld', 'dl', 'dd'])).map(list), n=150)
def loop_(case, rec):
    r, ops = case
    b = gen.build_simplicial(r)
    rec.nt(len(b['cells']) > 1)
    T = TopologySimplicial.from_simplices(b['cells']).as_2()
    if len(b['cells']) > 20:
        ops = ops[:1]
    S = loop(T, T.subdivide_loop(), 'loop: ')
    invariants(T, S, 'simplicial', 'simplicial', 'loop: ')
    S = loop(T, T.subdivide_loop_direct(), 'loop direct: ')
    invariants(T, S, 'simplicial', 'simplicial', 'loop direct: ')
    I21, E20, E10 = S.incidence[2, 1], S.elements[2], S.elements[1]
    for t in range(len(E20)):
        for k in range(3):
            require(set(E10[I21[t, k]]) == set(E20[t]) - {E20[t, k]}, 'loop direct: column k of the triangle-edge incidence is opposite to corner k')
    for o in ops:
        rec.label('composed')
        S = T.subdivide_loop() if o == 'l' else T.subdivide_loop_direct()
        loop(T, S, 'composed loop: ')
        T = S


@P.sub('simplicial_to_cubical', SMALL3, n=120)
def simplicial_to_cubical(case, rec):
    b = gen.build_simplicial(case)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'])
    T = TopologySimplicial.from_simplices(b['cells'])
    if b['d'] == 2:
        T = T.as_2()
    S = to_cubical(T, 'simplicial')
    invariants(T, S, 'simplicial', 'cubical', 'simplices to cubes: ')


@P.sub('cubical', st.tuples(gen.cubical(dims=(1, 2, 2, 3), orient=('keep', 'random')), st.booleans()).map(list), n=120)
def cubical(case, rec):
    r, twice = case
    b = gen.build_cubical(r)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'])
    T = TopologyCubical.from_cubes(b['cells'])
    S = to_cubical(T, 'cubical')
    require(S.parent is T, 'cubical: parent')
    invariants(T, S, 'cubical', 'cubical', 'cubical: ')
    if b['d'] > 1:
        F = fundamental(T, 'cubical', 'cubical fundamental: ')
        invariants(T, F, 'cubical', 'simplicial', 'cubical fundamental: ')
    if b['d'] == 2:
        Q = quad_to_tri(T)
        invariants(T, Q, 'cubical', 'simplicial', 'quads to triangles: ')
        if twice and len(b['cells']) < 6:
            rec.label('composed')
            fundamental(S, 'cubical', 'cubical, fundamental: ')
            to_cubical(Q, 'simplicial', 'quads to triangles to quads: ')


@P.sub('high', st.one_of(st.tuples(st.just('s'), gen.simplicial(dims=(4, 4, 5), kinds=('stacked', 'dsimplex'), ops=('st',), max_ops=1, orient=('keep', 'random'))),
                        st.tuples(st.just('c'), gen.cubical(dims=(4, 4, 5), kinds=('grid',), top=1, orient=('keep', 'random')))).map(list), n=16)
def high(case, rec):
    kind, r = case
    rec.nt()
    if kind == 's':
        if r['base'][0] == 'stacked':
            r = dict(r, base=['stacked', r['base'][1], r['base'][2][:2]])
        b = gen.build_simplicial(r)
        rec.label('simplicial, d=%d' % b['d'])
        T = TopologySimplicial.from_simplices(b['cells'])
        invariants(T, stellar(T), 'simplicial', 'simplicial', 'simplicial: ')
        if len(b['cells']) > 3 and b['d'] > 4:
            return
        S = fundamental(T, 'simplicial')
        invariants(T, S, 'simplicial', 'simplicial', 'fundamental: ')
    else:
        b = gen.build_cubical(r)
        rec.label('cubical, d=%d' % b['d'])
        T = TopologyCubical.from_cubes(b['cells'])
        S = to_cubical(T, 'cubical')
        invariants(T, S, 'cubical', 'cubical', 'cubical: ')
        if b['d'] == 4:
            F = fundamental(T, 'cubical', 'cubical fundamental: ')


@P.sub('large', st.tuples(gen.large('simplicial', dims=(2,), orient=('keep', 'random')), st.sampled_from(['', 'l', 'd'])).map(list), n=6)
def large(case, rec):
    loop_(case, rec)


huge.register(P, ('line', 'tri', 'curve', 'quad'), huge.subdivision, consistent=True)
