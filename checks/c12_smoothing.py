import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models
from lib.pbt import Property, require, equal, close
from checks.c09_transfers import carriers, expected_transfer, cube_ancestry

from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian
from pycomplex.complex.cubical import ComplexCubical

P = Property('C12', rule='Random simplicial and cubical complexes with random vertex positions in 1 to 4 dimensions and random creases on '
             'vertices, edges and faces; smoothed positions are compared with a direct evaluation of the averaging rule; '
             'non-trivial: more than one cell.')


def reference(T, x, creases):
    """vertex: mean of the centroids of its crease elements of the lowest dimension that has any; cells always count"""
    n = T.n_dim
    out = np.full(x.shape, np.nan)
    done = np.zeros(len(x), dtype=bool)
    for k in range(n + 1):
        c = np.asarray(creases.get(k, np.zeros(T.n_elements[k]))) if k < n else np.ones(T.n_elements[n])
        acc, cnt = np.zeros(x.shape), np.zeros(len(x))
        for i, e in enumerate(T.corners[k]):
            if c[i] != 0:
                m = x[np.asarray(e)].mean(axis=0)
                for v in e:
                    acc[v] += m
                    cnt[v] += 1
        for v in range(len(x)):
            if cnt[v] and not done[v]:
                out[v] = acc[v] / cnt[v]
                done[v] = True
    return out


def make_creases(T, noise, dims):
    nz = gen.Noise(noise)
    out = {}
    for k in range(T.n_dim):
        if dims >> k & 1:
            out[k] = (nz.ints(T.n_elements[k]) % 4 == 0).astype(int) * (1 - 2 * (nz.ints(T.n_elements[k]) % 2 == 0).astype(int))
    return out


def check_smooth(C, creases, rec):
    T, x = C.topology, C.vertices
    before = x.copy()
    kept = {k: c.copy() for k, c in creases.items()}
    want = reference(T, x, creases)
    got = C.smooth(creases or None)
    require(type(got) is type(C) and got.topology is T, 'smoothing keeps type and topology')
    close(got.vertices, want, 'smoothed positions')
    op = C.smooth_operator(creases or None)
    require(op.shape == (len(x), len(x)), 'shape of the smoothing operator')
    close(op.dot(x), want, 'smoothing operator applied to the positions')
    equal(x, before, 'smoothing leaves the complex alone')
    for k in creases:
        equal(creases[k], kept[k], 'smoothing leaves the creases alone')
    # any other positions
    y = np.random.normal(size=(len(x), 2))
    close(op.dot(y), reference(T, y, creases), 'smoothing operator applied to a field')
    if creases:
        rec.label('creases=%s' % ''.join(str(k) for k in sorted(creases)))


POS = st.tuples(gen.noise(16), st.integers(1, 4), gen.noise(16), st.integers(0, 7), st.booleans()).map(list)


@P.sub('simplicial', st.tuples(gen.simplicial(dims=(1, 2, 2, 3), ops=('st', 'rm', 'union', 'wedge', 'pinch'), orient=('keep', 'random')), POS).map(list), n=1200)
def simplicial(case, rec):
    r, (pos, dim, cr, dims, base) = case
    b = gen.build_simplicial(r)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'])
    T = TopologySimplicial.from_simplices(b['cells'])
    x = gen.Noise(pos).floats(T.n_elements[0], max(dim, b['d']))
    C = ComplexSimplicialEuclidian(vertices=x, topology=T)
    creases = make_creases(T, cr, dims)
    check_smooth(C, creases, rec)
    if b['d'] != 2:
        return
    # loop subdivision; midpoints in any case
    A = ComplexTriangularEuclidian(vertices=x, topology=T.as_2())
    S = T.as_2().subdivide_loop()
    mid = np.concatenate([x, x[T.elements[1]].mean(axis=1)])
    car = carriers(T, 'simplicial', (0, 1))
    fine_creases = {k: expected_transfer(T, S, k, car).dot(c) for k, c in creases.items()}
    want = reference(S, mid, fine_creases)
    for smooth, w in [(False, mid), (True, want)]:
        op = A.subdivide_loop_operator(smooth=smooth, creases=creases or None)
        require(op.shape == (len(mid), len(x)), 'shape of the loop subdivision operator')
        close(op.dot(x), w, 'loop subdivision operator, smooth=%s' % smooth)
        # the direct way, provided edges do not degenerate
        L = np.linalg.norm(x[T.elements[1][:, 0]] - x[T.elements[1][:, 1]], axis=1)
        if L.min() > 1e-3 * (np.abs(x).max() + 1):
            F = A.subdivide_loop(smooth=smooth, creases=creases or None)
            require(type(F) is type(A), 'loop: type')
            close(F.vertices, w, 'loop subdivision, smooth=%s' % smooth, tol=1e-6)
            rec.label('direct')
            if not smooth:
                close(A.subdivide_loop(creases=creases or None).vertices, w, 'loop subdivision is linear by default', tol=1e-6)
    close(A.subdivide_loop_operator().dot(x), mid, 'loop subdivision operator is linear by default')
    close(A.subdivide_loop_operator(creases=creases or None).dot(x), mid, 'loop subdivision operator is linear by default')


@P.sub('cubical', st.tuples(gen.cubical(dims=(1, 2, 2, 3), orient=('keep', 'random')), POS).map(list), n=800)
def cubical(case, rec):
    r, (pos, dim, cr, dims, base) = case
    b = gen.build_cubical(r)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'])
    T = TopologyCubical.from_cubes(b['cells'])
    x = gen.Noise(pos).floats(T.n_elements[0], dim)
    C = ComplexCubical(vertices=x, topology=T)
    creases = make_creases(T, cr, dims)
    check_smooth(C, creases, rec)
    if sum(T.n_elements) > 250:
        return
    S = T.subdivide_cubical()
    pos = np.concatenate([x[np.asarray(c).reshape(len(c), -1)].mean(axis=1) for c in T.corners])
    fine_creases = {k: cube_ancestry(T, S, k).dot(c) for k, c in creases.items()}
    want = reference(S, pos, fine_creases)
    for smooth, w in [(False, pos), (True, want)]:
        op = C.subdivide_operator(smooth=smooth, creases=creases or None)
        require(op.shape == (len(pos), len(x)), 'shape of the subdivision operator')
        close(op.dot(x), w, 'subdivision operator, smooth=%s' % smooth)
        F = C.subdivide_cubical(smooth=smooth, creases=creases or None)
        require(type(F) is type(C) and F.parent is C, 'cubical: type and parent')
        close(F.vertices, w, 'cubical subdivision, smooth=%s' % smooth)
    close(C.subdivide_operator(creases=creases or None).dot(x), pos, 'subdivision operator is linear by default')
    close(C.subdivide_cubical(creases=creases or None).vertices, pos, 'cubical subdivision is linear by default')


@P.sub('high_simplicial', st.tuples(gen.simplicial(dims=(4, 5), ops=('st', 'rm'), max_ops=2, orient=('keep', 'random')), POS).map(list), n=40)
def high_simplicial(case, rec):
    simplicial(case, rec)


@P.sub('high_cubical', st.tuples(gen.cubical(dims=(4, 4, 5), kinds=('grid', 'surf'), orient=('keep', 'random')), POS).map(list), n=30)
def high_cubical(case, rec):
    cubical(case, rec)


@P.sub('large', st.tuples(gen.large('simplicial', dims=(1, 2)), POS).map(list), n=8)
def large(case, rec):
    r, (pos, dim, cr, dims, base) = case
    b = gen.build_simplicial(r)
    rec.nt()
    T = TopologySimplicial.from_simplices(b['cells'])
    C = ComplexSimplicialEuclidian(vertices=gen.Noise(pos).floats(T.n_elements[0], max(dim, b['d'])), topology=T)
    check_smooth(C, make_creases(T, cr, dims), rec)
