"""Histories of copies, placements, subsets and casts of complexes against a model of plain arrays"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models, reg
from lib.pbt import Property, require, equal, close, raises

from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian, ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
from pycomplex.complex.simplicial.spherical import ComplexSpherical, ComplexSpherical2
from pycomplex.complex import cubical
from pycomplex.topology.simplicial import TopologySimplicial
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3

P = Property('C31', rule='Random histories of up to ten operations (copies, placements, subsets, orientation, boundaries, casts, and evaluation of derived quantities), each '
             'applied to any earlier complex of the history, starting from random complexes of every type; non-trivial: at least three operations changed something.')


class State(object):
    """the complex, and the arrays it should consist of"""
    def __init__(self, C, cls, x, cells, w=None, R=None, parent=None):
        self.C, self.cls, self.x, self.cells, self.w, self.R, self.parent = C, cls, x, np.asarray(cells), w, R, parent
        self.seen = {}


def fresh(s, first=False):
    """build the same complex from the arrays"""
    kw = {}
    if s.w is not None:
        kw['weights'] = s.w.copy()
    if s.R is not None:
        kw['radius'] = s.R
    if issubclass(s.cls, ComplexTriangularEuclidian):
        kw['triangles'] = s.cells.copy()
    elif issubclass(s.cls, ComplexCubical):
        kw['cubes'] = s.cells.copy()
    elif s.cls is ComplexSpherical and not first:
        # would orient simplices by itself
        kw['topology'] = TopologySimplicial.from_simplices(s.cells.copy())
    else:
        kw['simplices'] = s.cells.copy()
    return s.cls(vertices=s.x.copy(), **kw)


def cube_like(s):
    return issubclass(s.cls, ComplexCubical)


def dim(s):
    return s.cells.ndim - 1 if cube_like(s) else s.cells.shape[1] - 1


def verify(s, msg):
    C = s.C
    require(type(C) is s.cls, '%s: type %s, expected %s' % (msg, type(C).__name__, s.cls.__name__))
    v = np.asarray(C.vertices)
    require(v.shape == s.x.shape, '%s: shape of vertices' % msg)
    close(v, s.x, msg + ': vertices', tol=1e-10, scale=max(1e-30, np.abs(s.x).max()))
    equal(C.topology.elements[-1], s.cells, msg + ': cells')
    require(C.n_dim == s.x.shape[1], msg + ': n_dim')
    require(C.topology.n_dim == dim(s), msg + ': dimension of the topology')
    if not cube_like(s):
        w = C.weights
        require((w is None) == (s.w is None), msg + ': weights')
        if w is not None:
            equal(w, s.w, msg + ': weights')
    if s.R is not None:
        require(C.radius == s.R, msg + ': radius')


def keyed(T, per, k):
    return {models.key(c): per[i] for i, c in enumerate(T.corners[k])}


def oriented(s):
    """are cells that share a facet oriented oppositely there; None where a facet has more than two cells"""
    t = gen.cube_facet_table(list(s.cells)) if cube_like(s) else gen.facet_table([tuple(int(q) for q in c) for c in s.cells])
    t = t[0] if isinstance(t, tuple) else t
    if any(len(l) > 2 for l in t.values()):
        return None
    return all(len(l) < 2 or l[0][1] != l[1][1] for l in t.values())


def derived(s, msg):
    """derived quantities of the complex are those of a complex newly built of the same arrays"""
    C, F = s.C, fresh(s)
    L = max(1e-30, np.abs(s.x).max())
    equal(C.topology.elements[-1], F.topology.elements[-1], msg + ': cells of a new complex')
    close(C.box, np.array([s.x.min(axis=0), s.x.max(axis=0)]), msg + ': box', tol=1e-10, scale=L)
    require(list(C.topology.n_elements) == list(F.topology.n_elements), msg + ': numbers of elements')
    o = oriented(s)
    if o is not None:
        require(bool(C.topology.is_oriented) == o, msg + ': is_oriented, expected %r' % o)
    PC, PF = C.primal_position, F.primal_position
    ok = {}
    for k in range(dim(s) + 1):
        a, b = keyed(C.topology, PC[k], k), keyed(F.topology, PF[k], k)
        require(set(a) == set(b), msg + ': elements')
        q = np.array([a[f] for f in sorted(a)]), np.array([b[f] for f in sorted(a)])
        sc = max(L, np.abs(q[1]).max())
        close(q[0], q[1], msg + ': positions of %d-elements' % k, tol=1e-10, scale=sc)
        if k == 0:
            close(q[0], s.x[[f[0] for f in sorted(a)]], msg + ': positions of vertices', tol=1e-10, scale=L)
    if o:
        B, G = C.boundary, F.boundary
        require((B is None) == (G is None), msg + ': boundary')
        if B is not None:
            close(B.vertices, G.vertices, msg + ': vertices of the boundary', tol=1e-10, scale=L)
            equal(B.topology.elements[-1], G.topology.elements[-1], msg + ': cells of the boundary')
            close(np.concatenate(C.dual_position), np.concatenate(F.dual_position), msg + ': dual positions', tol=1e-10, scale=max(L, np.abs(np.concatenate(F.dual_position)).max()))
    has_metric = o and (not cube_like(s) or 'Regular' in s.cls.__name__)
    if has_metric and not cube_like(s):
        has_metric = dim(s) >= 1 and geo.is_manifold([tuple(int(q) for q in c) for c in s.cells])
    if has_metric:
        try:
            M = F.metric
        except (AssertionError, NotImplementedError, np.linalg.LinAlgError):
            return
        N = C.metric
        for i in (0, 1):
            for k in range(dim(s) + 1):
                close(N[i][k], M[i][k], msg + ': metric', tol=1e-10, scale=max(1e-30, np.abs(M[i][k]).max()))


def start(case):
    kind, r, weighted, seed = case
    g = geo.rng(seed)
    if kind == 'solid':
        cells, x = geo.build_solid(r)
        C, R = ComplexSimplicialEuclidian, None
    elif kind == 'planar':
        cells, x = geo.build_planar(r)
        C, R = ComplexTriangularEuclidian2, None
    elif kind == 'surface':
        cells, x = geo.build_surface(r)
        C, R = [ComplexTriangularEuclidian3, ComplexTriangularEuclidian, ComplexSimplicialEuclidian][seed % 3], None
    elif kind == 'sphere':
        cells, x = geo.build_sphere(r)
        C, R = [ComplexSpherical2, ComplexSpherical][seed % 2], [1, 2, .5][seed % 3]
    else:
        b = reg.build(r)
        cells, x = np.asarray(b['cells']), b['x']
        d = b['d']
        if kind == 'embedded':
            n = d + 1 + seed % 2 * (d < 3)
            x = np.concatenate([x, np.zeros((len(x), n - d))], axis=1)
            x = x.dot(geo.rotation(seed, n)) + g.normal(size=x.shape) * .01 * np.abs(x).max()
            return State(None, ComplexCubical, x, cells)
        if kind == 'regular':
            C = {1: ComplexRegular1, 2: ComplexRegular2, 3: ComplexRegular3}[d]
        else:
            C = ComplexCubical
        return State(None, C, x, cells)
    cells = np.asarray(cells)
    w = None
    if weighted:
        h = np.linalg.norm(x[cells[:, 0]] - x[cells[:, 1]], axis=1).min()
        w = g.uniform(-1, 1, size=len(x)) * .05 * h ** 2
    return State(None, C, x, cells, w, R)


CASTS = {
    'as_2': {ComplexTriangularEuclidian: ComplexTriangularEuclidian2, ComplexTriangularEuclidian2: ComplexTriangularEuclidian2, ComplexTriangularEuclidian3: ComplexTriangularEuclidian2,
             ComplexSimplicialEuclidian: ComplexTriangularEuclidian},
    'as_3': {q: ComplexTriangularEuclidian3 for q in (ComplexTriangularEuclidian, ComplexTriangularEuclidian2, ComplexTriangularEuclidian3)},
    'as_spherical': {ComplexTriangularEuclidian3: ComplexSpherical2, ComplexSimplicialEuclidian: ComplexSpherical, ComplexTriangularEuclidian: ComplexSpherical},
    'as_euclidian': {ComplexSpherical2: ComplexTriangularEuclidian3, ComplexSpherical: ComplexSimplicialEuclidian},
    'as_regular': {cubical.ComplexCubical1Euclidian1: ComplexRegular1, cubical.ComplexCubical2Euclidian2: ComplexRegular2, cubical.ComplexCubical3Euclidian3: ComplexRegular3},
}
CUBES = {(1, 1): cubical.ComplexCubical1Euclidian1, (1, 2): cubical.ComplexCubical1Euclidian2, (2, 2): cubical.ComplexCubical2Euclidian2,
         (2, 3): cubical.ComplexCubical2Euclidian3, (3, 3): cubical.ComplexCubical3Euclidian3, (4, 4): cubical.ComplexCubical4Euclidian4}

op = st.tuples(st.sampled_from(['copy', 'vertices', 'translate', 'rotate', 'transform', 'scale', 'affine', 'subset', 'orient', 'boundary', 'cast', 'cast', 'line', 'derive', 'derive']),
               st.integers(0, 7), geo.seeds).map(list)
START = st.one_of(
    st.tuples(st.just('solid'), geo.solid(), st.booleans(), geo.seeds),
    st.tuples(st.just('planar'), geo.planar(top=3), st.booleans(), geo.seeds),
    st.tuples(st.just('surface'), geo.surface(max_level=1), st.booleans(), geo.seeds),
    st.tuples(st.just('sphere'), geo.sphere(max_level=1, max_rm=2), st.booleans(), geo.seeds),
    st.tuples(st.just('regular'), reg.regular(dims=(1, 2, 3)), st.just(False), geo.seeds),
    st.tuples(st.just('cubical'), reg.regular(dims=(1, 2, 3, 4)), st.just(False), geo.seeds),
    st.tuples(st.just('embedded'), reg.regular(dims=(1, 2, 2, 3)), st.just(False), geo.seeds),
).map(list)


def step(s, name, seed, rec):
    """returns the next state, or None where the operation does not apply"""
    g = geo.rng(seed)
    C, x, n = s.C, s.x, s.x.shape[1]
    spherical = s.R is not None
    L = max(1e-30, np.abs(x).max())
    kw = dict(cls=s.cls, cells=s.cells, w=s.w, R=s.R, parent=s)
    regular = 'Regular' in s.cls.__name__
    if name == 'copy':
        return State(C.copy(), x=x, **kw)
    if name == 'vertices' and not spherical and not regular:
        y = x + g.normal(size=x.shape) * .01 * L
        t = State(C.copy(vertices=y), x=y.copy(), **kw)
        return t
    if name == 'translate' and not spherical:
        v = g.normal(size=n) * L
        return State(C.translate(v), x=x + v, **kw)
    if name == 'rotate' and not regular:
        M = geo.rotation(seed + 1, n)
        return State(C.transform(M), x=x.dot(M), **kw)
    if name == 'transform' and not spherical and not regular:
        M = np.eye(n) + g.normal(size=(n, n)) * .2
        if abs(np.linalg.det(M)) > .1:
            return State(C.transform(M), x=x.dot(M), **kw)
    if name == 'scale' and not spherical:
        f = [2., .5, 3][seed % 3]
        if s.w is None:
            return State(C.scale(f), x=x * f, **kw)
    if name == 'affine' and not spherical and not regular:
        M = np.zeros((n + 1, n + 1))
        M[:n, :n] = np.eye(n) + g.normal(size=(n, n)) * .1
        M[n, :n] = g.normal(size=n) * L
        M[:n, n] = g.normal(size=n) * .05 / L / n
        M[n, n] = [1, 2][seed % 2]
        y = np.concatenate([x, np.ones((len(x), 1))], axis=1).dot(M)
        if y[:, -1].min() > .2:
            if seed % 3 == 0:
                M = -M          # the same map
            return State(C.affine_transform(M), x=y[:, :-1] / y[:, -1:], **kw)
    if name == 'subset':
        m = len(s.cells)
        if s.w is not None:
            rec.label('weighted subset')
        mask = g.uniform(size=m) < g.uniform(.3, 1)
        mask[g.randint(m)] = True
        used, inv = np.unique(s.cells[mask].reshape(-1), return_inverse=True)
        kw.update(cells=inv.reshape(s.cells[mask].shape), w=None if s.w is None else s.w[used])
        m2 = mask if seed % 2 else mask.astype(np.int8)
        t = State(C.select_subset(m2), x=x[used], **kw)
        raises(ValueError, lambda: C.select_subset(np.append(mask, True)), 'mask of another length')
        return t
    if name == 'orient':
        o = oriented(s)
        if o is None:
            return None
        D = C.fix_orientation()
        kw.update(cells=np.asarray(D.topology.elements[-1]))
        t = State(D, x=x, **kw)
        equal([models.key(c) for c in t.cells], [models.key(c) for c in s.cells], 'fixed orientation keeps the cells')
        require(oriented(t), 'fixed orientation')
        return t
    if name == 'boundary' and dim(s) >= 2 and not regular and not issubclass(s.cls, (ComplexTriangularEuclidian,)) and s.cls in (ComplexSimplicialEuclidian, ComplexCubical):
        if not oriented(s):
            return None
        B = C.boundary
        t = gen.cube_facet_table(list(s.cells)) if cube_like(s) else gen.facet_table([tuple(int(q) for q in c) for c in s.cells])
        t = t[0] if isinstance(t, tuple) else t
        rim = sorted(tuple(sorted(f)) for f, l in t.items() if len(l) == 1)
        require((B is None) == (not rim), 'boundary exists')
        if B is None:
            return None
        used = np.unique(np.array(rim))
        inv = {int(v): i for i, v in enumerate(used)}
        got = sorted(models.key(c) for c in B.topology.elements[-1])
        require(got == sorted(tuple(sorted(inv[int(v)] for v in f)) for f in rim), 'cells of the boundary')
        kw.update(cells=np.asarray(B.topology.elements[-1]), w=None if s.w is None else s.w[used], parent=None)
        return State(B, x=x[used], **kw)
    if name == 'cast':
        kw['parent'] = None
        if cube_like(s):
            names = list(itertools.product(range(1, 5), repeat=2))
            for a, b in names:
                m = 'as_%d%d' % (a, b)
                if (a, b) in CUBES:
                    if (a, b) != (dim(s), n):
                        raises(TypeError, getattr(C, m), 'cast to cubes of another dimension')
            if s.cls in CASTS['as_regular'] and s.cls and regular_ok(s):
                kw['cls'] = CASTS['as_regular'][s.cls]
                return State(C.as_regular(), x=x, **kw)
            if (dim(s), n) in CUBES:
                kw['cls'] = CUBES[dim(s), n]
                return State(getattr(C, 'as_%d%d' % (dim(s), n))(), x=x, **kw)
            return None
        m = ['as_2', 'as_3', 'as_spherical', 'as_euclidian'][seed % 4]
        if s.cls not in CASTS[m]:
            return None
        to = CASTS[m][s.cls]
        if m == 'as_2' and s.cls is ComplexSimplicialEuclidian and dim(s) != 2:
            raises(ValueError, C.as_2, 'cast to triangles of other cells')
            return None
        if m == 'as_2' and s.cls is not ComplexSimplicialEuclidian and n != 2:
            raises(AssertionError, C.as_2, 'cast to the plane')
            return None
        if m == 'as_3' and n != 3:
            raises(AssertionError, C.as_3, 'cast to space')
            return None
        if m == 'as_spherical':
            rad = np.linalg.norm(x, axis=1)
            if s.cls is ComplexTriangularEuclidian3 and rad.max() > rad.min() * 1.01:
                raises(AssertionError, C.as_spherical, 'cast to the sphere of vertices that are not on one')
            if abs(rad - 1).max() > 1e-9 or not oriented(s):
                return None
            kw['R'] = 1
        if m == 'as_euclidian':
            kw['R'] = None
        kw['cls'] = to
        return State(getattr(C, m)(), x=x, **kw)
    if name == 'line' and dim(s) == 1 and not spherical:
        kw['parent'] = None
        if s.cls is ComplexSimplicialEuclidian:
            kw['cls'], kw['w'] = cubical.ComplexCubical1, None
            return State(C.as_cube(), x=x, **kw)
        if isinstance(C, cubical.ComplexCubical1):
            kw['cls'] = ComplexSimplicialEuclidian
            return State(C.to_simplicial(), x=x, **kw)
    return None


def regular_ok(s):
    # axis-aligned boxes
    for c in s.cells:
        p = s.x[c.reshape(-1)]
        for k in range(p.shape[1]):
            q = p[:, k]
            if min(np.abs(q - q.min()).max(), 1) and not np.all((np.abs(q - q.min()) < 1e-12) | (np.abs(q - q.max()) < 1e-12)):
                return False
    return True


@P.sub('history', st.tuples(START, st.lists(op, min_size=4, max_size=10)).map(list), n=1000)
def history(case, rec):
    s = start(case[0])
    s.C = fresh(s, True)
    # spherical complexes orient themselves
    if s.cls is ComplexSpherical:
        s.cells = np.asarray(s.C.topology.elements[-1])
    states = [s]
    rec.label(case[0][0])
    verify(s, 'first complex')
    moves = 0
    for name, back, seed in case[1]:
        s = states[-1 - back % len(states)] if back < 4 else states[-1]
        if name == 'derive':
            derived(s, 'derived from %s' % getattr(s, 'how', 'start'))
            rec.label('derive')
            s.seen = {'primal_position': [np.array(p) for p in s.C.primal_position]}
            continue
        t = step(s, name, seed, rec)
        if t is None:
            continue
        t.how = name
        moves += 1
        rec.label(name)
        verify(t, name)
        if t.parent is not None:
            require(t.C.parent is s.C, '%s: refers to its origin' % name)
        require(t.C is not s.C, '%s: a new complex' % name)
        states.append(t)
    rec.nt(moves >= 3)
    for s in states:
        verify(s, 'in the end')
        for a, b in s.seen.items():
            for p, q in zip(getattr(s.C, a), b):
                equal(p, q, 'derived quantities are left alone')
    derived(states[-1], 'derived in the end, from %s' % getattr(states[-1], 'how', 'start'))
