"""Equal inputs in any memory layout and number type give equal answers"""
import numpy as np
from hypothesis import strategies as st

from checks.c31_values import START, start, State, cube_like, oriented
from lib import geo, gen, queries as Q
from lib.pbt import Property, require

from pycomplex.complex.base import BaseComplex
from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.simplicial.spherical import ComplexSpherical
from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian
from pycomplex.topology.simplicial import TopologySimplicial

P = Property('C37', rule='Complexes of any type are made twice, of plain arrays, and of the same values in another layout (Fortran order, strides, reversed views, write-protected), integer type '
             'or as nested lists, and asked everything, with arguments presented likewise. Non-trivial: the inputs were presented in at least one other way, and at least ten answers compared.')


def build(s, dress):
    kw = {}
    if s.w is not None:
        kw['weights'] = dress(s.w)
    if s.R is not None:
        kw['radius'] = s.R
    cells = dress(s.cells)
    if issubclass(s.cls, ComplexTriangularEuclidian):
        kw['triangles'] = cells
    elif issubclass(s.cls, ComplexCubical):
        kw['cubes'] = cells
    else:
        kw['simplices'] = cells
    return s.cls(vertices=dress(s.x), **kw)


LAYOUTS = ['c', 'f', 'stride', 'reversed', 'repeated', 'list', 'locked', 'swapped']


def present(a, how, kind):
    """the same values"""
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype.kind == 'i':
        a = a.astype([np.int64, np.int32, np.int16, np.uint32][kind % 4] if a.size == 0 or 0 <= a.min() and a.max() < 2 ** 15 else [np.int64, np.int32][kind % 2])
    elif a.dtype.kind == 'f' and kind % 3 and (a == np.round(a)).all() and np.abs(a).max(initial=0) < 1000:
        a = a.astype([np.int64, np.int32][kind % 2])
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'stride':
        b = np.zeros((a.shape[0],) + a.shape[1:] + (2,), dtype=a.dtype) + 5
        b = b.astype(a.dtype)
        b[..., 0] = a
        return b[..., 0]
    if how == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'repeated':
        return np.repeat(a, 2, axis=0)[::2]
    if how == 'locked':
        a = a.copy()
        a.setflags(write=False)
        return a
    if how == 'swapped':
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, -1)), 0, -1)
    return np.array(a)


def signs(C):
    """distance of the geometry from where the sign of a quantity is decided by rounding"""
    if not hasattr(type(C), 'primal_barycentric'):
        return 1
    return min([1] + [np.abs(b).min() for b in C.primal_barycentric if b.size])


@P.sub('everything', st.tuples(START, st.booleans(), st.tuples(*[st.integers(0, 7)] * 3), st.tuples(*[st.integers(0, 11)] * 3), geo.seeds).map(list), n=600)
def everything(case, rec):
    s = start(case[0])
    how, kinds, seed = case[2], case[3], case[4]
    if case[1] and s.R is None:
        # integer coordinates
        g = geo.rng(seed + 1)
        x = s.x - s.x.mean(axis=0)
        x = x / max(1e-30, np.abs(x).max())
        jitter = 0 if 'Regular' in s.cls.__name__ else g.randint(-2, 3, size=x.shape)
        x = np.round(x * 300) + jitter
        if 'Regular' in s.cls.__name__:
            y = np.round(x)
            if any(len(np.unique(y[:, k])) != len(np.unique(np.round(s.x[:, k], 9))) for k in range(y.shape[1])):
                return
        s = State(None, s.cls, x, s.cells, None if s.w is None else np.zeros(len(x)), None)
        rec.label('integers')
    rec.label(case[0][0], LAYOUTS[how[0]], LAYOUTS[how[1]])
    s.x = np.ascontiguousarray(s.x, dtype=float)
    s.cells = np.ascontiguousarray(s.cells, dtype=np.int64)
    A = build(s, lambda a: np.array(a, dtype=np.int32 if a.dtype.kind == 'i' else float))
    made = []

    def dress(a):
        i = 0 if a is s.cells else 1
        if LAYOUTS[how[i]] == 'list' and a is s.x:
            return a.astype(int).tolist() if (a == np.round(a)).all() and kinds[1] % 2 else a.tolist()
        b = present(a, LAYOUTS[how[i]], kinds[i])
        made.append((b, b.copy()))
        return b
    B = build(s, dress)
    n = compare(A, B, lambda a, j: present(a, LAYOUTS[(how[2] + j) % 8], kinds[2] + j), seed, Q.applicable(A))
    for a, b in made:
        require(np.array_equal(a, b), 'the arrays a complex is made of are left alone')
    rec.nt(n >= 10)


# their first argument is an array of arbitrary values
ROUND = set('''remap_boundary_N remap_boundary_N_plain remap_boundary_0 average_dual dual_flux_to_dual_velocity weights_to_offsets translate sample_dual_0 sample_dual_0_plain sample_primal_0'''.split())


def compare(A, B, dress, seed, names):
    n = 0
    exact = True
    if isinstance(A, BaseComplex):
        exact = Q.ask(A, 'boundary', ())
        exact = not isinstance(exact, Q.Raised) and signs(A) > 1e-6
    for q in sorted(set(names)):
        if sum(Q.counts(A)) > 400 and q.startswith(('subdivide', 'weighted', 'multigrid', 'pick', 'sample', 'overlap')):
            continue
        if q in Q.SIGNS and not exact:
            continue
        try:
            args = Q.ARGS[q](A, geo.rng(seed))
        except (ValueError, IndexError, AttributeError):
            continue
        if q in ROUND and seed % 2:
            args = (np.round(args[0] * 8),) + tuple(args[1:])
        other = tuple({k: dress(v, j + k) for k, v in a.items()} if isinstance(a, dict) else dress(a, j) for j, a in enumerate(args))
        before = Q.leaves(list(other))
        a, b = Q.ask(A, q, args), Q.ask(B, q, other)
        require(Q.differ(Q.leaves(list(other)), before, 0) is None, '%s changed its arguments' % q)
        d = Q.differ(Q.answer(b), Q.answer(a), max(Q.LOOSE.get(q, 0), 1e-8))
        require(d is None, '%s: %s' % (q, d))
        n += 1
    return n
