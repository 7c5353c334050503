"""Everything that may be asked of a topology or complex: how to make arguments, how to ask, and how to compare answers"""
import numpy as np
import scipy.sparse
from scipy.spatial import cKDTree

from pycomplex.topology.base import BaseTopology
from pycomplex.topology.primal import PrimalTopology
from pycomplex.complex.base import BaseComplex
from pycomplex.complex.simplicial.base import BaseComplexSimplicial
from pycomplex.complex.regular import ComplexRegularMixin


def leaves(o, path='', depth=0):
    """[(path, array or plain value)] of everything in an answer"""
    if depth > 6 or o is None or isinstance(o, (str, bool)):
        return [(path, o)]
    if scipy.sparse.issparse(o):
        if o.shape[0] * o.shape[1] <= 4000000:
            return [(path + '.shape', np.array(o.shape)), (path, o.toarray())]
        c = o.tocsr().copy()
        c.sum_duplicates()
        c.eliminate_zeros()
        c.sort_indices()
        return [(path + '.shape', np.array(o.shape)), (path + '.indptr', c.indptr.copy()), (path + '.indices', c.indices.copy()), (path + '.data', c.data.copy())]
    if isinstance(o, cKDTree):
        return [(path, np.array(o.data))]
    if isinstance(o, np.ndarray) and o.dtype != object:
        return [(path, np.array(o))]
    if isinstance(o, (int, float, np.generic)):
        return [(path, np.asarray(o))]
    if isinstance(o, dict):
        return [l for k in sorted(o, key=repr) for l in leaves(o[k], '%s[%r]' % (path, k), depth + 1)]
    if isinstance(o, (list, tuple, np.ndarray)):
        if isinstance(o, np.ndarray):
            o = list(o.reshape(-1))
        return [(path + '.len', len(o))] + [l for i, q in enumerate(o) for l in leaves(q, '%s[%d]' % (path, i), depth + 1)]
    if isinstance(o, PrimalTopology):
        r = [(path + '.type', type(o).__name__)]
        for a in ('_elements', '_boundary', '_orientation', 'parent_idx', 'transfer_matrices', 'transfer_operators'):
            if hasattr(o, a):
                r += leaves([q for q in getattr(o, a)], path + '.' + a, depth + 1)
        return r
    if isinstance(o, BaseTopology):
        return [(path + '.type', type(o).__name__)] + leaves(o.matrices, path + '.matrices', depth + 1)
    if isinstance(o, BaseComplex):
        r = [(path + '.type', type(o).__name__)]
        for a in ('vertices', 'weights', 'radius', 'topology'):
            if hasattr(o, a):
                r += leaves(getattr(o, a), path + '.' + a, depth + 1)
        return r
    return [(path, type(o).__name__)]


def differ(a, b, tol):
    """what is different about two lists of leaves; None where they agree"""
    if len(a) != len(b):
        return 'answers of different structure: %s and %s' % ([p for p, _ in a][:8], [p for p, _ in b][:8])
    for (p, x), (q, y) in zip(a, b):
        if p != q:
            return '%s instead of %s' % (p, q)
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray):
            return '%s: %r and %r' % (p, x, y)
        if not isinstance(x, np.ndarray):
            if x != y:
                return '%s: %r and %r' % (p, x, y)
            continue
        if x.shape != y.shape:
            return '%s: shapes %s and %s' % (p, x.shape, y.shape)
        if x.size == 0:
            continue
        if x.dtype.kind in 'fc' or y.dtype.kind in 'fc':
            fin = np.isfinite(y)
            if not np.array_equal(fin, np.isfinite(x)):
                return '%s: finite entries differ' % p
            if not fin.any():
                continue
            s = max(np.abs(y[fin]).max(), 1e-300)
            e = np.abs(x[fin].astype(float) - y[fin].astype(float)).max()
            if e > tol * s:
                return '%s: differs by %.3g, values up to %.3g' % (p, e, s)
        elif not np.array_equal(x, y):
            return '%s: values differ' % p
    return None


class Raised(object):
    def __init__(self, e):
        self.e = e


def ask(o, query, args):
    """the answer, or the exception it raises"""
    np.random.seed(1)
    try:
        with np.errstate(all='ignore'):
            return CALLS[query](o, *args)
    except (AssertionError, ValueError, TypeError, NotImplementedError, AttributeError, IndexError, KeyError, np.linalg.LinAlgError, ZeroDivisionError, UnboundLocalError, StopIteration) as e:
        return Raised(e)


def answer(r):
    if isinstance(r, Raised):
        return [('raises', type(r.e).__name__)]
    return leaves(r)


CALLS, ARGS = {}, {}
PROPERTIES_T = ('matrices elements corners incidence n_elements dual boundary is_closed is_connected is_manifold is_oriented averaging_operators_0 averaging_operators_N degree '
                'regions_per_vertex selector_interior selector_boundary matrices_2 transfer_matrices transfer_operators n_dim boundary_orientation').split()
METHODS_T = ('label_connections relative_parity check_chain accumulated_operators_0 accumulated_operators_N split_connected_components fix_orientation fundamental_domains cubical_domains '
             'subdivide_fundamental subdivide_cubical subdivide_simplicial subdivide_loop subdivide_loop_direct as_2').split()
PROPERTIES_C = ('topology boundary box primal_position dual_position metric primal_metric dual_metric dual_metric_closed hodge_PD hodge_DP positive_dual_metric is_well_centered '
                'is_pairwise_delaunay weighted_average_operators primal_barycentric multigrid_transfers').split()
METHODS_C = ('dual_edge_excess optimize_weights optimize_weights_metric optimize_weights_fundamental smooth smooth_operator subdivide_fundamental subdivide_cubical subdivide_simplicial '
             'subdivide_loop subdivide_loop_direct subdivide_operator subdivide_loop_operator copy fix_orientation as_2 as_3 as_spherical as_euclidian as_regular as_cube to_simplicial '
             'compute_triangle_angles compute_vertex_areas compute_triangle_areas compute_edge_ratio triangle_normals triangle_centroids vertex_normals vertex_areas edge_lengths volume '
             'center_of_mass area').split()
# answers that depend on the sign of values that may be zero up to rounding
SIGNS = {'positive_dual_metric', 'is_well_centered', 'is_pairwise_delaunay', 'weighted_average_operators', 'pick_primal', 'pick_primal_guess', 'pick_primal_plain', 'pick_dual', 'pick_fundamental', 'pick_fundamental_guess',
         'sample_dual_0', 'sample_dual_0_plain', 'sample_primal_0', 'dual_flux_to_dual_velocity', 'dual_edge_excess', 'optimize_weights', 'optimize_weights_metric', 'metric',
         'primal_metric', 'dual_metric', 'dual_metric_closed', 'hodge_PD', 'hodge_DP', 'clip'}


for _n in PROPERTIES_T + PROPERTIES_C:
    CALLS[_n] = lambda o, n=_n: getattr(o, n)
    ARGS[_n] = lambda o, g: ()
for _n in METHODS_T + METHODS_C:
    CALLS[_n] = lambda o, n=_n: getattr(o, n)()
    ARGS[_n] = lambda o, g: ()


def query(args):
    def deco(f):
        CALLS[f.__name__] = f
        ARGS[f.__name__] = args
        return f
    return deco


def top(o):
    return o.topology if isinstance(o, BaseComplex) else o


def counts(o):
    return list(top(o).n_elements)


def degree_(o, g):
    return int(g.randint(len(counts(o))))


def mask_(o, g):
    n = counts(o)[-1]
    m = g.uniform(size=n) < g.uniform(.3, 1)
    m[g.randint(n)] = True
    return m


def points_(o, g, n=12):
    e = np.asarray(o.topology.elements[-1]).reshape(counts(o)[-1], -1)
    i = g.randint(len(e), size=n)
    b = g.dirichlet(np.ones(e.shape[1]), size=n)
    p = np.einsum('pc,pcd->pd', b, np.asarray(o.vertices, dtype=float)[e[i]])
    if hasattr(o, 'radius'):
        p = p / np.linalg.norm(p, axis=1, keepdims=True) * o.radius
    return p, i


def creases_(o, g):
    c = {}
    for k in range(len(counts(o)) - 1):
        if g.randint(2):
            c[k] = (g.uniform(size=counts(o)[k]) < .3).astype(np.int8)
    return c


def field_(o, g):
    e = np.asarray(o.topology._boundary[-1])
    return g.normal(size=(len(e), e.size // len(e)))


def corner_field_(o, g):
    e = np.asarray(o.topology.elements[-1])
    return g.normal(size=(len(e), e.size // len(e)))


@query(lambda o, g: (degree_(o, g),))
def matrix(o, n):
    return o.matrix(n)


@query(lambda o, g: (degree_(o, g), int(g.randint(-1, 2))))
def chain(o, n, fill):
    return o.chain(n, fill=fill)


@query(lambda o, g: (degree_(o, g), int(g.randint(-1, 2)), [np.int8, np.int32, np.float64][g.randint(3)]))
def chain_typed(o, n, fill, t):
    return o.chain(n, fill=fill, dtype=t)


@query(lambda o, g: (degree_(o, g), float(g.randint(3))))
def form(o, n, fill):
    return o.form(n, fill=fill)


@query(lambda o, g: (degree_(o, g),))
def range_(o, n):
    return o.range(n)


@query(lambda o, g: (mask_(o, g),))
def select_subset(o, m):
    return o.select_subset(m)


@query(lambda o, g: ())
def subdivide_fundamental_mirrored(o):
    return o.subdivide_fundamental(oriented=False)


@query(lambda o, g: (g.normal(size=counts(o)[-2] + (0 if top(o).boundary is None else top(o).boundary.n_elements[-1])),))
def dual_flux_to_dual_velocity(o, f):
    return o.dual_flux_to_dual_velocity(f)


@query(lambda o, g: (field_(o, g),))
def remap_boundary_N(o, f):
    return o.remap_boundary_N(f)


@query(lambda o, g: (field_(o, g),))
def remap_boundary_N_plain(o, f):
    return o.remap_boundary_N(f, oriented=False)


@query(lambda o, g: (corner_field_(o, g),))
def remap_boundary_0(o, f):
    return o.remap_boundary_0(f)


@query(lambda o, g: points_(o, g)[:1])
def pick_primal(o, p):
    return o.pick_primal(p)


@query(lambda o, g: points_(o, g)[:1])
def pick_primal_plain(o, p):
    return o.pick_primal(p, weighted=False)


@query(lambda o, g: (points_(o, g)[0], g.randint(counts(o)[-1], size=12)))
def pick_primal_guess(o, p, i):
    return o.pick_primal(p, i)


@query(lambda o, g: points_(o, g)[:1])
def pick_dual(o, p):
    return o.pick_dual(p)


@query(lambda o, g: points_(o, g)[:1])
def pick_fundamental(o, p):
    return o.pick_fundamental(p)


@query(lambda o, g: (points_(o, g)[0], g.randint(counts(o)[-1], size=12)))
def pick_fundamental_guess(o, p, i):
    return o.pick_fundamental(p, i)


def dual_size(o):
    b = top(o).boundary
    return counts(o)[-1] + (0 if b is None else b.n_elements[-1])


@query(lambda o, g: (g.normal(size=dual_size(o)), points_(o, g)[0]))
def sample_dual_0(o, f, p):
    return o.sample_dual_0(f, p)


@query(lambda o, g: (g.normal(size=dual_size(o)), points_(o, g)[0]))
def sample_dual_0_plain(o, f, p):
    return o.sample_dual_0(f, p, weighted=False)


@query(lambda o, g: (g.normal(size=counts(o)[0]), points_(o, g)[0]))
def sample_primal_0(o, f, p):
    return o.sample_primal_0(f, p)


@query(lambda o, g: (g.normal(size=dual_size(o)),))
def average_dual(o, f):
    return o.average_dual(f)


@query(lambda o, g: (g.normal(size=o.n_dim),))
def translate(o, v):
    return o.translate(v)


@query(lambda o, g: (np.eye(o.n_dim) + g.normal(size=(o.n_dim, o.n_dim)) * .1,))
def transform(o, m):
    return o.transform(m)


@query(lambda o, g: ([2, .5, 3.][g.randint(3)],))
def scale(o, s):
    return o.scale(s)


@query(lambda o, g: (creases_(o, g),))
def smooth_creases(o, c):
    return o.smooth(c)


@query(lambda o, g: (creases_(o, g),))
def smooth_operator_creases(o, c):
    return o.smooth_operator(c)


@query(lambda o, g: (creases_(o, g),))
def subdivide_cubical_creases(o, c):
    return o.subdivide_cubical(smooth=True, creases=c)


@query(lambda o, g: (creases_(o, g),))
def subdivide_operator_creases(o, c):
    return o.subdivide_operator(smooth=True, creases=c)


@query(lambda o, g: (creases_(o, g),))
def subdivide_loop_creases(o, c):
    return o.subdivide_loop(smooth=True, creases=c)


@query(lambda o, g: (creases_(o, g),))
def subdivide_loop_operator_creases(o, c):
    return o.subdivide_loop_operator(smooth=True, creases=c)


@query(lambda o, g: (points_(o, g)[0], g.normal(size=12)))
def augment(o, p, w):
    return o.augment(p, w)


@query(lambda o, g: (g.normal(size=counts(o)[0]),))
def weights_to_offsets(o, w):
    return o.weights_to_offsets(w)


@query(lambda o, g: (points_(o, g)[0],))
def homogenize(o, p):
    return o.homogenize(p)


@query(lambda o, g: (np.asarray(o.vertices, dtype=float)[g.randint(counts(o)[0], size=(5, 2))],))
def unsigned_volume(o, p):
    return o.unsigned_volume(p)


@query(lambda o, g: (points_(o, g, 1)[0][0], g.normal(size=o.n_dim)))
def clip(o, s, d):
    return o.clip(s, d)


@query(lambda o, g: ())
def overlap(o):
    return type(o).multigrid_transfer_dual(o, o.subdivide_loop())


TOPOLOGY = PROPERTIES_T + METHODS_T + ['matrix', 'chain', 'chain', 'chain_typed', 'form', 'range_', 'select_subset', 'subdivide_fundamental_mirrored']
DUAL = ['matrices', 'n_elements', 'matrices_2', 'selector_interior', 'selector_boundary', 'boundary_orientation', 'averaging_operators_0', 'averaging_operators_N', 'accumulated_operators_0',
        'accumulated_operators_N', 'transfer_matrices', 'degree', 'chain', 'form']
NEW = set('''subdivide_fundamental subdivide_cubical subdivide_simplicial subdivide_loop subdivide_loop_direct subdivide_fundamental_mirrored select_subset boundary dual fix_orientation copy
as_2 as_3 as_spherical as_euclidian as_regular translate transform scale smooth smooth_creases optimize_weights optimize_weights_metric subdivide_cubical_creases subdivide_loop_creases clip'''.split())
COMPLEX = PROPERTIES_C + METHODS_C + ['select_subset', 'subdivide_fundamental_mirrored', 'dual_flux_to_dual_velocity', 'remap_boundary_N', 'remap_boundary_N_plain', 'remap_boundary_0', 'pick_primal',
                                      'pick_primal_plain', 'pick_primal_guess', 'pick_dual', 'pick_fundamental', 'pick_fundamental_guess', 'sample_dual_0', 'sample_dual_0_plain', 'sample_primal_0', 'average_dual',
                                      'translate', 'transform', 'scale', 'smooth_creases', 'smooth_operator_creases', 'subdivide_cubical_creases', 'subdivide_operator_creases',
                                      'subdivide_loop_creases', 'subdivide_loop_operator_creases', 'augment', 'weights_to_offsets', 'homogenize', 'unsigned_volume', 'clip', 'overlap']
# asked more often than others
HEAVY = set('''metric dual_metric primal_metric hodge_DP boundary dual topology primal_position dual_position primal_barycentric weighted_average_operators is_pairwise_delaunay dual_flux_to_dual_velocity
pick_primal pick_primal_guess pick_fundamental pick_dual sample_dual_0 sample_primal_0 optimize_weights optimize_weights_metric fundamental_domains cubical_domains elements corners matrices'''.split())
ATTRIBUTE = {'range_': 'range', 'chain_typed': 'chain', 'subdivide_fundamental_mirrored': 'subdivide_fundamental', 'overlap': 'multigrid_transfer_dual'}
LOOSE = {'multigrid_transfers': 1e-4}


def attribute(q):
    q = ATTRIBUTE.get(q, q)
    for s in ('_creases', '_guess', '_plain'):
        if q.endswith(s):
            q = q[:-len(s)]
    return q


def applicable(o):
    """names of the queries that can be asked of an object"""
    if isinstance(o, BaseComplex):
        l = COMPLEX
        if not isinstance(o, (BaseComplexSimplicial, ComplexRegularMixin)) or not hasattr(o, 'radius') and o.topology.n_dim != o.n_dim:
            l = [q for q in l if not q.startswith(('pick', 'sample'))]
    elif isinstance(o, PrimalTopology):
        l = TOPOLOGY
    else:
        l = DUAL
    l = l + [q for q in l if q in HEAVY] * 2
    return [q for q in l if hasattr(type(o), attribute(q)) or q in ('transfer_matrices', 'transfer_operators') and q in o.__dict__]
