"""Queries in any order: answers do not depend on what was asked before, and answers given before do not change"""
import numpy as np
from hypothesis import strategies as st

from checks.c31_values import START, start, fresh
from lib import geo, gen, sten, queries as Q
from lib.pbt import Property, require

from pycomplex.complex.base import BaseComplex
from pycomplex.stencil.complex import StencilComplex
from pycomplex.stencil.diffusion import Diffusion
from pycomplex.topology.base import BaseTopology
from pycomplex.topology.cubical import TopologyCubical
from pycomplex.topology.simplicial import TopologySimplicial, TopologyTriangular

P = Property('C36', rule='Sequences of up to twelve queries to a complex of any type, its topology, and the complexes and topologies that earlier queries returned; each answer is compared with that '
             'of an object that is newly made and asked nothing else. Non-trivial: at least five queries were answered, and two of them by the same object.')


def size(o):
    return sum(Q.counts(o)) * (4 if len(Q.counts(o)) > 3 else 1)


def derive(root, path):
    o = root
    for q, seed in path:
        o = Q.ask(o, q, Q.ARGS[q](o, geo.rng(seed)))
    return o


def scribble(x):
    """write into an array that belongs to the caller"""
    if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 3


def run(case, rec, make, relatives):
    root = make()
    pool = [([], root)]
    if isinstance(root, BaseComplex):
        pool.append(([('topology', 0)], root.topology))
    if relatives:
        for q in ('boundary', 'dual'):
            for path, o in pool[:2]:
                if q in Q.applicable(o):
                    r = Q.ask(o, q, ())
                    if isinstance(r, (BaseComplex, BaseTopology)):
                        pool.append((path + [(q, 0)], r))
    told = []
    asked = []
    for which, mode, k, seed in case:
        path, o = pool[which % len(pool)]
        names = Q.applicable(o)
        if mode == 0:
            # ask the newest object what was asked before
            path, o = pool[-1 - which % min(2, len(pool))]
            again = [q for q in sorted(set(a.rpartition('.')[2] for a in asked)) if q in Q.applicable(o)]
            names = again or Q.applicable(o)
        elif mode == 1:
            names = [q for q in names if q in Q.NEW] or names
        q = names[k % len(names)]
        if size(o) > 500 and q.startswith(('subdivide', 'weighted', 'multigrid', 'pick', 'sample', 'overlap')):
            continue
        try:
            args = Q.ARGS[q](o, geo.rng(seed))
        except (ValueError, IndexError, AttributeError):
            continue        # boundaries of what is not oriented, or has none
        before = Q.leaves(list(args))
        got = Q.ask(o, q, args)
        mine = Q.answer(got)
        require(Q.differ(Q.leaves(list(args)), before, 0) is None, '%s after %s: changed its arguments' % (q, asked))
        # the same, of an object that has not been asked anything else
        o2 = derive(make(), path)
        want = Q.ask(o2, q, Q.ARGS[q](o2, geo.rng(seed)))
        d = Q.differ(mine, Q.answer(want), Q.LOOSE.get(q, 1e-10))
        require(d is None, '%s of %s, after %s: %s' % (q, [p[0] for p in path], asked, d))
        asked.append('.'.join([p[0] for p in path] + [q]))
        rec.label(q)
        if isinstance(got, Q.Raised):
            rec.label('raises')
            continue
        told.append((q, got, mine, asked[-1]))
        if q in ('chain', 'chain_typed', 'form', 'range_'):
            scribble(got)
            told.pop()
        if isinstance(got, (BaseComplex, BaseTopology)) and size(got) < 1200 and len(path) < 3:
            pool.append((path + [(q, seed)], got))
            if isinstance(got, BaseComplex):
                pool.append((path + [(q, seed), ('topology', 0)], got.topology))
    for q, got, mine, name in told:
        d = Q.differ(Q.leaves(got), mine, 0)
        require(d is None, 'answer to %s has changed in the end, after %s: %s' % (name, asked, d))
    rec.nt(len(asked) >= 5 and len(asked) - len(set(a.rpartition('.')[0] for a in asked)) >= 1)


steps = st.lists(st.tuples(st.integers(0, 9), st.integers(0, 4), st.integers(0, 119), geo.seeds).map(list), min_size=6, max_size=12)


@P.sub('complexes', st.tuples(START, steps, st.booleans()).map(list), n=2400)
def complexes(case, rec):
    s = start(case[0])
    rec.label(case[0][0])
    run(case[1], rec, lambda: fresh(s, True), case[2])


def everything(o, seed, skip=()):
    out = []
    for q in sorted(set(Q.applicable(o))):
        if q in skip or size(o) > 500 and q.startswith(('subdivide', 'weighted', 'multigrid', 'pick', 'sample', 'overlap')):
            continue
        try:
            args = Q.ARGS[q](o, geo.rng(seed))
        except (ValueError, IndexError, AttributeError):
            continue
        out.append((q, Q.ask(o, q, args)))
    return out


@P.sub('derived', st.tuples(START, st.integers(0, 119), geo.seeds).map(list), n=400)
def derived(case, rec):
    """ask for everything, derive a complex, and ask it for everything"""
    s = start(case[0])
    rec.label(case[0][0])

    def make():
        return fresh(s, True)
    o = make()
    names = [q for q in Q.applicable(o) if q in Q.NEW]
    q = names[case[1] % len(names)]
    if size(o) > 400:
        return
    rec.label(q)
    first = [(n, a, Q.answer(a)) for n, a in everything(o, case[2])]
    new = Q.ask(o, q, Q.ARGS[q](o, geo.rng(case[2])))
    if isinstance(new, BaseComplex):
        rec.nt()
        got = everything(new, case[2])
        new2 = derive(make(), [(q, case[2])])
        for (n, a), (m, b) in zip(got, everything(new2, case[2])):
            require(n == m, 'queries')
            d = Q.differ(Q.answer(a), Q.answer(b), Q.LOOSE.get(n, 1e-10))
            require(d is None, '%s of %s, after everything was asked of its origin: %s' % (n, q, d))
    for n, a, was in first:
        d = Q.differ(Q.answer(a), was, 0)
        require(d is None, 'answer to %s has changed after %s: %s' % (n, q, d))


@P.sub('topologies', st.tuples(st.sampled_from('sc'), gen.simplicial(dims=(1, 2, 3), ops=('st', 'rm', 'union', 'wedge'), orient=('keep', 'random')),
                               gen.cubical(dims=(1, 2, 3), orient=('keep', 'random')), steps, st.booleans()).map(list), n=2400)
def topologies(case, rec):
    simplicial = case[0] == 's'
    b = gen.build_simplicial(case[1]) if simplicial else gen.build_cubical(case[2])
    triangles = simplicial and b['d'] == 2
    rec.label('%s %d' % (case[0], b['d']))

    def make():
        if triangles:
            return TopologyTriangular.from_simplices(b['cells'].copy())
        return (TopologySimplicial if simplicial else TopologyCubical).from_elements(b['cells'].copy())
    run(case[3], rec, make, case[4])


def stencil_queries():
    """{name: function of problem and random numbers, of the complex only?} -> (function that asks, its arguments)"""
    from pycomplex.stencil import multigrid
    from pycomplex.stencil.block import BlockArray
    T = {}

    def add(name, small=False):
        def inner(f):
            T[name] = (f, small)
            return f
        return inner

    def form(C, n, g):
        return sten.form(g, sten.form_shape(C.shape, n), int(g.randint(0, 5)))

    def degree(C, g, top=0):
        return int(g.randint(0, C.n_dim + 1 - top))

    def vec(C, deg, g):
        return BlockArray([sten.form(g, sten.form_shape(C.shape, n), 1) for n in deg], ndim=1)

    for name, get, top in [
            ('hodge', lambda C, n: C.hodge[n], 0), ('hodge_inverse', lambda C, n: C.hodge[n].I, 0),
            ('primal', lambda C, n: C.topology.primal[n], 1), ('primal_transpose', lambda C, n: C.topology.primal[n].transpose(), 1),
            ('dual', lambda C, n: C.topology.dual[n], 1), ('average', lambda C, n: C.topology.averaging_operators_0[n], 0),
            ('laplace', lambda C, n: C.topology.primal[n].transpose() * C.topology.primal[n], 1),
            ('smoothers', lambda C, n: C.smoothers(True)[n], 0), ('smoothers_unscaled', lambda C, n: C.smoothers(False)[n], 0),
            ('coarsen', lambda C, n: C.coarsen[n], 0), ('coarsen_transpose', lambda C, n: C.coarsen[n].transpose(), 0),
            ('refine', lambda C, n: C.refine[n], 0), ('transfers', lambda C, n: C.topology.transfers[n], 0)]:
        def ask(E, g, get=get, top=top):
            C = E.complex
            if C.n_dim < top:
                return None
            n = degree(C, g, top)
            op = get(C, n)
            args = [sten.form(g, op.shape[1], int(g.randint(0, 5)))]
            return (lambda: op * args[0]), args
        T[name] = (ask, False)

    @add('positions')
    def _(E, g):
        return (lambda: E.complex.primal_position), []

    @add('sample')
    def _(E, g):
        f, p = form(E.complex, 0, g), g.uniform(-9, 9, size=(5, E.complex.n_dim))
        return (lambda: E.complex.sample_0(f, p)), [f, p]

    @add('fine')
    def _(E, g):
        f = form(E.complex.fine, 0, g)
        return (lambda: [E.complex.fine.shape, E.complex.fine.scale, E.complex.fine.coarsen[0] * f]), [f]

    @add('form')
    def _(E, g):
        n = degree(E.complex, g)
        return (lambda: E.complex.topology.form(n, init='zeros')), []

    def on_system(name, f):
        def ask(E, g):
            x, y = vec(E.complex, E.system.R, g), vec(E.complex, E.system.L, g)
            w = g.uniform(.1, 1.5, size=3)
            return (lambda: f(E, x, y, w)), [x, y, w]
        T[name] = (ask, True)
    for name, f in [
            ('apply', lambda E, x, y, w: E.system.A * x), ('apply_transpose', lambda E, x, y, w: E.system.A.transpose() * y),
            ('allocate_x', lambda E, x, y, w: E.system.allocate_x()), ('allocate_y', lambda E, x, y, w: E.system.allocate_y()),
            ('dense', lambda E, x, y, w: E.system.A.to_dense()), ('normal_dense', lambda E, x, y, w: E.system.normal().A.to_dense()),
            ('normal_ne', lambda E, x, y, w: E.system.normal_ne().A * y), ('simplify', lambda E, x, y, w: E.system.A.simplify() * x),
            ('slice', lambda E, x, y, w: E.system[:1, :1].A.to_dense()),
            ('residual', lambda E, x, y, w: E.residual(x, y)), ('normal_residual', lambda E, x, y, w: E.normal.residual(x, y)),
            ('jacobi', lambda E, x, y, w: E.jacobi(x, y, w[0])), ('overrelax', lambda E, x, y, w: E.overrelax(x, y, w)),
            ('smooth', lambda E, x, y, w: E.smooth(x, y)), ('gauss_seidel', lambda E, x, y, w: E.NR_BLOCK_GS(x, y)),
            ('gauss_seidel_ne', lambda E, x, y, w: E.NE_BLOCK_GS(x, y)), ('diagonal', lambda E, x, y, w: E.inverse_normal_diagonal),
            ('diagonal_ne', lambda E, x, y, w: E.inverse_normal_ne_diagonal), ('solve', lambda E, x, y, w: E.solve(y, x)),
            ('restrict', lambda E, x, y, w: E.restrict(y)), ('restrict_primal', lambda E, x, y, w: E.restrict_primal(y)),
            ('interpolate', lambda E, x, y, w: E.interpolate(E.restrict(y)) if len(y.block) == len(x.block) else 0),
            ('coarse_fields', lambda E, x, y, w: [E.coarse.fields, E.coarse.system.A.to_dense()]),
            ('hierarchy', lambda E, x, y, w: [e.residual(e.system.allocate_x(), e.system.allocate_y()) for e in E.hierarchy(levels=1)]),
            ('v_cycle', lambda E, x, y, w: multigrid.v_cycle(E.hierarchy(levels=1), y, x)),
            ('full_cycle', lambda E, x, y, w: multigrid.solve_full_cycle(E.hierarchy(levels=1), y, iterations=1))]:
        on_system(name, f)
    return T


STENCIL = stencil_queries()


def plain(o):
    """answers of stencil objects as arrays"""
    if hasattr(o, 'block'):
        return [np.array(b) for b in o.block.reshape(-1)]
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return np.array(o)


@P.sub('stencils', st.tuples(geo.seeds, st.sampled_from([[2], [4], [8], [2, 2], [4, 2], [2, 6], [2, 2, 2], [2, 4, 2]]), st.sampled_from([1, .5, 2]), st.booleans(), st.booleans(),
                             st.lists(st.tuples(st.integers(0, 119), geo.seeds).map(list), min_size=5, max_size=12)).map(list), n=250)
def stencils(case, rec):
    seed, shape, scale, foo, fluxes, steps = case
    g = geo.rng(seed)
    f0, f1 = sten.form_shape(shape, 0), sten.form_shape(shape, 1)
    F = {k: g.uniform(.5, 1.5, size=f0 if k == 'constraint' else f1) for k in ['constraint', 'conductance', 'resistance'] + ['foo'] * foo}
    fields = Q.leaves(F)

    def make(F):
        C = StencilComplex.from_shape(tuple(shape), scale=scale)
        return (Diffusion.formulate_flux_only if fluxes and len(shape) > 1 else Diffusion.formulate)(C, F)
    E = make(F)
    names = sorted(STENCIL)
    asked, told = [], []
    for k, s in steps:
        q = names[k % len(names)]
        if fluxes and len(shape) > 1 and q in ('v_cycle', 'full_cycle', 'hierarchy', 'coarse_fields', 'interpolate', 'restrict_primal', 'restrict', 'diagonal_ne', 'gauss_seidel_ne'):
            continue
        r = STENCIL[q][0](E, geo.rng(s))
        if r is None:
            continue
        fn, args = r
        before = Q.leaves([plain(a) for a in args])
        got = fn()
        require(Q.differ(Q.leaves([plain(a) for a in args]), before, 0) is None, '%s after %s: changed its arguments' % (q, asked))
        mine = Q.leaves(plain(got))
        want = STENCIL[q][0](make({k: v.copy() for k, v in F.items()}), geo.rng(s))[0]()
        d = Q.differ(mine, Q.leaves(plain(want)), 1e-10)
        require(d is None, '%s after %s: %s' % (q, asked, d))
        if q in ('form', 'allocate_x', 'allocate_y'):
            for b in (got.block if hasattr(got, 'block') else [got]):
                scribble(b)
        else:
            told.append((q, got, mine))
        asked.append(q)
        rec.label(q)
    for q, got, mine in told:
        require(Q.differ(Q.leaves(plain(got)), mine, 0) is None, 'answer to %s has changed in the end, after %s' % (q, asked))
    require(Q.differ(Q.leaves(F), fields, 0) is None, 'fields are left alone')
    rec.nt(len(asked) >= 4)
