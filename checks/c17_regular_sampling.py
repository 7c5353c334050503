import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models, reg
from lib.pbt import Property, require, equal, close
from checks.c16_regular_metric import make

P = Property('C17', rule='Random grids of equal boxes of dimension 1 to 4 with missing cubes, cubes listed in any direction along the axes, random query points '
             'inside cells and random guesses; non-trivial: more than one cube.')

ND = st.tuples(geo.seeds, st.integers(1, 12), st.integers(0, 2)).map(list)


def points(b, g, n, margin=1e-3):
    """points in random cells, away from the boundaries of their fundamental domains"""
    k = g.randint(len(b['cells']), size=n)
    side = g.randint(2, size=(n, b['d']))
    f = g.uniform(margin, .5 - margin, size=(n, b['d'])) + side * .5
    # some are close to a side
    if g.uniform() < .5:
        e = 10 ** g.uniform(-6, -3, size=n)
        a, s = g.randint(b['d'], size=n), g.randint(4, size=n)
        f[np.arange(n), a] = np.choose(s, [e, 1 - e, .5 - e, .5 + e])
    return k, f, gen.dress(b['lo'][k] + f * (b['hi'] - b['lo'])[k])


def multilinear(values, f):
    """values at the corners [2, 2, ...] with axes in the order of the coordinates, at fractions f"""
    for a in f:
        values = values[0] * (1 - a) + values[1] * a
    return values


def aligned(b, i):
    """vertices of cell i as [2, 2...] in order of the coordinates"""
    d, x = b['d'], b['x']
    out = np.zeros((2,) * d, dtype=int)
    for v in b['cells'][i].ravel():
        o = tuple(int(q) for q in (x[v] > (b['lo'][i] + b['hi'][i]) / 2))
        out[o] = v
    return out


@P.sub('primal', st.tuples(reg.regular(uniform=True), ND).map(list), n=500)
def primal(case, rec):
    r, (seed, n, extra) = case
    b = reg.build(r)
    d = b['d']
    g = geo.rng(seed)
    C = make(b)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % d)
    k, f, p = points(b, g, n)
    keep = p.copy()

    def verify(cube, bary, what):
        equal(cube, k, what + ': picked cubes')
        c = b['cells'].reshape(len(b['cells']), -1)
        first, last = b['x'][c[cube, 0]], b['x'][c[cube, -1]]
        close(first + np.asarray(bary) * (last - first), p, what + ': barycentric coordinates', tol=1e-10, scale=np.abs(p).max() + 1)
    verify(*C.pick_primal(p), what='no guess')
    guess = g.randint(len(b['cells']), size=n)
    right = g.uniform(size=n) < .5
    guess[right] = k[right]
    guess = gen.dress(guess)
    kept = guess.copy()
    verify(*C.pick_primal(p, cube=guess), what='with a guess')
    equal(guess, kept, 'guess is left alone')
    verify(*C.pick_primal(p, cube=k.copy()), what='with the right guess')
    verify(*C.pick_primal(p, cube=guess[::-1].copy()), what='with another guess')
    # the cube across the nearest side as a guess
    o = f - .5
    a = np.abs(o).argmax(axis=1)
    step = np.zeros((n, d))
    step[np.arange(n), a] = np.sign(o[np.arange(n), a])
    mid = (b['lo'] + b['hi']) / 2
    D = np.abs(mid[None] - (mid[k] + step * (b['hi'] - b['lo'])[k])[:, None]).max(axis=2)
    across = np.where(D.min(axis=1) < 1e-6 * (b['hi'] - b['lo']).max(), D.argmin(axis=1), k)
    verify(*C.pick_primal(p, cube=across), what='with the cube across the nearest side as a guess')
    equal(p, keep, 'points are left alone')
    # dual cells: the vertex nearest in each direction
    near = np.array([aligned(b, i)[tuple(int(q > .5) for q in ff)] for i, ff in zip(k, f)])
    equal(C.pick_dual(p), near, 'picked dual cells')
    # sampling
    u = gen.dress(g.normal(size=(len(b['x']),) + (2, 3)[:extra]))
    got = C.sample_primal_0(u, p)
    want = np.array([multilinear(u[aligned(b, i)], ff) for i, ff in zip(k, f)])
    close(got, want, 'primal 0-form at points', tol=1e-10, scale=np.abs(u).max())
    close(C.sample_primal_0(u, b['x']), u, 'primal 0-form at vertices', tol=1e-10, scale=np.abs(u).max())
    w = g.normal(size=(d, 2))
    mono = lambda q: np.prod([w[a, 0] + w[a, 1] * q[:, a] for a in range(d)], axis=0)
    close(C.sample_primal_0(mono(b['x']), p), mono(p), 'multilinear functions are reproduced', tol=1e-10, scale=np.abs(mono(b['x'])).max())
    out = p + g.normal(size=p.shape) * np.abs(b['x']).max() * 3
    close(C.sample_primal_0(np.full(len(b['x']), 3.5), out), np.full(n, 3.5), 'constants, also outside', tol=1e-10)
    s = C.sample_primal_0(u, out)
    require((s <= u.max() + 1e-9).all() and (s >= u.min() - 1e-9).all(), 'no extrapolation')


@P.sub('dual', st.tuples(reg.regular(uniform=True), ND).map(list), n=400)
def dual(case, rec):
    r, (seed, n, extra) = case
    b = reg.build(r)
    d = b['d']
    g = geo.rng(seed)
    C = make(b)
    T = C.topology
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % d)
    k, f, p = points(b, g, n)
    el = reg.elements(b)
    bf = reg.boundary_facets(el, d)
    B = T.boundary
    if d > 1:
        bkeys = [models.key(np.asarray(B.parent_idx[0])[np.asarray(c)]) for c in B.corners[-1]]
    else:
        bkeys = [(int(v),) for v in np.asarray(B.parent_idx[0])]
    require(sorted(bkeys) == sorted(bf), 'boundary facets')
    nd = len(b['cells']) + len(bkeys)
    require(T.dual.n_elements[0] == nd, 'number of dual vertices')
    index = [{models.key(c): i for i, c in enumerate(q)} for q in T.corners]
    cellidx = index[d]
    # dual vertices of each element: cells and boundary facets that contain it
    members = {}
    for q, (m, l, h, cs) in el.items():
        members[q] = [cellidx[models.key(b['cells'][i].ravel())] for i in sorted(cs)]
    for j, fct in enumerate(bkeys):
        for q in el:
            if set(q) <= set(fct):
                members[q].append(len(b['cells']) + j)
    u = gen.dress(g.normal(size=(nd,) + (2, 3)[:extra]))
    # averages on all dual elements
    av = C.average_dual(u.reshape(nd, -1))
    for m in range(d + 1):
        a = np.asarray(av[d - m])
        for q, i in index[m].items():
            close(a[i], u.reshape(nd, -1)[members[q]].mean(axis=0), 'average over the dual vertices of an element', tol=1e-10, scale=np.abs(u).max())
    # fundamental domains
    dom, bary = C.pick_fundamental(p)
    require(np.shape(dom) == (n,) + (2,) * d and np.shape(bary) == (n, d), 'shape of picked domains')

    def fundamental(i, ff):
        """keys of elements at the corners of the fundamental cube, axes in the order of the coordinates, from vertex to cell"""
        al = aligned(b, i)
        near = [int(q > .5) for q in ff]
        out = {}
        for o in itertools.product((0, 1), repeat=d):
            sl = tuple(slice(None) if o[a] else near[a] for a in range(d))
            out[o] = models.key(np.asarray(al[sl]).ravel())
        return out
    want = np.zeros((n,) + u.shape[1:])
    for i in range(n):
        F = fundamental(k[i], f[i])
        frac = [1 - abs(1 - 2 * q) if False else (2 * q if q <= .5 else 2 * (1 - q)) for q in f[i]]
        vals = np.zeros((2,) * d + u.shape[1:])
        for o, q in F.items():
            equal(int(np.asarray(dom)[(i,) + o]), index[sum(o)][q], 'element %r of the fundamental domain' % (o,))
            vals[o] = u[members[q]].mean(axis=0)
        close(bary[i], np.array(frac), 'coordinates in the fundamental domain', tol=1e-10, scale=np.abs(b['x']).max() / np.min(b['hi'] - b['lo']) + 1)
        want[i] = multilinear(vals, frac)
    got = C.sample_dual_0(u, p)
    close(got, want, 'dual 0-form at points', tol=1e-10, scale=np.abs(u).max())
    close(C.sample_dual_0(np.full(nd, 2.5), p), np.full(n, 2.5), 'constants', tol=1e-10)
    # values outside are those of the nearest point of a box
    lo, hi = b['lo'].min(axis=0), b['hi'].max(axis=0)
    if len(b['cells']) == np.prod(np.round((hi - lo) / (b['hi'] - b['lo'])[0])):
        rec.label('box')
        out = p + g.normal(size=p.shape) * (hi - lo) * g.choice([0, .5, 3], size=p.shape)
        close(C.sample_dual_0(u, out), C.sample_dual_0(u, np.clip(out, lo, hi)), 'no extrapolation of a dual 0-form', tol=1e-10, scale=np.abs(u).max())
        v = g.normal(size=len(b['x']))
        close(C.sample_primal_0(v, out), C.sample_primal_0(v, np.clip(out, lo, hi)), 'no extrapolation of a primal 0-form', tol=1e-10, scale=np.abs(v).max())
    out = p + g.normal(size=p.shape) * np.abs(b['x']).max() * 3
    s = C.sample_dual_0(u, out)
    require((s <= u.max() + 1e-9).all() and (s >= u.min() - 1e-9).all(), 'no extrapolation of a dual 0-form')
    # affine functions away from the boundary
    w = g.normal(size=d)
    centers = C.dual_position[0]
    got = C.sample_dual_0(centers.dot(w), p)
    on = {v for q in bf for v in q}
    for i in range(n):
        near = aligned(b, k[i])[tuple(int(q > .5) for q in f[i])]
        if near not in on:
            require(abs(got[i] - p[i].dot(w)) <= 1e-7 * (np.abs(p).max() + 1) * 3, 'affine functions are reproduced away from the boundary')
            rec.label('interior point')
    # guesses: first the domain across the nearest side
    flat = C.topology.cubical_domains().reshape((-1,) + (2,) * d)
    o = (f % .5) * 2 - .5
    a = np.abs(o).argmax(axis=1)
    mirror = np.array(p)
    j = np.arange(n)
    mirror[j, a] += np.sign(o[j, a]) * (.5 - np.abs(o[j, a])) * (b['hi'] - b['lo'])[k, a]
    inside = ((mirror[:, None] > b['lo'][None]) & (mirror[:, None] < b['hi'][None])).all(axis=2).any(axis=1)
    if inside.any():
        m, _ = C.pick_fundamental(mirror[inside])
        across = np.array([int(np.flatnonzero((flat == q).reshape(len(flat), -1).all(axis=1))[0]) for q in m])
        d2, b2 = C.pick_fundamental(p[inside], domain_idx=across)
        equal(d2, np.asarray(dom)[inside], 'fundamental domains with the domain across the nearest side as a guess')
        close(b2, np.asarray(bary)[inside], 'coordinates with the domain across the nearest side as a guess', tol=1e-10)
    # others
    total = len(b['cells']) * 2 ** d
    guess = g.randint(total, size=n)
    d2, b2 = C.pick_fundamental(p, domain_idx=guess.copy())
    equal(d2, dom, 'fundamental domains with a guess')
    close(b2, bary, 'coordinates with a guess', tol=1e-10)
    right = np.array([int(np.flatnonzero((flat == q).reshape(total, -1).all(axis=1))[0]) for q in dom])
    d3, b3 = C.pick_fundamental(p, domain_idx=right)
    equal(d3, dom, 'fundamental domains with the right guess')
    close(b3, bary, 'coordinates with the right guess', tol=1e-10)


@P.sub('many', st.tuples(geo.seeds, st.sampled_from([[60], [400], [9, 11], [30, 17], [5, 4, 6], [9, 8, 7], [3, 4, 3, 4]]), st.lists(st.sampled_from([1, .5, 2, .1, 3, 10]), min_size=4, max_size=4)).map(list), n=14, thorough=10)
def many(case, rec):
    """many points, some close to sides, in grids of many cells"""
    seed, shape, h = case
    from pycomplex import synthetic
    d = len(shape)
    g = geo.rng(seed)
    rec.nt()
    rec.label('%d cells, d=%d' % (np.prod(shape), d))
    h = np.array(h[:d]) if max(h[:d]) / min(h[:d]) <= 10 else np.ones(d)
    C = synthetic.n_cube_grid(shape, centering=False)
    shift = g.choice([0., 0., 50., -300.], size=d)
    C = C.copy(vertices=C.vertices * h + shift)
    C = getattr(C, 'as_%d%d' % (d, d))().as_regular()
    lo = np.asarray(C.vertices)[np.asarray(C.topology.elements[-1]).reshape(-1, 2 ** d)].min(axis=1)
    n = 2000
    cell = np.stack([g.randint(s, size=n) for s in shape], axis=1)
    f = g.uniform(.01, .49, size=(n, d)) + g.randint(2, size=(n, d)) * .5
    e = 10 ** g.uniform(-8.5 if not shift.any() else -6, -1.5, size=(n, d))
    close_to = np.choose(g.randint(4, size=(n, d)), [e, 1 - e, .5 - e, .5 + e])
    f = np.where(g.uniform(size=(n, d)) < .4, close_to, f)
    p = (cell + f) * h + shift
    cube, bary = C.pick_primal(p)
    close(lo[cube], cell * h + shift, 'picked cubes', tol=1e-10, scale=1)
    x = np.asarray(C.vertices)
    near = (cell + (f > .5)) * h + shift
    close(x[C.pick_dual(p)], near, 'picked dual cells', tol=1e-10, scale=1)
    dom, bary = C.pick_fundamental(p)
    dom = np.asarray(dom).reshape(n, -1)
    close(x[dom[:, 0]], near, 'vertices of picked fundamental domains', tol=1e-10, scale=1)
    close(lo[dom[:, -1]], cell * h + shift, 'cubes of picked fundamental domains', tol=1e-10, scale=1)
    frac = np.where(f <= .5, 2 * f, 2 * (1 - f))
    close(bary, frac, 'coordinates in the fundamental domain', tol=6e-10 if not shift.any() else 1e-8, scale=1)
    a = g.normal(size=d) / h
    close(C.sample_primal_0(x.dot(a), p), p.dot(a), 'affine functions are reproduced', tol=1e-10, scale=max(shape) * 4 + abs(shift / h).sum())
    k = np.asarray(cube)
    for guess in (g.permutation(len(k)), g.randint(n, size=n)):
        q, _ = C.pick_primal(p, cube=k[guess])
        close(lo[q], cell * h + shift, 'picked cubes with a guess', tol=1e-10, scale=1)
