import itertools

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo, models, reg
from lib.pbt import Property, require, equal, close

from pycomplex.complex.cubical import ComplexCubical
from pycomplex.complex.regular import ComplexRegular1, ComplexRegular2, ComplexRegular3, ComplexRegular4
from pycomplex.topology.cubical import TopologyCubical

P = Property('C16', rule='Random axis-aligned cubical complexes of dimension 1 to 4 with non-uniform spacings, missing cubes and cubes listed in any orientation, '
             'subdivided or not; metrics are compared with products of side lengths; non-trivial: more than one cube.')

REG = {1: ComplexRegular1, 2: ComplexRegular2, 3: ComplexRegular3, 4: ComplexRegular4}


def make(b):
    C = ComplexCubical(vertices=b['x'], topology=TopologyCubical.from_cubes(b['cells']))
    C = getattr(C, 'as_%d%d' % (b['d'], b['d']))().as_regular()
    require(type(C) is REG[b['d']], 'type of a regular complex')
    return C


def refine(b):
    """the same complex with all cubes split in 2**d"""
    d = b['d']
    pts, cells, lo, hi = {}, [], [], []
    for l, h in zip(b['lo'], b['hi']):
        for o in itertools.product((0, 1), repeat=d):
            lo.append(np.where(np.array(o) == 1, (l + h) / 2, l))
            hi.append(np.where(np.array(o) == 1, h, (l + h) / 2))
    return np.array(lo), np.array(hi)


def check(C, b, rec):
    T = C.topology
    d = b['d']
    el = reg.elements(b)
    bf = reg.boundary_facets(el, d)
    PM, DM = C.metric
    require(len(PM) == d + 1 and len(DM) == d + 1, 'metric of each dimension')
    for k in range(d + 1):
        keys = [models.key(c) for c in T.corners[k]]
        require(sorted(keys) == sorted(q for q, e in el.items() if e[0] == k), 'elements of dimension %d' % k)
        p = np.array([np.prod(np.where(el[q][2] > el[q][1], el[q][2] - el[q][1], 1)) for q in keys])
        w = np.array([sum(reg.half(el[q][1], el[q][2], b['lo'][i], b['hi'][i]) for i in el[q][3]) for q in keys])
        close(PM[k] / p, np.ones(len(p)), 'primal %d-metric' % k, tol=1e-10)
        close(DM[d - k] / w, np.ones(len(w)), 'dual %d-metric' % (d - k), tol=1e-9)
        close(C.hodge_DP[k] / (w / p), np.ones(len(p)), 'hodge', tol=1e-9)
        close(C.hodge_PD[k] * (w / p), np.ones(len(p)), 'hodge', tol=1e-9)
        pos = np.array([(el[q][1] + el[q][2]) / 2 for q in keys])
        close(C.primal_position[k], pos, 'positions of %d-elements' % k, tol=1e-10, scale=np.abs(b['x']).max() + 1)
    vol = np.prod(b['hi'] - b['lo'], axis=1).sum()
    close(np.sum(DM[d]), vol, 'dual cells partition the complex', tol=1e-10)
    require(C.positive_dual_metric and C.is_well_centered and C.is_pairwise_delaunay, 'a regular complex is well-centered')
    # closed dual metric
    B = T.boundary
    full = C.dual_metric_closed
    if d > 1:
        require(len(B.parent_idx[d - 1]) == len(bf), 'boundary facets')
    for k in range(d + 1):
        n = T.n_elements[d - k]
        close(full[k][:n] / DM[k], np.ones(n), 'closed dual metric, interior part', tol=1e-10)
        if k == d:
            require(len(full[k]) == n, 'closed dual metric of cells')
            continue
        keys = [models.key(np.asarray(B.parent_idx[0])[np.asarray(c)]) for c in B.corners[d - 1 - k]]
        want = []
        for q in keys:
            s = 0.
            for f in bf:
                if set(q) <= set(f):
                    s += float(np.prod([(el[f][2][a] - el[f][1][a]) / 2 for a in range(d) if el[f][2][a] > el[f][1][a] and el[q][2][a] == el[q][1][a]]))
            want.append(s)
        require(len(full[k]) == n + len(want), 'closed dual metric, number of boundary elements')
        close(full[k][n:] / np.array(want), np.ones(len(want)), 'closed dual %d-metric, boundary part' % k, tol=1e-10)
    # laplacian of affine functions
    if d > 1 or True:
        on = {v for f in bf for v in f}
        g = np.random.normal(size=d)
        T0 = T.matrices[0].astype(float)
        f = b['x'].dot(g)
        L = T0.dot(np.asarray(C.hodge_DP[1]) * T0.T.dot(f))
        s = np.abs(C.hodge_DP[1]).max() * np.abs(f).max() * 8
        for v in range(len(f)):
            if v not in on:
                require(abs(L[v]) <= 1e-9 * s, 'laplacian of an affine function')
                rec.label('interior vertex')


@P.sub('metric', reg.regular(), n=500)
def metric(case, rec):
    b = reg.build(case, rotate=True)
    rec.nt(len(b['cells']) > 1)
    rec.label('d=%d' % b['d'], 'uniform' if case['uniform'] else 'non-uniform')
    check(make(b), b, rec)


@P.sub('subdivided', reg.regular(dims=(1, 2, 2, 3)), n=150)
def subdivided(case, rec):
    b = reg.build(case, rotate=True)
    if len(b['cells']) * 2 ** b['d'] > 64:
        return
    C = make(b).subdivide_cubical()
    require(type(C) is REG[b['d']], 'type of a subdivided regular complex')
    rec.nt(True)
    rec.label('d=%d' % b['d'])
    lo, hi = refine(b)
    # match the fine cubes by their boxes
    cells = np.asarray(C.topology.elements[-1])
    key = lambda l, h: tuple(np.round(np.concatenate([l, h]), 6))
    have = {key(C.vertices[c.ravel()].min(axis=0), C.vertices[c.ravel()].max(axis=0)): c for c in cells}
    require(len(have) == len(lo) == len(cells), 'number of fine cubes')
    fine = dict(d=b['d'], x=np.asarray(C.vertices), lo=lo, hi=hi, cells=[have.get(key(l, h)) for l, h in zip(lo, hi)])
    require(all(c is not None for c in fine['cells']), 'fine cubes halve the coarse cubes')
    check(C, fine, rec)
