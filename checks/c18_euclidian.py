import itertools
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo
from lib.pbt import Property, require, equal, close, raises

from pycomplex.geometry import euclidian

P = Property('C18', rule='Random batches of simplices of dimension 0 to 5 in spaces of up to 5 dimensions (integer coordinates with exact oracles, or real ones '
             'at any place and scale), weighted or not; non-trivial: simplices of dimension two or more.')


def det(M):
    """exact determinant of a list of lists of fractions"""
    M = [list(r) for r in M]
    n, out = len(M), Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i]), None)
        if p is None:
            return Fraction(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            out = -out
        out *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            if f:
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return out


def exact_volumes(p):
    """(squared volume, signed volume or None)"""
    p = [[Fraction(float(c)) for c in q] for q in p]
    e = [[a - b for a, b in zip(q, p[0])] for q in p[1:]]
    f = math.factorial(len(e))
    gram = [[sum(a * b for a, b in zip(r, s)) for s in e] for r in e]
    return det(gram) / f ** 2, (det(e) / f if len(e) == len(p[0]) else None)


SHAPES = [[], [1], [3], [2, 2], [1, 3]]


def simplices(min_m=0, max_n=5, min_n=1):
    return st.tuples(st.integers(min_n, max_n), st.integers(min_m, max_n)).map(lambda q: (max(q), q[1])).flatmap(lambda nm: st.fixed_dictionaries({
        'n': st.just(nm[0]), 'm': st.just(nm[1]), 'shape': st.sampled_from(SHAPES), 'seed': geo.seeds, 'real': st.booleans(),
        'scale': st.sampled_from([1, 1, .01, 100, 1e-4, 1e4]), 'shift': st.integers(-50, 50)}))


def build(r):
    g = geo.rng(r['seed'])
    s = tuple(r['shape']) + (r['m'] + 1, r['n'])
    if r['real']:
        p = g.normal(size=s)
        return (p + r['shift'] / 10 * g.normal(size=r['n'])) * r['scale']
    return g.randint(-6, 7, size=s).astype(float) + r['shift']


def flat(a, k):
    a = np.asarray(a)
    return a.reshape((-1,) + a.shape[a.ndim - k:])


def size(p):
    return max([np.linalg.norm(a - b) for a, b in itertools.combinations(p, 2)] + [0])


@P.sub('volume', simplices(), n=700)
def volume(r, rec):
    p = build(r)
    m, n = r['m'], r['n']
    if m >= 2 and r['seed'] % 5 == 0:
        # degenerate: the last corner is a combination of others
        g = geo.rng(r['seed'] + 7)
        b = g.dirichlet([1] * m) if g.randint(2) else np.eye(m)[g.randint(m)]
        p[..., m, :] = np.einsum('i,...ij->...j', b, p[..., :m, :])
        rec.label('degenerate')
    rec.nt(m >= 2)
    rec.label('%d in %d' % (m, n), 'batch %s' % r['shape'])
    p = gen.dress(p, integer=True)
    keep = p.copy()
    v = np.asarray(euclidian.unsigned_volume(p))
    require(v.shape == tuple(r['shape']), 'shape of volumes')
    require((v >= 0).all(), 'volumes are positive')
    # an error of eps * L**(2m) in the determinant of the gram matrix is that of rounding
    for a, q in zip(v.ravel(), flat(p, 2)):
        sq, _ = exact_volumes(q)
        L = size(q)
        f = math.factorial(m)
        require(abs((a * f) ** 2 - float(sq) * f ** 2) <= 1e-11 * (L ** 2 + (np.abs(q).max() * 1e-3) ** 2) ** m + (1e-12 if m == 0 else 0),
                'volume of %d-simplex in %d-space: got %r, expected %r' % (m, n, a, math.sqrt(sq)))
    equal(p, keep, 'points are left alone')
    again = np.asarray(euclidian.unsigned_volume(p.tolist()))
    big = size(p.reshape(-1, n)) + 1e-3 * np.abs(p).max() if p.size else 0
    close(again ** 2, v ** 2, 'volume of nested lists', tol=1e-10, scale=big ** (2 * m) + 1e-12)
    if m == n:
        s = np.asarray(euclidian.signed_volume(p))
        require(s.shape == tuple(r['shape']), 'shape of signed volumes')
        for a, q in zip(s.ravel(), flat(p, 2)):
            _, e = exact_volumes(q)
            require(abs(a - float(e)) <= 1e-11 * (size(q) + np.abs(q).max() * 1e-3) ** m, 'signed volume: got %r, expected %r' % (a, float(e)))
    else:
        raises(ValueError, lambda: euclidian.signed_volume(p), 'signed volume of a simplex of lower dimension')
    if n > 1:
        over = np.zeros(tuple(r['shape']) + (n + 2, n))
        raises(ValueError, lambda: euclidian.unsigned_volume(over), 'volume of too many points')
        raises(ValueError, lambda: euclidian.signed_volume(over), 'signed volume of too many points')


def quality(q, m):
    return geo.volume(q) * math.factorial(m) / max(size(q), 1e-300) ** m


@P.sub('center', st.tuples(simplices(min_m=1), st.booleans(), st.integers(0, 2)).map(list), n=700)
def center(case, rec):
    r, weighted, amount = case
    p = build(r)
    m, n = r['m'], r['n']
    qs = flat(p, 2)
    if min(quality(q, m) for q in qs) < .03:
        return
    rec.nt(m >= 2)
    rec.label('%d in %d' % (m, n), 'weighted' if weighted else 'plain', 'batch %s' % r['shape'])
    g = geo.rng(r['seed'] + 1)
    L = max(size(q) for q in qs)
    w = g.normal(size=p.shape[:-1]) * L ** 2 * [.1, 1, 5][amount] if weighted else None
    ws = flat(w, 1) if weighted else [None] * len(qs)
    want = np.array([geo.power_center(q, u) for q, u in zip(qs, ws)]).reshape(tuple(r['shape']) + (n,))
    s = max(L, np.abs(p).max() * 1e-3, np.abs(want - p[..., 0, :]).max())
    p = gen.dress(p, integer=True)
    w = None if w is None else gen.dress(w)
    keep = p.copy(), None if w is None else w.copy()

    def distances(c, what):
        for q, u, o in zip(qs, ws, flat(c, 1)):
            d = ((q - o) ** 2).sum(axis=1) - (0 if u is None else u)
            require(np.abs(d - d.mean()).max() <= 1e-6 * (s ** 2 + np.abs(d).max()), '%s is as far from all points: %r' % (what, d))
    c = euclidian.circumcenter_construction(p, weights=w)
    close(c, want, 'circumcenter by construction', tol=7e-10, scale=s)
    distances(c, 'constructed center')
    for fn in (euclidian.circumcenter_barycentric, euclidian.circumcenter_barycentric_weighted):
        b = np.asarray(fn(p, weights=w))
        require(b.shape == p.shape[:-1], 'shape of barycentric coordinates')
        big = np.abs(b).max()
        if fn is euclidian.circumcenter_barycentric_weighted and (r['scale'] != 1 or L > 100):
            continue            # no scaling is done there
        close(b.sum(axis=-1), np.ones(b.shape[:-1]), 'sum of barycentric coordinates, ' + fn.__name__, tol=1e-07, scale=max(1, big))
        c = np.einsum('...i,...ij->...j', b, p - p[..., :1, :]) + p[..., 0, :]
        close(c, want, fn.__name__, tol=6e-08, scale=s * max(1, big))
    if not weighted:
        c = euclidian.circumcenter(p)
        close(c, want, 'circumcenter', tol=1e-09, scale=s)
        distances(c, 'circumcenter')
    equal(p, keep[0], 'points are left alone')
    if weighted:
        equal(w, keep[1], 'weights are left alone')
        # only differences of weights count
        close(euclidian.circumcenter_barycentric(p, weights=w + 3 * L ** 2), euclidian.circumcenter_barycentric(p, weights=w), 'shift of weights', tol=1e-09)
    if r['shape'] == [] and not weighted:
        b = geo.barycentric(want, p)
        if np.abs(b).min() > 1e-3:
            require(bool(euclidian.is_wellcentered(p)) == bool(b.min() > 0), 'is_wellcentered')


@P.sub('angles', st.tuples(st.integers(2, 4), st.sampled_from(SHAPES), geo.seeds, st.integers(0, 4), st.integers(-20, 20)).map(list), n=400)
def angles(case, rec):
    n, shape, seed, kind, shift = case
    g = geo.rng(seed)
    p = g.normal(size=tuple(shape) + (3, n))
    if kind == 1:       # thin
        p[..., 2, :] = p[..., 0, :] * .3 + p[..., 1, :] * .7 + p[..., 2, :] * 1e-3
    if kind == 2:       # collinear
        p[..., 2, :] = p[..., 0, :] * .25 + p[..., 1, :] * .75
    if kind == 3:
        p = g.randint(-3, 4, size=p.shape).astype(float)
    p = (p + shift) * 10. ** (shift % 3 - 1)
    if min(np.linalg.norm(a - b) for q in flat(p, 2) for a, b in itertools.combinations(q, 2)) < 1e-3 * max(size(q) for q in flat(p, 2)):
        return
    rec.nt()
    rec.label(['generic', 'thin', 'collinear', 'lattice', 'generic'][kind])
    want = np.array([[2 * math.atan2(np.linalg.norm(a / np.linalg.norm(a) - b / np.linalg.norm(b)), np.linalg.norm(a / np.linalg.norm(a) + b / np.linalg.norm(b)))
                      for a, b in ((q[i - 1] - q[i], q[i - 2] - q[i]) for i in range(3))] for q in flat(p, 2)]).reshape(p.shape[:-1])
    got = euclidian.triangle_angles(gen.dress(p, integer=True))
    close(got, want, 'angles', tol=1e-5, scale=1.)
    close(np.asarray(got).sum(axis=-1), np.full(tuple(shape), math.pi), 'sum of angles', tol=1e-5, scale=1.)


@P.sub('normals', simplices(min_m=1, max_n=5), n=500)
def normals(r, rec):
    p = build(r)
    m, n = r['m'], r['n']
    qs = flat(p, 2)
    if min(quality(q, m) for q in qs) < .03:
        return
    rec.nt(m >= 2)
    rec.label('%d in %d' % (m, n), 'batch %s' % r['shape'])
    p = gen.dress(p, integer=True)
    keep = p.copy()
    N = euclidian.simplex_normals(p)
    G = euclidian.simplex_gradients(p)
    require(np.shape(N) == p.shape and np.shape(G) == p.shape, 'shape of normals and gradients')
    for q, nn, gg in zip(qs, flat(N, 2), flat(G, 2)):
        L = size(q)
        for i in range(m + 1):
            face = np.delete(q, i, axis=0)
            require(abs(np.linalg.norm(nn[i]) - 1) < 1e-6, 'normals have unit length')
            e = (face[1:] - face[0]).dot(nn[i])
            require((np.abs(e) <= 1e-6 * L).all(), 'the normal of the face opposite to corner %d is orthogonal to it' % i)
            h = (q[i] - face[0]).dot(nn[i])
            want = geo.volume(q) * m / geo.volume(face)
            require(abs(h - want) <= 1e-6 * L, 'the normal points to the corner, within the simplex: height %r, expected %r' % (h, want))
            a = geo.volume(face)
            close(gg[i], nn[i] * a, 'gradient is the normal times the area of the face', tol=1e-10, scale=a)
        close(gg.sum(axis=0), np.zeros(n), 'gradients add up to zero', tol=1e-10, scale=np.abs(gg).max())
    equal(p, keep, 'points are left alone')
    if m == n - 1:
        S = euclidian.segment_normals(p)
        require(np.shape(S) == p.shape[:-2] + (n,), 'shape of segment normals')
        for q, s in zip(qs, flat(S, 1)):
            L = size(q)
            a = geo.volume(q) * math.factorial(m)
            require(abs(np.linalg.norm(s) - a) <= 1e-11 * (L + np.abs(q).max() * 1e-3) ** m, 'length of the segment normal is the volume times %d!' % m)
            require((np.abs((q[1:] - q[0]).dot(s)) <= 1e-11 * (L + np.abs(q).max() * 1e-3) ** (m + 1)).all(), 'segment normals are orthogonal')
            d = np.linalg.det(np.concatenate([s[None], q[1:] - q[0]]))
            require(d > 0, 'orientation of the segment normal')
