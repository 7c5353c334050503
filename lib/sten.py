"""explicit models of operators on periodic grids"""
import itertools

import numpy as np
from hypothesis import strategies as st

from lib import geo


def comps(d, n):
    """extents of the components of an n-form"""
    return list(itertools.combinations(range(d), n))


def form_shape(shape, n):
    return (len(comps(len(shape), n)),) + tuple(shape)


def ahead(f, axis, k=1):
    """value at the next element along the axis, periodically"""
    return np.take(f, (np.arange(f.shape[axis]) + k) % f.shape[axis], axis=axis)


def d(f, shape, n):
    """derivative of an n-form; plus for the direction that comes last"""
    D = len(shape)
    c = {s: i for i, s in enumerate(comps(D, n))}
    out = []
    for s in comps(D, n + 1):
        t = np.zeros(shape)
        for k, a in enumerate(s):
            q = f[c[s[:k] + s[k + 1:]]]
            t = t + (-1) ** (n - k) * (ahead(q, a) - q)
        out.append(t)
    return np.array(out)


def average(f, shape, n):
    """mean of the corners of each element"""
    out = []
    for s in comps(len(shape), n):
        t = np.zeros(shape)
        for k in itertools.product([0, 1], repeat=n):
            q = f[0]
            for a, o in zip(s, k):
                q = ahead(q, a, o)
            t = t + q
        out.append(t / 2 ** n)
    return np.array(out)


def smooth(f, shape, n, norm):
    out = []
    for s, q in zip(comps(len(shape), n), f):
        for a in range(len(shape)):
            if a not in s:
                q = (ahead(q, a, -1) + 2 * q + ahead(q, a, 1)) / norm
        out.append(q)
    return np.array(out)


def bin(f, shape, n):
    """of each coarse element: mean of the fine elements that make it up"""
    half = tuple(q // 2 for q in shape)
    out = np.zeros((len(f),) + half)
    for c, s in enumerate(comps(len(shape), n)):
        for i in np.ndindex(*half):
            kids = [tuple(2 * i[a] + (k[a] if a in s else 0) for a in range(len(shape))) for k in itertools.product([0, 1], repeat=len(shape))]
            out[(c,) + i] = np.mean([f[c][q] for q in set(kids)])
    return out


def tile(f, shape, n):
    """of each fine element: the value of the coarse element it is part of, or zero"""
    out = np.zeros((len(f),) + tuple(shape))
    for c, s in enumerate(comps(len(shape), n)):
        for i in np.ndindex(*shape):
            if all(a in s or i[a] % 2 == 0 for a in range(len(shape))):
                out[(c,) + i] = f[c][tuple(q // 2 for q in i)]
    return out


def dense(fn, shape_in):
    """matrix of a function of forms"""
    n = int(np.prod(shape_in))
    return np.array([np.asarray(fn(e.reshape(shape_in))).ravel() for e in np.eye(n)]).T.reshape(-1, n)


def derivative_matrix(shape, n):
    return dense(lambda f: d(f, shape, n), form_shape(shape, n))


def shapes(max_dim=4, cells=40, even=False, low=1):
    def ok(s):
        return np.prod(s) <= cells
    top = 9
    q = st.lists(st.integers(low, top), min_size=1, max_size=max_dim)
    if even:
        q = st.lists(st.integers(1, top // 2).map(lambda k: 2 * k), min_size=1, max_size=max_dim)

    def shrink(s):
        s = list(s)
        while np.prod(s) > cells:
            k = int(np.argmax(s))
            s[k] = s[k] - 2 if even else s[k] - 1
        return s
    return q.map(shrink)


def form(g, shape, kind):
    """random form; kind: integers, floats, single precision, or an array that is not contiguous"""
    if kind in (0, 3):
        f = g.randint(-9, 10, size=shape).astype([np.float64, 0, 0, np.float32][kind])
    else:
        f = g.normal(size=shape).astype(np.float32 if kind == 2 else np.float64)
    if kind == 4:
        big = np.zeros(tuple(2 * s for s in shape))
        v = big[tuple(slice(None, None, -2) for _ in shape)]
        v[...] = f
        return v
    return f


SCALES = st.sampled_from([1, 1, 2, .5, .1, 3])
