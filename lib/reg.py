"""Axis-aligned cubical complexes from small recipes, with their geometry worked out independently of /repo"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from lib import gen, geo


def connected(cells):
    """facet-connectedness of a set of multi-indices"""
    cells = set(cells)
    if not cells:
        return True
    todo = [min(cells)]
    seen = set(todo)
    while todo:
        c = todo.pop()
        for a in range(len(c)):
            for s in (-1, 1):
                q = c[:a] + (c[a] + s,) + c[a + 1:]
                if q in cells and q not in seen:
                    seen.add(q)
                    todo.append(q)
    return seen == cells


def well_shaped(cells, vshape):
    """around every vertex both the cells and the missing cells are connected"""
    cells = set(cells)
    d = len(vshape)
    for v in itertools.product(*[range(n) for n in vshape]):
        around = [tuple(v[a] - o[a] for a in range(d)) for o in itertools.product((0, 1), repeat=d)]
        have = [c for c in around if c in cells]
        miss = [c for c in around if c not in cells]
        if have and not (connected(have) and connected(miss)):
            return False
    return True


@gen.dressed
def build(r, rotate=False):
    """r: n (cubes per axis), h (spacings, cycled; one number per axis when uniform), uniform, rm, labels, order, flips, shift
    returns dict(cells=[m, 2, 2...], x, d, boxes=[(lo, hi)] per cell)"""
    n = r['n']
    d = len(n)
    if r['uniform']:
        coords = [np.arange(k + 1) * r['h'][a % len(r['h'])] + r['shift'][a] for a, k in enumerate(n)]
    else:
        coords = [np.concatenate([[0], np.cumsum([r['h'][(a + i) % len(r['h'])] for i in range(k)])]) + r['shift'][a] for a, k in enumerate(n)]
    vshape = tuple(k + 1 for k in n)
    cells = list(itertools.product(*[range(k) for k in n]))
    for p in r['rm']:
        if len(cells) > 1:
            k = p % len(cells)
            rest = cells[:k] + cells[k + 1:]
            if well_shaped(rest, vshape):
                cells = rest
    verts = sorted({tuple(c[a] + o[a] for a in range(d)) for c in cells for o in itertools.product((0, 1), repeat=d)})
    perm = gen.Noise(r['labels']).perm(len(verts))
    verts = [verts[i] for i in perm]
    idx = {v: i for i, v in enumerate(verts)}
    x = np.array([[coords[a][v[a]] for a in range(d)] for v in verts], dtype=float)
    order = gen.Noise(r['order']).perm(len(cells))
    cells = [cells[i] for i in order]
    out = np.zeros((len(cells),) + (2,) * d, dtype=np.int64)
    bits = gen.Noise(r['flips']).ints(len(cells))
    for i, c in enumerate(cells):
        q = np.zeros((2,) * d, dtype=np.int64)
        for o in itertools.product((0, 1), repeat=d):
            q[o] = idx[tuple(c[a] + o[a] for a in range(d))]
        # even symmetries only, so that the complex is oriented
        par = 0
        for a in range(d):
            if bits[i] >> a & 1:
                q = np.flip(q, axis=a)
                par ^= 1
        if rotate and d > 1:
            perms = list(itertools.permutations(range(d)))
            p = perms[(int(bits[i]) >> d) % len(perms)]
            q = np.transpose(q, p)
            par ^= gen.parity(p)
        if par:
            q = np.flip(q, axis=0)
        out[i] = q
    lo = np.array([[coords[a][c[a]] for a in range(d)] for c in cells], dtype=float)
    hi = np.array([[coords[a][c[a] + 1] for a in range(d)] for c in cells], dtype=float)
    return dict(cells=out, x=x, d=d, lo=lo, hi=hi)


def regular(dims=(1, 2, 2, 3, 3, 4), uniform=None, max_rm=4):
    top = {1: 5, 2: 3, 3: 2, 4: 2}
    spacing = st.sampled_from([1, .5, 2, .1, 3, 10])

    def of(d):
        return st.fixed_dictionaries({
            'n': st.lists(st.integers(1, top[d]), min_size=d, max_size=d).filter(lambda n: np.prod(n) <= 12),
            'h': st.lists(spacing, min_size=1, max_size=4), 'uniform': st.booleans() if uniform is None else st.just(uniform),
            'rm': st.lists(st.integers(0, 30), max_size=max_rm), 'shift': st.lists(st.integers(-3, 3), min_size=d, max_size=d),
            'labels': gen.noise(24), 'order': gen.noise(24), 'flips': gen.noise(24)})
    return st.sampled_from(list(dims)).flatmap(of)


def elements(b):
    """dict from sorted vertex tuple to (dimension, lo, hi, set of cells); and the set of boundary facets"""
    d, x = b['d'], b['x']
    out = {}
    for i, c in enumerate(b['cells']):
        lo, hi = b['lo'][i], b['hi'][i]
        for state in itertools.product((0, 1, 2), repeat=d):
            l = np.where(np.array(state) == 1, hi, lo)
            h = np.where(np.array(state) == 0, lo, hi)
            key = tuple(sorted(int(v) for v in c.ravel() if ((x[v] >= l - 1e-9) & (x[v] <= h + 1e-9)).all()))
            k = sum(s == 2 for s in state)
            assert len(key) == 2 ** k
            out.setdefault(key, (k, l, h, set()))[3].add(i)
    return out


def boundary_facets(el, d):
    return {k for k, (n, _, _, s) in el.items() if n == d - 1 and len(s) == 1}


def half(l, h, box_l, box_h):
    """product of half sides of the box in the directions in which the element has no extent"""
    flat = (h - l) == 0
    return float(np.prod(np.where(flat, (box_h - box_l) / 2, 1)))
