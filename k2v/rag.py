"""Nested-list model of ragged tensors and generators for them."""
import random

import torch
import k2
import k2.ragged as k2r

DT = {'i': torch.int32, 'f': torch.float32, 'd': torch.float64}


def gen_len(rng, style):
    if style == 'empty':
        return 0
    if style == 'small':
        return rng.choice([0, 0, 1, 1, 2, 3])
    if style == 'mid':
        return rng.randint(0, 9)
    if style == 'ones':
        return 1
    if style == 'skew':
        return rng.choice([0, 0, 0, 0, 1, 17, 33]) if rng.random() < 0.5 else 0
    return rng.randint(0, 4)


def gen_val(rng, dt, style):
    if dt == 'i':
        if style == 'few':
            return rng.randint(-1, 2)
        if style == 'big':
            return rng.choice([-2**31, 2**31 - 1, 0, -1, rng.randint(-2**31, 2**31 - 1)])
        return rng.randint(-20, 20)
    if style == 'few':
        return float(rng.randint(-1, 2))
    if style == 'big':
        return rng.choice([1e30, -1e30, 0.0, -0.5, 1e-30, rng.uniform(-1e6, 1e6)]) \
            if dt == 'd' else float(rng.randint(-2**20, 2**20))
    return rng.randint(-400, 400) / 16.0


def gen_nested(rng, axes=None, dt=None, dim0=None, lstyle=None, vstyle=None, max_elems=400):
    axes = axes or rng.choice([2, 2, 2, 3, 3, 4])
    dt = dt or rng.choice('iifd')
    lstyle = lstyle or rng.choice(['small', 'small', 'mid', 'skew', 'empty', 'ones'])
    vstyle = vstyle or rng.choice(['few', 'norm', 'norm'])
    budget = [max_elems]

    def go(depth):
        if depth == 0:
            budget[0] -= 1
            return gen_val(rng, dt, vstyle)
        n = gen_len(rng, lstyle if depth == 1 else rng.choice(['small', 'mid', lstyle]))
        if budget[0] <= 0:
            n = 0
        if depth > 1:
            n = min(n, 6)
        return [go(depth - 1) for _ in range(n)]
    n0 = dim0 if dim0 is not None else rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 12])
    return [go(axes - 1) for _ in range(n0)], axes, dt


def shape_from(nested, axes):
    """row_splits per axis 1..axes-1 and flat values."""
    level = [nested]
    splits = []
    cur = nested
    for _ in range(axes - 1):
        rs = [0]
        nxt = []
        for x in cur:
            rs.append(rs[-1] + len(x))
            nxt.extend(x)
        splits.append(rs)
        cur = nxt
    return splits, cur


def from_parts(splits, vals):
    cur = list(vals)
    for rs in reversed(splits):
        cur = [cur[rs[i]:rs[i + 1]] for i in range(len(rs) - 1)]
    return cur


def make_shape(splits, tot=None):
    s = None
    for rs in splits:
        t = k2r.create_ragged_shape2(torch.tensor(rs, dtype=torch.int32), None, rs[-1])
        s = t if s is None else s.compose(t)
    return s


def make(nested, axes, dt):
    """Builds by shape + values: independent of the list constructors and exact
    for trailing empty axes."""
    splits, vals = shape_from(nested, axes)
    return k2.RaggedTensor(make_shape(splits), torch.tensor(vals, dtype=DT[dt]))


def last_lists(nested, axes):
    cur = nested
    for _ in range(axes - 2):
        cur = [y for x in cur for y in x]
    return cur


def tolist(r):
    return r.tolist()


def check_shape(ctx, s, want_splits=None, key='shape'):
    """Shape invariants from its own accessors; want_splits for axes 1.."""
    na = s.num_axes
    prev = s.dim0
    ctx.eq(s.tot_size(0), prev, key, 'tot_size(0)')
    sizes = [prev]
    for a in range(1, na):
        rs = s.row_splits(a).tolist()
        ri = s.row_ids(a).tolist()
        ctx.eq(len(rs), prev + 1, key, f'row_splits({a}) length')
        ctx.ok(rs[0] == 0 and all(x <= y for x, y in zip(rs, rs[1:])), key,
               f'row_splits({a}) monotone from 0', rs=rs)
        ctx.eq(s.tot_size(a), rs[-1], key, f'tot_size({a})')
        want = [i for i in range(prev) for _ in range(rs[i], rs[i + 1])]
        ctx.eq(ri, want, key, f'row_ids({a})', rs=rs)
        if prev:
            ctx.eq(s.max_size(a), max(rs[i + 1] - rs[i] for i in range(prev)), key, f'max_size({a})')
        if want_splits is not None:
            ctx.eq(rs, want_splits[a - 1], key, f'row_splits({a})')
        prev = rs[-1]
        sizes.append(prev)
    ctx.eq(list(s.tot_sizes()), sizes, key, 'tot_sizes')
    ctx.eq(s.numel(), sizes[-1], key, 'numel')


def check_ragged(ctx, r, nested, axes, dt=None, key='value', deep=True):
    ctx.eq(r.num_axes, axes, key, 'num_axes')
    splits, vals = shape_from(nested, axes)
    if dt:
        ctx.eq(r.dtype, DT[dt], key, 'dtype')
    ctx.eq(r.tolist(), nested, key, 'tolist')
    if deep:
        check_shape(ctx, r.shape, splits, key + ':shape')
        ctx.eq(r.values.tolist(), [type(v)(v) for v in vals], key, 'values')
        ctx.eq(r.numel(), len(vals), key, 'numel')
