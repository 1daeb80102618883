"""C01: ragged reductions and value operations vs the nested-list model."""
import math

import torch
import k2
from k2v import rag
from k2v.core import INF, Skip

I32MIN, I32MAX = -2**31, 2**31 - 1


def low(dt):
    return {'i': I32MIN, 'f': torch.finfo(torch.float32).min, 'd': torch.finfo(torch.float64).min}[dt]


def high(dt):
    return {'i': I32MAX, 'f': torch.finfo(torch.float32).max, 'd': torch.finfo(torch.float64).max}[dt]


def build(ctx, **kw):
    nested, axes, dt = rag.gen_nested(ctx.rng, **kw)
    r = rag.make(nested, axes, dt)
    ctx.note(nested=nested, axes=axes, dt=dt)
    return nested, axes, dt, r


def unchanged(ctx, r, nested, axes):
    ctx.eq(r.tolist(), nested, 'input-unchanged', 'operand after the operation')


def op_sum(ctx):
    nested, axes, dt, r = build(ctx)
    init = ctx.rng.choice([None, 0, 3, -2, 0.5 if dt != 'i' else 1])
    got = r.sum() if init is None else r.sum(initial_value=init)
    want = [sum(x) + (init or 0) for x in rag.last_lists(nested, axes)]
    ctx.eq(got.dtype, rag.DT[dt], 'sum', 'dtype')
    ctx.eq(got.tolist(), want, 'sum', f'sum init={init}')
    unchanged(ctx, r, nested, axes)
    ctx.sig('sum', nested, init, dt)


def op_max(ctx):
    nested, axes, dt, r = build(ctx, vstyle=ctx.rng.choice(['few', 'norm', 'big']))
    init = ctx.rng.choice([None, None, 0, -7, 5])
    L = rag.last_lists(nested, axes)
    got = r.max(initial_value=init) if init is not None else r.max()
    b = low(dt) if init is None else init
    ctx.eq(got.dtype, rag.DT[dt], 'max', 'dtype')
    ctx.eq(got.tolist(), torch.tensor([max([b] + x) for x in L], dtype=rag.DT[dt]).tolist(), 'max', f'init={init}')
    got = r.min(initial_value=init) if init is not None else r.min()
    b = high(dt) if init is None else init
    ctx.eq(got.dtype, rag.DT[dt], 'min', 'dtype')
    ctx.eq(got.tolist(), torch.tensor([min([b] + x) for x in L], dtype=rag.DT[dt]).tolist(), 'min', f'init={init}')
    unchanged(ctx, r, nested, axes)
    ctx.sig('max', nested, init, dt)


def op_argmax(ctx):
    nested, axes, dt, r = build(ctx, vstyle=ctx.rng.choice(['few', 'norm', 'big']))
    init = ctx.rng.choice([None, None, 0, -7, 1])
    L = rag.last_lists(nested, axes)
    got = r.argmax(initial_value=init) if init is not None else r.argmax()
    ctx.eq(got.dtype, torch.int32, 'argmax', 'dtype')
    got = got.tolist()
    ctx.eq(len(got), len(L), 'argmax', 'length')
    off = 0
    b = low(dt) if init is None else init
    vals = [v for x in L for v in x]
    for i, x in enumerate(L):
        if not x or max(x) < b:
            ctx.eq(got[i], -1, 'argmax', f'list {i}={x} init={init}')
        else:
            ctx.ok(off <= got[i] < off + len(x) and vals[got[i]] == max(x), 'argmax',
                   f'list {i}={x} at offset {off}: index {got[i]} init={init}')
        off += len(x)
    unchanged(ctx, r, nested, axes)
    ctx.sig('argmax', nested, init, dt)


def lse(x):
    m = max(x)
    if m == -INF:
        return -INF
    return m + math.log(sum(math.exp(v - m) for v in x))


def op_logsumexp(ctx):
    nested, axes, dt, r = build(ctx, dt=ctx.rng.choice('fd'))
    got = r.logsumexp()
    L = rag.last_lists(nested, axes)
    want = [lse(x) if x else -INF for x in L]
    ctx.eq(got.dtype, rag.DT[dt], 'logsumexp', 'dtype')
    ctx.closes(got.tolist(), want, 'logsumexp', 'logsumexp', tol=1e-4 if dt == 'f' else 1e-9,
               rel=1e-5 if dt == 'f' else 1e-10)
    init = ctx.rng.choice([-3.0, 0.0, 2.0])
    got = r.logsumexp(initial_value=init).tolist()
    for g, x in zip(got, L):
        if not x:
            ctx.eq(g, init, 'logsumexp-empty', 'empty list gives initial_value')
    unchanged(ctx, r, nested, axes)
    ctx.sig('lse', nested, dt)


def op_normalize(ctx):
    use_log = ctx.rng.random() < 0.5
    nested, axes, dt, r = build(ctx, dt=ctx.rng.choice('fd'), vstyle='norm')
    L = rag.last_lists(nested, axes)
    if not use_log:
        if any(abs(sum(x)) < 0.5 for x in L if x):
            raise Skip
    out = r.normalize(use_log=use_log)
    splits, _ = rag.shape_from(nested, axes)
    rag.check_shape(ctx, out.shape, splits, 'normalize:shape')
    want = []
    for x in L:
        if x:
            s = lse(x) if use_log else sum(x)
            want += [(v - s) if use_log else v / s for v in x]
    ctx.eq(out.dtype, rag.DT[dt], 'normalize', 'dtype')
    t = 1e-4 if dt == 'f' else 1e-9
    ctx.closes(out.values.tolist(), want, 'normalize', f'use_log={use_log}', tol=t, rel=t)
    unchanged(ctx, r, nested, axes)
    ctx.sig('norm', nested, use_log)


def op_add(ctx):
    nested, axes, dt, r = build(ctx)
    L = rag.last_lists(nested, axes)
    v = [rag.gen_val(ctx.rng, dt, 'norm') for _ in L]
    alpha = ctx.rng.choice([1, -1, 0, 3, -2])
    if dt != 'i' and ctx.rng.random() < 0.4:
        alpha = ctx.rng.choice([0.5, -0.25])
    tv = torch.tensor(v, dtype=rag.DT[dt])
    out = r.add(tv, alpha)
    splits, _ = rag.shape_from(nested, axes)
    want = rag.from_parts(splits, [y + alpha * v[i] for i, x in enumerate(L) for y in x])
    rag.check_ragged(ctx, out, want, axes, dt, 'add')
    unchanged(ctx, r, nested, axes)
    ctx.sig('add', nested, v, alpha)


def op_sort(ctx):
    nested, axes, dt, r = build(ctx, vstyle=ctx.rng.choice(['few', 'norm', 'big']))
    desc = ctx.rng.random() < 0.5
    need = ctx.rng.random() < 0.7
    splits, vals = rag.shape_from(nested, axes)
    L = rag.last_lists(nested, axes)
    alias = r.values
    n2o = r.sort_(descending=desc, need_new2old_indexes=need)
    want = [v for x in L for v in sorted(x, reverse=desc)]
    rag.check_ragged(ctx, r, rag.from_parts(splits, want), axes, dt, 'sort')
    ctx.eq(alias.tolist(), want, 'sort', 'in place')
    if need:
        o = n2o.tolist()
        ctx.eq([vals[i] for i in o], want, 'sort', 'new2old maps to the sorted values')
        ctx.eq(sorted(o), list(range(len(vals))), 'sort', 'new2old is a permutation')
        off = 0
        for x in L:
            ctx.ok(all(off <= j < off + len(x) for j in o[off:off + len(x)]), 'sort', 'new2old stays in its list')
            off += len(x)
    else:
        ctx.eq(n2o, None, 'sort', 'no map requested')
    ctx.sig('sort', nested, desc, need)


def op_unique(ctx):
    nested, axes, dt, r = build(ctx, dt='i', axes=ctx.rng.choice([2, 2, 3, 3, 4]), vstyle='few',
                                lstyle=ctx.rng.choice(['small', 'small', 'mid', 'empty']))
    nr, no = ctx.rng.random() < 0.6, ctx.rng.random() < 0.6
    ans, reps, n2o = r.unique(need_num_repeats=nr, need_new2old_indexes=no)
    ctx.eq(ans.num_axes, axes, 'unique', 'axes')
    groups = nested
    outg = ans.tolist()
    if axes == 4:
        groups = [y for x in nested for y in x]
        ctx.eq([len(x) for x in outg], [len(x) for x in nested], 'unique', 'axis-0 structure')
        outg = [y for x in outg for y in x]
    elif axes == 2:
        groups, outg = [nested], [outg]
    ctx.eq(len(outg), len(groups), 'unique', 'number of groups')
    flat = [s for g in groups for s in g]
    outflat = [s for g in outg for s in g]
    for g, o in zip(groups, outg):
        ctx.eq(sorted(map(tuple, o)), sorted(set(map(tuple, g))), 'unique', f'unique of {g}')
    rag.check_shape(ctx, ans.shape, None, 'unique:shape')
    if nr:
        ctx.eq(reps.num_axes, 2, 'unique-repeats', 'axes')
        ctx.eq(reps.tolist(), [[sum(1 for s in g if s == u) for u in o] for g, o in zip(groups, outg)],
               'unique-repeats', 'counts')
    if no:
        o = n2o.tolist()
        ctx.eq([flat[i] for i in o], outflat, 'unique-map', 'new2old content')
        pos = 0
        lo = 0
        for g, og in zip(groups, outg):
            ctx.ok(all(lo <= o[pos + j] < lo + len(g) for j in range(len(og))), 'unique-map', 'stays in its group')
            pos += len(og)
            lo += len(g)
    unchanged(ctx, r, nested, axes)
    ctx.sig('unique', nested, nr, no)


def op_remove(ctx):
    nested, axes, dt, r = build(ctx, vstyle=ctx.rng.choice(['few', 'norm']))
    t = ctx.rng.randint(-2, 3) if ctx.rng.random() < 0.8 else ctx.rng.randint(-30, 30)
    if dt != 'i':
        t = float(t)

    if ctx.rng.random() < 0.5:
        out = r.remove_values_eq(t)
        want = _filt(nested, axes, lambda v: v != t)
        k = 'remove_eq'
    else:
        out = r.remove_values_leq(t)
        want = _filt(nested, axes, lambda v: v > t)
        k = 'remove_leq'
    rag.check_ragged(ctx, out, want, axes, dt, k)
    unchanged(ctx, r, nested, axes)
    ctx.sig(k, nested, t)


def _filt(x, depth, f):
    if depth == 1:
        return [v for v in x if f(v)]
    return [_filt(y, depth - 1, f) for y in x]


def op_pad(ctx):
    nested, axes, dt, r = build(ctx, axes=2)
    if not nested:
        raise Skip
    mode = ctx.rng.choice(['constant', 'replicate'])
    left = ctx.rng.random() < 0.4 and mode == 'constant'
    pv = ctx.rng.randint(-5, 5)
    out = r.pad(mode=mode, padding_value=pv, pad_left=left) if left or ctx.rng.random() < 0.5 else \
        r.pad(mode=mode, padding_value=pv)
    m = max(len(x) for x in nested)
    want = []
    for x in nested:
        fill = x[-1] if (mode == 'replicate' and x) else pv
        pad = [fill] * (m - len(x))
        want.append(pad + x if left else x + pad)
    ctx.eq(list(out.shape), [len(nested), m], 'pad', 'shape')
    ctx.eq(out.dtype, rag.DT[dt], 'pad', 'dtype')
    ctx.eq(out.tolist(), want, 'pad', f'mode={mode} left={left} pv={pv}')
    unchanged(ctx, r, nested, axes)
    ctx.sig('pad', nested, mode, left, pv)


def op_chain(ctx):
    """A chain of value operations on one object; the model follows."""
    rng = ctx.rng
    nested, axes, dt, r = build(ctx, dt='i', vstyle='few')
    trace = []
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(['eq', 'leq', 'sort', 'add', 'cat'])
        if k == 'eq':
            t = rng.randint(-2, 3)
            r, nested = r.remove_values_eq(t), _filt(nested, axes, lambda v: v != t)
        elif k == 'leq':
            t = rng.randint(-30, 0)
            r, nested = r.remove_values_leq(t), _filt(nested, axes, lambda v: v > t)
        elif k == 'sort':
            r = r.clone()
            d = rng.random() < 0.5
            r.sort_(descending=d)
            splits, _ = rag.shape_from(nested, axes)
            nested = rag.from_parts(splits, [v for x in rag.last_lists(nested, axes)
                                             for v in sorted(x, reverse=d)])
        elif k == 'add':
            L = rag.last_lists(nested, axes)
            v = [rng.randint(-3, 3) for _ in L]
            r = r.add(torch.tensor(v, dtype=torch.int32), 2)
            splits, _ = rag.shape_from(nested, axes)
            nested = rag.from_parts(splits, [y + 2 * v[i] for i, x in enumerate(L) for y in x])
        else:
            if sum(map(len, rag.last_lists(nested, axes))) > 300:
                continue
            r = k2.ragged.cat([r, r], axis=0)
            nested = nested + nested
        trace.append(k)
        rag.check_ragged(ctx, r, nested, axes, 'i', 'chain')
    ctx.eq(r.sum().tolist(), [sum(x) for x in rag.last_lists(nested, axes)], 'chain', 'sum at the end')
    ctx.note(trace=trace)
    ctx.sig('chain', nested, trace)


OPS = [op_sum, op_max, op_argmax, op_logsumexp, op_normalize, op_add, op_sort, op_unique, op_unique,
       op_remove, op_remove, op_pad, op_chain]


def case(ctx):
    op = OPS[ctx.idx % len(OPS)]
    ctx.count(op.__name__)
    op(ctx)
