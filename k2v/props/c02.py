"""C02: ragged construction, indexing and reshaping against nested lists, with
shape invariants read back and histories of structural operations."""
import ast
import pickle

import torch
import k2
import k2.ragged as k2r
from k2v import rag
from k2v.core import Skip
from k2v.rag import DT, check_ragged, check_shape, from_parts, make, make_shape, shape_from


def depth(x):
    if not isinstance(x, list):
        return 0
    return 1 + max([depth(y) for y in x], default=0)


def mk(ctx, **kw):
    n, axes, dt = rag.gen_nested(ctx.rng, **kw)
    ctx.note(nested=n, axes=axes, dt=dt)
    r = make(n, axes, dt)
    if ctx.rng.random() < 0.3:
        touch(ctx, r.shape)
    return n, axes, dt, r


def touch(ctx, s):
    """Random reads: the lazily computed parts must not change anything."""
    for a in range(1, s.num_axes):
        k = ctx.rng.randrange(4)
        if k == 0:
            s.row_ids(a)
        elif k == 1:
            s.tot_size(a)
        elif k == 2:
            s.max_size(a)


def ints(ctx, n, lo=0, k=None):
    r = ctx.rng
    if n <= lo and lo >= 0:
        return []
    k = r.choice([0, 1, 2, 3, 7, 20]) if k is None else k
    return [r.randrange(lo, n) for _ in range(k)] if n > lo else []


def op_list(ctx):
    n, axes, dt = rag.gen_nested(ctx.rng)
    d = depth(n)
    ctx.note(nested=n, axes=axes, dt=dt)
    if d < 2 and n == []:
        d = 2
    if d < 2:
        raise Skip
    ctx.sig('list', n, dt)
    r = ctx.rng
    ctor = r.choice([k2r.RaggedTensor, k2r.create_ragged_tensor])
    form = r.randrange(3)
    try:
        if form == 0:
            x = ctor(n, DT[dt])
            want = dt
        elif form == 1:
            x = ctor(n, dtype=DT[dt], device='cpu')
            want = dt
        else:
            x = ctor(n)
            vals = shape_from(n, d)[1]
            want = 'i' if all(isinstance(v, int) for v in vals) else 'f'
            if want == 'f':
                n2 = map_vals(n, lambda v: float(torch.tensor(float(v), dtype=torch.float32)))
                n = n2
    except Exception as e:
        ctx.fail('list', f'nested list refused: {type(e).__name__} {e}')
    if dt != want or form == 2:
        n = map_vals(n, lambda v: int(v) if want == 'i' else float(v))
    check_ragged(ctx, x, n, d, want, 'list')


def map_vals(x, f):
    return [map_vals(y, f) for y in x] if isinstance(x, list) else f(x)


def text(n, ctx, dt):
    r = ctx.rng
    if not isinstance(n, list):
        return str(n) if dt == 'i' else repr(n)
    sp = lambda: ' ' * r.choice([0, 1, 1, 2])
    parts = [text(y, ctx, dt) for y in n]
    return '[' + sp() + (' ' + sp()).join(parts) + sp() + ']'


def op_string(ctx):
    n, axes, dt = rag.gen_nested(ctx.rng, max_elems=60)
    d = depth(n)
    if d < axes or d < 2:
        raise Skip
    s = text(n, ctx, dt)
    ctx.note(s=s, dt=dt)
    ctx.sig('str', s, dt)
    ctor = ctx.rng.choice([k2r.RaggedTensor, k2r.create_ragged_tensor])
    x = ctor(s, DT[dt])
    check_ragged(ctx, x, n, axes, dt, 'string')
    # the shape alone
    sh = k2r.RaggedShape(text(map_vals(n, lambda v: 0), ctx, 'i').replace('0', 'x'))
    check_shape(ctx, sh, shape_from(n, axes)[0], 'shape-string')
    sh2 = k2r.RaggedShape(str(sh))
    check_shape(ctx, sh2, shape_from(n, axes)[0], 'shape-reparse')
    ctx.ok(sh == sh2 and not sh != sh2, 'shape-eq', 'a shape differs from its own text form')


def fmt(v, dt):
    if dt == 'i':
        return str(v)
    if dt == 'f':
        v = float(torch.tensor(v, dtype=torch.float32))
    return '%g' % v


def simple(n, dt):
    if not isinstance(n, list):
        return fmt(n, dt)
    return '[' + ', '.join(simple(y, dt) for y in n) + ']'


def op_print(ctx):
    n, axes, dt, x = mk(ctx, max_elems=60)
    ctx.sig('print', n, dt)
    want = 'RaggedTensor(' + simple(n, dt) + ', dtype=' + str(DT[dt]) + ')'
    got = x.to_str_simple()
    ctx.eq(got, want, 'to_str_simple')
    ctx.eq(str(x).replace(' ', '').replace('\n', ''), want.replace(' ', ''), 'str')
    ctx.eq(repr(x), str(x), 'repr')
    # parse it back, to printed precision
    body = got[len('RaggedTensor('):got.index(', dtype')]
    lst = ast.literal_eval(body)
    if depth(lst) == axes:
        y = k2r.RaggedTensor(lst, DT[dt])
        rr = map_vals(n, lambda v: int(v) if dt == 'i' else
                      float(torch.tensor(float(fmt(v, dt)), dtype=DT[dt])))
        check_ragged(ctx, y, rr, axes, dt, 'reparse')
        z = k2r.RaggedTensor(body.replace(',', ' '), DT[dt])
        ctx.ok(y == z and not (y != z), 'reparse', 'list form and text form disagree')


def op_tensor(ctx):
    r = ctx.rng
    nd = r.choice([2, 2, 3, 3, 4, 5])
    dims = [r.choice([0, 1, 2, 3, 4]) if r.random() < 0.2 else r.choice([1, 2, 3]) for _ in range(nd)]
    dt = r.choice('ifd')
    t = torch.randint(-50, 50, dims).to(DT[dt])
    if r.random() < 0.4:
        t = t.transpose(0, nd - 1)
    elif r.random() < 0.3:
        t = torch.randint(-50, 50, [d * 2 for d in dims]).to(DT[dt])[tuple(slice(None, None, 2) for _ in dims)]
    ctx.note(t=t, dims=dims)
    ctx.sig('tensor', t.tolist(), list(t.shape), dt)
    x = r.choice([k2r.RaggedTensor, k2r.create_ragged_tensor])(t)
    ctx.eq(x.num_axes, nd, 'tensor', 'num_axes')
    splits, m = [], 1
    m = t.shape[0]
    for d in t.shape[1:]:
        splits.append([i * d for i in range(m + 1)])
        m *= d
    check_shape(ctx, x.shape, splits, 'tensor')
    ctx.eq(x.values.tolist(), t.reshape(-1).tolist(), 'tensor', 'values')


def op_shapes(ctx):
    r = ctx.rng
    k = r.randrange(4)
    if k == 0:
        a, b = r.choice([0, 1, 2, 5]), r.choice([0, 1, 3, 4])
        ctx.note(a=a, b=b)
        ctx.sig('regular', a, b)
        check_shape(ctx, k2r.regular_ragged_shape(a, b), [[i * b for i in range(a + 1)]], 'regular')
        return
    n, axes, dt = rag.gen_nested(r)
    splits, vals = shape_from(n, axes)
    ctx.note(splits=splits)
    ctx.sig('shapes', splits, k)
    if k == 1:
        rs = splits[0]
        ids = [i for i in range(len(rs) - 1) for _ in range(rs[i], rs[i + 1])]
        form = r.randrange(3)
        tr = torch.tensor(rs, dtype=torch.int32)
        ti = torch.tensor(ids, dtype=torch.int32)
        tot = r.choice([-1, len(ids)])
        if form == 0:
            s = k2r.create_ragged_shape2(tr, None, tot)
        elif form == 1:
            s = k2r.create_ragged_shape2(tr, ti, tot)
        else:
            if not ids:
                raise Skip
            s = k2r.create_ragged_shape2(None, ti, tot)
            rs = rs[:ids[-1] + 2]
        check_shape(ctx, s, [rs], 'shape2')
        if form == 2 and r.random() < 0.5:
            ctx.eq(tr.tolist(), splits[0], 'shape2', 'argument changed')
        return
    s = make_shape(splits)
    if k == 2:
        # layers, and composing them again
        for i in range(axes - 1):
            check_shape(ctx, s.get_layer(i), [splits[i]], 'get_layer')
        if axes > 2:
            t = s.get_layer(0)
            for i in range(1, axes - 1):
                t = t.compose(s.get_layer(i))
            check_shape(ctx, t, splits, 'compose')
            ctx.ok(t == s, 'shape-eq', 'recomposed shape differs')
        if s.dim0:
            i = r.randrange(s.dim0)
            if axes > 2:
                sub, _ = shape_from(n[i], axes - 1)
                check_shape(ctx, s[i], sub, 'shape-getitem')
    else:
        a, b = sorted([r.choice([2, 3, 4]), r.choice([2, 3, 4])])
        t = k2r.random_ragged_shape(r.random() < 0.5, a, b, r.choice([0, 10]), r.choice([10, 40]))
        ctx.ok(a <= t.num_axes <= b, 'random', 'axes')
        check_shape(ctx, t, None, 'random')
        # equality of shapes is equality of their splits
        u = k2r.RaggedShape(str(t)) if depth_known(t) else None
        if u is not None:
            ctx.ok(u == t, 'shape-eq', 'random shape differs from its text form')


def depth_known(s):
    return s.numel() > 0


def nest_index(n, axes, axis, idx):
    """The documented meaning of index(); returns (nested, value_indexes)."""
    splits, vals = shape_from(n, axes)
    pos = from_parts(splits, list(range(len(vals))))
    if axis == 0:
        out = [pos[i] if i >= 0 else [] for i in idx]
    else:
        # axis k: keep the upper structure, regroup elements by their row
        lev = pos
        for _ in range(axis - 1):
            lev = [y for x in lev for y in x]
        flat = [(ri, y) for ri, x in enumerate(lev) for y in x]
        rows = [[] for _ in lev]
        for i in idx:
            rows[flat[i][0]].append(flat[i][1])
        out = from_parts(splits[:axis - 1], rows) if axis > 1 else rows
    _, vi = shape_from(out, axes)
    return out, vi


def sub_vals(x, vals):
    return map_vals(x, lambda i: vals[i])


def op_index(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx)
    splits, vals = shape_from(n, axes)
    axis = r.choice([0, 0, 0, 1, 2])
    axis = min(axis, axes - 2) if r.random() < 0.8 else min(axis, axes - 1)
    tot = x.shape.tot_size(axis)
    idx = ints(ctx, tot, -1 if axis == 0 else 0)
    if axis > 0:
        rs = splits[axis - 1]
        ids = [i for i in range(len(rs) - 1) for _ in range(rs[i], rs[i + 1])]
        idx.sort(key=lambda i: ids[i])
    ctx.note(idx=idx, axis=axis)
    ctx.sig('index', n, idx, axis)
    pos, vi = nest_index(n, axes, axis, idx)
    want = sub_vals(pos, vals)
    t = torch.tensor(idx, dtype=torch.int32)
    if axis == axes - 1:
        # values are re-gathered on the last axis
        ctx.count('index-last')
    y, gi = x.index(t, axis, True)
    check_ragged(ctx, y, want, axes, dt, 'index')
    ctx.eq(gi.tolist(), vi, 'value_indexes')
    y2, none = x.index(t, axis)
    ctx.ok(none is None, 'value_indexes', 'unrequested value_indexes')
    check_ragged(ctx, y2, want, axes, dt, 'index')
    if axis == 0:
        check_ragged(ctx, x[t], want, axes, dt, 'getitem-tensor')
    s, sv = x.shape.index(axis, t)
    check_shape(ctx, s, shape_from(pos, axes)[0], 'shape-index')
    ctx.eq(sv.tolist(), vi, 'shape-index', 'value indexes')
    check_ragged(ctx, x, n, axes, dt, 'unchanged')


def op_ragged_index(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx, axes=r.choice([2, 2, 3]), max_elems=80)
    if not n:
        raise Skip
    inn, ia, _ = rag.gen_nested(r, axes=r.choice([2, 3]), dt='i', max_elems=20)
    inn = map_vals(inn, lambda v: r.randrange(len(n)))
    ctx.note(index=inn)
    ctx.sig('rindex', n, inn)
    i = make(inn, ia, 'i')
    y = x.index(i)
    check_ragged(ctx, y, map_vals(inn, lambda v: n[v]), axes + ia - 1, dt, 'ragged-index')
    check_ragged(ctx, i, inn, ia, 'i', 'unchanged')


def op_tensor_by_ragged(ctx):
    r = ctx.rng
    dt = r.choice('ifd')
    m = r.choice([0, 1, 3, 10])
    src = [rag.gen_val(r, dt, 'norm') for _ in range(m)]
    inn, ia, _ = rag.gen_nested(r, dt='i', max_elems=60)
    neg = r.random() < 0.6
    inn = map_vals(inn, lambda v: -1 if m == 0 or (neg and r.random() < 0.3) else r.randrange(m))
    dv = r.choice([None, 0, -2, 5])
    ctx.note(src=src, index=inn, dv=dv)
    ctx.sig('tindex', src, inn, dv)
    i = make(inn, ia, 'i')
    t = torch.tensor(src, dtype=DT[dt])
    y = k2r.index(t, i) if dv is None and r.random() < 0.5 else k2r.index(t, i, default_value=dv)
    d = 0 if dv is None else dv
    want = map_vals(inn, lambda v: (d if dt == 'i' else float(d)) if v < 0 else src[v])
    check_ragged(ctx, y, want, ia, dt, 'index-tensor')


def op_slice(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx)
    k = len(n)
    a, b = r.randint(-k - 2, k + 2), r.randint(-k - 2, k + 2)
    a = None if r.random() < 0.15 else a
    b = None if r.random() < 0.15 else b
    ctx.note(a=a, b=b)
    ctx.sig('slice', n, a, b)
    sa, sb, _ = slice(a, b).indices(k)
    if sa <= sb:
        check_ragged(ctx, x[a:b], n[a:b], axes, dt, 'slice')
    for i in ([r.randrange(k)] if k else []):
        if axes == 2:
            t = x[i]
            ctx.ok(t.dtype == DT[dt] and t.tolist() == n[i], 'getitem', 'row tensor', i=i)
        else:
            check_ragged(ctx, x[i], n[i], axes - 1, dt, 'getitem')
    # arange along an axis
    axis = r.randrange(axes - 1)
    tot = x.shape.tot_size(axis)
    p, q = sorted([r.randint(0, tot), r.randint(0, tot)])
    if r.random() < 0.2:
        q = p
    ctx.note(axis=axis, p=p, q=q)
    lev = n
    for _ in range(axis):
        lev = [y for z in lev for y in z]
    check_ragged(ctx, x.arange(axis, p, q), lev[p:q], axes - axis, dt, 'arange')
    check_ragged(ctx, x, n, axes, dt, 'unchanged')


def zipcat(ns, axis):
    if axis == 0:
        return [y for n in ns for y in n]
    return [zipcat(list(z), axis - 1) for z in zip(*ns)]


def op_cat(ctx):
    r = ctx.rng
    axes = r.choice([2, 2, 3, 4])
    dt = r.choice('iifd')
    k = r.choice([1, 2, 2, 3, 5])
    axis = r.choice([0, 1])
    if axis == 0:
        ns = [rag.gen_nested(r, axes=axes, dt=dt, max_elems=100)[0] for _ in range(k)]
    else:
        d0 = r.choice([0, 1, 3, 6])
        ns = [rag.gen_nested(r, axes=axes, dt=dt, dim0=d0, max_elems=100)[0] for _ in range(k)]
    ctx.note(ns=ns, axis=axis, axes=axes)
    ctx.sig('cat', ns, axis)
    xs = [make(n, axes, dt) for n in ns]
    f = r.choice([k2r.cat, k2r.RaggedTensor.cat])
    y = f(r.choice([list, tuple])(xs), axis)
    check_ragged(ctx, y, zipcat(ns, axis), axes, dt, 'cat')
    for x, n in zip(xs, ns):
        check_ragged(ctx, x, n, axes, dt, 'unchanged')
    # the result does not alias an argument
    if y.numel():
        y.values[:] = 99
        for x, n in zip(xs, ns):
            if k > 1:
                ctx.eq(x.tolist(), n, 'cat-alias', 'editing the concatenation changed an argument')


def remove_axis(n, axis):
    if axis == 0:
        return [y for x in n for y in x]
    return [remove_axis(x, axis - 1) for x in n]


def op_remove_axis(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx, axes=r.choice([3, 3, 4]))
    axis = r.randrange(axes - 1)
    ctx.note(axis=axis)
    ctx.sig('rmaxis', n, axis)
    want = remove_axis(n, axis)
    check_ragged(ctx, x.remove_axis(axis), want, axes - 1, dt, 'remove_axis')
    check_shape(ctx, x.shape.remove_axis(axis), shape_from(want, axes - 1)[0], 'shape-remove_axis')
    check_shape(ctx, x.shape.remove_axis(axes - 1), shape_from(n, axes)[0][:-1], 'shape-remove_last')
    check_ragged(ctx, x, n, axes, dt, 'unchanged')


def op_pickle(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx, axes=r.choice([2, 3]))
    ctx.sig('pickle', n, dt)
    how = r.randrange(4)
    if how == 0:
        y = pickle.loads(pickle.dumps(x))
    elif how == 1:
        import copy
        y = copy.deepcopy(x)
    elif how == 2:
        y = x.clone()
    else:
        import io
        b = io.BytesIO()
        torch.save({'x': x}, b)
        b.seek(0)
        y = torch.load(b, weights_only=False)['x']
    check_ragged(ctx, y, n, axes, dt, 'pickle')
    ctx.ok(x == y and not (x != y), 'eq', 'copy is not equal')
    if y.numel():
        old = y.values[0].item()
        y.values[0] = old + 1
        ctx.eq(x.tolist(), n, 'independent', 'editing a copy changed the original')
        ctx.ok(x != y and not (x == y), 'eq', 'tensors with different values are equal')


def op_eq(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx)
    m = n
    if r.random() < 0.6:
        m, _, _ = rag.gen_nested(r, axes=axes, dt=dt)
    elif r.random() < 0.7 and n:
        # same values, another structure
        splits, vals = shape_from(n, axes)
        a = r.randrange(axes - 1)
        rs = list(splits[a])
        if len(rs) > 2:
            i = r.randrange(1, len(rs) - 1)
            rs[i] = r.randint(rs[i - 1], rs[i + 1])
        splits[a] = rs
        m = from_parts(splits, vals)
    ctx.note(m=m)
    ctx.sig('eq', n, m)
    y = make(m, axes, dt)
    same = n == m
    ctx.eq(x == y, same, 'eq')
    ctx.eq(x != y, not same, 'ne')
    ctx.eq(x.shape == y.shape, shape_from(n, axes)[0] == shape_from(m, axes)[0], 'shape-eq')


def op_dtype(ctx):
    r = ctx.rng
    n, axes, dt, x = mk(ctx)
    to = r.choice('ifd')
    ctx.note(to=to)
    ctx.sig('dtype', n, dt, to)
    y = x.to(DT[to])
    vals = torch.tensor(shape_from(n, axes)[1], dtype=DT[dt]).to(DT[to]).tolist()
    check_ragged(ctx, y, from_parts(shape_from(n, axes)[0], vals), axes, to, 'to-dtype')
    check_ragged(ctx, x.to('cpu'), n, axes, dt, 'to-device')
    check_ragged(ctx, x.to(torch.device('cpu')), n, axes, dt, 'to-device')
    ctx.ok(x.device == torch.device('cpu') and not x.is_cuda, 'device')
    check_ragged(ctx, x, n, axes, dt, 'unchanged')


def op_history(ctx):
    """A chain of structural operations with random reads in between."""
    r = ctx.rng
    n, axes, dt, x = mk(ctx, max_elems=120)
    trace = []
    for _ in range(r.randint(2, 8)):
        touch(ctx, x.shape)
        op = r.choice(['slice', 'index', 'cat0', 'cat1', 'arange', 'rmaxis', 'pickle', 'rebuild', 'item', 'cat0'])
        splits, vals = shape_from(n, axes)
        if len(vals) > 500:
            break
        if op == 'slice':
            a, b = sorted([r.randint(0, len(n)), r.randint(0, len(n))])
            x, n = x[a:b], n[a:b]
        elif op == 'index':
            idx = ints(ctx, len(n), -1)
            x = x[torch.tensor(idx, dtype=torch.int32)]
            n = [n[i] if i >= 0 else [] for i in idx]
        elif op == 'cat0':
            x, n = k2r.cat([x, x], 0), n + n
        elif op == 'cat1':
            x, n = k2r.cat([x, x], 1), zipcat([n, n], 1)
        elif op == 'arange':
            axis = r.randrange(axes - 1)
            tot = x.shape.tot_size(axis)
            p, q = sorted([r.randint(0, tot), r.randint(0, tot)])
            lev = n
            for _ in range(axis):
                lev = [y for z in lev for y in z]
            x, n, axes = x.arange(axis, p, q), lev[p:q], axes - axis
        elif op == 'rmaxis':
            if axes < 3:
                continue
            a = r.randrange(axes - 1)
            x, n, axes = x.remove_axis(a), remove_axis(n, a), axes - 1
        elif op == 'pickle':
            if axes > 3:
                continue
            x = pickle.loads(pickle.dumps(x))
        elif op == 'rebuild':
            x = k2.RaggedTensor(x.shape, x.values)
        elif op == 'item':
            if axes < 3 or not n:
                continue
            i = r.randrange(len(n))
            x, n, axes = x[i], n[i], axes - 1
        trace.append(op)
    ctx.note(trace=trace)
    ctx.sig('history', trace, n)
    check_ragged(ctx, x, n, axes, dt, 'history')


def op_arc(ctx):
    """RaggedArc, the class below the FSAs, and the module functions on shapes."""
    import _k2
    r = ctx.rng
    axes = r.choice([2, 2, 3, 3])
    n, axes, _ = rag.gen_nested(r, axes=axes, dt='i', max_elems=60)
    splits, pos = shape_from(n, axes)
    k = len(pos)
    arcs = [[r.randrange(5), r.randrange(5), r.randint(-1, 4), r.randint(-9, 9)] for _ in range(k)]
    ctx.note(nested=n, arcs=arcs)
    ctx.sig('arc', n, arcs)
    sh = make_shape(splits)
    if r.random() < .5:
        touch(ctx, sh)
    at = from_parts(splits, list(range(k)))

    def mkarc(rows):
        t = torch.tensor([x[:3] for x in rows], dtype=torch.int32).reshape(-1, 3)
        w = torch.tensor([float(x[3]) for x in rows]).view(torch.int32).reshape(-1, 1)
        return torch.cat([t, w], dim=1).contiguous()

    def check(y, pos, axes, key, rows=arcs):
        sp, vi = shape_from(pos, axes)
        check_shape(ctx, y.shape(), sp, key)
        ctx.eq(y.values().tolist(), mkarc([rows[i] for i in vi]).tolist(), key, 'arcs')
        ctx.eq((y.dim0(), y.num_axes(), y.num_elements()), (len(pos), axes, len(vi)), key, 'dim0, num_axes, num_elements')
        ctx.eq(list(y.tot_sizes()), [len(pos)] + [q[-1] for q in sp], key, 'tot_sizes')
        for a in range(1, axes):
            ctx.eq(y.row_splits(a).tolist(), sp[a - 1], key, 'row_splits')
            ctx.eq(y.row_ids(a).tolist(), [i for i in range(len(sp[a - 1]) - 1) for _ in range(sp[a - 1][i], sp[a - 1][i + 1])], key, 'row_ids')
            ctx.eq(y.tot_size(a), sp[a - 1][-1], key, 'tot_size')

    x = _k2.RaggedArc(sh, mkarc(arcs))
    check(x, at, axes, 'arc')
    ctx.ok(x.is_cpu() and not x.is_cuda(), 'arc', 'device')
    c = r.choice([x.clone, x.cpu, lambda: x.to(torch.device('cpu')), lambda: pickle.loads(pickle.dumps(x))])()
    check(c, at, axes, 'arc-copy')
    ctx.ok(c == x and not c != x, 'arc-equal', 'a copy differs')
    if k:
        other = [list(q) for q in arcs]
        other[r.randrange(k)][r.randrange(4)] += 1
        z = _k2.RaggedArc(sh, mkarc(other))
        ctx.ok(z != x and not z == x, 'arc-equal', 'another arc, equal', other=other)
        y = _k2.RaggedArc(str(x))
        if depth_known(sh):
            check(y, at, axes, 'arc-str')
    axis = r.choice([0, 0, 1]) if axes == 3 else 0
    tot = x.tot_size(axis)
    idx = ints(ctx, tot, -1 if axis == 0 else 0)
    if axis:
        rs = splits[0]
        ids = [i for i in range(len(rs) - 1) for _ in range(rs[i], rs[i + 1])]
        idx.sort(key=lambda i: ids[i])
    ctx.note(idx=idx, axis=axis)
    want, vi = nest_index(n, axes, axis, idx)
    t = torch.tensor(idx, dtype=torch.int32)
    y, gi = _k2.index(x, axis, t, True)
    check(y, want, axes, 'arc-index')
    ctx.eq(gi.tolist(), vi, 'arc-index', 'value indexes')
    y, none = _k2.index(x, axis, t, False)
    check(y, want, axes, 'arc-index')
    ctx.ok(none is None, 'arc-index', 'value indexes nobody asked for')
    y, gi = _k2.index(sh, axis, t, True)
    check_shape(ctx, y, shape_from(want, axes)[0], 'shape-index')
    ctx.eq(gi.tolist(), vi, 'shape-index', 'value indexes')
    lay = r.randrange(axes - 1)
    check_shape(ctx, _k2.get_layer(sh, lay), [splits[lay]], 'get_layer')
    if n and axes == 3:
        i = r.randrange(len(n))
        y, off = x.index(0, i)
        sp, vi = shape_from(at[i], 2)
        check(y, at[i], 2, 'arc-index-row')
        if vi:
            ctx.eq(off, vi[0], 'arc-index-row', 'offset')
    m, _, _ = rag.gen_nested(r, axes=axes, dt='i', max_elems=30, dim0=len(n))
    sp2, pos2 = shape_from(m, axes)
    arcs2 = [[0, 1, i % 7, 1] for i in range(len(pos2))]
    at2 = from_parts(sp2, list(range(k, k + len(pos2))))
    ax = r.choice([0, 1])
    y = _k2.cat([x, _k2.RaggedArc(make_shape(sp2), mkarc(arcs2))], ax)
    check(y, zipcat([at, at2], ax), axes, 'arc-cat', arcs + arcs2)
    check(x, at, axes, 'unchanged')


OPS = [op_arc, op_arc, op_list, op_list, op_string, op_print, op_tensor, op_shapes, op_shapes, op_index, op_index, op_index,
       op_ragged_index, op_tensor_by_ragged, op_slice, op_slice, op_cat, op_cat, op_remove_axis, op_pickle, op_eq,
       op_dtype, op_history, op_history, op_history]


def case(ctx):
    op = ctx.rng.choice(OPS)
    ctx.count('op:' + op.__name__)
    op(ctx)
