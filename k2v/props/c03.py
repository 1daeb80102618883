"""C03: index, reduction and activation operators: values, and gradients for
every layout of the incoming gradient."""
import math

import torch
import k2
import k2.ragged as k2r
import k2.sparse
import _k2
from k2v import rag
from k2v.core import Skip

FD = {'f': torch.float32, 'd': torch.float64}
INF = float('inf')


def tensor1(ctx, vals, dtype, strided=None):
    """A 1-D tensor of `vals`, sometimes with offset and non-unit stride."""
    r = ctx.rng
    k = r.randrange(4) if strided is None else (0 if not strided else r.randrange(1, 4))
    n = len(vals)
    if k == 0:
        return torch.tensor(vals, dtype=dtype)
    step = r.choice([1, 2, 3])
    off = r.randrange(3)
    base = torch.full((off + step * n + 2,), 77, dtype=dtype)
    v = base[off:off + step * n:step] if n else base[off:off]
    v.copy_(torch.tensor(vals, dtype=dtype))
    return v


def grad_like(ctx, shape, dtype):
    """An incoming gradient of a random layout, with its dense value."""
    r = ctx.rng
    n = 1
    for s in shape:
        n *= s
    dense = torch.tensor([r.randint(-40, 40) / 8 for _ in range(n)], dtype=dtype).reshape(shape)
    k = r.choice(['plain', 'stride0', 'step', 'trans', 'offset'])
    if k == 'stride0':
        v = r.randint(-40, 40) / 8
        g = torch.tensor(v, dtype=dtype).expand(shape)
        return g, g.clone().contiguous(), k
    if k == 'step':
        big = torch.zeros([s * 2 + 1 for s in shape], dtype=dtype)
        sl = tuple(slice(0, 2 * s, 2) if s else slice(0, 0) for s in shape)
        g = big[sl]
        g.copy_(dense)
        return g, dense, k
    if k == 'trans' and len(shape) == 2:
        g = torch.empty((shape[1], shape[0]), dtype=dtype).t()
        g.copy_(dense)
        return g, dense, k
    if k == 'offset':
        big = torch.zeros(n + 5, dtype=dtype)
        g = big[3:3 + n].view(shape)
        g.copy_(dense)
        return g, dense, k
    return dense.clone(), dense, 'plain'


def backprop(ctx, out, leaf):
    """Sends a random gradient; the two ways autograd meets a layout: directly
    or through an expression producing it."""
    g, dense, kind = grad_like(ctx, tuple(out.shape), out.dtype)
    ctx.note(grad=dense.tolist(), layout=kind)
    keep = g.clone()
    out.backward(g)
    ctx.ok(torch.equal(g, keep), 'grad-input-unchanged', 'incoming gradient modified')
    if leaf.grad is None:
        ctx.fail('no-grad', 'no gradient arrived')
    ctx.count('layout:' + kind)
    return dense, leaf.grad


def flat(t):
    return t.reshape(-1).tolist()


def ints(ctx, n, m1=True, k=None):
    r = ctx.rng
    k = r.choice([0, 1, 2, 3, 6, 15, 40]) if k is None else k
    lo = -1 if m1 else 0
    if n <= lo:
        return []
    style = r.randrange(3)
    if style == 0 and n > 0:
        a = r.randrange(n)
        return [r.choice([a, lo]) for _ in range(k)]
    return [r.randrange(lo, n) for _ in range(k)]


def vals(ctx, n, dt):
    return [rag.gen_val(ctx.rng, dt, 'norm') for _ in range(n)]


def op_index_select(ctx):
    r = ctx.rng
    dt = r.choice('ifdlb')
    dtype = {'i': torch.int32, 'l': torch.int64, 'f': torch.float32, 'd': torch.float64, 'b': torch.bool}[dt]
    n = r.choice([0, 1, 2, 5, 9, 30])
    two = r.random() < 0.4
    m = r.choice([1, 2, 3, 8]) if two else 1
    if dt == 'b':
        v = [bool(r.randrange(2)) for _ in range(n * m)]
    else:
        v = vals(ctx, n * m, dt if dt in 'ifd' else 'i')
        if dt == 'l' and v and r.random() < .5:
            v[r.randrange(len(v))] = r.choice([2**40 + 3, -2**60])
    idx = ints(ctx, n)
    if n == 0:
        idx = [-1] * len(idx)
    default = 0
    grad = dt in 'fd' and r.random() < .7
    if two:
        src = torch.tensor(v, dtype=dtype).reshape(n, m)
        k = r.randrange(3)
        if k == 1:
            big = torch.zeros((n + 1, m + 2), dtype=dtype)
            big[:n, 1:m + 1] = src
            src = big[:n, 1:m + 1]
        elif k == 2:
            big = torch.zeros((2 * n + 1, m), dtype=dtype)
            big[:2 * n:2] = src
            src = big[:2 * n:2]
    else:
        src = tensor1(ctx, v, dtype, strided=False if dt == 'b' else None)
        if not grad and dt != 'b' and r.random() < .5:
            default = r.choice([-1, 7, 0, 3]) if dt in 'il' else r.choice([-1., 2.5, 0.])
    ctx.note(op='index_select', src=v, n=n, m=m, dtype=str(dtype), stride=src.stride(), idx=idx, default=default)
    ctx.sig('sel', v, idx, dt, default)
    it = torch.tensor(idx, dtype=torch.int32)
    if grad:
        if not src.is_contiguous():
            base = src
            src = base.detach().requires_grad_(True)
        else:
            src.requires_grad_(True)
    elif default and dt in 'fd':
        pass
    keep = src.detach().clone()
    got = k2.index_select(src, it, default_value=default) if (not two and (default or r.randrange(2))) \
        else k2.index_select(src, it)
    rows = [v[i * m:(i + 1) * m] for i in range(n)]
    want = [x for i in idx for x in (rows[i] if i >= 0 else [default] * m)]
    if dt == 'b':
        want = [bool(x) for x in want]
    ctx.eq(got.dtype, dtype, 'index_select', 'dtype')
    ctx.eq(tuple(got.shape), (len(idx), m) if two else (len(idx),), 'index_select', 'shape')
    ctx.eq(flat(got.detach()), want, 'index_select', 'values')
    ctx.ok(torch.equal(src.detach(), keep), 'index_select', 'src modified')
    if grad:
        if src.grad_fn is None and got.requires_grad:
            dense, g = backprop(ctx, got, src)
            acc = [0.0] * (n * m)
            d = flat(dense)
            for p, i in enumerate(idx):
                if i >= 0:
                    for j in range(m):
                        acc[i * m + j] += d[p * m + j]
            ctx.closes(flat(g), acc, 'index_select-grad', 'gradient')
        else:
            ctx.fail('index_select-grad', 'result does not require grad')


def op_index_add(ctx):
    r = ctx.rng
    dt = r.choice('ifd')
    dtype = rag.DT[dt]
    n = r.choice([0, 1, 2, 5, 9])
    two = r.random() < .5
    m = r.choice([1, 2, 5]) if two else 1
    idx = ints(ctx, n)
    if n == 0:
        idx = [-1] * len(idx)
    if two:
        def lay(vv, rows):
            t = torch.tensor(vv, dtype=dtype).reshape(rows, m)
            k = r.randrange(4)
            if k == 0 or rows == 0:
                return t
            if k == 1:
                x = torch.full((m, rows), 7, dtype=dtype).t()
            elif k == 2:
                x = torch.full((2 * rows, 3 * m), 7, dtype=dtype)[::2, 1::3][:, :m]
            else:
                x = torch.full((rows + 3, m + 2), 7, dtype=dtype)[2:rows + 2, 1:m + 1]
            x.copy_(t)
            return x
    else:
        def lay(vv, rows):
            return tensor1(ctx, vv, dtype)
    io_v, val_v = vals(ctx, n * m, dt), vals(ctx, len(idx) * m, dt)
    io, val = lay(io_v, n), lay(val_v, len(idx))
    if len(idx) and r.random() < .15:      # expanded value
        if two:
            val = val[:1].expand(len(idx), m)
            val_v = val_v[:m] * len(idx)
        else:
            val = val[:1].expand(len(idx))
            val_v = val_v[:1] * len(idx)
    store = io.untyped_storage()
    ctx.note(op='index_add', io=io_v, val=val_v, idx=idx, st=(io.stride(), val.stride()), m=m, dt=dt)
    ctx.sig('add', io_v, val_v, idx, dt)
    around = torch.empty(0, dtype=dtype).set_(store).clone() if len(io_v) else None
    k2.index_add(torch.tensor(idx, dtype=torch.int32), val, io)
    want = list(io_v)
    for p, i in enumerate(idx):
        if i >= 0:
            for j in range(m):
                want[i * m + j] += val_v[p * m + j]
    ctx.closes(flat(io), want, 'index_add', 'result', tol=1e-3)
    ctx.eq(flat(val), val_v, 'index_add', 'value tensor modified')
    if around is not None:
        io.copy_(torch.tensor(io_v, dtype=dtype).reshape(io.shape))
        now = torch.empty(0, dtype=dtype).set_(store)
        ctx.ok(torch.equal(around, now), 'index_add-only-named', 'wrote outside in_out')


def ragged_idx(ctx, n):
    r = ctx.rng
    rows = []
    for _ in range(r.choice([0, 1, 3, 6, 12])):
        k = rag.gen_len(r, r.choice(['small', 'mid', 'empty', 'skew']))
        rows.append(ints(ctx, n, k=k) if n else [-1] * k)
    return rows


def op_index_and_sum(ctx):
    r = ctx.rng
    dt = r.choice('ifd')
    n = r.choice([0, 1, 2, 5, 9, 30])
    v = vals(ctx, n, dt)
    rows = ragged_idx(ctx, n)
    ctx.note(op='index_and_sum', v=v, rows=rows, dt=dt)
    ctx.sig('ias', v, rows, dt)
    rg = rag.make(rows, 2, 'i')
    src = torch.tensor(v, dtype=rag.DT[dt])
    grad = dt != 'i' and r.random() < .8
    if grad:
        src.requires_grad_(True)
    got = k2r.index_and_sum(src, rg)
    want = [sum((v[i] for i in row if i >= 0), 0.0) for row in rows]
    ctx.eq(got.dtype, src.dtype, 'index_and_sum', 'dtype')
    ctx.closes(got.tolist(), want, 'index_and_sum', 'values', tol=1e-3)
    if grad:
        dense, g = backprop(ctx, got, src)
        acc = [0.0] * n
        for d, row in zip(dense.tolist(), rows):
            for i in row:
                if i >= 0:
                    acc[i] += d
        ctx.closes(g.tolist(), acc, 'index_and_sum-grad', 'gradient')


def op_ragged_gather(ctx):
    """Tensor indexed by a ragged tensor, and ragged rows indexed by a tensor."""
    r = ctx.rng
    dt = r.choice('ifd')
    n = r.choice([0, 1, 4, 9])
    v = vals(ctx, n, dt)
    rows = ragged_idx(ctx, n)
    src = torch.tensor(v, dtype=rag.DT[dt])
    d = r.choice([None, 0, 5] if dt == 'i' else [None, 0.0, -2.5])
    ctx.note(op='index', v=v, rows=rows, dt=dt, default=d)
    ctx.sig('gather', v, rows, dt, d)
    if d is None:
        if any(i < 0 for row in rows for i in row):
            raise Skip
        got = k2r.index(src, rag.make(rows, 2, 'i')) if hasattr(k2r, 'index') else None
        if got is None:
            got = rag.make(rows, 2, 'i').index(src) if False else None
    else:
        got = k2r.index(src, rag.make(rows, 2, 'i'), d) if hasattr(k2r, 'index') else None
    if got is None:
        raise Skip
    rag.check_ragged(ctx, got, [[v[i] if i >= 0 else d for i in row] for row in rows], 2, dt, 'ragged-gather')


def op_simple_select(ctx):
    r = ctx.rng
    dt = r.choice('if')
    n = r.choice([1, 4, 9])
    v = [0] * n
    nz = [i for i in range(n) if r.random() < .5]
    for i in nz:
        v[i] = rag.gen_val(r, dt, 'norm') or 1
    zeros = [i for i in range(n) if v[i] == 0]
    rows = []
    for _ in range(r.choice([0, 1, 3, 8])):
        row = [r.choice(zeros) for _ in range(r.randrange(4))] if zeros else []
        if nz and r.random() < .7:
            row.insert(r.randint(0, len(row)), r.choice(nz))
        rows.append(row)
    ctx.note(op='simple_ragged_index_select', v=v, rows=rows, dt=dt)
    ctx.sig('simple', v, rows, dt)
    src = tensor1(ctx, v, rag.DT[dt], strided=False)
    got = _k2.simple_ragged_index_select(src, rag.make(rows, 2, 'i'))
    ctx.eq(got.dtype, src.dtype, 'simple-select', 'dtype')
    ctx.eq(got.tolist(), [sum(v[i] for i in row) for row in rows], 'simple-select', 'values')


def rg_float(ctx, special=True):
    r = ctx.rng
    n, axes, dt = rag.gen_nested(r, dt=r.choice('fd'))
    splits, v = rag.shape_from(n, axes)
    if special and r.random() < .25:
        v = [-INF if r.random() < .4 else x for x in v]
    else:
        v = [x / 8 for x in v]
    nested = rag.from_parts(splits, v)
    rg = rag.make(nested, axes, dt)
    if r.random() < .3 and v:     # values viewed inside a larger buffer
        big = torch.full((len(v) + 4,), 3., dtype=rag.DT[dt])
        big[2:2 + len(v)] = torch.tensor(v, dtype=rag.DT[dt])
        rg = k2.RaggedTensor(rag.make_shape(splits), big[2:2 + len(v)])
    return nested, axes, dt, rg, rag.last_lists(nested, axes), v


def lse(xs):
    xs = [x for x in xs if x != -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def op_sum(ctx):
    nested, axes, dt, rg, rows, v = rg_float(ctx)
    r = ctx.rng
    iv = r.choice([0, 0, 0, 1.5, -3.0])
    ctx.note(op='sum', nested=nested, axes=axes, dt=dt, iv=iv)
    ctx.sig('sum', nested, axes, dt, iv)
    rg.requires_grad_(True)
    ctx.ok(rg.requires_grad, 'ragged-sum', 'requires_grad')
    got = rg.sum(initial_value=iv) if iv or r.randrange(2) else rg.sum()
    ctx.closes(got.tolist(), [iv + sum(row) for row in rows], 'ragged-sum', 'values', tol=1e-3)
    dense, g = backprop(ctx, got, rg)
    ctx.closes(g.tolist(), [d for d, row in zip(dense.tolist(), rows) for _ in row], 'ragged-sum-grad', 'gradient')


def op_logsumexp(ctx):
    nested, axes, dt, rg, rows, v = rg_float(ctx)
    r = ctx.rng
    iv = r.choice([None, None, -INF, 1.5, -3.0, 0.0])
    ctx.note(op='logsumexp', nested=nested, axes=axes, dt=dt, iv=iv)
    ctx.sig('lse', nested, axes, dt, iv)
    rg.requires_grad_(True)
    got = rg.logsumexp() if iv is None else rg.logsumexp(initial_value=iv)
    i0 = -INF if iv is None else iv
    want = [lse(list(row) + [i0]) for row in rows]
    ctx.closes(got.tolist(), want, 'ragged-logsumexp', 'values', tol=1e-3)
    dense, g = backprop(ctx, got, rg)
    w, mask = [], []
    for d, row, t in zip(dense.tolist(), rows, want):
        for x in row:
            mask.append(t != -INF)          # the function has no derivative where the result is -inf
            w.append(d * math.exp(x - t) if t != -INF else 0.0)
    gl = g.tolist()
    ctx.eq(len(gl), len(w), 'ragged-logsumexp-grad', 'length')
    ctx.closes([a for a, k in zip(gl, mask) if k], [a for a, k in zip(w, mask) if k], 'ragged-logsumexp-grad',
               'gradient')


def op_normalize(ctx):
    r = ctx.rng
    use_log = r.random() < .8
    nested, axes, dt, rg, rows, v = rg_float(ctx, special=False)
    if not use_log:
        nested2 = rag.from_parts(rag.shape_from(nested, axes)[0], [abs(x) + .125 for x in v])
        rg = rag.make(nested2, axes, dt)
        rows = rag.last_lists(nested2, axes)
    ctx.note(op='normalize', nested=nested, axes=axes, dt=dt, use_log=use_log)
    ctx.sig('norm', nested, axes, dt, use_log)
    if use_log:
        rg.requires_grad_(True)
    got = rg.normalize(use_log=use_log)
    if use_log:
        want = [x - lse(row) for row in rows for x in row]
    else:
        want = [x / sum(row) for row in rows for x in row]
    ctx.eq(got.num_axes, axes, 'ragged-normalize', 'axes')
    ctx.eq(rag.shape_from(got.tolist(), axes)[0], rag.shape_from(nested, axes)[0], 'ragged-normalize', 'shape')
    ctx.closes(got.values.tolist(), want, 'ragged-normalize', 'values')
    if not use_log:
        return
    dense, g = backprop(ctx, got.values, rg)
    d = dense.tolist()
    w = []
    p = 0
    for row in rows:
        t = lse(row)
        dd = d[p:p + len(row)]
        w += [di - math.exp(x - t) * sum(dd) for di, x in zip(dd, row)]
        p += len(row)
    ctx.closes(g.tolist(), w, 'ragged-normalize-grad', 'gradient', tol=1e-3)


def op_sparse_abs(ctx):
    r = ctx.rng
    n, m = r.randint(1, 5), r.randint(1, 5)
    k = r.randrange(9)
    dtype = r.choice([torch.float32, torch.float64])
    ij = [[r.randrange(n) for _ in range(k)], [r.randrange(m) for _ in range(k)]]
    v = vals(ctx, k, 'f')
    ctx.note(op='sparse.abs', ij=ij, v=v, n=n, m=m)
    ctx.sig('sabs', ij, v, n, m)
    vt = torch.tensor(v, dtype=dtype, requires_grad=True)
    s = torch.sparse_coo_tensor(torch.tensor(ij, dtype=torch.int64).reshape(2, k), vt, (n, m))
    c = s.coalesce()
    a = k2.sparse.abs(c)
    dense = [[0.0] * m for _ in range(n)]
    for i, j, x in zip(*ij, v):
        dense[i][j] += x
    ctx.closes(flat(a.detach().to_dense()), [abs(x) for row in dense for x in row], 'sparse-abs', 'values')
    if not a.requires_grad:
        ctx.fail('sparse-abs', 'requires_grad lost')
    w = torch.sparse.sum(a)
    w.backward()
    want = [(dense[i][j] > 0) - (dense[i][j] < 0) for i, j in zip(*ij)]
    ctx.closes(vt.grad.tolist(), want, 'sparse-abs-grad', 'gradient')


def sw(x, left):
    a, b = (4., .035) if left else (1., .313261687)
    z = x - a
    lp = z + math.log1p(math.exp(-z)) if z > 0 else math.log1p(math.exp(z))
    return lp - .08 * x - b


def dsw(x, left):
    z = x - (4. if left else 1.)
    return (1 / (1 + math.exp(-z)) if z > -700 else 0.0) - .08


def op_swoosh(ctx):
    r = ctx.rng
    left = r.random() < .5
    shape = r.choice([(), (0,), (1,), (7,), (40,), (3, 5), (2, 3, 4), (5, 1), (1, 0, 3)])
    n = 1
    for s in shape:
        n *= s
    dtype = r.choice([torch.float32, torch.float32, torch.float32, torch.float64, torch.float16])
    style = r.randrange(3)
    if style == 0:
        v = [r.uniform(-10, 10) for _ in range(n)]
    elif style == 1:
        v = [r.gauss(0, 1) for _ in range(n)]
    else:
        v = [r.choice([-80., -30., -4., 0., 1., 4., 20., 80., r.uniform(-50, 50)]) for _ in range(n)]
    x = torch.tensor(v, dtype=dtype).reshape(shape)
    if len(shape) == 2 and r.random() < .4:
        base = torch.empty((shape[1], shape[0]), dtype=dtype)
        y = base.t()
        y.copy_(x)
        x = y
    elif r.random() < .3:
        big = torch.zeros([2 * s + 1 for s in shape], dtype=dtype)
        y = big[tuple(slice(1, 2 * s + 1, 2) for s in shape)]
        y.copy_(x)
        x = y
    v = flat(x.to(torch.float64))
    ctx.note(op='swoosh', left=left, shape=shape, dtype=str(dtype), v=v, stride=x.stride())
    ctx.sig('swoosh', left, shape, v)
    tol = 2e-2 if dtype == torch.float16 else 1e-3
    f, ff, fd = (k2.swoosh_l, k2.swoosh_l_forward, k2.swoosh_l_forward_and_deriv) if left else \
        (k2.swoosh_r, k2.swoosh_r_forward, k2.swoosh_r_forward_and_deriv)
    want = [sw(a, left) for a in v]
    keep = x.clone()
    ans = ff(x)
    ctx.eq(tuple(ans.shape), shape, 'swoosh', 'shape')
    ctx.closes(flat(ans.double()), want, 'swoosh', 'forward', tol=tol)
    y, dv = fd(x)
    ctx.closes(flat(y.double()), want, 'swoosh', 'forward_and_deriv value', tol=tol)
    ctx.closes(flat(dv.double()), [dsw(a, left) for a in v], 'swoosh', 'deriv', tol=tol)
    p = r.choice([0, 0, 0, .3, .9])
    xr = x.detach().requires_grad_(True)
    out = f(xr) if p == 0 and r.randrange(2) else f(xr, p)
    ctx.eq(tuple(out.shape), shape, 'swoosh', 'shape')
    if p == 0:
        ctx.closes(flat(out.detach().double()), want, 'swoosh', 'autograd value', tol=tol)
    else:
        kept = flat(out.detach().double())
        mask = []
        for a, b in zip(kept, want):
            if abs(a) < 1e-12:
                mask.append(0)
            else:
                mask.append(1)
                ctx.close(a, b / (1 - p), 'swoosh-dropout', 'kept value', tol=tol)
        small = [abs(b) for b in want]
        nd = sum(1 for m_, b in zip(mask, small) if m_ == 0)
        if n >= 7:
            ctx.count('dropout_elems', n)
            ctx.count('dropout_zeroed', nd)
    g, dense, kind = grad_like(ctx, shape, out.dtype)
    out.backward(g)
    gi = flat(xr.grad.double())
    dd = flat(dense.double())
    q = 1.1 / 255 + (1e-2 if dtype == torch.float16 else 1e-3)      # 8-bit derivative
    if p == 0:
        for a, d, xx in zip(gi, dd, v):
            ctx.close(a, d * dsw(xx, left), 'swoosh-grad', f'x={xx} d={d}', tol=q * max(abs(d), .2), rel=0)
    else:
        # a dropped element has derivative 0, a kept one the scaled derivative
        for a, d, xx, m_, b in zip(gi, dd, v, mask, want):
            if abs(b) < 1e-3:
                continue
            w = d * dsw(xx, left) / (1 - p) if m_ else 0.0
            ctx.close(a, w, 'swoosh-dropout-grad', f'x={xx} d={d} kept={m_}', rel=0,
                      tol=q * max(abs(d), .2) / (1 - p))
    ctx.ok(torch.equal(x.detach(), keep), 'swoosh', 'input modified')
    no = f(x.detach())
    ctx.ok(not no.requires_grad, 'swoosh', 'requires_grad without need')
    ctx.closes(flat(no.double()), want, 'swoosh', 'no-grad value', tol=tol)


def op_compose_maps(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 4, 9])
    k = r.randrange(3)
    step1 = ints(ctx, 20, k=n)
    if k == 0:
        step2 = ints(ctx, n) if n else [-1] * r.randrange(3)
        ctx.note(op='compose_arc_maps', s1=step1, s2=step2)
        ctx.sig('cam', step1, step2)
        got = k2.compose_arc_maps(torch.tensor(step1, dtype=torch.int32), torch.tensor(step2, dtype=torch.int32))
        ctx.eq(got.tolist(), [step1[i] if i >= 0 else -1 for i in step2], 'compose_arc_maps', '')
    else:
        raise Skip


OPS = [op_index_select] * 3 + [op_index_add] * 2 + [op_index_and_sum] * 2 + [op_ragged_gather, op_simple_select,
       op_sum, op_sum, op_logsumexp, op_logsumexp, op_normalize, op_normalize, op_sparse_abs, op_swoosh, op_swoosh,
       op_compose_maps]


def case(ctx):
    op = ctx.rng.choice(OPS)
    ctx.count('op:' + op.__name__[3:])
    op(ctx)
