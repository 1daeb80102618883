"""C19: mutual_information_recursion and joint_mutual_information_recursion
against the log-sum over monotone alignments."""
import itertools
import math
import torch
import k2
from k2v.core import Skip
from k2v.props import c03

NINF = float('-inf')


def dp(px, py, s0, t0, s1, t1, mod):
    """Differentiable log-sum over the paths (s0, t0) -> (s1, t1); None when
    there is none. px: [S][T1], py: [S+1][T]."""
    al = {}
    xv, yv = px.tolist(), py.tolist()
    for s in range(s0, s1 + 1):
        for t in range(t0, t1 + 1):
            if (s, t) == (s0, t0):
                al[s, t] = torch.zeros((), dtype=torch.float64)
                continue
            c = []
            src = (s - 1, t - 1) if mod else (s - 1, t)
            if src in al and s > s0 and src[1] >= t0 and xv[s - 1][src[1]] != NINF:
                c.append(al[src] + px[s - 1, src[1]])
            if (s, t - 1) in al and yv[s][t - 1] != NINF:
                c.append(al[s, t - 1] + py[s, t - 1])
            if c:
                al[s, t] = torch.logsumexp(torch.stack(c), 0) if len(c) > 1 else c[0]
    return al.get((s1, t1))


def brute(px, py, s0, t0, s1, t1, mod):
    """The same, by enumerating the alignments."""
    m, n = s1 - s0, t1 - t0
    out = []
    steps = m + n if not mod else n
    for comb in itertools.combinations(range(steps), m):
        s, t, w = s0, t0, 0.0
        for i in range(steps):
            if i in comb:
                w += px[s][t]
                s += 1
                t += mod
            else:
                w += py[s][t]
                t += 1
        out.append(w)
    out = [x for x in out if x != NINF]
    if not out:
        return None
    m = max(out)
    return m + math.log(sum(math.exp(x - m) for x in out))


def values(ctx, shape, style):
    r = ctx.rng
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    if style == 'big':
        x = x * 100 - 300
    elif style == 'prob':
        x = -x.abs() - .1
    elif style == 'flat':
        x = torch.zeros(shape, dtype=torch.float64)
    elif style == 'inf':
        x = torch.where(torch.rand(shape, generator=g) < .25, torch.tensor(NINF).double(), x)
    elif style == 'steep':
        x = x * 30
    return x


def dims(ctx):
    r = ctx.rng
    return r.choice([1, 1, 2, 3]), r.choice([0, 1, 2, 3, 5]), r.choice([0, 1, 1, 2, 3, 5, 7])


def gen_boundary(ctx, B, S, T):
    r = ctx.rng
    if r.random() < .3:
        return None, [(0, 0, S, T)] * B
    b = []
    for _ in range(B):
        s0, s1 = sorted((r.randint(0, S), r.randint(0, S)))
        t0, t1 = sorted((r.randint(0, T), r.randint(0, T)))
        if r.random() < .5:
            s0 = 0
            t0 = 0
        if r.random() < .3:
            s1, t1 = S, T
        b.append((s0, t0, s1, t1))
    return torch.tensor(b, dtype=torch.int64), b


def inside(px, py, bs, mod):
    """Masks of the elements the boundary covers."""
    mx, my = torch.zeros(px.shape, dtype=torch.bool), torch.zeros(py.shape, dtype=torch.bool)
    for b, (s0, t0, s1, t1) in enumerate(bs):
        mx[b, s0:s1, t0:(t1 if mod else t1 + 1)] = True
        my[b, s0:s1 + 1, t0:t1] = True
    return mx, my


def layout(ctx, x):
    """The same values in another memory layout."""
    r = ctx.rng
    k = r.randrange(5)
    if k == 1:
        return x.transpose(1, 2).contiguous().transpose(1, 2)
    if k == 2:
        return torch.cat([x, x + 1], 0)[:x.shape[0]]
    if k == 3 and x.numel():
        return torch.stack([x, x - 1], -1)[..., 0]
    if k == 4:
        return torch.cat([x[:, :, :0], x[:, :, :1] * 0, x], 2)[:, :, 1:] if x.shape[2] else x
    return x.clone()


def single(ctx):
    r = ctx.rng
    B, S, T = dims(ctx)
    mod = r.random() < .4
    style = r.choice(['norm', 'norm', 'prob', 'big', 'flat', 'inf', 'steep'])
    dtype = r.choice([torch.float32, torch.float64])
    bt, bs = gen_boundary(ctx, B, S, T)
    T1 = T if mod else T + 1
    px, py = values(ctx, (B, S, T1), style).to(dtype), values(ctx, (B, S + 1, T), style).to(dtype)
    mx, my = inside(px, py, bs, mod)
    px64, py64 = px.double(), py.double()
    if bt is not None and r.random() < .6:
        junk = r.choice([float('nan'), float('inf'), 1e30, NINF])
        px = torch.where(mx, px, torch.tensor(junk, dtype=dtype))
        py = torch.where(my, py, torch.tensor(junk, dtype=dtype))
    ctx.note(B=B, S=S, T=T, mod=mod, style=style, dtype=str(dtype), bs=bs, px=px.tolist(), py=py.tolist())
    ctx.sig('mi', px64.tolist(), py64.tolist(), bs, mod, str(dtype))
    lx, ly = px.clone(), py.clone()
    gx, gy = r.random() < .8, r.random() < .8
    lx.requires_grad_(gx)
    ly.requires_grad_(gy)
    ax, ay = layout(ctx, lx), layout(ctx, ly)
    kx, ky = ax.detach().clone(), ay.detach().clone()
    bk = None if bt is None else bt.clone()
    args = (ax, ay) if bt is None and r.random() < .5 else (ax, ay, bt)
    rg = r.random() < .5
    got = k2.mutual_information_recursion(*args, return_grad=True) if rg else k2.mutual_information_recursion(*args)
    same = lambda a, b: torch.equal(torch.nan_to_num(a, 7.), torch.nan_to_num(b, 7.))
    ctx.ok(same(ax.detach(), kx) and same(ay.detach(), ky) and (bt is None or torch.equal(bt, bk)), 'inputs', 'arguments were modified')
    if rg:
        got, (ox, oy) = got
    ctx.ok(got.dtype == dtype and tuple(got.shape) == (B,), 'mi-shape', f'{got.dtype} {got.shape}')
    px64.requires_grad_(True)
    py64.requires_grad_(True)
    want = [dp(px64[b], py64[b], *bs[b], mod) for b in range(B)]
    scale = 1 + max([abs(x) for m_, v in ((mx, px64), (my, py64)) for x in v.detach()[m_].tolist() if abs(x) != float('inf')] + [0])
    n = S + T + 1
    eps = 1e-6 if dtype == torch.float32 else 1e-13
    for b in range(B):
        ctx.close(got[b].item(), NINF if want[b] is None else want[b].item(), 'mi', f'score of {b}', tol=4 * eps * scale * n)
        s0, t0, s1, t1 = bs[b]
        if s1 - s0 + t1 - t0 <= 8 and r.random() < .5:
            x = brute(px64[b].tolist(), py64[b].tolist(), s0, t0, s1, t1, mod)
            ctx.eq(x is None, want[b] is None, 'model', 'feasible')
            if x is not None:
                ctx.close(want[b].item(), x, 'model', 'two models', tol=1e-9 * scale * n)
    feas = [w is not None for w in want]
    ctx.count('infeasible', feas.count(False))
    tol = min(.05, 40 * eps * scale * n) + 1e-6
    ex, ey = torch.zeros_like(px64), torch.zeros_like(py64)
    if any(feas) and any(w.requires_grad for w in want if w is not None):
        ex, ey = torch.autograd.grad(sum(w for w in want if w is not None), [px64, py64], allow_unused=True)
        ex = torch.zeros_like(px64) if ex is None else ex
        ey = torch.zeros_like(py64) if ey is None else ey

    def cmp(gotg, w, mask, scale_, key):
        for b in range(B):
            ctx.ok(not gotg[b][~mask[b]].any().item(), key + '-outside', f'gradient of {b} outside the boundary')
            if feas[b]:
                ctx.closes(gotg[b].flatten().tolist(), (w[b] * scale_[b]).flatten().tolist(), key, f'sequence {b}',
                           tol=tol * (1 + abs(scale_[b])))
    one = [1.0] * B
    if rg:
        cmp(ox, ex, mx, one, 'occupation')
        cmp(oy, ey, my, one, 'occupation')
        for b in range(B):
            if feas[b]:
                s0, t0, s1, t1 = bs[b]
                ctx.close(ox[b].sum().item(), s1 - s0, 'occ-sum', f'steps of {b} along x', tol=tol * n * n)
                ctx.close(oy[b].sum().item(), t1 - t0 - (s1 - s0) * mod, 'occ-sum', f'steps of {b} along y', tol=tol * n * n)
        ctx.ok(not ox.requires_grad and not oy.requires_grad, 'occupation', 'occupations do not require gradients')
    ctx.eq(got.requires_grad, gx or gy, 'requires-grad', 'requires_grad')
    if gx or gy:
        up, dup, _ = c03.grad_like(ctx, (B,), dtype)
        got.backward(up)
        if gx:
            cmp(lx.grad, ex, mx, dup.tolist(), 'mi-grad')
        if gy:
            cmp(ly.grad, ey, my, dup.tolist(), 'mi-grad')
    ctx.count('single')


def joint(ctx):
    r = ctx.rng
    B, S, T = dims(ctx)
    mod = r.random() < .4
    N = r.choice([1, 2, 3])
    dtype = r.choice([torch.float32, torch.float64])
    bt, bs = gen_boundary(ctx, B, S, T)
    T1 = T if mod else T + 1
    style = r.choice(['norm', 'prob', 'flat', 'inf'])
    # only one member may hold -inf
    pxs = [values(ctx, (B, S, T1), style if i == N - 1 or style != 'inf' else 'norm').to(dtype) for i in range(N)]
    pys = [values(ctx, (B, S + 1, T), style if i == N - 1 or style != 'inf' else 'norm').to(dtype) for i in range(N)]
    ctx.note(B=B, S=S, T=T, mod=mod, N=N, style=style, bs=bs, px=[x.tolist() for x in pxs], py=[x.tolist() for x in pys])
    ctx.sig('joint', [x.tolist() for x in pxs], [x.tolist() for x in pys], bs, mod)
    lx, ly = [x.clone().requires_grad_(True) for x in pxs], [x.clone().requires_grad_(True) for x in pys]
    got = k2.joint_mutual_information_recursion([layout(ctx, x) for x in lx], [layout(ctx, x) for x in ly], bt)
    got = got if isinstance(got, torch.Tensor) else torch.stack(list(got))
    ctx.eq(tuple(got.shape), (N, B), 'joint-shape', 'shape')
    sx = sum(x.double() for x in pxs).requires_grad_(True)
    sy = sum(x.double() for x in pys).requires_grad_(True)
    want = [dp(sx[b], sy[b], *bs[b], mod) for b in range(B)]
    eps = 1e-6 if dtype == torch.float32 else 1e-13
    n = S + T + 1
    tol = eps * 40 * n * 5 * N
    feas = [w is not None for w in want]
    ex, ey = torch.zeros_like(sx), torch.zeros_like(sy)
    if any(w is not None and w.requires_grad for w in want):
        ex, ey = torch.autograd.grad(sum(w for w in want if w is not None), [sx, sy], allow_unused=True)
        ex = torch.zeros_like(sx) if ex is None else ex
        ey = torch.zeros_like(sy) if ey is None else ey
    fin = lambda x: torch.where(x == NINF, torch.zeros(()).double(), x)
    for b in range(B):
        if not feas[b]:
            continue
        ctx.close(got[:, b].sum().item(), want[b].item(), 'joint-sum', f'total of {b}', tol=tol * n)
        for i in range(1, N):
            x = (ex[b] * fin(pxs[i][b].double())).sum() + (ey[b] * fin(pys[i][b].double())).sum()
            ctx.close(got[i, b].item(), x.item(), 'joint-part', f'part {i} of {b}', tol=tol * n * 3)
    up, dup, _ = c03.grad_like(ctx, (N, B), dtype)
    if not all(feas):
        return
    got.backward(up)
    for i in range(N):
        for b in range(B):
            for l, e, o in ((lx, ex, pxs), (ly, ey, pys)):
                g = l[i].grad[b]
                w = e[b] * dup[i, b].item()
                ctx.closes(g.flatten().tolist(), w.flatten().tolist(), 'joint-grad', f'part {i} of {b}',
                           tol=tol * 3 * (1 + abs(dup[i, b].item())))
    ctx.count('joint')


def refused(ctx):
    r = ctx.rng
    B, S, T = 2, 3, 4
    px, py = torch.randn(B, S, T + 1), torch.randn(B, S + 1, T)
    b = torch.tensor([[0, 0, S, T]] * B)
    k = r.randrange(7)
    if k == 0:
        b[r.randrange(B), 2] = S + 1
    elif k == 1:
        b[r.randrange(B), 3] = T + 1
    elif k == 2:
        b[r.randrange(B), r.randrange(2)] = -1
    elif k == 3:
        b[0, 0], b[0, 2] = 2, 1
    elif k == 4:
        b = b.int()
    elif k == 5:
        px = px[:, :, :T - 1]
    else:
        py = py.double()
    ctx.sig('refused', k)
    ctx.raises(lambda: k2.mutual_information_recursion(px, py, b), 'mi-refused', f'kind {k} {b.tolist()}')
    if k != 6:
        ctx.raises(lambda: k2.joint_mutual_information_recursion([px], [py], b), 'mi-refused', f'kind {k} {b.tolist()}')


def case(ctx):
    x = ctx.rng.random()
    (single if x < .7 else joint if x < .97 else refused)(ctx)
