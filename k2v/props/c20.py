"""C20: rnnt_loss, rnnt_loss_simple and rnnt_loss_smoothed against the
transducer log-likelihood evaluated and differentiated in double precision."""
import torch
import k2
from k2v.core import Skip
from k2v.props import c03, c19

NINF = float('-inf')


def gen(ctx, T0=0):
    """Shapes, boundary, symbols and the rest of the call."""
    r = ctx.rng
    B, S, T, C = r.choice([1, 1, 2, 3]), r.choice([0, 1, 2, 3, 4]), r.choice([1, 2, 3, 4, 6]), r.choice([1, 2, 3, 5])
    kind = r.choice(['regular', 'regular', 'modified', 'constrained'])
    mod = kind != 'regular'
    if mod and T < S:
        T = S
    bt, bs = None, [(0, 0, S, T)] * B
    if r.random() < .65:
        bs = []
        for _ in range(B):
            s1, t1 = r.randint(0, S), r.randint(0 if r.random() < .1 else 1, T)
            if r.random() < .3:
                s1, t1 = S, T
            if mod:
                t1 = max(t1, s1)
            s0 = t0 = 0
            if r.random() < .2:
                s0, t0 = r.randint(0, s1), r.randint(0, t1)
            bs.append((s0, t0, s1, t1))
        bt = torch.tensor(bs, dtype=torch.int64)
    sym = torch.tensor([[r.randrange(C) for _ in range(S)] for _ in range(B)], dtype=torch.int64).reshape(B, S)
    blank = r.choice([0, C - 1, r.randrange(C)])
    delay = r.choice([0.0, 0.0, 0.1, 1.0])
    red = r.choice(['none', 'none', 'mean', 'sum', 'default'])
    return B, S, T, C, kind, bt, bs, sym, blank, delay, red


def tensor(ctx, shape, dtype):
    r = ctx.rng
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    k = r.choice(['norm', 'norm', 'zero', 'wide', 'shift'])
    x = torch.randn(shape, generator=g, dtype=torch.float64)
    if k == 'zero':
        x = x * 0
    elif k == 'wide':
        x = x * 6
    elif k == 'shift':
        x = x + r.choice([-300, 200])
    return x.to(dtype)


def loglik(px, py, kind, bs, delay):
    """Applies topology, boundary and penalty: per sequence the log-sum."""
    T = py.shape[2]
    out, pxs, pys = [], [], []
    for b, (s0, t0, s1, t1) in enumerate(bs):
        x, y = px[b], py[b]
        if kind == 'constrained':
            x = x + y[1:]
        pen = delay * ((t1 - 1) / 2 - torch.arange(T, dtype=torch.float64))
        x = x + pen
        if kind == 'regular':
            x = torch.cat([x, torch.full((x.shape[0], 1), NINF, dtype=torch.float64)], 1)
            m = torch.zeros_like(x, dtype=torch.bool)
            m[:, t1] = True
            x = torch.where(m, torch.tensor(NINF, dtype=torch.float64), x)
        if x.requires_grad:
            x.retain_grad()
        if y.requires_grad:
            y.retain_grad()
        pxs.append(x)
        pys.append(y)
        out.append(c19.dp(x, y, s0, t0, s1, t1, kind != 'regular'))
    return out, pxs, pys


def reduce(vals, red):
    if red == 'none':
        return vals
    s = sum(vals)
    return [s / len(vals) if red in ('mean', 'default') else s]


def compare(ctx, got, want, red, leaves, models, tol, key):
    """Loss values, then gradients of the leaves."""
    r = ctx.rng
    B = len(want)
    vals = [float('inf') if w is None else -w.item() for w in want]
    ctx.closes(got.reshape(-1).tolist(), reduce(vals, red), key, f'{red} loss', tol=tol)
    ctx.ok((got.dim() == 0) == (red != 'none'), key + '-shape', f'{got.shape}')
    if any(w is None for w in want):
        ctx.count('infeasible')
        return
    dt = got.dtype
    if red == 'none':
        up, dup, _ = c03.grad_like(ctx, (B,), dt)
        got.backward(up)
        co = dup.tolist()
    else:
        got.backward()
        co = [1.0 / B if red in ('mean', 'default') else 1.0] * B
    obj = sum(-c * w for c, w in zip(co, want))
    gr = torch.autograd.grad(obj, models, allow_unused=True) if obj.requires_grad else [None] * len(models)
    for l, g, m in zip(leaves, gr, models):
        g = torch.zeros_like(m) if g is None else g
        have = torch.zeros_like(l) if l.grad is None else l.grad
        ctx.closes(have.flatten().tolist(), g.flatten().tolist(), key + '-grad', 'gradient', tol=tol * 5 * (1 + max(map(abs, co))))
    ctx.count('grad')


def kwargs(ctx, bt, kind, delay, red):
    r = ctx.rng
    kw = {}
    if bt is not None or r.random() < .3:
        kw['boundary'] = bt
    if kind != 'regular' or r.random() < .5:
        kw['rnnt_type'] = kind
    if delay or r.random() < .3:
        kw['delay_penalty'] = delay
    if red != 'default':
        kw['reduction'] = red
    return kw


def tolerance(dtype, S, T, xs):
    sc = 1 + max([x.abs().max().item() for x in xs if x.numel()] + [0])
    return (3e-6 if dtype == torch.float32 else 1e-12) * sc * (S + T + 1) + (1e-6 if dtype == torch.float32 else 1e-12)


def full(ctx):
    r = ctx.rng
    B, S, T, C, kind, bt, bs, sym, blank, delay, red = gen(ctx)
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    x = tensor(ctx, (B, T, S + 1, C), dtype)
    ctx.note(bs=bs, kind=kind, sym=sym.tolist(), blank=blank, delay=delay, red=red, logits=x.tolist(), bt=bt is not None)
    ctx.sig('full', bs, kind, sym.tolist(), blank, delay, red, x.tolist())
    leaf = x.clone().requires_grad_(True)
    a = leaf if r.random() < .6 else leaf.transpose(1, 2).clone().transpose(1, 2)
    kb, ks = (None if bt is None else bt.clone()), sym.clone()
    ctx.eq(kb is None, bt is None, 'inputs')
    got = k2.rnnt_loss(a, sym, blank, **kwargs(ctx, bt, kind, delay, red))
    ctx.ok(torch.equal(a.detach(), x) and torch.equal(sym, ks) and (bt is None or torch.equal(bt, kb)), 'inputs', 'arguments were modified')
    m = x.double().requires_grad_(True)
    lp = m.log_softmax(-1)
    px = torch.stack([torch.stack([lp[b, :, s, sym[b, s]] for s in range(S)]) if S else torch.zeros(0, T).double()
                      for b in range(B)])
    py = lp[..., blank].transpose(1, 2)
    want, _, _ = loglik(px, py, kind, bs, delay)
    compare(ctx, got, want, red, [leaf], [m], tolerance(dtype, S, T, [x]), 'rnnt')
    ctx.count('full')


def parts(am, lm, sym, blank):
    """Normalised px [B][S][T], py [B][S+1][T] of am + lm."""
    B, T, C = am.shape
    S = lm.shape[1] - 1
    lp = (am.unsqueeze(2) + lm.unsqueeze(1)).log_softmax(-1)   # B T S+1 C
    idx = sym.reshape(B, 1, S, 1).expand(B, T, S, 1)
    px = lp[:, :, :S].gather(3, idx).squeeze(-1).transpose(1, 2)
    return px, lp[..., blank].transpose(1, 2)


def additive(ctx, smooth):
    r = ctx.rng
    B, S, T, C, kind, bt, bs, sym, blank, delay, red = gen(ctx)
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    am, lm = tensor(ctx, (B, T, C), dtype), tensor(ctx, (B, S + 1, C), dtype)
    la, ls = 0.0, 0.0
    if smooth:
        ls, la = r.choice([(.1, .1), (0.0, 0.0), (.25, 0.0), (0.0, .3), (.5, .25), (.5, .5), (1.0, 0.0), (0.0, 1.0)])
    ctx.note(bs=bs, kind=kind, sym=sym.tolist(), blank=blank, delay=delay, red=red, am=am.tolist(), lm=lm.tolist(), lm_scale=ls,
             am_scale=la, bt=bt is not None)
    ctx.sig('additive', smooth, bs, kind, sym.tolist(), blank, delay, red, am.tolist(), lm.tolist(), la, ls)
    # keep out of the range where exp() of the difference of the two maxima
    # underflows (the documented normaliser has a floor there)
    z = (am.unsqueeze(2) + lm.unsqueeze(1)).logsumexp(-1) - am.max(-1)[0].unsqueeze(2) - lm.max(-1)[0].unsqueeze(1)
    if z.numel() and z.min().item() < -60:
        raise Skip
    fa, fl = am.clone().requires_grad_(True), lm.clone().requires_grad_(True)
    kw = kwargs(ctx, bt, kind, delay, red)
    rg = r.random() < .4
    if rg:
        kw['return_grad'] = True
    if smooth:
        if (ls, la) != (.1, .1) or r.random() < .5:
            kw.update(lm_only_scale=ls, am_only_scale=la)
        got = k2.rnnt_loss_smoothed(fl, fa, sym, blank, **kw)
    else:
        got = k2.rnnt_loss_simple(fl, fa, sym, blank, **kw)
    ctx.ok(torch.equal(fa, am) and torch.equal(fl, lm), 'inputs', 'arguments were modified')
    if rg:
        got, (gx, gy) = got
    ma, ml = am.double().requires_grad_(True), lm.double().requires_grad_(True)
    px, py = parts(ma, ml, sym, blank)
    if smooth:
        c = 1.0 - ls - la
        lms = ml.log_softmax(-1)
        u = lms.exp().mean((0, 1)).log()
        ams = (ma + u).log_softmax(-1)
        idx = sym.unsqueeze(1).expand(B, T, S)
        px = c * px + ls * lms[:, :S].gather(2, sym.unsqueeze(2)) + la * ams.gather(2, idx).transpose(1, 2)
        py = c * py + ls * lms[:, :, blank].unsqueeze(2) + la * ams[:, :, blank].unsqueeze(1)
    want, pxs, pys = loglik(px, py, kind, bs, delay)
    key = 'smoothed' if smooth else 'simple'
    tol = tolerance(dtype, S, T, [am, lm])
    if rg and not any(w is None for w in want):
        tot = sum(want)
        if tot.requires_grad:
            g = torch.autograd.grad(tot, pxs + pys, retain_graph=True, allow_unused=True)
            g = [torch.zeros_like(x) if y is None else y for x, y in zip(pxs + pys, g)]
        else:
            g = [torch.zeros_like(x) for x in pxs + pys]
        ex, ey = torch.stack(g[:B]), torch.stack(g[B:])
        if kind == 'constrained':
            # the caller sees px and py after px absorbed py
            ey = ey.clone()
            ey[:, 1:] -= ex
        ctx.closes(gx.flatten().tolist(), ex.flatten().tolist(), key + '-occ', 'px_grad', tol=tol * 4)
        ctx.closes(gy.flatten().tolist(), ey.flatten().tolist(), key + '-occ', 'py_grad', tol=tol * 8)
    compare(ctx, got, want, red, [fa, fl], [ma, ml], tol, key)
    ctx.count(key)


def refused(ctx):
    r = ctx.rng
    B, S, T, C = 2, 3, 4, 3
    am, lm = torch.randn(B, T, C), torch.randn(B, S + 1, C)
    sym = torch.zeros(B, S, dtype=torch.int64)
    k = r.randrange(5)
    kw = {}
    if k == 0:
        kw['rnnt_type'] = 'unknown'
    elif k == 1:
        kw['reduction'] = 'avg'
    elif k == 2:
        sym = sym[:, :2]
    elif k == 3:
        kw['rnnt_type'] = r.choice(['modified', 'constrained'])
        am = am[:, :2]
    else:
        kw['boundary'] = torch.tensor([[0, 0, S, T + 1]] * B)
    ctx.sig('refused', k)
    ctx.raises(lambda: k2.rnnt_loss_simple(lm, am, sym, 0, **kw), 'refused', f'simple {k}')
    ctx.raises(lambda: k2.rnnt_loss_smoothed(lm, am, sym, 0, **kw), 'refused', f'smoothed {k}')
    ctx.raises(lambda: k2.rnnt_loss(am.unsqueeze(2) + lm.unsqueeze(1), sym, 0, **kw), 'refused', f'full {k}')


def case(ctx):
    x = ctx.rng.random()
    if x < .35:
        full(ctx)
    elif x < .65:
        additive(ctx, False)
    elif x < .98:
        additive(ctx, True)
    else:
        refused(ctx)
