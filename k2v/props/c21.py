"""C21: get_rnnt_prune_ranges, do_rnnt_pruning, rnnt_loss_pruned (plain and
HAT) and pruned_ranges_to_lattice against the windows' definition."""
import contextlib
import io
import torch
import k2
from k2v.core import Skip
from k2v.props import c03, c19, c20

NINF = float('-inf')


def windows(px_grad, py_grad, bs, R, regular):
    """The start of each window by the published rule, or None when the best
    window of some frame is ambiguous; window sums in double."""
    B, S1, T = py_grad.shape
    W = S1 - R + 1
    out = []
    clear = True
    for b, (_, _, se, te) in enumerate(bs):
        gx, gy = px_grad[b].double().tolist(), py_grad[b].double().tolist()
        raw = []
        for t in range(T):
            if t >= te - 1:
                raw.append(max(0, se - R + 1))
                continue
            v = [sum(gy[s + i][t] for i in range(R)) - (gx[s - 1][t] if s else 0.0) for s in range(W)]
            m = max(v)
            if sum(x > m - 1e-4 * (1 + abs(m)) for x in v) > 1:
                clear = False
            raw.append(v.index(m))
        step = (R if regular else 2) - 1
        mono = [min(raw[t:]) for t in range(T)]
        out.append([min(step * t, max(mono[k] - step * (k - t) for k in range(t, T))) for t in range(T)])
    return out if clear else None


def reachable(start, R, se, te, kind):
    """Some alignment of se symbols to te frames stays in the windows."""
    cur = {0}
    for t in range(te):
        win = set(range(start[t], start[t] + R))
        cur &= win
        if kind == 'regular':
            if not cur:
                return False
            cur = set(range(min(cur), start[t] + R)) & win
        else:
            cur = cur | {s + 1 for s in cur if kind == 'modified' or s + 1 in win}
    return se in cur


def lens(ctx, kind, smax=6, tmax=8):
    r = ctx.rng
    B, S, T = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 4, smax, r.randint(1, smax)]), r.choice([1, 2, 3, 5, tmax])
    if kind != 'regular' and T < S:
        T = S
    bs = []
    for _ in range(B):
        s1, t1 = r.randint(0, S), r.randint(1, T)
        if r.random() < .4:
            s1, t1 = S, T
        if kind != 'regular':
            t1 = max(t1, s1)
        bs.append((0, 0, s1, t1))
    return B, S, T, bs


def occupations(ctx, B, S, T, bs, kind):
    """Gradients of some recursion, or arbitrary numbers."""
    r = ctx.rng
    T1 = T + 1 if kind == 'regular' else T
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    style = r.choice(['real', 'real', 'real', 'random', 'zero', 'steps'])
    px = torch.randn((B, S, T1), generator=g) * r.choice([1, 4])
    py = torch.randn((B, S + 1, T), generator=g) * r.choice([1, 4])
    if style == 'real':
        if kind == 'regular':
            px[:, :, T] = NINF
            for b, x in enumerate(bs):
                px[b, :, x[3]] = NINF
        _, (px, py) = k2.mutual_information_recursion(px, py, torch.tensor(bs), return_grad=True)
    elif style == 'zero':
        px, py = px * 0, py * 0
    elif style == 'steps':
        px, py = (px > 0).float(), (py > 0).float()
    if r.random() < .3:
        py = py.transpose(1, 2).clone().transpose(1, 2)
    if r.random() < .2:
        big = torch.randn((B, S + 3, T + 2), generator=g)
        big[:, 1:S + 2, 1:T + 1] = py
        py = big[:, 1:S + 2, 1:T + 1]
    if r.random() < .2:
        px = px.transpose(0, 2).clone().transpose(0, 2)
    return style, px, py


def prune(ctx, px, py, bt, R):
    with contextlib.redirect_stdout(io.StringIO()):
        return k2.get_rnnt_prune_ranges(px, py, bt, R)


def ranges(ctx):
    r = ctx.rng
    kind = r.choice(['regular', 'regular', 'modified', 'constrained'])
    B, S, T, bs = lens(ctx, kind)
    style, px, py = occupations(ctx, B, S, T, bs, kind)
    R = r.choice([2, 2, 3, 3, 4, r.randint(2, S + 3)])
    if kind != 'regular' and r.random() < .2:
        R = 1
    bt = torch.tensor(bs, dtype=torch.int64)
    ctx.note(kind=kind, bs=bs, S=S, T=T, R=R, style=style, px=px.tolist(), py=py.tolist())
    ctx.sig('ranges', kind, bs, S, T, R, px.tolist(), py.tolist())
    kx, ky, kb = px.clone(), py.clone(), bt.clone()
    got = prune(ctx, px, py, bt, R)
    ctx.ok(torch.equal(px, kx) and torch.equal(py, ky) and torch.equal(bt, kb), 'inputs', 'arguments were modified')
    want = R
    if kind == 'regular':
        want = max(R, max(-(-se // te) + 1 for _, _, se, te in bs))
    want = min(want, S + 1)
    ctx.eq((got.dtype, tuple(got.shape)), (torch.int64, (B, T, want)), 'range-shape', 'dtype and shape')
    v = got.tolist()
    R = want
    step = R - 1 if kind == 'regular' else 1
    for b, (_, _, se, te) in enumerate(bs):
        st = [w[0] for w in v[b]]
        ctx.ok(all(w == list(range(w[0], w[0] + R)) for w in v[b]), 'window', f'windows of {b}: {v[b]}')
        ctx.ok(min(st) >= 0 and max(st) + R - 1 <= S, 'window-bounds', f'windows of {b} within 0..{S}: {st}')
        ctx.eq(st[0], 0, 'window-start', f'first window of {b}')
        ctx.ok(all(0 <= y - x <= step for x, y in zip(st, st[1:])), 'window-step', f'steps of {b} in 0..{step}: {st}')
        if kind != 'constrained' or R > 1:
            ctx.ok(reachable(st, R, se, te, kind), 'window-cover', f'{b}: no alignment of {se} symbols to {te} frames in {st}')
    w = windows(px, py, bs, R, kind == 'regular')
    if w is not None:
        ctx.eq([[x[0] for x in y] for y in v], w, 'window-rule', 'window starts')
        ctx.count('rule')
    # gathering
    da, dl = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    am, lm = torch.randn(B, T, da, requires_grad=True), torch.randn(B, S + 1, dl, requires_grad=True)
    pa, pl = k2.do_rnnt_pruning(am, lm, got)
    ctx.eq((tuple(pa.shape), tuple(pl.shape)), ((B, T, R, da), (B, T, R, dl)), 'prune-shape', 'shapes')
    al, ll = am.tolist(), lm.tolist()
    ctx.eq(pa.tolist(), [[[al[b][t]] * R for t in range(T)] for b in range(B)], 'pruned-am', 'am')
    ctx.eq(pl.tolist(), [[[ll[b][s] for s in v[b][t]] for t in range(T)] for b in range(B)], 'pruned-lm', 'lm')
    ga, gl = torch.randn(pa.shape), torch.randn(pl.shape)
    torch.autograd.backward([pa, pl], [ga, gl])
    ctx.closes(am.grad.flatten().tolist(), ga.sum(2).flatten().tolist(), 'pruned-grad', 'am', tol=1e-5)
    e = torch.zeros_like(lm)
    for b in range(B):
        for t in range(T):
            for k in range(R):
                e[b, v[b][t][k]] += gl[b, t, k]
    ctx.closes(lm.grad.flatten().tolist(), e.flatten().tolist(), 'pruned-grad', 'lm', tol=1e-5)
    ctx.count('ranges')


def some_windows(ctx, kind, B, S, T, bs):
    """Windows of the library, or any monotone ones."""
    r = ctx.rng
    if r.random() < .5:
        _, px, py = occupations(ctx, B, S, T, bs, kind)
        return prune(ctx, px, py, torch.tensor(bs), r.choice([2, 2, 3, 4]))
    R = min(S + 1, r.choice([1, 2, 3, S, S + 1]))
    out = []
    for b, (_, _, se, te) in enumerate(bs):
        top = max(0, (se if r.random() < .8 else S) - R + 1)
        s = 0 if r.random() < .9 else r.randint(0, top)
        row = []
        for t in range(T):
            row.append(s)
            s = min(top, s + r.choice([0, 0, 1, 1, r.randint(0, R)]))
        out.append([list(range(x, x + R)) for x in row])
    return torch.tensor(out, dtype=torch.int64)


def loss(ctx):
    r = ctx.rng
    B, S, T, C, kind, bt, bs, sym, blank, delay, red = c20.gen(ctx)
    if any(x[3] == 0 for x in bs) or S == 0:
        raise Skip
    hat = r.random() < .3
    if hat:
        blank, C = 0, max(C, 2)
        sym = torch.tensor([[r.randint(1, C - 1) for _ in range(S)] for _ in range(B)], dtype=torch.int64)
    rng = some_windows(ctx, kind, B, S, T, bs if all(x[0] == 0 == x[1] for x in bs) else [(0, 0, S, T)] * B)
    R = rng.shape[2]
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    x = c20.tensor(ctx, (B, T, R, C), dtype)
    if hat:
        x = x.clamp(-40, 40)
    ctx.note(bs=bs, kind=kind, sym=sym.tolist(), blank=blank, delay=delay, red=red, logits=x.tolist(), ranges=rng.tolist(), hat=hat,
             bt=bt is not None)
    ctx.sig('loss', bs, kind, sym.tolist(), blank, delay, red, x.tolist(), rng.tolist(), hat)
    leaf = x.clone().requires_grad_(True)
    kw = c20.kwargs(ctx, bt, kind, delay, red)
    if hat:
        kw['use_hat_loss'] = True
    kr, ks = rng.clone(), sym.clone()
    kb = None if bt is None else bt.clone()
    # the boundary is a required argument
    kw.setdefault('boundary', None)
    got = k2.rnnt_loss_pruned(leaf, sym, rng, blank, **kw)
    ctx.ok(torch.equal(leaf.detach(), x) and torch.equal(sym, ks) and torch.equal(rng, kr) and
           (bt is None or torch.equal(bt, kb)), 'inputs', 'arguments were modified')
    m = x.double().requires_grad_(True)
    if hat:
        b0 = -torch.nn.functional.softplus(-m[..., :1])
        lp = torch.cat([b0, m[..., 1:].log_softmax(-1) - torch.nn.functional.softplus(m[..., :1])], -1)
    else:
        lp = m.log_softmax(-1)
    v = rng.tolist()
    zero = torch.tensor(NINF, dtype=torch.float64)
    px = torch.stack([torch.stack([torch.stack([lp[b, t, v[b][t].index(s), sym[b, s]] if s in v[b][t] else zero
                                                for t in range(T)]) for s in range(S)]) for b in range(B)])
    py = torch.stack([torch.stack([torch.stack([lp[b, t, v[b][t].index(s), blank] if s in v[b][t] else zero
                                                for t in range(T)]) for s in range(S + 1)]) for b in range(B)])
    want, _, _ = c20.loglik(px, py, kind, bs, delay)
    want = [None if w is None or w.item() == NINF else w for w in want]
    c20.compare(ctx, got, want, red, [leaf], [m], c20.tolerance(dtype, S, T, [x]), 'pruned-hat' if hat else 'pruned')
    ctx.count('loss')
    if R < S + 1:
        ctx.count('loss-pruned')


def lattice(ctx):
    r = ctx.rng
    B, S, T, bs = lens(ctx, 'regular')
    C = r.choice([2, 3, 6])
    sym = torch.tensor([[r.randrange(C) for _ in range(S)] for _ in range(B)], dtype=torch.int64)
    _, px, py = occupations(ctx, B, S, T, bs, 'regular')
    rng = prune(ctx, px, py, torch.tensor(bs), r.choice([2, 2, 3, 4]))
    R = rng.shape[2]
    dtype = r.choice([torch.float32, torch.float32, torch.float64, torch.float16])
    x = torch.randn((B, T, R, C)).to(dtype)
    k = r.randrange(4)
    if k == 0:
        x = x.transpose(1, 2).clone().transpose(1, 2)
    elif k == 1:
        big = torch.randn((B, T, R + 1, C + 2)).to(dtype)
        big[:, :, 1:, 1:C + 1] = x
        x = big[:, :, 1:, 1:C + 1]
    frames = torch.tensor([b[3] for b in bs], dtype=torch.int32)
    ctx.note(bs=bs, sym=sym.tolist(), ranges=rng.tolist(), strides=x.stride(), logits=x.tolist())
    ctx.sig('lattice', bs, sym.tolist(), rng.tolist(), x.tolist())
    arcs, amap = k2.pruned_ranges_to_lattice(rng.int(), frames, sym, x)
    fsa = k2.Fsa(arcs)
    flat = x.reshape(-1).double().tolist()
    ctx.ok(amap.dtype == torch.int32 and len(amap) == fsa.num_arcs, 'lattice-map', 'map shape')
    rows = arcs.row_splits(1).tolist()
    sp = arcs.row_splits(2).tolist()
    ctx.eq(len(rows) - 1, B, 'lattice-shape', 'FSAs')
    al = fsa.arcs.values()[:, :3].tolist()
    sc = fsa.scores.tolist()
    ml = amap.tolist()
    v = rng.tolist()
    for b, (_, _, _, te) in enumerate(bs):
        w = []
        for t in range(te):
            for q in range(R):
                s = t * R + q
                if q < R - 1:
                    l = sym[b, v[b][t][q]].item()
                    w.append((s, s + 1, l, ((b * T + t) * R + q) * C + l))
                if t < te - 1 and v[b][t][q] >= v[b][t + 1][0]:
                    w.append((s, (t + 1) * R + v[b][t][q] - v[b][t + 1][0], 0, ((b * T + t) * R + q) * C))
        w.append((te * R - 1, te * R, -1, -1))
        ctx.eq(rows[b + 1] - rows[b], te * R + 1, 'lattice-shape', f'states of {b}')
        lo, hi = sp[rows[b]], sp[rows[b + 1]]
        have = [tuple(al[i]) + (ml[i],) for i in range(lo, hi)]
        ctx.eq(sorted(have), sorted(w), 'lattice-arcs', f'arcs of {b}')
        ctx.closes(sc[lo:hi], [0.0 if i < 0 else flat[i] for i in ml[lo:hi]], 'lattice-scores', f'scores of {b}', tol=1e-6, rel=1e-6)
        ctx.count('lattice-arcs', hi - lo)
    ctx.ok(fsa.properties & k2.fsa_properties.VALID, 'lattice-valid', 'properties')
    ctx.count('lattice')


def refused(ctx):
    r = ctx.rng
    B, S, T = 2, 3, 4
    px, py = torch.rand(B, S, T + 1), torch.rand(B, S + 1, T)
    bt = torch.tensor([[0, 0, S, T]] * B)
    k = r.randrange(6)
    ctx.sig('refused', k)
    if k == 0:
        ctx.raises(lambda: prune(ctx, px[:, :, :T - 1], py, bt, 2), 'refused', 'px shape')
    elif k == 1:
        ctx.raises(lambda: prune(ctx, px, py[:, :S], bt, 2), 'refused', 'py shape')
    elif k == 2:
        ctx.raises(lambda: prune(ctx, px, py, bt[:1], 2), 'refused', 'boundary shape')
    elif k == 3:
        ctx.raises(lambda: prune(ctx, px[:, :, :T], py, bt, 0), 'refused', 's_range 0')
    elif k == 4:
        rng = torch.zeros(B, T, 2, dtype=torch.int64) + torch.arange(2)
        ctx.raises(lambda: k2.rnnt_loss_pruned(torch.randn(B, T, 3, 4), torch.zeros(B, S, dtype=torch.int64), rng, 0, bt),
                   'refused', 'logits shape')
    else:
        rng = torch.zeros(B, T, 2, dtype=torch.int64) + torch.arange(2)
        ctx.raises(lambda: k2.rnnt_loss_pruned(torch.randn(B, T, 2, 4), torch.zeros(B, S, dtype=torch.int64), rng, 0, bt,
                                               reduction='avg'), 'refused', 'reduction')


def case(ctx):
    x = ctx.rng.random()
    (ranges if x < .4 else loss if x < .75 else lattice if x < .98 else refused)(ctx)
