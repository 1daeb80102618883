"""C12: gradients of forward, backward, total scores and posteriors against an
independent differentiation of their definitions."""
import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c03, c11


def plus(xs, log):
    if not xs:
        return None
    x = torch.stack(xs)
    return torch.logsumexp(x, 0) if log else x.max(0)[0]


def model(f, w, log):
    """alpha, beta (None: no path) and posterior tensors, differentiable in w."""
    n = f.n
    a = [None] * n
    b = [None] * n
    z = torch.zeros((), dtype=torch.float64)
    if n:
        a[0] = z
        b[-1] = z
    ent = f.entering()
    lv = f.leaving()
    for s in range(1, n):
        a[s] = plus([a[f.arcs[i][0]] + w[i] for i in ent[s] if a[f.arcs[i][0]] is not None], log)
    for s in range(n - 2, -1, -1):
        b[s] = plus([b[f.arcs[i][1]] + w[i] for i in lv[s] if b[f.arcs[i][1]] is not None], log)
    tot = a[-1] if n else None
    post = []
    for i, (s, d, l, _) in enumerate(f.arcs):
        post.append(None if tot is None or a[s] is None or b[d] is None else a[s] + w[i] + b[d] - tot)
    return a, b, tot, post


def case(ctx):
    r = ctx.rng
    log = r.random() < .55
    double = r.random() < .6
    q = r.choice(['tot', 'fwd', 'bwd', 'post'] if log else ['tot', 'tot', 'fwd', 'bwd', 'post'])
    ties = (not log) and q == 'tot' and r.random() < .4
    fs, style = c11.gen_vec(ctx, float_scores=not ties, inf=False, kmax=3, max_n=7)
    if style == 'big' and not log:
        pass
    if not ties:
        # tropical derivatives need a unique best path: make scores generic
        fs = [F(f.n, [(s, d, l, torch.tensor(w / (50. if style == 'big' else 1) + r.uniform(-.5, .5)).item())
                      for s, d, l, w in f.arcs]) for f in fs]
    narcs = sum(len(f.arcs) for f in fs)
    if not narcs:
        raise Skip
    ctx.note(fs=fs, log=log, double=double, q=q, ties=ties)
    ctx.sig(str(fs), log, double, q)
    v = fsam.vec_to_k2(fs)
    p = torch.tensor([a[3] for f in fs for a in f.arcs], requires_grad=True)
    via = r.randrange(3)
    if via == 0:
        v.scores = p
    elif via == 1:
        v.scores = p * 1.0
    else:
        v.scores = p.detach().clone()
        v.requires_grad_(True)
        p = v.scores
    if r.random() < .3:      # something else was computed before
        v.get_tot_scores(r.random() < .5, r.random() < .5)
    if r.random() < .2:
        v.get_arc_post(r.random() < .5, r.random() < .5)
    out = {'tot': v.get_tot_scores, 'fwd': v.get_forward_scores, 'bwd': v.get_backward_scores,
           'post': v.get_arc_post}[q](use_double_scores=double, log_semiring=log)
    wv = torch.tensor([a[3] for f in fs for a in f.arcs], dtype=torch.float64, requires_grad=True)
    want, o = [], 0
    ms = []
    for f in fs:
        m = model(f, wv[o:o + len(f.arcs)], log)
        ms.append(m)
        o += len(f.arcs)
        want += {'tot': [m[2]], 'fwd': m[0], 'bwd': m[1], 'post': m[3]}[q]
    ctx.eq(len(out), len(want), 'count', 'values')
    ctx.closes(out.tolist(), [NINF if x is None else x.item() for x in want], 'value', q, tol=1e-2 if not double else 1e-6)
    g, dense, kind = c03.grad_like(ctx, tuple(out.shape), out.dtype)
    # a quantity that is -inf has no derivative: such outputs get no gradient,
    # except total scores, which promise to contribute nothing
    if q != 'tot' and any(x is None for x in want):
        dense = torch.where(torch.tensor([x is None for x in want]), torch.zeros_like(dense), dense)
        g = dense.clone()
    dl = dense.tolist()
    ctx.note(grad=dl, layout=kind)
    ctx.count('layout:' + kind)
    keep = g.clone()
    twice = r.random() < .3
    out.backward(g, retain_graph=True)
    ctx.ok(torch.equal(g, keep), 'gradient-modified', 'incoming gradient was modified')
    got = p.grad.clone()
    if twice:
        p.grad = None
        out.backward(g)
        ctx.closes(p.grad.tolist(), got.tolist(), 'second-backward', 'repeating backward', tol=0, rel=0)
    if ties:
        check_ties(ctx, fs, ms, dl, got.tolist())
        return
    tot = sum((x * d for x, d in zip(want, dl) if x is not None), torch.zeros((), dtype=torch.float64))
    if tot.requires_grad:
        tot.backward()
        w = wv.grad.tolist()
    else:
        w = [0.0] * narcs
    m = max([abs(x) for x in dl] + [1.0])
    ctx.closes(got.tolist(), w, f'grad-{q}', f'log={log} double={double}', tol=(2e-3 if not double else 1e-5) * m,
               rel=1e-4)


def check_ties(ctx, fs, ms, dl, got):
    """With several best paths: the gradient marks exactly one of them."""
    o = 0
    for f, m, d in zip(fs, ms, dl):
        g = got[o:o + len(f.arcs)]
        o += len(f.arcs)
        if m[2] is None or d == 0:
            ctx.eq([x for x in g if x], [], 'grad-tot', 'FSA without a path or with zero gradient')
            continue
        path = [i for i, x in enumerate(g) if x != 0]
        cur, tot = 0, 0.0
        for i in sorted(path, key=lambda i: f.arcs[i][0]):
            ctx.eq(f.arcs[i][0], cur, 'grad-tot', f'marked arcs {path} are one path of {f}')
            ctx.close(g[i], d, 'grad-tot', 'gradient of a best-path arc')
            cur = f.arcs[i][1]
            tot += f.arcs[i][3]
        ctx.eq(cur, f.n - 1, 'grad-tot', 'the path ends in the final state')
        ctx.close(tot, m[2].item(), 'grad-tot', 'the path is a best path', tol=1e-3, rel=1e-5)
