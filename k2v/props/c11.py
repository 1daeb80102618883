"""C11: forward, backward, total scores and arc posteriors against path sums."""
import math

import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F, NINF

SR = {True: 'log', False: 'max'}


def plus_scores(rng, f, style):
    if style == 'float':
        return F(f.n, [(s, d, l, rng.uniform(-6, 6)) for s, d, l, w in f.arcs])
    return f


def gen_vec(ctx, float_scores=None, inf=True, connected=False, kmax=4, max_n=8):
    r = ctx.rng
    style = r.choice(['norm', 'neg', 'few', 'big'] + (['inf'] if inf else []))
    fs = [fsam.gen(r, cyclic=False, score=style, connected=connected and r.random() < .9,
                   max_n=max_n) for _ in range(r.randint(1, kmax))]
    if float_scores or (float_scores is None and r.random() < .4):
        fs = [F(f.n, [(s, d, l, w if w == NINF else w + r.uniform(-1, 1)) for s, d, l, w in f.arcs]) for f in fs]
        fs = [F(f.n, [(s, d, l, torch.tensor(w, dtype=torch.float32).item()) for s, d, l, w in f.arcs]) for f in fs]
    return fs, style


def scale(fs):
    return max([abs(w) for f in fs for *_, w in f.arcs if w != NINF] + [1.0])


def tols(double, fs):
    n = max([f.n for f in fs] + [1])
    if double:
        return dict(tol=1e-9 * scale(fs) * n + 1e-9, rel=1e-9)
    return dict(tol=3e-6 * scale(fs) * n + 1e-5, rel=1e-5)


def case(ctx):
    r = ctx.rng
    connected = r.random() < .3
    fs, style = gen_vec(ctx, connected=connected)
    ctx.note(fs=fs)
    ctx.sig(str(fs))
    v = fsam.vec_to_k2(fs)
    if r.random() < .3 and any(f.arcs for f in fs):      # scores held outside the arcs
        v.scores = v.scores.clone()
    order = [(d, l) for d in (True, False) for l in (True, False)]
    r.shuffle(order)
    for d, l in order:
        sr = SR[l]
        t = tols(d, fs)
        dt = torch.float64 if d else torch.float32
        ctx.note(double=d, log=l)
        alphas = [fsam.forward(f, sr) for f in fs]
        betas = [fsam.backward(f, sr) for f in fs]
        tots = [(a[-1] if a else NINF) for a in alphas]
        for f, tot in zip(fs, tots):        # the dynamic programme against explicit paths
            if len(f.arcs) <= 12:
                ps = fsam.paths(f, 300)
                if ps is not None:
                    xs = [sum(f.arcs[i][3] for i in p) for p in ps]
                    w = (fsam.logsum(xs) if l else max(xs)) if xs else NINF
                    ctx.close(tot, w, 'oracle-self-check', 'path enumeration', tol=1e-7)
        q = ['fwd', 'bwd', 'tot', 'post']
        r.shuffle(q)
        for k in q:
            if k == 'fwd':
                x = v.get_forward_scores(d, l)
                ctx.eq(x.dtype, dt, 'forward', 'dtype')
                ctx.closes(x.tolist(), [y for a in alphas for y in a], 'forward', f'double={d} log={l}', **t)
            elif k == 'bwd':
                x = v.get_backward_scores(d, l)
                ctx.eq(x.dtype, dt, 'backward', 'dtype')
                ctx.closes(x.tolist(), [y for b in betas for y in b], 'backward', f'double={d} log={l}', **t)
            elif k == 'tot':
                x = v.get_tot_scores(d, l)
                ctx.eq(x.dtype, dt, 'total', 'dtype')
                ctx.closes(x.tolist(), tots, 'total', f'double={d} log={l}', **t)
            else:
                x = v.get_arc_post(d, l)
                want = []
                for f, a, b, tot in zip(fs, alphas, betas, tots):
                    for s, e, lab, w in f.arcs:
                        z = a[s] + w + b[e]
                        want.append(NINF if tot == NINF or z == NINF else z - tot)
                t2 = dict(t, tol=t['tol'] * 3)
                ctx.closes(x.tolist(), want, 'posterior', f'double={d} log={l}', **t2)
                cuts(ctx, fs, x.tolist(), tots, l, t)


def cuts(ctx, fs, post, tots, log, t):
    """Across every cut of a top-sorted FSA: posteriors sum to one (log), or
    the best is zero (tropical)."""
    o = 0
    for f, tot in zip(fs, tots):
        p = post[o:o + len(f.arcs)]
        o += len(f.arcs)
        if tot == NINF:
            continue
        for k in range(f.n - 1):
            c = [x for (s, e, l, w), x in zip(f.arcs, p) if s <= k < e]
            if log:
                ctx.close(sum(math.exp(x) for x in c), 1.0, 'cut', f'cut {k} of {f}', tol=max(1e-5, 20 * t['tol']))
            else:
                ctx.close(max(c), 0.0, 'cut', f'cut {k} of {f}', tol=max(1e-5, 20 * t['tol']))
