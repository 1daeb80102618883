"""C13: shortest_path and random_paths."""
import math

import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c11


def op_shortest(ctx):
    r = ctx.rng
    fs, style = c11.gen_vec(ctx, inf=False, kmax=5)
    if r.random() < .25:                 # dead members
        i = r.randrange(len(fs))
        f = fs[i]
        if f.n > 2:
            fs[i] = F(f.n, [a for a in f.arcs if a[1] != f.n - 1] or f.arcs[:0])
            if not fs[i].arcs:
                fs[i] = F(0, [])
    single = len(fs) == 1 and fs[0].n >= 2 and fs[0].arcs and r.random() < .6
    ctx.note(fs=fs, single=single)
    ctx.sig('sp', str(fs))
    double = r.random() < .5
    v = fsam.single_k2(fs[0]) if single else fsam.vec_to_k2(fs)
    ids = fsam.uids(fs)
    n = sum(len(i) for i in ids)
    v.uid = torch.arange(n, dtype=torch.int32)
    if not single and r.random() < .4:
        for _ in range(2):
            k = r.randrange(3)
            if k == 0:
                v.get_tot_scores(r.random() < .5, r.random() < .5)
            elif k == 1:
                v.get_forward_scores(r.random() < .5, r.random() < .5)
    if r.random() < .5:
        v.requires_grad_(True)
    b = k2.shortest_path(v, use_double_scores=double)
    fsam.check_valid(ctx, b)
    ctx.eq(b.shape[0], len(fs), 'shortest', 'one path per FSA')
    out = fsam.vec_from_k2(b)
    uid = fsam.split(b.uid.tolist(), out)
    picked = []
    for f, p, u, base in zip(fs, out, uid, ids):
        best = fsam.forward(f, 'max')
        best = best[-1] if best else NINF
        if best == NINF:
            ctx.eq((p.n, len(p.arcs)), (0, 0), 'shortest-none', f'no path in {f}')
            continue
        ctx.eq(p.n, len(p.arcs) + 1, 'shortest', 'linear FSA')
        cur, tot = 0, 0.0
        for j, (a, i) in enumerate(zip(p.arcs, u)):
            ctx.eq((a[0], a[1]), (j, j + 1), 'shortest', 'linear FSA states')
            src = f.arcs[i - base[0]] if base and base[0] <= i <= base[-1] else None
            ctx.ok(src is not None and src[0] == cur and src[2] == a[2] and src[3] == a[3], 'shortest',
                   f'arc {j} {a} comes from {src}, at state {cur}')
            cur = src[1]
            tot += src[3]
        ctx.eq(cur, f.n - 1, 'shortest', 'ends in the final state')
        t = c11.tols(double, [f])
        ctx.close(tot, best, 'shortest-optimal', f'{f}', **t)
        picked += u
        ctx.count('paths')
    if v.requires_grad:
        w = torch.tensor([r.randint(-8, 8) / 4 for _ in picked])
        if len(picked):
            (b.scores * w).sum().backward()
            g = [0.0] * n
            for i, x in zip(picked, w.tolist()):
                g[i] += x
            ctx.eq(v.grad.tolist(), g, 'shortest-grad', 'gradient through the best path')


def op_random(ctx):
    r = ctx.rng
    fs, style = c11.gen_vec(ctx, inf=r.random() < .3, kmax=4, max_n=7)
    if style == 'big':
        fs = [F(f.n, [(s, d, l, w / 100) for s, d, l, w in f.arcs]) for f in fs]
    if r.random() < .3:
        # lots of parallel arcs
        fs = [F(f.n, sorted(f.arcs * r.randint(1, 4), key=lambda a: a[0])) for f in fs]
    double = r.random() < .6
    num = r.choice([1, 2, 3, 7, 10, 33, 100, 257])
    ctx.note(fs=fs, num=num, double=double)
    ctx.sig('rp', str(fs), num, double)
    v = fsam.vec_to_k2(fs)
    got = k2.random_paths(v, use_double_scores=double, num_paths=num)
    ctx.eq(got.num_axes, 3, 'random', 'axes')
    ans = got.tolist()
    ctx.eq(len(ans), len(fs), 'random', 'one list per FSA')
    ids = fsam.uids(fs)
    for f, ps, base in zip(fs, ans, ids):
        tot = fsam.forward(f, 'log')
        tot = tot[-1] if tot else NINF
        if tot == NINF:
            ctx.eq(ps, [], 'random-none', f'no path in {f}')
            continue
        ctx.eq(len(ps), num, 'random-count', f'{f}')
        counts = {}
        for p in ps:
            cur = 0
            for i in p:
                ctx.ok(base[0] <= i <= base[-1], 'random-path', f'arc {i} belongs to another FSA')
                a = f.arcs[i - base[0]]
                ctx.eq(a[0], cur, 'random-path', f'consecutive arcs in {p} of {f}')
                cur = a[1]
            ctx.eq(cur, f.n - 1, 'random-path', f'{p} ends in the final state')
            counts[tuple(p)] = counts.get(tuple(p), 0) + 1
        ctx.ok(ps == sorted(ps), 'random-order', 'paths follow their cumulative distribution')
        slack = 1.0 + (1e-6 if double else 2e-4) * num * f.n * 10
        allp = fsam.paths(f, 3000)
        if allp is not None:
            known = {tuple(i + base[0] for i in p): math.exp(sum(f.arcs[i][3] for i in p) - tot) for p in allp}
            for p, pr in known.items():
                c = counts.pop(p, 0)
                ctx.ok(abs(c - num * pr) <= slack + 1e-9, 'random-distribution',
                       f'path {p} has probability {pr}, visited {c} of {num} times', fsa=f)
            ctx.eq(counts, {}, 'random-path', 'paths not in the FSA')
        ctx.count('sampled', num)


def case(ctx):
    ctx.rng.choice([op_shortest, op_random])(ctx)
