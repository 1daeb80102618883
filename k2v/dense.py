"""Dense (score-matrix) FSAs: workloads and the explicit frame-by-frame
product they are compared with."""
import torch
import k2
from k2v import fsam
from k2v.fsam import F, NINF


def gen_rows(ctx, N, T, C, inf=False, style=None):
    """log_probs of shape (N, T, C). 'exact': multiples of 1/8 (float sums are
    exact); 'norm': arbitrary floats."""
    r = ctx.rng
    style = style or r.choice(['exact', 'exact', 'exact', 'norm', 'flat'])
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    if style == 'exact':
        x = -torch.randint(0, 64, (N, T, C), generator=g).float() / 8
    elif style == 'flat':
        x = -torch.randint(0, 3, (N, T, C), generator=g).float()
    else:
        x = torch.randn(N, T, C, generator=g).mul(2).log_softmax(-1)
    if inf and x.numel():
        x = torch.where(torch.rand(N, T, C, generator=g) < .1, torch.tensor(NINF), x)
    return x, style


def gen_segments(ctx, N, T, k=None, sort=True, zero=True, trunc=0):
    """(int32 tensor, allow_truncate, list of (seq, start, end))."""
    r = ctx.rng
    k = k or r.choice([1, 1, 2, 2, 3, 4, 5])
    segs = []
    for _ in range(k):
        s = r.randrange(T)
        lo = 0 if zero and r.random() < .1 else 1
        d = r.randint(lo, T - s)
        if trunc and r.random() < .4:
            d = T - s + r.randint(0, trunc)
        if r.random() < .5 and not trunc:
            s, d = 0, max(lo, r.choice([T, T, d]))
        segs.append((r.randrange(N), s, d))
    if sort:
        segs.sort(key=lambda x: -(min(x[1] + x[2], T) - x[1]))
    return torch.tensor(segs, dtype=torch.int32), [(n, s, min(s + d, T)) for n, s, d in segs]


def rows_of(logp, segs):
    """Per segment: the rows with the leading column of symbol -1 and the extra
    final row, as lists."""
    C = logp.shape[2]
    out = []
    for n, s, e in segs:
        rows = [[NINF] + x for x in logp[n, s:e].tolist()]
        rows.append([0.0] + [NINF] * C)
        out.append(rows)
    return out


def gen_graph(ctx, C, out_of_range=False, empty=True):
    r = ctx.rng
    if empty and r.random() < .05:
        return F(0, [])
    kind = r.random()
    if kind < .25:
        # linear with self loops, CTC-like
        n = r.randint(1, 4)
        labs = [r.randrange(C) for _ in range(n)]
        arcs = []
        for i, l in enumerate(labs):
            if r.random() < .6:
                arcs.append((i, i, r.choice([0, l]), fsam.gen_score(r, 'neg')))
            arcs.append((i, i + 1, l, fsam.gen_score(r, 'neg')))
        if r.random() < .5:
            arcs.append((n, n, r.randrange(C), 0.0))
        arcs.append((n, n + 1, -1, fsam.gen_score(r, 'neg')))
        f = F(n + 2, arcs)
    else:
        f = fsam.gen(r, labels=max(1, C - 1), eps=r.choice([0, .2, .4]), cyclic=r.random() < .6,
                     score=r.choice(['norm', 'neg', 'zero', 'few', 'inf']), allow_empty=False, max_n=6)
        f = F(f.n, [(s, d, min(l, C - 1), w) for s, d, l, w in f.arcs])
    if out_of_range and r.random() < .3:
        # labels the network does not have
        f = F(f.n, [(s, d, l if l < 0 or r.random() < .7 else C + r.choice([0, 0, 1, 2, 5]), w) for s, d, l, w in f.arcs])
    return fsam.arc_sorted(f)


def ab(f, rows):
    """Viterbi alpha[t][s], beta[t][s] and the arcs of the full product."""
    T = len(rows)
    C1 = len(rows[0])
    al = [[NINF] * f.n for _ in range(T + 1)]
    be = [[NINF] * f.n for _ in range(T + 1)]
    if not f.n:
        return al, be, NINF
    al[0][0] = 0.0
    be[T][f.n - 1] = 0.0

    def w(t, a):
        return a[3] + rows[t][a[2] + 1] if a[2] + 1 < C1 else NINF
    for t in range(T):
        for a in f.arcs:
            x = al[t][a[0]] + w(t, a)
            if x > al[t + 1][a[1]]:
                al[t + 1][a[1]] = x
    for t in range(T - 1, -1, -1):
        for a in f.arcs:
            x = be[t + 1][a[1]] + w(t, a)
            if x > be[t][a[0]]:
                be[t][a[0]] = x
    return al, be, al[T][f.n - 1]


def product(f, rows, beam=float('inf'), tol=0.0):
    """(kept, maybe, best): {(t, local arc): score} certainly on a path within
    beam of the best, and those within tol of the threshold."""
    al, be, best = ab(f, rows)
    kept, maybe = {}, {}
    if best == NINF:
        return kept, maybe, best
    C1 = len(rows[0])
    for t in range(len(rows)):
        for i, a in enumerate(f.arcs):
            if a[2] + 1 >= C1:
                continue
            w = a[3] + rows[t][a[2] + 1]
            x = al[t][a[0]] + w + be[t + 1][a[1]]
            if x == NINF:
                continue
            if x > best - beam + tol:
                kept[(t, i)] = w
            elif x > best - beam - tol:
                maybe[(t, i)] = w
    return kept, maybe, best


def check_lattice(ctx, f, rows, lat, ids, frames, kept, maybe, tol, key='lattice', subset=False):
    """lat: F of the result; ids/frames: graph arc (local) and frame of each of
    its arcs. subset: pruning may have removed more."""
    C1 = len(rows[0])
    seen = {}
    smap, inv = {}, {}

    def tie(k, s):
        if smap.setdefault(k, s) != s or inv.setdefault(s, k) != k:
            ctx.fail(key + '-states', f'state {s} stands for (frame, graph state) {k} and {inv.get(s)}; {k} is {smap[k]}',
                     f=f, rows=rows, lat=lat)
    for j, a in enumerate(lat.arcs):
        t, i = frames[j], ids[j]
        ctx.ok(0 <= i < len(f.arcs) and 0 <= t < len(rows), key + '-maps', f'arc {j} maps to arc {i} frame {t}', lat=lat)
        g = f.arcs[i]
        ctx.ok((t, i) not in seen, key + '-duplicate', f'graph arc {i} at frame {t} appears twice', lat=lat, f=f)
        seen[(t, i)] = j
        ctx.eq(a[2], g[2], key + '-label', f'label of arc {j}')
        want = g[3] + rows[t][g[2] + 1] if g[2] + 1 < C1 else NINF
        ctx.close(a[3], want, key + '-score', f'score of arc {j} (graph arc {i} frame {t})', tol=tol, rel=1e-6,
                  f=f, rows=rows, lat=lat)
        tie((t, g[0]), a[0])
        tie((t + 1, g[1]), a[1])
    if lat.n and lat.arcs:
        ctx.eq(inv.get(0), (0, 0), key + '-start', 'state 0', lat=lat)
        ctx.eq(inv.get(lat.n - 1), (len(rows), f.n - 1), key + '-final', 'final state', lat=lat)
    extra = [k for k in seen if k not in kept and k not in maybe]
    ctx.ok(not extra, key + '-pruned', f'arcs outside the beam or on no path were kept: {extra[:5]}', f=f, rows=rows, lat=lat)
    if not subset:
        miss = [k for k in kept if k not in seen]
        ctx.ok(not miss, key + '-lost', f'arcs within the beam were lost: {miss[:5]}', f=f, rows=rows, lat=lat)
    ctx.count('lattice-arcs', len(lat.arcs))
    return seen
