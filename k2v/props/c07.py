"""C07: intersection and composition against an explicit product."""
import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props.c06 import eps_cycle, unchanged


def product(a, b, la=None, lb=None, special=False):
    """Explicit product of two F. la/lb: matched symbols per arc (default the
    labels). Returns (F with matched labels, [(ia, ib)] per arc)."""
    la = la or [x[2] for x in a.arcs]
    lb = lb or [x[2] for x in b.arcs]
    if a.n == 0 or b.n == 0:
        return F(0, []), []
    va, vb = a.leaving(), b.leaving()
    num = {(0, 0): 0}
    order = [(0, 0)]
    arcs = []
    k = 0
    fin = (a.final, b.final)

    def st(p):
        if p not in num:
            num[p] = len(num)
            order.append(p)
        return num[p]
    while k < len(order):
        p = order[k]
        if p != fin:
            for i in va[p[0]]:
                x = a.arcs[i]
                for j in vb[p[1]]:
                    y = b.arcs[j]
                    if la[i] == lb[j] and (not special or la[i] != 0):
                        arcs.append([k, st((x[1], y[1])), la[i], x[3] + y[3], i, j])
                if special and la[i] == 0:
                    arcs.append([k, st((x[1], p[1])), 0, x[3], i, -1])
            if special:
                for j in vb[p[1]]:
                    if lb[j] == 0:
                        y = b.arcs[j]
                        arcs.append([k, st((p[0], y[1])), 0, y[3], -1, j])
        k += 1
        if k > 3000:
            raise Skip('product too large')
    n = len(order)
    f = num.get(fin)
    if f is None:
        f = n
        n += 1
    sw = {f: n - 1, n - 1: f}
    arcs = [[sw.get(x[0], x[0]), sw.get(x[1], x[1])] + x[2:] for x in arcs]
    arcs.sort(key=lambda x: x[0])
    if f == 0:
        raise Skip('start is final')
    return F(n, [tuple(x[:4]) for x in arcs]), [(x[4], x[5]) for x in arcs]


def gens(ctx, eps, kw=None):
    r = ctx.rng
    cyc = r.random() < 0.4
    d = dict(cyclic=cyc, eps=eps, max_n=5, score='neg' if cyc and eps else None, labels=r.choice([1, 2, 2, 3]))
    d.update(kw or {})
    return d


def check_arcs(ctx, a, b, g, ia, ib, special, la=None, lb=None):
    """Provenance of every output arc and consistency of the state pairs."""
    la = la or [x[2] for x in a.arcs]
    lb = lb or [x[2] for x in b.arcs]
    pair = {0: (0, 0)} if g.n else {}
    todo = [0] if g.n else []
    lv = g.leaving()
    seen = set()
    while todo:
        s = todo.pop()
        for k in lv[s]:
            x = g.arcs[k]
            i, j = ia[k], ib[k]
            ctx.ok(i >= 0 or j >= 0, 'arc-map', f'arc {x} has no source', a=a, b=b, g=g)
            ctx.ok(i < len(a.arcs) and j < len(b.arcs), 'arc-map', 'arc map out of range')
            if not special:
                ctx.ok(i >= 0 and j >= 0, 'arc-map', f'arc {x} lacks a source: {i} {j}', a=a, b=b, g=g)
            ps = pair[s]
            nd = list(ps)
            sc = 0.0
            labs = []
            if i >= 0:
                ctx.eq(a.arcs[i][0], ps[0], 'arc-map', 'source state in a', a=a, b=b, g=g)
                nd[0] = a.arcs[i][1]
                sc += a.arcs[i][3]
                labs.append(la[i])
            if j >= 0:
                ctx.eq(b.arcs[j][0], ps[1], 'arc-map', 'source state in b', a=a, b=b, g=g)
                nd[1] = b.arcs[j][1]
                sc += b.arcs[j][3]
                labs.append(lb[j])
            if len(labs) == 2:
                ctx.eq(labs[0], labs[1], 'arc-label', 'matched labels differ', a=a, b=b, g=g)
            else:
                ctx.eq(labs[0], 0, 'arc-label', 'unmatched non-epsilon arc', a=a, b=b, g=g)
            ctx.close(x[3], sc, 'arc-score', f'score of {x}', tol=1e-5, rel=1e-6)
            nd = tuple(nd)
            if x[1] in pair:
                ctx.eq(pair[x[1]], nd, 'state-pair', 'state stands for two pairs', a=a, b=b, g=g)
            else:
                pair[x[1]] = nd
                todo.append(x[1])
            seen.add(k)
    if g.n and g.final in pair:
        ctx.eq(pair[g.final], (a.final, b.final), 'state-pair', 'final state', a=a, b=b, g=g)
    ctx.count('product-arcs', len(seen))


def langs(ctx, want, g, special, both_eps):
    if special:
        fsam.check_same_lang(ctx, want, g, 'max', 'lang-special', eps=True, maxlen=5)
        if not both_eps and not eps_cycle(want) and not eps_cycle(g):
            fsam.check_same_lang(ctx, want, g, 'log', 'lang-special', eps=True, maxlen=5)
    else:
        for sr in ('max', 'log'):
            fsam.check_same_lang(ctx, want, g, sr, 'lang', maxlen=5)


def has_eps(f, lab=None):
    return any((a[2] if lab is None else lab[i]) == 0 for i, a in enumerate(f.arcs))


def offs(fs):
    o, out = 0, []
    for f in fs:
        out.append(o)
        o += len(f.arcs)
    return out


def sub(v, base):
    return [x - base if x >= 0 else -1 for x in v]


def op_intersect(ctx):
    r = ctx.rng
    special = r.random() < 0.5
    eps = r.choice([0, 0.3]) if special else r.choice([0, 0.2])
    form = r.choice(['ss', 'vv', 'sv', 'vs', 'vv'])
    k = r.randint(1, 4)
    kw = gens(ctx, eps)
    kb = gens(ctx, eps if r.random() < 0.5 else 0, {'labels': kw['labels']})
    A = [fsam.arc_sorted(fsam.gen(r, allow_empty=form[0] == 'v', **kw)) for _ in range(k if form[0] == 'v' else 1)]
    B = [fsam.arc_sorted(fsam.gen(r, allow_empty=form[1] == 'v', **kb)) for _ in range(k if form[1] == 'v' else 1)]
    a, b = fsam.build(A, form[0] == 'v'), fsam.build(B, form[1] == 'v')
    ctx.note(A=A, B=B, form=form, special=special)
    ret = r.random() < 0.7
    a.ua = torch.arange(1, a.num_arcs + 1, dtype=torch.int32)
    b.ub = torch.arange(1, b.num_arcs + 1, dtype=torch.int32)
    x = k2.intersect(a, b, treat_epsilons_specially=special, ret_arc_maps=ret)
    out, ma, mb = x if ret else (x, None, None)
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 2 if form == 'ss' else 3, 'axes', 'axes of the result')
    ia, ib = [u - 1 for u in out.ua.tolist()], [u - 1 for u in out.ub.tolist()]
    if ret:
        ctx.eq(ma.tolist(), ia, 'arc-map', 'a_arc_map against attributes')
        ctx.eq(mb.tolist(), ib, 'arc-map', 'b_arc_map against attributes')
    gs = fsam.any_from_k2(out)
    n = max(len(A), len(B))
    ctx.eq(len(gs), n, 'members', 'members')
    oa, ob, og = offs(A), offs(B), offs(gs)
    for q, g in enumerate(gs):
        fa, fb = A[q if len(A) > 1 else 0], B[q if len(B) > 1 else 0]
        ba, bb = oa[q if len(A) > 1 else 0], ob[q if len(B) > 1 else 0]
        sl = slice(og[q], og[q] + len(g.arcs))
        if special and (eps_cycle(fa) or eps_cycle(fb)) and kw['score'] != 'neg':
            continue
        want, _ = product(fa, fb, special=special)
        check_arcs(ctx, fa, fb, g, sub(ia[sl], ba), sub(ib[sl], bb), special)
        langs(ctx, want, g, special, has_eps(fa) and has_eps(fb))
        for j, e in enumerate(g.arcs):
            i1, i2 = ia[sl][j], ib[sl][j]
            lab = fa.arcs[i1 - ba][2] if i1 >= 0 else fb.arcs[i2 - bb][2]
            ctx.eq(e[2], lab, 'arc-label', 'label of the output arc')
    unchanged(ctx, A, a)
    unchanged(ctx, B, b)
    ctx.count('form:' + form + (':special' if special else ''))


def op_device(ctx):
    r = ctx.rng
    na, nb = r.randint(1, 4), r.randint(1, 4)
    kw = gens(ctx, r.choice([0, 0.2]))
    A = [fsam.gen(r, **kw) for _ in range(na)]
    B = [fsam.gen(r, **kw) for _ in range(nb)]
    srt = r.random() < 0.5
    if srt:
        A = [fsam.arc_sorted(f) for f in A]
    m = [r.randrange(na) for _ in range(nb)]
    a, b = fsam.vec_to_k2(A), fsam.vec_to_k2(B)
    ctx.note(A=A, B=B, m=m, sorted=srt)
    out, ma, mb = k2.intersect_device(a, b, torch.tensor(m, dtype=torch.int32), sorted_match_a=srt,
                                      ret_arc_maps=True)
    fsam.check_valid(ctx, out)
    gs = fsam.any_from_k2(out)
    ctx.eq(len(gs), nb, 'members', 'members')
    oa, ob, og = offs(A), offs(B), offs(gs)
    ia, ib = ma.tolist(), mb.tolist()
    for q, g in enumerate(gs):
        fa, fb = A[m[q]], B[q]
        sl = slice(og[q], og[q] + len(g.arcs))
        want, _ = product(fa, fb)
        check_arcs(ctx, fa, fb, g, sub(ia[sl], oa[m[q]]), sub(ib[sl], ob[q]), False)
        langs(ctx, want, g, False, False)
        ctx.eq([e[2] for e in g.arcs], [B[q].arcs[i - ob[q]][2] for i in ib[sl]], 'arc-label', 'labels')
    unchanged(ctx, A, a)
    unchanged(ctx, B, b)


def best(rel):
    d = {}
    for i, o, s in rel:
        d[(i, o)] = max(d.get((i, o), NINF), s)
    return d


def rel3(f, ins, outs, mid=None, cap=400):
    ps = fsam.paths(f, cap)
    if ps is None:
        raise Skip('too many paths')
    clean = lambda seq: tuple(x for x in seq if x not in (0, -1))
    return [(clean(ins[i] for i in p), clean(outs[i] for i in p), sum(f.arcs[i][3] for i in p)) +
            ((clean(mid[i] for i in p),) if mid is not None else ()) for p in ps]


def op_compose(ctx):
    r = ctx.rng
    special = r.random() < 0.6
    eps = r.choice([0, 0.3])
    form = r.choice(['ss', 'vv', 'sv', 'vs'])
    k = r.randint(1, 3)
    kw = gens(ctx, eps, {'labels': 3})
    kw['max_n'] = 4
    kb = dict(kw)
    A = [fsam.gen(r, allow_empty=form[0] == 'v', **kw) for _ in range(k if form[0] == 'v' else 1)]
    B = [fsam.arc_sorted(fsam.gen(r, allow_empty=form[1] == 'v', **kb)) for _ in range(k if form[1] == 'v' else 1)]
    a, b = fsam.build(A, form[0] == 'v'), fsam.build(B, form[1] == 'v')
    def aux(fs):
        return [-1 if e[2] == -1 else (0 if r.random() < eps else r.randint(1, 3)) for f in fs for e in f.arcs]
    xa, xb = aux(A), aux(B)
    a.aux_labels = torch.tensor(xa, dtype=torch.int32)
    fst = r.random() < 0.6
    if fst:
        b.aux_labels = torch.tensor(xb, dtype=torch.int32)
    else:
        xb = [e[2] for f in B for e in f.arcs]
    inner = 'inner' if fst and r.random() < 0.5 else None
    ctx.note(A=A, B=B, xa=xa, xb=xb, form=form, special=special, fst=fst, inner=inner)
    out = k2.compose(a, b, treat_epsilons_specially=special, inner_labels=inner)
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 2 if form == 'ss' else 3, 'axes', 'axes of the result')
    gs = fsam.any_from_k2(out)
    ctx.eq(len(gs), max(len(A), len(B)), 'members', 'members')
    aux_o = out.aux_labels.tolist()
    mid_o = getattr(out, inner).tolist() if inner else None
    oa, ob, og = offs(A), offs(B), offs(gs)
    for q, g in enumerate(gs):
        pa, pb = (q if len(A) > 1 else 0), (q if len(B) > 1 else 0)
        fa, fb = A[pa], B[pb]
        la = xa[oa[pa]:oa[pa] + len(fa.arcs)]
        ilab = [e[2] for e in fa.arcs]
        olab = xb[ob[pb]:ob[pb] + len(fb.arcs)]
        want, src = product(fa, fb, la=la, special=special)
        wi = [ilab[i] if i >= 0 else 0 for i, _ in src]
        wo = [olab[j] if j >= 0 else 0 for _, j in src]
        sl = slice(og[q], og[q] + len(g.arcs))
        gi, go = [e[2] for e in g.arcs], aux_o[sl]
        if not kw['cyclic']:
            W, G = rel3(want, wi, wo), rel3(g, gi, go)
            if special:
                ctx.eq(best(G), best(W), 'compose-special', 'best score per (input, output)', a=fa, b=fb, g=g)
            else:
                ctx.eq(sorted(G), sorted(W), 'compose', 'relation', a=fa, b=fb, g=g)
            if inner:
                W = rel3(want, wi, wo, [e[2] for e in want.arcs])
                G = rel3(g, gi, go, mid_o[sl])
                ctx.eq({(x[0], x[3], x[1]) for x in G}, {(x[0], x[3], x[1]) for x in W}, 'compose-inner',
                       'inner labels', g=g)
            ctx.count('compose-paths', len(W))
        else:
            sw = [(-1 if e[1] == want.final else x if x > 0 else 0) for e, x in zip(want.arcs, wi)]
            w2 = F(want.n, [(e[0], e[1], l, e[3]) for e, l in zip(want.arcs, sw)])
            if not special and (eps_cycle(w2) or eps_cycle(g)):
                continue
            if kw['score'] != 'neg' and (eps_cycle(w2) or eps_cycle(g)):
                continue
            fsam.check_same_lang(ctx, w2, g, 'max', 'compose-cyclic', eps=True, maxlen=4)
    unchanged(ctx, A, a)
    unchanged(ctx, B, b)
    ctx.eq(a.aux_labels.tolist(), xa, 'input-unchanged', 'aux labels of a')


def case(ctx):
    op = ctx.rng.choice([op_intersect, op_intersect, op_device, op_compose, op_compose])
    ctx.sig(op.__name__, ctx.idx)
    op(ctx)
    ctx.count('op:' + op.__name__)
