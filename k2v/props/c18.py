"""C18: N-best lists, lattice rescoring, posterior pruning, Levenshtein
alignment and the decode helpers against their lattice."""
import math
import torch
import k2
import k2.decode
from k2.nbest import whole_lattice_rescoring, generate_nbest_list
from k2v import fsam, dense
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c11, c16, c17


def snapshot(v):
    d = {k: (x.tolist() if hasattr(x, 'tolist') else x) for k, x in v.named_tensor_attr()}
    return repr(fsam.any_from_k2(v)), repr(d), repr(sorted(k for k, _ in v.named_non_tensor_attr())), v.requires_grad


def linear_ok(ctx, fs, key):
    for f in fs:
        ctx.ok(f.n == len(f.arcs) + 1 if f.n else not f.arcs, key, f'{f} is not linear')
        for j, a in enumerate(f.arcs):
            ctx.ok(a[:2] == (j, j + 1), key, f'{f} is not linear')


def from_lattice(ctx):
    r = ctx.rng
    v, fs, words, aux = c17.lattice(ctx)
    P = r.choice([1, 2, 4, 10, 40])
    scale = r.choice([.1, .5, 1.0, 2.0])
    double = r.random() < .6
    ctx.sig('from_lattice', str(fs), words, P, scale, double)
    grad = r.random() < .5
    if grad:
        v.requires_grad_(True)
    if r.random() < .3:
        v.get_tot_scores(double, True)
    before = snapshot(v)
    sc0 = v.scores
    nb = k2.Nbest.from_lattice(v, P, use_double_scores=double, nbest_scale=scale)
    ctx.eq(snapshot(v), before, 'inputs', 'the lattice was modified')
    ctx.ok(v.scores is sc0, 'inputs', 'the scores of the lattice were replaced')
    # the sampled paths, sampled once more from a scaled copy
    c = v.clone()
    c.scores = c.scores.detach() * scale
    sampled = k2.random_paths(c, num_paths=P, use_double_scores=double).tolist()
    allw = [x for ws in words for x in ws]
    word = lambda p: tuple(x for i in p for x in allw[i])
    kept = nb.kept_path.tolist()
    rs = nb.shape.row_splits(1).tolist()
    ctx.eq(len(rs) - 1, len(fs), 'nbest-shape', 'utterances')
    out = fsam.vec_from_k2(nb.fsa)
    linear_ok(ctx, out, 'nbest-linear')
    ctx.eq(len(out), len(kept), 'nbest-shape', 'paths')
    ctx.eq(nb.fsa.shape[0], rs[-1], 'nbest-shape', 'paths')
    auxs = fsam.split(c16.aux_of(nb.fsa), out)
    base = 0
    vaux = c16.aux_of(v)
    for u, f in enumerate(fs):
        mine = kept[rs[u]:rs[u + 1]]
        ctx.ok(all(p in sampled[u] for p in mine), 'nbest-sampled', f'utterance {u}: {mine} not among the sampled {sampled[u]}')
        got = [word(p) for p in mine]
        ctx.ok(len(set(got)) == len(got), 'nbest-unique', f'utterance {u}: word sequences {got}')
        ctx.eq(set(got), set(word(p) for p in sampled[u]), 'nbest-words', f'utterance {u}')
        for j in range(rs[u], rs[u + 1]):
            p = kept[j]
            loc = [f.arcs[i - base] for i in p]
            ctx.ok(all(0 <= i - base < len(f.arcs) for i in p), 'nbest-member', f'path {p} of utterance {u}')
            cur = 0
            for a in loc:
                ctx.eq(a[0], cur, 'nbest-path', 'consecutive arcs')
                cur = a[1]
            ctx.eq(cur, f.n - 1, 'nbest-path', 'ends in the final state')
            ctx.eq([a[2] for a in out[j].arcs], [a[2] for a in loc], 'nbest-labels', f'path {p}')
            ctx.eq([a[3] for a in out[j].arcs], [a[3] for a in loc], 'nbest-scores', f'path {p}')
            ctx.eq(auxs[j], [vaux[i] for i in p], 'nbest-aux', f'path {p}')
        base += len(f.arcs)
    ctx.count('hyps', len(kept))
    if not kept:
        return
    # texts, Levenshtein graphs, totals and top-k of it
    ctx.eq(k2.get_aux_labels(nb.fsa), [list(word(p)) for p in kept], 'texts', 'get_aux_labels')
    lg = nb.build_levenshtein_graphs()
    ctx.eq(str(fsam.vec_from_k2(lg)), str(fsam.vec_from_k2(k2.levenshtein_graph([list(word(p)) for p in kept]))), 'leven', 'graphs')
    flat = [a[3] for f in fs for a in f.arcs]
    tot = [sum(flat[i] for i in p) for p in kept]
    tol = 1e-5 * (1 + c11.scale(fs) * 8)
    t = nb.total_scores()
    ctx.closes(t.values.tolist(), tot, 'nbest-total', 'total scores', tol=tol)
    ctx.eq(t.shape.row_splits(1).tolist(), rs, 'nbest-total', 'shape')
    if grad:
        up = torch.tensor([r.randint(-8, 8) / 4 for _ in kept])
        (t.values * up).sum().backward()
        g = [0.0] * len(flat)
        for x, p in zip(up.tolist(), kept):
            for i in p:
                g[i] += x
        ctx.closes(v.grad.tolist(), g, 'nbest-grad', 'gradient of the total scores', tol=1e-4)
    top(ctx, nb, rs, tot, out, tol)


def top(ctx, nb, rs, tot, out, tol):
    r = ctx.rng
    k = r.choice([1, 2, 3, 5, 9])
    U = len(rs) - 1
    ctx.note(k=k, rs=rs, tot=tot)
    if any(a == b for a, b in zip(rs, rs[1:])):
        ctx.raises(lambda: nb.top_k(k), 'topk-empty', 'an utterance has no path')
        return
    keep = str(fsam.vec_from_k2(nb.fsa)), nb.shape.row_splits(1).tolist()
    b = nb.top_k(k)
    ctx.eq((str(fsam.vec_from_k2(nb.fsa)), nb.shape.row_splits(1).tolist()), keep, 'inputs', 'top_k modified the list')
    ctx.eq(b.shape.row_splits(1).tolist(), [k * i for i in range(U + 1)], 'topk-shape', 'regular shape')
    got = fsam.vec_from_k2(b.fsa)
    gt = b.fsa.get_tot_scores(True, False).tolist()
    for u in range(U):
        idx = sorted(range(rs[u], rs[u + 1]), key=lambda i: -tot[i])
        want = [tot[i] for i in idx]
        want = (want + [want[-1]] * k)[:k]
        ctx.closes(gt[u * k:u * k + k], want, 'topk', f'top {k} of utterance {u}', tol=tol)
        pool = [str(out[i]) for i in idx]
        for f in got[u * k:u * k + k]:
            ctx.ok(str(f) in pool, 'topk-member', f'{f} is no path of utterance {u}')
        n = min(k, len(idx))
        a, c = sorted(str(f) for f in got[u * k:u * k + n]), list(pool)
        for x in a:
            ctx.ok(x in c, 'topk-repeat', f'a path of utterance {u} was repeated')
            c.remove(x)
    ctx.count('topk')


def any_nbest(ctx):
    """top_k and total_scores of arbitrary lists."""
    r = ctx.rng
    cnt = [r.choice([1, 1, 2, 3, 6] + ([0] if r.random() < .2 else [])) for _ in range(r.randint(1, 4))]
    rs = [0]
    for c in cnt:
        rs.append(rs[-1] + c)
    if not rs[-1]:
        raise Skip
    syms = [[r.randint(0, 3) for _ in range(r.choice([0, 1, 2, 3]))] for _ in range(rs[-1])]
    v = k2.linear_fsa(syms)
    v.scores = torch.tensor([r.randint(-16, 16) / 4 for _ in range(v.num_arcs)])
    fs = fsam.vec_from_k2(v)
    ctx.note(cnt=cnt, fs=fs)
    ctx.sig('any', cnt, str(fs))
    nb = k2.Nbest(v, k2.ragged.create_ragged_shape2(row_splits=torch.tensor(rs, dtype=torch.int32)))
    tot = [sum(a[3] for a in f.arcs) for f in fs]
    ctx.closes(nb.total_scores().values.tolist(), tot, 'nbest-total', 'total scores', tol=1e-6)
    top(ctx, nb, rs, tot, fs, 1e-6)


def tokens_of(f, p):
    return tuple(f.arcs[i][2] for i in p if f.arcs[i][2] > 0)


def intersect(ctx):
    r = ctx.rng
    fs, style = c11.gen_vec(ctx, inf=False, kmax=4, max_n=6)
    if style == 'big':
        fs = [F(f.n, [(*a[:3], a[3] / 256) for a in f.arcs]) for f in fs]
    if r.random() < .7:
        fs = [fsam.arc_sorted(f) for f in fs]
    cnt, seqs = [], []
    best = []
    for f in fs:
        ps = fsam.paths(f, 3000)
        if ps is None:
            raise Skip
        b = {}
        for p in ps:
            w = sum(f.arcs[i][3] for i in p)
            t = tokens_of(f, p)
            b[t] = max(b.get(t, NINF), w)
        n = r.choice([0, 1, 2, 4])
        cnt.append(n)
        for _ in range(n):
            if b and r.random() < .75:
                s = r.choice(sorted(b))
            else:
                s = tuple(r.randint(1, 3) for _ in range(r.randint(0, 3)))
            seqs.append(list(s))
            best.append(b.get(s, NINF))
    if not seqs:
        raise Skip
    v = fsam.vec_to_k2(fs)
    lin = k2.linear_fsa(seqs)
    own = [0.0] * lin.num_arcs
    if r.random() < .6:
        own = [r.randint(-8, 8) / 4 for _ in own]
        lin.scores = torch.tensor(own)
    rs = [0]
    for c in cnt:
        rs.append(rs[-1] + c)
    ctx.note(fs=fs, seqs=seqs, cnt=cnt, own=own)
    ctx.sig('intersect', str(fs), seqs, cnt, own)
    nb = k2.Nbest(lin, k2.ragged.create_ragged_shape2(row_splits=torch.tensor(rs, dtype=torch.int32)))
    before = snapshot(v), snapshot(lin)
    got = nb.intersect(v)
    ctx.eq((snapshot(v), snapshot(lin)), before, 'inputs', 'arguments were modified')
    ctx.eq(got.shape.row_splits(1).tolist(), rs, 'isect-shape', 'shape')
    out = fsam.vec_from_k2(got.fsa)
    linear_ok(ctx, out, 'isect-linear')
    tol = 1e-4 * (1 + c11.scale(fs))
    for f, s, b, o in zip(out, seqs, best, fsam.split(own, fsam.vec_from_k2(lin))):
        if b == NINF:
            ctx.eq((f.n, len(f.arcs)), (0, 0), 'isect-none', f'{s} is not in the lattice')
            continue
        ctx.eq([a[2] for a in f.arcs], s + [-1], 'isect-labels', 'labels')
        ctx.close(sum(a[3] for a in f.arcs), b + sum(o), 'isect-score', f'score of {s}', tol=tol)
        ctx.count('isect')


def rescoring(ctx):
    r = ctx.rng
    v, fs, words, aux = c17.lattice(ctx, kmax=3)
    V = max([x for ws in words for y in ws for x in y] + [1])
    flat = [(a, x) for f, ws in zip(fs, words) for a, x in zip(f.arcs, ws)]
    lm = [r.choice([0., r.randint(-16, 16) / 4]) for _ in flat]
    v.lm_scores = torch.tensor(lm)
    G = fsam.gen(r, labels=V, eps=0, cyclic=r.random() < .7, allow_empty=False, max_n=4, score='norm')
    g = k2.arc_sort(k2.add_epsilon_self_loops(fsam.vec_to_k2([G])))
    ctx.note(lm=lm, G=G)
    ctx.sig('rescoring', str(fs), words, lm, str(G))
    want = []
    o = 0
    lms = fsam.split(lm, fs)
    for f, ws, ls in zip(fs, words, lms):
        ps = fsam.paths(f, 400)
        if ps is None:
            raise Skip
        d = {}
        for p in ps:
            t, x = tokens_of(f, p), tuple(x for i in p for x in ws[i])
            w = sum(f.arcs[i][3] - ls[i] for i in p)
            d.setdefault((t, x), []).append(w)
        d = {k: fsam.logsum(x) + fsam.score_string(G, k[1], 'log') for k, x in d.items()}
        want.append({k: x for k, x in d.items() if x != NINF})
    before = snapshot(v), snapshot(g)
    got = whole_lattice_rescoring(v, g)
    ctx.eq((snapshot(v), snapshot(g)), before, 'inputs', 'arguments were modified')
    ctx.ok(not hasattr(got, 'lm_scores'), 'rescore-lm', 'lm_scores of the old LM kept')
    fsam.check_valid(ctx, got)
    out = fsam.vec_from_k2(got)
    ctx.eq(len(out), len(fs), 'rescore-dim', 'utterances')
    auxs = fsam.split(c16.aux_of(got), out)
    tol = 2e-4 * (1 + c11.scale(fs))
    for u, (f, a, w) in enumerate(zip(out, auxs, want)):
        ctx.ok(fsam.is_top_sorted(f), 'rescore-sorted', f'{f}')
        ps = fsam.paths(f, 30000)
        if ps is None:
            continue
        d = {}
        for p in ps:
            k = tokens_of(f, p), tuple(x for i in p for x in a[i] if x > 0)
            d.setdefault(k, []).append(sum(f.arcs[i][3] for i in p))
        ctx.eq(sorted(d), sorted(w), 'rescore-pairs', f'(tokens, words) of utterance {u}', out=f)
        for k in d:
            ctx.close(fsam.logsum(d[k]), w[k], 'rescore-score', f'utterance {u} {k}', tol=tol)
        ctx.count('rescored', len(d))


def nbest_list(ctx):
    r = ctx.rng
    v, fs, words, aux = c17.lattice(ctx)
    ph = [r.choice([0, 1, 1, 2, 3]) if a[2] != -1 else -1 for f in fs for a in f.arcs]
    v.phones = torch.tensor(ph, dtype=torch.int32)
    P = r.choice([1, 3, 10, 30])
    ctx.note(ph=ph, P=P)
    ctx.sig('list', str(fs), ph, P)
    before = snapshot(v)
    nb = generate_nbest_list(v, P)
    ctx.eq(snapshot(v), before, 'inputs', 'the lattice was modified')
    paths = k2.random_paths(v, num_paths=P, use_double_scores=True).tolist()
    rs = nb.shape.row_splits(1).tolist()
    out = fsam.vec_from_k2(nb.fsa)
    ctx.eq(len(rs) - 1, len(fs), 'list-shape', 'utterances')
    for u in range(len(fs)):
        got = [tuple(a[2] for a in f.arcs) for f in out[rs[u]:rs[u + 1]]]
        ctx.ok(len(set(got)) == len(got), 'list-unique', f'{got}')
        ctx.eq(set(got), set(tuple(x for x in (ph[i] for i in p) if x > 0) + (-1,) for p in paths[u]), 'list', f'utterance {u}')
    linear_ok(ctx, out, 'list-linear')
    ctx.count('lists')


def prune(ctx):
    r = ctx.rng
    fs, style = c11.gen_vec(ctx, kmax=4)
    double = r.random() < .5
    th = r.choice([1e-6, 1e-3, .01, .1, .3, .5, .7, .999])
    v = fsam.vec_to_k2(fs)
    n = sum(len(f.arcs) for f in fs)
    v.uid = torch.arange(n, dtype=torch.int32)
    v.fa = torch.tensor([r.randint(-9, 9) / 4 for _ in range(n)])
    ctx.note(fs=fs, th=th, double=double)
    ctx.sig('prune', str(fs), th, double)
    before = snapshot(v)
    o = k2.prune_on_arc_post(v, th, double)
    ctx.eq(snapshot(v), before, 'inputs', 'the argument was modified')
    fsam.check_valid(ctx, o)
    out = fsam.vec_from_k2(o)
    ctx.eq([f.n for f in out], [f.n for f in fs], 'prune-states', 'states')
    uid = o.uid.tolist()
    lt = math.log(th)
    base = 0
    keep = []
    for f in fs:
        a, b = fsam.forward(f, 'log'), fsam.backward(f, 'log')
        tot = a[-1] if a else NINF
        for i, (s, d, l, w) in enumerate(f.arcs):
            p = a[s] + w + b[d] - tot if tot != NINF else NINF
            if p != p:
                p = NINF
            tol = (1e-8 if double else 1e-4) * (1 + c11.scale(fs))
            if abs(p - lt) > tol:
                ctx.eq(base + i in uid, p > lt, 'prune', f'arc {i} {f.arcs[i]} of {f} with log posterior {p}, threshold {lt}')
            if base + i in uid:
                keep.append((f.arcs[i], base + i))
        base += len(f.arcs)
    ctx.eq([a for f in out for a in f.arcs], [a for a, _ in keep], 'prune-arcs', 'arcs and their order')
    ctx.eq(uid, [i for _, i in keep], 'prune-attr', 'attribute')
    ctx.eq(o.fa.tolist(), [v.fa.tolist()[i] for i in uid], 'prune-attr', 'attribute')
    ctx.count('pruned', n - len(uid))
    if r.random() < .1:
        ctx.raises(lambda: k2.prune_on_arc_post(v, r.choice([0., 1., 1.5, -.1]), double), 'prune-refused', 'threshold')


def align(ctx):
    r = ctx.rng
    V = r.choice([1, 2, 3, 6])
    seq = lambda: [r.randint(1, V) for _ in range(r.choice([0, 1, 2, 3, 4, 6]))]
    refs = [seq() for _ in range(r.randint(1, 4))]
    mp = [r.randrange(len(refs)) for _ in range(r.randint(1, 5))]
    hyps = []
    for m_ in mp:
        if r.random() < .5:
            h = list(refs[m_])
            for _ in range(r.randint(0, 3)):
                k = r.randrange(3)
                j = r.randint(0, len(h))
                if k == 0:
                    h.insert(j, r.randint(1, V))
                elif h and j < len(h):
                    if k == 1:
                        h.pop(j)
                    else:
                        h[j] = r.randint(1, V)
        else:
            h = seq()
        hyps.append(h)
    ind = r.choice([None, None, -.501, -.6, -.75])
    kw = {} if ind is None else {'ins_del_score': ind}
    ctx.note(refs=refs, hyps=hyps, mp=mp, ind=ind)
    ctx.sig('align', refs, hyps, mp, ind)
    R, H = k2.levenshtein_graph(refs, **kw), k2.levenshtein_graph(hyps, **kw)
    if r.random() < .5:
        R = k2.arc_sort(R)
        srt = r.random() < .7
    else:
        srt = False
    before = snapshot(R), snapshot(H)
    al = k2.levenshtein_alignment(R, H, torch.tensor(mp, dtype=torch.int32), sorted_match_ref=srt)
    ctx.eq((snapshot(R), snapshot(H)), before, 'inputs', 'arguments were modified')
    out = fsam.vec_from_k2(al)
    linear_ok(ctx, out, 'align-linear')
    ctx.eq(len(out), len(hyps), 'align-dim', 'alignments')
    rl, hl = (fsam.split(x.tolist(), out) for x in (al.ref_labels, al.hyp_labels))
    tot = al.get_tot_scores(use_double_scores=r.random() < .5, log_semiring=False).tolist()
    for j, (f, a, b) in enumerate(zip(out, rl, hl)):
        ref = refs[mp[j]]
        ctx.eq([x for x in a if x > 0], ref, 'align-ref', f'reference of {j}')
        ctx.eq([x for x in b if x > 0], hyps[j], 'align-hyp', f'hypothesis of {j}')
        ctx.ok((a[-1], b[-1]) == (-1, -1) and not any(x == -1 for x in a[:-1] + b[:-1]), 'align-end', f'{a} {b}')
        ctx.ok(all(x or y for x, y in zip(a, b)), 'align-empty', f'{a} {b}')
        # equal cost of both kinds of step, except that the ins/del penalty
        # decides which alignment is taken
        e = -2 * (ind or -.501)
        want = c16.edit(ref, hyps[j], 1, e)
        sub = sum(x != y and x > 0 and y > 0 for x, y in zip(a, b))
        gap = sum((x == 0) != (y == 0) for x, y in zip(a, b))
        del want
        cost = sub + gap * (.5 - (ind or -.501))
        ctx.close(cost, c16.edit(ref, hyps[j], 1, .5 - (ind or -.501)), 'align-cost', f'cost of {a} / {b}', tol=1e-4)
        ctx.close(-tot[j], sub + gap, 'align-score', f'total score of {a} / {b}', tol=1e-4)
        if ind is None:
            ctx.eq(sub + gap, c16.edit(ref, hyps[j], 1, 1), 'align-minimal', f'edits of {a} / {b}')
        ctx.eq([x[2] for x in f.arcs], [x if x == y else 0 for x, y in zip(a, b)], 'align-labels', f'labels for {a} / {b}')
    ctx.count('aligned', len(out))


def decode(ctx):
    r = ctx.rng
    N, T, C = r.choice([1, 2, 3]), r.choice([1, 2, 4, 7]), r.choice([2, 3, 5])
    logp, _ = dense.gen_rows(ctx, N, T, C, style='norm')
    sub = r.choice([1, 1, 4])
    lens = [r.randint(1, T) for _ in range(N)]
    if sub > 1:
        lens = [x + r.randint(0, sub - 1) if x == T else x for x in lens]
    eff = [min(x, T) for x in lens]
    topo = r.random() < .6
    ctx.note(logp=logp.tolist(), lens=lens, topo=topo, sub=sub)
    kw = dict(search_beam=1e6, output_beam=r.choice([8., 50.]), min_active_states=1, max_active_states=100000,
              subsampling_factor=sub)
    lt = torch.tensor(lens, dtype=r.choice([torch.int32, torch.int64]))
    if topo:
        mod = r.random() < .4
        g = k2.ctc_topo(C - 1, modified=mod)
        f = None
    else:
        f = dense.gen_graph(ctx, C, empty=False)
        g = fsam.single_k2(f)
        g.aux_labels = torch.tensor([-1 if a[2] == -1 else r.randint(0, 9) for a in f.arcs], dtype=torch.int32)
        ctx.note(f=f)
    ctx.sig('decode', logp.tolist(), lens, topo, str(f))
    lat = k2.get_lattice(logp, lt, g, **kw)
    double = r.random() < .5
    best = k2.one_best_decoding(lat, double)
    out = fsam.vec_from_k2(best)
    texts = k2.get_aux_labels(best)
    ctx.eq(len(out), N, 'decode-dim', 'utterances')
    segs = [(i, 0, e) for i, e in enumerate(eff)]
    rows = dense.rows_of(logp, segs)
    for j, o in enumerate(out):
        if topo:
            am = logp[j, :eff[j]].argmax(1).tolist()
            ctx.eq([a[2] for a in o.arcs], am + [-1], 'decode-greedy', f'best labels of {j}')
            if not mod:
                ctx.eq(tuple(texts[j]), c16.collapse(am), 'decode-text', f'text of {j}')
            continue
        _, _, w = dense.ab(f, rows[j])
        if w == NINF:
            ctx.eq(o.n, 0, 'decode-none', 'no path')
            continue
        ctx.close(sum(a[3] for a in o.arcs), w, 'decode-best', f'best score of {j}', tol=1e-3)
    ctx.count('decoded', N)


def case(ctx):
    ctx.rng.choice([from_lattice, from_lattice, any_nbest, intersect, rescoring, nbest_list, prune, align, align, decode])(ctx)
