"""C17: CTC loss and MWER loss against their definitions, values and
gradients (differentiated independently in double precision)."""
import torch
import k2
from k2v import fsam, dense
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c03, c11, c16


def total(f, w, rows, extra, keep=None):
    """Log-sum over the paths of len(rows) + 1 frames; w: graph scores, rows:
    (T, C) log-probs, extra[t][i]: penalty. None when there is no path."""
    T = rows.shape[0]
    C = rows.shape[1]
    al = {0: torch.zeros((), dtype=torch.float64)} if f.n else {}
    for t in range(T + 1):
        nxt = {}
        for i, (s, d, l, ws) in enumerate(f.arcs):
            if s not in al or ws == NINF or (l == -1) != (t == T) or l >= C:
                continue
            if keep is not None and (t, i) not in keep:
                continue
            x = al[s] + w[i] + extra[t][i]
            if t < T:
                if rows[t, l].item() == NINF:
                    continue
                x = x + rows[t, l]
            nxt.setdefault(d, []).append(x)
        al = {d: torch.logsumexp(torch.stack(x), 0) if len(x) > 1 else x[0] for d, x in nxt.items()}
    return al.get(f.n - 1)


def graphs(ctx, k, C, segs):
    """(k2 FsaVec, models, aux per FSA, symbols or None)."""
    r = ctx.rng
    kind = r.choice(['ctc', 'ctc', 'ctc-mod', 'compose', 'general', 'general'])
    if kind == 'general':
        fs = [dense.gen_graph(ctx, C) for _ in range(k)]
        if not any(f.arcs for f in fs):
            raise Skip
        g = fsam.vec_to_k2(fs)
        aux = [[-1 if a[2] == -1 else r.choice([0, a[2], 1, 5]) for a in f.arcs] for f in fs]
        g.aux_labels = torch.tensor([x for a in aux for x in a], dtype=torch.int32)
        return g, fs, aux, None, kind
    syms = []
    for n, s, e in segs:
        L = r.choice([0, 1, 1, 2, max(0, (e - s) // 2), e - s, e - s + 1])
        syms.append([r.randrange(1, C) for _ in range(min(L, 6))] if C > 1 else [])
    if kind == 'compose':
        topo = k2.arc_sort(k2.ctc_topo(max(C - 1, 0)))
        g = k2.compose(topo, k2.linear_fsa(syms), treat_epsilons_specially=True)
        g = k2.arc_sort(k2.connect(g))
    else:
        g = k2.ctc_graph(syms, modified=kind == 'ctc-mod')
    fs = fsam.vec_from_k2(g)
    return g, fs, fsam.split(g.aux_labels.tolist(), fs), syms, kind


def ctc(ctx):
    r = ctx.rng
    N, T, C = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 4, 6]), r.choice([1, 2, 3, 3, 5])
    style = r.choice(['norm', 'norm', 'exact', 'flat'])
    logp, _ = dense.gen_rows(ctx, N, T, C, inf=r.random() < .15, style=style)
    seg_t, segs = dense.gen_segments(ctx, N, T)
    k = len(segs)
    g, fs, aux, syms, kind = graphs(ctx, k, C, segs)
    ctx.note(logp=logp.tolist(), segs=segs, kind=kind, syms=syms, fs=fs, aux=aux)
    gs = None
    if kind == 'general' or r.random() < .3:
        gs = torch.tensor([a[3] for f in fs for a in f.arcs])
        gs = torch.where(gs == NINF, gs, gs + torch.tensor([r.randint(-8, 8) / 4 for _ in range(gs.numel())]))
        gs.requires_grad_(True)
        g.scores = gs
        fs = [F(f.n, [(*a[:3], w) for a, w in zip(f.arcs, ws)]) for f, ws in zip(fs, fsam.split(gs.tolist(), fs))]
    delay = r.choice([0.0, 0.0, 0.25, 0.5, 1.0])
    repeat = delay > 0 and r.random() < .4
    rep = None
    if repeat:
        rep = [[r.random() < .4 for _ in f.arcs] for f in fs]
        t = torch.tensor([x for y in rep for x in y], dtype=torch.bool)
        g._is_repeat_token_ = t
    beam = r.choice([1e10, 1e6, 1e4, 10., 3., 1.]) if style in ('exact', 'flat') and gs is None else r.choice([1e10, 1e6, 2000])
    red = r.choice(['none', 'none', 'sum', 'mean'])
    double = r.random() < .6
    leaf = logp.clone().requires_grad_(True)
    d = k2.DenseFsaVec(leaf, seg_t)
    kw = dict(output_beam=beam, delay_penalty=delay, reduction=red, use_double_scores=double)
    tl = None
    if red == 'mean':
        tl = torch.tensor([r.randint(1, 5) for _ in range(k)], dtype=r.choice([torch.int32, torch.int64, torch.float32]))
        kw['target_lengths'] = tl
        tlk = tl.clone()
    if beam == 10. and r.random() < .5:
        del kw['output_beam']
    ctx.note(kw={a: str(b) for a, b in kw.items()}, rep=rep, gs=gs)
    ctx.sig('ctc', str(fs), logp.tolist(), segs, str(kw), rep)
    if r.random() < .5:
        got = k2.ctc_loss(g, d, **kw)
    else:
        m = k2.CtcLoss(output_beam=kw.pop('output_beam', 10.), reduction=kw.pop('reduction'),
                       use_double_scores=kw.pop('use_double_scores'))
        got = m(g, d, **kw)
    ctx.ok(got.dtype == torch.float32, 'dtype', 'loss dtype')
    if tl is not None:
        ctx.ok(torch.equal(tl, tlk), 'inputs', 'target_lengths were modified')
    # the model
    lp = logp.double().requires_grad_(True)
    w = torch.tensor([a[3] for f in fs for a in f.arcs], dtype=torch.float64, requires_grad=True)
    tots, o = [], 0
    allrows = dense.rows_of(logp, segs)
    for j, (f, (n, s, e)) in enumerate(zip(fs, segs)):
        D = e - s
        ext = []
        for t in range(D + 1):
            x = []
            for i, a in enumerate(f.arcs):
                mask = a[2] in (0, -1) or rep[j][i] if repeat else aux[j][i] in (0, -1)
                x.append(0.0 if mask or delay == 0 else -delay * (t - D // 2))
            ext.append(x)
        keep = None
        if beam < 1e4:
            kept, maybe, _ = dense.product(f, allrows[j], beam, tol=1e-3)
            if maybe:
                raise Skip
            keep = kept
        tots.append(total(f, w[o:o + len(f.arcs)], lp[n, s:e], ext, keep))
        o += len(f.arcs)
    losses = [float('inf') if t is None else -t.item() for t in tots]
    sc = 1 + max([abs(x) for x in losses if abs(x) != float('inf')] + [0]) + c11.scale(fs)
    tol = 1e-5 * sc * (1 if double else 4) + 1e-5
    div = [1.0] * k if tl is None else [x * k for x in tl.tolist()]
    want = [x / y for x, y in zip(losses, div)]
    if red == 'none':
        ctx.closes(got.tolist(), want, 'ctc-loss', 'loss per utterance', tol=tol, rel=1e-6)
    else:
        ctx.ok(got.dim() == 0, 'ctc-scalar', 'reduction gives a scalar')
        ctx.close(got.item(), sum(want), 'ctc-loss', f'{red} of {want}', tol=tol * k, rel=1e-6)
    ctx.count('infeasible', sum(t is None for t in tots))
    if syms is not None and kind != 'ctc-mod' and delay == 0 and beam >= 1e4 and gs is None and style == 'norm' and C > 1:
        for j, (n, s, e) in enumerate(segs):
            if tots[j] is None:
                continue
            x = torch.nn.functional.ctc_loss(
                logp[n, s:e].double().unsqueeze(1), torch.tensor([syms[j]]), torch.tensor([e - s]),
                torch.tensor([len(syms[j])]), blank=0, reduction='none') if e > s else None
            if x is not None and NINF not in logp[n, s:e].flatten().tolist():
                ctx.close(losses[j], x.item(), 'torch-ctc', f'PyTorch CTC loss of utterance {j}', tol=1e-6)
    # gradients
    if all(t is None for t in tots):
        return
    if red == 'none':
        up, dup, _ = c03.grad_like(ctx, (k,), torch.float32)
        got.backward(up)
        coef = dup.tolist()
    else:
        got.backward()
        coef = [1 / y for y in div]
    obj = sum(-c * t for c, t in zip(coef, tots) if t is not None)
    if obj.requires_grad:
        obj.backward()
    for x in (lp, w):
        if x.grad is None:
            x.grad = torch.zeros_like(x)
    gt = 3e-4 * (1 + max(abs(c) for c in coef)) if not double else 1e-4 * (1 + max(abs(c) for c in coef))
    want = lp.grad
    ctx.closes(leaf.grad.flatten().tolist(), want.flatten().tolist(), 'ctc-grad', 'gradient of log_probs', tol=gt, rel=1e-4)
    if gs is not None:
        ctx.closes(gs.grad.tolist(), w.grad.tolist(), 'ctc-graph-grad', 'gradient of graph scores', tol=gt, rel=1e-4)
    ctx.count('ctc-grad')


def distance(a, b):
    return c16.edit(a, b, 1, 1)


def lattice(ctx, kmax=4, aux=None):
    """Random acyclic batch with word labels: (k2 FSA, models, words per arc)."""
    r = ctx.rng
    fs, style = c11.gen_vec(ctx, inf=False, kmax=kmax, max_n=6, float_scores=r.random() < .6)
    if style == 'big':
        fs = [F(f.n, [(*a[:3], a[3] / 256) for a in f.arcs]) for f in fs]
    if not any(f.arcs for f in fs):
        raise Skip
    v = fsam.vec_to_k2(fs)
    aux = aux or r.choice(['tensor', 'tensor', 'ragged'])
    V = r.choice([1, 2, 4])
    words = []
    for f in fs:
        ws = []
        for a in f.arcs:
            x = [r.randint(1, V) for _ in range(r.choice([0, 1, 1]) if aux == 'tensor' else r.choice([0, 0, 1, 1, 2]))]
            ws.append(x if a[2] != -1 or aux == 'ragged' else [])
        words.append(ws)
    flat = [(a, x) for f, ws in zip(fs, words) for a, x in zip(f.arcs, ws)]
    if aux == 'tensor':
        v.aux_labels = torch.tensor([-1 if a[2] == -1 else (x[0] if x else 0) for a, x in flat], dtype=torch.int32)
    else:
        v.aux_labels = k2.RaggedTensor([x + [-1] if a[2] == -1 else (x or r.choice([[], [0]])) for a, x in flat],
                                       dtype=torch.int32)
    ctx.note(fs=fs, words=words, aux=aux)
    return v, fs, words, aux


def mwer(ctx):
    r = ctx.rng
    v, fs, words, aux = lattice(ctx)
    refs = [[r.randint(1, 4) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))] for _ in fs]
    arg = refs if r.random() < .5 else k2.RaggedTensor(refs, dtype=torch.int32)
    scale = r.choice([.1, .5, 1.0])
    P = r.choice([1, 2, 5, 20, 60])
    temp = r.choice([1.0, .5, 2.0])
    red = r.choice(['none', 'sum', 'mean'])
    double = r.random() < .7
    ctx.note(refs=refs, scale=scale, P=P, temp=temp, red=red, double=double)
    ctx.sig('mwer', str(fs), words, refs, scale, P, temp, red)
    p = torch.tensor([a[3] for f in fs for a in f.arcs], requires_grad=True)
    v.scores = p
    keep = repr(fsam.vec_from_k2(v)), str(v.aux_labels.tolist())
    nb = k2.Nbest.from_lattice(v, P, use_double_scores=double, nbest_scale=scale)
    kept = nb.kept_path.tolist()
    uttrow = nb.shape.row_ids(1).tolist()
    if len(kept) == 0:
        raise Skip
    if r.random() < .5:
        loss = k2.mwer_loss(v, arg, nbest_scale=scale, num_paths=P, temperature=temp, use_double_scores=double, reduction=red)
    else:
        loss = k2.MWERLoss(temp, double, red)(v, arg, scale, P)
    ctx.eq((repr(fsam.vec_from_k2(v)), str(v.aux_labels.tolist())), keep, 'inputs', 'the lattice was modified')
    ctx.ok(v.scores is p, 'inputs', 'scores of the lattice were replaced')
    # model
    w = torch.tensor([a[3] for f in fs for a in f.arcs], dtype=torch.float64, requires_grad=True)
    allw = [x for ws in words for x in ws]
    logp = [sum(w[i] for i in path) / temp for path in kept]
    err = [distance(refs[u], [x for i in path for x in allw[i]]) for u, path in zip(uttrow, kept)]
    terms = []
    for u in range(len(fs)):
        idx = [i for i, x in enumerate(uttrow) if x == u]
        if idx:
            q = torch.softmax(torch.stack([logp[i] for i in idx]), 0)
            terms += [q[j] * err[i] for j, i in enumerate(idx)]
    ctx.note(kept=kept, utt=uttrow, err=err)
    tot = sum(terms)
    if red == 'none':
        ctx.ok(isinstance(loss, k2.RaggedTensor), 'mwer', 'type')
        ctx.closes(loss.values.tolist(), [x.item() for x in terms], 'mwer', 'loss per path', tol=1e-4)
        ctx.eq(loss.shape.row_splits(1).tolist(), nb.shape.row_splits(1).tolist(), 'mwer-shape', 'paths per utterance')
        s = loss.sum()
        up, dup, _ = c03.grad_like(ctx, (len(fs),), torch.float32)
        s.backward(up)
        sum(dup[u].item() * x for u, x in zip(uttrow, terms)).backward()
        k = dup.abs().max().item()
    else:
        m = tot if red == 'sum' else tot / len(terms)
        ctx.close(loss.item(), m.item(), 'mwer', f'{red}', tol=1e-4)
        loss.backward()
        m.backward()
        k = 1
    ctx.closes(p.grad.tolist(), w.grad.tolist(), 'mwer-grad', 'gradient of lattice scores', tol=2e-4 * (1 + k) * (1 + max(err)))
    ctx.count('mwer')


def case(ctx):
    (ctc if ctx.rng.random() < .65 else mwer)(ctx)
