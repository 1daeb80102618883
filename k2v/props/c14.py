"""C14: intersect_dense and DenseFsaVec against an explicit frame-by-frame
product of graph and score matrix."""
import torch
import k2
from k2v import fsam, dense
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c03, c08


def dense_case(ctx):
    """DenseFsaVec holds exactly the requested segments."""
    r = ctx.rng
    N, T, C = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 6])
    logp, _ = dense.gen_rows(ctx, N, T, C, inf=True)
    trunc = r.choice([0, 0, 1, 3])
    seg_t, segs = dense.gen_segments(ctx, N, T, sort=r.random() < .5, trunc=trunc)
    lay = r.randrange(4)
    if lay == 1:
        logp = logp.transpose(0, 1).contiguous().transpose(0, 1)
    elif lay == 2:
        logp = torch.cat([torch.full((N, T, 1), 99.), logp, logp], 2)[:, :, 1:C + 1]
    elif lay == 3:
        seg_t = torch.cat([seg_t, seg_t], 1)[:, :3]
    ctx.note(logp=logp.tolist(), segs=seg_t.tolist(), trunc=trunc, layout=lay)
    ctx.sig('dense', logp.tolist(), seg_t.tolist(), trunc, lay)
    leaf = logp.clone().requires_grad_(True)
    use = leaf if lay == 0 else leaf.as_strided(leaf.shape, leaf.stride()) if False else leaf
    keep, segk = leaf.detach().clone(), seg_t.clone()
    d = k2.DenseFsaVec(use if lay == 0 else (use * 1.0 if lay == 3 else use.transpose(0, 1).clone().transpose(0, 1)), seg_t,
                       allow_truncate=trunc) if r.random() < .9 or trunc else k2.DenseFsaVec(leaf, seg_t)
    ctx.ok(torch.equal(leaf, keep) and torch.equal(seg_t, segk), 'inputs', 'arguments were modified')
    rows = dense.rows_of(logp, segs)
    flat = [x for rs in rows for x in rs]
    ctx.eq(d.scores.tolist(), flat, 'dense-scores', 'score rows')
    ctx.eq(d.dim0(), len(segs), 'dense-dim0', 'segments')
    ctx.eq(d.duration.tolist(), [e - s for _, s, e in segs], 'dense-duration', 'durations')
    rs = [0]
    for x in rows:
        rs.append(rs[-1] + len(x))
    ctx.eq(d.dense_fsa_vec.shape().row_splits(1).tolist(), rs, 'dense-rows', 'row splits')
    ctx.eq(d.dense_fsa_vec.scores_dim1(), C + 1, 'dense-cols', 'columns')
    ctx.ok(d.is_cpu() and not d.is_cuda() and d.device.type == 'cpu' and d.to('cpu') is d and
           d.to(torch.device('cpu')) is d, 'dense-device', 'device')
    ctx.ok('row_splits1' in str(d), 'dense-str', 'str()')
    # a _k2 round trip keeps durations
    e = k2.DenseFsaVec._from_dense_fsa_vec(d.dense_fsa_vec, d.scores)
    ctx.eq(e.duration.tolist(), d.duration.tolist(), 'dense-duration', 'recomputed durations')
    # the FSA it stands for
    fsa = k2.convert_dense_to_fsa_vec(d)
    got = fsam.vec_from_k2(fsa)
    ctx.eq(len(got), len(rows), 'convert-dim', 'FSAs')
    for f, rr in zip(got, rows):
        want = []
        for t, row in enumerate(rr):
            for c, w in enumerate(row):
                last = t == len(rr) - 1
                if last != (c == 0):
                    continue
                want.append((t, t + 1, c - 1, w))
        ctx.eq(f.n, len(rr) + 1, 'convert-states', 'states')
        ctx.eq(sorted(a for a in f.arcs if a[3] != NINF), sorted(a for a in want if a[3] != NINF), 'convert-arcs',
               'arcs with a finite score')
    # gradient of the scores
    g, dg, kind = c03.grad_like(ctx, tuple(d.scores.shape), torch.float32)
    d.scores.backward(g)
    w = torch.zeros_like(leaf)
    k = 0
    for n, s, e in segs:
        for t in range(s, e):
            w[n, t] += dg[k, 1:]
            k += 1
        k += 1
    ctx.closes(leaf.grad.reshape(-1).tolist(), w.reshape(-1).tolist(), 'dense-grad', 'gradient of log_probs', tol=1e-4)
    # documented limits
    bad = r.randrange(4)
    s = seg_t.clone()
    i = r.randrange(len(segs))
    if bad == 0:
        s[i, 0] = N + r.randrange(2)
    elif bad == 1:
        s[i, 0] = -1
    elif bad == 2:
        s[i, 1] = T
    else:
        s[i, 2] = T - s[i, 1] + trunc + 1
    ctx.raises(lambda: k2.DenseFsaVec(logp, s, allow_truncate=trunc), 'dense-refused', f'segment {s.tolist()}')
    ctx.count('dense')


def case(ctx):
    r = ctx.rng
    if r.random() < .2:
        return dense_case(ctx)
    if r.random() < .004:
        return big(ctx)
    N, T, C = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 4, 6]), r.choice([1, 2, 3, 5])
    logp, style = dense.gen_rows(ctx, N, T, C, inf=r.random() < .3)
    exact = style != 'norm'
    trunc = r.choice([0, 0, 0, 2])
    seg_t, segs = dense.gen_segments(ctx, N, T, trunc=trunc)
    nb = len(segs)
    mode = r.choice(['none', 'none', 'map', 'map', 'single'])
    if mode == 'single':
        seg_t, segs, nb = seg_t[:1], segs[:1], 1
        amap = [0]
    elif mode == 'map':
        amap = sorted(r.randrange(nb) for _ in range(r.choice([1, nb, nb, nb + 2])))
    else:
        amap = list(range(nb))
    fs = [dense.gen_graph(ctx, C, out_of_range=True, empty=mode != 'single') for _ in amap]
    if not sum(len(f.arcs) for f in fs):
        raise Skip
    rows = dense.rows_of(logp, segs)
    beam = r.choice([0.5, 2, 4, 8, 20, 100]) + 1 / 16.
    leaf = logp.clone().requires_grad_(r.random() < .8)
    d = k2.DenseFsaVec(leaf, seg_t, allow_truncate=trunc)
    vec = mode != 'single'
    att = c08.mk(ctx, fs=fs, vec=vec, grad=r.random() < .8)
    att.fill.clear()
    for k in list(att.fsa.__dict__):
        pass
    kw = {}
    ms = r.random()
    limit = None
    if ms < .1 and not exact:
        # roundoff may make the limit unreachable: an answer or an exception,
        # not an endless loop
        kw['max_states' if r.random() < .5 else 'max_arcs'] = r.choice([1, 2, 4, 8])
        ctx.note(logp=logp.tolist(), segs=segs, amap=amap, beam=beam, kw=str(kw))
        ctx.sig('roundoff', str(fs), logp.tolist(), segs, str(kw))
        try:
            k2.intersect_dense(att.fsa, d, beam, a_to_b_map=torch.tensor(amap, dtype=torch.int32), **kw)
        except (RuntimeError, ValueError):
            pass
        ctx.count('roundoff')
        return
    if not exact:
        pass
    elif ms < .1:
        limit = kw['max_states'] = r.choice([1, 2, 4, 8, 20, 60])
    elif ms < .2:
        limit = kw['max_arcs'] = r.choice([1, 2, 4, 8, 20, 60])
    if mode == 'map' or r.random() < .2:
        kw['a_to_b_map'] = torch.tensor(amap, dtype=torch.int32)
    names = r.randrange(4)
    kw['frame_idx_name'] = 'frame'
    if names:
        kw['seqframe_idx_name'] = 'sf'
    ctx.note(logp=logp.tolist(), segs=segs, amap=amap, beam=beam, mode=mode, kw=str(kw))
    ctx.sig(str(fs), logp.tolist(), segs, amap, beam, str(kw))
    before = fsam.any_from_k2(att.fsa)
    if r.random() < .05:
        m = list(amap)
        if r.random() < .5:
            m[-1] = nb + r.randrange(2)
        else:
            m[0] = -1
        ctx.raises(lambda: k2.intersect_dense(att.fsa, d, beam, a_to_b_map=torch.tensor(m, dtype=torch.int32)),
                   'map-refused', f'a_to_b_map {m}')
        if vec:
            w = fsam.vec_to_k2(fs + fs[:1]) if r.random() < .5 or len(fs) < 2 else fsam.vec_to_k2(fs[:-1])
            if w.shape[0] != nb:
                ctx.raises(lambda: k2.intersect_dense(w, d, beam), 'dim-refused', f'{w.shape[0]} graphs for {nb} segments')
    try:
        out = k2.intersect_dense(att.fsa, d, beam, **kw)
    except RuntimeError:
        # allowed only when the limit needs pruning (it may be unreachable)
        if limit is None:
            raise
        tot = 0
        for f, b in zip(fs, amap):
            kept, _, best = dense.product(f, rows[b], beam)
            st = {(t, f.arcs[i][0]) for t, i in kept}
            if 'max_states' in kw:
                tot += len(st) + bool(st)
            else:
                lv = f.leaving()
                tot += sum(len(lv[s]) for _, s in st)
        ctx.ok(tot > limit, 'limit', f'limit {limit} refused for {tot} states or arcs')
        ctx.count('limit-refused')
        return
    ctx.eq(repr(fsam.any_from_k2(att.fsa)), repr(before), 'input', 'graph was modified')
    fsam.check_valid(ctx, out)
    got = fsam.vec_from_k2(out)
    ctx.eq(len(got), len(fs), 'count', 'output FSAs')
    uid = [u - 1 for u in out.uid.tolist()]
    fr = out.frame.tolist()
    tol = 0.0 if exact else 1e-4
    base = 0
    o = 0
    rs = d.dense_fsa_vec.shape().row_splits(1).tolist()
    srcs, locs = [], []
    for i, (f, b, lat) in enumerate(zip(fs, amap, got)):
        n = len(lat.arcs)
        ids = [u - base for u in uid[o:o + n]]
        frames = fr[o:o + n]
        kept, maybe, best = dense.product(f, rows[b], beam, tol=tol * 3)
        seen = dense.check_lattice(ctx, f, rows[b], lat, ids, frames, kept, maybe, tol, subset=limit is not None)
        if limit is None:
            if not kept and not maybe:
                ctx.ok(not lat.arcs, 'empty', 'no path, so no arcs')
            # every state is on a path
            acc, co = fsam.accessible(lat), fsam.coaccessible(lat)
            if exact:
                ctx.ok(all(acc) and all(co), 'connected', f'states not on a path: {acc} {co}', lat=lat, f=f)
        ctx.ok(fsam.is_top_sorted(lat), 'top-sorted', 'result is not top-sorted', lat=lat)
        if names:
            ctx.eq(out.sf[o:o + n].tolist(), [rs[b] + t for t in frames], 'seqframe', 'seqframe index')
        srcs += uid[o:o + n]
        locs += [(b, t, f.arcs[j][2]) for j, t in zip(ids, frames)]
        o += n
        base += len(f.arcs)
        ctx.count('paths-exist', best > NINF)
    if limit is not None:
        tot = sum(f.n for f in got) if 'max_states' in kw else sum(len(f.arcs) for f in got)
        ctx.ok(tot <= limit, 'limit', f'{tot} exceeds the limit of {limit}')
        ctx.count('limited')
    ctx.eq(len(uid), o, 'count', 'arcs')
    c08.check_tensor(ctx, att, out, srcs, fillers=False, exact_scores=False)
    # gradients
    if not len(uid):
        return
    req = att.scores.requires_grad or leaf.requires_grad
    ctx.ok(out.scores.requires_grad == req, 'requires-grad', f'{out.scores.requires_grad} for {req}')
    if not req:
        return
    g, dg, kind = c03.grad_like(ctx, (len(uid),), torch.float32)
    gl = dg.tolist()
    ctx.note(grad=gl, layout=kind)
    out.scores.backward(g)
    if att.scores.requires_grad:
        w = [0.0] * att.n
        for s, x in zip(srcs, gl):
            w[s] += x
        ctx.closes(att.scores.grad.tolist(), w, 'grad-graph', 'gradient of graph scores', tol=1e-3)
    if leaf.requires_grad:
        w = torch.zeros_like(logp, dtype=torch.float64)
        for (b, t, l), x in zip(locs, gl):
            n, s, e = segs[b]
            if l >= 0 and s + t < e:
                w[n, s + t, l] += x
        ctx.closes(leaf.grad.reshape(-1).tolist(), w.reshape(-1).tolist(), 'grad-dense', 'gradient of log_probs', tol=1e-3)


def big(ctx):
    """State, label or frame numbers above 65535: the answer is right or the
    call is refused."""
    r = ctx.rng
    what = r.choice(['states', 'labels', 'frames', 'fsas'])
    M = r.choice([65530, 65535, 65536, 65537, 66000])
    ctx.note(what=what, M=M)
    ctx.sig('big', what, M)
    T, C, n = 2, 3, 4
    nf = 1
    if what == 'states':
        n = M
        f = F(n, [(0, n - 2, 1, .5), (0, 5, 2, .25), (n - 3, n - 2, 2, 0.), (n - 2, n - 2, 2, 0.), (n - 2, n - 1, -1, 1.)])
    elif what == 'labels':
        C = M + 1
        f = F(4, [(0, 1, M, .5), (1, 2, 2, .25), (2, 3, -1, 1.)])
    elif what == 'frames':
        T = M
        f = F(2, [(0, 0, 1, 0.), (0, 1, -1, 1.)])
    else:
        nf = M
        f = F(3, [(0, 1, 1, .5), (1, 1, 2, .125), (1, 2, -1, 1.)])
    logp = -torch.randint(0, 4, (1, T, C)).float() / 4
    d = k2.DenseFsaVec(logp, torch.tensor([[0, 0, T]], dtype=torch.int32))
    v = fsam.vec_to_k2([f] * nf)
    try:
        out = k2.intersect_dense(v, d, 1000., a_to_b_map=torch.zeros(nf, dtype=torch.int32))
    except (RuntimeError, ValueError):
        ctx.count('big-refused')
        return
    got = out.get_tot_scores(True, False).tolist()
    if what == 'frames':
        want = logp[0, :, 1].double().sum().item() + 1
    elif what == 'labels':
        want = 1.75 + (logp[0, 0, M] + logp[0, 1, 2]).item()
    elif what == 'states':
        want = 1.5 + (logp[0, 0, 1] + logp[0, 1, 2]).item()
    else:
        want = 1.625 + (logp[0, 0, 1] + logp[0, 1, 2]).item()
    ctx.closes(got, [want] * nf, 'big-score', what)
    ctx.count('big-ok')
