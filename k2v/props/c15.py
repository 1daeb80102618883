"""C15: intersect_dense_pruned and OnlineDenseIntersecter against an explicit
frame-by-frame product of graph and score matrix, and against a plain beam
search for the guarantees that survive pruning."""
import torch
import k2
from k2v import fsam, dense
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c03, c08

HUGE = 1e4


def layers(f, rows, allow_partial):
    """Per frame the product arcs (graph arc, src, dst, label, score); whether
    the last frame was replaced by partial-result arcs; its active states."""
    C1 = len(rows[0])
    T = len(rows)
    out = []
    act = {0} if f.n else set()
    for t in range(T):
        lay = [(i, a[0], a[1], a[2], a[3] + rows[t][a[2] + 1]) for i, a in enumerate(f.arcs)
               if a[2] + 1 < C1 and a[3] + rows[t][a[2] + 1] > NINF]
        part = False
        if t == T - 1 and allow_partial and not any(a[0] in act and a[2] == -1 for a in f.arcs):
            lay = [(i, a[0], f.n - 1, -1, a[3]) for i, a in enumerate(f.arcs) if a[3] > NINF]
            part = True
        out.append(lay)
        act = {a[2] for a in lay if a[1] in act}
    return out, part


def alphas(f, lay):
    T = len(lay)
    al = [[NINF] * f.n for _ in range(T + 1)]
    be = [[NINF] * f.n for _ in range(T + 1)]
    if f.n:
        al[0][0] = 0.0
        be[T][f.n - 1] = 0.0
    for t in range(T):
        for _, s, d, _, w in lay[t]:
            al[t + 1][d] = max(al[t + 1][d], al[t][s] + w)
    for t in range(T - 1, -1, -1):
        for _, s, d, _, w in lay[t]:
            be[t][s] = max(be[t][s], be[t + 1][d] + w)
    return al, be, (al[T][f.n - 1] if f.n else NINF)


def within(f, lay, beam, tol):
    """(kept, maybe, best) of the layered product: {(t, arc): score}."""
    al, be, best = alphas(f, lay)
    kept, maybe = {}, {}
    if best > NINF:
        for t, l in enumerate(lay):
            for i, s, d, _, w in l:
                x = al[t][s] + w + be[t + 1][d]
                if x >= best - beam + tol:
                    kept[t, i] = w
                elif x >= best - beam - tol:
                    maybe[t, i] = w
    return kept, maybe, best


def beam_search(f, lay, beam):
    """Plain search: per frame the states reached by an arc whose end score is
    within `beam` of the frame's best (the last frame is not pruned)."""
    al = {0: 0.0} if f.n else {}
    out = []
    for t, l in enumerate(lay):
        ends = [(al[a[1]] + a[4], a[2]) for a in l if a[1] in al]
        best = max((e for e, _ in ends), default=NINF)
        alive = {d for e, d in ends if e > best - beam or t == len(lay) - 1}
        nxt = {}
        for e, d in ends:
            if d in alive:
                nxt[d] = max(nxt.get(d, NINF), e)
        out.append(alive)
        al = nxt
    return out


def promised(f, lay, beam):
    """The layers of the paths that no search with at least this beam can
    lose: at every frame within `beam` of the best of the whole product."""
    full, _, _ = alphas(f, lay)
    al = {0: 0.0} if f.n else {}
    out = []
    for t, l in enumerate(lay):
        best = max(full[t + 1], default=NINF)
        keep = [a for a in l if a[1] in al and (al[a[1]] + a[4] > best - beam or t == len(lay) - 1)]
        out.append(keep)
        al2 = {}
        for a in keep:
            al2[a[2]] = max(al2.get(a[2], NINF), al[a[1]] + a[4])
        al = al2
    return out


def read_lattice(ctx, f, rows, lat, frames, ids, lay, part, tol, key='lat'):
    """Every arc is a genuine product arc with its exact score; states stand
    for (frame, graph state). Returns {(t, graph arc): lattice arc}."""
    seen, smap, inv = {}, {}, {}
    T = len(rows)
    by = [{a[0]: a for a in l} for l in lay]

    def tie(k, s):
        if smap.setdefault(k, s) != s or inv.setdefault(s, k) != k:
            ctx.fail(key + '-states', f'state {s} stands for {k} and {inv.get(s)}; {k} is {smap[k]}', f=f, rows=rows,
                     lat=lat)
    todo = []
    for j, a in enumerate(lat.arcs):
        t, i = frames[j], ids[j]
        if i < 0:
            ctx.ok(part and t == T - 1 and a[2] == -1, key + '-partial', f'arc {j} {a} at frame {t} of {T} has no graph arc',
                   f=f, rows=rows, lat=lat)
            todo.append(j)
            continue
        g = by[t].get(i) if 0 <= t < T else None
        ctx.ok(g is not None, key + '-genuine', f'arc {j} {a}: graph arc {i} cannot be taken at frame {t}', f=f, rows=rows,
               lat=lat)
        ctx.ok((t, i) not in seen, key + '-duplicate', f'graph arc {i} at frame {t} appears twice', f=f, lat=lat)
        seen[t, i] = j
        ctx.eq(a[2], g[3], key + '-label', f'label of arc {j}')
        ctx.close(a[3], g[4], key + '-score', f'score of arc {j} (graph arc {i} frame {t})', tol=tol, rel=1e-6, f=f,
                  rows=rows, lat=lat)
        tie((t, g[1]), a[0])
        tie((t + 1, g[2]), a[1])
    for j in todo:
        a = lat.arcs[j]
        if T == 1:
            tie((0, 0), a[0])
        ctx.ok(a[0] in inv, key + '-partial', f'source of partial arc {j} is unknown', lat=lat)
        t, s = inv[a[0]]
        ctx.eq(t, T - 1, key + '-partial', 'frame of a partial arc')
        m = [x[0] for x in lay[t] if x[1] == s and abs(x[4] - a[3]) <= tol + 1e-6 * abs(a[3]) and (t, x[0]) not in seen]
        ctx.ok(m, key + '-partial', f'partial arc {a} has no graph arc with this score leaving {s}', f=f, lat=lat)
        seen[t, m[0]] = j
        tie((T, f.n - 1), a[1])
    if lat.arcs:
        ctx.eq(inv.get(0), (0, 0), key + '-start', 'state 0', lat=lat)
        ctx.ok(inv.get(lat.n - 1) in ((T, f.n - 1), None), key + '-final', 'final state', lat=lat)
    else:
        ctx.eq(lat.n, 2 if f.n else 0, key + '-empty', 'states of an empty lattice')
    ctx.count('lattice-arcs', len(lat.arcs))
    return seen


def compare(ctx, f, seen, kept, maybe, key, subset=False, superset=False, **kw):
    extra = [k for k in seen if k not in kept and k not in maybe]
    miss = [k for k in kept if k not in seen]
    if not superset:
        ctx.ok(not extra, key + '-pruned', f'arcs outside the output beam or on no path were kept: {extra[:5]}', f=f, **kw)
    if not subset:
        ctx.ok(not miss, key + '-lost', f'arcs within the beams were lost: {miss[:5]}', f=f, **kw)


def pick_partial(ctx, f, rows):
    return layers(f, rows, True)


def pruned(ctx, exact):
    r = ctx.rng
    N, C = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 5])
    long = r.random() < .12
    T = r.choice([25, 31, 45, 52, 70]) if long else r.choice([1, 2, 3, 4, 6, 8, 12])
    logp, style = dense.gen_rows(ctx, N, T, C, inf=r.random() < .2)
    ex = style != 'norm'
    tol = 1e-3 if ex else 2e-3 * (1 + T / 10)
    seg_t, segs = dense.gen_segments(ctx, N, T, sort=r.random() < .5)
    nb = len(segs)
    shared = r.random() < .4
    fs = [dense.gen_graph(ctx, C, out_of_range=True) for _ in range(1 if shared else nb)]
    if not sum(len(f.arcs) for f in fs):
        raise Skip
    if r.random() < .3:
        fs = [F(f.n, r.sample(f.arcs, len(f.arcs))) if False else f for f in fs]
    rows = dense.rows_of(logp, segs)
    obeam = r.choice([.5, 2, 4, 8, 20, 100, HUGE]) + 1 / 16.
    sbeam = HUGE if exact else r.choice([.5, 1, 2, 4, 8, 20]) + 1 / 16.
    partial = r.random() < .4
    mn = r.choice([0, 0, 0, 1, 3, 30])
    mx = r.choice([1 << 10, 10000, 10 ** 6, 2 ** 29, 2 ** 31 - 1])
    if mn >= mx:
        mn = 0
    bound = not exact and r.random() < .3
    if bound:
        mx = mn + r.choice([1, 1, 2, 4])
    leaf = logp.clone().requires_grad_(r.random() < .6)
    d = k2.DenseFsaVec(leaf, seg_t)
    att = c08.mk(ctx, fs=fs, vec=True, grad=r.random() < .6)
    names = r.randrange(4)
    kw = dict(frame_idx_name='frame')
    if names:
        kw['seqframe_idx_name'] = 'sf'
    ctx.note(logp=logp.tolist(), segs=segs, shared=shared, beams=(sbeam, obeam, mn, mx), partial=partial, exact=exact)
    ctx.sig(str(fs), logp.tolist(), segs, sbeam, obeam, mn, mx, partial)
    before = fsam.any_from_k2(att.fsa)
    out = k2.intersect_dense_pruned(att.fsa, d, sbeam, obeam, mn, mx, allow_partial=partial, **kw)
    ctx.eq(repr(fsam.any_from_k2(att.fsa)), repr(before), 'input', 'graph was modified')
    fsam.check_valid(ctx, out)
    got = fsam.vec_from_k2(out)
    ctx.eq(len(got), nb, 'count', 'output FSAs')
    uid, fr = [u - 1 for u in out.uid.tolist()], out.frame.tolist()
    rs = d.dense_fsa_vec.shape().row_splits(1).tolist()
    o = 0
    base = 0
    srcs, locs = [], []
    for k, lat in enumerate(got):
        f = fs[0] if shared else fs[k]
        n = len(lat.arcs)
        ids = [u - base if u >= 0 else -1 for u in uid[o:o + n]]
        frames = fr[o:o + n]
        lay, part = layers(f, rows[k], partial)
        if partial and not exact and n and -1 in ids and not part:
            # pruning removed the states from which a final arc leaves
            lay = lay[:-1] + [[(i, a[0], f.n - 1, -1, a[3]) for i, a in enumerate(f.arcs) if a[3] > NINF]]
            part = True
        seen = read_lattice(ctx, f, rows[k], lat, frames, ids, lay, part, tol)
        ctx.ok(fsam.is_top_sorted(lat), 'top-sorted', 'result is not top-sorted', lat=lat)
        R = len(rows[k])
        small = R <= 20
        if exact:
            kept, maybe, best = within(f, lay, obeam, tol)
            compare(ctx, f, seen, kept, maybe, 'exact', superset=not small, lat=lat, rows=rows[k])
            ctx.count('exact' if small else 'exact-long')
            ctx.count('partial-used', part and bool(n))
            if small and ex and n:
                ctx.ok(all(fsam.accessible(lat)) and all(fsam.coaccessible(lat)), 'connected', 'a state is on no path',
                       lat=lat, f=f)
        else:
            # relative to the best path found
            own = [[(i, *x[1:]) for x in l for i in [x[0]] if (t, x[0]) in seen] for t, l in enumerate(lay)]
            al, be, best = alphas(f, own)
            for (t, i) in seen:
                x = next(y for y in own[t] if y[0] == i)
                v = al[t][x[1]] + x[4] + be[t + 1][x[2]]
                if small or t >= R - 10:
                    ctx.ok(v >= best - obeam - tol, 'output-beam', f'arc {i} at frame {t}: best path {v}, lattice best '
                           f'{best}, output beam {obeam}', f=f, rows=rows[k], lat=lat)
            if not bound and not part:
                sub = promised(f, lay, sbeam - tol)
                kk, mm, b2 = within(f, sub, obeam + b2_gap(f, sub, best), tol)
                ctx.ok(best >= b2 - tol, 'search-best', f'best path found {best}; {b2} is within the beam on every frame',
                       f=f, rows=rows[k], lat=lat)
                if b2 > NINF:
                    compare(ctx, f, seen, kk, mm, 'search', superset=True, lat=lat, rows=rows[k])
                if mn == 0 and ex:
                    alive = beam_search(f, lay, sbeam)
                    for t, i in seen:
                        if t + 6 < R:
                            ctx.ok(lay_arc(lay, t, i)[2] in alive[t], 'search-beam',
                                   f'graph state {lay_arc(lay, t, i)[2]} at frame {t + 1} is outside the search beam',
                                   f=f, rows=rows[k], lat=lat)
            ctx.count('pruned-bound' if bound else 'pruned')
        if names:
            ctx.eq(out.sf[o:o + n].tolist(), [rs[k] + t for t in frames], 'seqframe', 'seqframe index')
        srcs += uid[o:o + n]
        locs += [(k, t, f.arcs[i][2] if i >= 0 else -1) for i, t in zip(ids, frames)]
        o += n
        if not shared:
            base += len(f.arcs)
        ctx.count('paths-exist', bool(n))
    c08.check_tensor(ctx, att, out, srcs, fillers=False, exact_scores=False)
    grads(ctx, out, att, leaf, logp, segs, srcs, locs)


def b2_gap(f, sub, best):
    """The promised output beam shrinks by how much the best path found beats
    the best of the plain search."""
    _, _, b = alphas(f, sub)
    return b - best if b > NINF and best > NINF else 0.0


def lay_arc(lay, t, i):
    return next(a for a in lay[t] if a[0] == i)


def grads(ctx, out, att, leaf, logp, segs, srcs, locs):
    if not srcs:
        return
    req = att.scores.requires_grad or leaf.requires_grad
    ctx.ok(out.scores.requires_grad == req, 'requires-grad', f'{out.scores.requires_grad} for {req}')
    if not req:
        return
    g, dg, kind = c03.grad_like(ctx, (len(srcs),), torch.float32)
    gl = dg.tolist()
    ctx.note(grad=gl, layout=kind)
    out.scores.backward(g)
    if att.scores.requires_grad:
        w = [0.0] * att.n
        for s, x in zip(srcs, gl):
            if s >= 0:
                w[s] += x
        ctx.closes(att.scores.grad.tolist(), w, 'grad-graph', 'gradient of graph scores', tol=1e-3)
    if leaf.requires_grad:
        w = torch.zeros_like(logp, dtype=torch.float64)
        for (b, t, l), x in zip(locs, gl):
            n, s, e = segs[b]
            if l >= 0 and s + t < e:
                w[n, s + t, l] += x
        ctx.closes(leaf.grad.reshape(-1).tolist(), w.reshape(-1).tolist(), 'grad-dense', 'gradient of log_probs', tol=1e-3)


# ---------------------------------------------------------------- online
def trim(lat, ids, uids=None):
    """Frame of every accessible, coaccessible arc; indexes of those arcs."""
    acc, co = fsam.accessible(lat), fsam.coaccessible(lat)
    idx = [j for j, a in enumerate(lat.arcs) if acc[a[0]] and co[a[1]]]
    depth = {0: 0}
    for j in sorted(idx, key=lambda j: lat.arcs[j][0]):
        a = lat.arcs[j]
        if a[0] in depth:
            depth.setdefault(a[1], depth[a[0]] + 1)
    return idx, [depth[lat.arcs[j][0]] for j in idx]


def sub_lattice(lat, idx):
    """The lattice with only these arcs (state numbers kept)."""
    return F(lat.n, [lat.arcs[j] for j in idx])


def canon(ctx, f, rows, lat, ids, allow_partial, obeam, tol, key):
    """{(t, graph arc): score} of the paths within obeam of the lattice's
    best."""
    idx, frames = trim(lat, ids)
    lay, part = layers(f, rows, allow_partial)
    li = [ids[j] for j in idx]
    if -1 in li and not part:
        lay = lay[:-1] + [[(i, a[0], f.n - 1, -1, a[3]) for i, a in enumerate(f.arcs) if a[3] > NINF]]
        part = True
    l2 = sub_lattice(lat, idx)
    seen = read_lattice(ctx, f, rows, l2, frames, li, lay, part, tol, key) if idx else {}
    own = [[x for x in l if (t, x[0]) in seen] for t, l in enumerate(lay)]
    kept, maybe, best = within(f, own, obeam, tol)
    return kept, maybe, best, lay


def online(ctx, exact):
    r = ctx.rng
    C = r.choice([1, 2, 3, 5])
    f = dense.gen_graph(ctx, C, out_of_range=True)
    S = r.choice([1, 1, 2, 3])
    U = r.choice([S, S, S + 1, S + 3])
    Tm = r.choice([2, 4, 7, 12, 12, 30]) if r.random() < .9 else 45
    logp, style = dense.gen_rows(ctx, U, Tm, C, inf=r.random() < .15)
    tol = 1e-3 if style != 'norm' else 2e-3 * (1 + Tm / 10)
    lens = [r.randint(1, Tm) for _ in range(U)]
    obeam = r.choice([.5, 2, 4, 8, 20, 100, HUGE]) + 1 / 16.
    sbeam = HUGE if exact else r.choice([1, 2, 4, 8, 20]) + 1 / 16.
    mn, mx = r.choice([0, 0, 1, 3]), r.choice([1000, 10000, 2 ** 31 - 1])
    if not exact and r.random() < .3:
        mx = mn + r.choice([1, 2, 4])
    partial = r.random() < .6
    ragged_end = exact and r.random() < .5
    one = f if r.random() < .5 else None
    att = c08.mk(ctx, fs=[f], vec=True, grad=False)
    make = lambda n: k2.OnlineDenseIntersecter(att.fsa, n, sbeam, obeam, mn, mx, allow_partial=partial)
    ctx.note(f=f, logp=logp.tolist(), lens=lens, beams=(sbeam, obeam, mn, mx), partial=partial, exact=exact, S=S)
    ctx.sig(str(f), logp.tolist(), lens, sbeam, obeam, mn, mx, partial, S)
    it = make(S)
    ctx.eq(it.num_streams, S, 'num-streams', 'streams')
    pos = [0] * U
    states = [None] * U
    done = {}
    log = []
    ever = {}
    while len(ever) < U and len(log) < 25 + Tm:
        # any S streams that have frames left, equal chunk length (shorter for
        # a final chunk when ragged_end); finished streams may start over
        live = [u for u in range(U) if u not in done]
        pick = r.sample(live, min(S, len(live)))
        while len(pick) < S:
            u = r.choice(list(done) or pick) if done else None
            if u is None:
                break
            if u in pick:
                # nobody else to fill the batch with: a fresh copy
                u = next((x for x in done if x not in pick), None)
                if u is None:
                    break
            done.pop(u)
            pos[u], states[u] = 0, None
            pick.append(u)
        if len(pick) < S:
            raise Skip
        r.shuffle(pick)
        left = [lens[u] - pos[u] for u in pick]
        c = r.randint(1, max(left)) if ragged_end and r.random() < .5 else r.randint(1, min(left))
        if r.random() < .3:
            c = 1
        if r.random() < .15:
            c = min(left)
        cl = [min(c, x) for x in left]
        log.append([(u, pos[u], n) for u, n in zip(pick, cl)])
        seg = torch.tensor([[u, pos[u], n] for u, n in zip(pick, cl)], dtype=torch.int32)
        # DenseFsaVec wants no particular order here
        d = k2.DenseFsaVec(logp, seg)
        st = [states[u] if states[u] is not None or r.random() < .5 else k2.DecodeStateInfo() for u in pick]
        ctx.note(step=log[-1])
        out, new = it.decode(d, st)
        ctx.eq(len(new), S, 'states', 'decode states returned')
        fsam.check_valid(ctx, out)
        got = fsam.vec_from_k2(out)
        ctx.eq(len(got), S, 'count', 'lattices')
        uid = [x - 1 for x in out.uid.tolist()]
        c08.check_tensor(ctx, att, out, uid, exact_scores=False)
        o = 0
        for k, u in enumerate(pick):
            ids = uid[o:o + len(got[k].arcs)]
            o += len(got[k].arcs)
            pos[u] += cl[k]
            states[u] = new[k]
            rows = dense.rows_of(logp, [(u, 0, pos[u])])[0]
            kept, maybe, best, lay = canon(ctx, f, rows, got[k], ids, partial, obeam, tol, 'online')
            if exact:
                k2_, m2, b2 = within(f, lay, obeam, tol)
                compare(ctx, f, {**kept, **maybe}, k2_, m2, 'online-exact', rows=rows, lat=got[k])
                ctx.count('online-exact')
            if pos[u] == lens[u]:
                done[u] = ever[u] = (kept, maybe, best)
        ctx.count('decodes')
    # the same utterance at once and alone
    if not exact:
        for u in ever:
            i1 = make(1)
            d = k2.DenseFsaVec(logp, torch.tensor([[u, 0, lens[u]]], dtype=torch.int32))
            out, _ = i1.decode(d, [None])
            ids = [x - 1 for x in out.uid.tolist()]
            rows = dense.rows_of(logp, [(u, 0, lens[u])])[0]
            kept, maybe, best, _ = canon(ctx, f, rows, fsam.vec_from_k2(out)[0], ids, partial, obeam, tol, 'whole')
            k1, m1, b1 = ever[u]
            ctx.ok((best == NINF) == (b1 == NINF), 'chunk-best', f'utterance {u}: best {b1} in chunks, {best} at once')
            if best == NINF:
                continue
            ctx.close(b1, best, 'chunk-best', f'utterance {u} in chunks', tol=tol)
            bad = [x for x in kept if x not in k1 and x not in m1] + [x for x in k1 if x not in kept and x not in maybe]
            ctx.ok(not bad, 'chunk-lattice', f'utterance {u}: (frame, arc) {bad[:5]} only in one of chunked and whole',
                   steps=log)
            ctx.count('chunk-compared')
    else:
        # a lattice of the batch interface with the same, unlimited, beams
        d = k2.DenseFsaVec(logp, torch.tensor([[u, 0, lens[u]] for u in range(U)], dtype=torch.int32))
        out = k2.intersect_dense_pruned(att.fsa, d, sbeam, obeam, mn, mx, allow_partial=partial)
        best = out.get_tot_scores(False, False).tolist()
        ctx.closes([best[u] for u in ever], [ever[u][2] for u in ever], 'batch-best', 'best scores of the batch interface', tol=tol)


def wild(ctx):
    """Scores so large that sums lose precision: an answer or an exception."""
    r = ctx.rng
    C, T = r.choice([1, 2, 3]), r.choice([2, 5, 12, 40])
    sc = r.choice([1e6, 1e7, 1e8, 1e12, 1e30, 3e38])
    logp, _ = dense.gen_rows(ctx, 1, T, C, style='norm')
    logp = logp * sc if r.random() < .5 else torch.randn(1, T, C, generator=torch.Generator().manual_seed(r.randrange(99))) * sc
    if r.random() < .2:
        logp[0, r.randrange(T), r.randrange(C)] = r.choice([float('nan'), float('inf'), NINF])
    f = dense.gen_graph(ctx, C, empty=False)
    ctx.note(f=f, logp=logp.tolist())
    ctx.sig('wild', str(f), logp.tolist())
    d = k2.DenseFsaVec(logp, torch.tensor([[0, 0, T]], dtype=torch.int32))
    g = fsam.vec_to_k2([f])
    try:
        out = k2.intersect_dense_pruned(g, d, r.choice([8., 1e9, 1e20]), r.choice([4., 1e9, 1e20]), 0, 1000,
                                        allow_partial=r.random() < .5)
        for x in fsam.vec_from_k2(out):
            ctx.ok(all(0 <= a[0] < x.n and 0 <= a[1] < x.n for a in x.arcs), 'wild', f'lattice {x}')
    except (RuntimeError, ValueError):
        pass
    ctx.count('wild')


def case(ctx):
    x = ctx.rng.random()
    if x < .3:
        pruned(ctx, True)
    elif x < .6:
        pruned(ctx, False)
    elif x < .8:
        online(ctx, True)
    elif x < .97:
        online(ctx, False)
    else:
        wild(ctx)
