"""C06: union, closure, reverse, invert, replace_fsa against language and
path-relation models."""
import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F, NINF


def eps_cycle(f):
    return not fsam.is_acyclic(f, only=lambda a: a[2] == 0)


def relation(f, aux=None, cap=400):
    """Multiset of (labels, aux labels, score) over the paths of an acyclic
    FSA; aux: list of lists. Labels 0 and -1 are dropped."""
    ps = fsam.paths(f, cap)
    if ps is None:
        raise Skip('too many paths')
    out = []
    for p in ps:
        li = tuple(f.arcs[i][2] for i in p if f.arcs[i][2] not in (0, -1))
        ax = tuple(x for i in p for x in aux[i] if x not in (0, -1)) if aux is not None else ()
        out.append((li, ax, sum(f.arcs[i][3] for i in p)))
    return sorted(out)


def gen_aux(ctx, f, ragged=False):
    r = ctx.rng
    out = []
    for a in f.arcs:
        if ragged:
            x = [r.randint(0, 4) if r.random() < 0.2 else r.randint(1, 9) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if a[2] == -1:
                x = r.choice([[-1], x + [-1], [-1]])
        else:
            x = [-1] if a[2] == -1 else [r.randint(0, 9)]
        out.append(x)
    return out


def attach(ctx, fsa, fs, ragged):
    aux = [x for f in fs for x in gen_aux(ctx, f, ragged)]
    if ragged:
        fsa.aux_labels = k2.RaggedTensor(aux) if aux else k2.RaggedTensor([[1]]).arange(0, 0, 0)
    else:
        fsa.aux_labels = torch.tensor([x[0] for x in aux], dtype=torch.int32)
    return aux


def out_aux(out):
    a = out.aux_labels
    return [[x] for x in a.tolist()] if isinstance(a, torch.Tensor) else a.tolist()


def uid(fsa):
    fsa.uid = torch.arange(1, fsa.num_arcs + 1, dtype=torch.int32)


def unchanged(ctx, fs, fsa):
    ctx.ok([(f.n, f.arcs) for f in fs] == [(f.n, f.arcs) for f in fsam.any_from_k2(fsa)], 'input-unchanged')


def both_langs(ctx, want, got, key, maxlen=4):
    fsam.check_same_lang(ctx, want, got, 'max', key, eps=True, maxlen=maxlen)
    if not eps_cycle(want) and not eps_cycle(got):
        fsam.check_same_lang(ctx, want, got, 'log', key, eps=True, maxlen=maxlen)
        ctx.count('log-langs')


def ids_cover(ctx, out, got, fs, key):
    """Each input arc is the source of exactly one output arc of same score."""
    src = [a for f in fs for a in f.arcs]
    ids = out.uid.tolist()
    ctx.eq(sorted(i for i in ids if i), list(range(1, len(src) + 1)), key, 'arcs of the input in the output')
    for j, i in enumerate(ids):
        if i:
            ctx.ok(got.arcs[j][3] == src[i - 1][3] and
                   (got.arcs[j][2] == src[i - 1][2] or src[i - 1][2] == -1), key,
                   f'arc {got.arcs[j]} from {src[i - 1]}')
        else:
            ctx.ok(got.arcs[j][3] == 0.0 and got.arcs[j][2] in (0, -1), key, f'added arc {got.arcs[j]}')


def op_union(ctx):
    r = ctx.rng
    cyc = r.random() < 0.5
    k = r.randint(1, 5)
    fs = [fsam.gen(r, cyclic=cyc, allow_empty=False, score='neg' if cyc else None,
                   eps=r.choice([0, 0.3]), topo=r.random() < 0.7) for _ in range(k)]
    if r.random() < 0.15:
        fs[r.randrange(k)] = F(r.randint(2, 4), [])
    fsa = fsam.vec_to_k2(fs)
    aux = attach(ctx, fsa, fs, r.random() < 0.3)
    uid(fsa)
    ctx.note(fs=fs, aux=aux)
    out = k2.union(fsa)
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 2, 'union', 'a single FSA')
    g = fsam.from_k2(out)
    # the model: one more start state with epsilon arcs to every member
    base, arcs, n = 1, [], 1 + sum(f.n - 1 for f in fs) + 1
    for f in fs:
        arcs.append((0, base, 0, 0.0))
        arcs += [(s + base, n - 1 if d == f.final else d + base, l, w) for s, d, l, w in f.arcs]
        base += f.n - 1
    want = F(n, sorted(arcs, key=lambda a: a[0]))
    both_langs(ctx, want, g, 'union-lang')
    ids_cover(ctx, out, g, fs, 'union-arcs')
    ax = out_aux(out)
    if not cyc:
        b, w = 0, []
        for f in fs:
            w += relation(f, aux[b:b + len(f.arcs)])
            b += len(f.arcs)
        ctx.eq(relation(g, ax), sorted(w), 'union-relation', 'label/aux relation', dst=g)
    unchanged(ctx, fs, fsa)


def star(f, sr, L):
    """Kleene closure weights of strings up to length L. f must not accept the
    empty string in the log semiring."""
    A, _ = fsam.lang(f, sr, L, cap=10**6, eps=True)
    plus = fsam.PLUS[sr]
    res = {(): 0.0}
    # strings by length: first non-empty factor + rest
    by = sorted(A, key=len)
    layers = {0: {(): 0.0}}
    for n in range(1, L + 1):
        cur = {}
        for a in by:
            if 0 < len(a) <= n:
                for rest, w in layers[n - len(a)].items():
                    k = a + rest
                    x = A[a] + w
                    cur[k] = plus(cur[k], x) if k in cur else x
        layers[n] = cur
        res.update(cur)
        if len(res) > 4000:
            raise Skip('closure too large')
    return res


def op_closure(ctx):
    r = ctx.rng
    cyc = r.random() < 0.4
    f = fsam.gen(r, cyclic=cyc, allow_empty=False, score='neg', eps=r.choice([0, 0, 0.3]), max_n=6,
                 labels=r.choice([1, 2, 3]), topo=r.random() < 0.7)
    if r.random() < 0.05:
        f = F(r.randint(2, 4), [])
    reent = any(a[1] == 0 for a in f.arcs)
    fsa = fsam.single_k2(f)
    aux = attach(ctx, fsa, [f], False)
    uid(fsa)
    ctx.note(f=f, aux=aux)
    out = k2.closure(fsa)
    fsam.check_valid(ctx, out)
    g = fsam.from_k2(out)
    ids_cover(ctx, out, g, [f], 'closure-arcs')
    for a, x, u in zip(g.arcs, out.aux_labels.tolist(), out.uid.tolist()):
        want = (-1 if a[2] == -1 else 0) if not u else (0 if aux[u - 1] == [-1] else aux[u - 1][0])
        ctx.eq(x, want, 'closure-aux', f'aux label of {a} (source {u})', src=f, dst=g, aux=out.aux_labels.tolist())
    L = 4
    for sr in ('max', 'log'):
        if sr == 'log' and (eps_cycle(f) or eps_cycle(g)):
            continue
        A = star(f, sr, L)
        B, LB = fsam.lang(g, sr, L, cap=10**6, eps=True)
        d = fsam.lang_diff(A, L, B, min(L, LB), 0.0 if sr == 'max' else 2e-3)
        key = 'closure-lang'
        if d is not None and reent:
            doc = sorted([(s, 0, 0, w) if l == -1 else (s, d2, l, w) for s, d2, l, w in f.arcs] +
                         [(0, f.final, -1, 0.0)])
            if sorted(g.arcs) == doc:
                key = 'closure-start-reentrant'
        ctx.ok(d is None, key, f'[{sr}] string {d and d[0]}: want {d and d[1]} got {d and d[2]}', src=f, dst=g)
        ctx.count('closure-strings', len(A))
    unchanged(ctx, [f], fsa)


def op_reverse(ctx):
    r = ctx.rng
    cyc = r.random() < 0.4
    fs, vec = fsam.gen_batch(r, cyclic=cyc, score='neg' if cyc else None, eps=r.choice([0, 0, 0.3]),
                             topo=r.random() < 0.7)
    fsa = fsam.build(fs, vec)
    aux = attach(ctx, fsa, fs, r.random() < 0.4)
    uid(fsa)
    ctx.note(fs=fs, vec=vec, aux=aux)
    out = k2.reverse(fsa)
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 3 if vec else 2, 'reverse', 'axes')
    gs = fsam.any_from_k2(out)
    ctx.eq(len(gs), len(fs), 'reverse', 'members')
    ax = out_aux(out)
    ids = out.uid.tolist()
    src = [a for f in fs for a in f.arcs]
    ctx.eq(sorted(i for i in ids if i), list(range(1, len(src) + 1)), 'reverse-arcs', 'arcs')
    b = o = 0
    for f, g in zip(fs, gs):
        if f.n:
            rv = F(f.n + 1, [])
            # start/final swapped; final arcs become epsilons
            m = {s: s for s in range(f.n)}
            m[f.final], m[0] = 0, f.n - 1
            if f.n == 2:
                m = {1: 0, 0: 1}
            arcs = [(m[d], m[s], 0 if l == -1 else l, w) for s, d, l, w in f.arcs] + [(m[0], f.n, -1, 0.0)]
            rv.arcs = sorted(arcs, key=lambda a: a[0])
            both_langs(ctx, rv, g, 'reverse-lang')
            if not cyc:
                w = relation(f, aux[b:b + len(f.arcs)])
                got = relation(g, ax[o:o + len(g.arcs)])
                if all(len(x) == 1 for x in aux[b:b + len(f.arcs)]):
                    w = sorted((x[::-1], y[::-1], s) for x, y, s in w)
                    ctx.eq(got, w, 'reverse-relation', 'relation', src=f, dst=g)
                else:
                    ctx.eq(sorted((x, sorted(y), s) for x, y, s in got),
                           sorted((x[::-1], sorted(y), s) for x, y, s in w), 'reverse-relation', 'relation',
                           src=f, dst=g)
        else:
            ctx.ok(g.n == 0 or not fsam.lang(g, 'max')[0], 'reverse', 'empty member', dst=g)
        for j, a in enumerate(g.arcs):
            u = ids[o + j]
            if u:
                ctx.ok(a[3] == src[u - 1][3] and a[2] == max(src[u - 1][2], 0), 'reverse-arcs',
                       f'{a} from {src[u - 1]}')
        b += len(f.arcs)
        o += len(g.arcs)
    unchanged(ctx, fs, fsa)


def op_invert(ctx):
    r = ctx.rng
    cyc = r.random() < 0.3
    fs, vec = fsam.gen_batch(r, cyclic=cyc, eps=r.choice([0, 0.3]))
    fsa = fsam.build(fs, vec)
    ragged = r.random() < 0.5
    aux = attach(ctx, fsa, fs, ragged)
    uid(fsa)
    ctx.note(fs=fs, vec=vec, aux=aux)
    ret = r.random() < 0.5
    x = k2.invert(fsa, ret_arc_map=ret)
    out, amap = x if ret else (x, None)
    fsam.check_valid(ctx, out)
    gs = fsam.any_from_k2(out)
    ctx.eq(len(gs), len(fs), 'invert', 'members')
    gaux = out_aux(out)
    if ret:
        ctx.eq([i + 1 for i in amap.tolist()], [u for u in out.uid.tolist()], 'invert-map', 'arc map')
    b = o = 0
    for f, g in zip(fs, gs):
        fa = aux[b:b + len(f.arcs)]
        ga = gaux[o:o + len(g.arcs)]
        if not cyc:
            w = sorted((y, x, s) for x, y, s in relation(f, fa))
            ctx.eq(relation(g, ga), w, 'invert-relation', 'inverted relation', src=f, dst=g)
        if not ragged:
            want = [(s, d, -1 if d == f.final else y[0], wt, l) for (s, d, l, wt), y in zip(f.arcs, fa)]
            got = [a + (y[0],) for a, y in zip(g.arcs, ga)]
            ctx.eq(got, want, 'invert-arcs', 'arcs with labels swapped')
            ctx.eq(g.n, f.n, 'invert-arcs', 'states')
        b += len(f.arcs)
        o += len(g.arcs)
    unchanged(ctx, fs, fsa)
    if not ragged:
        y = k2.invert(out)
        ctx.eq(fsam.any_from_k2(y)[0].arcs, fs[0].arcs, 'invert-twice', 'inverting twice')
        if r.random() < 0.3:
            z = fsa.clone()
            z.invert_()
            ctx.eq([f.arcs for f in fsam.any_from_k2(z)], [g.arcs for g in gs], 'invert_', 'in-place invert')


def op_replace(ctx):
    r = ctx.rng
    cyc = r.random() < 0.3
    kw = dict(score='neg') if cyc else {}
    src = [fsam.gen(r, cyclic=cyc, eps=r.choice([0, 0.2]), max_n=5, labels=4, arcs=r.choice([None, 2]), **kw)
           for _ in range(r.randint(1, 4))]
    vec = r.random() < 0.5
    index = [fsam.gen(r, cyclic=cyc, allow_empty=vec, eps=r.choice([0, 0.2]), max_n=5, labels=5,
                      arcs=r.choice([None, 3]), **kw) for _ in range(r.randint(1, 3) if vec else 1)]
    lo = r.choice([1, 1, 2, 3, 5])
    S, I = fsam.vec_to_k2(src), fsam.build(index, vec)
    ctx.note(src=src, index=index, vec=vec, lo=lo)
    S.uid = torch.arange(1, S.num_arcs + 1, dtype=torch.int32)
    I.iid = torch.arange(1, I.num_arcs + 1, dtype=torch.int32)
    ret = r.random() < 0.5
    x = k2.replace_fsa(S, I, lo, ret_arc_map=ret)
    out, mi, ms = x if ret else (x, None, None)
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 3 if vec else 2, 'replace', 'axes')
    gs = fsam.any_from_k2(out)
    ctx.eq(len(gs), len(index), 'replace', 'members')
    uid_, iid = out.uid.tolist(), out.iid.tolist()
    if ret:
        ctx.eq([a + 1 for a in ms.tolist()], uid_, 'replace-map', 'src arc map')
        ctx.eq([a + 1 for a in mi.tolist()], iid, 'replace-map', 'index arc map')
    ctx.eq(sorted(i for i in iid if i), list(range(1, I.num_arcs + 1)), 'replace-arcs',
           'each index arc appears once')
    flat_s = [a for f in src for a in f.arcs]
    flat_i = [a for f in index for a in f.arcs]
    o = 0
    for f, g in zip(index, gs):
        # model construction
        n = f.n
        arcs = []
        extra = f.n
        final_old = f.final
        rep = 0
        for s, d, l, w in f.arcs:
            j = l - lo
            if l != -1 and 0 <= j < len(src):
                t = src[j]
                rep += 1
                if t.n == 0:
                    arcs.append((s, d, 0, w))
                    continue
                base = extra
                extra += t.n - 1
                arcs.append((s, base, 0, w))
                for s2, d2, l2, w2 in t.arcs:
                    arcs.append((base + s2, d if d2 == t.final else base + d2, 0 if l2 == -1 else l2, w2))
            else:
                arcs.append((s, d, l, w))
        n = extra
        if n:
            # final state last
            sw = {final_old: n - 1, n - 1: final_old}
            arcs = sorted([(sw.get(a[0], a[0]), sw.get(a[1], a[1]), a[2], a[3]) for a in arcs], key=lambda a: a[0])
        want = F(n, arcs)
        ctx.eq(g.n, want.n, 'replace', 'states', src=f, dst=g)
        ctx.eq(len(g.arcs), len(want.arcs), 'replace', 'arcs', src=f, dst=g)
        if not eps_cycle(want) or cyc:
            both_langs(ctx, want, g, 'replace-lang')
        if not cyc:
            ctx.eq(relation(g), relation(want), 'replace-relation', 'relation', src=f, dst=g)
        for j, a in enumerate(g.arcs):
            u, i = uid_[o + j], iid[o + j]
            ctx.ok(bool(u) != bool(i), 'replace-arcs', f'arc {a} has sources {u} {i}')
            sa = flat_s[u - 1] if u else flat_i[i - 1]
            lab = (0 if sa[2] == -1 else sa[2]) if u else (
                0 if sa[2] != -1 and 0 <= sa[2] - lo < len(src) else sa[2])
            ctx.ok(a[2] == lab and a[3] == sa[3], 'replace-arcs', f'{a} from {sa}')
        ctx.count('replaced', rep)
        o += len(g.arcs)
    unchanged(ctx, src, S)
    unchanged(ctx, index, I)


def case(ctx):
    op = ctx.rng.choice([op_union, op_closure, op_reverse, op_invert, op_replace, op_replace])
    ctx.sig(op.__name__, ctx.idx)
    op(ctx)
    ctx.count('op:' + op.__name__)
