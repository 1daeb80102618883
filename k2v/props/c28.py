"""C28: a batched operation applied to a batch, to the batch in another order,
to a sub-batch and to each member alone gives every member the same result."""
import torch
import k2
import k2.ragged as k2r
from k2v import fsam, rag
from k2v.canon import canon, tensor
from k2v.core import CaseFail, Skip
from k2v.fsam import F

I32, I64, F32, F64 = torch.int32, torch.int64, torch.float32, torch.float64


class M:
    """An FSA with per-arc attributes, as plain data."""

    def __init__(self, r, f, kind):
        self.f = f
        A = f.arcs
        self.aux = self.raux = self.fa = self.ia = self.ra = None
        if kind == 'aux':
            self.aux = [-1 if a[2] == -1 else r.randint(0, 4) for a in A]
        if kind == 'raux':
            self.raux = [[-1] if a[2] == -1 else [r.randint(1, 4) for _ in range(r.choice([0, 1, 1, 2]))] for a in A]
        if kind in ('mix', 'num'):
            self.fa = [r.randint(-8, 8) / 4 for _ in A]
            self.ia = [r.randint(1, 99) for _ in A]
        if kind == 'mix':
            self.ra = [[r.randint(1, 9) for _ in range(r.choice([0, 1, 2]))] for _ in A]


def mk(ms, vec=True):
    fsa = fsam.build([m.f for m in ms], vec)
    for name, attr, dt in (('aux_labels', 'aux', I32), ('fa', 'fa', F32), ('ia', 'ia', I32)):
        if getattr(ms[0], attr) is not None:
            setattr(fsa, name, torch.tensor([x for m in ms for x in getattr(m, attr)], dtype=dt))
    for name, attr in (('aux_labels', 'raux'), ('ra', 'ra')):
        if getattr(ms[0], attr) is not None:
            setattr(fsa, name, rag.make([x for m in ms for x in getattr(m, attr)], 2, 'i'))
    return fsa


def members(fsa):
    n = fsa.shape[0]
    return [canon(fsa[i]) for i in range(n)]


def lists(c, labels):
    """Integer tensor attributes (returned when the whole batch needs no work)
    in the ragged form they otherwise get: fillers removed."""
    d = []
    for n, v in c[-1]:
        if v[0] == 't' and v[1] == 'torch.int32':
            x = torch.frombuffer(bytearray(v[3]), dtype=I32).tolist() if v[3] else []
            d.append((n, [[] if y == 0 or (y == -1 and b == -1) else [y] for y, b in zip(x, labels)]))
        elif v[0] == 'rag':
            rs = v[1][2][0]
            x = torch.frombuffer(bytearray(v[2][3]), dtype=I32).tolist() if v[2][3] else []
            d.append((n, [[] if x[i:j] == [-1] and b == -1 else x[i:j] for i, j, b in zip(rs, rs[1:], labels)]))
        else:
            d.append((n, v))
    return c[:-1] + (d,)


def split(t, fsa, axis=2):
    """Per-FSA pieces of a tensor with one row per arc (axis 2) or state (1)."""
    rs = fsa.arcs.shape().row_splits(1)
    if axis == 2:
        rs = fsa.arcs.shape().row_splits(2)[rs.long()]
    rs = rs.tolist()
    return [tensor(t[rs[i]:rs[i + 1]]) for i in range(len(rs) - 1)]


def fsas(ctx, kinds=('none', 'aux', 'raux', 'mix'), k=None, **kw):
    r = ctx.rng
    kind = r.choice(kinds)
    k = k or r.choice([2, 2, 3, 3, 4, 6])
    style = r.choice(['norm', 'few', 'neg', 'zero'])
    kw.setdefault('score', style)
    e = r.choice([0, .2, .5])
    ms = []
    for _ in range(k):
        f = F(0, []) if r.random() < e and kw.get('allow_empty', True) else fsam.gen(r, **kw)
        ms.append(M(r, f, kind))
    if r.random() < .2:
        ms[-1] = ms[0]
    ctx.sig(kind, [str(m.f) for m in ms])
    ctx.note(kind=kind, fsas=[str(m.f)[:200] for m in ms])
    return ms


SC = {}


def sc(w=1):
    def deco(f):
        SC[f.__name__[2:]] = (f, w)
        return f
    return deco


@sc(6)
def s_unary(ctx):
    r = ctx.rng
    op = r.choice(['connect', 'top_sort', 'arc_sort', 'remove_epsilon', 'rmeps_loops', 'add_loops', 'rm_loops', 'determinize',
                   'reverse', 'invert', 'expand', 'index', 'clone'])
    kw = {}
    kinds = ('none', 'aux', 'raux', 'mix', 'num')
    if op == 'top_sort':
        kw = dict(cyclic=False, topo=False)
    if op in ('remove_epsilon', 'rmeps_loops'):
        kw = dict(cyclic=r.random() < .2, eps=.4, score='neg', max_n=6)
    if op == 'determinize':
        kw = dict(cyclic=False, eps=0.0, topo=True, connected=True, max_n=5)
    if op == 'invert':
        kinds = ('aux', 'raux')
    if op in ('add_loops', 'rm_loops'):
        kw = dict(eps=.3)
    if op == 'reverse':
        kw = dict(allow_empty=False)
    ms = fsas(ctx, kinds, **kw)
    fn = {'connect': k2.connect, 'top_sort': k2.top_sort, 'arc_sort': k2.arc_sort, 'remove_epsilon': k2.remove_epsilon,
          'rmeps_loops': k2.remove_epsilon_and_add_self_loops, 'add_loops': k2.add_epsilon_self_loops,
          'rm_loops': k2.remove_epsilon_self_loops, 'determinize': k2.determinize, 'reverse': k2.reverse,
          'invert': k2.invert, 'expand': k2.expand_ragged_attributes,
          'index': lambda v: k2.index_fsa(v, torch.arange(v.shape[0], dtype=I32)), 'clone': lambda v: v.clone()}[op]

    removes = op in ('remove_epsilon', 'rmeps_loops', 'determinize')
    flag = k2.fsa_properties.ARC_SORTED_AND_DETERMINISTIC if op == 'determinize' else k2.fsa_properties.EPSILON_FREE

    def one(f):
        return lists(canon(f), f.labels.tolist()) if removes else canon(f)

    def single(m):
        if op in ('index',) or not m.f.n:
            return None
        return one(fn(mk([m], False)))

    def run(xs):
        v = fn(mk(xs))
        return [one(v[i]) for i in range(len(xs))]
    # an FSA that needs no work is returned as it is when no other one does
    # (and epsilons of acyclic FSAs are removed by another algorithm when all are)
    cyc = [m for m in ms if m.f.n and not mk([m]).properties & k2.fsa_properties.TOPSORTED_AND_ACYCLIC]
    mixed = op in ('remove_epsilon', 'rmeps_loops') and 0 < len(cyc)
    return op, ms, run, {'single': single, 'weak': lambda m: removes and m.f.n and (
        mk([m]).properties & flag or mixed and m not in cyc)}


@sc(4)
def s_scores(ctx):
    r = ctx.rng
    op = r.choice(['scores', 'shortest', 'prune', 'batches', 'random'])
    ms = fsas(ctx, ('none', 'num'), cyclic=False, topo=True, eps=0.0, **({'connected': True} if op == 'random' else {}))
    log, dbl = r.random() < .6, r.random() < .5
    th = r.choice([1e-4, .05, .3])
    n = r.randint(1, 9)

    def fn(xs):
        v = mk(xs)
        if op == 'shortest':
            return members(k2.shortest_path(v, dbl))
        if op == 'prune':
            return members(k2.prune_on_arc_post(v, th, dbl))
        if op == 'random':
            p = k2.random_paths(v, dbl, n)
            sp = v.arcs.shape().row_splits(1)
            off = v.arcs.shape().row_splits(2)[sp.long()].tolist()
            return [tuple(tuple(a - off[i] for a in q) for q in x) for i, x in enumerate(p.tolist())]
        if op == 'batches':
            f, b = v.get_forward_scores(dbl, log), v.get_backward_scores(dbl, log)
            e = v._get_entering_arcs(dbl)
            return list(zip(split(f, v, 1), split(b, v, 1), [len(x[3]) for x in split(e, v, 1)]))
        v.requires_grad_(True)
        tot = v.get_tot_scores(dbl, log)
        post = v.get_arc_post(dbl, log)
        ok = torch.isfinite(tot)
        (torch.where(ok, tot, torch.zeros_like(tot)).sum()).backward()
        g = v.grad if v.grad is not None else torch.zeros(v.num_arcs)
        return list(zip([float(x).hex() for x in tot], split(post.detach(), v), split(g, v)))
    return op, ms, fn, {}


@sc(3)
def s_intersect(ctx):
    r = ctx.rng
    op = r.choice(['device', 'shared', 'host', 'align'])
    k = r.choice([2, 3, 4])
    if op == 'align':
        def seq():
            return [r.randint(1, 3) for _ in range(r.randint(1, 4))]
        ms = [(seq(), seq()) for _ in range(k)]
        ctx.sig(ms)
        ctx.note(pairs=ms)

        def fn(xs):
            a, b = k2.levenshtein_graph([x[0] for x in xs]), k2.levenshtein_graph([x[1] for x in xs])
            return members(k2.levenshtein_alignment(a, b, torch.arange(len(xs), dtype=I32)))
        return op, ms, fn, {}
    eps = r.choice([0, .3]) if op == 'host' else 0.0
    kw = dict(eps=eps, max_n=5, labels=3)
    sort = r.random() < .5

    def one(kind):
        f = F(0, []) if r.random() < .1 else fsam.gen(r, **kw)
        return M(r, fsam.arc_sorted(f) if sort or op == 'host' else f, kind)
    ka = r.choice(['aux', 'num'])
    if op == 'shared':
        A = [one(ka) for _ in range(r.randint(1, 3))]
        ms = [(one('none'), r.randrange(len(A))) for _ in range(k)]
        ctx.sig([str(m.f) for m in A], [(str(m.f), j) for m, j in ms])

        def fn(xs):
            a, b = mk(A), mk([x[0] for x in xs])
            out, am, bm = k2.intersect_device(a, b, torch.tensor([x[1] for x in xs], dtype=I32), ret_arc_maps=True,
                                              sorted_match_a=sort)
            off = b.arcs.shape().row_splits(2)[b.arcs.shape().row_splits(1).long()].tolist()
            return list(zip(members(out), split(am, out), [
                [x - off[i] for x in torch.frombuffer(bytearray(s[3]), dtype=I32).tolist()] if s[3] else []
                for i, s in enumerate(split(bm, out))]))
        return op, ms, fn, {}
    ms = [(one(ka), one('none')) for _ in range(k)]
    ctx.sig([(str(a.f), str(b.f)) for a, b in ms])
    ctx.note(op=op, pairs=[(str(a.f)[:150], str(b.f)[:150]) for a, b in ms])

    def fn(xs):
        a, b = mk([x[0] for x in xs]), mk([x[1] for x in xs])
        if op == 'host':
            return members(k2.intersect(a, b, treat_epsilons_specially=True))
        return members(k2.intersect_device(a, b, torch.arange(len(xs), dtype=I32), sorted_match_a=sort))
    return op, ms, fn, {}


@sc(2)
def s_graphs(ctx):
    r = ctx.rng
    op = r.choice(['linear_fsa', 'linear_fst', 'ctc', 'ctc_m', 'leven', 'loops', 'ragged', 'replace'])
    if op == 'replace':
        ms = fsas(ctx, ('none', 'num'), labels=5, cyclic=False)
        idx = mk([M(r, fsam.gen(r, cyclic=False, allow_empty=False), 'none') for _ in range(r.randint(1, 3))])
        s = r.randint(1, 4)
        return op, ms, lambda xs: members(k2.replace_fsa(idx, mk(xs), s)), {}
    ms = [[r.randint(1, 4) for _ in range(r.randint(0, 6))] for _ in range(r.choice([2, 3, 5, 9]))]
    ctx.sig(op, ms)
    ctx.note(op=op, seqs=ms)
    fn = {'linear_fsa': k2.linear_fsa, 'linear_fst': lambda x: k2.linear_fst(x, [[y + 5 for y in z] for z in x]),
          'ctc': lambda x: k2.ctc_graph(x), 'ctc_m': lambda x: k2.ctc_graph(x, modified=True),
          'leven': lambda x: k2.levenshtein_graph(x, ins_del_score=-.5),
          'loops': lambda x: k2.linear_fsa_with_self_loops(k2.linear_fsa(x)),
          'ragged': lambda x: k2.linear_fsa(rag.make(x, 2, 'i'))}[op]
    return op, ms, lambda xs: members(fn(xs)), {}


def graph(r, C, kind, short=False):
    if r.random() < .5:
        f = fsam.any_from_k2(k2.ctc_graph([[r.randint(1, C - 1) for _ in range(r.randint(1, 2 if short else 4))]]))[0]
    else:
        f = fsam.gen(r, labels=C - 1, eps=.2, cyclic=r.random() < .6, max_n=6, allow_empty=r.random() < .2)
    return M(r, fsam.arc_sorted(f), kind)


def drop_frame(c):
    """Canonical Fsa without the frame numbers counted over the whole batch."""
    return c[:-1] + (tuple(x for x in c[-1] if x[0] != 'sf'),)


@sc(5)
def s_dense(ctx):
    r = ctx.rng
    op = r.choice(['exact', 'pruned', 'pruned1', 'loss', 'decode', 'online'])
    C = r.randint(2, 5)
    Tm = r.choice([1, 3, 6, 12, 18])
    k = r.choice([2, 2, 3, 4])
    kind = r.choice(['aux', 'num', 'raux'])
    big = r.random() < .5
    g1 = graph(r, C, kind)
    sb, ob = (1e6, 1e6) if big else (r.choice([20.1, 8.1, 4.1]), r.choice([1e6, 8.1, 3.1]))
    mx = r.choice([10000, 10000, 8, 3])
    gen = torch.Generator().manual_seed(r.randrange(2 ** 31))
    same = r.random() < .3 or op == 'online'
    ms = []
    for _ in range(k):
        T = Tm if same else r.randint(1, Tm)
        x = torch.randn(T, C, generator=gen).log_softmax(-1)
        if r.random() < .2:
            x = (x * 2).round() / 2
        ms.append((graph(r, C, kind) if op not in ('pruned1', 'online', 'decode') else g1, x,
                   [r.randint(1, C - 1) for _ in range(r.randint(0, 4))]))
    ms.sort(key=lambda m: -len(m[1]))
    ap = r.random() < .4
    mod = r.random() < .5
    dp = r.choice([0, 0, .3])
    junk = r.choice([0.0, 7.0, float('nan')])
    ctx.sig(op, [(str(m[0].f), m[1].tolist(), m[2]) for m in ms], sb, ob, mx, ap, mod, dp)
    ctx.note(op=op, graphs=[str(m[0].f)[:200] for m in ms], T=[len(m[1]) for m in ms], beams=(sb, ob, mx), ap=ap)

    def fn(xs):
        T = max(len(m[1]) for m in xs)
        x = torch.full((len(xs), T, C), junk)
        for i, m in enumerate(xs):
            x[i, :len(m[1])] = m[1]
        if op in ('loss', 'exact'):
            x.requires_grad_(True)
        seg = torch.tensor([[i, 0, len(m[1])] for i, m in enumerate(xs)], dtype=I32)
        names = dict(seqframe_idx_name='sf', frame_idx_name='ff')
        if op == 'decode':
            ln = torch.tensor([len(m[1]) for m in xs], dtype=I32)
            x = torch.nan_to_num(x)
            lat = k2.get_lattice(x, ln, k2.ctc_topo(C - 1, mod), search_beam=8, output_beam=min(ob, 8))
            b = k2.one_best_decoding(lat)
            return list(zip(members(lat), members(b), k2.get_aux_labels(b)))
        d = k2.DenseFsaVec(x, seg)
        if op == 'loss':
            L = k2.ctc_loss(k2.ctc_graph([m[2] for m in xs], mod), d, output_beam=20., delay_penalty=dp, reduction='none',
                            target_lengths=torch.tensor([len(m[2]) for m in xs]))
            ok = torch.isfinite(L)
            torch.where(ok, L, torch.zeros_like(L)).sum().backward()
            return [(float(L[i]).hex(), tensor(x.grad[i, :len(m[1])]), float(x.grad[i, len(m[1]):].abs().sum())) for i, m in
                    enumerate(xs)]
        if op == 'exact':
            lat = k2.intersect_dense(mk([m[0] for m in xs]), d, ob, **names)
            s = lat.get_tot_scores(True, True)
            s = torch.where(torch.isfinite(s), s, torch.zeros_like(s)).sum()
            gr = torch.autograd.grad(s, x, allow_unused=True)[0] if s.requires_grad else None
            gr = torch.zeros_like(x) if gr is None else gr
            return list(zip([drop_frame(c) for c in members(lat)], [tensor(gr[i, :len(m[1])]) for i, m in enumerate(xs)],
                            [float(gr[i, len(m[1]):].abs().sum()) for i, m in enumerate(xs)]))
        g = mk([g1] if op in ('pruned1', 'online') else [m[0] for m in xs])
        if op == 'online':
            cut = max(1, T // 2)
            it = k2.OnlineDenseIntersecter(g, len(xs), sb, ob, 1, mx, allow_partial=ap)
            st = [k2.DecodeStateInfo() for _ in xs]
            outs = []
            for a, b in ((0, cut), (cut, T)):
                if b > a:
                    lat, st = it.decode(k2.DenseFsaVec(x[:, a:b].contiguous(), torch.tensor(
                        [[i, 0, b - a] for i in range(len(xs))], dtype=I32)), st)
                    outs.append(members(lat))
            return list(zip(*outs))
        lat = k2.intersect_dense_pruned(g, d, sb, ob, 1, mx, allow_partial=ap, **names)
        return [drop_frame(c) for c in members(lat)]
    return op, ms, fn, {'key': lambda m: -len(m[1])}


@sc(3)
def s_rnnt(ctx):
    r = ctx.rng
    op = r.choice(['mi', 'simple', 'full', 'ranges', 'pruned', 'lattice'])
    kind = r.choice(['regular', 'modified', 'constrained'])
    S, C = r.randint(0, 4), r.randint(2, 4)
    T = r.randint(max(S, 1), 7)
    k = r.choice([2, 3, 4])
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    dp = r.choice([0.0, 0.0, .2])
    s_range = r.randint(min(2, S + 1), S + 1)
    ms = []
    for _ in range(k):
        t1 = r.randint(1, T)
        s1 = r.randint(0, min(S, t1))
        lo = [0]
        while len(lo) < T:
            lo.append(min(lo[-1] + r.randint(0, max(s_range - 1, 0)), S + 1 - s_range))
        ms.append(dict(am=torch.randn(T, C, generator=g, dtype=F64), lm=torch.randn(S + 1, C, generator=g, dtype=F64),
                       x=torch.randn(T, S + 1, C, generator=g, dtype=F64), sy=[r.randint(1, C - 1) for _ in range(S)],
                       b=[0, 0, s1, t1], lo=lo, lx=torch.randn(T, s_range, C, generator=g)))
    ctx.sig(op, kind, S, T, C, dp, [(m['sy'], m['b'], m['am'].tolist()) for m in ms])
    ctx.note(op=op, kind=kind, b=[m['b'] for m in ms], S=S, T=T)

    def fn(xs):
        sy = torch.tensor([m['sy'] for m in xs], dtype=I64).reshape(len(xs), S)
        b = torch.tensor([m['b'] for m in xs], dtype=I64)
        am, lm, x = (torch.stack([m[n] for m in xs]).requires_grad_(True) for n in ('am', 'lm', 'x'))
        kw = dict(boundary=b, rnnt_type=kind, reduction='none', delay_penalty=dp)
        if op == 'lattice':
            rg = torch.tensor([[[v + i for i in range(s_range)] for v in m['lo']] for m in xs], dtype=I32)
            fr = torch.tensor([m['b'][3] for m in xs], dtype=I32)
            arcs, amap = k2.pruned_ranges_to_lattice(rg, fr, sy, torch.stack([m['lx'] for m in xs]))
            v = k2.Fsa(arcs)
            rs = v.arcs.shape().row_splits(2)[v.arcs.shape().row_splits(1).long()].tolist()
            return [(canon(v[i]), [a - i * T * s_range * C if a >= 0 else a for a in amap[rs[i]:rs[i + 1]].tolist()])
                    for i in range(len(xs))]
        if op == 'mi':
            px, py = x[:, :, :S, 0].transpose(1, 2).contiguous(), x[:, :, :, 1].transpose(1, 2).contiguous()
            if kind == 'regular':
                px = torch.nn.functional.pad(px, (0, 1), value=-1e3)
            L = k2.mutual_information_recursion(px, py, b)
            leaves = [x]
        elif op == 'full':
            L, leaves = k2.rnnt_loss(x, sy, 0, **kw), [x]
        elif op == 'simple':
            L, leaves = k2.rnnt_loss_simple(lm, am, sy, 0, **kw), [am, lm]
        else:
            _, (gx, gy) = k2.rnnt_loss_simple(lm, am, sy, 0, boundary=b, rnnt_type=kind, reduction='none', return_grad=True)
            rg = k2.get_rnnt_prune_ranges(gx, gy, b, s_range)
            if op == 'ranges':
                return [(rg[i].tolist(), gx[i].detach(), gy[i].detach()) for i in range(len(xs))]
            a, l = k2.do_rnnt_pruning(am, lm, rg)
            L, leaves = k2.rnnt_loss_pruned(torch.tanh(a + l), sy, rg, 0, **kw), [am, lm]
        ok = torch.isfinite(L)
        gs = torch.autograd.grad(torch.where(ok, L, torch.zeros_like(L)).sum(), leaves, allow_unused=True)
        gs = [torch.zeros_like(y) if z is None else z for z, y in zip(gs, leaves)]
        return [(L[i].detach(), [z[i] for z in gs]) for i in range(len(xs))]
    return op, ms, fn, {'tol': op != 'lattice'}


@sc(4)
def s_ragged(ctx):
    r = ctx.rng
    op = r.choice(['sum', 'max', 'min', 'argmax', 'logsumexp', 'normalize', 'sort', 'unique', 'eq', 'leq', 'add', 'index1', 'pad',
                   'sort_map', 'unique3', 'index_sum'])
    dt = r.choice('ifd') if op not in ('logsumexp', 'normalize', 'unique', 'unique3', 'eq', 'leq', 'index_sum') else \
        ('i' if op in ('unique', 'unique3', 'eq', 'leq', 'index_sum') else r.choice('fd'))
    k = r.choice([2, 3, 5, 9, 17])
    three = op == 'unique3' or (op in ('sum', 'max', 'sort', 'eq', 'leq', 'logsumexp') and r.random() < .4)
    if three:
        ms = [rag.gen_nested(r, axes=2, dt=dt, dim0=r.choice([0, 1, 2, 4]), vstyle='few')[0] for _ in range(k)]
    else:
        ms = rag.gen_nested(r, axes=2, dt=dt, dim0=k, vstyle=r.choice(['few', 'norm']))[0]
    if op == 'index_sum':
        ms = [[abs(x) % 8 for x in m] for m in ms]
    src = torch.tensor([r.randint(-99, 99) / 8 for _ in range(8)])
    w = max(len(m) for m in ms)
    ctx.sig(op, dt, ms)
    ctx.note(op=op, dt=dt, rows=ms[:6])
    desc = r.random() < .5

    def rows(t, x):
        """Pieces of a per-row result when the member is a list of rows."""
        if not three:
            return [tensor(y) for y in t]
        rs = x.shape.row_splits(1).tolist()
        return [tensor(t[rs[i]:rs[i + 1]]) for i in range(len(rs) - 1)]

    def fn(xs):
        x = rag.make(xs, 3 if three else 2, dt)
        if op in ('sum', 'logsumexp'):
            x.requires_grad_(dt != 'i')
            y = getattr(x, op)()
            if dt == 'i':
                return rows(y, x)
            torch.where(torch.isfinite(y), y, torch.zeros_like(y)).sum().backward()
            g = k2.RaggedTensor(x.shape, x.grad).tolist()
            return list(zip(rows(y.detach(), x), [repr(q) for q in g]))
        if op in ('max', 'min'):
            return rows(getattr(x, op)(initial_value=-5), x)
        if op == 'argmax':
            rs = x.shape.row_splits(1).tolist()
            return [int(y) - rs[i] if y >= 0 else -1 for i, y in enumerate(x.argmax())]
        if op == 'normalize':
            return [repr(y) for y in x.normalize(use_log=desc).tolist()]
        if op == 'sort':
            x.sort_(descending=desc)
            return [repr(y) for y in x.tolist()]
        if op == 'sort_map':
            m = x.sort_(descending=desc, need_new2old_indexes=True)
            rs = x.shape.row_splits(1).tolist()
            return [[y - rs[i] for y in m[rs[i]:rs[i + 1]].tolist()] for i in range(len(xs))]
        if op in ('unique', 'unique3'):
            if not three:
                # a list of rows is one set: members are the only row of a sub-list
                x = rag.make([[q] for q in xs], 3, dt)
            u, n, _ = x.unique(need_num_repeats=True)
            return list(zip(map(repr, u.tolist()), map(repr, n.tolist())))
        if op == 'eq':
            return [repr(y) for y in x.remove_values_eq(1).tolist()]
        if op == 'leq':
            return [repr(y) for y in x.remove_values_leq(0).tolist()]
        if op == 'add':
            return [repr(y) for y in x.add(torch.tensor([len(q) for q in xs]).to(rag.DT[dt]), 2).tolist()]
        if op == 'pad':
            p = x.pad('constant', 7)
            return [(p[i, :len(q)].tolist(), bool((p[i, len(q):] == 7).all())) for i, q in enumerate(xs)]
        if op == 'index1':
            y, _ = x.index(torch.arange(len(xs), dtype=I32), axis=0)
            return [repr(q) for q in y.tolist()]
        return [tensor(y) for y in k2r.index_and_sum(src, x)]
    return op, ms, fn, {'int_argmax_empty': True}


@sc(2)
def s_nbest(ctx):
    r = ctx.rng
    op = r.choice(['lattice', 'total', 'top', 'mwer', 'leven'])
    kind = r.choice(['aux', 'raux']) if op not in ('leven', 'mwer') else 'aux'
    ms = [(m, [r.randint(1, 3) for _ in range(r.randint(1, 3))]) for m in
          fsas(ctx, (kind,), cyclic=False, eps=0.0, topo=True, connected=True, allow_empty=False, score='norm', max_n=6)]
    n, sc_, dbl, kk = r.choice([1, 3, 10]), r.choice([.5, 1.0]), r.random() < .5, r.randint(1, 3)

    def fn(xs):
        lat = mk([x[0] for x in xs])
        if op == 'mwer':
            lat.requires_grad_(True)
            L = k2.mwer_loss(lat, [x[1] for x in xs], nbest_scale=sc_, num_paths=n, reduction='none')
            L.sum().sum().backward()
            return list(zip([torch.tensor(q) for q in L.tolist()],
                            [torch.frombuffer(bytearray(g[3]), dtype=F32) if g[3] else 0 for g in split(lat.grad, lat)]))
        nb = k2.Nbest.from_lattice(lat, n, dbl, sc_)
        if op == 'top':
            nb = nb.top_k(kk)
        ps = members(nb.fsa)
        rs = nb.shape.row_splits(1).tolist()
        out = [ps[rs[i]:rs[i + 1]] for i in range(len(xs))]
        if op == 'total':
            t = nb.total_scores().tolist()
            out = list(zip(out, [repr(q) for q in t]))
        if op == 'leven':
            t = members(nb.build_levenshtein_graphs())
            out = list(zip(out, [t[rs[i]:rs[i + 1]] for i in range(len(xs))]))
        return out
    return op, ms, fn, {'tol': op == 'mwer'}


NAMES = [n for n, (f, w) in SC.items() for _ in range(w)]


def same(a, b, tol):
    if isinstance(a, torch.Tensor):
        if not isinstance(b, torch.Tensor) or a.shape != b.shape:
            return False
        if a.dtype.is_floating_point and tol:
            e = 1e-8 if a.dtype == F64 else 1e-4
            return torch.allclose(a, b, rtol=e, atol=e, equal_nan=True)
        return torch.equal(a, b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def values(c):
    if isinstance(c, tuple) and len(c) >= 4 and c[0] == 't':
        dt = getattr(torch, c[1].split('.')[-1])
        return torch.frombuffer(bytearray(c[3]), dtype=dt).reshape(c[2]).tolist() if c[3] else []
    return c


def diff(a, b, tol, path=''):
    """Where two outcomes differ first, for the message."""
    if isinstance(a, tuple) and a and a[0] == 't' or isinstance(a, torch.Tensor):
        return f'{path}: {values(a)} / {values(b)}'
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: lengths {len(a)} / {len(b)}: {[x[0] if isinstance(x, tuple) and x else x for x in a]}, ' \
                   f'{[x[0] if isinstance(x, tuple) and x else x for x in b]}'
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, tol):
                return diff(x, y, tol, f'{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}')
    return f'{path}: {a} / {b}'


def case(ctx):
    r = ctx.rng
    name = r.choice(NAMES)
    op, ms, fn, o = SC[name][0](ctx)
    key = f'{name}-{op}'
    ctx.count(name)

    def chk(ok, k, msg):
        ctx.ok(ok, k, '' if ok else msg())

    def run(xs):
        try:
            return fn(xs)
        except CaseFail:
            raise
        except Exception as e:
            return f'{type(e).__name__}: {str(e)[:300]}'
    whole = run(ms)
    alone = [run([m]) for m in ms]
    ctx.count('ran-' + key, 0 if isinstance(whole, str) else 1)
    bad = [a for a in alone if isinstance(a, str)]
    if isinstance(whole, str):
        chk(bad, key + '-refused', lambda: f'the batch is refused ({whole}) but no member is')
        ctx.count('refused-' + name)
        return
    chk(not bad, key + '-member-refused', lambda: f'a member alone is refused: {bad[0]}')
    ctx.eq(len(whole), len(ms), key + '-count', 'results')
    tol = o.get('tol')

    weak = [o['weak'](m) if 'weak' in o else False for m in ms]

    def cmp(a, b, i, what):
        if weak[i]:
            ctx.count('not-compared')
            return
        ctx.count('comparisons')
        chk(same(a, b, tol), key, lambda: f'member {i} in the batch / {what}: {diff(a, b, tol)[:1500]}')
    for i, a in enumerate(alone):
        ctx.eq(len(a), 1, key + '-count', 'results of one member')
        cmp(whole[i], a[0], i, 'alone')
    if 'single' in o:
        for i, m in enumerate(ms):
            s = o['single'](m)
            if s is not None:
                cmp(whole[i], s, i, 'as a single FSA')
    p = list(range(len(ms)))
    r.shuffle(p)
    if len(p) > 2 and r.random() < .4:
        p = p[:-1]
    if r.random() < .3:
        p.insert(r.randrange(len(p) + 1), r.choice(p))
    if 'key' in o:
        p.sort(key=lambda i: o['key'](ms[i]))
    other = run([ms[i] for i in p])
    chk(not isinstance(other, str), key + '-order-refused', lambda: f'batch in the order {p} is refused: {other}')
    ctx.eq(len(other), len(p), key + '-count', 'results of the other batch')
    for j, i in enumerate(p):
        cmp(whole[i], other[j], i, f'in the batch {p}')
