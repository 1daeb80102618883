"""C08: attributes, scores and gradients follow the arcs. Every arc carries a
unique id; after each operation the id of an output arc names its source(s) and
every other attribute, and every gradient, must agree with that."""
import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F


class Att:
    """Attributes attached to one FSA, with the model values."""

    def __init__(self, ctx, fs, vec, fsa, pre='', wide=True, ragged=True, base=0, aux=None, grad=True):
        r = ctx.rng
        n = fsa.num_arcs
        self.fs, self.fsa, self.n, self.pre = fs, fsa, n, pre
        self.arcs = [a for f in fs for a in f.arcs]
        self.vals, self.fill = {}, {}
        if grad:
            fsa.scores = fsa.scores.detach().clone().requires_grad_(True)
        self.scores = fsa.scores
        self.put('uid', torch.arange(1 + base, n + 1 + base, dtype=torch.int32))
        if r.random() < 0.8:
            self.put('ia', torch.tensor([r.choice([-1, 0, 1, 2, 7, 7]) for _ in range(n)], dtype=torch.int32))
            if r.random() < 0.5:
                self.fill[pre + 'ia'] = r.choice([7, -5, 1])
        if r.random() < 0.7:
            self.put('fa', torch.tensor([r.randint(-16, 16) / 4 for _ in range(n)], dtype=torch.float32,
                                        requires_grad=r.random() < 0.8))
            if r.random() < 0.3:
                self.fill[pre + 'fa'] = 2.5
        if r.random() < 0.3:
            self.put('fd', torch.tensor([r.randint(-16, 16) / 4 for _ in range(n)], dtype=torch.float64,
                                        requires_grad=r.random() < 0.5))
        if wide and r.random() < 0.3:
            self.put('il', torch.tensor([r.randint(-3, 3) << 33 for _ in range(n)], dtype=torch.int64))
        if wide and r.random() < 0.3:
            self.put('t2', torch.tensor([[r.randint(-9, 9) for _ in range(3)] for _ in range(n)],
                                        dtype=torch.float32).reshape(n, 3))
        if ragged and n and r.random() < 0.5:
            self.put('ra', k2.RaggedTensor([[r.choice([-1, 0, 3, 4]) for _ in range(r.choice([0, 1, 1, 2]))]
                                            for _ in range(n)], dtype=torch.int32))
        self.non = {}
        if r.random() < 0.7:
            self.non[pre + 'obj'] = ['an object', 3]
        for k, v in self.non.items():
            setattr(fsa, k, v)
        for k, v in self.fill.items():
            setattr(fsa, k + '_filler', v)
        if aux == 'ragged' and n:
            x = []
            for a in self.arcs:
                y = [r.randint(1, 9) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                x.append(y + [-1] if a[2] == -1 and r.random() < 0.7 else y)
            fsa.aux_labels = k2.RaggedTensor(x, dtype=torch.int32)
        elif aux == 'tensor':
            fsa.aux_labels = torch.tensor([-1 if a[2] == -1 else r.randint(0, 9) for a in self.arcs],
                                          dtype=torch.int32)
        ctx.note(fs=fs, vec=vec, attrs={k: (v.tolist() if hasattr(v, 'tolist') else v)
                                        for k, v in self.vals.items()}, fill=self.fill)

    def put(self, name, v):
        self.vals[self.pre + name] = v
        setattr(self.fsa, self.pre + name, v)

    def filler(self, name):
        return self.fill.get(name, 0)

    def leaves(self):
        out = [('scores', self.scores)] if self.scores.requires_grad else []
        for k, v in self.vals.items():
            if isinstance(v, torch.Tensor) and v.requires_grad:
                out.append((k, v))
        return out


def mk(ctx, wide=True, ragged=True, aux=None, pre='', base=0, fs=None, vec=None, grad=True, **kw):
    if fs is None:
        fs, vec = fsam.gen_batch(ctx.rng, **kw)
    fsa = fsam.build(fs, vec)
    return Att(ctx, fs, vec, fsa, pre, wide, ragged, base, aux, grad)


def gid(out, name='uid'):
    return [i for i in getattr(out, name).tolist()]


def check_tensor(ctx, att, out, src, skip=(), fillers=True, label_ok=None, exact_scores=True):
    """src[k]: index of the source arc of output arc k, or -1."""
    key = 'attr'
    for k, v in att.vals.items():
        if k in skip:
            continue
        ctx.ok(hasattr(out, k), key, f'attribute {k} was lost')
        got = getattr(out, k)
        if isinstance(v, torch.Tensor):
            vl = v.tolist()
            fill = att.filler(k) if fillers else 0
            if v.dim() == 2:
                fill = [0.0] * v.shape[1]
            want = [vl[s] if s >= 0 else (float(fill) if v.dtype.is_floating_point and v.dim() == 1 else fill)
                    for s in src]
            ctx.ok(got.dtype == v.dtype, key, f'dtype of {k}: {got.dtype}')
        else:
            vl = v.tolist()
            want = [vl[s] if s >= 0 else [] for s in src]
            ctx.ok(isinstance(got, k2.RaggedTensor), key, f'type of {k}')
        ctx.eq(got.tolist(), want, key, f'attribute {k}, sources {src}')
    for k, v in att.non.items():
        ctx.ok(getattr(out, k, None) == v, 'non-tensor', f'{k}: {getattr(out, k, None)}')
    sc = out.scores.tolist()
    raw = [a[3] for f in fsam.any_from_k2(out) for a in f.arcs]
    ctx.eq(sc, raw, 'scores-attr', '.scores against the stored arcs')
    if exact_scores:
        ctx.eq(sc, [att.arcs[s][3] if s >= 0 else 0.0 for s in src], 'scores', 'scores of the sources')


def check_ragged(ctx, att, out, src, final_fill=True):
    """src[k]: list of source arcs."""
    for k, v in att.vals.items():
        ctx.ok(hasattr(out, k), 'attr', f'attribute {k} was lost')
        got = getattr(out, k)
        if isinstance(v, torch.Tensor) and v.dtype == torch.int32:
            f = att.filler(k)
            vl = [f if (x == -1 and a[2] == -1 and f != -1) else x for x, a in zip(v.tolist(), att.arcs)]
            want = [[vl[s] for s in ss if vl[s] != f] for ss in src]
            ctx.ok(isinstance(got, k2.RaggedTensor), 'attr', f'type of {k}')
            ctx.eq(got.tolist(), want, 'attr-ragged', f'{k}, sources {src}')
        elif isinstance(v, torch.Tensor):
            vl = v.tolist()
            ctx.closes(got.tolist(), [sum(vl[s] for s in ss) for ss in src], 'attr-sum', k)
            ctx.ok(got.dtype == v.dtype, 'attr', f'dtype of {k}')
        else:
            vl = v.tolist()
            ctx.eq(got.tolist(), [[x for s in ss for x in vl[s]] for ss in src], 'attr-concat', k)
    for k, v in att.non.items():
        ctx.ok(getattr(out, k, None) == v, 'non-tensor', f'{k}: {getattr(out, k, None)}')
    raw = [a[3] for f in fsam.any_from_k2(out) for a in f.arcs]
    ctx.eq(out.scores.tolist(), raw, 'scores-attr', '.scores against the stored arcs')


def check_grad(ctx, pairs, out, score_grad=True):
    """pairs: [(att, src)] with src lists of lists of source arcs; random
    output gradients must arrive, summed, at exactly those sources."""
    r = ctx.rng
    loss = None
    want = {}
    outs = []
    if score_grad and any(a.scores.requires_grad for a, _ in pairs):
        outs.append('scores')
    for att, _ in pairs:
        for k, v in att.leaves():
            if k not in outs and k != 'scores':
                outs.append(k)
    style = r.choice(['rand', 'rand', 'ones', 'strided'])
    for name in outs:
        o = getattr(out, name)
        ctx.ok(o.requires_grad, 'grad', f'{name} of the result does not require grad')
        if o.numel() == 0:
            continue
        if style == 'ones':
            g = [1.0] * o.numel()
            l = o.sum()
        else:
            g = [r.randint(-8, 8) / 4 for _ in range(o.numel())]
            gt = torch.tensor(g, dtype=o.dtype).reshape(o.shape)
            if style == 'strided':
                gt2 = torch.zeros(2 * o.numel(), dtype=o.dtype)
                gt2[::2] = gt.reshape(-1)
                gt = gt2[::2].reshape(o.shape)
            l = (o * gt).sum()
        loss = l if loss is None else loss + l
        for q, (att, src) in enumerate(pairs):
            for k, v in att.leaves():
                if k == name:
                    acc = want.setdefault((q, k), [0.0] * v.numel())
                    for j, ss in enumerate(src):
                        for s in ss:
                            acc[s] += g[j]
    if loss is None:
        return
    loss.backward()
    for q, (att, src) in enumerate(pairs):
        for k, v in att.leaves():
            if k == 'scores' and not score_grad:
                continue
            w = want.get((q, k), [0.0] * v.numel())
            got = v.grad.tolist() if v.grad is not None else [0.0] * v.numel()
            ctx.closes(got, w, 'grad', f'gradient of {k} ({style})', tol=1e-4)
    ctx.count('grads:' + style)


def one(src):
    return [[s] if s >= 0 else [] for s in src]


UN = {}


def un(f):
    UN[f.__name__] = f
    return f


def tensor_case(ctx, att, out, **kw):
    src = [u - 1 for u in gid(out)]
    fsam.check_valid(ctx, out)
    check_tensor(ctx, att, out, src, **kw)
    # the ids themselves must be right: labels of the sources
    return src


@un
def u_connect(ctx):
    att = mk(ctx)
    out = k2.connect(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_top_sort(ctx):
    att = mk(ctx, cyclic=False, topo=False)
    out = k2.top_sort(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_arc_sort(ctx):
    att = mk(ctx)
    out = k2.arc_sort(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_reverse(ctx):
    att = mk(ctx)
    out = k2.reverse(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_add_loops(ctx):
    att = mk(ctx)
    out = k2.add_epsilon_self_loops(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_rm_loops(ctx):
    att = mk(ctx, cyclic=True, self_loops=True, eps=0.4)
    out = k2.remove_epsilon_self_loops(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_union(ctx):
    r = ctx.rng
    fs = [fsam.gen(r, allow_empty=False) for _ in range(r.randint(1, 4))]
    att = mk(ctx, fs=fs, vec=True)
    out = k2.union(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_closure(ctx):
    att = mk(ctx, fs=[fsam.gen(ctx.rng, allow_empty=False)], vec=False)
    out = k2.closure(att.fsa)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_shortest(ctx):
    att = mk(ctx, cyclic=False, topo=True)
    if ctx.rng.random() < 0.2:
        raise Skip('')
    out = k2.shortest_path(att.fsa, ctx.rng.random() < 0.5)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_prune(ctx):
    r = ctx.rng
    fs = [fsam.gen(r, cyclic=False, connected=True) for _ in range(r.randint(1, 4))]
    att = mk(ctx, fs=fs, vec=True)
    out = k2.prune_on_arc_post(att.fsa, r.choice([0.01, 0.1, 0.3]), r.random() < 0.5)
    src = tensor_case(ctx, att, out)
    check_grad(ctx, [(att, one(src))], out)


@un
def u_rmeps(ctx):
    cyc = ctx.rng.random() < 0.4
    att = mk(ctx, wide=False, cyclic=cyc, eps=0.5, score='neg' if cyc else None)
    if att.fsa.properties & 512 and False:
        pass
    out = k2.remove_epsilon(att.fsa)
    fsam.check_valid(ctx, out)
    if isinstance(out.uid, torch.Tensor):
        src = [u - 1 for u in gid(out)]
        check_tensor(ctx, att, out, src)
        check_grad(ctx, [(att, one(src))], out)
        return
    src = [[u - 1 for u in x] for x in gid(out)]
    check_ragged(ctx, att, out, src)
    ctx.closes(out.scores.tolist(), [sum(att.arcs[s][3] for s in ss) for ss in src], 'scores', 'summed scores')
    check_grad(ctx, [(att, src)], out)
    ctx.count('ragged-arcs', len(src))


@un
def u_rmeps_loops(ctx):
    cyc = ctx.rng.random() < 0.4
    att = mk(ctx, wide=False, cyclic=cyc, eps=0.5, score='neg' if cyc else None)
    out = k2.remove_epsilon_and_add_self_loops(att.fsa)
    fsam.check_valid(ctx, out)
    if isinstance(out.uid, torch.Tensor):
        src = [u - 1 for u in gid(out)]
        check_tensor(ctx, att, out, src)
        check_grad(ctx, [(att, one(src))], out)
        return
    src = [[u - 1 for u in x] for x in gid(out)]
    check_ragged(ctx, att, out, src)
    check_grad(ctx, [(att, src)], out)


@un
def u_det(ctx):
    T = k2.DeterminizeWeightPushingType
    att = mk(ctx, wide=False, cyclic=False, connected=True, labels=ctx.rng.choice([1, 2]), grad=False)
    kind = ctx.rng.choice([T.kNoWeightPushing, T.kTropicalWeightPushing, T.kLogWeightPushing])
    out = k2.determinize(att.fsa, kind)
    if out is att.fsa:
        raise Skip('')
    fsam.check_valid(ctx, out)
    src = [[u - 1 for u in x] for x in gid(out)]
    check_ragged(ctx, att, out, src)
    if kind == T.kNoWeightPushing:
        ctx.closes(out.scores.tolist(), [sum(att.arcs[s][3] for s in ss) for ss in src], 'scores', 'summed scores')
    check_grad(ctx, [(att, src)], out)


@un
def u_invert(ctx):
    rg = ctx.rng.random() < 0.5
    att = mk(ctx, aux='ragged' if rg else 'tensor')
    if not att.n:
        raise Skip('')
    x = k2.invert(att.fsa)
    src = [u - 1 for u in gid(x)]
    check_tensor(ctx, att, x, src)
    check_grad(ctx, [(att, one(src))], x)


@un
def u_expand(ctx):
    att = mk(ctx, aux='ragged')
    if not att.n:
        raise Skip('')
    names = None
    if 'ra' in att.vals and ctx.rng.random() < 0.6:
        names = ['aux_labels']
    out, amap = k2.expand_ragged_attributes(att.fsa, ret_arc_map=True, ragged_attribute_names=names)
    src = amap.tolist()
    fsam.check_valid(ctx, out)
    check_tensor(ctx, att, out, src, skip=() if names else ('ra',))
    check_grad(ctx, [(att, one(src))], out)


@un
def u_index(ctx):
    r = ctx.rng
    fs = [fsam.gen(r) for _ in range(r.randint(1, 5))]
    att = mk(ctx, fs=fs, vec=True)
    b = fsam.uids(fs)
    mode = r.choice(['one', 'index', 'clone', 'to', 'cat', 'vec'])
    ctx.note(mode=mode)
    if mode == 'one':
        i = r.randrange(len(fs))
        out = att.fsa[i]
        src = b[i]
        ctx.eq(fsam.from_k2(out).arcs, fs[i].arcs, 'member', 'arcs of the member')
    elif mode == 'index':
        idx = [r.randrange(len(fs)) for _ in range(r.randint(1, 6))]
        out = k2.index_fsa(att.fsa, torch.tensor(idx, dtype=torch.int32))
        src = [x for i in idx for x in b[i]]
        ctx.eq([f.arcs for f in fsam.vec_from_k2(out)], [fs[i].arcs for i in idx], 'member', 'arcs')
    elif mode == 'clone':
        out = att.fsa.clone()
        src = list(range(att.n))
    elif mode == 'to':
        out = att.fsa.to('cpu')
        src = list(range(att.n))
    elif mode == 'cat':
        fs2 = [fsam.gen(r) for _ in range(r.randint(1, 3))]
        v2 = fsam.vec_to_k2(fs2)
        for k, v in att.vals.items():
            if isinstance(v, torch.Tensor):
                sh = (v2.num_arcs,) + tuple(v.shape[1:])
                setattr(v2, k, torch.full(sh, 5, dtype=v.dtype))
            else:
                setattr(v2, k, k2.RaggedTensor([[1, 2]] * v2.num_arcs) if v2.num_arcs else v.arange(0, 0, 0))
        out = k2.cat([att.fsa, v2])
        ctx.eq([f.arcs for f in fsam.vec_from_k2(out)], [f.arcs for f in fs + fs2], 'member', 'arcs')
        ctx.eq(out.uid.tolist(), list(range(1, att.n + 1)) + [5] * v2.num_arcs, 'attr', 'uid after cat')
        n = att.n
        for k, v in att.vals.items():
            got = getattr(out, k)
            ctx.eq(got.tolist()[:n], v.tolist(), 'attr', f'{k} after cat')
            ctx.eq(got.tolist()[n:], getattr(v2, k).tolist(), 'attr', f'{k} after cat')
        check_grad(ctx, [(att, one(list(range(n)) + [-1] * v2.num_arcs))], out)
        return
    else:
        idx = [r.randrange(len(fs)) for _ in range(r.randint(1, 4))]
        out = k2.create_fsa_vec([att.fsa[i] for i in idx])
        src = [x for i in idx for x in b[i]]
        ctx.eq([f.arcs for f in fsam.vec_from_k2(out)], [fs[i].arcs for i in idx], 'member', 'arcs')
    check_tensor(ctx, att, out, src)
    check_grad(ctx, [(att, one(src))], out)
    ctx.count('mode:' + mode)


def binary(ctx, what):
    r = ctx.rng
    cyc = r.random() < 0.3
    kw = dict(cyclic=cyc, max_n=5, labels=2, eps=r.choice([0, 0.3]))
    form = r.choice(['ss', 'vv'])
    k = r.randint(1, 3) if form == 'vv' else 1
    A = [fsam.arc_sorted(fsam.gen(r, allow_empty=form == 'vv', **kw)) for _ in range(k)]
    B = [fsam.arc_sorted(fsam.gen(r, allow_empty=form == 'vv', **kw)) for _ in range(k)]
    a = mk(ctx, fs=A, vec=form == 'vv', pre='a_')
    b = mk(ctx, fs=B, vec=form == 'vv', pre='b_')
    # a float attribute both have is summed; each side's filler where unmatched
    sa = torch.tensor([r.randint(-8, 8) / 4 for _ in range(a.n)], requires_grad=True)
    sb = torch.tensor([r.randint(-8, 8) / 4 for _ in range(b.n)], requires_grad=True)
    a.fsa.both, b.fsa.both = sa, sb
    if r.random() < 0.5:
        a.fsa.shared, b.fsa.shared = 'from a', 'from b'
    special = True
    if what == 'intersect':
        special = r.random() < 0.6
        out, ma, mb = k2.intersect(a.fsa, b.fsa, treat_epsilons_specially=special, ret_arc_maps=True)
    elif what == 'device':
        if form == 'ss':
            raise Skip('')
        m = torch.arange(k, dtype=torch.int32)
        out, ma, mb = k2.intersect_device(a.fsa, b.fsa, m, ret_arc_maps=True)
    else:
        if form == 'ss':
            raise Skip('')
        out, mb, ma = k2.replace_fsa(a.fsa, b.fsa, 1, ret_arc_map=True)
    sa_i, sb_i = ma.tolist(), mb.tolist()
    check_tensor(ctx, a, out, sa_i, exact_scores=False)
    check_tensor(ctx, b, out, sb_i, exact_scores=False)
    ctx.eq(out.scores.tolist(), [(a.arcs[i][3] if i >= 0 else 0.0) + (b.arcs[j][3] if j >= 0 else 0.0)
                                 for i, j in zip(sa_i, sb_i)], 'scores', 'sum of the sources')
    va, vb = sa.tolist(), sb.tolist()
    ctx.eq(out.both.tolist(), [(va[i] if i >= 0 else 0.0) + (vb[j] if j >= 0 else 0.0)
                               for i, j in zip(sa_i, sb_i)], 'attr-both', 'summed attribute')
    if hasattr(a.fsa, 'shared'):
        ctx.eq(out.shared, 'from a', 'non-tensor', 'attribute both sources have')
    out2 = out
    g = [r.randint(-8, 8) / 4 for _ in range(out.num_arcs)]
    check = [(a, one(sa_i)), (b, one(sb_i))]
    extra = (out.both * torch.tensor(g)).sum() if g else None
    if extra is not None:
        extra.backward(retain_graph=True)
        for t, idx in ((sa, sa_i), (sb, sb_i)):
            w = [0.0] * t.numel()
            for j, i in enumerate(idx):
                if i >= 0:
                    w[i] += g[j]
            ctx.closes(t.grad.tolist(), w, 'grad', 'gradient of the summed attribute')
    check_grad(ctx, check, out2)


@un
def u_intersect(ctx):
    binary(ctx, 'intersect')


@un
def u_intersect_device(ctx):
    binary(ctx, 'device')


@un
def u_replace(ctx):
    binary(ctx, 'replace')


@un
def u_compose_maps(ctx):
    r = ctx.rng
    n = r.randint(0, 8)
    m1 = [r.randint(-1, 20) for _ in range(n)]
    m2 = [r.randint(-1, n - 1) for _ in range(r.randint(0, 10))]
    got = k2.compose_arc_maps(torch.tensor(m1, dtype=torch.int32), torch.tensor(m2, dtype=torch.int32))
    ctx.eq(got.tolist(), [m1[i] if i >= 0 else -1 for i in m2], 'compose-maps', 'composed arc map', m1=m1, m2=m2)


@un
def u_chain(ctx):
    """Several operations in a row."""
    r = ctx.rng
    att = mk(ctx, cyclic=False, topo=False)
    x = att.fsa
    ops = []
    for _ in range(r.randint(2, 4)):
        o = r.choice([k2.connect, k2.arc_sort, k2.top_sort, k2.add_epsilon_self_loops, k2.remove_epsilon_self_loops])
        ops.append(o.__name__)
        if o is k2.top_sort and not (x.properties & 8 or True):
            continue
        x = o(x)
    ctx.note(ops=ops)
    src = tensor_case(ctx, att, x)
    check_grad(ctx, [(att, one(src))], x)


@un
def u_rename(ctx):
    att = mk(ctx, aux='tensor')
    r = ctx.rng
    names = [k for k in att.vals]
    k = r.choice(names)
    out = att.fsa.rename_tensor_attribute_(k, 'renamed')
    ctx.ok(not hasattr(out, k), 'rename', 'old name still there')
    ctx.ok(getattr(out, 'renamed') is att.vals[k], 'rename', 'value')
    if k in att.fill:
        ctx.eq(out.get_filler('renamed'), att.fill[k], 'rename-filler', 'filler of the renamed attribute')


NAMES = sorted(UN)


def case(ctx):
    name = ctx.rng.choice(NAMES)
    ctx.sig(name, ctx.idx)
    UN[name](ctx)
    ctx.count('op:' + name)
