"""C32: the C++ decoding library (k2/torch/csrc) through the drivers
native/na_*.cc, compared with the Python interface and with explicit models."""
import json
import os

import torch
import k2
import _k2
from k2v import apim, build, dense, fsam
from k2v.apim import Scratch, call
from k2v.core import Skip
from k2v.fsam import F, NINF

o = torch.ops.k2v
HAVE = set()


def setup(mode):
    for m, p in json.load(open(os.path.join(build.WORK, 'na-release', 'modules.json'))).items():
        torch.ops.load_library(p)
        HAVE.add(m)
    if 'search' in HAVE:
        apim.make_models()


# ------------------------------------------------------------ FSAs both ways

def tens(r, n, kind=None, wide=False):
    kind = kind or r.choice(['f', 'f', 'd', 'i', 'i'])
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    shape = (n, r.randint(1, 3)) if wide and r.random() < .12 else (n,)
    if kind == 'i':
        return torch.randint(-3, 50, shape, generator=g, dtype=torch.int32)
    x = torch.randint(-32, 32, shape, generator=g).float() / 8
    return x if kind == 'f' else x.double()


def rag(r, n, lo=0, hi=9):
    rows = [[r.randint(lo, hi) for _ in range(r.choice([0, 1, 1, 2, 3]))] for _ in range(n)]
    return ragged(rows)


def ragged(rows):
    if not rows:
        return k2.RaggedTensor([[1]]).arange(0, 0, 0)
    return k2.RaggedTensor(rows, dtype=torch.int32)


NAMES = ['score2', 'phone', 'w', 'lm_scores', 'id']


def decorate(ctx, fsa, k=None, names=NAMES, aux=None, wide=False):
    """Random attributes. aux: None, 'tensor' or 'ragged' word labels."""
    r = ctx.rng
    n = fsa.num_arcs
    for name in r.sample(names, min(len(names), r.randint(0, 3) if k is None else k)):
        if r.random() < .3:
            setattr(fsa, name + '_r', rag(r, n))
        else:
            setattr(fsa, name, tens(r, n, wide=wide))
    if aux:
        lab = fsa.labels.tolist()
        rows = []
        for x in lab:
            if x == -1:
                rows.append([-1])
            elif aux == 'tensor':
                rows.append([r.choice([0, 0, 1, 2, 3])])
            else:
                rows.append([r.randint(1, 3) for _ in range(r.choice([0, 0, 1, 1, 2]))])
        if aux == 'tensor':
            fsa.aux_labels = torch.tensor([x[0] for x in rows], dtype=torch.int32)
        else:
            fsa.aux_labels = ragged(rows)
    return fsa


def attrs_of(fsa):
    return {n: v for n, v in fsa.named_tensor_attr(include_scores=False)}


def form(arcs):
    """The tensor form. That of a single FSA finds the number of states from
    the arcs entering the final state."""
    t = _k2.fsa_to_tensor(arcs)
    if t.dim() == 2 and arcs.dim0() and -1 not in t[:, 2].tolist():
        raise Skip
    return t


def put(fsa):
    h = o.new(form(fsa.arcs))
    for n, v in attrs_of(fsa).items():
        if isinstance(v, torch.Tensor):
            o.set_tensor(h, n, v.detach().clone())
        else:
            o.set_ragged(h, n, [v.shape.row_splits(1), v.values])
    return h


def splits(fsa):
    s = fsa.arcs.shape()
    return [s.row_splits(i).tolist() for i in range(1, s.num_axes)]


def layers(v):
    """Nested lists of a two-axis ragged from [row_splits, values]."""
    return apim.split(v[0], v[1])


def state(h):
    """Everything visible of an object."""
    at = {}
    for a in o.attrs(h):
        k, n = a.split(':', 1)
        v = o.get_tensor(h, n) if k == 't' else layers(o.get_ragged(h, n))
        at[n] = (k, str(v.dtype), v.tolist()) if k == 't' else (k, v)
    return [x.tolist() for x in o.shape(h)], o.arcs(h).tolist(), at


def want_attrs(fsa):
    at = {}
    for n, v in attrs_of(fsa).items():
        at[n] = ('t', str(v.dtype), v.tolist()) if isinstance(v, torch.Tensor) else ('r', v.tolist())
    return at


def scores_of(h):
    return o.get_tensor(h, 'scores').tolist()


def same(ctx, h, fsa, key, tol=0.0, attrs=True, skip=()):
    """The C++ object equals the Python FSA."""
    sh, arcs, at = state(h)
    ctx.eq(sh, splits(fsa), key, 'shape')
    w = fsa.arcs.values()[:, :3].tolist() if fsa.num_arcs else []
    ctx.eq([a[:3] for a in arcs], w, key, 'arcs')
    g, w = scores_of(h), fsa.scores.tolist()
    if tol:
        ctx.closes(g, w, key, 'scores', tol=tol, rel=tol)
    else:
        ctx.eq(g, w, key, 'scores')
    if attrs:
        want = want_attrs(fsa)
        ctx.eq(sorted(at), sorted(want), key + '-attrs', 'names of the attributes')
        for n in want:
            if n not in skip:
                ctx.eq(at[n], want[n], key + '-attrs', f'attribute {n}')
        ctx.eq(o.num_attrs(h), len(want), key + '-attrs', 'NumAttrs')
    ctx.eq(o.props(h), int(fsa.properties), key + '-properties', 'properties')


def as_f(h):
    """[F] of a C++ object."""
    sh = [x.tolist() for x in o.shape(h)]
    arcs = o.arcs(h).tolist()
    sc = scores_of(h)
    if len(sh) == 1:
        n = len(sh[0]) - 1
        return [F(n, [(a[0], a[1], a[2], s) for a, s in zip(arcs, sc)])]
    out = []
    for a, b in zip(sh[0], sh[0][1:]):
        x, y = sh[1][a], sh[1][b]
        out.append(F(b - a, [(q[0], q[1], q[2], s) for q, s in zip(arcs[x:y], sc[x:y])]))
    return out


def rows(v):
    return [[x] for x in v.tolist()] if isinstance(v, torch.Tensor) else v.tolist()


def h_rows(h, name):
    return [[x] for x in o.get_tensor(h, name).tolist()] if 't:' + name in o.attrs(h) else layers(o.get_ragged(h, name))


def per(fs, vals):
    return fsam.split(vals, fs)


def pathset(f, aux, extra=None, cap=3000, raw=False):
    """[(labels, words, score, sum of extra)] of every path."""
    ps = fsam.paths(f, cap)
    if ps is None:
        raise Skip
    out = []
    for p in ps:
        li = tuple(f.arcs[i][2] for i in p if f.arcs[i][2] != -1 and (raw or f.arcs[i][2] != 0))
        out.append((li, tuple(x for i in p for x in aux[i] if x > 0), sum(f.arcs[i][3] for i in p),
                    sum(extra[i] for i in p) if extra else 0.0))
    return out


def lattice(ctx, k=None, empty=True, aux=None, lm=False, score='norm', max_n=6, names=('w', 'id')):
    """(k2 FsaVec, [F], aux rows per member, lm per member) of acyclic FSAs."""
    r = ctx.rng
    fs = []
    for _ in range(k or r.choice([1, 2, 2, 3])):
        for _ in range(30):
            f = fsam.gen(r, cyclic=False, eps=r.choice([0, .3]), score=score, max_n=max_n, labels=3, allow_empty=empty)
            if empty or fsam.paths(f, 400):
                break
        else:
            raise Skip
        if (fsam.paths(f, 400) is None):
            raise Skip
        fs.append(f)
    vec = fsam.vec_to_k2(fs)
    aux = aux or r.choice(['tensor', 'ragged'])
    decorate(ctx, vec, names=list(names), aux=aux)
    if lm:
        vec.lm_scores = tens(r, vec.num_arcs, 'f')
    ctx.note(fs=fs, aux=rows(vec.aux_labels), attrs=want_attrs(vec))
    return vec, fs, per(fs, rows(vec.aux_labels)), per(fs, vec.lm_scores.tolist()) if lm else None


# --------------------------------------------------------------------- cases

def k_topo(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 3, 5, 17])
    if r.random() < .5:
        m = r.random() < .5
        ctx.sig('ctc', n, m)
        same(ctx, o.ctc_topo(n, m), k2.ctc_topo(n, m), 'ctc-topo')
    else:
        n = max(n, 1)
        ctx.sig('trivial', n)
        same(ctx, o.trivial_graph(n), k2.trivial_graph(n), 'trivial-graph')


def k_shapes(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 5, 20])
    sizes = [r.choice([0, 1, 2, 3]) for _ in range(n)]
    rs = [0]
    for x in sizes:
        rs.append(rs[-1] + x)
    ri = [i for i, x in enumerate(sizes) for _ in range(x)]
    t = lambda v: torch.tensor(v, dtype=torch.int32)
    ctx.note(sizes=sizes)
    ctx.sig('shapes', sizes)
    x = r.randrange(3)
    # rows at the end without elements need row_splits
    while x == 1 and rs and len(rs) > 1 and rs[-1] == rs[-2]:
        rs.pop()
    tot = r.choice([-1, len(ri)])
    h = o.ragged_shape2(t(rs) if x != 1 else None, t(ri) if x != 0 else None, tot)
    ctx.eq(o.row_splits(h, 1).tolist(), rs, 'ragged-shape', 'row splits')
    ctx.eq(o.row_ids(h, 1).tolist(), ri, 'ragged-shape', 'row ids')
    ctx.eq([o.tot_size(h, 0), o.tot_size(h, 1)], [len(rs) - 1, len(ri)], 'ragged-shape', 'sizes')
    v = [r.randint(-5, 5) for _ in range(max(n, 1))]
    more = r.randint(0, 1)
    # with one sum more than there are values the last value must exist in memory
    src = t(v + [5])[:-1] if more else t(v)
    dst = torch.full((len(v) + more,), 99, dtype=torch.int32)
    o.exclusive_sum(src, dst)
    ctx.eq(dst.tolist(), [sum(v[:i]) for i in range(len(v) + more)], 'exclusive-sum', 'sums')


def k_load(ctx):
    r = ctx.rng
    fs, vec = fsam.gen_batch(r, empty_batch=False)
    fsa = fsam.build(fs, vec)
    decorate(ctx, fsa, aux=r.choice([None, 'tensor', 'ragged']), wide=True)
    if r.random() < .3:
        fsa.plain = r.choice(['text', 3, [1, 2], None])
    ctx.note(fs=fs, vec=vec, attrs=want_attrs(fsa))
    ctx.sig('load', fs, vec)
    form(fsa.arcs)
    with Scratch() as d:
        f = os.path.join(d, 'x.pt')
        x = r.random()
        if x < .85:
            torch.save(fsa.as_dict(), f)
            want = k2.Fsa.from_dict(torch.load(f))
            for n in ('plain',):
                if hasattr(want, n):
                    delattr(want, n)
            same(ctx, o.load(f), want, 'load')
        elif x < .9:
            torch.save(fsa.as_dict(), f, _use_new_zipfile_serialization=False)
            _, e = call(o.load, f)
            ctx.ok(e is not None, 'load-old-format', 'a file in the old format is accepted')
        elif x < .95:
            dd = fsa.as_dict()
            del dd['arcs']
            torch.save(dd, f)
            _, e = call(o.load, f)
            ctx.ok(e is not None, 'load-no-arcs', 'a file without arcs is accepted')
        else:
            _, e = call(o.load, f + 'x')
            ctx.ok(e is not None, 'load-missing', 'a missing file is accepted')


def k_attrs(ctx):
    """FsaClass::FromUnaryFunctionTensor, setters and scaling."""
    r = ctx.rng
    fs, vec = fsam.gen_batch(r)
    fsa = fsam.build(fs, vec)
    decorate(ctx, fsa, k=r.choice([2, 3, 4]))
    gs, gv = fsam.gen_batch(r)
    out = fsam.build(gs, gv)
    n, m = fsa.num_arcs, out.num_arcs
    amap = [r.randint(-1, n - 1) if n else -1 for _ in range(m)]
    ctx.note(fs=fs, gs=gs, map=amap, attrs=want_attrs(fsa))
    ctx.sig('attrs', fs, gs, amap)
    h = put(fsa)
    before = state(h)
    ctx.eq(before[2], want_attrs(fsa), 'attributes', 'attributes as set')
    u = o.unary(h, form(out.arcs), torch.tensor(amap, dtype=torch.int32))
    _, arcs, at = state(u)
    ctx.eq(arcs, out.arcs.values().tolist() if m else [], 'unary', 'arcs')
    for nm, v in attrs_of(fsa).items():
        if isinstance(v, torch.Tensor):
            z = torch.zeros_like(v[:1]).tolist()[0] if n else (0 if v.dim() == 1 else [0] * v.shape[1])
            ctx.eq(at[nm], ('t', str(v.dtype), [v.tolist()[i] if i >= 0 else z for i in amap]), 'unary-attrs', nm)
        else:
            ctx.eq(at[nm], ('r', [v.tolist()[i] if i >= 0 else [] for i in amap]), 'unary-attrs', nm)
    ctx.eq(len(at), len(attrs_of(fsa)), 'unary-attrs', 'number of attributes')
    # scaling and setting
    for nm, v in list(attrs_of(fsa).items()) + [('scores', None)]:
        s = r.choice([0.5, 2.0, 0.0, -1.0, 0.25])
        if nm == 'scores':
            o.scale(h, s, nm)
            ctx.eq(scores_of(h), (fsa.scores * s).tolist(), 'scale', 'scores')
        elif isinstance(v, torch.Tensor) and v.dtype != torch.int32:
            o.scale(h, s, nm)
            ctx.eq(o.get_tensor(h, nm).tolist(), (v * s).tolist(), 'scale', nm)
        else:
            _, e = call(o.scale, h, s, nm)
            ctx.ok(e is not None, 'scale-integers', 'scaling an attribute that has no real numbers is accepted')
            if isinstance(v, torch.Tensor):
                ctx.eq(o.get_tensor(h, nm).tolist(), v.tolist(), 'scale-integers', 'changed by a refused call')
    ctx.eq(state(h)[0], before[0], 'scale', 'shape')
    _, e = call(o.get_tensor, h, 'no_such')
    ctx.ok(e is not None, 'missing-attr', 'an attribute that does not exist is returned')
    _, e = call(o.set_tensor, h, 'w', torch.zeros(n + 1))
    ctx.ok(e is not None, 'wrong-size', 'an attribute of the wrong length is accepted')
    x = tens(r, n, 'f')
    o.set_tensor(h, 'scores', x)
    ctx.eq(scores_of(h), x.tolist(), 'set-scores', 'scores')
    ctx.eq([a[:3] for a in o.arcs(h).tolist()], [a[:3] for a in before[1]], 'set-scores', 'arcs')
    lab = [a[2] if a[2] == -1 else r.randint(0, 5) for a in before[1]]
    o.set_tensor(h, 'labels', torch.tensor(lab, dtype=torch.int32))
    ctx.eq(o.get_tensor(h, 'labels').tolist(), lab, 'set-labels', 'labels')
    f2 = fsa.clone()
    f2.labels = torch.tensor(lab, dtype=torch.int32)
    ctx.eq(o.props(h), int(f2.properties), 'set-labels', 'properties after the labels changed')
    ctx.eq([a[:2] for a in o.arcs(h).tolist()], [a[:2] for a in before[1]], 'set-labels', 'states')


def k_transform(ctx):
    r = ctx.rng
    op = r.choice(['invert', 'invert', 'arc_sort', 'connect', 'top_sort'])
    fs, vec = fsam.gen_batch(r, cyclic=op != 'top_sort' and r.random() < .4, topo=r.random() < .5)
    fsa = fsam.build(fs, vec)
    aux = r.choice(['tensor', 'ragged']) if op == 'invert' else r.choice([None, 'tensor', 'ragged'])
    decorate(ctx, fsa, aux=aux)
    ctx.note(op=op, fs=fs, vec=vec, attrs=want_attrs(fsa))
    ctx.sig(op, fs, vec, aux)
    h = put(fsa)
    if op == 'invert':
        c = o.copy_of(h)
        before = state(c)
        o.invert(h)
        want = k2.invert(fsa)
        if 'r:aux_labels' in o.attrs(h):
            # Python turns rows of at most one label into a tensor, C++ does not
            ctx.eq([x or [0] for x in layers(o.get_ragged(h, 'aux_labels'))], [x or [0] for x in rows(want.aux_labels)], 'invert', 'aux labels')
            same(ctx, h, want, 'invert', skip={'aux_labels'})
        else:
            same(ctx, h, want, 'invert')
        ctx.eq(state(c), before, 'invert-copy', 'inverting changed a copy made before')
        return
    fn = {'arc_sort': _k2.arc_sort, 'connect': _k2.connect, 'top_sort': _k2.top_sort}[op]
    arcs, amap = fn(fsa.arcs, need_arc_map=True)
    want = k2.utils.fsa_from_unary_function_tensor(fsa, arcs, amap)
    getattr(o, op)(h)
    same(ctx, h, want, op)


def k_tot(ctx):
    r = ctx.rng
    fs = [fsam.gen(r, cyclic=False) for _ in range(r.randint(1, 4))]
    fsa = fsam.vec_to_k2(fs)
    log = r.random() < .5
    ctx.note(fs=fs, log=log)
    ctx.sig('tot', fs, log)
    a, b = o.tot_scores(put(fsa), log)
    for g, w, name, tol in ((a, fsa.get_tot_scores(False, log), 'float', 1e-5), (b, fsa.get_tot_scores(True, log), 'double', 1e-9)):
        ctx.eq(g.dtype, w.dtype, 'tot-scores', 'type')
        ctx.closes(g.tolist(), w.tolist(), 'tot-scores', name, tol=tol, rel=tol)
    if log:
        ctx.closes(b.tolist(), [fsam.forward(f, 'log')[-1] if f.n else NINF for f in fs], 'tot-scores', 'definition', tol=1e-6, rel=1e-6)


def k_lattice(ctx):
    r = ctx.rng
    N, C = r.choice([1, 2, 3]), r.choice([2, 3, 5])
    T = r.choice([1, 3, 6, 9])
    lp, style = dense.gen_rows(ctx, N, T, C)
    lens = sorted([r.randint(1, T) for _ in range(N)], reverse=True)
    lens[0] = max(1, lens[0])
    k = r.choice([1, 1, N])
    gs = [dense.gen_graph(ctx, C, empty=False) for _ in range(k)]
    single = k == 1 and r.random() < .4
    try:
        g = fsam.single_k2(gs[0]) if single else fsam.vec_to_k2(gs)
    except RuntimeError:
        raise Skip
    aux = r.choice(['tensor', 'ragged', 'ragged', None])
    decorate(ctx, g, aux=aux)
    sub = r.choice([1, 2, 4])
    over = [min(T + sub - 1, L + r.randint(0, sub - 1)) if L == T else L for L in lens]
    lo, hi = r.choice([(0, 10000), (0, 10000), (1, 3), (30, 10000), (0, 5)])
    sb, ob = r.choice([20., 5., 100., 2.]), r.choice([8., 3., 100., 1.])
    ctx.note(gs=gs, lp=lp, lens=over, single=single, attrs=want_attrs(g), sb=sb, ob=ob, lo=lo, hi=hi, sub=sub)
    ctx.sig('lattice', gs, lp.flatten().tolist(), over, sb, ob, lo, hi)
    h = put(g)
    before = state(h)
    seg = torch.tensor([[i, 0, L] for i, L in enumerate(over)], dtype=torch.int32)
    d = k2.DenseFsaVec(lp, seg, allow_truncate=sub - 1)
    if r.random() < .25:
        part = r.random() < .7
        x = o.pruned(h, lp, seg, sub - 1, sb, ob, lo, hi, part)
        same(ctx, x, k2.intersect_dense_pruned(g, d, sb, ob, lo, hi, allow_partial=part), 'pruned')
        return
    lens_t = torch.tensor(over, dtype=r.choice([torch.int32, torch.int64]))
    x = o.get_lattice(lp, lens_t, h, sb, ob, lo, hi, sub)
    want = k2.intersect_dense_pruned(g, d, sb, ob, lo, hi)
    same(ctx, x, want, 'lattice')
    ctx.eq(state(h), before, 'lattice-input', 'the decoding graph changed')
    lat0 = state(x)
    s = o.shortest_path(x)
    ws = k2.shortest_path(want, use_double_scores=False)
    same(ctx, s, ws, 'shortest-path')
    ctx.eq(state(x), lat0, 'shortest-path-input', 'the lattice changed')
    if aux:
        got = [v for v in apim.split(*o.best_path(x))]
        ctx.eq(got, words_of(ws), 'best-path', 'words')
        ctx.eq(layers(o.texts(s)), words_of(ws), 'texts', 'words of the best paths')
        ctx.count('decoded-words', sum(map(len, got)))
    f = r.choice([0.5, 2.0])
    o.scale(x, f, 'scores')
    ctx.eq(scores_of(x), (want.scores * f).tolist(), 'scale', 'lattice scores')


def words_of(fsa):
    """Positive aux labels of each member in arc order."""
    sh = splits(fsa)
    ax = rows(fsa.aux_labels)
    return [[x for i in range(sh[1][a], sh[1][b]) for x in ax[i] if x > 0] for a, b in zip(sh[0], sh[0][1:])]


def k_dense(ctx):
    r = ctx.rng
    N, T, C = r.randint(1, 4), r.choice([1, 2, 5, 9]), r.choice([1, 2, 5])
    lp, _ = dense.gen_rows(ctx, N, T, C)
    if r.random() < .3:
        lp = torch.stack([lp, lp], 1).flatten(0, 1)[::2]
    tr = r.choice([0, 0, 1, 3])
    seg, _ = dense.gen_segments(ctx, N, T, trunc=tr)
    lay = r.choice(['plain', 'plain', 'rows', 'transposed'])
    s2 = seg
    if lay == 'rows':
        s2 = torch.stack([seg, seg * 0 + 7], 1)[:, 0]
    if lay == 'transposed':
        s2 = seg.t().contiguous().t()
    ctx.note(lp=lp, seg=seg, trunc=tr, layout=lay)
    ctx.sig('dense', lp.flatten().tolist(), seg.tolist(), lay)
    rs, sc = o.dense(lp, s2, tr)
    d = k2.DenseFsaVec(lp, seg, allow_truncate=tr)
    ctx.eq(rs.tolist(), d.dense_fsa_vec.shape().row_splits(1).tolist(), 'dense', 'row splits')
    ctx.eq(sc.tolist(), d.scores.tolist(), 'dense', 'scores')
    sub = r.choice([1, 2, 3, 4])
    n = r.randint(1, 4)
    v = [[r.randint(0, 5), r.randint(0, 40), r.randint(0, 40)] for _ in range(n)]
    dt = r.choice([torch.int32, torch.int64])
    got = o.segments(*(torch.tensor([x[i] for x in v], dtype=dt) for i in range(3)), sub)
    ctx.eq(got.tolist(), [[a, b // sub, c // sub] for a, b, c in v], 'segments', 'supervision segments')


def k_device(ctx):
    r = ctx.rng
    na = r.choice([1, 1, 2, 3])
    nb = r.randint(1, 4)
    a = [fsam.gen(r, allow_empty=False, max_n=5, labels=3, eps=.2, score='neg') for _ in range(na)]
    b = [fsam.gen(r, allow_empty=False, max_n=5, labels=3, eps=.2, score='neg', cyclic=False) for _ in range(nb)]
    srt = r.random() < .5
    if srt:
        a = [fsam.arc_sorted(f) for f in a]
    A, B = fsam.vec_to_k2(a), fsam.vec_to_k2(b)
    decorate(ctx, A, names=['p', 'q'], aux=r.choice([None, 'tensor', 'ragged']))
    decorate(ctx, B, names=['x', 'y'])
    m = [r.randrange(na) for _ in range(nb)]
    ctx.note(a=a, b=b, map=m, sorted=srt)
    ctx.sig('device', a, b, m)
    t = torch.tensor(m, dtype=torch.int32)
    h = o.intersect_device(put(A), put(B), t, srt)
    same(ctx, h, k2.intersect_device(A, B, t, sorted_match_a=srt), 'intersect-device')


def k_loops(ctx):
    r = ctx.rng
    fs, vec = fsam.gen_batch(r, eps=.2)
    fsa = fsam.build(fs, vec)
    ctx.note(fs=fs, vec=vec)
    ctx.sig('loops', fs, vec)
    h = put(fsa)
    lab = [[a[2] for a in f.arcs if a[2] > 0] for f in fs]
    want = k2.add_epsilon_self_loops(k2.linear_fsa(lab if vec else lab[0]))
    g = o.self_loops(h)
    ctx.eq(o.arcs(g).tolist(), want.arcs.values().tolist(), 'self-loops', 'arcs')
    ctx.eq([x.tolist() for x in o.shape(g)], splits(want), 'self-loops', 'shape')
    if vec:
        decorate(ctx, fsa, k=0, aux=r.choice(['tensor', 'ragged']))
        ctx.eq(layers(o.texts(put(fsa))), words_of(fsa), 'texts', 'positive aux labels')


def check_random(ctx, h, rs, fs, aux, n, scaled, key='random-paths'):
    """h: linear FSAs sampled from the lattice. Returns words per utterance."""
    got = as_f(h)
    gx = per(got, h_rows(h, 'aux_labels'))
    ctx.eq(len(rs), len(fs) + 1, key, 'rows')
    ctx.eq(rs[-1], len(got), key, 'paths')
    for u, f in enumerate(fs):
        all_ = pathset(f, aux[u], raw=True)
        legal = {(p[0], p[1]) for p in all_}
        seen = []
        for j in range(rs[u], rs[u + 1]):
            g = got[j]
            ctx.eq([(a[0], a[1]) for a in g.arcs], [(i, i + 1) for i in range(len(g.arcs))], key, 'not a linear FSA')
            ctx.ok(g.arcs and g.arcs[-1][2] == -1 and all(a[2] != -1 for a in g.arcs[:-1]), key, 'final arc')
            tok = tuple(a[2] for a in g.arcs[:-1])
            wd = tuple(x for v in gx[j] for x in v if x > 0)
            ctx.ok((tok, wd) in legal, key, f'not a path of the lattice: {tok} {wd}', legal=sorted(legal)[:20])
            seen.append(wd)
        ctx.eq(len(set(seen)), len(seen), key, 'a word sequence twice')
        ctx.ok(len(seen) <= n, key, 'more paths than asked for')
        ctx.eq(bool(seen), bool(all_), key, 'paths found')
        # sequences that n samples cannot miss
        p = prob(all_, scaled)
        for w, q in p.items():
            if (1 - q) ** n < 1e-12:
                ctx.count('sure-sequences')
                ctx.ok(w in seen, key + '-likely', f'probability {q:.3f}, {n} samples, never seen')


def prob(paths, scale):
    import math
    t = {}
    if not paths:
        return t
    m = max(p[2] for p in paths)
    for p in paths:
        t[p[1]] = t.get(p[1], 0.0) + math.exp((p[2] - m) * scale)
    z = sum(t.values())
    return {k: v / z for k, v in t.items()}


def k_random(ctx):
    r = ctx.rng
    vec, fs, aux, _ = lattice(ctx)
    n = r.choice([2, 3, 10, 100, 300])
    h = put(vec)
    before = state(h)
    ctx.sig('random', fs, aux, n)
    if r.random() < .4:
        g, rs = o.random_paths(h, n)
        s = 1.0
    else:
        s = r.choice([0.5, 1.0, 0.25, 2.0])
        g, rs = o.nbest_from_lattice(h, n, s)
    check_random(ctx, g, rs.tolist(), fs, aux, n, s)
    ctx.eq(state(h), before, 'random-paths-input', 'the lattice changed')


def near(a, b):
    return abs(a - b) <= 2e-3


def k_nbest(ctx):
    r = ctx.rng
    vec, fs, aux, lm = lattice(ctx, lm=True, empty=False, names=())
    h = put(vec)
    n = r.choice([2, 5, 30])
    g, rs = o.nbest_from_lattice(h, n, r.choice([.5, 1.]))
    rs_l = rs.tolist()
    gf, gx = as_f(g), None
    gx = per(gf, h_rows(g, 'aux_labels'))
    ctx.sig('nbest', fs, aux, n)
    res = o.nbest_intersect(g, rs, o.copy_of(put(vec)))
    out = as_f(res)
    ox = per(out, h_rows(res, 'aux_labels'))
    ol = per(out, o.get_tensor(res, 'lm_scores').tolist())
    ctx.eq(len(out), len(gf), 'nbest-intersect', 'paths')
    am_want, lm_want = [], []
    for u, f in enumerate(fs):
        al = pathset(f, aux[u], lm[u])
        for j in range(rs_l[u], rs_l[u + 1]):
            wd = tuple(x for v in gx[j] for x in v if x > 0)
            best = max(p[2] for p in al if p[1] == wd)
            pp = pathset(out[j], ox[j], ol[j])
            ctx.eq(len(pp), 1, 'nbest-intersect', 'not a single path', f=out[j])
            p = pp[0]
            ctx.eq(p[1], wd, 'nbest-intersect', 'word sequence')
            ctx.ok(near(p[2], best), 'nbest-intersect', f'score {p[2]}, the best path with these words has {best}')
            ctx.ok(any(q[0] == p[0] and q[1] == wd and near(q[2], p[2]) and near(q[3], p[3]) for q in al), 'nbest-intersect',
                   f'not a path of the lattice: {p}')
            am_want.append(p[2] - p[3])
            lm_want.append(p[3])
    am, lms = o.nbest_scores(res, rs)
    ctx.closes(am.tolist(), am_want, 'nbest-scores', 'acoustic', tol=1e-3)
    ctx.closes(lms.tolist(), lm_want, 'nbest-scores', 'language model', tol=1e-3)


def k_whole(ctx):
    r = ctx.rng
    vec, fs, aux, lm = lattice(ctx, lm=True, empty=False, names=(), max_n=5)
    gf = fsam.gen(r, labels=3, cyclic=r.random() < .5, self_loops=False, eps=r.choice([0, .2]), max_n=4, allow_empty=False, score='neg')
    if not fsam.is_acyclic(gf, only=lambda a: a[2] == 0):
        raise Skip
    G = k2.arc_sort(k2.add_epsilon_self_loops(fsam.vec_to_k2([gf])))
    G.lm_scores = G.scores.clone()
    s = r.choice([1., 1., .5, 2.])
    ctx.note(G=gf, scale=s)
    ctx.sig('whole', fs, aux, gf, s)
    h = put(vec)
    o.whole_lattice(put(G), s, h)
    # the Python pipeline
    lat = vec.clone()
    lat.scores = lat.scores - lat.lm_scores
    del lat.lm_scores
    inv = k2.invert(lat)
    x = k2.intersect_device(G, inv, torch.zeros(len(fs), dtype=torch.int32), sorted_match_a=True)
    x = k2.invert(k2.top_sort(k2.connect(x)))
    if s != 1:
        x.scores = (x.scores - x.lm_scores) / s + x.lm_scores
    want = fsam.vec_from_k2(x)
    wx, wl = per(want, rows(x.aux_labels)), per(want, x.lm_scores.tolist())
    got = as_f(h)
    ctx.eq(len(got), len(fs), 'whole-lattice', 'members')
    gx, gl = per(got, h_rows(h, 'aux_labels')), per(got, o.get_tensor(h, 'lm_scores').tolist())
    for u in range(len(fs)):
        a, b = sorted(pathset(got[u], gx[u], gl[u])), sorted(pathset(want[u], wx[u], wl[u]))
        ctx.count('rescored-paths', len(b))
        ctx.eq(len(a), len(b), 'whole-lattice', 'number of paths')
        for k in (0, 1):
            ctx.eq(sorted(p[k] for p in a), sorted(p[k] for p in b), 'whole-lattice', ['tokens', 'words'][k])
        for k in (2, 3):
            ctx.closes(sorted(p[k] for p in a), sorted(p[k] for p in b), 'whole-lattice', 'scores', tol=1e-3)
        # every path is a lattice path with an LM score added
        al = pathset(fs[u], aux[u], lm[u])
        for p in a:
            ctx.ok(any(q[0] == p[0] and q[1] == p[1] and near((q[2] - q[3]) / s + p[3], p[2]) for q in al), 'whole-lattice-path',
                   f'path {p} does not come from the lattice', lattice=al[:20])


def k_best(ctx):
    r = ctx.rng
    vec, fs, aux, _ = lattice(ctx, empty=False, names=('w',))
    h = put(vec)
    before = state(h)
    n, s = r.choice([20, 100, 300]), r.choice([.5, 1.])
    mx = r.random() < .2
    ctx.note(n=n, scale=s, use_max=mx)
    ctx.sig('best', fs, aux, n, mx)
    g = o.best_paths(h, mx, n, s)
    ctx.eq(state(h), before, 'best-paths-input', 'the lattice of the caller changed')
    if mx:
        same(ctx, g, k2.shortest_path(vec, use_double_scores=False), 'best-paths-max')
        return
    got = as_f(g)
    ctx.eq(len(got), len(fs), 'best-paths', 'one path per utterance')
    gx = per(got, h_rows(g, 'aux_labels'))
    for u, f in enumerate(fs):
        al = pathset(f, aux[u])
        pp = pathset(got[u], gx[u])
        ctx.eq(len(pp), 1, 'best-paths', 'not a single path')
        tok, wd = pp[0][:2]
        ctx.ok(any(q[0] == tok and q[1] == wd for q in al), 'best-paths', f'not a path of the lattice: {tok} {wd}', lattice=al[:20])
        p, ps = prob(al, 1.0), prob(al, s)
        top = sorted(p.values(), reverse=True)
        w = max(p, key=p.get)
        if (len(top) == 1 or top[0] > top[1] * 1.01) and (1 - ps[w]) ** n < 1e-12:
            ctx.count('best-decided')
            ctx.eq(wd, w, 'best-paths-words', f'the most likely words (probability {p[w]:.3f})')


class Sampler:
    def __init__(self, r, V):
        self.g = torch.Generator().manual_seed(r.randrange(2 ** 31))
        self.V = V

    def __call__(self, k):
        return -torch.randint(0, 64, (k, self.V), generator=self.g).float() / 8


def k_rnnt(ctx):
    r = ctx.rng
    V, H = r.choice([2, 3, 4]), r.choice([1, 1, 2])
    k = r.choice([1, 2, 3])
    gs, hs, ps, cs = [], [], [], []
    for _ in range(k):
        f = r.choice([None, None, 'trivial'])
        if f:
            g = k2.trivial_graph(V - 1)
            if r.random() < .5:
                del g.aux_labels
        else:
            f = fsam.gen(r, eps=0, labels=V - 1, allow_empty=False, max_n=5, score='neg', connected=True)
            try:
                g = fsam.single_k2(f)
            except RuntimeError:
                raise Skip
            decorate(ctx, g, names=['p', 'q', 'z'], aux=r.choice([None, 'tensor']))
        gs.append(g)
        hs.append(put(g))
    ctx.note(gs=[fsam.from_k2(g) for g in gs], attrs=[want_attrs(g) for g in gs], V=V, H=H)
    ctx.count('rnnt-attributes', len({n for g in gs for n in attrs_of(g)}))
    # an attribute has one type in all graphs
    ty = {}
    for g in gs:
        for n, v in attrs_of(g).items():
            key = (v.dtype, v.dim()) if isinstance(v, torch.Tensor) else 'r'
            if ty.setdefault(n, key) != key or key != 'r' and v.dim() != 1:
                raise Skip
    beam, ms, mc = r.choice([2., 5., 100.]), r.choice([2, 8, 100]), r.choice([1, 3, 8, 100])
    ps = [k2.RnntDecodingStream(g) for g in gs]
    cs = [o.rnnt_stream(h) for h in hs]
    probs = Sampler(r, V)
    nf = [0] * k
    for _ in range(r.choice([1, 2, 3])):
        sel = sorted(r.sample(range(k), r.randint(1, k)), key=lambda i: r.random())
        cfg = k2.RnntDecodingConfig(V, H, beam, ms, mc)
        P = k2.RnntDecodingStreams([ps[i] for i in sel], cfg)
        Cx = o.rnnt_streams([cs[i] for i in sel], V, H, beam, mc, ms)
        for _ in range(r.randint(0, 4)):
            shape, ctxs = P.get_contexts()
            rs, cc = o.rnnt_contexts(Cx)
            ctx.eq(rs.tolist(), shape.row_splits(1).tolist(), 'rnnt-contexts', 'contexts per stream')
            ctx.eq(cc.tolist(), ctxs.tolist(), 'rnnt-contexts', 'contexts')
            lp = probs(ctxs.shape[0])
            P.advance(lp)
            o.rnnt_advance(Cx, lp.double() if r.random() < .2 else lp)
            for i in sel:
                nf[i] += 1
        P.terminate_and_flush_to_streams()
        o.rnnt_flush(Cx)
    cfg = k2.RnntDecodingConfig(V, H, beam, ms, mc)
    P = k2.RnntDecodingStreams(ps, cfg)
    Cx = o.rnnt_streams(cs, V, H, beam, mc, ms)
    P.terminate_and_flush_to_streams()
    o.rnnt_flush(Cx)
    part = r.random() < .6
    n = [r.randint(0, x) if r.random() < .2 else x for x in nf]
    ctx.note(frames=n, partial=part)
    ctx.sig('rnnt', [fsam.from_k2(g) for g in gs], n, beam)
    try:
        want = P.format_output(n, part)
    except Exception as e:
        _, e2 = call(o.rnnt_format, Cx, n, part)
        ctx.ok(e2 is not None, 'rnnt-format', f'Python refuses ({str(e)[:200]}), C++ does not')
        return
    same(ctx, o.rnnt_format(Cx, n, part), want, 'rnnt-format')


def k_chunks(ctx):
    r = ctx.rng
    f, m, V, H, blank, unk = r.choice([x for x in apim.MODELS if x[4] == 0])
    k = r.choice([1, 2, 3])
    gs = []
    for _ in range(k):
        if r.random() < .5:
            gs.append(k2.trivial_graph(V - 1))
        else:
            gs.append(fsam.to_k2(fsam.gen(r, eps=0, labels=V - 1, allow_empty=False, max_n=5, score='neg', connected=True)))
    enc, _ = apim.utts(ctx, N=k)
    T = enc.shape[1]
    ch = []
    while sum(ch) < T:
        ch.append(min(r.randint(1, 4), T - sum(ch)))
    beam, ms, mc = r.choice([3., 8., 50.]), r.choice([4, 100]), r.choice([2, 8, 100])
    ctx.note(gs=[fsam.from_k2(g) for g in gs], chunks=ch, model=f[-5:], beam=beam, ms=ms, mc=mc)
    hs = [put(g) for g in gs]
    x = o.chunks(f, hs, enc, ch, V, H, beam, ms, mc)
    ps = [k2.RnntDecodingStream(g) for g in gs]
    t = 0
    cfg = k2.RnntDecodingConfig(V, H, beam, ms, mc)
    with torch.no_grad():
        for c in ch:
            P = k2.RnntDecodingStreams(ps, cfg)
            for _ in range(c):
                shape, ctxs = P.get_contexts()
                e = enc[:, t:t + 1].index_select(0, shape.row_ids(1).long())
                lg = m.joiner(e.unsqueeze(1), m.decoder(ctxs.long(), False).unsqueeze(1)).squeeze(1).squeeze(1)
                P.advance(lg.log_softmax(-1))
                t += 1
            P.terminate_and_flush_to_streams()
    P = k2.RnntDecodingStreams(ps, cfg)
    P.terminate_and_flush_to_streams()
    want = P.format_output([T] * k, True)
    ctx.sig('chunks', ch, f[-5:], enc.flatten().tolist()[:4])
    same(ctx, x, want, 'chunks', tol=1e-3, attrs=False)


KINDS = [('api', 3, k_topo), ('api', 5, k_shapes), ('api', 12, k_load), ('api', 12, k_attrs), ('fsa', 14, k_transform), ('fsa', 4, k_tot),
         ('fsa', 14, k_lattice), ('fsa', 6, k_dense), ('fsa', 6, k_device), ('fsa', 5, k_loops), ('fsa', 7, k_random),
         ('fsa', 7, k_nbest), ('fsa', 7, k_whole), ('fsa', 8, k_best), ('api', 12, k_rnnt),
         ('text', 14, apim.k_parse), ('text', 3, apim.k_escape), ('text', 5, apim.k_symbols), ('text', 6, apim.k_wave),
         ('search', 4, apim.k_greedy), ('search', 5, apim.k_beam), ('search', 2, apim.k_hyps), ('search', 5, k_chunks)]



def case(ctx):
    mod, _, fn = ctx.rng.choices(KINDS, [w for _, w, _ in KINDS])[0]
    need = {mod, 'api'} if mod in ('fsa', 'search') else {mod}
    if not need <= HAVE:
        ctx.count('left-out-' + mod)
        raise Skip
    ctx.note(kind=fn.__name__)
    try:
        fn(ctx)
        ctx.count('ran-' + fn.__name__[2:])
    finally:
        if 'api' in HAVE:
            o.free()
