"""C05: epsilon removal and determinization: language in the tropical semiring,
promised form, and each output arc's derivation is a consecutive input path."""
import torch
import k2
import _k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F


def mk(ctx, **kw):
    fs, vec = fsam.gen_batch(ctx.rng, **kw)
    if kw.get('connected'):
        # determinize requires connected input; empty members are connected
        pass
    fsa = fsam.build(fs, vec)
    fsa.uid = torch.arange(1, fsa.num_arcs + 1, dtype=torch.int32)
    ctx.note(fs=fs, vec=vec)
    return fs, vec, fsa


def parts(ctx, fs, vec, out, ragged):
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 3 if vec else 2, 'axes', 'number of axes of the result')
    got = fsam.any_from_k2(out)
    ctx.eq(len(got), len(fs), 'members', 'number of FSAs')
    ders = [[u - 1 for u in x] for x in ragged]
    ctx.eq(len(ders), sum(len(g.arcs) for g in got), 'deriv', 'one derivation per output arc')
    return got, fsam.split(ders, got)


def chain_ok(f, d):
    return all(f.arcs[x][1] == f.arcs[y][0] for x, y in zip(d, d[1:]))


def wide_eps(ctx):
    """A generator biased to dense epsilon structure."""
    r = ctx.rng
    cyc = r.random() < 0.45
    return dict(cyclic=cyc, eps=r.choice([0.3, 0.5, 0.7, 0.9, 1.0]),
                score='neg' if cyc else r.choice(['norm', 'neg', 'few', 'zero']),
                topo=r.random() < 0.6, self_loops=cyc and r.random() < 0.5)


def op_rmeps(ctx):
    fs, vec, fsa = mk(ctx, **wide_eps(ctx))
    if ctx.rng.random() < 0.25:
        fsa = k2.connect(fsa)
        u = [x - 1 for x in fsa.uid.tolist()]
        fs = fsam.any_from_k2(fsa)
        fsa.uid = torch.arange(1, fsa.num_arcs + 1, dtype=torch.int32)
    kind = ctx.rng.choice(['auto', 'auto', 'device', 'host', 'loops'])
    if kind == 'host' and not all(fsam.is_top_sorted(f) for f in fs):
        kind = 'device'
    ctx.count('variant:' + kind)
    ctx.note(kind=kind)
    before = [(f.n, f.arcs) for f in fs]
    if kind == 'auto':
        out = k2.remove_epsilon(fsa)
        rg = out.uid.tolist()
    elif kind == 'loops':
        out = k2.remove_epsilon_and_add_self_loops(fsa)
        if isinstance(out.uid, torch.Tensor):
            rg = [[x] if x else [] for x in out.uid.tolist()]
        else:
            rg = out.uid.tolist()
    else:
        ra, am = (_k2.remove_epsilon_device if kind == 'device' else _k2.remove_epsilon_host)(fsa.arcs)
        out = k2.Fsa(ra)
        rg = [[v + 1 for v in x] for x in am.tolist()]
    got, ders = parts(ctx, fs, vec, out, rg)
    base = 0
    for f, g, dd in zip(fs, got, ders):
        loops = 0
        seen_loop = set()
        for a, d in zip(g.arcs, dd):
            if a[2] == 0:
                ctx.ok(kind == 'loops' and a[0] == a[1] and a[3] == 0.0 and not d, 'form',
                       f'epsilon arc {a} in the output', src=f, dst=g)
                ctx.ok(a[0] not in seen_loop, 'form', 'two epsilon self-loops on a state', dst=g)
                seen_loop.add(a[0])
                loops += 1
                continue
            loc = [x - base for x in d]
            ctx.ok(loc and all(0 <= x < len(f.arcs) for x in loc), 'deriv', f'derivation {d} of {a}', src=f, dst=g)
            ctx.ok(chain_ok(f, loc), 'deriv', f'derivation {loc} of {a} is not a path', src=f, dst=g)
            real = [f.arcs[x][2] for x in loc if f.arcs[x][2] != 0]
            ctx.eq(real, [a[2]], 'deriv', f'labels along the derivation {loc}', src=f, dst=g)
            ctx.eq(sum(f.arcs[x][3] for x in loc), a[3], 'deriv-score', f'score along the derivation {loc}',
                   src=f, dst=g)
        if kind == 'loops' and g.n:
            ctx.eq(loops, g.n - 1, 'form', 'an epsilon self-loop on every non-final state', dst=g)
        g2 = F(g.n, [a for a in g.arcs if a[2] != 0])
        fsam.check_same_lang(ctx, f, g2, 'max', 'rmeps-lang', eps=True, maxlen=5)
        base += len(f.arcs)
    ctx.ok(before == [(f.n, f.arcs) for f in fsam.any_from_k2(fsa)], 'input-unchanged', 'argument changed')
    ctx.count('arcs-derived', sum(len(d) for d in ders))


PUSH = None


def op_det(ctx):
    T = k2.DeterminizeWeightPushingType
    rng = ctx.rng
    fs, vec, fsa = mk(ctx, cyclic=False, connected=True, eps=rng.choice([0, 0, 0.3]),
                      labels=rng.choice([1, 1, 2, 2, 3]), arcs=rng.choice([None, 4, 10, 16]), max_n=7)
    kind = rng.choice([T.kNoWeightPushing, T.kNoWeightPushing, T.kTropicalWeightPushing, T.kLogWeightPushing])
    ctx.note(kind=str(kind))
    if rng.random() < 0.5 and kind == T.kNoWeightPushing:
        out = k2.determinize(fsa)
    else:
        out = k2.determinize(fsa, weight_pushing_type=kind)
    if out is fsa:
        ctx.ok(all(len({(a[0], a[2]) for a in f.arcs}) == len(f.arcs) for f in fs), 'det-form',
               'nondeterministic FSA returned unchanged')
        ctx.count('already-deterministic')
        return
    got, ders = parts(ctx, fs, vec, out, out.uid.tolist())
    base = 0
    for f, g, dd in zip(fs, got, ders):
        ctx.ok(len({(a[0], a[2]) for a in g.arcs}) == len(g.arcs), 'det-form', 'two arcs with one label leave a state',
               src=f, dst=g)
        # distinct strings: paths of a deterministic FSA and strings are one-to-one
        tol = None if kind == T.kNoWeightPushing else 1e-3
        fsam.check_same_lang(ctx, f, g, 'max', 'det-lang', tol=tol, maxlen=8)
        pp = fsam.paths(g, 300)
        for p in pp or []:
            d = [x - base for j in p for x in dd[j]]
            ctx.ok(all(0 <= x < len(f.arcs) for x in d) and chain_ok(f, d) and d and f.arcs[d[0]][0] == 0 and
                   f.arcs[d[-1]][1] == f.final, 'det-deriv', f'derivation {d} of path {p} is not a complete path',
                   src=f, dst=g)
            ctx.eq([f.arcs[x][2] for x in d], [g.arcs[j][2] for j in p], 'det-deriv', 'labels', src=f, dst=g)
            ctx.count('paths')
        if kind == T.kNoWeightPushing:
            for a, d in zip(g.arcs, dd):
                ctx.eq(a[3], sum(f.arcs[x - base][3] for x in d), 'det-score', f'score of {a} from {d}', src=f, dst=g)
        elif f.n:
            fsam.check_push(ctx, f, g, 'max', 0 if kind == T.kTropicalWeightPushing else 1, 'det')
        base += len(f.arcs)


def op_pipeline(ctx):
    """remove_epsilon -> connect -> determinize -> connect keeps the language."""
    fs, vec, fsa = mk(ctx, cyclic=False, eps=ctx.rng.choice([0.3, 0.6]), topo=True, labels=2)
    x = k2.connect(k2.remove_epsilon(fsa))
    y = k2.connect(k2.determinize(x))
    z = k2.arc_sort(y)
    for f, g in zip(fs, fsam.any_from_k2(z)):
        fsam.check_same_lang(ctx, f, g, 'max', 'pipeline-lang', eps=True, maxlen=8)
        ctx.ok(len({(a[0], a[2]) for a in g.arcs}) == len(g.arcs) and all(a[2] for a in g.arcs), 'pipeline-form')
    fsam.check_valid(ctx, z)


def case(ctx):
    op = ctx.rng.choice([op_rmeps] * 5 + [op_det] * 3 + [op_pipeline])
    ctx.sig(op.__name__, ctx.idx)
    op(ctx)
    ctx.count('op:' + op.__name__)
