"""C04: structure-only transforms, judged by arc-level isomorphism with the
input (unique ids ride on the arcs), language comparison and form checks."""
import torch
import k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F


def mk(ctx, **kw):
    fs, vec = fsam.gen_batch(ctx.rng, **kw)
    fsa = fsam.build(fs, vec)
    n = sum(len(f.arcs) for f in fs)
    fsa.uid = torch.arange(1, n + 1, dtype=torch.int32)
    ctx.note(fs=fs, vec=vec)
    return fs, vec, fsa


def out_parts(ctx, fs, vec, out):
    fsam.check_valid(ctx, out)
    ctx.eq(out.arcs.num_axes(), 3 if vec else 2, 'axes', 'number of axes of the result')
    got = fsam.any_from_k2(out)
    ctx.eq(len(got), len(fs), 'members', 'number of FSAs')
    ids = fsam.split([u - 1 for u in out.uid.tolist()], got)
    bases = [u[0] if u else 0 for u in fsam.uids(fs)]
    return got, ids, bases


def same_input(ctx, fs, fsa):
    now = fsam.any_from_k2(fsa)
    ctx.ok([(f.n, f.arcs) for f in fs] == [(f.n, f.arcs) for f in now], 'input-unchanged',
           'the operation changed its argument')


def langs(ctx, f, g, key):
    for sr in ('max', 'log'):
        fsam.check_same_lang(ctx, f, g, sr, key, maxlen=5)


def op_connect(ctx):
    fs, vec, fsa = mk(ctx, topo=ctx.rng.random() < 0.5)
    out = k2.connect(fsa)
    got, ids, bases = out_parts(ctx, fs, vec, out)
    for f, g, i, b in zip(fs, got, ids, bases):
        ac, co = fsam.accessible(f), fsam.coaccessible(f)
        use = [ac[s] and co[s] for s in range(f.n)]
        keep = [j for j, a in enumerate(f.arcs) if use[a[0]] and use[a[1]]]
        if not f.n or not use[0]:
            ctx.eq(len(g.arcs), 0, 'connect', 'arcs left in an FSA without paths', src=f)
            ctx.ok(g.n in (0, 2), 'connect', f'{g.n} states in an FSA without paths', src=f)
            continue
        ctx.eq(g.n, sum(use), 'connect', 'number of useful states', src=f, dst=g)
        fsam.check_iso(ctx, f, g, i, b, 'connect', keep)
        ctx.ok(all(fsam.accessible(g)) and all(fsam.coaccessible(g)), 'connect', 'not connected')
        langs(ctx, f, g, 'connect-lang')
    same_input(ctx, fs, fsa)


def op_top_sort(ctx):
    fs, vec, fsa = mk(ctx, cyclic=False, topo=False)
    if ctx.rng.random() < 0.4:
        # self-loops are allowed
        fs2 = []
        for f in fs:
            arcs = list(f.arcs)
            for s in range(f.n - 1):
                if ctx.rng.random() < 0.4:
                    arcs.append((s, s, ctx.rng.randint(0, 3), -0.5))
            arcs.sort(key=lambda a: a[0])
            fs2.append(F(f.n, arcs))
        fs = fs2
        fsa = fsam.build(fs, vec)
        fsa.uid = torch.arange(1, fsa.num_arcs + 1, dtype=torch.int32)
        ctx.note(with_loops=fs)
    out = k2.top_sort(fsa)
    got, ids, bases = out_parts(ctx, fs, vec, out)
    for f, g, i, b in zip(fs, got, ids, bases):
        if f.n == 0:
            ctx.eq(g.n, 0, 'top_sort', 'empty member')
            continue
        ctx.eq(g.n, f.n, 'top_sort', 'states')
        fsam.check_iso(ctx, f, g, i, b, 'top_sort')
        ctx.ok(all(a[0] <= a[1] for a in g.arcs), 'top_sort', 'not topologically sorted', src=f, dst=g)
    same_input(ctx, fs, fsa)


def op_arc_sort(ctx):
    fs, vec, fsa = mk(ctx, n=ctx.rng.choice([None, 3, 4]), arcs=ctx.rng.choice([None, 12, 40]),
                      labels=ctx.rng.choice([1, 2, 5, 100000]))
    ret = ctx.rng.random() < 0.5
    r = k2.arc_sort(fsa, ret_arc_map=ret)
    out, amap = r if ret else (r, None)
    got, ids, bases = out_parts(ctx, fs, vec, out)
    if ret:
        ctx.eq(amap.tolist(), [x for i in ids for x in i], 'arc_sort', 'arc map')
    for f, g, i, b in zip(fs, got, ids, bases):
        ctx.eq(g.n, f.n, 'arc_sort', 'states')
        fsam.check_iso(ctx, f, g, i, b, 'arc_sort', state_map={s: s for s in range(f.n)})
        ctx.ok(fsam.is_arc_sorted(g), 'arc_sort', 'arcs not sorted by (label, dest)', src=f, dst=g)
    ctx.ok(out.properties & 2**4 or True, 'arc_sort')
    same_input(ctx, fs, fsa)


def op_add_loops(ctx):
    fs, vec, fsa = mk(ctx)
    fsa.uid_filler = 0
    ret = ctx.rng.random() < 0.5
    r = k2.add_epsilon_self_loops(fsa, ret_arc_map=ret)
    out, amap = r if ret else (r, None)
    got, ids, bases = out_parts(ctx, fs, vec, out)
    if ret:
        ctx.eq(amap.tolist(), [x for i in ids for x in i], 'add_loops', 'arc map')
    for f, g, i, b in zip(fs, got, ids, bases):
        ctx.eq(g.n, f.n, 'add_loops', 'states')
        want, wid = [], []
        lv = f.leaving()
        for s in range(f.n):
            if s != f.final:
                want.append((s, s, 0, 0.0))
                wid.append(-1)
            for j in lv[s]:
                want.append(f.arcs[j])
                wid.append(j + b)
        # the position of the new arc among the arcs of a state is not a promise
        ctx.eq(sorted(zip(want, wid)), sorted(zip(g.arcs, i)), 'add_loops', 'arcs')
        rest = [(a, x) for a, x in zip(g.arcs, i) if x >= 0]
        ctx.eq(rest, [(a, x) for a, x in zip(want, wid) if x >= 0], 'add_loops', 'order of the kept arcs')
    same_input(ctx, fs, fsa)


def op_remove_loops(ctx):
    fs, vec, fsa = mk(ctx, cyclic=True, self_loops=True, eps=ctx.rng.choice([0.3, 0.7, 1.0]))
    out = k2.remove_epsilon_self_loops(fsa)
    got, ids, bases = out_parts(ctx, fs, vec, out)
    for f, g, i, b in zip(fs, got, ids, bases):
        ctx.eq(g.n, f.n, 'remove_loops', 'states')
        keep = [j for j, a in enumerate(f.arcs) if not (a[0] == a[1] and a[2] == 0)]
        ctx.eq(g.arcs, [f.arcs[j] for j in keep], 'remove_loops', 'arcs', src=f)
        ctx.eq([x - b for x in i], keep, 'remove_loops', 'ids')
    same_input(ctx, fs, fsa)


def op_roundtrip_loops(ctx):
    """remove(add(f)) == f when f has no epsilon self-loop."""
    fs, vec, fsa = mk(ctx, self_loops=False)
    out = k2.remove_epsilon_self_loops(k2.add_epsilon_self_loops(fsa))
    got, ids, bases = out_parts(ctx, fs, vec, out)
    for f, g, i, b in zip(fs, got, ids, bases):
        ctx.eq((g.n, g.arcs), (f.n, f.arcs), 'add-remove', 'arcs')
        ctx.eq([x - b for x in i], list(range(len(f.arcs))), 'add-remove', 'ids')


def op_expand(ctx):
    """expand_ragged_attributes: each arc becomes a chain carrying its ragged
    labels; checked by walking the chains."""
    rng = ctx.rng
    fs, vec, fsa = mk(ctx)
    na = rng.choice([1, 1, 2])
    rag = {}
    for k in range(na):
        name = ['aux_labels', 'foo'][k] if rng.random() < 0.8 else f'bar{k}'
        vals = []
        for f in fs:
            for a in f.arcs:
                x = [rng.randint(1, 9) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
                if a[2] == -1 and rng.random() < 0.6:
                    x = x + [-1]
                vals.append(x)
        rag[name] = vals
        if sum(len(f.arcs) for f in fs) == 0:
            raise Skip()
        sp = [0]
        for x in vals:
            sp.append(sp[-1] + len(x))
        from k2v import rag as R
        setattr(fsa, name, R.make(vals, 2, 'i'))
    fsa.uid_filler = 0
    ctx.note(rag=rag)
    if sum(len(f.arcs) for f in fs) == 0:
        raise Skip()
    out, amap = k2.expand_ragged_attributes(fsa, ret_arc_map=True)
    fsam.check_valid(ctx, out)
    got = fsam.any_from_k2(out)
    ctx.eq(len(got), len(fs), 'members', 'number of FSAs')
    ctx.eq(out.arcs.num_axes(), 3 if vec else 2, 'axes')
    ids = fsam.split([u - 1 for u in out.uid.tolist()], got)
    ctx.eq(amap.tolist(), [x for i in ids for x in i], 'expand', 'arc map agrees with the propagated ids')
    lin = {n: fsam.split(getattr(out, n).tolist(), got) for n in rag}
    for m, (f, g) in enumerate(zip(fs, got)):
        base = fsam.uids(fs)[m][0] if f.arcs else 0
        src_of = {}
        lv = g.leaving()
        smap = {0: 0, f.final: g.final} if f.n else {}
        chained = set()
        for j, x in enumerate(ids[m]):
            if x < 0:
                continue
            ctx.ok(x not in src_of, 'expand', f'source arc {x} appears twice', src=f, dst=g)
            src_of[x] = j
        ctx.eq(sorted(src_of), [base + i for i in range(len(f.arcs))], 'expand', 'each source arc heads one chain')
        for i, a in enumerate(f.arcs):
            j = src_of[base + i]
            chain = [j]
            s = a[0]
            if smap.setdefault(s, g.arcs[j][0]) != g.arcs[j][0]:
                ctx.fail('expand', f'arc {i}: source state mapped inconsistently', src=f, dst=g)
            ctx.eq(g.arcs[j][3], a[3], 'expand', 'score on the first arc of the chain', src=f, dst=g)
            # follow synthetic arcs
            while True:
                d = g.arcs[chain[-1]][1]
                nx = [k for k in lv[d] if ids[m][k] < 0]
                if not nx:
                    break
                ctx.eq(len(lv[d]), 1, 'expand', 'an inner chain state has one arc', src=f, dst=g)
                chain.append(nx[0])
                chained.add(nx[0])
                ctx.eq(g.arcs[nx[0]][3], 0.0, 'expand', 'score on inner chain arcs', dst=g)
            e = g.arcs[chain[-1]][1]
            if smap.setdefault(a[1], e) != e:
                ctx.fail('expand', f'arc {i}: destination state mapped inconsistently', src=f, dst=g)
            labs = [g.arcs[k][2] for k in chain]
            ctx.eq([x for x in labs if x], [x for x in [a[2]] if x], 'expand', 'labels along the chain', src=f, dst=g)
            for n in rag:
                seq = [lin[n][m][k] for k in chain]
                want = [x for x in rag[n][base + i]]
                if a[2] == -1 and (not want or want[-1] != -1):
                    want = want + [-1]
                ctx.eq([x for x in seq if x], [x for x in want if x], 'expand', f'{n} along the chain of arc {i}',
                       src=f, dst=g)
        ctx.eq(len(chained) + len(src_of), len(g.arcs), 'expand', 'arcs belonging to no chain', src=f, dst=g)
        ctx.ok(len(set(smap.values())) == len(smap), 'expand', 'two states merged', src=f, dst=g)
    same_input(ctx, fs, fsa)


OPS = [op_connect] * 4 + [op_top_sort] * 3 + [op_arc_sort] * 2 + [op_add_loops] * 2 + [op_remove_loops] * 2 + \
    [op_roundtrip_loops] + [op_expand] * 3


def case(ctx):
    op = OPS[ctx.idx % len(OPS)] if ctx.idx < 60 else ctx.rng.choice(OPS)
    ctx.sig(op.__name__, ctx.idx)
    op(ctx)
    ctx.count('op:' + op.__name__)
