"""C16: graph constructors against the languages, relations and path counts
that define them."""
import itertools
import torch
import k2
from k2v import fsam
from k2v.fsam import F


def transduce(f, aux, s, cap=None):
    """{output tuple: [path count, best score]} of the paths reading exactly s
    (0 is an ordinary input symbol) followed by -1. Only for graphs without
    input epsilons."""
    cur = {0: {(): (1, 0.0)}}
    lv = f.leaving()

    def step(cur, l):
        nxt = {}
        for st, outs in cur.items():
            for i in lv[st]:
                a = f.arcs[i]
                if a[2] != l:
                    continue
                o = tuple(x for x in aux[i] if x not in (0, -1))
                d = nxt.setdefault(a[1], {})
                for k, (c, w) in outs.items():
                    kk = k + o
                    if cap and len(kk) > cap:
                        continue
                    c0, w0 = d.get(kk, (0, -1e30))
                    d[kk] = (c0 + c, max(w0, w + a[3]))
        return nxt
    for l in s:
        cur = step(cur, l)
    return step(cur, -1).get(f.n - 1, {}) if f.n else {}


def parses(s, sym, modified):
    """Number of ways s reads as blanks and one nonempty run per symbol; equal
    neighbours need a blank between them unless modified."""
    # state: (symbols begun, in the run of the last one)
    cur = {(0, False): 1}
    for x in s:
        nxt = {}
        for (i, run), c in cur.items():
            if x == 0:
                nxt[i, False] = nxt.get((i, False), 0) + c
                continue
            if run and sym[i - 1] == x:
                nxt[i, True] = nxt.get((i, True), 0) + c
            if i < len(sym) and sym[i] == x and (modified or not run or sym[i - 1] != x):
                nxt[i + 1, True] = nxt.get((i + 1, True), 0) + c
        cur = nxt
    return sum(c for (i, _), c in cur.items() if i == len(sym))


def collapse(s):
    return tuple(k for k, _ in itertools.groupby(s) if k != 0)


def aux_of(fsa):
    a = fsa.aux_labels
    return [[x] for x in a.tolist()] if isinstance(a, torch.Tensor) else a.tolist()


def symbols(ctx, zero=False, lo=1):
    r = ctx.rng
    V = r.choice([1, 2, 2, 3, 5])
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 9])
    out = [r.randint(0 if zero and r.random() < .3 else 1, V) for _ in range(n)]
    if r.random() < .3:
        out = [x for x in out for _ in range(r.choice([1, 1, 2]))]
    if r.random() < .05:
        out = [x if x == 0 else x * 10 ** 8 for x in out]
    return out


def batch(ctx, **kw):
    return [symbols(ctx, **kw) for _ in range(ctx.rng.choice([0, 1, 1, 2, 3, 5]))]


def give(ctx, b):
    """The batch as nested list, or as a ragged tensor that may be a view."""
    r = ctx.rng
    k = r.randrange(3)
    if k == 0:
        return b, {}
    if k == 1:
        return k2.RaggedTensor(b, dtype=torch.int32) if b else k2.RaggedTensor('[[1]]').arange(0, 0, 0), {}
    t = k2.RaggedTensor([[7, 7]] + b + [[5], []], dtype=torch.int32)
    return t.arange(0, 1, len(b) + 1), {}


def strings(ctx, V, sym):
    """Random and constructed input strings around one target."""
    r = ctx.rng
    out = [[], list(sym)]
    for _ in range(6):
        s = []
        for x in sym:
            s += [0] * r.choice([0, 0, 1, 2]) + [x] * r.choice([1, 1, 2, 3])
        s += [0] * r.choice([0, 1])
        if r.random() < .4 and s:
            j = r.randrange(len(s))
            op = r.randrange(3)
            if op == 0:
                s.pop(j)
            elif op == 1:
                s[j] = r.choice([0] + sorted(set(sym)) + [99])
            else:
                s.insert(j, r.choice([0] + sorted(set(sym))))
        out.append(s)
    al = [0] + sorted(set(sym))[:3]
    for _ in range(4):
        out.append([r.choice(al) for _ in range(r.randint(1, 5))])
    return out


def ctc_graph(ctx):
    r = ctx.rng
    b = batch(ctx)
    mod = r.random() < .5
    arg, kw = give(ctx, b)
    ctx.note(b=b, mod=mod)
    ctx.sig('ctc_graph', b, mod, type(arg).__name__)
    g = k2.ctc_graph(arg, modified=mod, **kw)
    fsam.check_valid(ctx, g)
    fs = fsam.vec_from_k2(g)
    ctx.eq(len(fs), len(b), 'dim', 'graphs')
    auxs = fsam.split(aux_of(g), fs)
    ctx.ok(g.aux_labels.dtype == torch.int32, 'aux-dtype', 'dtype')
    for f, a, sym in zip(fs, auxs, b):
        ctx.ok(all(x[3] == 0 for x in f.arcs), 'score', 'a score is not zero')
        for s in strings(ctx, 5, sym):
            got = {k: v[0] for k, v in transduce(f, a, s).items()}
            n = parses(s, sym, mod)
            ctx.eq(got, {tuple(sym): n} if n else {}, 'ctc-graph', f'outputs and path counts of {s} for symbols {sym}', f=f)
            ctx.count('strings')
            ctx.count('accepted', n > 0)
        for x, y in zip(f.arcs, a):
            ctx.ok((x[2] == -1) == (y == [-1]), 'final-aux', f'arc {x} aux {y}')
    if mod is False and b and r.random() < .3 and max((max(x, default=0) for x in b), default=0) < 10:
        V = max((max(x, default=0) for x in b), default=0) + 1
        topo = k2.arc_sort(k2.ctc_topo(V))
        for sym, f in zip(b, fs):
            c = k2.compose(topo, k2.linear_fsa(sym))
            cf = fsam.any_from_k2(c)[0]
            ca = aux_of(c)
            for s in strings(ctx, 5, sym)[:6]:
                n = parses(s, sym, False)
                got = {k: v[0] for k, v in transduce(cf, ca, s).items()}
                ctx.eq(got, {tuple(sym): n} if n else {}, 'topo-compose', f'composition of ctc_topo with {sym} on {s}')
        ctx.count('composed')


def ctc_topo(ctx):
    r = ctx.rng
    V = r.choice([0, 1, 2, 3, 5, 8])
    mod = r.random() < .5
    kw = {} if r.random() < .5 else {'device': r.choice(['cpu', torch.device('cpu')])}
    g = k2.ctc_topo(V, modified=mod, **kw)
    ctx.note(V=V, mod=mod)
    fsam.check_valid(ctx, g)
    f = fsam.any_from_k2(g)[0]
    a = aux_of(g)
    ctx.ok(all(x[3] == 0 for x in f.arcs), 'score', 'a score is not zero')
    for x, y in zip(f.arcs, a):
        ctx.ok((x[2] == -1) == (y == [-1]), 'final-aux', f'arc {x} aux {y}')
    for _ in range(12):
        al = r.sample(range(V + 1), min(V + 1, r.choice([1, 2, 3])))
        s = [r.choice(al) for _ in range(r.randint(0, 7))]
        if r.random() < .1:
            s.append(V + 1)
        ctx.sig('ctc_topo', V, mod, s)
        got = {k: v[0] for k, v in transduce(f, a, s).items()}
        if V + 1 in s:
            want = {}
        elif not mod:
            want = {collapse(s): 1}
        else:
            # every run of n copies yields 1..n outputs
            outs = {(): 1}
            for k, run in itertools.groupby(s):
                n = len(list(run))
                if k == 0:
                    continue
                new = {}
                for o, c in outs.items():
                    for m in range(1, n + 1):
                        x = 1
                        for i in range(m - 1):
                            x = x * (n - 1 - i) // (i + 1)
                        new[o + (k,) * m] = new.get(o + (k,) * m, 0) + c * x
                outs = new
            want = outs
            for o, c in want.items():
                ctx.eq(c, parses(s, list(o), True), 'model', f'{s} {o}')
        ctx.eq(got, want, 'ctc-topo', f'outputs and path counts of {s}', f=f)
        ctx.count('strings')


def trivial(ctx):
    r = ctx.rng
    V = r.choice([0, 1, 2, 5, 40])
    g = k2.trivial_graph(V, **({} if r.random() < .5 else {'device': 'cpu'}))
    ctx.note(V=V)
    fsam.check_valid(ctx, g)
    f = fsam.any_from_k2(g)[0]
    a = aux_of(g)
    ctx.eq(f.n, 2, 'trivial', 'states')
    ctx.eq(sorted((x[0], x[1], x[2], x[3], y[0]) for x, y in zip(f.arcs, a)),
           sorted([(0, 0, i, 0.0, i) for i in range(1, V + 1)] + [(0, 1, -1, 0.0, -1)]), 'trivial', 'arcs')
    ctx.sig('trivial', V)


def edit(x, y, sub, ins):
    """Lowest cost of turning x into y."""
    d = [[0.0] * (len(y) + 1) for _ in range(len(x) + 1)]
    for i in range(len(x) + 1):
        for j in range(len(y) + 1):
            c = [0.0] if i == j == 0 else []
            if i:
                c.append(d[i - 1][j] + ins)
            if j:
                c.append(d[i][j - 1] + ins)
            if i and j:
                c.append(d[i - 1][j - 1] + (0 if x[i - 1] == y[j - 1] else sub))
            d[i][j] = min(c)
    return d[len(x)][len(y)]


def leven(ctx):
    r = ctx.rng
    b = batch(ctx)
    arg, kw = give(ctx, b)
    sc = r.choice([None, -0.501, -0.501, -1.0, -0.75, 0.0])
    if sc is not None:
        kw['ins_del_score'] = sc
    w = torch.tensor(-0.501 if sc is None else sc, dtype=torch.float32).item()
    ctx.note(b=b, sc=sc)
    ctx.sig('leven', b, sc, type(arg).__name__)
    g = k2.levenshtein_graph(arg, **kw)
    fsam.check_valid(ctx, g)
    fs = fsam.vec_from_k2(g)
    ctx.eq(len(fs), len(b), 'dim', 'graphs')
    auxs = fsam.split(aux_of(g), fs)
    off = getattr(g, '__ins_del_score_offset_internal_attr_')
    offs = fsam.split(off.tolist(), fs)
    ctx.eq(off.numel(), g.num_arcs, 'offset', 'score offsets')
    for f, a, o, sym in zip(fs, auxs, offs, b):
        n = len(sym)
        ctx.eq(f.n, n + 2, 'leven-states', 'states')
        want = []
        for i in range(n + 1):
            want.append((i, i, 0, w, 0, w + .5))
            if i < n:
                want += [(i, i + 1, 0, -.5, sym[i], 0.), (i, i + 1, sym[i], 0., sym[i], 0.)]
        want.append((n, n + 1, -1, 0., -1, 0.))
        got = sorted((x[0], x[1], x[2], x[3], y[0], z) for x, y, z in zip(f.arcs, a, o))
        want.sort()
        ctx.eq([x[:5] for x in got], [x[:5] for x in want], 'leven-arcs', f'arcs for {sym}')
        ctx.closes([x[5] for x in got], [x[5] for x in want], 'leven-offset', f'score offsets for {sym}', tol=1e-6)


def lin_model(sym):
    return F(len(sym) + 2, [(i, i + 1, x, 0.0) for i, x in enumerate(list(sym) + [-1])])


def linear(ctx):
    r = ctx.rng
    single = r.random() < .4
    ctx.note(single=single)
    b = [symbols(ctx, zero=True)] if single else batch(ctx, zero=True)
    fst = r.random() < .5
    if fst and not b:  # an empty list is one FST without symbols
        b, single = [[]], True
    ctx.note(b=b, fst=fst)
    if fst:
        aux = [[r.randint(0, 9) for _ in x] for x in b]
        ctx.note(aux=aux)
        keep = repr((b, aux))
        g = k2.linear_fst(b[0], aux[0]) if single else k2.linear_fst(b, aux)
        ctx.eq(repr((b, aux)), keep, 'inputs', 'arguments were modified')
        if not single and b and r.random() < .2:
            bad = [list(x) for x in aux]
            j = r.randrange(len(bad))
            bad[j].append(3)
            if len(bad) > 1 and r.random() < .7:
                k = r.choice([x for x in range(len(bad)) if x != j])
                if bad[k]:
                    bad[k].pop()
            ctx.raises(lambda: k2.linear_fst(b, bad), 'lengths', f'aux {bad}')
        a = g.aux_labels.tolist()
        ctx.eq(a, [x for y in aux for x in y + [-1]], 'linear-aux', 'aux_labels')
    else:
        if single:
            arg, kw = b[0], {}
        else:
            arg, kw = give(ctx, b)
        if isinstance(arg, list) and r.random() < .3:
            kw['device'] = r.choice(['cpu', torch.device('cpu'), None])
        if isinstance(arg, list) and not arg and not single:
            arg, kw = k2.RaggedTensor('[[1]]').arange(0, 0, 0), {}
        g = k2.linear_fsa(arg, **kw)
    ctx.sig('linear', b, fst, single)
    single = len(g.shape) == 2
    fsam.check_valid(ctx, g)
    fs = fsam.any_from_k2(g)
    ctx.eq([repr(f) for f in fs], [repr(lin_model(x)) for x in b], 'linear', 'FSAs')
    if not fs:
        return
    # self loops
    base = [list(x) for x in b] if b else [[]]
    if fst:
        g.scores = torch.tensor([r.randint(-16, 16) / 4 for _ in range(g.num_arcs)])
        sc = fsam.split(g.scores.tolist(), fs)
        keep = repr(fsam.any_from_k2(g)), g.aux_labels.tolist()
        h = k2.linear_fst_with_self_loops(g)
        ctx.eq((repr(fsam.any_from_k2(g)), g.aux_labels.tolist()), keep, 'inputs', 'argument was modified')
    else:
        keep = repr(fsam.any_from_k2(g))
        h = k2.linear_fsa_with_self_loops(g)
        ctx.eq(repr(fsam.any_from_k2(g)), keep, 'inputs', 'argument was modified')
    fsam.check_valid(ctx, h)
    ctx.eq(len(h.shape), len(g.shape), 'loops-axes', 'axes')
    hs = fsam.any_from_k2(h)
    ctx.eq(len(hs), len(base), 'dim', 'FSAs')
    ha = fsam.split(aux_of(h), hs) if fst else [None] * len(hs)
    for k, (f, sym) in enumerate(zip(hs, base)):
        core = [x for x in sym if x]
        n = len(core)
        ctx.eq(f.n, n + 2, 'loops', f'states for {sym}', f=f)
        loops = [i for i, x in enumerate(f.arcs) if x[0] == x[1]]
        ctx.eq(sorted(f.arcs[i][0] for i in loops), list(range(n + 1)), 'loops', 'self-loops')
        ctx.ok(all(f.arcs[i][2] == 0 and f.arcs[i][3] == 0 for i in loops), 'loops', 'self-loops are epsilon, score 0', f=f)
        rest = [i for i in range(len(f.arcs)) if i not in loops]
        rest.sort(key=lambda i: f.arcs[i][0])
        ctx.eq([(f.arcs[i][0], f.arcs[i][1], f.arcs[i][2]) for i in rest],
               [(i, i + 1, x) for i, x in enumerate(core + [-1])], 'loops', f'arcs for {sym}', f=f)
        if not fst:
            continue
        # scores and output labels of removed epsilons go to the next arc
        ctx.ok(all(not [x for x in ha[k][i] if x] for i in loops), 'loops-aux', 'self-loops have no output', f=f)
        o, s, wo, ws = [], 0.0, [], []
        for x, y, z in zip(sym + [-1], aux[k] + [-1], sc[k]):
            o += [y] if y > 0 else []
            s += z
            if x != 0:
                wo.append(o)
                ws.append(s)
                o, s = [], 0.0
        ctx.eq([[x for x in ha[k][i] if x > 0] for i in rest], wo, 'loops-aux', f'output labels for {sym}')
        ctx.closes([f.arcs[i][3] for i in rest], ws, 'loops-score', f'scores for {sym}', tol=1e-5)


def case(ctx):
    ctx.rng.choice([ctc_graph, ctc_graph, ctc_topo, leven, linear, linear, linear, trivial if ctx.rng.random() < .2 else
                    ctc_graph])(ctx)
