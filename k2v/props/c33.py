"""C33: the host library (k2/csrc/host) through native/na_host.cc, compared with
explicit models. The driver also keeps guard elements around every output."""
import itertools
import json
import math
import os

import torch
from k2v import build, fsam
from k2v.apim import call
from k2v.core import Skip
from k2v.fsam import F, NINF

o = torch.ops.k2v
HAVE = set()


def setup(mode):
    for m, p in json.load(open(os.path.join(build.WORK, 'na-release', 'modules.json'))).items():
        torch.ops.load_library(p)
        HAVE.add(m)


def offset(r):
    return r.choice([0, 0, 0, 1, 5, 40])


def T(f, off=0):
    return [fsam.arcs_tensor(f.arcs), torch.zeros(f.n), torch.zeros(off)]


def arcs_of(t):
    w = t[:, 3].contiguous().view(torch.float32).tolist()
    return [(*x[:3], y) for x, y in zip(t.tolist(), w)]


def f32(x):
    return torch.tensor(x, dtype=torch.float32).item()


def out_fsa(ctx, t, key):
    """The written FSA; its indexes have to describe its arcs."""
    arcs, idx = arcs_of(t[0]), t[1].tolist()
    n = len(idx) - 1
    ctx.ok(idx[0] == 0 and (n == 0 or idx[-1] == len(arcs)) and all(a <= b for a, b in zip(idx, idx[1:])), key + '-indexes',
           f'state indexes {idx} of {len(arcs)} arcs')
    want = [s for s in range(n) for _ in range(idx[s], idx[s + 1])]
    ctx.eq([a[0] for a in arcs], want, key + '-indexes', 'source states by the indexes')
    ctx.ok(all(0 <= a[1] < n for a in arcs), key + '-indexes', 'destination out of range', out=arcs)
    return F(n, arcs)


def gen(ctx, cap=True, **kw):
    r = ctx.rng
    f = fsam.gen(r, topo=kw.pop('topo', r.random() < .5), **kw)
    ctx.note(fsa=f)
    ctx.sig(f)
    return f


def live(f):
    if f.n == 0:
        return []
    a, c = fsam.accessible(f), fsam.coaccessible(f)
    return [s for s in range(f.n) if a[s] and c[s]]


def trimmed_acyclic(f):
    keep = set(live(f))
    return fsam.is_acyclic(F(f.n, [a for a in f.arcs if a[0] in keep and a[1] in keep and a[0] != a[1]])) if f.n else True


def same_trimmed(ctx, f, g, m, key):
    """g is f restricted to its live states and renumbered; m maps its arcs."""
    keep = live(f)
    if not keep:
        ctx.eq((g.n, g.arcs, m), (0, [], []), key, 'nothing is accepted')
        return
    ks = set(keep)
    want = [i for i, a in enumerate(f.arcs) if a[0] in ks and a[1] in ks]
    ctx.eq(g.n, len(keep), key, 'states')
    ctx.eq(sorted(m), want, key, 'arcs kept')
    st = {0: 0, g.n - 1: f.n - 1}
    for i, a in enumerate(g.arcs):
        b = f.arcs[m[i]]
        ctx.ok(st.setdefault(a[0], b[0]) == b[0] and st.setdefault(a[1], b[1]) == b[1] and a[2:] == b[2:], key,
               f'arc {i} {a} is said to be arc {m[i]} {b}', out=g)
    ctx.ok(len(set(st.values())) == len(st), key, 'two states of the output stand for one state', out=g)


def op_connect(ctx):
    f = gen(ctx)
    top = ctx.rng.random() < .5
    ok, t = (o.h_topsort if top else o.h_connect)(T(f, offset(ctx.rng)))
    g = out_fsa(ctx, t, 'connect')
    m = t[2].tolist()
    acyc = trimmed_acyclic(f)
    empty = not live(f)
    key = 'topsort' if top else 'connect'
    if not empty or top:
        ctx.eq(bool(ok), acyc, key + '-status', 'whether the output is top-sorted')
    else:
        ctx.eq(bool(ok), True, key + '-status', 'an FSA that accepts nothing')
    if top and not acyc:
        ctx.eq((g.n, g.arcs), (0, []), key, 'an FSA with cycles')
        return
    same_trimmed(ctx, f, g, m, key)
    if ok:
        ctx.ok(all(a[1] >= a[0] for a in g.arcs), key + '-order', 'not top-sorted', out=g)


def lab(a):
    return (a[2] & 0xffffffff, a[1])


def op_arcsort(ctx):
    f = gen(ctx)
    t = o.h_arcsort(T(f, offset(ctx.rng)), ctx.rng.random() < .5)
    g = out_fsa(ctx, t, 'arcsort')
    m = t[2].tolist()
    ctx.eq(sorted(m), list(range(len(f.arcs))), 'arcsort', 'arc map')
    ctx.eq(g.n, f.n, 'arcsort', 'states')
    ctx.eq(g.arcs, [f.arcs[i] for i in m], 'arcsort', 'arcs by the arc map')
    ctx.ok(all(a[0] != b[0] or lab(a) <= lab(b) for a, b in zip(g.arcs, g.arcs[1:])), 'arcsort', 'not sorted', out=g)


def op_intersect(ctx):
    r = ctx.rng
    a, b = fsam.gen(r), fsam.gen(r)
    sort = r.random() < .9
    if sort:
        a, b = fsam.arc_sorted(a), fsam.arc_sorted(b)
    eps = r.random() < .6
    check = True if not sort else r.random() < .5
    ctx.note(a=a, b=b, eps=eps, check=check)
    ctx.sig(a, b, eps)
    ok, t = o.h_intersect(T(a, offset(r)), T(b, offset(r)), eps, check)
    c = out_fsa(ctx, t, 'intersect')
    ma, mb = t[2].tolist(), t[3].tolist()
    if a.n == 0 or b.n == 0:
        ctx.eq((bool(ok), c.n), (True, 0), 'intersect', 'an empty operand')
        return
    srt = all(x[0] != y[0] or lab(x) <= lab(y) for f in (a, b) for x, y in zip(f.arcs, f.arcs[1:]))
    if not srt:
        ctx.eq((bool(ok), c.n), (False, 0), 'intersect', 'operands that are not arc-sorted')
        return
    ctx.eq(bool(ok), True, 'intersect', 'status')
    la, lb, lc = a.leaving(), b.leaving(), c.leaving()
    pair = {0: (0, 0)}
    todo, seen = [0], {0}
    while todo:
        s = todo.pop()
        p, q = pair[s]
        want = []
        if eps:
            want += [(i, -1) for i in la[p] if a.arcs[i][2] == 0] + [(-1, j) for j in lb[q] if b.arcs[j][2] == 0]
        want += [(i, j) for i in la[p] for j in lb[q] if a.arcs[i][2] == b.arcs[j][2] and not (eps and a.arcs[i][2] == 0)]
        ctx.eq(sorted((ma[k], mb[k]) for k in lc[s]), sorted(want), 'intersect-arcs', f'arcs leaving the pair {p, q}')
        for k in lc[s]:
            i, j = ma[k], mb[k]
            x = c.arcs[k]
            w = f32((a.arcs[i][3] if i >= 0 else 0) + (b.arcs[j][3] if j >= 0 else 0))
            l = a.arcs[i][2] if i >= 0 else b.arcs[j][2]
            ctx.eq((x[2], x[3]), (l, w), 'intersect-arcs', f'label and score of arc {k}')
            to = (a.arcs[i][1] if i >= 0 else p, b.arcs[j][1] if j >= 0 else q)
            ctx.eq(pair.setdefault(x[1], to), to, 'intersect-arcs', f'destination of arc {k}')
            if x[1] not in seen:
                seen.add(x[1])
                todo.append(x[1])
    ctx.eq(len(set(pair.values())), len(pair), 'intersect-arcs', 'pairs of states')
    fin = [s for s, p in pair.items() if p == (a.final, b.final)]
    ctx.ok(fin in ([], [c.n - 1]), 'intersect-final', f'final pair at {fin} of {c.n}')
    ctx.ok(seen | {c.n - 1} == set(range(c.n)), 'intersect-final', 'states no pair stands for', out=c)


def op_props(ctx):
    r = ctx.rng
    f = gen(ctx)
    if r.random() < .15 and f.n:
        i = r.randrange(len(f.arcs))
        x = f.arcs[i]
        f.arcs[i] = (x[0], f.final, 3, x[3])
        ctx.note(invalid=f)
    if r.random() < .2:
        f = F(f.n, [(*a[:3], 0.0) for a in f.arcs])
    g, order = o.h_props(T(f, offset(r)))
    g = [bool(x) for x in g]
    acc = fsam.accessible(f) if f.n else []
    valid = f.n == 0 or all(a[2] == -1 for a in f.arcs if a[1] == f.n - 1)
    top = all(a[1] >= a[0] for a in f.arcs)
    srt = all(a[0] != b[0] or lab(a) <= lab(b) for a, b in zip(f.arcs, f.arcs[1:]))
    loops = any(a[0] == a[1] for a in f.arcs)
    acyc = fsam.is_acyclic(F(f.n, [a for a in f.arcs if acc[a[0]]])) if f.n else True
    det = len({(a[0], a[2]) for a in f.arcs}) == len(f.arcs)
    con = len(live(f)) == f.n
    want = [valid, top, srt, loops, acyc, top and not loops, det, all(a[2] != 0 for a in f.arcs), con,
            all(a[3] == 0 for a in f.arcs), f.n == 0, acyc and con, top and con]
    names = ['valid', 'top-sorted', 'arc-sorted', 'self-loops', 'acyclic', 'top-sorted-acyclic', 'deterministic', 'epsilon-free',
             'connected', 'unweighted', 'empty', 'acyclic-connected', 'top-sorted-connected']
    for n, x, y in zip(names, g, want):
        ctx.eq(x, y, 'props-' + n, n)
    if acyc and f.n:
        order = order.tolist()
        ctx.eq(sorted(order), [s for s in range(f.n) if acc[s]], 'props-order', 'states in the order')
        at = {s: i for i, s in enumerate(order)}
        ctx.ok(all(at[a[1]] < at[a[0]] for a in f.arcs if acc[a[0]]), 'props-order', 'not a topological order', out=order)


def op_weights(ctx):
    r = ctx.rng
    f = gen(ctx, cyclic=False, topo=True, score=r.choice(['norm', 'neg', 'few', 'inf', 'big']))
    log = r.random() < .5
    fw, bw, fw2, bw2, best, tot = o.h_weights(T(f, offset(r)), log)
    sr = 'log' if log else 'max'
    wf, wb = fsam.forward(f, sr), fsam.backward(f, sr)
    for got, want, k in ((fw, wf, 'forward'), (bw, wb, 'backward'), (fw2, wf, 'forward2'), (bw2, wb, 'backward2')):
        ctx.closes(got.tolist(), want, 'weights-' + k, k, tol=1e-9, rel=1e-9)
    ctx.close(tot.item(), wf[-1] if f.n else NINF, 'weights-total', 'shortest distance', tol=1e-9, rel=1e-9)
    if not log and f.n:
        best = best.tolist()
        if wf[-1] == NINF:
            ctx.eq(best, [], 'weights-best', 'no path')
        else:
            s, w = 0, 0.0
            for i in best:
                ctx.ok(f.arcs[i][0] == s, 'weights-best', 'not a path', out=best)
                s = f.arcs[i][1]
                w += f.arcs[i][3]
            ctx.eq((s, w), (f.final, wf[-1]), 'weights-best', 'end and weight of the best path', out=best)


def rows_t(rows):
    idx = [0]
    for x in rows:
        idx.append(idx[-1] + len(x))
    return torch.tensor(idx, dtype=torch.int32), torch.tensor([v for x in rows for v in x], dtype=torch.int32)


def t_rows(i, v):
    i, v = i.tolist(), v.tolist()
    return [v[a:b] for a, b in zip(i, i[1:])]


def rrows(r, n, hi, k=(0, 1, 1, 2, 3)):
    return [[r.randrange(hi) for _ in range(r.choice(k))] for _ in range(n)] if hi else [[] for _ in range(n)]


def op_aux(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 5, 12])
    rows = rrows(r, n, 9)
    ctx.note(rows=rows)
    i, v = rows_t(rows)
    if r.random() < .5:
        m = [r.randrange(n) for _ in range(r.choice([0, 1, 4, 9]))] if n else []
        ctx.sig('aux1', rows, m)
        got = t_rows(*o.h_aux1(i, v, offset(r), torch.tensor(m, dtype=torch.int32), r.choice([0, 0, 1, 4])))
        want = [rows[k] for k in m]
    else:
        m = rrows(r, r.choice([0, 1, 4, 9]), n)
        ctx.sig('aux2', rows, m)
        mi, mv = rows_t(m)
        got = t_rows(*o.h_aux2(i, v, offset(r), mi, mv, offset(r)))
        want = [[x for k in z for x in rows[k]] for z in m]
    ctx.eq(got, want, 'aux-labels', 'mapped labels')


def relation(f, rows, other):
    """Multiset of (labels, other labels, weight) over all paths."""
    ps = fsam.paths(f, 3000)
    if ps is None:
        raise Skip
    out = {}
    for p in ps:
        x = tuple(f.arcs[i][2] for i in p if f.arcs[i][2] != 0)
        y = tuple(v for i in p for v in rows[i] if v != 0)
        k = (y, x) if other else (x, y)
        out.setdefault(k, []).append(sum(f.arcs[i][3] for i in p))
    return {k: sorted(v) for k, v in out.items()}


def op_invert(ctx):
    r = ctx.rng
    cyc = r.random() < .3
    f = gen(ctx, cyclic=cyc, max_n=6)
    rows = [[r.randrange(4) for _ in range(r.choice([0, 1, 1, 2, 3]))] + ([-1] if a[1] == f.final else []) for a in f.arcs]
    rows = [x if not x or a[1] == f.final else x for x, a in zip(rows, f.arcs)]
    ctx.note(aux=rows)
    t = o.h_invert(T(f, offset(r)), *rows_t(rows), offset(r))
    g = out_fsa(ctx, t, 'invert')
    got = t_rows(t[2], t[3])
    ctx.eq(g.n, f.n + sum(max(0, len(x) - 1) for x in rows), 'invert', 'states')
    ctx.eq(len(g.arcs), sum(max(1, len(x)) for x in rows), 'invert', 'arcs')
    ctx.eq(len(got), len(g.arcs), 'invert', 'lists of labels')
    ctx.eq(sorted(v for x in got for v in x), sorted(a[2] for a in f.arcs if a[2] != 0), 'invert', 'labels that become auxiliary')
    if f.n and all(a[1] >= a[0] for a in f.arcs) and not any(a[0] == a[1] for a in f.arcs):
        ctx.ok(all(a[1] > a[0] for a in g.arcs), 'invert', 'no longer top-sorted', out=g)
    if f.n == 0:
        return
    if not cyc:
        A, B = relation(f, rows, True), relation(g, got, False)
        ctx.eq(set(B), set(A), 'invert-relation', 'pairs of strings')
        for k in A:
            ctx.closes(B[k], A[k], 'invert-relation', f'weights of {k}', tol=1e-6)
    else:
        A, LA = fsam.lang(f, 'max', 4, eps=True)
        # the strings of the output, read through its auxiliary labels
        tot = {}
        B = {}
        lv, co = g.leaving(), fsam.coaccessible(g)
        st = {((), 0): 0.0}
        best = dict(st)
        work = [((), 0)]
        it = 0
        neg = all(a[3] <= 0 for a in g.arcs)
        if not neg:
            return
        while work:
            it += 1
            if it > 20000:
                raise Skip
            s, q = work.pop()
            for i in lv[q]:
                a = g.arcs[i]
                if not co[a[1]]:
                    continue
                s2 = s + tuple(v for v in got[i])
                if len([v for v in s2 if v != -1]) > 2:
                    continue
                w = best[(s, q)] + a[3]
                if w > best.get((s2, a[1]), NINF):
                    best[(s2, a[1])] = w
                    work.append((s2, a[1]))
        for (s, q), w in best.items():
            if q == g.final:
                k = s[:-1]
                B[k] = max(B.get(k, NINF), w)
        L = min(LA, 2)
        for k in {k for k in A if len(k) <= L} | {k for k in B if len(k) <= L}:
            ctx.close(B.get(k, NINF), A.get(k, NINF), 'invert-relation', f'best weight of {k}', tol=1e-4)


def op_create(ctx):
    r = ctx.rng
    which = r.randrange(3)
    f = fsam.gen(r, allow_empty=False, cyclic=False if which == 2 else None, topo=False, connected=which == 2 or None)
    if f.n < 2:
        raise Skip
    arcs = list(f.arcs)
    r.shuffle(arcs)
    bad = None
    if which:
        # the final state may carry any number; it stays the one with label -1
        n = 1 + max(max(a[0], a[1]) for a in arcs)
        if not any(a[2] == -1 for a in arcs):
            raise Skip
        perm = [0] + r.sample(range(1, n), n - 1)
        arcs = [(perm[a[0]], perm[a[1]], a[2], a[3]) for a in arcs]
        x = r.random()
        if which == 1 and x < .1:
            arcs = [(a[0], a[1], 5 if a[2] == -1 else a[2], a[3]) for a in arcs]
            bad = 'no final arc'
        elif which == 1 and x < .2 and n > 2:
            fin = perm[f.final]
            arcs.append((0, next(s for s in range(1, n) if s != fin), -1, 0.0))
            bad = 'two final states'
        elif which == 1 and x < .3:
            arcs.append((perm[f.final], 0, 2, 0.0))
            bad = 'an arc leaves the final state'
        elif which == 2 and x < .15:
            a = r.choice(arcs)
            arcs.append((a[1], a[0], 2, 0.0))
            bad = 'a cycle'
        ns = 1 + max(max(a[0], a[1]) for a in arcs)
    else:
        ns = f.n
        if r.random() < .1:
            arcs = []
    ctx.note(arcs=arcs, which=which, bad=bad)
    ctx.sig(arcs, which)
    t, e = call(o.h_create, fsam.arcs_tensor(arcs), ns if arcs else 0, which)
    key = ['reorder', 'create', 'create-top'][which]
    if bad:
        ctx.ok(e is not None, key + '-refused', f'accepted: {bad}')
        ctx.ok('k2v' not in str(e), key + '-refused', str(e)[:300])
        return
    ctx.ok(e is None, key, f'refused: {str(e)[:300]}')
    g = out_fsa(ctx, t, key)
    m = t[2].tolist()
    ctx.eq(sorted(m), list(range(len(arcs))), key, 'arc map')
    if which == 0:
        ctx.eq(g.arcs, [arcs[i] for i in m], key, 'arcs')
        ctx.eq(m, sorted(range(len(arcs)), key=lambda i: arcs[i][0]), key, 'order of the arcs')
        return
    st = {0: 0}
    for a, i in zip(g.arcs, m):
        b = arcs[i]
        if which == 1:
            st[0] = 0
        ctx.ok(st.setdefault(b[0], a[0]) == a[0] and st.setdefault(b[1], a[1]) == a[1] and a[2:] == b[2:], key,
               f'arc {a} is said to be {b}', out=g)
    ctx.eq(len(set(st.values())), len(st), key, 'renumbering')
    if which == 1:
        ctx.eq(st[perm[f.final]], g.n - 1, key, 'the final state is last')
        rest = [s for s in range(n) if s != perm[f.final]]
        ctx.eq([st[s] for s in rest if s in st], [k for k, s in enumerate(rest) if s in st], key, 'the other states keep their order')
    else:
        ctx.ok(all(a[1] > a[0] for a in g.arcs), key, 'not top-sorted', out=g)


def op_maps(ctx):
    r = ctx.rng
    n = r.choice([1, 3, 8])
    w = [r.randint(-32, 32) / 8 for _ in range(n)]
    m = rrows(r, r.choice([0, 1, 4, 9]), n)
    ctx.note(w=w, map=m)
    ctx.sig(w, m)
    a, b, i1, i2, c1 = o.h_maps(*rows_t(m), offset(r), torch.tensor(w))
    flat = [v for x in m for v in x]
    ctx.eq(a.tolist(), [sum(w[k] for k in x) for x in m], 'maps', 'summed weights')
    ctx.eq(b.tolist(), [w[k] for k in flat], 'maps', 'weights')
    ctx.eq(i1.tolist(), flat, 'maps', 'indexes of the input')
    ctx.eq(i2.tolist(), [k for k, x in enumerate(m) for _ in x], 'maps', 'indexes of the output')
    ctx.eq(c1.tolist(), flat, 'maps', 'converted indexes')


def op_entering(ctx):
    f = gen(ctx)
    got = t_rows(*o.h_entering(T(f, offset(ctx.rng))))
    ctx.eq(got, f.entering(), 'entering', 'arcs entering each state')


def op_text(ctx):
    r = ctx.rng
    f = gen(ctx, score=r.choice(['norm', 'neg', 'big', 'inf', 'zero']))
    s, d = o.h_text(T(f, 0 if r.random() < .5 else offset(r)))
    num = '{:g}'.format
    want = ''.join(f'{a[0]} {a[1]} {a[2]} {num(a[3])}\n' for a in f.arcs) + (f'{f.final}\n' if f.n else '')
    ctx.eq(s, want, 'text', 'FsaToString')
    lines = [x.strip() for x in d.splitlines()]
    if f.n == 0:
        ctx.eq(d, '', 'render', 'an empty FSA')
    else:
        edges = [x.split(', fontsize')[0] for x in lines if '->' in x]
        lv = f.leaving()
        we = [f'{a[0]} -> {a[1]} [label = "{a[2]}' + ('/%.1f' % a[3] if a[3] != 0 else '') + '"' for s in range(f.n) for a in
              [f.arcs[i] for i in lv[s]]]
        ctx.eq(edges, we, 'render', 'edges')
        nodes = [(x.split(' [')[0], 'doublecircle' in x) for x in lines if 'shape' in x and '->' not in x]
        ctx.eq(nodes, [(str(s), s == f.final) for s in range(f.n)], 'render', 'nodes')
    if f.n < 2 or not f.arcs or max(max(a[0], a[1]) for a in f.arcs) != f.final:
        return
    # reading it back: three columns, no scores; blank lines, tabs and spaces are nothing
    order = list(f.arcs)
    r.shuffle(order)
    sep = lambda: r.choice([' ', '\t', '  ', ' \t '])
    txt = ''.join(r.choice(['', '', ' ', '\n', '\t\n']) + f'{a[0]}{sep()}{a[1]}{sep()}{a[2]}' + r.choice(['', ' ', '\t']) + '\n' for a in order)
    bad = r.random()
    tail = f'{f.final}' + r.choice(['', '\n', '\n\n', ' \n'])
    if bad < .3:
        txt, tail = r.choice([(txt, ''), (txt, f'{f.final + 1}\n'), (txt + '0 1\n', tail), (txt + '0 1 x\n', tail), ('', tail),
                              (txt + '0 1 99999999999\n', tail), (txt + tail + '\n0 1 1\n', ''), (txt + '-1 1 1\n', tail),
                              (txt + '0 -2 1\n', tail), (txt + '-3 -2 1\n', tail), (txt + '0 1 1 0.5\n', tail)])
    ctx.note(text=txt + tail)
    t, e = call(o.h_from_string, txt + tail)
    if bad < .3:
        ctx.ok(e is not None, 'from-string-refused', 'malformed text accepted')
        return
    ctx.ok(e is None, 'from-string', f'refused: {str(e)[:300]}')
    g = out_fsa(ctx, t, 'from-string')
    ctx.eq((g.n, g.arcs), (f.n, [(*a[:3], 0.0) for a in sorted(order, key=lambda a: a[0])]), 'from-string', 'what was read')


def op_rand(ctx):
    r = ctx.rng
    syms, n, m = r.randint(2, 6), r.randint(2, 10), r.randint(2, 40)
    allow, acyc, seed, wt = r.random() < .7, r.random() < .5, r.randint(1, 10 ** 6), r.random() < .5
    ctx.sig('rand', syms, n, m, allow, acyc, seed, wt)
    ctx.note(args=[syms, n, m, allow, acyc, seed, wt])
    t, e = call(o.h_rand_fsa, syms, n, m, allow, acyc, seed, wt)
    if e is not None:
        ctx.ok(not allow and 'Cannot generate' in str(e), 'rand-fsa', f'refused: {str(e)[:300]}')
        return
    f = out_fsa(ctx, t, 'rand-fsa')
    ctx.ok(allow or f.n, 'rand-fsa', 'empty')
    ctx.ok(len(live(f)) == f.n <= n, 'rand-fsa', 'not connected or too many states', out=f)
    ctx.ok(all((a[2] == -1) == (a[1] == f.final) and a[2] < syms for a in f.arcs), 'rand-fsa', 'labels', out=f)
    ctx.ok(not acyc or fsam.is_acyclic(f), 'rand-fsa', 'cyclic', out=f)
    ctx.ok(not allow or len(f.arcs) <= m, 'rand-fsa', 'too many arcs', out=f)
    ctx.ok(all(0 <= a[3] <= 5 and a[3] * 2 == int(a[3] * 2) for a in f.arcs) and (wt or all(a[3] == 0 for a in f.arcs)), 'rand-fsa', 'scores', out=f)
    u = o.h_rand_fsa(syms, n, m, allow, acyc, seed, wt)
    ctx.ok(all(torch.equal(x, y) for x, y in zip(t, u)), 'rand-fsa', 'the same seed gives another FSA')


def op_path(ctx):
    r = ctx.rng
    f = gen(ctx, connected=r.random() < .8, eps=r.choice([0.0, 0.3]), max_n=7)
    noeps = r.random() < .5
    if noeps and f.n and not all(fsam.coaccessible(F(f.n, [a for a in f.arcs if a[2] != 0]))):
        noeps = False  # it may walk without end
    ok, t = o.h_rand_path(T(f, offset(r)), noeps, r.choice([2, 5, 50]))
    p = out_fsa(ctx, t, 'rand-path')
    m = t[2].tolist() if ok else []
    con = f.n > 0 and len(live(f)) == f.n
    if not con:
        ctx.eq((bool(ok), p.n), (False, 0), 'rand-path', 'an FSA that is not connected')
        return
    if not noeps or all(a[2] != 0 for a in f.arcs):
        ctx.eq(bool(ok), True, 'rand-path', 'no path found')
    if not ok:
        ctx.eq(p.n, 0, 'rand-path', 'states of a failure')
        return
    ctx.eq([a[:2] for a in p.arcs], [(i, i + 1) for i in range(p.n - 1)], 'rand-path', 'not linear')
    s = 0
    for a, i in zip(p.arcs, m):
        b = f.arcs[i]
        ctx.ok(b[0] == s and a[2:] == b[2:], 'rand-path', f'{a} is said to be arc {i} {b}')
        s = b[1]
    ctx.eq(s, f.final, 'rand-path', 'where it ends')
    ctx.ok(not noeps or all(a[2] != 0 for a in p.arcs), 'rand-path', 'an epsilon on the path', out=p)


def chain(ls, ws=None):
    ls = list(ls) + [-1]
    return F(len(ls) + 1, [(i, i + 1, x, ws[i] if ws else 0.0) for i, x in enumerate(ls)])


def op_equiv(ctx):
    r = ctx.rng
    kind = r.randrange(3)
    f = gen(ctx, cyclic=None if kind == 0 else False, max_n=7, score=r.choice(['norm', 'few']), labels=2)
    eps = r.random() < .7
    beam = r.choice([math.inf, 4.0])
    np_ = r.choice([1, 10, 40])
    ask = lambda a, b, n=np_, d=1e-3, e=eps: o.h_equiv(T(a, offset(r)), T(b, offset(r)), kind, beam, e, d, n)
    # the same FSA with other numbers, dead states and another order of its arcs
    g = fsam.permute(r, f)
    arcs = list(g.arcs)
    r.shuffle(arcs)
    if g.n > 2 and r.random() < .5:
        m = r.randrange(1, g.n)
        up = lambda s: s + (s >= m)
        arcs = [(up(a[0]), up(a[1]), a[2], a[3]) for a in arcs] + [(0, m, 1, 2.0)]
        g = F(g.n + 1, [])
    g = F(g.n, sorted(arcs, key=lambda a: a[0]))
    ctx.note(same=g)
    ctx.ok(ask(f, g), 'equiv-same', 'said to differ')
    if not live(f):
        h = chain([1])
        ctx.ok(not ask(f, h) and not ask(h, f), 'equiv-different', 'empty and not empty')
        return
    x = r.randrange(4)
    if x == 0:  # a label only one of them has
        h = F(f.n + 1, [])
        fin = f.final
        mv = lambda s: s + (s >= fin)
        h.arcs = sorted([(mv(a[0]), mv(a[1]), a[2], a[3]) for a in f.arcs] + [(0, fin, 99, 0.0), (fin, fin + 1, -1, 0.0)])
        ctx.ok(not ask(f, h) and not ask(h, f), 'equiv-different', 'one has a label the other has not')
    elif x == 1:  # strings of the same labels
        ls = [r.choice([1, 2]) for _ in range(r.randint(2, 5))]
        if len(set(ls)) == 1:
            ls[0] = 3 - ls[0]
        ms = list(ls)
        while ms == ls:
            r.shuffle(ms)
        ctx.note(ls=ls, ms=ms)
        ctx.ok(not ask(chain(ls), chain(ms)), 'equiv-different', f'{ls} and {ms}')
    elif kind and x == 2:  # another total, before any path is drawn
        k = r.choice([.25, .5, 3.0])
        h = F(f.n, [(*a[:3], a[3] + (k if a[1] == f.final else 0)) for a in f.arcs])
        ctx.ok(not ask(f, h, r.choice([0, np_])) and not ask(h, f, 0), 'equiv-different', f'weights differ by {k}')
        ctx.ok(ask(f, h, 5, 4 * k) or beam < math.inf, 'equiv-delta', f'weights differ by {k}, within delta')
    elif kind:  # one string with another weight, the total the same in the max semiring
        if kind == 1:
            a = F(4, [(0, 1, 1, 0.0), (0, 2, 2, -1.0), (1, 3, -1, 0.0), (2, 3, -1, 0.0)])
            b = F(4, [(0, 1, 1, 0.0), (0, 2, 2, -2.0), (1, 3, -1, 0.0), (2, 3, -1, 0.0)])
            ctx.ok(not o.h_equiv(T(a), T(b), 1, math.inf, eps, 1e-3, 200), 'equiv-different', 'a second string with another weight')
            ctx.ok(o.h_equiv(T(a), T(b), 1, 0.5, eps, 1e-3, 50), 'equiv-beam', 'a difference outside the beam')


def op_equiv_py(ctx):
    """k2.is_rand_equivalent: every member has to match."""
    import k2
    r = ctx.rng
    k = r.choice([1, 1, 2, 3, 5])
    fs = [fsam.gen(r, cyclic=False, topo=True, allow_empty=k > 1, max_n=6, labels=2, score=r.choice(['norm', 'few'])) for _ in range(k)]
    gs = []
    for f in fs:
        arcs = list(f.arcs)
        r.shuffle(arcs)
        gs.append(F(f.n, sorted(arcs, key=lambda a: a[0])))
    vec = k > 1 or r.random() < .5
    log = r.random() < .5
    eps = r.random() < .7
    ctx.note(fs=fs, log=log)
    ctx.sig('py', fs)

    def ask(x, y, delta=1e-3):
        x, y = fsam.build(x, vec), fsam.build(y, vec)
        a, b = r.choice([(x, y), (y, x)])
        n = r.choice([0, 1, 20])
        if log and delta == 1e-3 and eps and beam is None and r.random() < .1:
            return k2.is_rand_equivalent(a, b, log, delta=delta)
        return k2.is_rand_equivalent(a, b, log, beam or math.inf, eps, delta, n)

    beam = r.choice([None, 5.0])
    ctx.ok(ask(fs, gs), 'equiv-py-same', 'said to differ')
    i = r.randrange(k)
    f = gs[i]
    x = r.randrange(3)
    if x == 0 and vec:
        n = r.randint(0, k - 1)
        ctx.ok(not ask(fs, gs[:n] + gs[n + 1:]) if k > 1 else not ask(fs, gs + gs[:1]), 'equiv-py-different', 'another number of members')
    elif f.n and live(f):
        d = r.choice([.25, .5, 3.0])
        if x == 1:
            gs[i] = F(f.n, [(*a[:3], a[3] + (d if a[1] == f.final else 0)) for a in f.arcs])
            ctx.ok(not ask(fs, gs), 'equiv-py-different', f'scores of member {i} higher by {d}')
            ctx.ok(beam or ask(fs, gs, 4 * d), 'equiv-py-delta', f'scores of member {i} higher by {d}, within delta')
        else:
            mv = lambda s: s + (s >= f.final)
            gs[i] = F(f.n + 1, sorted([(mv(a[0]), mv(a[1]), *a[2:]) for a in f.arcs] +
                                      [(0, f.final, 99, 0.0), (f.final, f.final + 1, -1, 0.0)], key=lambda a: a[0]))
            ctx.ok(not ask(fs, gs), 'equiv-py-different', f'member {i} has another label')


def posterior(f, ps):
    """(log-sum, {arc: occupation}) over paths."""
    ws = [sum(f.arcs[i][3] for i in p) for p in ps]
    z = fsam.logsum(ws)
    occ = {}
    for p, w in zip(ps, ws):
        for i in p:
            occ[i] = occ.get(i, 0.0) + math.exp(w - z)
    return z, occ


def by_string(f, ps, eps):
    out = {}
    for p in ps:
        out.setdefault(tuple(f.arcs[i][2] for i in p if not (eps and f.arcs[i][2] == 0)), []).append(p)
    return out


def check_derivs(ctx, f, g, rows, vals, log, key, eps, exact=True):
    """What the arcs of the output are made of, added up along each path of it."""
    A, B = fsam.paths(f, 2000), fsam.paths(g, 400)
    if A is None or B is None:
        return
    A = by_string(f, A, eps)
    for p in B:
        s = tuple(g.arcs[i][2] for i in p)
        w = sum(g.arcs[i][3] for i in p)
        if s not in A:
            ctx.fail(key + '-derivs', f'string {s} is not one of the input')
        if not log:
            made = [k for i in p for k in rows[i]]
            ctx.ok(tuple(made) in A[s], key + '-derivs', f'the arcs {made} behind {s} are no path of the input')
            ctx.close(w, sum(f.arcs[k][3] for k in made), key + '-derivs', 'weight of a path and of what it was made of', tol=1e-3)
        elif exact:
            z, occ = posterior(f, A[s])
            got = {}
            for i in p:
                for k, d in zip(rows[i], vals[i]):
                    ctx.ok(-1e-6 <= d <= 1 + 1e-4, key + '-derivs', f'derivative {d}')
                    got[k] = got.get(k, 0.0) + d
            for k in set(got) | set(occ):
                ctx.close(got.get(k, 0.0), occ.get(k, 0.0), key + '-derivs', f'derivative of {s} by arc {k}', tol=5e-3)


def derivs(t, log):
    rows = t_rows(t[2], t[3])
    if not log:
        return rows, None
    w = t[4].tolist()
    i = t[2].tolist()
    return rows, [w[a:b] for a, b in zip(i, i[1:])]


def deterministic(g):
    return len({(a[0], a[2]) for a in g.arcs}) == len(g.arcs)


def within(ctx, f, g, sr, beam, key, eps):
    """Strings within the beam keep their weight, no string gets a better one."""
    if f.n == 0 or g.n == 0:
        ctx.eq(g.n, 0 if not live(f) else g.n, key, 'states')
        ctx.ok(g.n or sr == 'log' or not live(f), key, 'nothing is left')
        return
    A, LA = fsam.lang(f, sr, 7, eps=eps)
    B, LB = fsam.lang(g, sr, 7, eps=False)
    L = min(LA, LB)
    best = max(A.values(), default=NINF)
    tot = max(best, NINF) if sr == 'max' else fsam.forward(f, 'log')[-1]
    n = 0
    for k in {k for k in A if len(k) <= L} | {k for k in B if len(k) <= L}:
        a, b = A.get(k, NINF), B.get(k, NINF)
        ctx.ok(b <= a + 2e-3, key, f'string {k}: weight {a} became {b}', out=g)
        if sr == 'max' and a > tot - beam + 1e-3:
            n += 1
            ctx.close(b, a, key, f'string {k} within the beam of {tot}', tol=1e-3, out=g)
    ctx.count('within-beam', n)


def final_last(g):
    """States that were not expanded may follow the final state: see DESIGN.md."""
    fin = next(a[1] for a in g.arcs if a[2] == -1)
    sw = {fin: g.n - 1, g.n - 1: fin}
    return F(g.n, sorted([(sw.get(a[0], a[0]), sw.get(a[1], a[1]), *a[2:]) for a in g.arcs], key=lambda a: a[0]))


def op_det(ctx):
    r = ctx.rng
    log = r.random() < .5
    pruned = r.random() < .5
    f = gen(ctx, cyclic=False, connected=True, eps=0.0, max_n=7, topo=True, labels=r.choice([1, 2]))
    push = r.randrange(3)
    beam = r.choice([1e6, 1e6, .5, 2.0, 5.0]) if pruned else 1e6
    step = r.choice([-1, 0, 10 ** 9])
    ctx.note(log=log, beam=beam, push=push)
    ctx.sig(log, beam, push)
    x = T(f, offset(r))
    t = o.h_det_pruned(x, log, beam, step, push) if pruned else o.h_det(x, log, step, push)
    g = out_fsa(ctx, t, 'det')
    key = 'det-pruned' if pruned else 'det'
    ctx.ok(deterministic(g), key, 'not deterministic', out=g)
    sr = 'log' if log else 'max'
    if beam == 1e6:
        fsam.check_same_lang(ctx, f, g, sr, key, tol=2e-3)
        rows, vals = derivs(t, log)
        check_derivs(ctx, f, g, rows, vals, log, key, False)
        if push < 2 and f.n:
            fsam.check_push(ctx, f, g, sr, push, key)
    elif log:
        # no string need be within the beam of the sum over all of them
        if any(a[2] == -1 for a in g.arcs):
            within(ctx, f, final_last(g), sr, beam, key, False)
    else:
        within(ctx, f, g, sr, beam, key, False)
        rows, vals = derivs(t, log)
        check_derivs(ctx, f, g, rows, vals, log, key, False, exact=False)
    if pruned:
        ctx.eq(t[-1].item(), f32(beam), key + '-effective', 'nothing was cut short')


def op_det_steps(ctx):
    """Stopping early keeps what lies within the returned beam."""
    r = ctx.rng
    f = gen(ctx, cyclic=False, connected=True, eps=0.0, max_n=7, topo=True, labels=2, allow_empty=False)
    log = r.random() < .5
    step = r.randint(1, 12)
    ctx.note(step=step, log=log)
    ctx.sig(step, log)
    t, e = call(o.h_det_pruned, T(f, offset(r)), log, 1e6, step, r.randrange(3))
    ctx.ok(e is None, 'det-steps', f'refused: {str(e)[:300]}')
    g = out_fsa(ctx, t, 'det-steps')
    eff = t[-1].item()
    ctx.ok(eff >= -1e-4, 'det-steps', f'effective beam {eff}')
    ctx.ok(deterministic(g), 'det-steps', 'not deterministic', out=g)
    last = all(a[1] == g.n - 1 for a in g.arcs if a[2] == -1)
    if log or not any(a[2] == -1 for a in g.arcs):
        return
    g = final_last(g)
    B, LB = fsam.lang(g, 'max', 7)
    A, LA = fsam.lang(f, 'max', 7)
    tot = max(A.values())
    for k, a in A.items():
        if len(k) <= min(LA, LB) and a > tot - eff + 1e-3:
            ctx.close(B.get(k, NINF), a, 'det-steps', f'string {k} within the effective beam {eff}', tol=1e-3, out=g)
    ctx.ok(last, 'max-step-final-state', 'the final state is not the last one', out=g)


def op_rmeps(ctx):
    r = ctx.rng
    log = r.random() < .5
    f = gen(ctx, cyclic=False, eps=r.choice([.2, .5, .9]), max_n=8, topo=True, connected=r.random() < .5)
    mp = log and r.random() < .4
    beam = r.choice([1e6, 1e6, .5, 2.0, 5.0])
    ctx.note(log=log, mp=mp, beam=beam)
    ctx.sig(log, mp, beam)
    t = o.h_rmeps(T(f, offset(r)), log, mp, beam)
    g = out_fsa(ctx, t, 'rmeps')
    ctx.ok(all(a[2] != 0 for a in g.arcs), 'rmeps', 'an epsilon remains', out=g)
    sr = 'log' if log else 'max'
    rows, vals = derivs(t, log)
    if beam == 1e6:
        A, LA = fsam.lang(f, sr, 6, eps=True)
        B, LB = fsam.lang(g, sr, 6)
        d = fsam.lang_diff(A, LA, B, LB, 2e-3)
        ctx.ok(d is None, 'rmeps', f'{sr}: {d}', out=g)
        # several paths of the output may carry one string: in log, weights them
        if not log:
            check_derivs(ctx, f, g, rows, vals, log, 'rmeps', True)
        else:
            check_log_rmeps(ctx, f, g, rows, vals)
    else:
        within(ctx, f, g, sr, beam, 'rmeps', True)
        if not log:
            check_derivs(ctx, f, g, rows, vals, log, 'rmeps', True)


def check_log_rmeps(ctx, f, g, rows, vals):
    A, B = fsam.paths(f, 2000), fsam.paths(g, 400)
    if A is None or B is None:
        return
    z, occ = posterior(f, A) if A else (NINF, {})
    z2, occ2 = posterior(g, B) if B else (NINF, {})
    got = {}
    for i, q in occ2.items():
        for k, d in zip(rows[i], vals[i]):
            got[k] = got.get(k, 0.0) + q * d
    for k in set(got) | set(occ):
        ctx.close(got.get(k, 0.0), occ.get(k, 0.0), 'rmeps-derivs', f'posterior of arc {k} through the derivatives', tol=5e-3)


def op_array3(ctx):
    r = ctx.rng
    arrs = [[[r.randrange(90) for _ in range(r.choice([0, 0, 1, 2, 4]))] for _ in range(r.choice([0, 1, 2, 5]))] for _ in range(r.choice([1, 2, 3, 6]))]
    ctx.note(arrs=arrs)
    ctx.sig(arrs)
    ins = [list(rows_t(x)) for x in arrs]
    for i, x in enumerate(arrs):
        if len(x) > 1 and r.random() < .5:
            lo = r.randrange(len(x))
            hi = r.randint(lo + 1, len(x))
            ins[i].append(torch.zeros(lo, hi))
            arrs[i] = x[lo:hi]
    ctx.note(slices=arrs)
    got = o.h_array3(ins, r.choice([1, 2, 3]))
    ctx.eq([t_rows(*x) for x in got], arrs, 'array3', 'arrays read back')


def op_arc(ctx):
    r = ctx.rng
    mk = lambda: (r.randrange(2), r.randrange(2), r.choice([-1, 0, 1, 2]), float(r.randrange(2)))
    a = mk()
    b = mk() if r.random() < .7 else a
    ctx.note(a=a, b=b)
    ctx.sig(a, b)
    eq, ne, lt, h = o.h_arc_cmp(fsam.arcs_tensor([a, b]))
    ctx.eq((bool(eq), bool(ne)), (a == b, a != b), 'arc-compare', 'equality of arcs')
    ctx.eq(bool(lt), lab(a) < lab(b), 'arc-compare', 'order of arcs')
    ctx.ok(h or a[:3] != b[:3], 'arc-compare', 'equal arcs with different hashes')
    x, y = r.uniform(-30, 30), r.choice([r.uniform(-30, 30), r.uniform(-800, 800), NINF])
    ctx.close(o.h_log_add(x, y, True), fsam.logadd(x, y), 'log-add', 'double', tol=1e-12, rel=1e-12)
    ctx.close(o.h_log_add(x, y, False), fsam.logadd(x, y), 'log-add', 'float', tol=1e-5, rel=1e-6)


OPS = [op_connect, op_connect, op_connect, op_arcsort, op_intersect, op_intersect, op_props, op_props, op_weights, op_aux, op_invert,
       op_invert, op_create, op_create, op_maps, op_entering, op_text, op_rand, op_path, op_equiv, op_equiv_py, op_det, op_det, op_det_steps,
       op_rmeps, op_rmeps, op_array3, op_arc]


def case(ctx):
    if 'host' not in HAVE:
        raise Skip
    op = ctx.rng.choice(OPS)
    ctx.count('op:' + op.__name__)
    try:
        op(ctx)
    except RuntimeError as e:
        s = str(e)
        if s == 'positive epsilon cycle':
            raise Skip
        if 'k2v' in s:
            ctx.fail('guard', s[:300])
        ctx.fail('refused:' + op.__name__, s[:400])
