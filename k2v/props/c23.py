"""C23: text, OpenFst, tensor, dict and pickle forms of FSAs and symbol tables,
against parsers and writers of those forms written here."""
import copy
import io
import os
import pickle
import re
import struct
import tempfile

import torch
import k2
from k2v import fsam, rag
from k2v.core import Skip
from k2v.fsam import F, NINF


def f32(x):
    if x == NINF or x == -NINF:
        return x
    return struct.unpack('f', struct.pack('f', x))[0]


def big_int(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice([2 ** 31 - 1, -2 ** 31, -1, 0, 2 ** 24 + 1, -2])
    return r.randint(0, 9) if k < 4 else r.randint(-2 ** 31, 2 ** 31 - 1)


def text_score(r):
    k = r.randrange(10)
    if k == 0:
        return NINF if r.random() < .7 else -NINF
    if k == 1:
        return f32(r.choice([1e30, -1e30, 1e-30, 3.4e38, -3.4e38, 1e-40, -0.0, 123456.7, 1234567.0, 0.1]))
    if k < 4:
        return 0.0
    if k < 7:
        return f32(r.gauss(0, 10))
    return r.randint(-32, 32) / 8


def gen_f(ctx, single=True):
    r = ctx.rng
    f = fsam.gen(r, score='zero', max_n=6, topo=r.random() < .5, allow_empty=r.random() < .3)
    if r.random() < .15 and f.n >= 3:      # nothing leaves the start state
        f = F(f.n, [a for a in f.arcs if a[0] != 0])
    elif r.random() < .12 and f.n >= 3:    # nothing enters the final state
        f = F(f.n, [a for a in f.arcs if a[1] != f.n - 1])
    big = r.random() < .2
    st = r.random() < .8
    return F(f.n, [(s, d, l if l <= 0 or not big else r.randint(1, 2 ** 31 - 1),
                    text_score(r) if st else r.randint(-16, 16) / 8) for s, d, l, _ in f.arcs])


NAMES = ['aux_labels', 'aux_labels2', 'aux_labels3', 'foo', 'Bar', 'zz', 'a1']


def give_attrs(ctx, f, openfst):
    """Random int and ragged attributes (name -> values); final arcs have -1
    and nothing where the OpenFst form cannot hold another value."""
    r = ctx.rng
    names = r.sample(NAMES, r.choice([0, 0, 1, 1, 2, 3, 4]))
    if r.random() < .2:
        names = [f'x{i:02d}' for i in range(r.choice([9, 10]))]
    ints, rags = {}, {}
    for nm in names:
        if r.random() < .65 or len(names) > 5:
            ints[nm] = [-1 if openfst and a[2] == -1 else big_int(r) for a in f.arcs]
        else:
            rags[nm] = [[] if openfst and a[2] == -1 else [big_int(r) for _ in range(r.choice([0, 1, 1, 2, 4]))]
                        for a in f.arcs]
    return ints, rags


def attach(ctx, fsa, ints, rags, extra=True):
    r = ctx.rng
    items = list(ints.items()) + list(rags.items())
    r.shuffle(items)
    for nm, v in items:
        if nm in ints:
            t = torch.tensor(v, dtype=torch.int32)
            if r.random() < .2:
                t = torch.stack([t, t + 0 * t], 1)[:, 0]     # strided
            setattr(fsa, nm, t)
        else:
            setattr(fsa, nm, rag.make(v, 2, 'i'))
    if extra and r.random() < .4:            # attributes that text does not carry
        n = fsa.num_arcs
        fsa.fl = torch.rand(n)
        fsa.i64 = torch.arange(n)
        fsa.m2 = torch.zeros(n, 2, dtype=torch.int32)
        fsa.plain = 'text'


def parse(ctx, text, n_int, n_rag, key):
    """Our own reader of one arc per line; returns (rows, final or None)."""
    rows, last = [], None
    for line in text.split('\n'):
        if not line.strip():
            continue
        parts = re.findall(r'\[[^\]]*\]|[^\s\[\]]+', line)
        if len(parts) <= 2:
            last = (last or []) + [parts]
            continue
        k = 3 + n_int
        ctx.eq(len(parts), k + n_rag + 1, key, f'fields of the line {line!r}')
        rows.append((int(parts[0]), int(parts[1]), int(parts[2]), [int(x) for x in parts[3:k]],
                     [[int(x) for x in p.strip('[]').split()] for p in parts[k:k + n_rag]], parts[-1]))
    return rows, last


def printed(ctx, tok, score, key):
    """The printed number denotes the score to at least 6 digits; returns the
    float32 it denotes."""
    v = float(tok)
    if abs(score) == -NINF or v != v:
        ctx.ok(v == score, key, 'printed score', tok=tok, score=score)
    else:
        ctx.ok(abs(v - score) <= 6e-6 * abs(score) + 1e-44, key, 'printed score', tok=tok, score=score)
    return f32(v)


def check_text(ctx, f, text, ints, rags, key):
    """k2 format. Returns the scores the text denotes."""
    rows, last = parse(ctx, text, len(ints), len(rags), key)
    ctx.eq(len(rows), len(f.arcs), key, 'one line per arc')
    out = []
    for i, (a, row) in enumerate(zip(f.arcs, rows)):
        ctx.eq(row[:3], a[:3], key, f'arc {i} as printed')
        ctx.eq(row[3], [v[i] for _, v in sorted(ints.items())], key, f'integer attributes of arc {i} as printed')
        ctx.eq(row[4], [v[i] for _, v in sorted(rags.items())], key, f'ragged attributes of arc {i} as printed')
        out.append(printed(ctx, row[5], a[3], key))
    ctx.eq(last, [[str(f.n - 1)]] if f.arcs else None, key, 'line of the final state')
    return out


def same_score(ctx, got, want, key, msg):
    ctx.ok(got == want, key, msg, got=got, want=want)


def compare(ctx, fsa, f, scores, ints, rags, key):
    ctx.eq(fsa.arcs.num_axes(), 2, key, 'axes')
    g = fsam.from_k2(fsa)
    want_n = f.n if f.arcs else 0
    ctx.eq(g.n, want_n, key, 'number of states read back')
    ctx.eq([a[:3] for a in g.arcs], [a[:3] for a in f.arcs], key, 'arcs read back')
    for i, (a, w) in enumerate(zip(g.arcs, scores)):
        same_score(ctx, a[3], w, key, f'score of arc {i} read back')
    names = {n for n, _ in fsa.named_tensor_attr(include_scores=False)}
    ctx.eq(names, set(ints) | set(rags), key, 'attributes read back')
    for n, v in ints.items():
        t = getattr(fsa, n)
        ctx.eq((t.dtype, t.tolist()), (torch.int32, v), key, f'attribute {n} read back')
    for n, v in rags.items():
        rag.check_ragged(ctx, getattr(fsa, n), v, 2, 'i', key=key)


def reader(ctx, ints, rags, openfst):
    """Keyword arguments under which these attributes are read, in the many
    ways that the readers accept."""
    r = ctx.rng
    names = sorted(ints)
    kw = {}
    if names == ['aux_labels', 'aux_labels2', 'aux_labels3'][:len(names)] and r.random() < .7:
        if not names:
            kw = r.choice([{}, {'acceptor': True}, {'num_aux_labels': 0}])
        elif len(names) == 1:
            kw = r.choice([{'acceptor': False}, {'num_aux_labels': 1}])
        else:
            kw = {'num_aux_labels': len(names)}
    else:
        kw = {'aux_label_names': names}
    kw = dict(kw)
    if rags or r.random() < .3:
        kw['ragged_label_names'] = sorted(rags)
    if openfst:
        if r.random() < .5:
            return lambda s: k2.Fsa.from_openfst(s, **kw)
        return lambda s: k2.Fsa.from_str(s, openfst=True, **kw)
    return lambda s: k2.Fsa.from_str(s, **kw)


def messy(ctx, rows, final):
    """The same FSA in the k2 format as another program might write it."""
    r = ctx.rng
    lines = []
    for s, d, l, ii, rr, tok in rows:
        sep = r.choice([' ', '  ', '\t', ' \t'])
        p = [str(s), str(d), str(l)] + [str(x) for x in ii]
        for x in rr:
            in_ = r.choice([' ', '  ', '\t'])
            p.append(r.choice(['[', '[ ', '[  ']) + in_.join(map(str, x)) + r.choice([']', ' ]', '\t]']))
        if tok is not None:
            p.append(tok)
        lines.append(r.choice(['', '', ' ', '\t']) + sep.join(p) + r.choice(['', '', ' ', '\t', '  ']))
        if r.random() < .1:
            lines.append(r.choice(['', ' ', '\t']))
    if final is not None:
        lines.append(r.choice(['', '', ' ']) + str(final) + r.choice(['', '', ' ', '\t']))
    return r.choice(['', '', '\n', ' \n']) + '\n'.join(lines) + r.choice(['', '\n', '\n\n', '\n '])


def token(r, w):
    if w == NINF or w == -NINF:
        return ('-' if w < 0 else r.choice(['', '+'])) + r.choice(['inf', 'Inf', 'Infinity'])
    return r.choice(['%g', '%.9g', '%r', '%e', '%f', '+%g', '%.3f']) % w if w > 0 else r.choice(['%g', '%.9g', '%r', '%e']) % w


def op_text(ctx):
    r = ctx.rng
    f = gen_f(ctx)
    ints, rags = give_attrs(ctx, f, False)
    fsa = fsam.single_k2(f)
    attach(ctx, fsa, ints, rags)
    ctx.note(f=f, ints=ints, rags=rags)
    text = k2.to_str(fsa)
    scores = check_text(ctx, f, text, ints, rags, 'text')
    read = reader(ctx, ints, rags, False)
    back = read(text)
    compare(ctx, back, f, scores, ints, rags, 'text-back')
    ctx.eq(k2.to_str(back), text, 'text-again', 'text of the FSA read back')
    # the long form starts with the same lines
    long = str(fsa) if r.random() < .5 else fsa.to_str()
    ctx.ok(long.startswith('k2.Fsa: '), 'long', 'prefix')
    head = long[len('k2.Fsa: '):].split('properties_str')[0]
    check_text(ctx, f, head, ints, rags, 'long')
    if 'aux_labels' in ints:
        check_text(ctx, f, k2.to_str_simple(fsa), {'aux_labels': ints['aux_labels']}, {}, 'simple')
    elif 'aux_labels' not in rags:
        check_text(ctx, f, k2.to_str_simple(fsa), {}, {}, 'simple')
    ctx.count('text')
    ctx.count('text-arcs', len(f.arcs))
    # written by somebody else
    if f.arcs:
        rows, want = [], []
        for i, a in enumerate(f.arcs):
            tok = None if a[3] == 0 and r.random() < .6 else token(r, a[3])
            rows.append((a[0], a[1], a[2], [v[i] for _, v in sorted(ints.items())],
                         [v[i] for _, v in sorted(rags.items())], tok))
            want.append(0.0 if tok is None else f32(float(tok)))
        s = messy(ctx, rows, f.n - 1)
        ctx.note(messy=s)
        compare(ctx, read(s), f, want, ints, rags, 'messy')
        ctx.count('messy')
    ctx.sig('text', len(ints), len(rags), min(f.n, 5), any(a[3] == NINF for a in f.arcs))


def op_vec_str(ctx):
    """The printed form of an FsaVec lists the members in order."""
    r = ctx.rng
    fs = [gen_f(ctx) for _ in range(r.randint(0, 3))]
    fsa = fsam.vec_to_k2(fs)
    allarcs = F(0, [a for f in fs for a in f.arcs])
    ints, rags = give_attrs(ctx, allarcs, False)
    attach(ctx, fsa, ints, rags)
    ctx.note(fs=fs, ints=ints, rags=rags)
    s = str(fsa)
    ctx.ok(s.startswith('k2.FsaVec: \n'), 'vec-str', 'prefix')
    s = s.split('properties_str')[0]
    parts = re.split(r'FsaVec\[(\d+)\]: ', s)[1:]
    ctx.eq(parts[0::2], [str(i) for i in range(len(fs))], 'vec-str', 'members')
    o = 0
    for f, p in zip(fs, parts[1::2]):
        e = o + len(f.arcs)
        check_text(ctx, f, p, {n: v[o:e] for n, v in ints.items()}, {n: v[o:e] for n, v in rags.items()}, 'vec-str')
        o = e
    ctx.count('vec-str')


# ------------------------------------------------------------------- OpenFst

def op_openfst_write(ctx):
    r = ctx.rng
    f = gen_f(ctx)
    ints, rags = give_attrs(ctx, f, True)
    fsa = fsam.single_k2(f)
    attach(ctx, fsa, ints, rags)
    ctx.note(f=f, ints=ints, rags=rags)
    if r.random() < .3:
        text = fsa.to_str(openfst=True)[len('k2.Fsa: '):].split('properties_str')[0]
    else:
        text = k2.to_str(fsa, openfst=True)
    # what the text denotes, as OpenFst reads it
    rows, last = parse(ctx, text, len(ints), len(rags), 'ofst-text')
    names_i, names_r = sorted(ints), sorted(rags)
    want = [(a[:3], [ints[n][i] for n in names_i], [rags[n][i] for n in names_r], a[3])
            for i, a in enumerate(f.arcs) if a[2] != -1]
    ctx.eq(len(rows), len(want), 'ofst-text', 'one line per arc that does not enter the final state')
    den = []
    for row, w in zip(sorted(rows, key=lambda x: x[0]), want):
        ctx.eq((row[:3], row[3], row[4]), w[:3], 'ofst-text', 'arc as printed')
        den.append(-printed(ctx, row[5], -w[3], 'ofst-text'))
    fin = [(int(p[0]), p[1] if len(p) == 2 else '0') for p in last or []]
    fin = [(s, c) for s, c in fin if c not in ('inf', 'Inf', 'Infinity')]
    wantf = [(a[0], a[3]) for a in f.arcs if a[2] == -1 and a[3] != NINF]
    ctx.eq([s for s, _ in fin], [s for s, _ in wantf], 'ofst-text', 'final states as printed')
    denf = [(s, -printed(ctx, c, -w, 'ofst-text')) for (s, c), (_, w) in zip(fin, wantf)]
    if f.arcs and text.split():
        ctx.eq(text.split()[0], '0', 'ofst-start', 'the first line must name the start state')
    back = reader(ctx, ints, rags, True)(text)
    if not text.strip():
        ctx.eq(back.arcs.dim0(), 0, 'ofst-back', 'empty text')
        return
    g = fsam.from_k2(back)
    fsam.check_valid(ctx, back)
    gi = {n: getattr(back, n).tolist() for n in names_i}
    gr = {n: rag.tolist(getattr(back, n)) for n in names_r}
    got, gotf = [], []
    for i, a in enumerate(g.arcs):
        ii, rr = [gi[n][i] for n in names_i], [gr[n][i] for n in names_r]
        if a[2] == -1:
            ctx.eq(a[1], g.n - 1, 'ofst-back', 'final arc')
            ctx.ok(all(x == -1 for x in ii) and not any(rr), 'ofst-back', 'attributes of a final arc', ints=ii, rags=rr)
            gotf.append((a[0], a[3]))
        else:
            got.append((a[:3], ii, rr, a[3]))
    ctx.eq(got, [w[:3] + (d,) for w, d in zip(want, den)], 'ofst-back', 'arcs read back')
    ctx.eq(gotf, denf, 'ofst-back', 'final arcs read back')
    ctx.count('ofst-write')
    ctx.sig('ow', len(ints), len(rags), min(f.n, 5), bool(wantf))


def op_openfst_read(ctx):
    """OpenFst text with lines in any order; every arc carries a unique mark
    (in a label, attribute or cost) so that arcs can be matched."""
    r = ctx.rng
    ns = r.randint(1, 6)
    states = r.sample(range(ns + r.choice([0, 0, 3])), ns)
    m = r.choice([0, 1, 2, 4, 7, 10])
    n_int, n_rag = r.choice([0, 0, 0, 1, 1, 2]), r.choice([0, 0, 0, 1, 2])
    mark = r.choice(['label', 'cost'] + ['int'] * 2 * (n_int > 0) + ['rag'] * 2 * (n_rag > 0))
    lines, arcs, finals = [], {}, {}
    for u in range(1, m + 1):
        s, d = r.choice(states), r.choice(states)
        l = u if mark == 'label' else r.choice([0, 1, 2, 2 ** 31 - 1])
        ii = [big_int(r) for _ in range(n_int)]
        rr = [[big_int(r) for _ in range(r.choice([0, 1, 2]))] for _ in range(n_rag)]
        if mark == 'int':
            ii[-1] = u
        if mark == 'rag':
            rr[-1] = [u]
        cost = float(u) if mark == 'cost' else -text_score(r)
        tok = None if cost == 0 and r.random() < .7 else token(r, cost)
        arcs[u] = (s, d, l, ii, rr, 0.0 if tok is None else f32(float(tok)))
        lines.append((s, d, l, ii, rr, tok))
    for s in r.sample(states, r.randint(0, ns)):
        k = r.random()
        if k < .15:
            lines.append((s, r.choice(['inf', 'Inf', 'Infinity'])))
        else:
            c = r.randint(-16, 16) / 8 if k < .8 else 0.0
            lines.append((s, token(r, c) if c or k < .9 else ''))
            finals[s] = f32(c)
    if not lines:
        raise Skip
    r.shuffle(lines)
    start = lines[0][0]
    rows = []
    for x in lines:
        if len(x) == 2:
            rows.append(r.choice(['', ' ']) + f'{x[0]}' + r.choice([' ', '\t', '  ']) + x[1] if x[1]
                        else f'{x[0]}' + r.choice(['', ' ', '\t']))
        else:
            rows.append(messy(ctx, [x], None).strip('\n'))
        if r.random() < .08:
            rows.append(r.choice(['', ' ', '\t']))
    s = '\n'.join(rows) + r.choice(['', '\n', '\n\n'])
    ctx.note(text=s, n_int=n_int, n_rag=n_rag, mark=mark)
    kw = {'num_aux_labels': n_int, 'ragged_label_names': [f'r{i}' for i in range(n_rag)]}
    fsa = k2.Fsa.from_openfst(s, **kw) if r.random() < .5 else k2.Fsa.from_str(s, openfst=True, **kw)
    g = fsam.from_k2(fsa)
    fsam.check_valid(ctx, fsa)
    names = (['aux_labels', 'aux_labels2'][:n_int], kw['ragged_label_names'])
    gi = [getattr(fsa, n).tolist() for n in names[0]]
    gr = [rag.tolist(getattr(fsa, n)) for n in names[1]]
    to = {start: 0}

    def put(a, b):
        ctx.eq(to.setdefault(a, b), b, 'ofst-read', f'state {a} of the text is one state of the FSA')

    seen, fin = set(), []
    for i, (a, b, l, w) in enumerate(g.arcs):
        ii, rr = [x[i] for x in gi], [x[i] for x in gr]
        if l == -1:
            ctx.ok(all(x == -1 for x in ii) and not any(rr), 'ofst-read', 'attributes of a final arc', ints=ii, rags=rr)
            fin.append((a, -w))
            continue
        u = {'label': lambda: l, 'cost': lambda: int(-w), 'int': lambda: ii[-1], 'rag': lambda: rr[-1][0]}[mark]()
        ctx.ok(u in arcs and u not in seen, 'ofst-read', f'arc {i} is one arc of the text')
        seen.add(u)
        want = arcs[u]
        put(want[0], a)
        put(want[1], b)
        ctx.eq((l, ii, rr, -w), want[2:], 'ofst-read', f'arc {i}: label, attributes and cost')
    ctx.eq(len(seen), m, 'ofst-read', 'every arc of the text is there')
    ctx.eq(len(set(to.values())), len(to), 'ofst-read', 'distinct states stay distinct')
    for s_, c in finals.items():
        if s_ in to:
            ctx.ok((to[s_], c) in fin, 'ofst-final', f'final state {s_} with cost {c}', got=fin, to=to)
    ctx.eq(len(fin), len(finals), 'ofst-final', 'number of final arcs')
    ctx.eq(sorted(c for _, c in fin), sorted(finals.values()), 'ofst-final', 'final costs')
    ctx.count('ofst-read')
    ctx.sig('or', mark, min(m, 3), len(finals), start == 0, n_int, n_rag)


# ----------------------------------------------------------- tensor and dict

def rich(ctx, fsa):
    """Attributes of every kind; returns the expected content."""
    r = ctx.rng
    n = fsa.num_arcs
    t = {}
    kinds = ['i32', 'i64', 'f32', 'f64', 'bool', '2d', 'rag', 'rag3', 'ragf', 'aux', 'ragaux']
    for k in r.sample(kinds, r.randint(0, 5)):
        if k == 'i32':
            v = torch.tensor([big_int(r) for _ in range(n)], dtype=torch.int32)
        elif k == 'i64':
            v = torch.tensor([r.randint(-2 ** 62, 2 ** 62) for _ in range(n)], dtype=torch.int64)
        elif k == 'f32':
            v = torch.tensor([text_score(r) for _ in range(n)], dtype=torch.float32)
        elif k == 'f64':
            v = torch.tensor([r.gauss(0, 1) for _ in range(n)], dtype=torch.float64)
        elif k == 'bool':
            v = torch.tensor([r.random() < .5 for _ in range(n)], dtype=torch.bool)
        elif k == '2d':
            v = torch.arange(3 * n, dtype=torch.int32).reshape(3, n).t()
        elif k == 'rag':
            v = rag.make([[big_int(r) for _ in range(r.randrange(3))] for _ in range(n)], 2, 'i')
        elif k == 'rag3':
            v = rag.make([[[r.randint(0, 5) for _ in range(r.randrange(3))] for _ in range(r.randrange(3))]
                          for _ in range(n)], 3, 'i')
        elif k == 'ragf':
            v = rag.make([[r.randint(-8, 8) / 4 for _ in range(r.randrange(3))] for _ in range(n)], 2, 'f')
        elif k == 'aux':
            k, v = 'aux_labels', torch.tensor([big_int(r) for _ in range(n)], dtype=torch.int32)
        else:
            if 'aux_labels' in t:
                continue
            k, v = 'aux_labels', rag.make([[r.randint(0, 5) for _ in range(r.randrange(3))] for _ in range(n)], 2, 'i')
        setattr(fsa, k, v)
        t[k] = v.clone()
    p = {}
    for k in r.sample(['foo_filler', 'name', 'num', 'lst', 'sym', 'none', 'dct'], r.randint(0, 3)):
        v = {'foo_filler': -1, 'name': 'x y', 'num': 2.5, 'lst': [1, (2, 'a')], 'none': None,
             'sym': k2.SymbolTable.from_str('a 1\nbc 7\n'), 'dct': {'q': [1]}}[k]
        setattr(fsa, k, v)
        p[k] = v
    return t, p


def same_value(ctx, got, want, key, name):
    if isinstance(want, torch.Tensor):
        ctx.ok(isinstance(got, torch.Tensor), key, f'type of attribute {name}', got=type(got))
        ctx.eq((got.dtype, tuple(got.shape)), (want.dtype, tuple(want.shape)), key, f'dtype and shape of attribute {name}')
        ctx.ok(torch.equal(got, want), key, f'attribute {name}', got=got.tolist(), want=want.tolist())
    else:
        ctx.ok(isinstance(got, k2.RaggedTensor), key, f'type of attribute {name}', got=type(got))
        ctx.eq((got.dtype, got.num_axes, rag.tolist(got)), (want.dtype, want.num_axes, rag.tolist(want)), key,
               f'attribute {name}')


def check_dict(ctx, got, fsa, fs, vec, t, p, key):
    ctx.eq(got.arcs.num_axes(), 3 if vec else 2, key, 'axes')
    g = fsam.any_from_k2(got)
    ctx.eq([(x.n, x.arcs) for x in g], [(x.n, x.arcs) for x in fs], key, 'states, arcs and scores')
    ctx.eq({n for n, _ in got.named_tensor_attr(include_scores=False)}, set(t), key, 'tensor attributes')
    ctx.eq({n for n, _ in got.named_non_tensor_attr()}, set(p), key, 'other attributes')
    for n, v in t.items():
        same_value(ctx, getattr(got, n), v, key, n)
    for n, v in p.items():
        ctx.ok(getattr(got, n) == v, key, f'attribute {n}', got=repr(getattr(got, n)))
    ctx.eq(got.properties, fsam.build(fs, vec).properties, key, 'properties')
    ctx.eq(got.scores.tolist(), [a[3] for x in fs for a in x.arcs], key, 'scores')


def op_dict(ctx):
    r = ctx.rng
    vec = r.random() < .6
    fs = [gen_f(ctx) for _ in range(r.randint(0, 3) if vec else 1)]
    if not vec and not any(a[2] == -1 for a in fs[0].arcs):
        raise Skip        # the tensor form of a single FSA tells the states from the final arcs
    fsa = fsam.vec_to_k2(fs) if vec else fsam.single_k2(fs[0])
    t, p = rich(ctx, fsa)
    ctx.note(fs=fs, vec=vec, attrs={n: str(v) for n, v in t.items()}, plain=list(p))
    if r.random() < .3:
        fsa.requires_grad_(True)
    if r.random() < .4:
        fsa.properties
    tens = k2.to_tensor(fsa)
    ctx.eq((tens.dtype, tens.dim()), (torch.int32, 1 if vec else 2), 'tensor', 'form')
    if r.random() < .5:
        b = io.BytesIO()
        torch.save(tens, b)
        b.seek(0)
        tens = torch.load(b, weights_only=r.random() < .5)
    else:
        tens = tens.clone()
    check_dict(ctx, k2.Fsa(tens), fsa, fs, vec, {}, {}, 'tensor')
    how = r.choice(['dict', 'save', 'save', 'pickle', 'deepcopy'])
    d = fsa.as_dict()
    if how == 'save':
        b = io.BytesIO()
        torch.save(d, b)
        b.seek(0)
        d = torch.load(b, weights_only=False)
    elif how == 'pickle':
        d = pickle.loads(pickle.dumps(d, protocol=r.choice([2, 4, 5])))
    elif how == 'deepcopy':
        d = {n: (v.clone() if isinstance(v, (torch.Tensor, k2.RaggedTensor)) else copy.deepcopy(v)) for n, v in d.items()}
    if r.random() < .5:                 # an ordinary dict: the order of the keys means nothing
        ks = list(d)
        r.shuffle(ks)
        d = {k: d[k] for k in ks}
    check_dict(ctx, k2.Fsa.from_dict(d), fsa, fs, vec, t, p, how)
    check_dict(ctx, fsa, fsa, fs, vec, t, p, 'source')
    ctx.count('dict')
    ctx.sig('dict', how, vec, len(fs), tuple(sorted(t)))


# ------------------------------------------------------------- symbol tables

WORDS = ['a', 'b', 'c', 'hello', '<eps>', '#0', '1', '-1', '7', '▁the', 'é', 'q\u00a0r', '\u3000', 'x\u2028', '汉', '<blk>',
         '0', 'A', 'ß', '\U0001f600', 'a\x0bb', '\x85z', '[1', '"', '\\n', '#']


def check_table(ctx, t, m, key):
    """m: id -> symbol."""
    ctx.eq(len(t), len(m), key, 'size')
    ctx.eq(t.ids, sorted(m), key, 'ids')
    ctx.eq(t.symbols, sorted(m.values()), key, 'symbols')
    for i, s in m.items():
        ctx.ok(i in t and s in t, key, 'membership', id=i, sym=s)
        ctx.eq((t[i], t[s], t.get(i), t.get(s)), (s, i, s, i), key, f'lookup of {i} and {s!r}')
    ctx.eq(len(set(m.values())), len(m), key, 'one-to-one')
    ctx.ok(max(m) + 1 not in t and 'not in table' not in t, key, 'absent entries')
    ctx.raises(lambda: t[max(m) + 1], key, 'lookup of an absent id', exc=KeyError)
    ctx.raises(lambda: t['not in table'], key, 'lookup of an absent symbol', exc=KeyError)


def gen_table(ctx):
    r = ctx.rng
    eps = r.choice(['<eps>', '<eps>', '<eps>', '<blk>', 'a'])
    m = {0: eps}
    for s in r.sample(WORDS, r.randint(0, 8)):
        i = r.choice([r.randint(1, 12), r.randint(1, 10 ** 6)])
        if s not in m.values() and i not in m:
            m[i] = s
    return m


def table_text(ctx, m):
    r = ctx.rng
    items = list(m.items())
    if m[0] == '<eps>' and r.random() < .3:
        items = items[1:]
    r.shuffle(items)
    lines = []
    for i, s in items:
        lines.append(r.choice(['', '', ' ', '\t']) + s + r.choice([' ', '\t', '   ', ' \t ']) + str(i) +
                     r.choice(['', '', ' ', '\t', '\r']))
        if r.random() < .1:
            lines.append(r.choice(['', ' ', '\t']))
    return r.choice(['', '\n']) + '\n'.join(lines) + r.choice(['', '\n', '\n\n'])


def op_symtab(ctx):
    r = ctx.rng
    S = k2.SymbolTable
    pool = []
    log = []
    ctx.note(log=log)

    def born(t, m):
        check_table(ctx, t, m, 'table')
        pool.append((t, m))

    def make():
        m = gen_table(ctx)
        k = r.randrange(3)
        log.append(('make', k, dict(m)))
        if k == 0:
            s = table_text(ctx, m)
            log.append(s)
            born(S.from_str(s), m)
        elif k == 1:
            src = dict(m)
            born(S(_id2sym=src, _sym2id={s: i for i, s in src.items()}, eps=m[0]), dict(m))
        else:
            born(S(), {0: '<eps>'})

    make()
    for _ in range(r.randint(2, 10)):
        t, m = r.choice(pool)
        k = r.choice(['add', 'add', 'add', 'addi', 'addi', 'merge', 'text', 'file', 'pickle', 'eq', 'make', 'clash'])
        if k == 'add':
            s = r.choice(WORDS)
            log.append((k, s))
            i = t.add(s)
            if s in m.values():
                ctx.eq(m.get(i), s, 'add', 'adding a known symbol returns its id')
            else:
                ctx.ok(i not in m and i >= 0, 'add', 'a new symbol gets a free id', got=i, table=m)
                m[i] = s
            check_table(ctx, t, m, 'add')
        elif k == 'addi':
            s, i = r.choice(WORDS), r.choice([r.randint(1, 12), r.randint(1, 10 ** 6)])
            log.append((k, s, i))
            if s in m.values():
                ctx.eq(m.get(t.add(s, i)), s, 'addi', 'adding a known symbol returns its id')
            elif i in m:
                ctx.raises(lambda: t.add(s, i), 'addi', 'an occupied id is refused', exc=ValueError)
            else:
                ctx.eq(t.add(s, i), i, 'addi', 'id asked for')
                m[i] = s
            check_table(ctx, t, m, 'addi')
        elif k == 'merge':
            u, w = r.choice(pool)
            log.append((k, dict(m), dict(w)))
            both = {**m, **w}
            ok = m[0] == w[0] and all(m[i] == w[i] for i in m if i in w) and len(set(both.values())) == len(both)
            if ok:
                got = t.merge(u)
                before = dict(m)
                born(got, dict(both))
                got.add('merged only')
                check_table(ctx, t, before, 'merge-source')
                pool[-1][1][got['merged only']] = 'merged only'
                ctx.count('merged')
            else:
                ctx.raises(lambda: t.merge(u), 'merge', 'conflicting tables are refused')
            check_table(ctx, t, m, 'merge')
            check_table(ctx, u, w, 'merge')
        elif k in ('text', 'file', 'pickle') and 'merged only' not in m.values():
            log.append((k,))
            if k == 'text':
                s = t.to_str()
                rows = sorted((int(i), x) for x, i in (l.rsplit(' ', 1) for l in s.split('\n') if l))
                ctx.eq(rows, sorted(m.items()), 'to_str', 'lines of the table')
                u = S.from_str(s)
            elif k == 'pickle':
                u = pickle.loads(pickle.dumps(t))
            else:
                fd, path = tempfile.mkstemp(prefix='k2v_sym')
                os.close(fd)
                try:
                    t.to_file(path)
                    data = open(path, 'rb').read().decode('utf-8')
                    rows = sorted((int(i), x) for x, i in (l.rsplit(' ', 1) for l in data.split('\n') if l))
                    ctx.eq(rows, sorted(m.items()), 'to_file', 'lines of the file')
                    u = S.from_file(path)
                finally:
                    os.unlink(path)
            ctx.ok(t == u and not (t != u), 'back', 'table read back is equal')
            u.add('zzz' + str(len(pool)))
            ctx.ok(not (t == u) and t != u, 'back', 'a table with one more symbol differs')
            m2 = dict(m)
            m2[u['zzz' + str(len(pool))]] = 'zzz' + str(len(pool))
            born(u, m2)
            ctx.count('table-back')
        elif k == 'eq':
            u, w = r.choice(pool)
            log.append((k, dict(m), dict(w)))
            ctx.eq((t == u, t != u), (m == w, m != w), 'table-eq', 'equality')
        elif k == 'make':
            make()
        elif k == 'clash':
            a, b = r.sample(['a', 'b', 'hello'], 2)
            bad = r.choice([f'{a} 1\n{b} 1\n', f'{a} 1\n{a} 2\n', f'{a}\n', f'{a} 1 2\n', f'{a} x\n', f'{a} -3\n',
                            f'<eps> 4\n{a} 1\n'])
            ctx.raises(lambda: S.from_str(bad), 'table-refuse', f'the text {bad!r} is refused')
    for t, m in pool:
        check_table(ctx, t, m, 'end')
    ctx.count('table')
    ctx.sig('tab', len(pool), len(log))


OPS = [op_text] * 4 + [op_vec_str, op_openfst_write, op_openfst_write, op_openfst_read, op_openfst_read, op_openfst_read,
                       op_dict, op_dict, op_dict, op_symtab, op_symtab]


def case(ctx):
    op = ctx.rng.choice(OPS)
    ctx.count(op.__name__)
    op(ctx)
