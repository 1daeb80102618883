"""C24: malformed text, structures, indexes and arguments are refused with an
exception that leaves the arguments alone; what an own strict grammar accepts
must be accepted. A crash is reported by the runner."""
import os
import re
import tempfile

import torch
import k2
import k2.ragged as kr
import _k2
from k2v import canon, fsam, rag
from k2v.core import Skip
from k2v.fsam import F, NINF
from k2v.props import c23

INT = re.compile(r'-?\d+\Z')
NUM = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z')
INF = re.compile(r'[+-]?(inf|Inf|Infinity)\Z')
ODD = re.compile(r'[+0-9.eExXpPnNaAiIfFtTyY-]+\Z')    # might be read as some number


class Bad(Exception):
    pass


class Unclear(Exception):
    pass


def refused(ctx, key, what, fn, *args):
    """fn(*args) must raise and leave args alone."""
    before = [canon.canon(a) for a in args]
    ctx.note(call=what)
    try:
        r = fn(*args)
    except Exception:
        r = None
    else:
        try:
            s = str(r)[:300]
        except Exception as e:
            s = f'<{type(r).__name__}: {e!r:.80}>'
        ctx.fail(key, f'{what} was accepted and returned {s}')
    ctx.count('refused')
    ctx.count('chk:' + key)
    ctx.stats['oracle_checks'] += 1
    for i, (a, b) in enumerate(zip(args, before)):
        ctx.ok(canon.canon(a) == b, key + '-args', f'{what} changed its argument {i}')


# -------------------------------------------------------------------- texts

def integer(tok, lo=-2 ** 31):
    if INT.match(tok):
        v = int(tok)
        if v < -2 ** 31 or v > 2 ** 31 - 1 or v < lo:
            raise Bad(f'integer {tok}')
        return v
    if re.match(r'\+\d+\Z', tok):
        raise Unclear
    raise Bad(f'integer {tok!r}')


def number(tok):
    if NUM.match(tok):
        v = c23.f32(float(tok)) if abs(float(tok)) < 3e38 else None
        if v is None or (v != 0 and abs(v) < 1e-37) or (v == 0 and re.search('[1-9]', tok.split('e')[0].split('E')[0])):
            raise Unclear
        return v
    if INF.match(tok):
        return NINF if tok[0] == '-' else -NINF
    if ODD.match(tok):
        raise Unclear
    raise Bad(f'number {tok!r}')


def fields(line):
    """Tokens of a line: plain tokens and bracketed lists."""
    out, i = [], 0
    for p in re.findall(r'\[[^\[\]]*\]|\[|\]|[^\s\[\]]+', line):
        out.append(p)
    # adjacency without white space
    if re.search(r'[^\s\[\]]\[|\][^\s\]]', line):
        raise Unclear
    return out


def arc_fields(p, ni, nr):
    """(src, dst, label, ints, rags, score or None)"""
    if len(p) < 3 + ni + nr or len(p) > 4 + ni + nr:
        raise Bad('number of fields')
    head = [integer(x) for x in p[:3]]
    ints = []
    for x in p[3:3 + ni]:
        if not INT.match(x) and NUM.match(x):
            raise Unclear                  # 3.0 as an integer
        ints.append(integer(x))
    rags = []
    for x in p[3 + ni:3 + ni + nr]:
        if x[0] != '[' or x[-1] != ']' or len(x) < 2:
            raise Bad('list')
        rags.append([integer(y) for y in x[1:-1].split()])
    score = number(p[3 + ni + nr]) if len(p) > 3 + ni + nr else 0.0
    if head[0] < 0 or head[1] < 0:
        raise Bad('negative state')
    if max(head[:2]) > 10000:
        raise Unclear
    return head + [ints, rags, score]


def k2_grammar(text, ni, nr):
    arcs, final = [], None
    unclear = None
    for line in text.split('\n'):
        if not line.strip(' \t\r\v\f'):
            continue
        if final is not None:
            raise Bad('line after the final state')
        try:
            p = fields(line)
            if len(p) == 1:
                final = integer(p[0], 0)
                if final > 10000:
                    raise Unclear
            else:
                a = arc_fields(p, ni, nr)
                if arcs and a[0] < arcs[-1][0]:
                    raise Bad('order')
                arcs.append(a)
        except Unclear as e:
            raise
    if final is None:
        if arcs:
            raise Bad('no final state')
        return F(0, []), [], []
    if any(max(a[:2]) > final for a in arcs):
        raise Bad('state beyond the final state')
    if not arcs or final == 0 or any(a[0] == final for a in arcs):
        raise Unclear
    for a in arcs:
        if (a[2] == -1) != (a[1] == final):
            raise Bad('final label')
        if a[2] < -1:
            raise Bad('negative label')
    return F(final + 1, [tuple(a[:3]) + (a[5],) for a in arcs]), [a[3] for a in arcs], [a[4] for a in arcs]


def openfst_grammar(text, ni, nr):
    n = 0
    states = set()
    for line in text.split('\n'):
        if not line.strip(' \t\r\v\f'):
            continue
        p = fields(line)
        if len(p) <= 2:
            s = integer(p[0], 0)
            c = number(p[1]) if len(p) == 2 else 0
            if s > 10000:
                raise Unclear
            if c != -NINF:
                n += 1
        else:
            a = arc_fields(p, ni, nr)
            if a[2] < 0:
                raise Unclear
            n += 1
    return n


JUNK = ['x', ',', ';', '#', '--', '1.5', '5-3', '-', '1,2', '99999999999', '-99999999999', '[', ']', '[]', '[1', '1]',
        '[1 2]', 'a b', '\x00', '\u00e9', '1e5', '1e', 'nan', '0x10', '+3', '.', '1_0', '(1)', '-1', '0', '7', '"1"']


def mutate(ctx, s):
    r = ctx.rng
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(8)
        if k == 0 and s:                               # character edits
            i = r.randrange(len(s))
            s = s[:i] + s[i + 1:]
        elif k == 1:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice('0123456789-.[]x ,\n\t') + s[i:]
        elif k == 2 and s:
            i = r.randrange(len(s))
            s = s[:i] + r.choice('0123456789-.[]x ,\n') + s[i + 1:]
        elif k in (3, 4):                              # token edits
            toks = re.split(r'(\s+)', s)
            i = r.randrange(len(toks))
            k2_ = r.randrange(3)
            if k2_ == 0:
                toks[i] = r.choice(JUNK)
            elif k2_ == 1:
                toks.insert(i, ' ' + r.choice(JUNK) + ' ')
            else:
                del toks[i]
            s = ''.join(toks)
        elif k == 5:                                   # line edits
            ls = s.split('\n')
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            q = r.randrange(4)
            if q == 0:
                ls[i], ls[j] = ls[j], ls[i]
            elif q == 1:
                del ls[i]
            elif q == 2:
                ls.insert(i, ls[j])
            else:
                ls[i] = ls[i] + ' ' + ls[j]
            s = '\n'.join(ls)
        elif k == 6:
            s = s[:r.randint(0, len(s))]               # truncated
        else:
            s = s[r.randint(0, len(s)):] if r.random() < .3 else s
    return s


def op_fsa_text(ctx):
    r = ctx.rng
    f = c23.gen_f(ctx)
    ofst = r.random() < .4
    ints, rags = c23.give_attrs(ctx, f, ofst)
    if len(ints) > 4 or r.random() < .4:
        ints, rags = {}, {}
    fsa = fsam.single_k2(f)
    c23.attach(ctx, fsa, ints, rags, extra=False)
    s = k2.to_str(fsa, openfst=ofst)
    s = mutate(ctx, s)
    if r.random() < .12:        # other attributes than were written
        nm = sorted(ints)
        if nm and r.random() < .5:
            ints.pop(nm[0])
        else:
            rags = dict(rags, zz9=None)
    if '\x00' in s:
        raise Skip
    ctx.note(text=s, ints=sorted(ints), rags=sorted(rags), openfst=ofst)
    kw = dict(aux_label_names=sorted(ints), ragged_label_names=sorted(rags), openfst=ofst)
    try:
        want = (openfst_grammar if ofst else k2_grammar)(s, len(ints), len(rags))
    except Bad as e:
        refused(ctx, 'text-refused', f'text with {e}', lambda: k2.Fsa.from_str(s, **kw))
        ctx.count('bad-text')
        ctx.sig('bad', str(e)[:12], ofst, len(ints), len(rags))
        return
    except Unclear:
        # either way, but never a crash
        try:
            k2.Fsa.from_str(s, **kw)
        except Exception:
            pass
        ctx.count('unclear-text')
        raise Skip
    g = k2.Fsa.from_str(s, **kw)
    ctx.count('good-text')
    if ofst:
        ctx.eq(g.num_arcs, want, 'text-accepted', 'arcs and final states of the text')
        return
    f, ii, rr = want
    c23.compare(ctx, g, f, [a[3] for a in f.arcs], {n: [x[i] for x in ii] for i, n in enumerate(sorted(ints))},
                {n: [x[i] for x in rr] for i, n in enumerate(sorted(rags))}, 'text-accepted')
    ctx.sig('good', ofst, len(ints), len(rags))


def brackets(s, leaf):
    """Grammar of ragged text; returns nested lists of leaf tokens."""
    toks = re.findall(r'[\[\]]|[^\s\[\]]+', s)
    if re.search(r'[^\s\[\]]\[|\][^\s\[\]]', s):
        raise Unclear
    stack, top = [], None
    depth = set()
    opened = 0
    for t in toks:
        if top is not None:
            raise Bad('text after the last bracket')
        if t == '[':
            stack.append([])
            opened = max(opened, len(stack))
        elif t == ']':
            if not stack:
                raise Bad('bracket')
            x = stack.pop()
            if stack:
                stack[-1].append(x)
            else:
                top = x
        else:
            if not stack:
                if not t.strip(','):
                    raise Unclear              # commas are read as white space
                raise Bad('no bracket')
            if ',' in t:
                raise Unclear
            leaf(t)
            depth.add(len(stack))
            stack[-1].append(t)
    if top is None:
        raise Bad('not closed')
    if len(depth) > 1 or (depth and opened > min(depth)):
        raise Bad('depth')
    if not depth or opened < 2:
        raise Unclear
    return top, opened


def deep(x, fn):
    return [deep(y, fn) for y in x] if isinstance(x, list) else fn(x)


def op_ragged_text(ctx):
    r = ctx.rng
    nested, axes, dt = rag.gen_nested(r, dt=r.choice('if'), max_elems=30)
    t = rag.make(nested, axes, dt)
    if r.random() < .3:
        s = str(t.shape)
        s = mutate(ctx, s)
        ctx.note(text=s)

        def leaf(x):
            if x != 'x' * len(x):
                raise Bad('element')
            if len(x) > 1:
                raise Unclear

        try:
            want, ax = brackets(s, leaf)
        except Bad as e:
            refused(ctx, 'shape-refused', f'shape text with {e}', lambda: k2.RaggedShape(s))
            ctx.count('bad-shape')
            ctx.sig('badshape', str(e))
            return
        except Unclear:
            try:
                k2.RaggedShape(s)
            except Exception:
                pass
            raise Skip
        sh = k2.RaggedShape(s)
        splits, _ = rag.shape_from(want, ax)
        rag.check_shape(ctx, sh, splits, 'shape-accepted')
        return
    s = ' '.join(re.findall(r'\[|\]|[^\s\[\]]+', str(nested).replace(',', ' ')))
    s = mutate(ctx, s)
    dt = dt if dt == 'i' else r.choice('fd')
    ctx.note(text=s, dt=dt)
    leaf = integer if dt == 'i' else number
    try:
        want, ax = brackets(s, leaf)
    except Bad as e:
        refused(ctx, 'ragged-refused', f'ragged text with {e}', lambda: k2.RaggedTensor(s, dtype=rag.DT[dt]))
        ctx.count('bad-ragged')
        ctx.sig('badrag', str(e)[:12])
        return
    except Unclear:
        try:
            k2.RaggedTensor(s, dtype=rag.DT[dt])
        except Exception:
            pass
        raise Skip
    got = k2.RaggedTensor(s, dtype=rag.DT[dt])
    ctx.eq(got.num_axes, ax, 'ragged-accepted', 'axes')
    splits, vals = rag.shape_from(deep(want, leaf), ax)
    gs, gv = rag.shape_from(got.tolist(), ax)
    ctx.eq(gs, splits, 'ragged-accepted', 'shape')
    ctx.closes(gv, vals, 'ragged-accepted', 'values', tol=1e-30, rel=1e-6)


def op_table_text(ctx):
    r = ctx.rng
    m = c23.gen_table(ctx)
    s = mutate(ctx, c23.table_text(ctx, m))
    ctx.note(text=s)
    lines = s.split('\n')
    want, back = {}, {}
    unclear = '\x00' in s
    bad = None
    for line in lines:
        p = [x for x in re.split(r'[ \t]+', line.strip(' \t\r\n\v\f')) if x]
        if re.search(r'[\r\v\f]', line) or line.strip() != line.strip(' \t\r\n\v\f'):
            unclear = True
        if not p:
            continue
        if len(p) != 2:
            bad = bad or 'fields'
            continue
        if not re.match(r'-?\d+\Z', p[1]) or p[1][0] == '-':
            if re.match(r'[+-]?[\d_]+\Z', p[1]) or not p[1].isascii():
                unclear = True
            bad = bad or 'id'
            continue
        i = int(p[1])
        if p[0] in back and back[p[0]] != i or i in want and want[i] != p[0]:
            bad = bad or 'duplicate'
        elif i in want or p[0] in back:
            bad = bad or 'duplicate'
        want[i] = p[0]
        back[p[0]] = i
    if unclear:
        raise Skip
    if bad is None and 0 not in want:
        if '<eps>' in back:
            raise Skip
        want[0] = '<eps>'
    if bad:
        refused(ctx, 'table-refused', f'symbol table text with {bad}', lambda: k2.SymbolTable.from_str(s))
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 't.txt')
            with open(p, 'w', encoding='utf-8', newline='') as fo:
                fo.write(s)
            refused(ctx, 'table-refused', f'symbol table file with {bad}', lambda: k2.SymbolTable.from_file(p))
        ctx.count('bad-table')
        ctx.sig('badtable', bad)
        return
    t = k2.SymbolTable.from_str(s)
    ctx.eq(dict(t._id2sym), want, 'table-accepted', 'symbols')


# ---------------------------------------------------------- arcs as a tensor

def arcs_valid(n, arcs):
    """None: valid, else why not; Unclear for unclear rules."""
    if n == 1:
        raise Unclear
    for s, d, l in arcs:
        if s < 0 or s >= n:
            return 'source'
        if d < 0 or d >= n:
            return 'destination'
        if (l == -1) != (d == n - 1):
            return 'final label'
        if l < -1:
            raise Unclear
    if any(a[0] > b[0] for a, b in zip(arcs, arcs[1:])):
        return 'order'
    if any(a[0] == n - 1 for a in arcs):
        raise Unclear
    return None


BIG = [-1, -2, 7, 100, 99999, -99999, 2 ** 31 - 1, -2 ** 31, 1000000]


def op_fsa_tensor(ctx):
    r = ctx.rng
    if r.random() < .5:
        f = fsam.gen(r, max_n=6, allow_empty=False, score='few')
        if not any(a[2] == -1 for a in f.arcs):
            raise Skip
        t = fsam.arcs_tensor(f.arcs).clone()
        for _ in range(r.choice([1, 1, 2])):
            i, j = r.randrange(t.shape[0]), r.randrange(3)
            t[i, j] = r.choice(BIG + [r.randint(-1, f.n)] * 6)
        arcs = [tuple(x[:3]) for x in t.tolist()]
        ctx.note(arcs=arcs)
        # the documented rule for the number of states
        fin = {a[1] for a in arcs if a[2] == -1}
        if len(fin) > 1:
            why = 'two final states'
        elif not fin:
            why = 'no final state'
        else:
            n = fin.pop() + 1
            if n > 200000:
                raise Skip
            if n <= 1:
                raise Skip
            try:
                why = arcs_valid(n, arcs)
            except Unclear:
                try:
                    k2.Fsa(t)
                except Exception:
                    pass
                raise Skip
        if why:
            refused(ctx, 'arcs-refused', f'tensor with a bad {why}', k2.Fsa, t)
            refused(ctx, 'arcs-refused', f'dict with a bad {why}', lambda t: k2.Fsa.from_dict({'arcs': t}), t)
            ctx.count('bad-arcs')
            ctx.sig('arcs', why)
        else:
            g = fsam.from_k2(k2.Fsa(t))
            ctx.eq((g.n, [a[:3] for a in g.arcs]), (n, arcs), 'arcs-accepted', 'FSA of a tensor')
        return
    fs = fsam.gen_batch(r, single_prob=0, max_n=5)
    fs = fs[0] if isinstance(fs, tuple) else fs
    ns = [f.n for f in fs]
    arcs = [a for f in fs for a in f.arcs]
    rs1 = [0]
    rs2 = [0]
    for f in fs:
        rs1.append(rs1[-1] + f.n)
        rs2.append(rs2[-1] + len(f.arcs))
    at = fsam.arcs_tensor(arcs).reshape(-1).tolist() if arcs else []
    head = [len(fs), rs1[-1]] + rs1 + rs2
    x = head + at
    good = list(x)
    k = r.randrange(5)
    if k == 0:
        x = x[:r.randint(0, len(x) - 1)]
    elif k == 1:
        x = x + [r.randint(-1, 5) for _ in range(r.choice([1, 2, 3]))]
    elif k in (2, 3) and len(head) > 3:
        i = r.randrange(2, len(head))
        big = [] if i == 2 + len(fs) else [2 ** 31 - 1]      # a last row split of 2^31 - 1 only means much memory
        x[i] = r.choice([x[i] + 1, x[i] - 1, -1, 77, -5, x[i] + 100] + big)
    elif at:
        i = len(head) + 4 * r.randrange(len(arcs)) + r.randrange(3)
        x[i] = r.choice(BIG[:-1] + [r.randint(-1, 5)] * 4)
    ctx.note(good=good, x=x)
    if x == good:
        raise Skip
    t = torch.tensor(x, dtype=torch.int32)
    # judged here from the numbers alone
    try:
        why = vec_valid(x)
    except Unclear:
        try:
            k2.Fsa(t)
        except Exception:
            pass
        raise Skip
    if why:
        refused(ctx, 'vec-refused', f'FsaVec tensor with bad {why}', k2.Fsa, t)
        ctx.count('bad-vec')
        ctx.sig('vec', why)
    else:
        v = k2.Fsa(t)
        ctx.ok(v.arcs.num_axes() == 3, 'vec-accepted', 'axes')
        y = _k2.fsa_to_tensor(v.arcs).tolist()
        ctx.eq(y[:1] + y[2:], x[:1] + x[2:], 'vec-accepted', 'tensor of the FsaVec read')


def vec_valid(x):
    if len(x) < 2:
        return 'size'
    nf, nst = x[0], x[1]
    if nf < 0 or nst < 0:
        return 'size'
    if 4 + 2 * nf > len(x):
        return 'size'
    rs1 = x[2:3 + nf]
    rs2 = x[3 + nf:4 + 2 * nf]
    rest = x[4 + 2 * nf:]
    if len(rest) % 4:
        return 'size'
    if rs1[-1] != nst:
        raise Unclear
    for rs in (rs1, rs2):
        if rs[0] != 0 or any(a > b for a, b in zip(rs, rs[1:])):
            return 'row splits'
    if rs2[-1] != len(rest) // 4:
        return 'number of arcs'
    arcs = [tuple(rest[4 * i:4 * i + 3]) for i in range(len(rest) // 4)]
    for i in range(nf):
        lo, hi = rs1[i], rs1[i + 1]
        mine = arcs[rs2[i]:rs2[i + 1]]
        if hi - lo:
            why = arcs_valid(hi - lo, mine)
            if why:
                return why
        elif mine:
            return 'arcs of an empty member'
    return None


# ------------------------------------------------------- ragged structures

def i32(x):
    return torch.tensor(x, dtype=torch.int32)


def op_shape2(ctx):
    r = ctx.rng
    n = r.randint(0, 5)
    rs = [0]
    for _ in range(n):
        rs.append(rs[-1] + r.choice([0, 1, 2, 3]))
    ri = [i for i in range(n) for _ in range(rs[i], rs[i + 1])]
    tot = rs[-1]
    use = r.choice([(1, 0), (0, 1), (1, 1), (1, 1)])
    a, b, t = list(rs), list(ri), tot if r.random() < .5 else -1
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(5)
        if k == 0:
            i = r.randrange(max(1, len(a)))
            a[i:i + 1] = [x + r.choice([-1, 1, 5, -5]) for x in a[i:i + 1]]
        elif k == 1 and b:
            i = r.randrange(len(b))
            b[i] += r.choice([-1, 1, 5, -5])
        elif k == 2:
            t = r.choice([-2, tot + 1, max(0, tot - 1), 0, 100000])
        elif k == 3:
            (a if r.random() < .5 else b).append(r.randint(0, 5))
        else:
            x = a if r.random() < .5 else b
            if x:
                x.pop(r.randrange(len(x)))
    A, B = (a if use[0] else None), (b if use[1] else None)
    ok = True
    if A is not None:
        ok = ok and len(A) > 0 and A[0] == 0 and all(x <= y for x, y in zip(A, A[1:]))
    if B is not None:
        ok = ok and all(x >= 0 for x in B) and all(x <= y for x, y in zip(B, B[1:]))
    if ok and A is not None and B is not None:
        ok = len(B) == A[-1] and all(x < len(A) - 1 and A[x] <= i < A[x + 1] for i, x in enumerate(B))
    size = A[-1] if ok and A is not None else len(B) if B is not None else None
    if t == -2:
        t = -1
    if ok and t != -1 and t != size:
        ok = False
    ctx.note(rs=A, ri=B, tot=t)
    ta, tb = None if A is None else i32(A), None if B is None else i32(B)
    if not ok:
        refused(ctx, 'shape2-refused', 'create_ragged_shape2 with inconsistent parts',
                lambda x, y: kr.create_ragged_shape2(x, y, t), ta, tb)
        ctx.count('bad-shape2')
        ctx.sig('shape2', use, len(A or []), len(B or []))
    else:
        s = kr.create_ragged_shape2(ta, tb, t)
        if A is None:
            m = B[-1] + 1 if B else 0
            A = [sum(1 for x in B if x < i) for i in range(m + 1)]
        rag.check_shape(ctx, s, [A], 'shape2-accepted')


def bad_axis(r, n):
    return r.choice([-1, -2, n, n + 1, 100, -100])


def bad_index(r, n, minus1):
    """Indexes of which at least one is out of range."""
    x = [r.randint(0, n - 1) for _ in range(r.randint(0, 4))] if n else []
    x.insert(r.randint(0, len(x)), r.choice([n, n + 1, n + 5000000, -3 if minus1 else -1, -2 if minus1 else -1, -5000000,
                                             2 ** 31 - 1, -2 ** 31]))
    return i32(x)


def op_ragged_misuse(ctx):
    r = ctx.rng
    nested, axes, dt = rag.gen_nested(r, max_elems=40)
    t = rag.make(nested, axes, dt)
    n0 = len(nested)
    sh = t.shape
    D = {}

    def d(name, fn, *args):
        D[name] = (fn, args)

    d('[i]', lambda t: t[r.choice([n0, n0 + 3, -n0 - 1])], t)
    d('index', lambda t, i: t.index(i, axis=0), t, bad_index(r, n0, True))
    # axis 2..: the mapping must also be monotonic
    ax = r.randrange(1, axes)
    d('index-axis', lambda t, i: t.index(i, axis=ax), t, bad_index(r, t.tot_size(ax), False))
    d('index-bad-axis', lambda t, i: t.index(i, axis=bad_axis(r, axes)), t, i32([0] if n0 else []))
    d('index-dtype', lambda t, i: t.index(i, axis=0), t, torch.tensor([0], dtype=r.choice([torch.int64, torch.float32, torch.bool])))
    d('index-2d', lambda t, i: t.index(i, axis=0), t, i32([[0, 0], [0, 0]]))
    ri, _, _ = rag.gen_nested(r, axes=2, dt='i', max_elems=10)
    ri.append([r.choice([n0, n0 + 7000000, -2, -6000000])])
    d('index-ragged', lambda t, i: t.index(i), t, rag.make(ri, 2, 'i'))
    d('index-ragged-float', lambda t, i: t.index(i), t, rag.make([[0.0]], 2, 'f'))
    b, e = r.choice([(0, n0 + 1), (n0 + 1, n0 + 2), (-1, n0), (n0, 0) if n0 else (1, 0), (1, -1), (0, 2 ** 31 - 1)])
    d('arange', lambda t: t.arange(0, b, e), t)
    d('arange-axis', lambda t: t.arange(bad_axis(r, axes), 0, 0), t)
    d('remove_axis', lambda t: t.remove_axis(bad_axis(r, axes)), t)
    if axes == 2:
        d('remove_axis-2', lambda t: t.remove_axis(r.choice([0, 1])), t)
        d('pad-mode', lambda t: t.pad(r.choice(['zero', '', 'Constant']), 0), t)
    else:
        d('pad-3', lambda t: t.pad('constant', 0), t)
    d('tot_size', lambda s: s.tot_size(bad_axis(r, axes)), sh)
    d('tot_size-t', lambda s: s.tot_size(bad_axis(r, axes)), t)
    d('row_splits', lambda s: s.row_splits(r.choice([0, bad_axis(r, axes)])), sh)
    d('row_ids', lambda s: s.row_ids(r.choice([0, bad_axis(r, axes)])), sh)
    d('max_size', lambda s: s.max_size(r.choice([0, bad_axis(r, axes)])), sh)
    d('get_layer', lambda s: s.get_layer(r.choice([-1, axes - 1, axes, 50])), sh)
    d('shape-index', lambda s: s.index(0, r.choice([n0, n0 + 40000, -1, -2])), sh)
    d('shape-index-axis', lambda s: s.index(r.choice([1, -1, axes]), 0), sh)
    d('shape-remove', lambda s: s.remove_axis(bad_axis(r, axes)), sh)
    other = rag.make_shape([[0, 1, 3][:r.choice([2, 3])]])
    if other.dim0 != sh.numel():
        d('compose', lambda s, o: s.compose(o), sh, other)
    m = t.numel()
    d('values-size', lambda s, v: k2.RaggedTensor(s, v), sh,
      torch.zeros(r.choice([m + 1, m + 10, max(m - 1, 0)] if m else [1, 3]), dtype=rag.DT[dt]))
    d('values-2d', lambda s, v: k2.RaggedTensor(s, v), sh, torch.zeros(m + 1, 2))
    d('values-dtype', lambda s, v: k2.RaggedTensor(s, v), sh, torch.zeros(m, dtype=r.choice([torch.int64, torch.int16,
                                                                                          torch.bool, torch.float16])))
    d('cat-none', lambda: kr.cat([], axis=0))
    o2, a2, d2 = rag.gen_nested(r, max_elems=10)
    t2 = rag.make(o2, a2, d2)
    if a2 != axes or d2 != dt:
        d('cat-mixed', lambda x, y: kr.cat([x, y], axis=0), t, t2)
        d('stack-mixed', lambda x, y: kr.stack([x, y], axis=0), t, t2)
    d('cat-axis', lambda x: kr.cat([x, x], axis=r.choice([-1, axes, 9, 2 if axes > 2 else -3])), t)
    d('stack-axis', lambda x: kr.stack([x, x], axis=r.choice([-1, axes + 1, 9])), t)
    if a2 == axes and d2 == dt and len(o2) != n0:
        d('cat-rows', lambda x, y: kr.cat([x, y], axis=1), t, t2)
        d('stack-rows', lambda x, y: kr.stack([x, y], axis=1), t, t2)
    if dt == 'i':
        d('normalize', lambda t: t.normalize(True), t)
        d('logsumexp', lambda t: t.logsumexp(), t)
        d('grad', lambda t: t.requires_grad_(True), t)
    else:
        d('unique', lambda t: t.unique(), t)
    d('device', lambda t: t.to('cuda:0'), t)
    d('to', lambda t: t.to(r.choice([torch.int8, torch.int64, torch.bool, torch.float16])), t)
    d('initial', lambda t: t.max(initial_value='x'), t)
    bad = r.choice([[1, 2], [[1], 2], [[1], [[2]]], [['a']], [[None]], 5, [[1], [2, 'b']], [[[1]], [2]], [[[1], 2]], None,
                    [[object()]], [1, [2]], {}, [[1j]]])
    d('list', lambda: k2.RaggedTensor(bad))
    d('list-dtype', lambda: k2.RaggedTensor([[1]], dtype=r.choice([torch.int64, torch.int16, torch.bool, torch.uint8])))
    name = r.choice(sorted(D))
    ctx.note(nested=nested, axes=axes, dt=dt, op=name)
    fn, args = D[name]
    refused(ctx, 'ragged-misuse', name, fn, *args)
    rag.check_ragged(ctx, t, nested, axes, dt, key='ragged-usable')
    ctx.sig('misuse', name, axes, dt)
    ctx.count('ragged:' + name)


# --------------------------------------------------------------- operators

def op_tensor_misuse(ctx):
    r = ctx.rng
    n = r.randint(0, 5)
    dt = r.choice([torch.int32, torch.int64, torch.float32, torch.float64])
    x1 = torch.arange(n).to(dt)
    x2 = torch.zeros(n, r.choice([1, 3]), dtype=dt)
    D = {}

    def d(name, fn, *args):
        D[name] = (fn, args)

    d('index_select', k2.index_select, x1, bad_index(r, n, True))
    d('index_select-2d', k2.index_select, x2, bad_index(r, n, True))
    d('index_select-strided', k2.index_select, torch.zeros(2 * n + 2, dtype=dt)[::2][:n], bad_index(r, n, True))
    d('index_select-dtype', k2.index_select, torch.zeros(3), torch.tensor([0, 1], dtype=r.choice([torch.int64, torch.float32])))
    d('index_select-3d', k2.index_select, torch.zeros(2, 2, 2), i32([0]))
    d('index_select-src', k2.index_select, torch.zeros(3, dtype=r.choice([torch.int16, torch.float16, torch.uint8])), i32([0]))
    d('index_select-index2d', k2.index_select, torch.zeros(3), i32([[0, 1]]))
    d('index_select-noncontig', k2.index_select, torch.zeros(3), i32([0, 1, 2, 0])[::2])
    bi = bad_index(r, n, True)
    fdt = r.choice([torch.float32, torch.float64, torch.int32])
    d('index_add', k2.index_add, bi, torch.ones(len(bi), dtype=fdt), torch.zeros(n, dtype=fdt))
    d('index_add-2d', k2.index_add, bi, torch.ones(len(bi), 2, dtype=fdt), torch.zeros(n, 2, dtype=fdt))
    m = n + 1
    gi = i32([r.randrange(m) for _ in range(3)])
    d('index_add-len', k2.index_add, gi, torch.ones(r.choice([1, 2, 4]), dtype=fdt), torch.zeros(m, dtype=fdt))
    d('index_add-cols', k2.index_add, gi, torch.ones(3, 2), torch.zeros(m, 3))
    d('index_add-dim', k2.index_add, gi, torch.ones(3, 2), torch.zeros(m))
    d('index_add-dtype', k2.index_add, gi, torch.ones(3, dtype=torch.float64), torch.zeros(m))
    ri = rag.make([[0], [n] if r.random() < .5 else [-2]], 2, 'i')
    fx = torch.zeros(n)
    d('index_and_sum', lambda x, i: i.index_and_sum(x) if hasattr(i, 'index_and_sum') else k2.index_and_sum(x, i), fx, ri)
    d('ragged-index-tensor', k2.index, fx, ri) if hasattr(k2, 'index') else None
    d('simple_ragged', k2.simple_ragged_index_select, fx, rag.make([[n] if r.random() < .5 else [-1]], 2, 'i'))
    name = r.choice(sorted(D))
    ctx.note(op=name, n=n, args=repr(D[name][1])[:400])
    fn, args = D[name]
    refused(ctx, 'tensor-misuse', name, fn, *args)
    ctx.sig('tensor', name, n)
    ctx.count('tensor:' + name)


def cyc():
    return k2.Fsa.from_str('0 1 1 0\n1 0 1 0\n1 2 -1 0\n2')


def op_fsa_misuse(ctx):
    r = ctx.rng
    kw = dict(max_n=5, allow_empty=False, eps=0.2)
    fs = [fsam.gen(r, cyclic=False, **kw) for _ in range(r.randint(1, 3))]
    n = len(fs)
    v = fsam.vec_to_k2(fs)
    s = fsam.single_k2(fs[0])
    c = k2.create_fsa_vec([cyc()] + [fsam.single_k2(f) for f in fs])
    other = fsam.vec_to_k2([fsam.gen(r, **kw) for _ in range(n + r.choice([1, 2]))])
    na, ns = v.num_arcs, s.num_arcs
    v.foo = torch.arange(na).to(torch.float32)
    D = {}

    def d(name, fn, *args):
        D[name] = (fn, args)

    wrong = r.choice([na + 1, na + 5, 0 if na else 3, max(na - 1, 0)])
    if wrong == na:
        wrong = na + 1
    d('attr-size', lambda v: setattr(v, 'bar', torch.zeros(wrong, dtype=r.choice([torch.int32, torch.float32]))), v)
    d('attr-0d', lambda v: setattr(v, 'bar', torch.tensor(3)), v)
    d('attr-ragged', lambda v: setattr(v, 'bar', rag.make([[]] * wrong, 2, 'i')), v)
    d('labels-size', lambda v: setattr(v, 'labels', torch.zeros(wrong, dtype=torch.int32)), v)
    if na:
        d('labels-dtype', lambda v: setattr(v, 'labels', torch.zeros(na, dtype=r.choice([torch.int64, torch.float32]))), v)
        d('scores-dtype', lambda v: setattr(v, 'scores', torch.zeros(na, dtype=r.choice([torch.float64, torch.int32]))), v)
        d('scores-2d', lambda v: setattr(v, 'scores', torch.zeros(na, 2)), v)
    d('scores-size', lambda v: setattr(v, 'scores', torch.zeros(wrong)), v)
    d('vec[i]', lambda v: v[r.choice([n, n + 4, -n - 1])], v)
    d('vec[slice]', lambda v: v[0:1], v)
    d('single[i]', lambda s: s[0], s)
    d('index_fsa', lambda v, i: k2.index_fsa(v, i), v, bad_index(r, n, True))
    d('index_fsa-dtype', lambda v, i: k2.index_fsa(v, i), v, torch.tensor([0]))
    d('index_fsa-single', lambda s, i: k2.index_fsa(s, i), s, i32([0, fs[0].n + 1000000]))
    d('create-none', lambda: k2.create_fsa_vec([]))
    d('create-vec', lambda s, v: k2.create_fsa_vec([s, v]), s, v)
    d('intersect-sizes', lambda a, b: k2.intersect(k2.arc_sort(a), k2.arc_sort(b)), v, other) if n > 1 else None
    bm = [r.randrange(n) for _ in range(n + 1)]
    d('device-map-range', lambda a, b, m: k2.intersect_device(a, b, m, r.random() < .5), v,
      fsam.vec_to_k2([fsam.gen(r, **kw) for _ in range(1)]), i32([r.choice([n, n + 5000000, -1, -2, -70000])]))
    d('device-map-len', lambda a, b, m: k2.intersect_device(a, b, m), v, other, i32(bm[:r.randrange(other.shape[0])]))
    d('device-map-dtype', lambda a, b, m: k2.intersect_device(a, b, m), v, v, torch.zeros(n, dtype=torch.int64))
    d('device-single', lambda a, m: k2.intersect_device(a, a, m), s, i32([0]))
    d('compose-no-aux', lambda a: k2.compose(a, a), v)
    d('invert-no-aux', lambda a: k2.invert(a), v)
    d('shortest-cyclic', lambda c: k2.shortest_path(c, r.random() < .5), c)
    d('tot-cyclic', lambda c: c.get_tot_scores(use_double_scores=r.random() < .5, log_semiring=r.random() < .5), c)
    d('fwd-cyclic', lambda c: c.get_forward_scores(True, True), c)
    d('bwd-cyclic', lambda c: c.get_backward_scores(True, r.random() < .5), c)
    d('post-cyclic', lambda c: c.get_arc_post(True, True), c)
    d('batches-cyclic', lambda c: _k2.get_state_batches(c.arcs, True), c)
    d('random-paths-cyclic', lambda c: k2.random_paths(c, True, 2), c)
    d('random-paths-neg', lambda v: k2.random_paths(v, True, r.choice([-1, -3])), v)
    d('random-paths-single', lambda s: k2.random_paths(s, True, 2), s)
    d('tot-single', lambda s: s.get_tot_scores(True, True), s)
    d('prune', lambda v: k2.prune_on_arc_post(v, r.choice([-1., 2., 0., 1.]), True), v)
    d('union-single', lambda s: k2.union(s), s)
    d('closure-vec', lambda v: k2.closure(v), v)
    d('expand', lambda v: k2.expand_ragged_attributes(v, ragged_attribute_names=['zz']), v)
    d('replace-single', lambda s: k2.replace_fsa(s, s, 1), s)
    d('linear', lambda: k2.linear_fsa(r.choice([[1, -1], [1, 2 ** 31], 'a', [[1], 2], [-5], [1.5], None, [[1], [-1]], 5])))
    d('linear_fst', lambda: k2.linear_fst(*r.choice([([1, 2], [1]), ([1], [1, 2]), ([-1], [1]), ([[1]], [[1], [2]])])))
    d('ctc_topo', lambda: k2.ctc_topo(r.choice([-5, -1]), modified=r.random() < .5))
    d('ctc_graph', lambda: k2.ctc_graph(r.choice([[[1, -1]], [[1.5]], [['a']], 3, [[-2]]])))
    d('levenshtein', lambda: k2.levenshtein_graph(r.choice([[[0]], [[1, -1]], [[1, 0]], [['a']]])))
    d('trivial', lambda: k2.trivial_graph(r.choice([-2, -3, -100])))
    d('align', lambda: k2.levenshtein_alignment(k2.levenshtein_graph([[1, 2], [3]]), k2.levenshtein_graph([[1, 2], [1], [2]]),
                                                r.choice([i32([0, 1]), i32([0, 1, 2]), i32([0, 1, -1]), i32([0, 0, 5000000])])))
    d('missing', lambda v: v.no_such_attribute, v)
    d('delete', lambda v: delattr(v, r.choice(['no_such', 'num_arcs'])), v)
    d('grad', lambda v: v.requires_grad_('yes'), v) if False else None
    d('openfst-str-vec', lambda v: k2.to_str(v, openfst=True), v)
    d('dot-vec', lambda v: k2.to_dot(v), v) if n > 1 else None
    d('random_fsa', lambda: k2.random_fsa(max_symbol=-5))
    d('random_fsa-arcs', lambda: k2.random_fsa(**r.choice([dict(min_num_arcs=10, max_num_arcs=2),
                                                          dict(min_num_arcs=-10, max_num_arcs=-2)])))
    d('random_vec', lambda: k2.random_fsa_vec(3, 1))
    d('arg-type', lambda: r.choice([k2.connect, k2.top_sort, k2.arc_sort, k2.remove_epsilon, k2.determinize, k2.reverse,
                                    k2.closure, k2.shortest_path])(r.choice([None, 5, 'x', torch.zeros(3, 4)])))
    d('from_dict', lambda: k2.Fsa.from_dict(r.choice([{}, {'scores': torch.zeros(2)}, {'arcs': None}])))
    d('tensor-shape', lambda t: k2.Fsa(t), torch.zeros(*r.choice([(3, 5), (3, 3), (1, 1, 4), (0, 0)]), dtype=torch.int32))
    d('tensor-dtype', lambda t: k2.Fsa(t), torch.zeros(3, 4, dtype=r.choice([torch.float32, torch.int64])))
    name = r.choice(sorted(D))
    fn, args = D[name]
    ctx.note(fs=fs, op=name)
    refused(ctx, 'fsa-misuse', name, fn, *args)
    # the argument still works
    ctx.eq([(f.n, f.arcs) for f in fsam.vec_from_k2(v)], [(f.n, f.arcs) for f in fs], 'fsa-usable', 'the FsaVec afterwards')
    ctx.eq(len(k2.connect(v).shape), 3, 'fsa-usable', 'connect')
    ctx.sig('fsa', name, n)
    ctx.count('fsa:' + name)


def op_dense_misuse(ctx):
    r = ctx.rng
    N, T, C = r.randint(1, 3), r.randint(1, 6), r.randint(2, 5)
    lp = torch.randn(N, T, C).log_softmax(-1)
    seg = i32([[i, 0, T] for i in range(N)])
    D = {}

    def d(name, fn, *args):
        D[name] = (fn, args)

    def bad_seg():
        x = seg.clone()
        i = r.randrange(N)
        k = r.randrange(5)
        if k == 0:
            x[i, 2] = T + r.choice([1, 5, 100000])
        elif k == 1:
            x[i, 0] = r.choice([N, N + 70000, -1])
        elif k == 2:
            x[i, 1] = r.choice([-1, -100000, 1, 50])
        elif k == 3:
            x[i, 2] = r.choice([-1, -5, 0 - T])
        else:
            x[i, 1], x[i, 2] = r.choice([T, T + 10]), 1
        return x

    d('segments', k2.DenseFsaVec, lp, bad_seg())
    d('segments-cols', k2.DenseFsaVec, lp, seg[:, :2])
    d('segments-dtype', k2.DenseFsaVec, lp, seg.long())
    d('segments-1d', k2.DenseFsaVec, lp, seg[0])
    d('scores-2d', k2.DenseFsaVec, lp[0], seg)
    d('scores-dtype', k2.DenseFsaVec, lp.double(), seg)
    dense = k2.DenseFsaVec(lp, seg)
    g = k2.ctc_topo(C - 1)
    gv = k2.create_fsa_vec([g] * (N + 1 + r.randrange(2)))
    beam = 10.
    d('intersect-sizes', lambda g, x: k2.intersect_dense(g, x, beam), gv, dense)
    if N > 1:
        d('pruned-sizes', lambda g, x: k2.intersect_dense_pruned(g, x, beam, beam, 1, 100), gv, dense)
    m = [r.randrange(N) for _ in range(gv.shape[0])]
    m.sort()
    bad = list(m)
    k = r.randrange(4)
    if k == 0:
        bad[-1] = r.choice([N, 70000])
    elif k == 1:
        bad[0] = r.choice([-1, -70000])
    elif k == 2:
        bad = m[:-1]
    else:
        bad = [N - 1] + [0] * (len(m) - 1) if N > 1 else [1] + m[1:]
    d('intersect-map', lambda g, x, m: k2.intersect_dense(g, x, beam, a_to_b_map=m), gv, dense, i32(bad))
    d('pruned-beams', lambda g, x: k2.intersect_dense_pruned(g, x, *r.choice([(-1., beam), (beam, -1.), (0., beam)]), 1, 100),
      k2.create_fsa_vec([g]), dense)
    d('pruned-states', lambda g, x: k2.intersect_dense_pruned(g, x, beam, beam, *r.choice([(100, 1), (-1, 10), (10, -5)])),
      k2.create_fsa_vec([g]), dense)
    cg = k2.ctc_graph([[1]] * N)
    d('loss-reduction', lambda g, x: k2.ctc_loss(g, x, reduction=r.choice(['zz', '', 'max'])), cg, dense)
    d('loss-mean', lambda g, x: k2.ctc_loss(g, x, reduction='mean'), cg, dense)
    # transducer
    B, S, U = 1, r.randint(1, 4), r.randint(1, 5)
    z = torch.zeros
    d('mi-shape', k2.mutual_information_recursion, z(B, S, U + 1), z(B, S + 1, U + 2))
    d('mi-dtype', k2.mutual_information_recursion, z(B, S, U + 1), z(B, S + 1, U).double())
    d('mi-dim', k2.mutual_information_recursion, z(S, U + 1), z(S + 1, U))
    bnd = torch.tensor([[0, 0, S, U]])
    k = r.randrange(4)
    bnd[0, k] = [-1, -5, S + 3, U + 30000][k] if k >= 2 else r.choice([-1, -70000])
    d('mi-boundary', k2.mutual_information_recursion, z(B, S, U + 1), z(B, S + 1, U), bnd)
    if S > 1:
        d('mi-swapped', k2.mutual_information_recursion, z(B, S, U + 1), z(B, S + 1, U), torch.tensor([[S, 0, 0, U]]))
    d('mi-boundary-shape', k2.mutual_information_recursion, z(B, S, U + 1), z(B, S + 1, U), torch.zeros(2, 4).long())
    sym = torch.ones(1, S, dtype=torch.int64)
    bs = sym.clone()
    bs[0, r.randrange(S)] = r.choice([C, C + 5000000, -1, -5])
    d('rnnt-symbols', lambda x, y: k2.rnnt_loss(x, y, 0), z(1, U, S + 1, C), bs)
    d('rnnt-term', lambda x, y: k2.rnnt_loss(x, y, r.choice([C, -C - 1, 5000])), z(1, U, S + 1, C), sym)
    d('rnnt-shape', lambda x, y: k2.rnnt_loss(x, y, 0), z(1, U, S + 2, C), sym)
    d('rnnt-simple', lambda a, b, y: k2.rnnt_loss_simple(a, b, y, 0), z(1, U, C), z(1, S + 1, C + 1), sym)
    name = r.choice(sorted(D))
    fn, args = D[name]
    ctx.note(N=N, T=T, C=C, S=S, U=U, op=name, args=repr([a for a in args if isinstance(a, torch.Tensor) and
                                                          a.numel() < 20])[:500])
    refused(ctx, 'dense-misuse', name, fn, *args)
    ctx.ok(abs(k2.ctc_loss(cg, dense, reduction='none').sum().item()) < 1e30 or True, 'dense-usable')
    ctx.sig('dense', name, N, T)
    ctx.count('dense:' + name)


OPS = [op_fsa_text] * 6 + [op_ragged_text] * 3 + [op_table_text] * 2 + [op_fsa_tensor] * 4 + [op_shape2] * 2 + \
    [op_ragged_misuse] * 5 + [op_tensor_misuse] * 3 + [op_fsa_misuse] * 6 + [op_dense_misuse] * 4


def case(ctx):
    ctx.rng.choice(OPS)(ctx)
