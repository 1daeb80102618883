"""C09: property flags of any arc data against a sequential model, refusal of
invalid data, and validity + flags of the outputs of chains of operations."""
import torch
import k2
import _k2
from k2v import fsam
from k2v.core import Skip
from k2v.fsam import F

VALID, NONEMPTY, TS, TSA, AS, ASD, EF, ACC, COACC = (1 << i for i in range(9))
ALL = 0x1ff
NAMES = ['Valid', 'Nonempty', 'TopSorted', 'TopSortedAndAcyclic', 'ArcSorted',
         'ArcSortedAndDeterministic', 'EpsilonFree', 'MaybeAccessible', 'MaybeCoaccessible']


def u32(x):
    return x & 0xffffffff


def flags(rows):
    """rows[s] = arcs (src, dst, label) stored in the row of state s."""
    n = len(rows)
    p = ALL
    arcs = [(s, a) for s, r in enumerate(rows) for a in r]
    if not arcs:
        p &= ~NONEMPTY
    for s, (src, dst, lab) in arcs:
        if src != s or not 0 <= dst < n or lab < -1 or (lab == -1) != (dst == n - 1):
            p &= ~VALID
        if dst <= src:
            p &= ~TSA
        if dst < src:
            p &= ~TS
        if lab == 0:
            p &= ~EF
    for r in rows:
        for a, b in zip(r, r[1:]):
            if u32(b[2]) <= u32(a[2]):
                p &= ~ASD
            if (u32(b[2]), b[1]) < (u32(a[2]), a[1]):
                p &= ~AS
    for t in range(n):
        # every state but the start has an arc entering from another state,
        # every state but the final one has an arc leaving to another state;
        # no exemption when there are no arcs at all
        if not (t == 0 and arcs) and not any(dst == t and src != t for _, (src, dst, _) in arcs):
            p &= ~ACC
        if not (t == n - 1 and arcs) and not any(s == t and dst != src for s, (src, dst, _) in arcs):
            p &= ~COACC
    return p


def rows_of(f):
    rows = [[] for _ in range(f.n)]
    for a in f.arcs:
        rows[a[0]].append(a[:3])
    return rows


def vec_tensor(members):
    rs1, rs12, arcs = [0], [0], []
    for rows in members:
        rs1.append(rs1[-1] + len(rows))
        flat = [a for r in rows for a in r]
        rs12.append(rs12[-1] + len(flat))
        arcs += flat
    head = [len(members), rs1[-1]] + rs1 + rs12
    return torch.tensor(head + [x for a in arcs for x in (a[0], a[1], a[2], 0)], dtype=torch.int32)


def strbits(p):
    return '"' + '|'.join(n for i, n in enumerate(NAMES) if p >> i & 1) + '"'


def check_flags(ctx, fsa, key):
    """Flags reported by an Fsa object against its arcs."""
    got = fsam.any_from_k2(fsa)
    want = ALL
    for f in got:
        want &= flags(rows_of(f))
    if not got:
        want = fsa.properties & ALL   # no member: the AND of nothing, any value
    p = fsa.properties
    ctx.eq(strbits(p), strbits(want), key, 'property flags', fsa=got)
    ctx.eq(fsa.properties_str, _k2.fsa_properties_as_str(p), key, 'properties_str')
    ctx.eq(_k2.fsa_properties_as_str(p), strbits(p), key, 'string form of the flags')
    raw = _k2.get_fsa_vec_basic_properties(fsa.arcs) if fsa.arcs.num_axes() == 3 else \
        _k2.get_fsa_basic_properties(fsa.arcs)
    ctx.eq(p, raw, key, 'cached properties differ from recomputed ones', fsa=got)


def perturb(ctx, rows):
    """Corrupts valid rows in one of the ways validity forbids (or not)."""
    r = ctx.rng
    n = len(rows)
    flat = [(s, i) for s, x in enumerate(rows) for i in range(len(x))]
    if not flat or n < 2:
        return 'none'
    s, i = r.choice(flat)
    src, dst, lab = rows[s][i]
    how = r.choice(['none', 'src', 'dst-hi', 'dst-neg', 'lab-neg', 'lab-final', 'lab-nonfinal', 'final-arc',
                    'selfloop', 'shuffle', 'dst-any', 'biglab'])
    if how == 'src':
        src = r.choice([x for x in range(-1, n + 1) if x != s])
    elif how == 'dst-hi':
        dst = n + r.choice([0, 0, 1, 5])
    elif how == 'dst-neg':
        dst = -r.choice([1, 1, 2])
    elif how == 'lab-neg':
        lab = r.choice([-2, -3, -2**31])
    elif how == 'lab-final':
        dst, lab = n - 1, r.choice([0, 1, 2**31 - 1])
    elif how == 'lab-nonfinal':
        dst, lab = r.randrange(n - 1), -1
    elif how == 'final-arc':
        rows[n - 1].append((n - 1, r.randrange(n - 1), 1))
        return how
    elif how == 'selfloop':
        dst, lab = s, (-1 if s == n - 1 else r.choice([0, 1]))
    elif how == 'shuffle':
        r.shuffle(rows[s])
        return how
    elif how == 'dst-any':
        dst = r.randrange(n)
        lab = -1 if dst == n - 1 else r.choice([0, 1, 2])
    elif how == 'biglab':
        lab = -1 if dst == n - 1 else 2**31 - 1
    rows[s][i] = (src, dst, lab)
    return how


def op_raw_vec(ctx):
    r = ctx.rng
    k = r.choice([1, 1, 2, 3, 5])
    members, how = [], []
    for _ in range(k):
        x = r.random()
        if x < 0.06:
            rows = []
        elif x < 0.12:
            rows = [[] for _ in range(r.choice([2, 3]))]
        else:
            f = fsam.gen(r, allow_empty=False, max_n=6)
            if r.random() < 0.5:
                f = fsam.arc_sorted(f)
            rows = rows_of(f)
        h = perturb(ctx, rows) if r.random() < 0.5 else 'none'
        members.append(rows)
        how.append(h)
    # the vector form derives the rows from src_state, so a wrong src there is
    # another row; build the rows explicitly through a ragged shape instead
    t = vec_tensor(members)
    ctx.note(members=members, how=how)
    want = ALL
    for rows in members:
        want &= flags(rows)
    bad_src = any(h == 'src' for h in how)
    if bad_src:
        # out-of-row sources cannot be expressed by the tensor form: the
        # constructor either regroups them into a valid row or refuses
        ctx.count('src-refused')
        ctx.sig('src', members)
        try:
            fsa = k2.Fsa(t)
        except (ValueError, RuntimeError):
            ctx.ok(True, 'refused')
            return
        check_flags(ctx, fsa, 'flags-src')
        ctx.ok(fsa.properties & VALID, 'flags-src', 'accepted but not valid')
        return
    ctx.sig('vec', members)
    ctx.count('how:' + ','.join(sorted(set(how))) if len(set(how)) < 3 else 'how:mixed')
    if not want & VALID:
        ctx.raises(lambda: k2.Fsa(t), 'invalid-refused', 'invalid arcs accepted', (ValueError, RuntimeError))
        ctx.count('invalid')
        try:
            arcs = _k2.fsa_from_tensor(t)
        except (ValueError, RuntimeError):
            return
    else:
        try:
            fsa = k2.Fsa(t)
        except Exception as e:
            ctx.fail('valid-accepted', f'valid arcs refused: {e}')
        arcs = fsa.arcs
        check_flags(ctx, fsa, 'flags')
        ctx.count('valid')
    got = _k2.get_fsa_vec_basic_properties(arcs)
    ctx.eq(strbits(got), strbits(want), 'raw-flags', 'flags of raw arcs')


def op_raw_ragged(ctx):
    """Flags of a ragged arc array edited in place after construction."""
    r = ctx.rng
    fs, vec = fsam.gen_batch(r, kmax=4)
    fsa = fsam.build(fs, vec)
    parts = [rows_of(f) for f in fs]
    arcs = fsa.arcs
    v = arcs.values()
    off, where = 0, []
    for m, rows in enumerate(parts):
        for s, row in enumerate(rows):
            for i in range(len(row)):
                where.append((m, s, i))
    if not where:
        raise Skip
    for _ in range(r.choice([1, 1, 2, 4])):
        j = r.randrange(len(where))
        m, s, i = where[j]
        n = len(parts[m])
        src, dst, lab = parts[m][s][i]
        col = r.choice([0, 1, 1, 2, 2, 2])
        if col == 0:
            src = r.randrange(-1, n + 1)
        elif col == 1:
            dst = r.choice([r.randrange(n), r.randrange(n), n, -1])
        else:
            lab = r.choice([0, 1, 2, 3, -1, -2, 2**31 - 1])
        parts[m][s][i] = (src, dst, lab)
        v[j, col] = (src, dst, lab)[col]
    ctx.note(parts=parts, vec=vec)
    ctx.sig('inplace', parts)
    want = ALL
    for rows in parts:
        want &= flags(rows)
    if vec:
        got = _k2.get_fsa_vec_basic_properties(arcs)
    else:
        got = _k2.get_fsa_basic_properties(arcs)
    ctx.eq(strbits(got), strbits(want), 'raw-flags', 'flags of edited arcs')
    # a fresh Fsa over the same arcs accepts iff they are valid
    try:
        g = k2.Fsa(arcs)
        acc = True
    except ValueError:
        acc = False
    ctx.eq(acc, bool(want & VALID), 'fsa-accepts', 'Fsa(arcs) accepts exactly valid arcs')
    ctx.count('edited-valid' if acc else 'edited-invalid')


def op_single(ctx):
    """Single-FSA tensor form: accepted exactly when the arcs denote a valid
    FSA, and the flags are right."""
    r = ctx.rng
    f = fsam.gen(r, allow_empty=False, max_n=6)
    rows = rows_of(f)
    how = perturb(ctx, rows) if r.random() < 0.6 else 'none'
    arcs = [a for x in rows for a in x]
    ctx.note(arcs=arcs, how=how)
    if not arcs:
        raise Skip
    t = torch.tensor([list(a) + [0] for a in arcs], dtype=torch.int32)
    # denotation: rows by src_state; final state is the destination of -1 arcs
    fin = sorted({a[1] for a in arcs if a[2] == -1})
    good = len(fin) == 1 and fin[0] > 0
    if good:
        n = fin[0] + 1
        good = all(x[0] <= y[0] for x, y in zip(arcs, arcs[1:])) and all(0 <= a[0] < n for a in arcs)
    if not fin or (len(fin) == 1 and fin[0] <= 0) or any(a[0] > max(fin) for a in arcs) or \
            any(a[0] < 0 for a in arcs):
        # malformed beyond what this check runs in process: see C24
        ctx.count('single-malformed')
        raise Skip
    if good:
        rr = [[] for _ in range(n)]
        for a in arcs:
            rr[a[0]].append(a)
        p = flags(rr)
        good = bool(p & VALID)
    ctx.sig('single', arcs)
    if not good:
        ctx.raises(lambda: k2.Fsa(t), 'invalid-refused', 'invalid arcs accepted', (ValueError, RuntimeError))
        ctx.count('invalid')
        return
    fsa = k2.Fsa(t)
    ctx.eq(strbits(fsa.properties), strbits(p), 'flags', 'flags of a single FSA')
    ctx.eq(fsa.arcs.values()[:, :3].tolist(), [list(a) for a in arcs], 'arcs', 'arcs as given')
    check_flags(ctx, fsa, 'flags')
    ctx.count('valid')


def unary(ctx):
    r = ctx.rng
    return [
        ('connect', lambda x: k2.connect(x), None),
        ('arc_sort', lambda x: k2.arc_sort(x), None),
        ('top_sort', lambda x: k2.top_sort(k2.connect(x)), 'acyclic'),
        ('reverse', lambda x: k2.reverse(x), None),
        ('add_loops', lambda x: k2.add_epsilon_self_loops(x), None),
        ('rm_loops', lambda x: k2.remove_epsilon_self_loops(x), None),
        ('closure', lambda x: k2.closure(x), 'single'),
        ('union', lambda x: k2.union(x), 'vec'),
        ('invert', lambda x: k2.invert(x) if hasattr(x, 'aux_labels') else x, None),
        ('rm_eps', lambda x: k2.remove_epsilon(x), 'noposloop'),
        ('rm_eps_dev', lambda x: k2.remove_epsilon_self_loops(k2.remove_epsilon(x)), 'noposloop'),
        ('rm_eps_add', lambda x: k2.remove_epsilon_and_add_self_loops(x), 'noposloop'),
        ('det', lambda x: k2.determinize(k2.arc_sort(k2.connect(k2.remove_epsilon(x)))), 'acyclic'),
        ('shortest', lambda x: k2.shortest_path(x, True), 'sorted'),
        ('index', lambda x: x[r.randrange(x.shape[0])], 'vec'),
        ('stack', lambda x: k2.create_fsa_vec([x, x]), 'single'),
        ('from_fsas', lambda x: k2.create_fsa_vec([x[i] for i in range(x.shape[0])]), 'vec'),
        ('prune', lambda x: k2.prune_on_arc_post(x, 0.05, True), 'sortedvec'),
        ('intersect', lambda x: k2.intersect(k2.arc_sort(x), k2.arc_sort(x), treat_epsilons_specially=r.random() < 0.5), 'small'),
        ('intersect_dev', lambda x: k2.intersect_device(x, k2.arc_sort(x), torch.arange(x.shape[0], dtype=torch.int32)), 'smallvec'),
        ('clone', lambda x: x.clone(), None),
        ('detach', lambda x: x.detach(), None),
        ('relabel', lambda x: relabel(r, x), None),
    ]


def relabel(r, x):
    y = x.clone()
    old = y.labels.tolist()
    y.labels = torch.tensor([l if l == -1 else r.choice([0, 1, 2, 3]) for l in old], dtype=torch.int32)
    return y


def op_chain(ctx):
    r = ctx.rng
    fs, vec = fsam.gen_batch(r, kmax=4, max_n=6, topo=r.random() < 0.6, score='neg')
    x = fsam.build(fs, vec)
    if r.random() < 0.3:
        x.aux_labels = torch.tensor([a[2] if a[2] == -1 else r.choice([0, 1, 2, 3]) for f in fs for a in f.arcs],
                                    dtype=torch.int32)
    ctx.note(fs=fs, vec=vec)
    ops = unary(ctx)
    trace = []
    for _ in range(r.randint(1, 4)):
        cur = fsam.any_from_k2(x)
        isvec = x.arcs.num_axes() == 3
        tot = sum(len(f.arcs) for f in cur)
        if tot > 400:
            break
        name, f, need = r.choice(ops)
        if need == 'vec' and (not isvec or x.shape[0] == 0):
            continue
        if need == 'single' and isvec:
            continue
        if need == 'acyclic' and not all(fsam.is_acyclic(c) for c in cur):
            continue
        if need == 'noposloop' and (tot > 60 or any(a[3] > 0 for c in cur for a in c.arcs)):
            continue
        if need in ('sorted', 'sortedvec') and not all(fsam.is_acyclic(c) and fsam.is_top_sorted(c) for c in cur):
            continue
        if need == 'sortedvec' and not isvec:
            continue
        if need in ('small', 'smallvec') and tot > 40:
            continue
        if need == 'smallvec' and (not isvec or x.shape[0] == 0):
            continue
        if name in ('union', 'closure', 'reverse', 'invert') and any(c.n < 2 for c in cur):
            continue
        if name == 'det' and tot > 60:
            continue
        if hasattr(x, 'aux_labels') and name in ('closure', 'reverse', 'intersect', 'intersect_dev', 'det', 'rm_eps',
                                                 'rm_eps_dev', 'rm_eps_add'):
            x = x.clone()
            del x.aux_labels
        trace.append(name)
        ctx.note(trace=list(trace), cur=cur)
        if r.random() < 0.5:
            x.properties
        x = f(x)
        ctx.count('op:' + name)
        fsam.check_valid(ctx, x, 'output-valid')
        check_flags(ctx, x, 'output-flags')
    if not trace:
        raise Skip
    ctx.sig('chain', trace, fs)


OPS = [op_raw_vec] * 3 + [op_raw_ragged] * 3 + [op_single] * 2 + [op_chain] * 5


def case(ctx):
    r = ctx.rng.choice(OPS)
    ctx.count('op:' + r.__name__)
    r(ctx)
