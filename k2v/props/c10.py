"""C10: histories of reads and writes on FSA objects; after every write, what an
object reports is compared with a fresh object of the same content."""
import torch
import k2
from k2v import fsam, rag
from k2v.core import Skip, near
from k2v.fsam import F

MODES = [(d, l) for d in (True, False) for l in (True, False)]


class Obj:
    """A k2.Fsa under test, and what it must contain."""
    def __init__(self, fsa, fs, is_vec, attrs, plain, rg=False):
        self.fsa, self.fs, self.is_vec, self.attrs, self.plain, self.rg = fsa, fs, is_vec, attrs, plain, rg

    def arcs(self):
        return [a for f in self.fs for a in f.arcs]

    def set_scores(self, v):
        i = iter(v)
        self.fs = [F(f.n, [(s, d, l, next(i)) for s, d, l, _ in f.arcs]) for f in self.fs]

    def set_labels(self, v):
        i = iter(v)
        out = []
        for f in self.fs:
            arcs = []
            for s, d, _, w in f.arcs:
                x = next(i)
                arcs.append((s, d, -1 if d == f.n - 1 else (0 if x == -1 else x), w))
            out.append(F(f.n, arcs))
        self.fs = out

    def copy(self, fsa, fs=None, attrs=None, is_vec=None):
        return Obj(fsa, list(self.fs) if fs is None else fs, self.is_vec if is_vec is None else is_vec,
                   {k: list(v) for k, v in self.attrs.items()} if attrs is None else attrs, dict(self.plain), self.rg)

    def fresh(self):
        f = fsam.build(self.fs, self.is_vec)
        return f


def f32(xs):
    return torch.tensor(xs, dtype=torch.float32).tolist()


def new_attr(ctx, o):
    r = ctx.rng
    n = len(o.arcs())
    k = r.randrange(4)
    if k == 0:
        v = [r.randint(0, 9) for _ in range(n)]
        return v, torch.tensor(v, dtype=torch.int32)
    if k == 1:
        v = f32([r.randint(-32, 32) / 8 for _ in range(n)])
        return v, torch.tensor(v, dtype=torch.float32)
    if k == 2:
        v = [[r.randint(0, 3) for _ in range(2)] for _ in range(n)]
        return v, torch.tensor(v, dtype=torch.int32).reshape(n, 2)
    v = [[r.randint(1, 5) for _ in range(r.randrange(3))] for _ in range(n)]
    return v, rag.make(v, 2, 'i')


def start(ctx):
    r = ctx.rng
    is_vec = r.random() < .85
    kw = dict(cyclic=False, topo=True, score=r.choice(['norm', 'neg', 'few']), max_n=6)
    if is_vec:
        fs = [fsam.gen(r, **kw) for _ in range(r.randint(1, 3))]
    else:
        fs = [fsam.gen(r, allow_empty=False, **kw)]
    fs = [F(f.n, f.arcs) for f in fs]
    if not any(f.arcs for f in fs):
        raise Skip
    ctx.note(start=fs, is_vec=is_vec)
    ctx.sig(str(fs), is_vec)
    return Obj(fsam.build(fs, is_vec), fs, is_vec, {}, {})


# ------------------------------------------------------------------ reads

def derived(fsa, q):
    kind, d, l = q
    if kind == 'tot':
        return fsa.get_tot_scores(d, l)
    if kind == 'fwd':
        return fsa.get_forward_scores(d, l)
    if kind == 'bwd':
        return fsa.get_backward_scores(d, l)
    if kind == 'post':
        return fsa.get_arc_post(d, l)
    if kind == 'best':
        b = k2.shortest_path(fsa, use_double_scores=d)
        return b.get_tot_scores(d, False)
    if kind == 'state_batches':
        return fsa._get_state_batches().values
    if kind == 'cdf':
        return fsa._get_arc_cdf(d, l)
    if kind == 'entering':
        return fsa._get_entering_arcs(d)


KINDS = ['tot', 'fwd', 'bwd', 'post', 'best', 'state_batches', 'cdf']


def read(ctx, o, full=False):
    """Compares queries with those of a fresh object."""
    r = ctx.rng
    f = o.fsa
    kinds = KINDS if full else r.sample(KINDS, r.randint(0, 2))
    if o.is_vec and kinds:
        fresh = o.fresh()
        for kind in kinds:
            for d, l in (MODES if full else [r.choice(MODES)]):
                a = derived(f, (kind, d, l)).tolist()
                b = derived(fresh, (kind, d, l)).tolist()
                ctx.closes(a, b, 'stale-' + kind, f'{kind} double={d} log={l}', tol=1e-3,
                           rel=1e-4)
                ctx.count('reads')
        if 'best' in kinds:
            check_best(ctx, o)
    if full or r.random() < .5:
        check_content(ctx, o)
    if r.random() < .3:
        props = f.properties
        ctx.eq(props, o.fresh().properties, 'stale-properties', f.properties_str)


def check_best(ctx, o):
    """The path itself is a real path of the current content."""
    b = k2.shortest_path(o.fsa, True)
    bests = fsam.vec_from_k2(b)
    for src, p in zip(o.fs, bests):
        w = fsam.forward(src, 'max')[-1] if src.n else fsam.NINF
        got = sum(a[3] for a in p.arcs) if p.n else fsam.NINF
        ctx.close(got, w, 'stale-best-path', f'path {p} of {src}', tol=1e-3)


def check_content(ctx, o):
    f = o.fsa
    got = fsam.any_from_k2(f)
    ctx.eq(str(got), str(o.fs), 'content', 'arcs')
    ctx.eq(f.scores.tolist(), [a[3] for a in o.arcs()], 'content', 'scores')
    ctx.eq(f.labels.tolist(), [a[2] for a in o.arcs()], 'content', 'labels')
    ctx.eq(f.requires_grad, o.rg, 'content', 'requires_grad')
    names = {k for k, _ in f.named_tensor_attr(include_scores=False)}
    ctx.eq(names, set(o.attrs), 'content', 'tensor attribute names')
    for k, v in o.attrs.items():
        ctx.eq(getattr(f, k).tolist(), v, 'content', f'attribute {k}')
    ctx.eq(dict(f.named_non_tensor_attr()), o.plain, 'content', 'plain attributes')
    for g in ('no_such_attribute', '_x_none'):
        ctx.ok(not hasattr(f, g), 'content', 'unexpected attribute')


# ------------------------------------------------------------------ writes

def w_scores(ctx, o, pool):
    r = ctx.rng
    n = len(o.arcs())
    k = r.randrange(5)
    if k == 0:
        v = f32([r.randint(-32, 32) / 8 for _ in range(n)])
        o.fsa.scores = torch.tensor(v)
        o.rg = False
    elif k == 1:
        o.fsa.scores = o.fsa.scores * 0.5
        v = [a[3] * .5 for a in o.arcs()]
    elif k == 2:
        if o.rg:
            return 'noop'
        o.fsa.scores *= 2
        v = [a[3] * 2 for a in o.arcs()]
    elif k == 3:
        if o.rg:
            return 'noop'
        o.fsa.scores += .25
        v = [a[3] + .25 for a in o.arcs()]
    else:
        p = torch.tensor([r.randint(-32, 32) / 8 for _ in range(n)], requires_grad=True)
        o.fsa.scores = p
        v = p.tolist()
        o.rg = True
    o.set_scores(v)
    return f'scores{k}'


def w_labels(ctx, o, pool):
    r = ctx.rng
    v = [0 if d == f.n - 1 and r.random() < .5 else (-1 if d == f.n - 1 else r.choice([-1, 0, 1, 2, 3]))
         for f in o.fs for s, d, l, w in f.arcs]
    if r.random() < .5:
        o.fsa.labels = torch.tensor(v, dtype=torch.int32)
    else:
        lab = o.fsa.labels.clone()
        lab[:] = torch.tensor(v, dtype=torch.int32)
        o.fsa.labels = lab
    o.set_labels(v)
    return 'labels'


def w_attr(ctx, o, pool):
    r = ctx.rng
    k = r.choice(['add', 'add', 'del', 'plain', 'ragged'])
    if k == 'add':
        name = r.choice(['foo', 'bar', 'aux_labels'])
        v, t = new_attr(ctx, o)
        if name == 'aux_labels' and (not v or isinstance(v[0], float) or not isinstance(v[0], int)):
            v = [-1 if a[2] == -1 else r.randint(0, 4) for a in o.arcs()]
            t = torch.tensor(v, dtype=torch.int32)
        elif name == 'aux_labels':
            v = [-1 if a[2] == -1 else x for a, x in zip(o.arcs(), v)]
            t = torch.tensor(v, dtype=torch.int32)
        setattr(o.fsa, name, t)
        o.attrs[name] = v
        o.plain.pop(name, None)
    elif k == 'del':
        names = list(o.attrs) + list(o.plain)
        if not names:
            return 'noop'
        name = r.choice(names)
        delattr(o.fsa, name)
        o.attrs.pop(name, None)
        o.plain.pop(name, None)
    elif k == 'plain':
        name = r.choice(['note', 'foo_filler', 'labels_sym'])
        v = r.randint(1, 9)
        setattr(o.fsa, name, v)
        o.plain[name] = v
    else:
        names = [n for n, v in o.attrs.items() if isinstance(getattr(o.fsa, n), torch.Tensor) and
                 getattr(o.fsa, n).ndim == 1 and getattr(o.fsa, n).dtype == torch.int32 and n != 'aux_labels']
        if not names:
            return 'noop'
        name = r.choice(names)
        eps = r.random() < .5
        o.fsa.convert_attr_to_ragged_(name, remove_eps=eps)
        o.attrs[name] = [[x] if (x or not eps) else [] for x in o.attrs[name]]
    return 'attr-' + k


def w_rename(ctx, o, pool):
    r = ctx.rng
    src = r.choice(list(o.attrs) + ['scores', 'labels'])
    if src == 'aux_labels':
        a = o.attrs[src]
        if not isinstance(o.fsa.aux_labels, torch.Tensor) or any(x != -1 if arc[2] == -1 else x == -1 for x, arc in zip(a, o.arcs())):
            return 'noop'
        dst = 'labels'
    else:
        dst = r.choice(['baz', 'qux'])
    if dst == src:
        return 'noop'
    o.fsa.rename_tensor_attribute_(src, dst)
    if src == 'scores':
        o.attrs[dst] = [a[3] for a in o.arcs()]
    elif src == 'labels':
        o.attrs[dst] = [a[2] for a in o.arcs()]
    elif dst == 'labels':
        o.set_labels(o.attrs.pop(src))
    else:
        o.attrs[dst] = o.attrs.pop(src)
    for k in list(o.plain):
        if k.startswith(src):
            o.plain[dst + k[len(src):]] = o.plain.pop(k)
        elif k.startswith(dst):
            del o.plain[k]
    return f'rename-{src}-to-{dst}'


def w_invert(ctx, o, pool):
    a = o.attrs.get('aux_labels')
    if a is None or not isinstance(o.fsa.aux_labels, torch.Tensor):
        return 'noop'
    if any((x in (0, -1)) != True for x, arc in zip(a, o.arcs()) if arc[2] == -1):
        return 'noop'
    old = [arc[2] for arc in o.arcs()]
    if ctx.rng.random() < .5:
        o.fsa.invert_()
        tgt = o
    else:
        tgt = o.copy(o.fsa.invert())
        pool.append(tgt)
    tgt.set_labels(a)
    tgt.attrs['aux_labels'] = old
    new = {}
    for k, v in tgt.plain.items():
        if k.startswith('aux_labels'):
            new['labels' + k[10:]] = v
        elif k.startswith('labels'):
            new['aux_labels' + k[6:]] = v
        else:
            new[k] = v
    tgt.plain = new
    return 'invert'


def w_stochastic(ctx, o, pool):
    import math
    if not o.arcs():
        return 'noop'
    n = len(o.arcs())
    v = [ctx.rng.randint(-16, 16) / 8 for _ in range(n)]
    if not o.is_vec:
        pass
    o.fsa.set_scores_stochastic_(torch.tensor(v))
    out, i = [], 0
    for f in o.fs:
        vv = v[i:i + len(f.arcs)]
        i += len(f.arcs)
        tot = {}
        for (s, d, l, w), x in zip(f.arcs, vv):
            tot[s] = tot.get(s, 0.0) + math.exp(x)
        out += [x - math.log(tot[s]) for (s, d, l, w), x in zip(f.arcs, vv)]
    got = o.fsa.scores.tolist()
    ctx.closes(got, out, 'set_scores_stochastic_', 'normalised scores', tol=1e-4)
    o.set_scores(got)
    o.rg = False
    return 'stochastic'


def w_grad(ctx, o, pool):
    r = ctx.rng
    if not o.is_vec:
        return 'noop'
    if not o.fsa.scores.is_leaf:
        o.fsa.scores = o.fsa.scores.detach().clone()
        o.rg = False
    o.rg = r.random() < .7
    o.fsa.requires_grad_(o.rg)
    if o.rg and r.random() < .7:
        d, l = r.choice(MODES)
        derived(o.fsa, (r.choice(['tot', 'fwd', 'bwd']), d, l)).sum().backward()
        return 'backward'
    return 'requires_grad_'


def w_late_backward(ctx, o, pool):
    """Back-propagates a quantity after the scores were re-assigned: the
    gradient is that of the scores it was computed from."""
    r = ctx.rng
    if not o.is_vec or not o.arcs():
        return 'noop'
    n = len(o.arcs())
    d, l = r.choice(MODES)
    q = (r.choice(['tot', 'fwd', 'bwd', 'post']), d, l)
    p = torch.tensor([r.randint(-32, 32) / 8 for _ in range(n)], requires_grad=True)
    o.fsa.scores = p
    o.set_scores(p.tolist())
    fresh = o.fresh()
    p2 = p.detach().clone().requires_grad_(True)
    fresh.scores = p2
    t, t2 = derived(o.fsa, q), derived(fresh, q)
    w = torch.tensor([r.randint(-8, 8) / 4 for _ in range(t.numel())], dtype=t.dtype)
    k = r.randrange(3)
    if k:
        v = f32([r.randint(-32, 32) / 8 for _ in range(n)])
        o.fsa.scores = torch.tensor(v)
        o.set_scores(v)
        if k == 2:
            derived(o.fsa, q)
    ok = torch.isfinite(t2)
    t[ok].backward(w[ok])
    t2[ok].backward(w[ok])
    a, b = p.grad.tolist(), p2.grad.tolist()
    ctx.closes(a, b, 'late-backward', f'gradient of {q} after re-assignment', tol=1e-3)
    o.rg = o.fsa.scores.requires_grad
    return 'late-backward'


def w_edit_result(ctx, o, pool):
    """Overwrites results in place: they must not be the object's own copy."""
    r = ctx.rng
    if not o.is_vec:
        return 'noop'
    d, l = r.choice(MODES)
    kind = r.choice(['tot', 'fwd', 'bwd', 'post'])
    t = derived(o.fsa, (kind, d, l))
    with torch.no_grad():
        t.fill_(123.)
    return 'edit-result'


def w_clone(ctx, o, pool):
    c = o.copy(o.fsa.clone())
    if o.rg:
        c.rg = True
    pool.append(c)
    return 'clone'


def w_to(ctx, o, pool):
    ctx.ok(o.fsa.to('cpu') is o.fsa, 'to-same', 'to(same device)')
    return 'to'


def w_index(ctx, o, pool):
    if not o.is_vec:
        return 'noop'
    i = ctx.rng.randrange(len(o.fs))
    b = sum(len(f.arcs) for f in o.fs[:i])
    e = b + len(o.fs[i].arcs)
    g = o.fsa[i]
    pool.append(o.copy(g, fs=[o.fs[i]], is_vec=False, attrs={k: list(v[b:e]) for k, v in o.attrs.items()}))
    return 'index'


def w_stack(ctx, o, pool):
    """Stack singles and re-stack a split vector."""
    r = ctx.rng
    if o.is_vec:
        members = [o.fsa[i] for i in range(len(o.fs))]
        if not members:
            return 'noop'
        v = k2.create_fsa_vec(members)
        if any(isinstance(x, list) and x and isinstance(x[0], list) for x in o.attrs.values()):
            pass
        pool.append(o.copy(v))
        return 'restack'
    v = k2.create_fsa_vec([o.fsa])
    pool.append(o.copy(v, is_vec=True))
    return 'stack'


def w_vec_op(ctx, o, pool):
    """Using the object as an operand leaves it as it was."""
    r = ctx.rng
    if not o.is_vec:
        return 'noop'
    k = r.randrange(5)
    if k == 0:
        k2.connect(o.fsa)
    elif k == 1:
        k2.arc_sort(o.fsa)
    elif k == 2:
        k2.shortest_path(o.fsa, r.random() < .5)
    elif k == 3:
        o.fsa.detach()
    else:
        str(o.fsa)
    return f'op{k}'


WRITES = [w_scores] * 5 + [w_labels] * 3 + [w_attr] * 3 + [w_rename, w_rename, w_invert, w_invert, w_stochastic, w_grad,
          w_grad, w_edit_result, w_edit_result, w_late_backward, w_late_backward, w_clone, w_clone, w_to, w_index, w_index, w_stack, w_stack, w_vec_op]


def element_edit(ctx):
    """fsa.scores[i] = x on an object whose scores are the arcs' own memory."""
    r = ctx.rng
    o = start(ctx)
    if not o.is_vec or not o.arcs():
        raise Skip
    q = (r.choice(['tot', 'fwd', 'bwd', 'post']), r.random() < .5, r.random() < .5)
    cached = r.random() < .5
    if cached:
        derived(o.fsa, q)
    v = [a[3] for a in o.arcs()]
    i = r.randrange(len(v))
    v[i] += 2.0
    o.fsa.scores[i] = v[i]
    o.set_scores(v)
    check_content(ctx, o)
    a, b = derived(o.fsa, q).tolist(), derived(o.fresh(), q).tolist()
    stale = not all(near(x, y, 1e-3, 1e-4) for x, y in zip(a, b))
    ctx.ok(not stale, 'scores-element-edit-after-read' if cached else 'scores-element-edit',
           f'{q} after fsa.scores[{i}] = x: got {a} want {b}')


def case(ctx):
    if ctx.rng.random() < .02:
        return element_edit(ctx)
    r = ctx.rng
    pool = [start(ctx)]
    steps = []
    for _ in range(r.randint(2, 9)):
        i = r.randrange(len(pool))
        o = pool[i]
        if r.random() < .7:
            read(ctx, o)
        w = r.choice(WRITES)
        what = w(ctx, o, pool)
        steps.append(f'{i}:{what}')
        ctx.count('step:' + what.split('-')[0])
        ctx.notes[1:] = []
        ctx.note(steps=steps)
        if r.random() < .6:
            read(ctx, o)
    for i, o in enumerate(pool):
        ctx.notes[2:] = []
        ctx.note(final_check_of=i)
        read(ctx, o, full=True)
    ctx.sig(steps)
