"""Explicit FSA model: generators, conversion to and from k2, and language
oracles written without any k2 algorithm."""
import math

import torch
import k2

NINF = float('-inf')


class F:
    """arcs: list of (src, dst, label, score), grouped by src in order."""
    __slots__ = ('n', 'arcs')

    def __init__(self, n, arcs):
        self.n = n
        self.arcs = list(arcs)

    def __repr__(self):
        return f'F({self.n}, {self.arcs})'

    @property
    def final(self):
        return self.n - 1

    def leaving(self):
        out = [[] for _ in range(self.n)]
        for i, a in enumerate(self.arcs):
            out[a[0]].append(i)
        return out

    def entering(self):
        out = [[] for _ in range(self.n)]
        for i, a in enumerate(self.arcs):
            out[a[1]].append(i)
        return out


# ---------------------------------------------------------------- conversion

def arcs_tensor(arcs):
    if not arcs:
        return torch.zeros((0, 4), dtype=torch.int32)
    t = torch.zeros((len(arcs), 4), dtype=torch.int32)
    t[:, :3] = torch.tensor([[a[0], a[1], a[2]] for a in arcs], dtype=torch.int32)
    t[:, 3] = torch.tensor([a[3] for a in arcs], dtype=torch.float32).view(torch.int32)
    return t


def to_k2(f):
    """Single FSA. Built from the 2-axis ragged arc text-free constructor."""
    return k2.Fsa(arcs_tensor(f.arcs))


def vec_to_k2(fs):
    """FsaVec through the flattened-tensor format of fsa_to_tensor:
    num_fsas, num_states, first state of each FSA, first arc of each, arcs."""
    rs1, rs12, arcs = [0], [0], []
    for f in fs:
        rs1.append(rs1[-1] + f.n)
        rs12.append(rs12[-1] + len(f.arcs))
        arcs += f.arcs
    t = torch.cat([torch.tensor([len(fs), rs1[-1]] + rs1 + rs12, dtype=torch.int32),
                   arcs_tensor(arcs).reshape(-1)])
    return k2.Fsa(t)


def from_k2(fsa):
    """Single FSA (2 axes) -> F, reading the raw arcs."""
    assert fsa.arcs.num_axes() == 2
    v = fsa.arcs.values()
    lab = v[:, :3].tolist()
    sc = v[:, 3].contiguous().view(torch.float32).tolist()
    return F(fsa.arcs.dim0(), [(l[0], l[1], l[2], s) for l, s in zip(lab, sc)])


def vec_from_k2(fsa):
    """FsaVec -> list of F, reading row_splits and the raw arcs."""
    assert fsa.arcs.num_axes() == 3
    s1 = fsa.arcs.shape().row_splits(1).tolist()
    s2 = fsa.arcs.shape().row_splits(2).tolist()
    v = fsa.arcs.values()
    lab = v[:, :3].tolist()
    sc = v[:, 3].contiguous().view(torch.float32).tolist()
    out = []
    for i in range(len(s1) - 1):
        b, e = s2[s1[i]], s2[s1[i + 1]]
        out.append(F(s1[i + 1] - s1[i], [(l[0], l[1], l[2], s) for l, s in zip(lab[b:e], sc[b:e])]))
    return out


def any_from_k2(fsa):
    return vec_from_k2(fsa) if fsa.arcs.num_axes() == 3 else [from_k2(fsa)]


# ---------------------------------------------------------------- validity

def structure_errors(fsa):
    """Independent validity monitor over the raw arcs of any Fsa/FsaVec."""
    shape = fsa.arcs.shape()
    errs = []
    if fsa.arcs.num_axes() == 3:
        s1 = shape.row_splits(1).tolist()
        s2 = shape.row_splits(2).tolist()
    else:
        s2 = shape.row_splits(1).tolist()
        s1 = [0, len(s2) - 1]
    v = fsa.arcs.values().tolist()
    if s2 and s2[-1] != len(v):
        errs.append(f'last row split {s2[-1]} != {len(v)} arcs')
    for i in range(len(s1) - 1):
        b, e = s1[i], s1[i + 1]
        n = e - b
        if n == 1:
            errs.append(f'fsa {i} has one state')
            continue
        for s in range(n):
            for j in range(s2[b + s], s2[b + s + 1]):
                src, dst, lab = v[j][:3]
                if src != s:
                    errs.append(f'fsa {i} arc {j}: src {src} in row {s}')
                if not 0 <= dst < n:
                    errs.append(f'fsa {i} arc {j}: dest {dst} of {n}')
                elif s == n - 1:
                    errs.append(f'fsa {i} arc {j} leaves the final state')
                if (dst == n - 1) != (lab == -1):
                    errs.append(f'fsa {i} arc {j}: label {lab} to state {dst} of {n}')
                if lab < -1:
                    errs.append(f'fsa {i} arc {j}: label {lab}')
    return errs


# ---------------------------------------------------------------- generators

def gen_score(rng, style):
    if style == 'zero':
        return 0.0
    if style == 'neg':
        return -rng.randint(0, 32) / 8.0
    if style == 'few':
        return float(rng.choice([0, 0, -1, -2]))
    if style == 'inf' and rng.random() < 0.15:
        return NINF
    if style == 'big':
        return float(rng.choice([rng.randint(-2000, 2000), rng.randint(-10, 10)]))
    return rng.randint(-32, 32) / 8.0


def gen(rng, cyclic=None, eps=None, n=None, labels=None, score=None, dead=None, arcs=None,
        self_loops=None, allow_empty=True, topo=True, connected=False, max_n=9):
    """A random valid FSA. topo: acyclic ones are top-sorted by state number.
    Non-connected by default: dead ends and unreachable states are kept."""
    if allow_empty and rng.random() < 0.06:
        return F(0, [])
    if cyclic is None:
        cyclic = rng.random() < 0.4
    if n is None:
        n = rng.choice([2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9])
        n = min(n, max_n)
    if labels is None:
        labels = rng.choice([1, 2, 2, 3, 5])
    if score is None:
        score = rng.choice(['norm', 'norm', 'neg', 'few'])
    if eps is None:
        eps = rng.choice([0.0, 0.0, 0.2, 0.5])
    if arcs is None:
        arcs = int(n * rng.choice([0.7, 1.2, 1.6, 2.2, 3]))
    if self_loops is None:
        self_loops = cyclic and rng.random() < 0.5
    final = n - 1
    out = []

    def lab(dst, src):
        if dst == final:
            return -1
        if rng.random() < eps:
            return 0
        return rng.randint(1, labels)
    if connected or rng.random() < 0.8:
        # a backbone so that most generated FSAs accept something
        cur = 0
        while cur != final:
            nxt = rng.randint(cur + 1, min(final, cur + 1 + rng.choice([0, 0, 1, 2])))
            out.append((cur, nxt))
            cur = nxt
    for _ in range(arcs):
        if cyclic:
            s, d = rng.randrange(n - 1), rng.randrange(n)
            if s == d and not self_loops:
                continue
        else:
            s = rng.randrange(n - 1)
            d = rng.randint(s + 1, n - 1)
        out.append((s, d))
        if rng.random() < 0.15:
            out.append((s, d))
    if connected:
        # give every state a way in from and a way out to
        for s in range(1, n - 1):
            if not any(d == s and a < s for a, d in out):
                out.append((rng.randrange(s), s))
            if not any(a == s and d > s for a, d in out):
                out.append((s, rng.randint(s + 1, n - 1)))
    if not out:
        out.append((0, final if n == 2 else rng.randint(1, final)))
    res = [(s, d, lab(d, s), gen_score(rng, score)) for s, d in out]
    rng.shuffle(res)
    res.sort(key=lambda a: a[0])
    if n >= 2:
        # an Fsa made from a plain arc tensor has max(dest)+1 states
        pass
    f = F(n, res)
    if not topo and not cyclic:
        f = permute(rng, f)
    return f


def permute(rng, f):
    """Renumbers the inner states randomly (start and final stay)."""
    if f.n <= 3:
        return f
    inner = list(range(1, f.n - 1))
    rng.shuffle(inner)
    m = [0] + inner + [f.n - 1]
    arcs = [(m[s], m[d], l, w) for s, d, l, w in f.arcs]
    arcs.sort(key=lambda a: a[0])
    return F(f.n, arcs)


def arc_sorted(f):
    return F(f.n, sorted(f.arcs, key=lambda a: (a[0], a[2] & 0xffffffff, a[1])))


def single_k2(f):
    """k2.Fsa of one FSA. Goes through a one-member FsaVec when the arc tensor
    form could not express it (states without arcs at the end)."""
    if (f.arcs and max(a[1] for a in f.arcs) == f.n - 1 and
                    any(a[2] == -1 for a in f.arcs)):
        return to_k2(f)
    return vec_to_k2([f])[0]


# ---------------------------------------------------------------- graph facts

def accessible(f):
    seen = [False] * f.n
    if not f.n:
        return seen
    lv = f.leaving()
    st = [0]
    seen[0] = True
    while st:
        s = st.pop()
        for i in lv[s]:
            d = f.arcs[i][1]
            if not seen[d]:
                seen[d] = True
                st.append(d)
    return seen


def coaccessible(f):
    seen = [False] * f.n
    if not f.n:
        return seen
    en = f.entering()
    st = [f.final]
    seen[f.final] = True
    while st:
        s = st.pop()
        for i in en[s]:
            d = f.arcs[i][0]
            if not seen[d]:
                seen[d] = True
                st.append(d)
    return seen


def is_acyclic(f, ignore_self_loops=False, only=None):
    """only: restrict to arcs for which only(arc)."""
    indeg = [0] * f.n
    lv = [[] for _ in range(f.n)]
    for a in f.arcs:
        if only and not only(a):
            continue
        if a[0] == a[1]:
            if ignore_self_loops:
                continue
            return False
        lv[a[0]].append(a[1])
        indeg[a[1]] += 1
    st = [s for s in range(f.n) if indeg[s] == 0]
    k = 0
    while st:
        s = st.pop()
        k += 1
        for d in lv[s]:
            indeg[d] -= 1
            if indeg[d] == 0:
                st.append(d)
    return k == f.n


def is_top_sorted(f):
    return all(a[0] < a[1] for a in f.arcs)


def is_arc_sorted(f):
    """By (label as unsigned, dest state) as documented in fsa.h operator<."""
    return all(x[0] != y[0] or (x[2] & 0xffffffff, x[1]) <= (y[2] & 0xffffffff, y[1])
               for x, y in zip(f.arcs, f.arcs[1:]))


# ---------------------------------------------------------------- semirings

def logadd(a, b):
    if a == NINF:
        return b
    if b == NINF:
        return a
    m = max(a, b)
    return m + math.log1p(math.exp(min(a, b) - m))


PLUS = {'max': max, 'log': logadd}


def logsum(xs):
    xs = [x for x in xs]
    if not xs:
        return NINF
    m = max(xs)
    if m == NINF:
        return NINF
    return m + math.log(sum(math.exp(x - m) for x in xs))


# ---------------------------------------------------------------- languages

def eps_close(f, vec, sr, lv):
    """Adds epsilon transitions to a state->weight map. Tropical: relaxes to a
    fixed point (no positive epsilon cycle). Log: acyclic epsilon arcs only."""
    if sr == 'max':
        vec = dict(vec)
        work = list(vec)
        it = 0
        while work:
            it += 1
            if it > 20000:
                raise RuntimeError('positive epsilon cycle')
            s = work.pop()
            for i in lv[s]:
                a = f.arcs[i]
                if a[2] == 0:
                    w = vec[s] + a[3]
                    if w > vec.get(a[1], NINF):
                        vec[a[1]] = w
                        work.append(a[1])
        return vec
    # log: sum over epsilon paths by path expansion (epsilon subgraph acyclic)
    out = dict(vec)
    cur = dict(vec)
    it = 0
    while cur:
        it += 1
        if it > f.n + 1:
            raise RuntimeError('epsilon cycle in the log semiring')
        nxt = {}
        for s, w in cur.items():
            for i in lv[s]:
                a = f.arcs[i]
                if a[2] == 0:
                    nxt[a[1]] = logadd(nxt.get(a[1], NINF), w + a[3])
        for s, w in nxt.items():
            out[s] = logadd(out.get(s, NINF), w)
        cur = nxt
    return out


def lang(f, sr, maxlen=6, cap=3000, eps=False, sym=None):
    """Map string (tuple of labels, final -1 dropped) -> total weight, for all
    strings up to the returned length. eps: label 0 is epsilon. sym(i): symbol
    of arc i (default its label). -inf-weighted strings are dropped."""
    out = {}
    if f.n == 0:
        return out, 10**9
    plus = PLUS[sr]
    lv = f.leaving()
    co = coaccessible(f)
    layer = {(): {0: 0.0}}
    if eps:
        layer = {(): eps_close(f, layer[()], sr, lv)}
    L = 0
    while True:
        nxt = {}
        for s, vec in layer.items():
            fin = NINF
            for st, w in vec.items():
                for i in lv[st]:
                    a = f.arcs[i]
                    x = w + a[3]
                    if x == NINF:
                        continue
                    if a[1] == f.final:
                        fin = plus(fin, x)
                        continue
                    if not co[a[1]] or (eps and a[2] == 0):
                        continue
                    t = s + ((a[2] if sym is None else sym(i)),)
                    d = nxt.setdefault(t, {})
                    d[a[1]] = plus(d[a[1]], x) if a[1] in d else x
            if fin != NINF:
                out[s] = fin
        if eps:
            nxt = {t: eps_close(f, v, sr, lv) for t, v in nxt.items()}
        if not nxt:
            return out, 10**9
        if L == maxlen or len(nxt) + len(out) > cap:
            return out, L
        L += 1
        layer = nxt


def score_string(f, s, sr, eps=False, sym=None):
    """Weight the FSA gives to one label string (without the final -1)."""
    if f.n == 0:
        return NINF
    plus = PLUS[sr]
    lv = f.leaving()
    vec = {0: 0.0}
    if eps:
        vec = eps_close(f, vec, sr, lv)
    for c in s:
        nxt = {}
        for st, w in vec.items():
            for i in lv[st]:
                a = f.arcs[i]
                if a[1] != f.final and (a[2] if sym is None else sym(i)) == c and not (eps and a[2] == 0):
                    x = w + a[3]
                    nxt[a[1]] = plus(nxt[a[1]], x) if a[1] in nxt else x
        vec = eps_close(f, nxt, sr, lv) if eps else nxt
    fin = NINF
    for st, w in vec.items():
        for i in lv[st]:
            a = f.arcs[i]
            if a[1] == f.final:
                fin = plus(fin, w + a[3])
    return fin


def lang_diff(A, LA, B, LB, tol=0.0):
    """First difference between two languages, up to the length both cover."""
    L = min(LA, LB)
    keys = sorted({k for k in A if len(k) <= L} | {k for k in B if len(k) <= L},
                  key=lambda k: (len(k), repr(k)))
    for k in keys:
        a, b = A.get(k, NINF), B.get(k, NINF)
        if a == b:
            continue
        if a == NINF or b == NINF or abs(a - b) > tol + 1e-5 * tol * max(abs(a), abs(b)):
            return k, a, b
    return None


def check_same_lang(ctx, want, got, sr, key, eps=False, tol=None, maxlen=6, msg=''):
    A, LA = lang(want, sr, maxlen, eps=eps)
    B, LB = lang(got, sr, maxlen, eps=eps)
    d = lang_diff(A, LA, B, LB, (0.0 if sr == 'max' else 2e-3) if tol is None else tol)
    ctx.ok(d is None, key, f'{msg} [{sr}]: string {d and d[0]}: want {d and d[1]} got {d and d[2]}',
           want=want, got=got)
    ctx.count('strings', len(A))
    return A


def paths(f, cap=20000):
    """All complete paths (lists of arc indexes) of an acyclic FSA, or None if
    there are more than cap."""
    if f.n == 0:
        return []
    lv = f.leaving()
    co = coaccessible(f)
    out = []
    st = [(0, ())]
    while st:
        s, p = st.pop()
        if s == f.final:
            out.append(p)
            if len(out) > cap:
                return None
            continue
        for i in lv[s]:
            if co[f.arcs[i][1]]:
                st.append((f.arcs[i][1], p + (i,)))
    out.sort()
    return out


def forward(f, sr, dtype=float):
    """alpha per state for a top-sorted FSA (python double precision)."""
    a = [NINF] * f.n
    if f.n:
        a[0] = 0.0
    plus = PLUS[sr]
    for s, d, l, w in sorted(f.arcs, key=lambda x: x[0]):
        a[d] = plus(a[d], a[s] + w)
    return a


def backward(f, sr):
    b = [NINF] * f.n
    if f.n:
        b[-1] = 0.0
    plus = PLUS[sr]
    for s, d, l, w in sorted(f.arcs, key=lambda x: -x[0]):
        b[s] = plus(b[s], b[d] + w)
    return b


# ---------------------------------------------------------------- workloads

def gen_batch(rng, single_prob=0.35, kmax=5, empty_batch=False, **kw):
    """(list of F, is_vec)."""
    if rng.random() < single_prob:
        return [gen(rng, allow_empty=False, **kw)], False
    k = rng.randint(0 if empty_batch else 1, kmax)
    return [gen(rng, **kw) for _ in range(k)], True


def build(fs, is_vec):
    return vec_to_k2(fs) if is_vec else single_k2(fs[0])


def uids(fs):
    """Global arc ids per member, as k2 numbers arcs."""
    out, o = [], 0
    for f in fs:
        out.append(list(range(o, o + len(f.arcs))))
        o += len(f.arcs)
    return out


def split(vals, fs):
    """Splits a flat per-arc list by member."""
    out, o = [], 0
    for f in fs:
        out.append(vals[o:o + len(f.arcs)])
        o += len(f.arcs)
    return out


def check_iso(ctx, src, dst, ids, base, key, keep=None, state_map=None):
    """dst's arcs are exactly the kept arcs of src (ids: source arc of each
    output arc), under an injective state renumbering fixing start and final.
    Exact for any graph, cyclic or not. Returns the state map."""
    want = set(range(len(src.arcs))) if keep is None else set(keep)
    loc = [i - base for i in ids]
    ctx.eq(len(loc), len(dst.arcs), key, 'one id per arc')
    ctx.eq(sorted(loc), sorted(want), key, 'output arcs are not exactly the expected input arcs',
           src=src, dst=dst)
    m = dict(state_map or {})
    inv = {v: k for k, v in m.items()}

    def tie(a, b):
        if m.setdefault(a, b) != b or inv.setdefault(b, a) != a:
            ctx.fail(key, f'states are not renumbered consistently: {a}->{m[a]}/{b}', src=src, dst=dst)
    if dst.n:
        tie(0, 0)
        tie(src.final, dst.final)
    for j, i in enumerate(loc):
        a, b = src.arcs[i], dst.arcs[j]
        tie(a[0], b[0])
        tie(a[1], b[1])
        ctx.ok(a[2] == b[2] and (a[3] == b[3]), key, f'label/score of output arc {j}: {b} from {a}',
               src=src, dst=dst)
    return m


def check_valid(ctx, fsa, key='valid'):
    e = structure_errors(fsa)
    ctx.ok(not e, key, f'output is not a valid FSA: {e[:3]}')


def check_push(ctx, f, g, sr, push, key):
    """The weight so far is what all the arcs of the input with that prefix have."""
    lf, lg = f.leaving(), g.leaving()
    todo = [(0, {0: 0.0}, 0.0)]
    for _ in range(200):
        if not todo:
            return
        s, cur, w = todo.pop()
        for i in lg[s]:
            a = g.arcs[i]
            to = {}
            for q, v in cur.items():
                for j in lf[q]:
                    b = f.arcs[j]
                    if b[2] == a[2]:
                        to.setdefault(b[1], []).append(v + b[3])
            to = {q: max(v) if sr == 'max' else logsum(v) for q, v in to.items()}
            if not to:
                return  # decided elsewhere
            want = max(to.values()) if push == 0 else logsum(list(to.values()))
            ctx.close(w + a[3], want, key + '-push', f'weight up to and with arc {i}', tol=2e-3, out=g)
            todo.append((a[1], to, w + a[3]))
