"""A catalogue of public operations on generated arguments, shared by the checks
that compare executions with each other (repetition, memory contents, layouts,
threads, aliasing). build(seed) makes the same operation and arguments every
time; the layout number only changes how the arguments lie in memory."""
import hashlib
import random

import torch
import k2
import k2.ragged as k2r
from k2.nbest import whole_lattice_rescoring, generate_nbest_list
from k2.rnnt_loss import get_rnnt_logprobs_joint, get_rnnt_prune_ranges_deprecated, get_hat_logprobs_pruned
from k2v import fsam, rag
from k2v.canon import canon
from k2v.fsam import F

I32, I64, F32, F64 = torch.int32, torch.int64, torch.float32, torch.float64


class Env:
    def __init__(self, seed, lay=0, grad=None):
        self.rng = random.Random(f'ops/{seed}')
        self.lr = random.Random(f'lay/{seed}/{lay}') if lay else None
        self.g = torch.Generator().manual_seed(self.rng.randrange(2 ** 31))
        self.args = []          # (name, object) of every argument
        self.leaves = []        # tensors whose gradient is part of the result
        self.want_grad = self.rng.random() < .5 if grad is None else grad
        # 'same': an argument itself may be returned; True: a view of one
        self.shares = False
        self.inplace = False    # documented to change an argument
        self.floats = False     # float tensors given strided: rounding may differ

    # --- layout
    def pick(self, *xs):
        return self.lr.choice(xs) if self.lr else 'plain'

    def offset(self, t):
        """The same contents as a contiguous slice of a bigger tensor."""
        n = self.lr.randint(1, 7)
        big = torch.empty((n + t.shape[0] + self.lr.randint(0, 5),) + tuple(t.shape[1:]), dtype=t.dtype)
        if big.dtype.is_floating_point:
            big.fill_(self.lr.choice([float('nan'), 3e38, -7.0]))
        elif big.dtype != torch.bool:
            big.fill_(self.lr.choice([-1, 2 ** 30, 5]))
        v = big[n:n + t.shape[0]]
        v.copy_(t)
        return v

    def strided(self, t):
        d = self.lr.randrange(t.dim())
        shape = list(t.shape)
        shape[d] = shape[d] * 2 + 1
        big = torch.zeros(shape, dtype=t.dtype)
        v = big.narrow(d, 1, 2 * t.shape[d])[tuple([slice(None)] * d + [slice(0, None, 2)])] if t.shape[d] else t
        v.copy_(t)
        return v

    def t(self, data, dtype=None, strided=False, name='t', grad=False):
        x = data if isinstance(data, torch.Tensor) else torch.tensor(data, dtype=dtype)
        if dtype is not None:
            x = x.to(dtype)
        x = x.detach().clone()
        if x.dim():
            how = self.pick('plain', 'offset', 'offset', *(['strided', 'strided'] if strided else []))
            if how == 'offset':
                x = self.offset(x)
            elif how == 'strided':
                x = self.strided(x)
                self.floats = True
        if grad and self.want_grad:
            x.requires_grad_(True)
            self.leaves.append((name, x))
        self.args.append((name, x))
        return x

    def randn(self, *shape, dtype=F32, name='x', strided=True, grad=True):
        return self.t(torch.randn(*shape, generator=self.g, dtype=F64).to(dtype), strided=strided, name=name, grad=grad)

    # --- ragged
    def rag(self, axes=None, dt=None, nested=None, name='r', **kw):
        if nested is None:
            nested, axes, dt = rag.gen_nested(self.rng, axes=axes, dt=dt, **kw)
        how = self.pick('plain', 'slice', 'member', 'values')
        if how == 'slice':
            pre, _, _ = rag.gen_nested(self.lr, axes=axes, dt=dt)
            post, _, _ = rag.gen_nested(self.lr, axes=axes, dt=dt)
            r = rag.make(pre + nested + post, axes, dt)[len(pre):len(pre) + len(nested)]
        elif how == 'member' and axes <= 3:
            pre, _, _ = rag.gen_nested(self.lr, axes=axes, dt=dt)
            r = rag.make([pre, nested, pre], axes + 1, dt)[1]
        elif how == 'values':
            p = rag.make(nested, axes, dt)
            r = k2.RaggedTensor(p.shape, self.offset(p.values))
        else:
            r = rag.make(nested, axes, dt)
        self.args.append((name, r))
        return r

    # --- FSAs
    def fsa(self, fs=None, vec=None, attrs=True, grad=True, name='fsa', **kw):
        r = self.rng
        if fs is None:
            if vec is None:
                vec = r.random() < .65
            fs = [fsam.gen(r, **kw) for _ in range(r.randint(1, 4))] if vec else [
                fsam.gen(r, allow_empty=False, **kw)]
        else:
            vec = len(fs) != 1 if vec is None else vec
        o = self._lay_fsa(fs, vec)
        arcs = [a for f in fs for a in f.arcs]
        n = len(arcs)
        if attrs == 'float':
            o.fa = self._attr(torch.tensor([r.randint(-8, 8) / 4 for _ in arcs], dtype=F32))
        elif attrs:
            k = 0 if attrs == 'aux' else r.random()
            if k < .3:
                o.aux_labels = self._attr(torch.tensor([-1 if a[2] == -1 else r.randint(0, 5) for a in arcs], dtype=I32))
            elif k < .5:
                o.aux_labels = rag.make([[-1] if a[2] == -1 else [r.randint(1, 5) for _ in range(r.choice([0, 1, 1, 2]))]
                                         for a in arcs], 2, 'i')
            if r.random() < .4 and attrs != 'aux':
                o.fa = self._attr(torch.tensor([r.randint(-8, 8) / 4 for _ in arcs], dtype=F32))
            if r.random() < .3 and attrs != 'aux':
                o.ia = self._attr(torch.tensor([r.randint(1, 99) for _ in arcs], dtype=I32))
                if r.random() < .5:
                    o.ia_filler = -7
            if r.random() < .25 and attrs != 'aux':
                o.ra = rag.make([[r.randint(1, 9) for _ in range(r.choice([0, 1, 2]))] for _ in arcs], 2, 'i')
            if r.random() < .2:
                o.note = 'x'
        if grad and self.want_grad:
            if r.random() < .7:
                o.scores = torch.tensor([a[3] for a in arcs], dtype=F32)
                o.requires_grad_(True)
                self.leaves.append((name, o.scores))
            if hasattr(o, 'fa') and r.random() < .6:
                o.fa.requires_grad_(True)
                self.leaves.append((name + '.fa', o.fa))
        del n
        self.args.append((name, o))
        self.fs = fs
        return o

    def _attr(self, t):
        return self.offset(t) if self.lr and t.shape[0] and self.lr.random() < .5 else t

    def _lay_fsa(self, fs, vec):
        how = self.pick('plain', 'offset', 'indexed', 'clone')
        if how == 'indexed' and not vec:
            return fsam.vec_to_k2([fsam.gen(self.lr), fs[0], fsam.gen(self.lr)])[1]
        if how == 'indexed':
            o = fsam.vec_to_k2([fsam.gen(self.lr)] + fs)
            return k2.index_fsa(o, torch.arange(1, len(fs) + 1, dtype=I32))
        o = fsam.build(fs, vec)
        if how == 'offset':
            t = k2.to_tensor(o)
            f = fs[0]
            if vec or (f.arcs and max(a[1] for a in f.arcs) == f.n - 1 and any(a[2] == -1 for a in f.arcs)):
                o = k2.Fsa(self.offset(t))
        elif how == 'clone':
            o = o.clone()
        return o

    def acyclic(self, **kw):
        kw.setdefault('vec', True)
        return self.fsa(cyclic=False, topo=True, eps=kw.pop('eps', 0.0), **kw)


OPS = {}


def op(w=1):
    def deco(f):
        OPS[f.__name__[2:]] = (f, w)
        return f
    return deco


# ------------------------------------------------------------- FSA operations

@op()
def o_connect(e):
    a = e.fsa()
    e.shares = 'same'
    return lambda: k2.connect(a)


@op()
def o_top_sort(e):
    a = e.fsa(cyclic=False, topo=False)
    return lambda: k2.top_sort(a)


@op()
def o_arc_sort(e):
    a = e.fsa()
    e.shares = 'same'
    m = e.rng.random() < .5
    return lambda: k2.arc_sort(a, ret_arc_map=m)


@op()
def o_determinize(e):
    a = e.fsa(cyclic=False, eps=0.0, topo=True, connected=True, max_n=6, grad=False)
    e.shares = 'same'
    wt = e.rng.choice([k2.DeterminizeWeightPushingType.kTropicalWeightPushing,
                       k2.DeterminizeWeightPushingType.kLogWeightPushing,
                       k2.DeterminizeWeightPushingType.kNoWeightPushing])
    return lambda: k2.determinize(a, wt)


@op(2)
def o_remove_epsilon(e):
    a = e.fsa(cyclic=e.rng.random() < .3, eps=.4, score='neg', max_n=6)
    e.shares = 'same'
    f = e.rng.choice([k2.remove_epsilon, k2.remove_epsilon_and_add_self_loops])
    return lambda: f(a)


@op()
def o_self_loops(e):
    f = e.rng.choice([k2.add_epsilon_self_loops, k2.remove_epsilon_self_loops])
    a = e.fsa(eps=.3)
    return lambda: f(a)


@op()
def o_reverse(e):
    a = e.fsa()
    return lambda: k2.reverse(a)


@op()
def o_invert(e):
    a = e.fsa(attrs=e.rng.choice(['aux', True]))
    m = e.rng.random() < .3
    e.shares = 'same'
    return lambda: k2.invert(a, ret_arc_map=True) if m else k2.invert(a)


@op()
def o_closure(e):
    a = e.fsa(vec=False)
    return lambda: k2.closure(a)


@op()
def o_union(e):
    a = e.fsa(vec=True, allow_empty=False)
    return lambda: k2.union(a)


@op(2)
def o_intersect(e):
    r = e.rng
    eps = r.choice([0, .3])
    a = e.fsa(name='a', vec=False, eps=eps, max_n=5)
    b = e.fsa(name='b', vec=False, eps=eps, max_n=5, attrs='float')
    ts = r.random() < .6
    return lambda: k2.intersect(k2.arc_sort(a), k2.arc_sort(b), treat_epsilons_specially=ts)


@op(2)
def o_intersect_device(e):
    r = e.rng
    sm = r.random() < .5
    fa = [fsam.gen(r, eps=0.0, max_n=5) for _ in range(r.randint(1, 3))]
    fb = [fsam.gen(r, eps=0.0, max_n=5) for _ in range(r.randint(1, 3))]
    if sm:
        fa = [fsam.arc_sorted(f) for f in fa]
    a = e.fsa(fa, True, name='a')
    b = e.fsa(fb, True, name='b', attrs='float')
    m = e.t([r.randrange(len(fa)) for _ in fb], I32, name='map')
    mm = r.random() < .5
    return lambda: k2.intersect_device(a, b, m, sorted_match_a=sm, ret_arc_maps=mm)


@op()
def o_compose(e):
    r = e.rng
    a = e.fsa(name='a', vec=False, eps=.2, max_n=5, attrs=r.choice(['float', 'aux']))
    b = e.fsa(name='b', vec=False, eps=.2, max_n=5, attrs='float')
    if not hasattr(a, 'aux_labels') or not isinstance(a.aux_labels, torch.Tensor):
        a.aux_labels = torch.tensor([-1 if x == -1 else (x % 3) + 1 for x in a.labels.tolist()], dtype=I32)
    il = r.choice([None, 'inner'])
    return lambda: k2.compose(a, k2.arc_sort(b), inner_labels=il)


@op()
def o_shortest_path(e):
    a = e.acyclic(score=e.rng.choice(['norm', 'few', 'zero']))
    d = e.rng.random() < .5
    return lambda: k2.shortest_path(a, d)


@op(3)
def o_scores(e):
    r = e.rng
    a = e.acyclic(score=r.choice(['norm', 'inf', 'neg']))
    log, dbl = r.random() < .6, r.random() < .5
    which = r.choice(['tot', 'fwd', 'bwd', 'post', 'all'])
    

    def fn():
        o = {}
        if which in ('tot', 'all'):
            o['tot'] = a.get_tot_scores(use_double_scores=dbl, log_semiring=log)
        if which in ('fwd', 'all'):
            o['fwd'] = a.get_forward_scores(dbl, log)
        if which in ('bwd', 'all'):
            o['bwd'] = a.get_backward_scores(dbl, log)
        if which in ('post', 'all'):
            o['post'] = a.get_arc_post(dbl, log)
        return o
    return fn


@op()
def o_random_paths(e):
    r = e.rng
    a = e.acyclic(connected=True)
    d, n = r.random() < .5, r.randint(1, 20)
    return lambda: k2.random_paths(a, d, n)


@op()
def o_prune_post(e):
    r = e.rng
    a = e.acyclic(score='norm')
    d, t = r.random() < .5, r.choice([1e-4, .05, .3, .9])
    return lambda: k2.prune_on_arc_post(a, t, d)


@op()
def o_expand_ragged(e):
    a = e.fsa()
    m = e.rng.random() < .5
    e.shares = 'same'
    return lambda: k2.expand_ragged_attributes(a, ret_arc_map=m)


@op()
def o_replace(e):
    r = e.rng
    a = e.fsa(name='src', vec=True, labels=5, cyclic=False, attrs=r.choice([True, 'float']))
    b = e.fsa(name='index', vec=True, cyclic=False, attrs='float')
    s, m = r.randint(1, 4), r.random() < .5
    return lambda: k2.replace_fsa(a, b, s, ret_arc_map=m)


@op()
def o_index_fsa(e):
    a = e.fsa(vec=True)
    n = len(e.fs)
    i = e.t([e.rng.randrange(n) for _ in range(e.rng.randint(1, 4))], I32, name='i')
    return lambda: k2.index_fsa(a, i)


@op()
def o_member(e):
    a = e.fsa(vec=True)
    i = e.rng.randrange(len(e.fs))
    e.shares = True
    return lambda: a[i]


@op()
def o_cat_stack(e):
    r = e.rng
    k = r.choice(['float', 'aux', False])
    xs = [e.fsa(name=f's{i}', vec=True, attrs=k) for i in range(r.randint(1, 3))]
    ys = [e.fsa(name=f'y{i}', vec=False, attrs=k) for i in range(r.randint(1, 3))]
    w = r.random() < .5
    return (lambda: k2.cat(xs)) if w else (lambda: k2.create_fsa_vec(ys))


@op()
def o_clone(e):
    a = e.fsa()
    return lambda: a.clone()


@op()
def o_text(e):
    r = e.rng
    a = e.fsa(vec=False)
    w = r.choice(['str', 'ofst', 'simple', 'tensor', 'dict'])
    e.shares = w in ('tensor', 'dict')

    def fn():
        if w == 'str':
            return k2.to_str(a)
        if w == 'ofst':
            return k2.to_str(a, openfst=True)
        if w == 'simple':
            return k2.to_str_simple(a)
        if w == 'tensor':
            return k2.to_tensor(a)
        return a.as_dict()
    return fn


@op()
def o_properties(e):
    a = e.fsa()
    e.shares = True

    def fn():
        o = [a.properties, a.properties_str]
        if len(a.shape) == 3:
            o += [a._get_dest_states(), a._get_incoming_arcs()]
        return o
    return fn


@op()
def o_batches(e):
    a = e.acyclic()
    e.shares = True
    return lambda: [a._get_state_batches(), a._get_dest_states(), a._get_incoming_arcs(),
                    a._get_entering_arc_batches(), a._get_leaving_arc_batches(), a._get_entering_arcs(True)]


@op()
def o_graphs(e):
    r = e.rng
    w = r.choice(['linear_fsa', 'linear_fst', 'ctc_graph', 'ctc_topo', 'trivial', 'leven', 'self_loops', 'linear_r'])
    sy = [[r.randint(1, 4) for _ in range(r.randint(0, 5))] for _ in range(r.randint(1, 4))]
    m = r.random() < .5
    if w == 'linear_fsa':
        return lambda: k2.linear_fsa(sy)
    if w == 'linear_fst':
        return lambda: k2.linear_fst(sy, sy)
    if w == 'ctc_topo':
        n = r.randint(0, 6)
        return lambda: k2.ctc_topo(n, m)
    if w == 'trivial':
        n = r.randint(1, 6)
        return lambda: k2.trivial_graph(n)
    x = e.rag(nested=sy, axes=2, dt='i')
    if w == 'ctc_graph':
        return lambda: k2.ctc_graph(x, m)
    if w == 'leven':
        return lambda: k2.levenshtein_graph(x, ins_del_score=-.5)
    if w == 'linear_r':
        return lambda: k2.linear_fsa(x)
    return lambda: k2.linear_fsa_with_self_loops(k2.linear_fsa(x))


@op()
def o_levenshtein(e):
    r = e.rng
    refs = [[r.randint(1, 3) for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 3))]
    hyps = [[r.randint(1, 3) for _ in range(r.randint(1, 5))] for _ in range(r.randint(1, 3))]
    a = k2.levenshtein_graph(refs)
    b = k2.levenshtein_graph(hyps)
    m = e.t([r.randrange(len(refs)) for _ in hyps], I32, name='map')
    e.args += [('refs', a), ('hyps', b)]
    s = r.random() < .5
    return lambda: k2.levenshtein_alignment(k2.arc_sort(a) if s else a, b, m, sorted_match_ref=s)


@op()
def o_maps(e):
    r = e.rng
    n = r.randint(1, 9)
    a = e.t([r.randint(-1, 8) for _ in range(n)], I32, name='a')
    b = e.t([r.randint(-1, n - 1) for _ in range(r.randint(0, 9))], I32, name='b')
    return lambda: k2.compose_arc_maps(a, b)


# --------------------------------------------------------------------- dense

def graph(e, C, vec, n, name='graph', attrs=True):
    r = e.rng
    fs = []
    for _ in range(n):
        if r.random() < .5:
            labs = [r.randint(1, C - 1) for _ in range(r.randint(1, 4))]
            f = fsam.any_from_k2(k2.ctc_graph([labs]))[0]
        else:
            f = fsam.gen(r, labels=C - 1, eps=.2, cyclic=r.random() < .6, max_n=6, allow_empty=r.random() < .2)
            if not f.n and not vec:
                f = F(2, [(0, 0, 1, 0.0), (0, 1, -1, 0.0)])
        fs.append(fsam.arc_sorted(f))
    return e.fsa(fs, vec, name=name, attrs=attrs)


def densev(e, C, n, T=None, strided=False):
    r = e.rng
    T = T or r.choice([1, 2, 4, 9])
    x = e.t(torch.randn(n, T, C, generator=e.g).log_softmax(-1), strided=strided, name='log_probs', grad=True)
    ds = sorted([T] + [r.randint(1, T) for _ in range(n - 1)], reverse=True)
    seg = e.t([[i, 0, d] for i, d in enumerate(ds)], I32, name='segments')
    return x, seg, T


@op(2)
def o_intersect_dense(e):
    r = e.rng
    C, n = r.randint(2, 5), r.randint(1, 3)
    g = graph(e, C, True, n)
    x, seg, _ = densev(e, C, n, strided=True)
    beam = r.choice([2.0, 8.0, 1e6])
    names = r.choice([{}, {'seqframe_idx_name': 'sf', 'frame_idx_name': 'ff'}])

    def fn():
        d = k2.DenseFsaVec(x, seg)
        return d, k2.intersect_dense(g, d, beam, **names), k2.convert_dense_to_fsa_vec(d) if not x.requires_grad else 0
    return fn


@op(4)
def o_intersect_pruned(e):
    r = e.rng
    C, n = r.randint(2, 5), r.randint(1, 3)
    shared = r.random() < .5
    g = graph(e, C, True, 1 if shared else n)
    x, seg, _ = densev(e, C, n, T=r.choice([1, 3, 9, 15, 33, 70, 100]), strided=True)
    sb, ob = r.choice([1e6, 20, 8, 3]), r.choice([1e6, 8, 3])
    ap = r.random() < .4
    mx = r.choice([10000, 30, 4])

    def fn():
        d = k2.DenseFsaVec(x, seg)
        return k2.intersect_dense_pruned(g, d, sb, ob, r.randint(0, 2) * 0 + 1, mx, allow_partial=ap,
                                         seqframe_idx_name='sf', frame_idx_name='ff')
    return fn


@op(2)
def o_ctc_loss(e):
    r = e.rng
    C, n = r.randint(3, 6), r.randint(1, 3)
    x, seg, T = densev(e, C, n, T=r.choice([3, 6, 12]))
    sy = [[r.randint(1, C - 1) for _ in range(r.randint(1, 3))] for _ in range(n)]
    red = r.choice(['none', 'sum', 'mean'])
    m = r.random() < .5
    dp = r.choice([0.0, 0.0, .3])
    tl = e.t([len(s) for s in sy], I32, name='lens')

    def fn():
        g = k2.ctc_graph(sy, m)
        return k2.ctc_loss(g, k2.DenseFsaVec(x, seg), output_beam=20., delay_penalty=dp, reduction=red, target_lengths=tl)
    return fn


def word_lattice(e, grad=True):
    r = e.rng
    fs = [fsam.gen(r, cyclic=False, eps=0.0, topo=True, connected=True, allow_empty=False, score='norm', max_n=6)
          for _ in range(r.randint(1, 3))]
    o = e._lay_fsa(fs, True)
    arcs = [a for f in fs for a in f.arcs]
    if r.random() < .5:
        o.aux_labels = e._attr(torch.tensor([-1 if a[2] == -1 else r.randint(0, 3) for a in arcs], dtype=I32))
    else:
        o.aux_labels = rag.make([[-1] if a[2] == -1 else [r.randint(1, 3) for _ in range(r.choice([0, 1, 1, 2]))]
                                 for a in arcs], 2, 'i')
    if grad and e.want_grad:
        o.scores = torch.tensor([a[3] for a in arcs], dtype=F32)
        o.requires_grad_(True)
        e.leaves.append(('lattice', o.scores))
    e.args.append(('lattice', o))
    return o, fs


@op()
def o_mwer(e):
    r = e.rng
    o, fs = word_lattice(e)
    refs = [[r.randint(1, 3) for _ in range(r.randint(1, 3))] for _ in fs]
    red, sc, n = r.choice(['none', 'sum', 'mean']), r.choice([.5, 1.0]), r.choice([2, 5, 20])
    return lambda: k2.mwer_loss(o, refs, nbest_scale=sc, num_paths=n, reduction=red)


@op(2)
def o_nbest(e):
    r = e.rng
    o, fs = word_lattice(e)
    n, sc, k = r.choice([1, 4, 20]), r.choice([.5, 1.0]), r.randint(1, 3)
    d = r.random() < .5
    w = r.choice(['plain', 'total', 'top', 'leven', 'isect', 'list'])

    def fn():
        nb = k2.Nbest.from_lattice(o, n, use_double_scores=d, nbest_scale=sc)
        if w == 'total':
            return nb, nb.total_scores()
        if w == 'top':
            return nb, nb.top_k(k)
        if w == 'leven':
            return nb, nb.build_levenshtein_graphs() if isinstance(o.aux_labels, torch.Tensor) else 0
        if w == 'isect':
            c = o.clone()
            if hasattr(c, 'aux_labels'):
                del c.aux_labels
            return nb, nb.intersect(k2.arc_sort(k2.invert(o))) if isinstance(o.aux_labels, torch.Tensor) else 0
        if w == 'list':
            return generate_nbest_list(o, n)
        return nb
    return fn


@op()
def o_decode(e):
    r = e.rng
    C, n, T = r.randint(3, 5), r.randint(1, 3), r.choice([2, 6, 12])
    x = e.t(torch.randn(n, T, C, generator=e.g).log_softmax(-1), strided=True, name='log_prob')
    ln = e.t(sorted([r.randint(1, T) for _ in range(n)], reverse=True), I32, name='len')
    m = r.random() < .5

    def fn():
        h = k2.ctc_topo(C - 1, m)
        lat = k2.get_lattice(x, ln, h)
        b = k2.one_best_decoding(lat)
        return lat, b, k2.get_aux_labels(b)
    return fn


@op(2)
def o_online(e):
    r = e.rng
    C, n = r.randint(2, 4), r.randint(1, 2)
    g = graph(e, C, True, 1)
    g = g.clone().detach() if hasattr(g, 'detach') else g
    T = r.choice([1, 4, 9])
    chunks = r.randint(1, 3)
    xs = [e.t(torch.randn(n, T, C, generator=e.g).log_softmax(-1), name=f'c{i}') for i in range(chunks)]
    seg = e.t([[i, 0, T] for i in range(n)], I32, name='seg')
    b = r.choice([1e6, 8.0, 3.0])

    def fn():
        it = k2.OnlineDenseIntersecter(g, n, b, b, 1, 1000)
        st = [k2.DecodeStateInfo() for _ in range(n)]
        out = []
        for x in xs:
            lat, st = it.decode(k2.DenseFsaVec(x, seg), st)
            out.append(lat)
        return out
    return fn


# --------------------------------------------------------------------- RNN-T

def bnd(e, B, S, T):
    r = e.rng
    if r.random() < .3:
        return None
    rows = []
    for _ in range(B):
        s1, t1 = r.randint(0, S), r.randint(1, T)
        rows.append([0, 0, s1, t1])
    return e.t(rows, I64, name='boundary')


@op(2)
def o_mutual_info(e):
    r = e.rng
    B, S, T = r.randint(1, 3), r.randint(0, 5), r.randint(1, 6)
    mod = r.random() < .4
    dt = r.choice([F32, F32, F64])
    px = e.randn(B, S, T if mod else T + 1, dtype=dt, name='px', strided=False)
    py = e.randn(B, S + 1, T, dtype=dt, name='py', strided=False)
    bt = bnd(e, B, S, T)
    rg = r.random() < .5
    if r.random() < .3:
        return lambda: k2.joint_mutual_information_recursion([px, px], [py, py], bt)
    return lambda: k2.mutual_information_recursion(px, py, bt, return_grad=rg)


def rnnt_args(e):
    r = e.rng
    kind = r.choice(['regular', 'modified', 'constrained'])
    B, S, C = r.randint(1, 3), r.randint(0, 4), r.randint(2, 5)
    T = r.randint(max(S, 1), 7)
    sy = e.t([[r.randint(1, C - 1) for _ in range(S)] for _ in range(B)] if S else torch.zeros(B, 0), I64, name='symbols')
    bt = None
    if r.random() < .7:
        rows = []
        for _ in range(B):
            t1 = r.randint(1, T)
            rows.append([0, 0, r.randint(0, min(S, t1)), t1])
        bt = e.t(rows, I64, name='boundary')
    return kind, B, S, T, C, sy, bt


@op(3)
def o_rnnt(e):
    r = e.rng
    kind, B, S, T, C, sy, bt = rnnt_args(e)
    w = r.choice(['full', 'simple', 'smoothed', 'pruned', 'ranges', 'hat'])
    red, dp = r.choice(['none', 'mean', 'sum']), r.choice([0.0, 0.0, .2])
    kw = dict(boundary=bt, rnnt_type=kind, reduction=red, delay_penalty=dp)
    if w == 'full':
        x = e.randn(B, T, S + 1, C, name='logits')
        return lambda: k2.rnnt_loss(x, sy, 0, **kw)
    am = e.randn(B, T, C, name='am')
    lm = e.randn(B, S + 1, C, name='lm')
    if w == 'simple':
        return lambda: k2.rnnt_loss_simple(lm, am, sy, 0, return_grad=True, **kw)
    if w == 'smoothed':
        return lambda: k2.rnnt_loss_smoothed(lm, am, sy, 0, .2, .1, return_grad=True, **kw)
    s = r.randint(min(2, S + 1), S + 1)
    b2 = bt if bt is not None else torch.tensor([[0, 0, S, T]] * B)

    def fn():
        _, (gx, gy) = k2.rnnt_loss_simple(lm, am, sy, 0, boundary=b2, rnnt_type=kind, reduction='sum', return_grad=True)
        rg = k2.get_rnnt_prune_ranges(gx, gy, b2, s)
        if w == 'ranges':
            return rg, get_rnnt_prune_ranges_deprecated(gx, gy, b2, s)
        a, l = k2.do_rnnt_pruning(am, lm, rg)
        return rg, k2.rnnt_loss_pruned(torch.tanh(a + l), sy, rg, 0, boundary=b2, rnnt_type=kind, reduction=red,
                                       delay_penalty=dp, use_hat_loss=w == 'hat')
    return fn


@op(2)
def o_rnnt_lattice(e):
    r = e.rng
    B, S, T, C = r.randint(1, 3), r.randint(1, 4), r.randint(1, 5), r.randint(2, 4)
    s = r.randint(1, S + 1)
    x = e.randn(B, T, s, C, name='logits')
    sy = e.t([[r.randint(1, C - 1) for _ in range(S)] for _ in range(B)], I64, name='symbols')
    fr = e.t([r.randint(1, T) for _ in range(B)], I32, name='frames')
    rr = []
    for _ in range(B):
        lo = [0]
        while len(lo) < T:
            lo.append(min(lo[-1] + r.randint(0, s - 1), S + 1 - s))
        rr.append([[v + k for k in range(s)] for v in lo])
    rg = e.t(rr, I32, name='ranges')
    m = r.random() < .4

    def fn():
        arcs, am = k2.pruned_ranges_to_lattice(rg, fr, sy, x.detach())
        return k2.Fsa(arcs), am, m
    return fn


@op(2)
def o_rnnt_decode(e):
    r = e.rng
    V, H = r.randint(2, 4), r.randint(1, 2)
    cfg = k2.RnntDecodingConfig(vocab_size=V, decoder_history_len=H, beam=r.choice([1e6, 5.0]), max_states=r.choice([8, 64]),
                                max_contexts=r.choice([4, 16]))
    k = r.choice(['aux', 'float', False])
    gs = [graph(e, V, False, 1, name=f'g{i}', attrs=k) for i in range(r.randint(1, 3))]
    frames = r.randint(1, 4)
    seed = r.randrange(1 << 30)
    partial = r.random() < .5

    def fn():
        ss = [k2.RnntDecodingStream(g) for g in gs]
        d = k2.RnntDecodingStreams(ss, cfg)
        out = []
        for t in range(frames):
            shape, ctx = d.get_contexts()
            n = shape.numel()
            g = torch.Generator().manual_seed(seed + t)
            d.advance(torch.randn(n, V, generator=g).log_softmax(-1))
            out.append((shape, ctx))
        d.terminate_and_flush_to_streams()
        return out, d.format_output([frames] * len(gs), allow_partial=partial)
    return fn


# -------------------------------------------------------------------- ragged

@op(2)
def o_rag_reduce(e):
    r = e.rng
    x = e.rag(dt=r.choice('iffd'))
    w = r.choice(['sum', 'max', 'min', 'argmax', 'logsumexp', 'normalize_log', 'normalize'])
    if w in ('logsumexp', 'normalize_log', 'normalize') and x.dtype == I32:
        w = 'sum'
    if x.dtype != I32 and e.want_grad and w in ('sum', 'logsumexp', 'normalize', 'normalize_log'):
        x.requires_grad_(True)
        e.leaves.append(('r', x))
    if w == 'sum':
        return lambda: x.sum()
    if w == 'logsumexp':
        return lambda: x.logsumexp()
    if w == 'normalize':
        return lambda: x.normalize(use_log=False)
    if w == 'normalize_log':
        return lambda: x.normalize(use_log=True)
    return lambda: getattr(x, w)(initial_value=-100) if w != 'argmax' else x.argmax()


@op(2)
def o_rag_index(e):
    r = e.rng
    w = r.choice(['tensor', 'tensor', 'ragged', 'slice', 'arange', 'int', 'sum', 'select'])
    x = e.rag(dt=r.choice('iffd'), axes=r.choice([2, 3]), dim0=r.randint(1, 6))
    n = x.dim0
    if w == 'tensor':
        ax = r.randrange(x.num_axes)
        m = x.tot_size(ax)
        sh = x.shape
        if ax == 0:
            idx = [r.randint(-1 if x.num_axes == 2 else 0, n - 1) for _ in range(r.randint(0, 6))]
            idx = [max(i, 0) for i in idx]
        else:
            idx = [i for i in range(m) if r.random() < .6]
        del sh
        i = e.t(idx, I32, name='i')
        return lambda: x.index(i, axis=ax, need_value_indexes=True)
    if w == 'ragged':
        if x.num_axes != 2:
            x = e.rag(dt='i', axes=2, dim0=n)
        k = e.rag(nested=[[r.randrange(n) for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 4))], axes=2, dt='i')
        return lambda: x.index(k)
    if w == 'slice':
        b = r.randint(0, n)
        c = r.randint(b, n)
        e.shares = True
        return lambda: x[b:c]
    if w == 'arange':
        b = r.randint(0, n)
        c = r.randint(b, n)
        e.shares = True
        return lambda: x.arange(0, b, c)
    if w == 'int':
        i = r.randrange(n)
        e.shares = True
        return lambda: x[i]
    t = e.t([r.randint(-9, 9) / 4 for _ in range(8)], F32, name='src', grad=True)
    k = e.rag(nested=[[r.randrange(8) for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 5))], axes=2, dt='i')
    if w == 'sum':
        return lambda: k2r.index_and_sum(t, k)
    return lambda: k2r.index(t.detach(), k, default_value=0.)


@op(2)
def o_rag_misc(e):
    r = e.rng
    w = r.choice(['clone', 'eq', 'leq', 'pad', 'unique', 'cat', 'add', 'remove_axis', 'to', 'str', 'simple', 'sort', 'shape',
                  'compose', 'layer', 'shapeidx', 'list'])
    if w == 'pad':
        x = e.rag(axes=2)
        m, lf = r.choice(['constant', 'replicate']), r.random() < .4
        return lambda: x.pad(m, 5, pad_left=lf)
    if w == 'unique':
        x = e.rag(axes=r.choice([2, 3]), dt='i', vstyle='few')
        return lambda: x.unique(need_num_repeats=True, need_new2old_indexes=True)
    if w == 'cat':
        ax = r.choice([0, 1])
        a = r.choice([2, 3])
        d0 = r.randint(0, 4)
        dt = r.choice('ifd')
        xs = [e.rag(axes=a, dt=dt, dim0=d0 if ax else None, name=f'r{i}') for i in range(r.randint(1, 3))]
        return lambda: k2r.cat(xs, ax)
    if w == 'remove_axis':
        x = e.rag(axes=r.choice([3, 4]))
        ax = r.randrange(x.num_axes)
        e.shares = True   # the values are shared when nothing has to move
        return lambda: x.remove_axis(ax)
    if w in ('eq', 'leq'):
        x = e.rag(dt='i', axes=r.choice([2, 3]))
        c = r.randint(-3, 3)
        return (lambda: x.remove_values_eq(c)) if w == 'eq' else (lambda: x.remove_values_leq(c))
    x = e.rag()
    if w == 'clone':
        return lambda: x.clone()
    if w == 'add':
        v = e.t([r.randint(-5, 5) for _ in range(x.dim0)], x.dtype, name='v')
        if x.num_axes != 2:
            x2 = e.rag(axes=2, dt={I32: 'i', F32: 'f', F64: 'd'}[x.dtype])
            v = e.t([r.randint(-5, 5) for _ in range(x2.dim0)], x.dtype, name='v2')
            return lambda: x2.add(v, 3)
        return lambda: x.add(v, 3)
    if w == 'to':
        dt = r.choice([I32, F32, F64])
        e.shares = dt == x.dtype
        return lambda: x.to(dt)
    if w == 'str':
        return lambda: str(x)
    if w == 'simple':
        return lambda: x.to_str_simple()
    if w == 'list':
        return lambda: x.tolist()
    if w == 'sort':
        d, m = r.random() < .5, r.random() < .5

        def fn():
            y = x.clone()
            mp = y.sort_(descending=d, need_new2old_indexes=m)
            return y, mp
        return fn
    s = x.shape
    e.shares = True
    if w == 'compose':
        y = e.rag(dim0=s.numel())
        return lambda: s.compose(y.shape)
    if w == 'layer':
        i = r.randrange(s.num_axes - 1)
        return lambda: s.get_layer(i)
    if w == 'shapeidx':
        i = e.t([r.randrange(s.dim0) for _ in range(r.randint(0, 4))] if s.dim0 else [], I32, name='i')
        return lambda: s.index(0, i)
    return lambda: [s.row_splits(1), s.row_ids(1), s.tot_sizes(), s.max_size(1)]


# -------------------------------------------------------------------- tensors

@op(2)
def o_tensor(e):
    r = e.rng
    w = r.choice(['select', 'select2', 'add', 'simple', 'sparse', 'swoosh'])
    n = r.randint(1, 9)
    dt = r.choice([I32, F32, F64])
    idx = [r.randint(-1, n - 1) for _ in range(r.randint(0, 12))]
    if w == 'select':
        s = e.t([r.randint(-9, 9) for _ in range(n)], dt, strided=True, name='src', grad=dt != I32)
        i = e.t(idx, I32, name='i')
        return lambda: k2.index_select(s, i, default_value=7)
    if w == 'select2':
        s = e.t(torch.randint(-9, 9, (n, 3), generator=e.g), dt, name='src', grad=dt != I32)
        i = e.t(idx, I32, name='i')
        return lambda: k2.index_select(s, i)
    if w == 'add':
        i = e.t(idx, I32, name='i')
        v = e.t([r.randint(-9, 9) for _ in idx], dt, strided=True, name='v')
        z = torch.arange(n).to(dt)

        def fn():
            o = z.clone()
            k2.index_add(i, v, o)
            return o
        return fn
    if w == 'simple':
        s = e.t([r.randint(-9, 9) for _ in range(n)], dt, strided=True, name='src')
        k = e.rag(nested=[[r.randrange(n) for _ in range(r.randint(0, 3))] for _ in range(r.randint(0, 4))], axes=2, dt='i')
        return lambda: k2.simple_ragged_index_select(e.t(torch.arange(n), I32), k) if s.dtype != I32 \
            else k2.simple_ragged_index_select(s, k)
    if w == 'sparse':
        m = r.randint(0, 6)
        a = e.t([r.randint(0, 4) for _ in range(m)], I32, name='rows')
        b = e.t([r.randint(0, 4) for _ in range(m)], I32, name='cols')
        v = e.t([r.randint(-9, 9) for _ in range(m)], F32, name='v')
        return lambda: k2.create_sparse(a, b, v, size=(5, 5)).to_dense()
    x = e.randn(r.randint(1, 40), name='x')
    f = r.choice([k2.swoosh_l_forward, k2.swoosh_r_forward, k2.swoosh_l_forward_and_deriv, k2.swoosh_r_forward_and_deriv])
    return lambda: f(x.detach())


@op(2)
def o_matching(e):
    r = e.rng
    mt = r.randint(2, 4)
    seqs = [[r.randint(1, mt - 1) if mt > 2 else 1 for _ in range(r.randint(0, 5))] + [mt] for _ in range(r.randint(1, 4))]
    x = e.rag(nested=seqs, axes=2, dt='i', name='tokens')
    n = sum(map(len, seqs))
    sc = e.t([r.randint(-9, 9) / 4 for _ in range(n)], F32, name='scores')
    ct = e.t([r.randint(0, 1) for _ in range(n)], I32, name='counts')
    o = r.randint(2, 5)
    return lambda: k2.get_best_matching_stats(x, sc, ct, mt, 0, mt, o)


NAMES = [n for n, (f, w) in OPS.items() for _ in range(w)]


class Call:
    def __init__(self, name, seed, lay=0, grad=None):
        self.name = name
        self.e = Env(f'{name}/{seed}', lay, grad)
        self.fn = OPS[name][0](self.e)

    def run(self):
        """(result, outcome): outcome is the canonical content of the result
        (or the exception type) and of the gradients it sends to the arguments."""
        try:
            r = self.fn()
        except Exception as ex:
            return None, ('exc', type(ex).__name__)
        return r, (canon(r), self.grads(r))

    def grads(self, r):
        if not self.e.leaves:
            return ()
        ys = []

        def walk(x):
            if isinstance(x, torch.Tensor):
                if x.requires_grad and x.dtype.is_floating_point:
                    ys.append(x)
            elif isinstance(x, k2.RaggedTensor):
                if x.requires_grad:
                    ys.append(x.values)
            elif isinstance(x, k2.Fsa):
                walk(x.scores)
                for n, v in sorted(x.named_tensor_attr(include_scores=False)):
                    walk(v)
            elif isinstance(x, k2.DenseFsaVec):
                walk(x.scores)
            elif isinstance(x, k2.Nbest):
                walk(x.fsa)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for k in sorted(x):
                    walk(x[k])
        walk(r)
        ys = [y for y in ys if y.requires_grad]
        if not ys:
            return ()
        tot = 0
        for k, y in enumerate(ys):
            w = torch.arange(1, y.numel() + 1, dtype=F64).reshape(y.shape).mul(.37).cos()
            tot = tot + (torch.where(torch.isfinite(y), y, torch.zeros((), dtype=y.dtype)).to(F64) * w).sum() * (k + 1)
        for _, t in self.e.leaves:
            (t.values if isinstance(t, k2.RaggedTensor) else t).grad = None
        try:
            tot.backward()
        except Exception as ex:
            return ('exc', type(ex).__name__)
        out = []
        for n, t in self.e.leaves:
            g = t.grad
            out.append((n, canon(g.detach()) if g is not None else None))
        return tuple(out)


def digest(out):
    return hashlib.md5(repr(out).encode()).hexdigest()


def build(seed, lay=0, name=None, grad=None):
    if name is None:
        name = random.Random(f'which/{seed}').choice(NAMES)
    return Call(name, seed, lay, grad)
