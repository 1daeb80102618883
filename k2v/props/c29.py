"""C29: arguments are compared with a deep snapshot taken before the call, after
the call, after back-propagation, and after everything in the result was edited
in place; the call is then repeated and must give the first result again."""
import torch
import k2
from k2v import ops
from k2v.canon import canon


def cache_of(x):
    """Cached results of an Fsa (they may be added to, not changed)."""
    if not isinstance(x, k2.Fsa):
        return {}
    return {k: canon(v) for k, v in x._cache.items() if isinstance(v, (torch.Tensor, k2.RaggedTensor, int))}


def snap(args):
    return [(n, canon(x), getattr(x, '__dict__', {}).get('_properties')) for n, x in args]


def warm(ctx, call):
    """Fills caches of some arguments so that their entries can be watched."""
    r = ctx.rng
    for n, a in call.e.args:
        if isinstance(a, k2.Fsa) and r.random() < .5:
            for f in (lambda: a.get_tot_scores(use_double_scores=r.random() < .5, log_semiring=r.random() < .5),
                      lambda: a.get_arc_post(r.random() < .5, True), lambda: a.properties, lambda: a._get_state_batches(),
                      lambda: a.shape):
                if r.random() < .6:
                    ok = len(a.shape) == 3 and a.properties & k2.fsa_properties.TOPSORTED_AND_ACYCLIC
                    if ok or f.__code__.co_names[:1] != ('a',):
                        try:
                            if ok:
                                f()
                                ctx.count('warmed')
                        except Exception:
                            pass


def tensors(x, out, seen, top=True):
    """Tensors a user can reach from a result and edit."""
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, k2.RaggedTensor):
        out.append(x.values)
    elif isinstance(x, k2.Fsa):
        out.append(x.arcs.values())
        out.append(x.scores)
        for n, v in x.named_tensor_attr(include_scores=False):
            tensors(v, out, seen)
    elif isinstance(x, k2.DenseFsaVec):
        out.append(x.scores)
        out.append(x.duration)
    elif isinstance(x, k2.Nbest):
        tensors(x.fsa, out, seen)
        tensors(getattr(x, 'kept_path', None), out, seen)
    elif isinstance(x, (list, tuple)):
        for y in x:
            tensors(y, out, seen)
    elif isinstance(x, dict):
        for y in x.values():
            tensors(y, out, seen)


def edit(ts):
    n = 0
    for t in ts:
        if not t.numel() or t.is_sparse:
            continue
        with torch.no_grad():
            d = t.detach()
            if d.dtype == torch.bool:
                d.logical_not_()
            elif d.dtype.is_floating_point:
                d.mul_(-3).add_(1.5)
            else:
                d.add_(3)
            n += d.numel()
    return n


def case(ctx):
    call = ops.build(f'{ctx.seed}/{ctx.idx}')
    e = call.e
    ctx.note(op=call.name, seed=f'{ctx.seed}/{ctx.idx}', args=[n for n, _ in e.args])
    warm(ctx, call)
    before = snap(e.args)
    caches = [cache_of(x) for _, x in e.args]

    def intact(when):
        now = snap(e.args)
        for b, a in zip(before, now):
            ctx.ok(a == b, f'argument-changed:{call.name}', f'{b[0]} {when}: {str(b)[:300]} -> {str(a)[:300]}')
        for (n, x), c in zip(e.args, caches):
            d = cache_of(x)
            for k, v in c.items():
                ctx.ok(k not in d or d[k] == v, f'cache-changed:{call.name}', f'{n}: {k} {when}')

    res, out = call.run()
    ctx.sig(call.name, [str(b)[:2000] for b in before])
    ctx.count('op-' + call.name)
    if out[0] == 'exc':
        ctx.count('refused')
        intact('after a refused call')
        return
    intact('after the call')
    if e.leaves:
        ctx.count('grad')
    first = canon(res)
    res2, out2 = call.run()
    ctx.ok(out2 == out, f'second-call:{call.name}', 'the same call gives something else the second time')
    ctx.ok(canon(res) == first, f'sibling-changed:{call.name}', 'a second call changed the first result')
    intact('after a second call')
    flat = list(res) if isinstance(res, (list, tuple)) else [res]
    if e.shares is True or any(x is y for x in flat for _, y in e.args):
        ctx.count('sharing-documented')
        return
    args = []
    for n, x in e.args:
        tensors(x, args, set())
    ts = []
    tensors(res, ts, set())
    second = canon(res2)
    n = edit(ts)
    ctx.count('edited', n)
    intact('after the result was edited in place')
    ctx.ok(canon(res2) == second, f'sibling-changed:{call.name}', 'editing one result changed the other')
    _, out3 = call.run()
    ctx.ok(out3 == out, f'third-call:{call.name}', 'editing a result changed what the same call returns')
