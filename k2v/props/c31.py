"""C31: get_best_matching_stats against brute-force comparison of histories."""
import torch
import k2
from k2v import rag


def stats(sents, scores, counts, max_order, eos):
    """Per position (mean, var, count, order) by definition. The text a position
    sees backwards: its own token, everything before it in the collection, one
    extra eos, and a terminator that equals nothing."""
    flat = [x for s in sents for x in s]
    text = [('end',), eos] + flat
    n = len(flat)
    begin = []
    for s in sents:
        begin += range(1, len(s) + 1)

    def match(i, j):
        k = 0
        while k <= min(i, j) and text[i - k] == text[j - k] and not isinstance(text[i - k], tuple):
            k += 1
        return k
    out = []
    total = sum(counts)
    for i in range(n):
        if counts[i]:
            out.append(None)                   # keys: undefined
            continue
        if not total:
            out.append((0.0, 0.0, 0, 0))
            continue
        L = [match(i + 2, j + 2) if j != i else -1 for j in range(n)]
        best = max(L[j] for j in range(n) if counts[j])
        use = [j for j in range(n) if counts[j] and L[j] >= best]
        c = sum(counts[j] for j in use)
        m = sum(scores[j] for j in use) / c
        v = sum(scores[j] ** 2 for j in use) - 2 * m * sum(scores[j] for j in use) + c * m * m
        out.append((m, v / c if c > 1 else 0.0, c if best else 0, 0 if not best else
                    max_order if begin[i] <= best else min(best, max_order)))
    return out


def gen(r, lo, hi, eos, big):
    style = r.choice(['few', 'norm', 'repeat'])
    pool = [r.randint(lo, hi) for _ in range(2)] if style == 'few' else list(range(lo, min(hi, lo + 6) + 1)) + [hi]
    sents = []
    base = [r.choice(pool) for _ in range(6)]
    for _ in range(r.choice([0, 1, 2, 2, 3, 5, 9]) if not big else 12):
        n = r.choice([0, 1, 2, 3, 5]) if not big else r.randint(3, 12)
        s = [r.choice(pool) for _ in range(n)]
        if style == 'repeat' and r.random() < .7:
            k = r.randint(0, 6)
            s = base[:k] + s[:2]
        if r.random() < .8:
            s.append(eos)
        sents.append(s)
    return sents


def large(ctx):
    """16-bit tables close to their limit against 32-bit tables."""
    r = ctx.rng
    n = r.choice([32700, 32750, 32757, 32758, 32770, 20000])
    a = r.choice([2, 5, 40])
    vals = [r.randint(1, a) for _ in range(n)]
    cut = sorted(r.sample(range(n), 500))
    sents = [vals[i:j] for i, j in zip([0] + cut, cut + [n])]
    key = [r.random() < .7 for _ in sents]
    c = torch.tensor([int(k) for k, s in zip(key, sents) for _ in s], dtype=torch.int32)
    s = torch.tensor([r.randint(-8, 8) / 8 for _ in range(n)]) * c
    x = rag.make(sents, 2, 'i')
    ctx.sig('large', n, a, vals[:50])
    p, q = (k2.get_best_matching_stats(x, s, c, 1, 1, m, 4) for m in (a, a + 40000))
    for u, v, name in zip(p, q, ('mean', 'var', 'counts', 'order')):
        ctx.ok(torch.equal(u, v) if name in ('counts', 'order') else torch.allclose(u, v, atol=1e-2), 'large-' + name,
               f'16-bit and 32-bit tables give different results for {n} tokens')
    ctx.count('large')


def case(ctx):
    r = ctx.rng
    if r.random() < .002:
        return large(ctx)
    lo = r.choice([-1, 0, 1, 1, -3])
    hi = lo + r.choice([1, 3, 5, 9, 60])
    eos = r.choice([lo, hi, r.randint(lo, hi)])
    three = r.random() < .6
    cols = [gen(r, lo, hi, eos, r.random() < .1) for _ in range(r.choice([0, 1, 2, 3]) if three else 1)]
    order = r.choice([2, 2, 3, 4, 5, 100])
    per = r.choice(['sent', 'sent', 'token', 'none', 'all'])
    sc, ct = [], []
    for c in cols:
        s1, c1 = [], []
        for s in c:
            key = r.random() < .6
            for _ in s:
                k = {'sent': key, 'token': r.random() < .5, 'none': False, 'all': True}[per]
                c1.append(int(k))
                # queries usually have zero scores
                s1.append(r.randint(-64, 64) / 8 if k else 0.0)
        sc.append(s1)
        ct.append(c1)
    ctx.note(lo=lo, hi=hi, eos=eos, order=order, cols=cols, counts=ct, scores=sc, three=three)
    ctx.sig(lo, hi, eos, order, cols, ct, sc, three)
    x = rag.make(cols if three else cols[0], 3 if three else 2, 'i')
    s = torch.tensor([v for q in sc for v in q], dtype=torch.float32)
    c = torch.tensor([v for q in ct for v in q], dtype=torch.int32)
    wide = hi + (40000 if r.random() < .04 else 0)        # 32-bit instead of 16-bit arrays
    if wide > hi:
        ctx.count('wide')
    got = k2.get_best_matching_stats(x, s, c, eos, lo, wide, order)
    for t, name in zip(got, ('mean', 'var', 'counts', 'order')):
        ctx.eq(tuple(t.shape), (len(s),), 'shape', name)
    got = [t.tolist() for t in got]
    p = 0
    for cs, s1, c1 in zip(cols, sc, ct):
        for w in stats(cs, s1, c1, order, eos):
            if w is not None:
                g = [q[p] for q in got]
                ctx.close(g[0], w[0], 'mean', f'position {p}', tol=1e-4, rel=1e-5)
                ctx.close(g[1], w[1], 'var', f'position {p}', tol=2e-3, rel=1e-3)
                ctx.eq(g[2], w[2], 'counts', f'position {p}')
                ctx.eq(g[3], w[3], 'order', f'position {p}')
                ctx.count('queries')
                if w[3]:
                    ctx.count('matched')
            p += 1
