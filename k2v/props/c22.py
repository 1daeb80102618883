"""C22: streaming RNN-T decoding. Every stream is simulated on its own, frame
by frame, from the documented rules; contexts and lattices of the library,
under any grouping of streams into sessions, must equal the simulation."""
import torch
import k2
from k2v import fsam, dense
from k2v.core import Skip
from k2v.fsam import F, NINF

f32 = lambda x: torch.tensor(x, dtype=torch.float64).float().item()


class Ambiguous(Exception):
    pass


class Stream:
    """The documented search of one stream."""

    def __init__(self, f, V, H, probs):
        self.f, self.V, self.H, self.probs = f, V, H, probs
        self.out = f.leaving()
        self.cur = {(0, 0): 0.0}      # (context number, graph state) -> score
        self.frames = []              # per frame: ordered source states, arcs
        self.t = 0

    def contexts(self):
        return sorted({c for c, _ in self.cur})

    def digits(self, c):
        return [c // self.V ** (self.H - 1 - i) % self.V for i in range(self.H)]

    def row(self, c):
        return self.probs(self.t, c)

    def advance(self, beam, max_states, max_contexts):
        f, V, H = self.f, self.V, self.H
        best = max(self.cur.values(), default=NINF)
        arcs = []
        src = sorted(self.cur)
        for si, (c, g) in enumerate(src):
            if g == f.final:
                continue
            p, sc = self.row(c), self.cur[c, g]
            arcs.append((si, (c, g), 0, -1, p[0], sc + p[0]))
            for ai in self.out[g]:
                _, d, l, w = f.arcs[ai]
                q = p[0] if l in (-1, 0) else p[l]
                if l != 0:
                    keep = (sc + w) + (0.0 if l == -1 else q) >= best - beam
                    if not keep:
                        continue
                c2 = c if l in (-1, 0) else c % V ** (H - 1) * V + l
                arcs.append((si, (c2, d), l, ai, w + q, (sc + w) + q))
        dest = {}
        for a in arcs:
            dest[a[1]] = max(dest.get(a[1], NINF), a[5])
        dest = self.prune(dest, beam, max_states)
        ctxs = {}
        for (c, g), s in dest.items():
            ctxs[c] = max(ctxs.get(c, NINF), s)
        ctxs = self.prune(ctxs, beam, max_contexts)
        dest = {k: s for k, s in dest.items() if k[0] in ctxs}
        self.frames.append((src, [a for a in arcs if a[1] in dest]))
        self.cur = dest
        self.t += 1

    def prune(self, d, beam, limit):
        if not d:
            return d
        best = max(d.values())
        order = sorted(d.values(), reverse=True)
        if 0 < limit < len(order):
            if order[limit - 1] == order[limit] and order[limit] >= best - beam:
                raise Ambiguous
            return {k: s for k, s in d.items() if s >= best - beam and s >= order[limit - 1]}
        return {k: s for k, s in d.items() if s >= best - beam}

    def lattice(self, n, partial):
        """Arcs (src, dst, label, score, graph arc, frame, context index) of
        the first n frames: the last one only decides what is final."""
        off = [0]
        for src, _ in self.frames[:n]:
            off.append(off[-1] + len(src))
        out = []
        for t in range(n):
            src, arcs = self.frames[t]
            ci = {c: i for i, c in enumerate(sorted({c for c, _ in src}))}
            if t == n - 1:
                fin = [a for a in arcs if a[2] == -1]
                if not fin and partial:
                    fin = arcs
                out += [(off[t] + a[0], off[n], -1, 0.0, -1, -1, -1) for a in fin]
                continue
            nxt = {k: i for i, k in enumerate(self.frames[t + 1][0])}
            for a in arcs:
                out.append((off[t] + a[0], off[t + 1] + nxt[a[1]], max(a[2], 0), a[4], a[3], t, ci[src[a[0]][0]]))
        return off[n] + 1, out


class Probs:
    """Deterministic log-probs of a stream: by frame and context only."""

    def __init__(self, seed, V, style):
        self.seed, self.V, self.style, self.memo = seed, V, style, {}

    def tensor(self, t, c):
        k = (t, c)
        if k not in self.memo:
            g = torch.Generator().manual_seed(self.seed + 7919 * t + 104729 * c)
            x = torch.randn(self.V, generator=g) * (3 if self.style == 'wide' else 1)
            if self.style == 'blank':
                x[0] += 4
            x = x.log_softmax(-1)
            if self.style == 'inf':
                x[torch.rand(self.V, generator=g) < .25] = NINF
            self.memo[k] = (x, x.tolist())
        return self.memo[k]

    def __call__(self, t, c):
        return self.tensor(t, c)[1]


def graph(ctx, V):
    r = ctx.rng
    x = r.random()
    if x < .15:
        g = k2.ctc_topo(V - 1, modified=r.random() < .5)
    elif x < .3:
        g = k2.trivial_graph(V - 1)
    else:
        f = dense.gen_graph(ctx, V, empty=False)
        if f.n < 2 or any(a[3] == NINF for a in f.arcs):
            raise Skip
        g = fsam.single_k2(f)
    if r.random() < .4:
        g.scores = torch.tensor([r.choice([0.0, -.5, .25, -r.random()]) for _ in range(g.num_arcs)])
    f = fsam.from_k2(g)
    sc = g.scores.tolist()
    return F(f.n, [(s, d, l, w) for (s, d, l, _), w in zip(f.arcs, sc)]), g


def attributes(ctx, gs):
    """Some attributes on some graphs; the expected value per graph arc."""
    r = ctx.rng
    specs = {}
    for g in gs:
        # one type per attribute name
        if hasattr(g, 'aux_labels'):
            del g.aux_labels
    for name, kind in (('aux_labels', r.choice(['int', 'ragged'])), ('lm', 'float'), ('tag', 'int'), ('words', 'ragged')):
        if r.random() < .5:
            continue
        filler = r.choice([0, 0, -1, 7]) if kind != 'ragged' and name != 'aux_labels' else None
        specs[name] = (kind, filler)
        some = False
        for g in gs:
            if r.random() < .3:
                continue
            n = g.num_arcs
            if kind == 'int':
                setattr(g, name, torch.tensor([r.randint(1, 50) for _ in range(n)], dtype=torch.int32))
            elif kind == 'float':
                setattr(g, name, torch.tensor([r.randint(-20, 20) / 8 for _ in range(n)]))
            else:
                setattr(g, name, k2.RaggedTensor([[r.randint(1, 9) for _ in range(r.choice([0, 1, 2]))] for _ in range(n)],
                                                 dtype=torch.int32))
            if filler is not None:
                setattr(g, name + '_filler', filler)
            some = True
        if not some:
            del specs[name]
    if r.random() < .4:
        r.choice(gs).note = 'hello'
    return specs


def check_lattice(ctx, got, omap, sims, gs, ns, partial, msg):
    fs = fsam.vec_from_k2(got)
    ctx.eq(len(fs), len(sims), 'lattice-size', f'{msg}: FSAs')
    sc = got.scores.tolist()
    base = 0
    rows = []
    for i, (s, n) in enumerate(zip(sims, ns)):
        N, want = s.lattice(n, partial)
        ctx.eq(fs[i].n, N, 'lattice-states', f'{msg}: states of {i}')
        have = [(a[0], a[1], a[2], sc[base + j], None if omap is None else omap[base + j]) for j, a in enumerate(fs[i].arcs)]
        ctx.eq(len(have), len(want), 'lattice-arcs', f'{msg}: number of arcs of {i}')
        key = lambda a: (a[0], a[1], a[2], -2 if omap is None else a[4], a[3])
        hi = sorted(range(len(have)), key=lambda j: key(have[j]))
        wi = sorted(range(len(want)), key=lambda j: key(want[j]))
        for a, b in zip(hi, wi):
            x, y = have[a], want[b]
            ctx.eq(x[:3], y[:3], 'lattice-arcs', f'{msg}: arc of {i}')
            if omap is not None:
                ctx.eq(x[4], y[4], 'lattice-map', f'{msg}: graph arc of {i}')
            ctx.close(x[3], y[3], 'lattice-scores', f'{msg}: score of {i} {y}', tol=1e-5, rel=1e-6)
            rows.append((base + a, i, y))
        base += len(have)
        ctx.count('lattice-arcs', len(have))
    return rows


def attr_check(ctx, got, rows, gs, specs, msg):
    for name, (kind, filler) in specs.items():
        ctx.ok(hasattr(got, name), 'attr', f'{msg}: {name} is missing')
        v = getattr(got, name)
        v = v.tolist()
        first = next(g for g in gs if hasattr(g, name))
        fill = 0 if kind != 'ragged' else []
        if kind != 'ragged':
            fill = first.get_filler(name)
        vals = [getattr(g, name).tolist() if hasattr(g, name) else None for g in gs]
        for j, i, y in rows:
            w = fill if vals[i] is None or y[4] < 0 else vals[i][y[4]]
            ctx.eq(v[j], w, 'attr', f'{msg}: {name} ({kind}) of arc {j} (graph {i} arc {y[4]})')
    for g in gs:
        for name, val in g.named_non_tensor_attr():
            if not name.endswith('_filler'):
                ctx.eq(getattr(got, name, None), val, 'attr-other', f'{msg}: {name}')


def config(ctx, V, H):
    r = ctx.rng
    wide = r.random() < .35
    beam = 1e6 if wide else r.choice([.3, 1, 2, 4, 8, 20])
    ms = r.choice([1000, 0]) if wide else r.choice([1, 2, 3, 5, 8, 100])
    mc = r.choice([1000, 0]) if wide else r.choice([1, 2, 3, 5, 100])
    return (beam, ms, mc), k2.RnntDecodingConfig(vocab_size=V, decoder_history_len=H, beam=beam, max_states=ms, max_contexts=mc)


def case(ctx):
    r = ctx.rng
    V, H = r.choice([2, 3, 4, 6]), r.choice([1, 2, 2, 3])
    K = r.choice([1, 2, 3, 4])
    tmax = r.choice([2, 3, 5, 8])
    sims, gs, streams = [], [], []
    for i in range(K):
        if gs and r.random() < .2:
            g, f = gs[-1], sims[-1].f
        else:
            f, g = graph(ctx, V)
        gs.append(g)
        sims.append(Stream(f, V, H, Probs(r.randrange(2 ** 30), V, r.choice(['norm', 'norm', 'wide', 'blank', 'inf']))))
    specs = attributes(ctx, gs)
    ctx.note(V=V, H=H, graphs=[repr(s.f) for s in sims], attrs={k: str(v) for k, v in specs.items()})
    for g in gs:
        streams.append(k2.RnntDecodingStream(g))
    ctx.sig(V, H, [repr(s.f) for s in sims], [s.probs.seed for s in sims])
    log = []
    sessions = r.choice([1, 1, 2, 3, 5])
    for n in range(sessions):
        sub = r.sample(range(K), K if sessions == 1 or r.random() < .4 else r.randint(1, K))
        (beam, ms, mc), cfg = config(ctx, V, H)
        obj = k2.RnntDecodingStreams([streams[i] for i in sub], cfg)
        steps = r.randint(1, max(1, tmax // sessions + 1))
        if n and r.random() < .1:
            steps = 0
        log.append((sub, steps, beam, ms, mc))
        ctx.notes[-1:] = [dict(ctx.notes[-1], log=repr(log))]
        lps, shapes, starts = [], [], [sims[i].t for i in sub]
        for _ in range(steps):
            shape, ctxs = obj.get_contexts()
            want = [sims[i].contexts() for i in sub]
            sp = [0]
            for w in want:
                sp.append(sp[-1] + len(w))
            ctx.eq(shape.row_splits(1).tolist(), sp, 'contexts', 'contexts per stream')
            ctx.eq(ctxs.tolist(), [sims[i].digits(c) for i, w in zip(sub, want) for c in w], 'contexts', 'contexts')
            ctx.count('context-rows', sp[-1])
            lp = [sims[i].probs.tensor(sims[i].t, c)[0] for i, w in zip(sub, want) for c in w]
            lp = torch.stack(lp) if lp else torch.zeros((0, V))
            if r.random() < .2:
                lp = torch.cat([lp, lp + 1], 1)[:, :V]      # strided
            keep = lp.clone()
            obj.advance(lp.double() if r.random() < .1 else lp)
            ctx.ok(torch.equal(lp, keep), 'inputs', 'log-probs were modified')
            lps.append(lp)
            shapes.append(sp)
            try:
                for i in sub:
                    sims[i].advance(beam, ms, mc)
            except Ambiguous:
                ctx.count('ambiguous')
                return
            for i in sub:
                if mc > 0:
                    ctx.ok(len(sims[i].contexts()) <= mc, 'limits')
        if steps and r.random() < .05:
            ctx.raises(lambda: obj.format_output([sims[i].t for i in sub]), 'misuse', 'format before flush')
        obj.terminate_and_flush_to_streams()
        if r.random() < .05:
            obj.terminate_and_flush_to_streams()
        if r.random() < .05:
            ctx.raises(lambda: obj.advance(torch.zeros((1, V))), 'misuse', 'advance after flush')
        # formatting, any number of times
        for _ in range(r.choice([0, 1, 1, 2]) if n < sessions - 1 else r.choice([1, 2])):
            ns = [sims[i].t if r.random() < .7 else r.randint(1, max(1, sims[i].t)) for i in sub]
            # formatting nothing at all is refused
            if max(ns) == 0 or any(x > sims[i].t for x, i in zip(ns, sub)):
                continue
            partial = r.random() < .5
            msg = f'session {n} {sub} frames {ns} partial {partial}'
            ss, gg = [sims[i] for i in sub], [gs[i] for i in sub]
            sp = {k: v for k, v in specs.items() if any(hasattr(g, k) for g in gg)}
            grad = n == 0 and all(x == 0 for x in starts) and len(lps) and r.random() < .5
            arcs, omap = obj.streams.format_output(ns, partial)
            omap = omap.tolist()
            if grad:
                leaf = torch.cat(lps).clone().requires_grad_(True)
                t2s = k2.ragged.create_ragged_shape2(row_splits=torch.tensor([len(sub) * t for t in range(len(lps) + 1)],
                                                                             dtype=torch.int32))
                rows2 = [0]
                for x in shapes:
                    rows2 += [rows2[-1] + y for y in x[1:]]
                s2c = k2.ragged.create_ragged_shape2(row_splits=torch.tensor(rows2, dtype=torch.int32))
                got = obj.format_output(ns, partial, log_probs=leaf, t2s2c_shape=t2s.compose(s2c))
            else:
                got = obj.format_output(ns, partial) if partial or r.random() < .5 else obj.format_output(ns)
            rows = check_lattice(ctx, got, omap, ss, gg, ns, partial, msg)
            attr_check(ctx, got, rows, gg, sp, msg)
            ctx.eq(fsam.structure_errors(got) if min(ns) > 0 else [], [], 'lattice-valid', msg)
            if grad and got.num_arcs:
                up = torch.tensor([r.randint(-8, 8) / 4 for _ in range(got.num_arcs)])
                got.scores.backward(up)
                want = torch.zeros_like(leaf)
                for j, i, y in rows:
                    if y[5] >= 0:
                        want[shapes_base(shapes, y[5]) + shapes[y[5]][i] + y[6], y[2]] += up[j].item()
                ctx.closes(leaf.grad.flatten().tolist(), want.flatten().tolist(), 'grad', msg, tol=1e-5)
                ctx.count('grad')
            if beam == 1e6 and n == 0 and all(x == 0 for x in starts):
                total(ctx, got, ss, ns, partial, msg)
            ctx.count('formatted')
            if n:
                ctx.count('resumed')


def shapes_base(shapes, t):
    return sum(x[-1] for x in shapes[:t])


def total(ctx, got, ss, ns, partial, msg):
    """Independent of the simulation: the best score over all transition
    sequences of that length, by recursion over (context, graph state)."""
    if partial:
        return
    tot = k2.connect(got).get_tot_scores(log_semiring=False, use_double_scores=True).tolist()
    for i, (s, n) in enumerate(zip(ss, ns)):
        if s.f.n ** 1 * s.V ** min(s.H, n) > 300 or s.t > 6 or s.probs.style == 'inf':
            continue
        cur = {((0,) * s.H, 0): 0.0}
        for t in range(n - 1):
            nxt = {}
            for (c, g), w in cur.items():
                num = 0
                for d in c:
                    num = num * s.V + d
                p = s.probs(t, num)
                steps = [(c, g, w + p[0])] if g != s.f.final else []
                for a in s.f.arcs:
                    if a[0] == g and a[2] != -1:
                        steps.append((c if a[2] == 0 else c[1:] + (a[2],), a[1], w + a[3] + p[a[2]]))
                for c2, g2, w2 in steps:
                    nxt[c2, g2] = max(nxt.get((c2, g2), NINF), w2)
            cur = nxt
        best = max([w for (c, g), w in cur.items() if any(a[0] == g and a[2] == -1 for a in s.f.arcs)], default=NINF)
        ctx.close(tot[i], best, 'best-path', f'{msg}: best path of {i}', tol=1e-4, rel=1e-5)
        ctx.count('best')
