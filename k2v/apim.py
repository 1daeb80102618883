"""C32, part without FSAs: option parsing, shell quoting, symbol tables, wave
files and the transducer searches, against models written from the documents."""
import math
import os
import re
import shlex
import struct
import tempfile

import torch
import k2
from k2v import build
from k2v.core import Skip

W = ' \t\n\r\f\v'
o = torch.ops.k2v


class Scratch:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix='k2v-na-', dir=build.WORK)
        return self.d.name

    def __exit__(self, *a):
        self.d.cleanup()


def call(f, *a):
    """(result, None) or (None, exception)."""
    try:
        return f(*a), None
    except RuntimeError as e:
        return None, e


# ------------------------------------------------------------------- options

class Bad(Exception):
    pass


def norm(s):
    return s.replace('_', '-').lower()


def conv(typ, v, has_eq):
    if typ == 'bool':
        if has_eq and v == '':
            raise Bad
        if v.lower() in ('true', 't', '1', ''):
            return True
        if v.lower() in ('false', 'f', '0'):
            return False
        raise Bad
    if typ in ('int', 'uint'):
        if not re.fullmatch(r'[+-]?[0-9]+', v):
            raise Bad
        x = int(v)
        lo, hi = (-2 ** 31, 2 ** 31 - 1) if typ == 'int' else (0, 2 ** 32 - 1)
        if not lo <= x <= hi:
            raise Bad
        return x
    if typ in ('float', 'double'):
        if re.fullmatch(r'[+-]?(inf|infinity|nan)', v, re.I):
            return float(v)
        if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?', v):
            raise Bad
        return float(v)
    if not has_eq:
        raise Bad
    return v


class Options:
    """regs: [(full name, type, default)]"""

    def __init__(self, regs, disable):
        self.type, self.val, self.first = {}, {}, {}
        for i, (name, typ, d) in enumerate(regs):
            n = norm(name)
            if n not in self.type:           # a second registration is ignored
                self.type[n], self.val[n], self.first[n] = typ, d, i
        self.type.update({'config': 'str', 'print-args': 'bool', 'help': 'bool'})
        for n in disable:
            del self.type[n]

    def one(self, arg):
        body = arg[2:]
        key, eq, v = body.partition('=')
        if key == '':
            raise Bad
        self.set(norm(key), v.strip(W), bool(eq))

    def set(self, k, v, has_eq):
        if k not in self.type:
            raise Bad
        self.val[k] = conv(self.type[k], v, has_eq)

    def config(self, text):
        for ln in text.split('\n'):
            ln = ln.split('#')[0].strip(W)
            if not ln:
                continue
            if not ln.startswith('--'):
                raise Bad
            self.one(ln)

    def read(self, args, files):
        for a in args:
            if a == '--':
                break
            if a.startswith('--'):
                k, _, v = a[2:].partition('=')
                if k == '':
                    raise Bad
                if norm(k) == 'config':
                    f = v.strip(W)
                    if f not in files:
                        raise Bad
                    self.config(files[f])
        i = 0
        while i < len(args):
            if args[i] == '--':
                return args[i + 1:]
            if not args[i].startswith('--'):
                break
            self.one(args[i])
            i += 1
        rest, seen = [], False
        for a in args[i:]:
            if a == '--' and not seen:
                seen = True
            else:
                rest.append(a)
        return rest


NAMES = ['beam', 'search-beam', 'search_beam', 'Max-States', 'a', 'x1', 'use-gpu', 'out_file', 'lm.scale', 'V']
GOOD = {'bool': ['true', 'false', 'T', 'f', '1', '0', 'TRUE', ' true '],
        'int': ['0', '-1', '17', '+4', ' 12 ', '2147483647', '-2147483648', '007'],
        'uint': ['0', '4294967295', '23', '+1'],
        'float': ['0', '1.5', '-2e3', '.25', '4.', 'inf', '-INF', 'NaN', 'Infinity', '1e-3', ' 7 '],
        'double': ['0', '0.1', '-2.25e10', 'inf', 'nan', '3', '+1.5'],
        'str': ['', 'hello', 'a b', ' padded ', 'x=y', '--dash', "it's", 'ü']}
WRONG = {'bool': ['yes', '2', 'tru', '', 'true false'], 'int': ['', 'x', '1.5', '2147483648', '-2147483649', '1 2', '99999999999999999999'],
         'uint': ['-1', '4294967296', 'abc', ''], 'float': ['', 'x', '1.5x', '1 2', 'infin', '--1', '1e'], 'double': ['', '0..1', '1,5', 'nano'], 'str': []}
DEF = {'bool': ['true', 'false'], 'int': ['0', '-7', '30'], 'uint': ['0', '9'], 'float': ['0', '0.5', '-3'], 'double': ['0', '2.25'], 'str': ['', 'dflt']}


def spell(r, name):
    return ''.join(r.choice('_-') if c in '_-' else r.choice([c, c, c.upper()]) for c in name)


def one_option(ctx, full, typ, bad):
    r = ctx.rng
    nm = spell(r, full)
    if bad and r.random() < .4:
        return r.choice(['--nosuch=1', '--=3', '--' + nm + 'z=1', '--' + nm + '=' + (r.choice(WRONG[typ]) if WRONG[typ] else 'x')])
    if typ == 'bool' and r.random() < .4:
        return '--' + nm
    if bad and typ == 'str' and r.random() < .5:
        return '--' + nm
    v = r.choice(WRONG[typ]) if bad and WRONG[typ] else r.choice(GOOD[typ])
    return f'--{nm}={v}'


def k_parse(ctx):
    r = ctx.rng
    regs = []
    for _ in range(r.randint(1, 7)):
        typ = r.choice(list(DEF))
        pre = r.choice(['', '', '', 'dec', 'a.b', 'A_b'])
        regs.append((pre, r.choice(NAMES), typ, r.choice(DEF[typ])))
    full = [(p + '.' if p else '') + n for p, n, _, _ in regs]
    typ = {}
    for f, x in zip(full, regs):
        typ.setdefault(norm(f), x[2])
    p_bad = r.choice([0, 0, .25])
    names = list(typ)

    def opt():
        n = r.choice(names)
        return one_option(ctx, n, typ[n], r.random() < p_bad)
    disable = [n for n in names if r.random() < .06]
    conf = ''
    if r.random() < .3:
        lines = []
        for _ in range(r.randint(0, 4)):
            s = opt()
            lines.append(r.choice(['', '  ', '\t']) + s + r.choice(['', '  ', ' # comment', '#--beam=3']))
            if r.random() < .3:
                lines.append(r.choice(['', '   ', '# only a comment']))
        if r.random() < p_bad:
            lines.insert(r.randint(0, len(lines)), 'beam=3')
        conf = '\n'.join(lines) + r.choice(['', '\n'])
    with Scratch() as d:
        cf = os.path.join(d, 'c.conf')
        open(cf, 'w').write(conf)
        args = [opt() for _ in range(r.randint(0, 6))]
        if conf and r.random() < .8:
            args.insert(r.randint(0, len(args)), f'--{spell(r, "config")}={cf}')
        if r.random() < .3:
            args.insert(r.randint(0, len(args)), r.choice(['--print-args=false', '--print_args']))
        if r.random() < p_bad * .3:
            args.append('--config=' + d + '/missing')
        x = r.random()
        if x < .2:
            args.append('--')
            args += [r.choice(['pos', '--beam=3', '', '--', '-1', '--help', 'a b']) for _ in range(r.randint(0, 4))]
        elif x < .6:
            args += [r.choice(['pos', 'file.txt', '-x', '', '-'])] + [r.choice(['p2', '-1', '', 'x=1', '--', '--']) for _ in range(r.randint(0, 3))]
        only_conf = conf and r.random() < .2
        if only_conf:
            args = []
        ctx.note(regs=regs, args=args, conf=conf, disable=disable, only_conf=only_conf)
        m = Options(list(zip(full, [x[2] for x in regs], [x[3] for x in regs])), disable)
        try:
            if only_conf:
                m.config(conf)
                pos = []
            else:
                pos = m.read(args, {cf: conf})
            bad = False
        except Bad:
            bad = True
        res, e = call(o.parse, [str(y) for x in regs for y in x], args, disable, cf if only_conf else '')
        ctx.sig('parse', tuple(args), conf)
        if bad:
            ctx.count('options-refused')
            ctx.ok(e is not None, 'options-invalid-accepted', f'invalid options accepted: {res}')
            return
        if e is not None:
            ctx.fail('options-valid-refused', f'valid options refused: {str(e)[:600]}')
        vals, got_pos, used = res
        if not only_conf:
            ctx.eq(list(got_pos), list(pos), 'options-positional', 'positional arguments')
            ctx.eq(used, len(args) + 1, 'options-used', 'return value of Read')
        for i, (f, x) in enumerate(zip(full, regs)):
            n, t = norm(f), x[2]
            v = m.val[n] if m.first[n] == i else x[3]
            if isinstance(v, str) and t != 'str':
                v = conv(t, v, True)
            if t == 'bool':
                ctx.eq(vals[i], 'true' if v else 'false', 'options-value', f)
            elif t in ('int', 'uint'):
                ctx.eq(int(vals[i]), v, 'options-value', f)
            elif t == 'str':
                ctx.eq(vals[i], v, 'options-value', f)
            else:
                if t == 'float':
                    v = torch.tensor(v, dtype=torch.float64).float().item()
                g = float(vals[i])
                ctx.ok(g == v or (g != g and v != v), 'options-value', f'{f}: {g} want {v}')


def k_escape(ctx):
    r = ctx.rng
    s = ''.join(r.choice('ab1 \'"`$\\|&;<>()*?{},-_=+:./^@%!\t\n') for _ in range(r.choice([0, 1, 2, 5, 10])))
    ctx.note(s=s)
    ctx.sig('escape', s)
    q = o.escape(s)
    if '!' in q and q[:1] == '"':
        return   # history expansion only concerns interactive shells
    ctx.eq(shlex.split(q), [s], 'escape', f'the shell reads {q!r} as something else')


# ------------------------------------------------------------ files

def k_symbols(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 3, 8])
    pool = ['<blk>', 'a', 'b', '▁a', '▁', 'the', 'ü', '▁the', '<unk>', '#0', '1', '-5', '中', 'x▁y', '▁▁']
    syms = r.sample(pool, n)
    ids = r.sample([0, 1, 2, 3, 5, 10, 100, -1, 2147483647, -2147483648], n)
    kind = r.choice(['ok', 'ok', 'ok', 'dup-sym', 'dup-id', 'truncated', 'overflow', 'not-a-number'])
    if n == 0:
        kind = 'ok'
    rows = [[s, str(i)] for s, i in zip(syms, ids)]
    if kind == 'dup-sym':
        rows.append([syms[0], '77'])
    if kind == 'dup-id':
        rows.append(['other', str(ids[0])])
    if kind == 'truncated':
        rows[-1][1] = ''
    if kind == 'overflow':
        r.choice(rows)[1] = '99999999999'
    if kind == 'not-a-number':
        r.choice(rows)[1] = 'x'
    sep = r.choice([' ', '\t', '  '])
    text = '\n'.join(sep.join(x) for x in rows) + (r.choice(['', '\n']) if rows else '')
    ctx.note(kind=kind, text=text)
    ctx.sig('symbols', text)
    sp = [' ' + s[1:] if s.startswith('▁') else s for s in syms]
    ask_i, ask_s = ids + [4, 77], sp + ['nope', '▁a']
    with Scratch() as d:
        f = os.path.join(d, 't.txt')
        open(f, 'w').write(text)
        res, e = call(o.symbols, f, ask_i, ask_s)
        if ctx.rng.random() < .05:
            _, e2 = call(o.symbols, f + 'x', [], [])
            ctx.ok(e2 is not None, 'symbols-missing-file', 'a missing symbol table is accepted')
    if kind != 'ok':
        ctx.count('symbols-refused')
        ctx.ok(e is not None, 'symbols-invalid-accepted', f'invalid symbol table accepted ({kind})', res=res)
        return
    if e is not None:
        ctx.fail('symbols-valid-refused', str(e)[:600])
    a, b, t = res
    m = dict(zip(ids, sp))
    ctx.eq(list(a), ['+' + m[i] if i in m else '-' for i in ask_i], 'symbols', 'symbols by number')
    inv = {v: k for k, v in m.items()}
    ctx.eq(list(b), [inv.get(s, -2 ** 63) for s in ask_s], 'symbols', 'numbers by symbol')
    ctx.eq(sorted(t.split('\n')[:-1]), sorted(f'{s} {i}' for i, s in m.items()), 'symbols', 'printed table')


def k_wave(ctx):
    r = ctx.rng
    n = r.choice([0, 1, 2, 7, 100])
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    x = torch.randint(-32768, 32768, (n,), generator=g)
    rate = r.choice([8000, 16000, 44100])
    chan, bits, fmt, magic = 1, 16, 1, (b'RIFF', b'WAVE', b'fmt ')
    kind = r.choice(['ok'] * 6 + ['stereo', '8bit', 'float', 'magic', 'truncated', 'no-data', 'short-header', 'byterate'])
    if kind == 'stereo':
        chan = 2
    if kind == '8bit':
        bits = 8
    if kind == 'float':
        fmt = 3
    if kind == 'magic':
        i = r.randrange(3)
        magic = tuple(b'XXXX' if i == j else m for j, m in enumerate(magic))
    br = rate * chan * bits // 8 + (1 if kind == 'byterate' else 0)
    data = struct.pack(f'<{n}h', *x.tolist())
    extra = b''
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.choice([0, 1, 2, 3, 4, 7, 26])
        body = bytes(r.randrange(256) for _ in range(k))
        # chunks are padded to an even number of bytes
        extra += r.choice([b'LIST', b'fact', b'junk', b'PAD ']) + struct.pack('<i', k) + body + (b'\0' if k % 2 else b'')
    size = len(data)
    if kind == 'truncated':
        size += 2 * r.randint(1, 20)
    dc = b'' if kind == 'no-data' else b'data' + struct.pack('<i', size) + data
    if kind == 'no-data' and not extra:
        extra = b'LIST' + struct.pack('<i', 4) + b'abcd'
    tail = b'LIST' + struct.pack('<i', 2) + b'zz' if kind == 'ok' and r.random() < .2 else b''
    hdr = magic[2] + struct.pack('<ihhiihh', 16, fmt, chan, rate, br, chan * bits // 8, bits)
    body = magic[1] + hdr + extra + dc + tail
    b = magic[0] + struct.pack('<i', len(body)) + body
    if kind == 'short-header':
        b = b[:r.randint(0, 43)]
    ctx.note(kind=kind, n=n, rate=rate, bytes=b[:200])
    ctx.sig('wave', kind, b)
    with Scratch() as d:
        f = os.path.join(d, 'a.wav')
        open(f, 'wb').write(b)
        res, e = call(o.wave, f, r.randrange(2))
        if kind == 'ok':
            if e is not None:
                ctx.fail('wave-valid-refused', str(e)[:600])
            ctx.ok(res[0].dtype == torch.float32 and torch.equal(res[0], (x.double() / 32768).float()), 'wave', 'samples',
                   got=res[0][:20], want=x[:20])
            ctx.eq(res[1], float(rate), 'wave', 'sample rate')
            many = [f] * r.randint(1, 3)
            for y in o.waves(many, rate):
                ctx.ok(torch.equal(y, res[0]), 'wave', 'ReadWave')
            _, e = call(o.waves, many, rate + 1000)
            ctx.ok(e is not None, 'wave-rate', 'an unexpected sample rate is accepted')
        else:
            ctx.count('waves-refused')
            ctx.ok(e is not None, 'wave-invalid-accepted', f'accepted a file that is not a mono 16-bit wave file ({kind})', res=res)


# ------------------------------------------------------------------ searches

class Decoder(torch.nn.Module):
    def __init__(self, V, H, D, blank: int, unk: int):
        super().__init__()
        self.emb = torch.nn.Embedding(V, D)
        self.pos = torch.nn.Parameter(torch.randn(H, 1))
        self.blank_id = blank
        self.context_size = H
        self.unk_id = unk

    def forward(self, y: torch.Tensor, need_pad: bool = True) -> torch.Tensor:
        assert not need_pad
        return (self.emb(y) * self.pos).sum(1, keepdim=True)


class DecoderNoUnk(torch.nn.Module):
    def __init__(self, V, H, D, blank: int):
        super().__init__()
        self.emb = torch.nn.Embedding(V, D)
        self.pos = torch.nn.Parameter(torch.randn(H, 1))
        self.blank_id = blank
        self.context_size = H

    def forward(self, y: torch.Tensor, need_pad: bool = True) -> torch.Tensor:
        assert not need_pad
        return (self.emb(y) * self.pos).sum(1, keepdim=True)


class Joiner(torch.nn.Module):
    def __init__(self, V, D, J):
        super().__init__()
        self.encoder_proj = torch.nn.Linear(D, J)
        self.decoder_proj = torch.nn.Linear(D, J)
        self.output_linear = torch.nn.Linear(J, V)

    def forward(self, enc: torch.Tensor, dec: torch.Tensor, project_input: bool = True) -> torch.Tensor:
        if project_input:
            x = self.encoder_proj(enc) + self.decoder_proj(dec)
        else:
            x = enc + dec
        return self.output_linear(torch.tanh(x)) * 3


class Model(torch.nn.Module):
    def __init__(self, V, H, D, J, blank, unk):
        super().__init__()
        self.decoder = DecoderNoUnk(V, H, D, blank) if unk is None else Decoder(V, H, D, blank, unk)
        self.joiner = Joiner(V, D, J)


MODELS = []
DIR = []
D = 5


def make_models():
    DIR.append(tempfile.TemporaryDirectory(prefix='k2v-na-', dir=build.WORK))
    d = DIR[0].name
    rs = torch.random.get_rng_state()
    for i, (V, H, blank, unk) in enumerate([(5, 2, 0, None), (8, 1, 0, 2), (6, 3, 0, 1), (4, 2, 1, None)]):
        torch.manual_seed(i)
        m = Model(V, H, D, 4, blank, unk).eval()
        f = os.path.join(d, f'm{i}.pt')
        torch.jit.script(m).save(f)
        MODELS.append((f, m, V, H, blank, unk))
    torch.random.set_rng_state(rs)


def utts(ctx, N=None):
    r = ctx.rng
    N = N or r.choice([1, 2, 3, 5])
    lens = [r.randint(1, 9) for _ in range(N)]
    T = max(lens) + r.choice([0, 0, 2])
    g = torch.Generator().manual_seed(r.randrange(2 ** 31))
    return torch.randn(N, T, D, generator=g) * 2, lens


MARGIN = 1e-4


def k_greedy(ctx):
    f, m, V, H, blank, unk = ctx.rng.choice(MODELS)
    enc, lens = utts(ctx)
    ctx.note(model=f[-5:], lens=lens, enc=enc)
    out = []
    with torch.no_grad():
        for n, L in enumerate(lens):
            y = [blank] * H
            for t in range(L):
                lg = m.joiner(enc[n, t].view(1, 1, 1, D), m.decoder(torch.tensor([y[-H:]]), False).unsqueeze(1)).flatten()
                top = lg.topk(2)
                if top.values[0] - top.values[1] < MARGIN:
                    raise Skip
                k = top.indices[0].item()
                if k not in (blank, blank if unk is None else unk):
                    y.append(k)
            out.append(y[H:])
    rs, v = o.greedy(f, enc, torch.tensor(lens))
    ctx.sig('greedy', f[-5:], out)
    ctx.eq(split(rs, v), out, 'greedy-search', 'tokens per utterance')


def split(rs, v):
    rs, v = rs.tolist(), v.tolist()
    return [v[a:b] for a, b in zip(rs, rs[1:])]


def k_beam(ctx):
    r = ctx.rng
    f, m, V, H, blank, unk = r.choice(MODELS)
    enc, lens = utts(ctx)
    K = r.randint(1, V)
    ctx.note(model=f[-5:], lens=lens, K=K, enc=enc)
    out = []
    with torch.no_grad():
        for n, L in enumerate(lens):
            hyps = {(blank,) * H: 0.0}
            for t in range(L):
                ys = list(hyps)
                d = m.decoder(torch.tensor([y[-H:] for y in ys]), False).unsqueeze(1)
                lp = m.joiner(enc[n, t].view(1, 1, 1, D).expand(len(ys), 1, 1, D), d).view(len(ys), V).double().log_softmax(-1)
                cand = sorted(((hyps[y] + lp[i, k].item(), y, k) for i, y in enumerate(ys) for k in range(V)), reverse=True)
                if len(cand) > K and cand[K - 1][0] - cand[K][0] < MARGIN:
                    raise Skip
                hyps = {}
                for s, y, k in cand[:K]:
                    z = y if k in (blank, blank if unk is None else unk) else y + (k,)
                    if z in hyps:
                        a, b = max(hyps[z], s), min(hyps[z], s)
                        hyps[z] = a + math.log1p(math.exp(b - a))
                    else:
                        hyps[z] = s
            best = sorted(((s / len(y), y) for y, s in hyps.items()), reverse=True)
            if len(best) > 1 and best[0][0] - best[1][0] < MARGIN:
                raise Skip
            out.append(list(best[0][1][H:]))
    rs, v = o.beam(f, enc, torch.tensor(lens), K)
    ctx.sig('beam', f[-5:], K, out)
    ctx.eq(split(rs, v), out, 'beam-search', 'tokens per utterance')


def k_hyps(ctx):
    r = ctx.rng
    n = r.randint(1, 7)
    ys = [tuple(r.randint(0, 3) for _ in range(r.randint(1, 3))) for _ in range(n)]
    lp = [-r.randint(0, 400) / 8 if r.random() < .9 else r.uniform(-100, 0) for _ in range(n)]
    ctx.note(ys=ys, lp=lp)
    m = {}
    for y, s in zip(ys, lp):
        if y in m:
            a, b = max(m[y], s), min(m[y], s)
            m[y] = a + math.log1p(math.exp(b - a))
        else:
            m[y] = s
    keys, vals = o.hyps([torch.tensor(y, dtype=torch.int32) for y in ys], lp)
    ctx.sig('hyps', ys, lp)
    ctx.eq(len(keys), len(m) + 2, 'hyps', 'hypotheses kept')
    for k, v in zip(keys[:-2], vals):
        y = tuple(int(x) for x in k.split('-'))
        ctx.ok(y in m, 'hyps', f'hypothesis {k}')
        ctx.close(v, m[y], 'hyps', f'log-prob of {k}', tol=1e-9, rel=1e-9)
    for nrm, k, v in zip((0, 1), keys[-2:], vals[-2:]):
        y = tuple(int(x) for x in k.split('-'))
        q = {z: s / len(z) if nrm else s for z, s in m.items()}
        ctx.close(q[y], max(q.values()), 'hyps-best', 'most probable hypothesis', tol=1e-9, rel=1e-9)
        ctx.close(v, m[y], 'hyps-best', 'its log-prob', tol=1e-9, rel=1e-9)
