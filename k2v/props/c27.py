"""C27: one case = one call of the catalogue (digest of its outcome, compared by
the runner between processes that differ in heap contents, argument layout and
preceding calls), or one case of C01..C24 run under poisoned heap memory."""
import random

from k2v import ops
from k2v.core import CaseFail
from k2v.props import c25

LAY = {'zero': 0, 'ones': 1, 'small': 2, 'random': 3, 'huge': 4}


def case(ctx):
    mode = ctx.mode if ctx.mode in LAY else 'zero'
    if ctx.idx % 3 == 2:
        name, why = c25.inner(ctx, ctx.idx // 3)
        if why and ctx.mode in LAY:
            ctx.stats.setdefault('suspects', []).append([ctx.idx, name, why[:800]])
        elif why:
            ctx.fail('inner:' + name, why)
        return
    seed = f'{ctx.seed}/{ctx.idx}'
    other = random.Random(f'{mode}/{seed}')
    for k in range(other.choice([0, 0, 1, 1, 2, 4])):
        ops.build(f'other/{mode}/{seed}/{k}').run()      # a history that differs from mode to mode
        ctx.count('preceding-calls')
    call = ops.build(seed, lay=LAY[mode])
    ctx.note(op=call.name, seed=seed, args=[n for n, _ in call.e.args])
    _, out = call.run()
    ctx.count('op-' + call.name)
    d = ops.digest(out)
    ctx.stats.setdefault('digests', {})[str(ctx.idx)] = [call.name, d]
    ctx.sig(call.name, d)
    if other.random() < .3:
        _, again = ops.build(seed, lay=LAY[mode] + 10).run()
        ctx.ok(ops.digest(again) == d, f'repeat:{call.name}', 'the repeated call (other layout) gave something else')
        ctx.count('repeated')
    ctx.stats['oracle_checks'] += 1
