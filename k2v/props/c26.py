"""C26: one case = a run of a native multi-threaded driver, or catalogue calls
from Python (alone, repeated while the process's pool is disturbed, and from
several Python threads at once), under the delay mode of the process."""
import ctypes
import json
import os
import sys
import threading

import torch

from k2v import build, native, ops
from k2v.core import Skip

LIBS = {}
DELAY = None
# operations that use the task pool or a background thread
POOL = ('connect', 'intersect', 'decod', 'lattice', 'prun', 'dense', 'online', 'ctc', 'rnnt', 'mwer', 'nbest')


def setup(mode):
    global DELAY
    for m, p in json.load(open(os.path.join(build.WORK, 'nd-release', 'modules.json'))).items():
        LIBS[m] = native.Lib(p)
    if os.environ.get('LD_PRELOAD'):
        DELAY = ctypes.CDLL(os.environ['LD_PRELOAD'])
    sys.setswitchinterval(1e-5)


def schedule(ctx):
    if DELAY is None:
        return
    a = (ctypes.c_uint64 * 4)()
    DELAY.k2v_delay_read(a)
    ctx.count('sync-events', a[1])
    ctx.count('pauses', a[2])
    ctx.count('early-wakeups', a[3])
    if a[1]:
        ctx.sig('schedule', a[0])
        ctx.count('schedules')


def case(ctx):
    try:
        kind = ctx.idx // 2 % 4
        if kind < 2:
            nat(ctx, ['sync', 'threads'][kind])
        elif kind == 2:
            alone(ctx)
        else:
            together(ctx)
    finally:
        schedule(ctx)


def nat(ctx, m):
    if m not in LIBS:
        ctx.count('left-out-' + m)
        raise Skip
    seed = ctx.seed * 1000003 + ctx.idx
    ctx.note(module=m, seed=seed, mode=ctx.mode)
    rc, n, msg = LIBS[m].run(seed)
    ctx.count('ran-' + m)
    for k, v in n.items():
        ctx.count(k, v)
    ctx.stats['oracle_checks'] += sum(n.values())
    if rc:
        ctx.fail(*native.reason(rc, msg))


def call(seed):
    """A catalogue call, with a preference for those that use other threads."""
    for k in range(12):
        c = ops.build(f'{seed}/{k}')
        if k > 8 or any(x in c.name for x in POOL):
            return c
    return c


def alone(ctx):
    seed = f'sched/{ctx.seed}/{ctx.idx}'
    c = call(seed)
    ctx.note(op=c.name, seed=seed)
    d = ops.digest(c.run()[1])
    ctx.stats.setdefault('digests', {})[str(ctx.idx)] = [c.name, d]
    ctx.count('op-' + c.name)
    for k in range(2):
        again = ops.digest(call(seed).run()[1])
        ctx.ok(again == d, f'repeat:{c.name}', 'the same call in the same process gave something else')
    ctx.count('alone')


def together(ctx):
    """Calls from several Python threads, each with its own arguments."""
    n, per = ctx.rng.choice([2, 3, 4]), ctx.rng.choice([1, 2, 3])
    seeds = [f'sched/{ctx.seed}/{ctx.idx}/{k}' for k in range(ctx.rng.randint(1, n * per))]
    plan = [[ctx.rng.choice(seeds) for _ in range(per)] for _ in range(n)]
    want = {s: ops.digest(call(s).run()[1]) for s in seeds}
    calls = [[call(s) for s in p] for p in plan]
    names = {s: call(s).name for s in seeds}
    ctx.note(threads=n, calls=[[names[s] for s in p] for p in plan])
    got, err = [[None] * per for _ in range(n)], []
    gate = threading.Barrier(n)

    def go(t):
        torch.set_num_threads(1)
        gate.wait()
        for k, c in enumerate(calls[t]):
            try:
                got[t][k] = ops.digest(c.run()[1])
            except Exception as e:
                err.append((c.name, f'{type(e).__name__}: {e}'))
    ts = [threading.Thread(target=go, args=(t,)) for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        ctx.fail(f'threads:{err[0][0]}', f'a call in one of {n} Python threads: {err[0][1][:500]}')
    for t in range(n):
        for k, s in enumerate(plan[t]):
            ctx.ok(got[t][k] == want[s], f'threads:{names[s]}', f'a call in one of {n} Python threads gives another result than alone')
            ctx.count('python-thread-calls')
    ctx.sig('together', *sorted(set(want.values())))
