"""C30: the native drivers nd_arrays, nd_hash, nd_ragged and nd_sync; one case =
one module and one seed."""
import json
import os

from k2v import build, native
from k2v.core import Skip

LIBS = {}
# name, share
MODS = ['arrays', 'hash', 'ragged', 'arrays', 'ragged', 'hash', 'ragged', 'sync']


def setup(mode):
    for m, p in json.load(open(os.path.join(build.WORK, 'nd-release', 'modules.json'))).items():
        LIBS[m] = native.Lib(p)


def case(ctx):
    m = MODS[(ctx.idx // 8) % len(MODS)]
    if m not in LIBS:
        ctx.count('left-out-' + m)
        raise Skip
    seed = ctx.seed * 1000003 + ctx.idx
    ctx.note(module=m, seed=seed)
    rc, n, msg = LIBS[m].run(seed)
    ctx.count('ran-' + m)
    for k, v in n.items():
        ctx.count(k, v)
    ctx.stats['oracle_checks'] += sum(n.values())
    ctx.sig(m, sorted(n.items()))
    if rc:
        ctx.fail(*native.reason(rc, msg))
