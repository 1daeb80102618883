"""Runs the cases of one property in this process, writing progress so that a
native crash or hang is attributed to the case that was running."""
import argparse
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback

from k2v.core import CaseFail, Ctx, Skip, sighash


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--end', type=int, default=1)
    ap.add_argument('--out', required=True)
    ap.add_argument('--deadline', type=float, default=1e18)
    ap.add_argument('--only', type=int)
    ap.add_argument('--max-viol', type=int, default=8)
    ap.add_argument('--mode', default='')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if a.mode not in ('asan', 'tsan'):
        import resource
        resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))
    faulthandler.enable(file=open(a.out + '.fault', 'w'))
    import torch
    torch.set_num_threads(1)
    mod = importlib.import_module('k2v.props.' + a.prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup(a.mode)
    stats = {'evaluations': 0, 'oracle_checks': 0, 'skipped': 0, 'counters': {},
             'samples': [], 'sigs': [], 'violations': [], 'done': False, 'stopped_early': False}
    sigs = set()
    prog = os.open(a.out + '.prog', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    idxs = [a.only] if a.only is not None else range(a.start, a.end, a.stride)
    nviol = 0
    try:
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        with open(os.path.join(root, 'known_findings.json')) as f:
            known = {x['key'] for x in json.load(f)['findings'] if x['property'] == a.prop}
    except OSError:
        known = set()
    nknown = {}

    def dump():
        stats['sigs'] = sorted(sigs)
        with open(a.out + '.tmp', 'w') as f:
            json.dump(stats, f)
        os.replace(a.out + '.tmp', a.out)

    last_dump = time.time()
    for i in idxs:
        if time.time() > a.deadline:
            stats['stopped_early'] = True
            break
        os.pwrite(prog, (f'{i} {time.time():.1f}' + ' ' * 10 + '\n').encode(), 0)
        ctx = Ctx(a.prop, seed, i, tier, stats)
        ctx.mode = a.mode
        torch.manual_seed(ctx.rng.randrange(1 << 30))
        viol = None
        try:
            mod.case(ctx)
        except Skip:
            stats['skipped'] += 1
            continue
        except CaseFail as e:
            viol = {'key': e.args[0], 'msg': e.args[1]}
        except Exception as e:  # the public API refused or broke on a valid case
            tb = traceback.format_exc()
            where = ''
            for fr in traceback.extract_tb(e.__traceback__):
                if '/k2v/' in fr.filename:
                    where = f'{os.path.basename(fr.filename)}:{fr.name}'
            viol = {'key': 'unexpected-exception:' + where,
                    'msg': f'{type(e).__name__}: {str(e)[:500]}', 'tb': tb[-4000:]}
        stats['evaluations'] += 1
        if ctx.nontrivial:
            sigs.add(sighash(ctx._sig))
            if len(stats['samples']) < 3 and ctx.notes:
                stats['samples'].append({'case': i, 'notes': ctx.notes[:6]})
        if viol and viol['key'] in known:
            # a listed finding: reported, but it does not stop the exploration
            ctx.count('known:' + viol['key'])
            nknown[viol['key']] = nknown.get(viol['key'], 0) + 1
            if nknown[viol['key']] <= 2:
                viol.update(case=i, notes=ctx.notes[-8:], seed=seed, tier=tier, mode=a.mode)
                stats['violations'].append(viol)
        elif viol:
            viol.update(case=i, notes=ctx.notes[-8:], seed=seed, tier=tier, mode=a.mode)
            stats['violations'].append(viol)
            nviol += 1
            dump()
            if nviol >= a.max_viol:
                break
        if time.time() - last_dump > 3:
            dump()
            last_dump = time.time()
    stats['done'] = True
    if hasattr(mod, 'finish'):
        mod.finish(stats)
    dump()
    os.pwrite(prog, (b'done' + b' ' * 20 + b'\n'), 0)
    sys.stdout.flush()
    os._exit(0)


main()
