"""C25: the workloads of C01..C24 (their generators, mutated texts and misuse
catalogues included) run against a build of the native code with
AddressSanitizer, UndefinedBehaviorSanitizer, the library's own debug checks
and checked std containers. What is judged here is only what the sanitizers
and debug checks see; values are judged by C01..C24."""
import importlib
import re

from k2v.core import CaseFail, Ctx, Skip

MODS = ['c01', 'c02', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13',
        'c14', 'c15', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c22', 'c23', 'c24', 'c24', 'c24', 'c24']
ALL = MODS + ['c29', 'c29', 'c29', 'c29']


def inner(ctx, which=None, mods=MODS):
    """Runs the case of another property; returns (module, why it failed)."""
    which = ctx.idx if which is None else which
    name = mods[which % len(mods)]
    mod = importlib.import_module('k2v.props.' + name)
    stats = {'evaluations': 0, 'oracle_checks': 0, 'skipped': 0, 'counters': {}, 'samples': [], 'sigs': [],
             'violations': [], 'done': False, 'stopped_early': False}
    sub = Ctx(name.upper(), ctx.seed, ctx.idx, ctx.tier, stats)
    sub.mode = ''
    if ctx.mode == 'asan':
        # Python code refuses labels beyond the score columns only when it
        # sees a debug build; the native code handles them, so they stay in.
        import _k2
        _k2.version.build_type = 'Release'
    ctx.note(workload=name)
    why = ''
    try:
        mod.case(sub)
    except Skip:
        ctx.count('skipped-' + name)
    except CaseFail as e:
        why = ': '.join(map(str, e.args))
    except Exception as e:
        why = f'{type(e).__name__}: {e}'
    ctx.count('ran-' + name)
    ctx.count('inner-oracle-checks', stats['oracle_checks'])
    ctx.stats['oracle_checks'] += 1
    ctx.sig(name, *sub._sig)
    return name, why


def case(ctx):
    name, why = inner(ctx, mods=ALL)
    if not why:
        return
    m = re.search(r'Check failed[^\n]{0,300}', why)
    why = (m.group(0) if m else why)[:800]
    if ctx.mode == 'asan':
        # The runner repeats the case on the release build: only a failure
        # that the release build does not have is a failed debug check.
        ctx.stats.setdefault('suspects', []).append([ctx.idx, name, why])
        ctx.count('suspects')
    else:
        ctx.fail('inner:' + name, why)
