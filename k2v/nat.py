"""Runner of C30 and C32: native drivers on the release build and, for C30 in
the thorough tier, on the build with AddressSanitizer and UBSan."""
import json
import os
import subprocess

from k2v import build, native

MODS = ['arrays', 'hash', 'ragged', 'sync']
SUPP = '\n'.join('called_from_lib:' + x for x in ('libtorch_cpu.so', 'libtorch.so', 'libc10.so', 'libmkl', 'libgomp')) + '\n'


def prepare(a, mods=MODS, pre='nd'):
    b = {'kind': 'release', 'lib': build.REL + '/lib', 'wall_s': 0} if a.no_build else build.release()
    good, bad = native.modules(mods, 'release', b['lib'], pre)
    json.dump(good, open(os.path.join(build.WORK, pre + '-release', 'modules.json'), 'w'))
    return b, good, bad


def san_env(kind, lib):
    e = {k: v for k, v in build.env_for('release', lib).items() if k != 'PYTHONPATH'}
    if kind == 'tsan':
        s = os.path.join(build.WORK, 'tsan.supp')
        open(s, 'w').write(SUPP)
        e['TSAN_OPTIONS'] = f'suppressions={s} halt_on_error=0 exitcode=66 second_deadlock_stack=1'
    else:
        x = build.env_for('asan', lib)
        e.update(ASAN_OPTIONS=x['ASAN_OPTIONS'], UBSAN_OPTIONS=x['UBSAN_OPTIONS'])
    return e


def sanitized(kind, a, mods):
    d = os.path.join(build.WORK, 'b-' + kind)
    b = {'kind': kind, 'lib': d + '/lib', 'wall_s': 0} if a.no_build and os.path.exists(d + '/lib') else \
        build.sanitized(kind, targets=('fsa', 'k2_log', 'context'))
    good, bad = native.modules(mods, kind, b['lib'])
    return b, good, bad


def violations(prop, bad, kind, seed, tier):
    """The failed program runs, one per key."""
    out = {}
    for m, s, key, words, text in bad:
        out.setdefault(key, {'key': key, 'msg': f'{m} seed {s} ({kind} build): {words}', 'tb': text, 'case': 0, 'seed': seed,
                             'tier': tier, 'mode': 'native-' + kind, 'kind': 'native', 'module': m, 'native_seed': s})
    return list(out.values())


def replay_native(prop, a, v):
    kind = v['mode'].split('-')[1]
    b, good, _ = sanitized(kind, a, [v['module']])
    bad = False
    for _ in range(10 if kind == 'tsan' else 1):
        try:
            p = subprocess.run([good[v['module']], str(v['native_seed']), str(v['native_seed'] + 1)], env=san_env(kind, b['lib']),
                               capture_output=True, text=True, errors='replace', timeout=120)
            bad = p.returncode != 0
            out = p.stdout + p.stderr
        except subprocess.TimeoutExpired:
            bad, out = True, 'a run that does not end'
        if bad:
            break
    print(out[-6000:])
    print(f'VIOLATION property={prop} replay={a.replay}' if bad else 'replay: no violation')
    return 1 if bad else 0


def run(prop, meta, tier, seed, a, t0):
    from k2v import main
    if a.replay:
        v = json.load(open(a.replay))
        if v['mode'].startswith('native-'):
            return replay_native(prop, a, v)
    b, good, bad = prepare(a, meta.get('mods', MODS), meta.get('pre', 'nd'))
    env = build.env_for('release', b['lib'])
    if a.replay:
        env.update(VERIF_SEED=str(v['seed']), VERIF_TIER=v['tier'])
        of = os.path.join(build.WORK, f'replay-{prop}.json')
        p = subprocess.run([build.PY, '-m', 'k2v.worker', prop, '--only', str(v['case']), '--out', of], env=env, timeout=600,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        vs = json.load(open(of))['violations'] if p.returncode == 0 else [{'msg': f'exit {p.returncode} ' + p.stderr[-3000:]}]
        for x in vs:
            print(x.get('key'), x['msg'][:3000])
        print(f'VIOLATION property={prop} replay={a.replay}' if vs else 'replay: no violation')
        return 1 if vs else 0
    budget = a.budget or meta['budget'][tier]
    st = main.run_pool(prop, meta, env, tier, seed, a.cases or meta['cases'][tier], 8, budget, 60, 'rel')
    builds = [b]
    st['extra'] = {'modules': sorted(good), 'modules_left_out': bad}
    if tier == 'thorough' and 'san_budget' in meta:
        s, progs, sbad = sanitized('asan', a, [m for m in good])
        builds.append(s)
        cnt, runs, fails = native.programs('asan', progs, san_env('asan', s['lib']), seed, meta['san_budget'], 40, 8, 120)
        st['violations'] += violations(prop, fails, 'asan', seed, tier)
        st['extra'].update(sanitized_runs=runs, sanitized_events=sum(cnt.values()), left_out_sanitized=sbad)
        st['oracle_checks'] += sum(cnt.values())
    return main.finish(prop, tier, seed, meta, st, t0, builds)
