"""Runner of C26: ThreadSanitizer on native multi-threaded drivers, and the
release build under injected delays and early wake-ups, results compared between
schedules."""
import json
import os
import subprocess
import threading

from k2v import build, nat, native

# name: (pause probability, early-return probability) in 1/1000
MODES = {'calm': (0, 0), 'some': (60, 0), 'many': (300, 50), 'early': (100, 400)}
MODS = ['sync', 'threads']


def library():
    so = os.path.join(build.WORK, f'delay-{os.getpid()}.so')
    p = subprocess.run(['gcc', '-O2', '-fPIC', '-shared', os.path.join(build.VERIF, 'native', 'delay.c'), '-o', so, '-ldl'], capture_output=True, text=True)
    if p.returncode:
        raise build.BuildError('delay library: ' + p.stderr[-2000:])
    return so


def one(prop, env, case, mode, tag):
    of = os.path.join(build.WORK, f'one-{prop}-{tag}-{mode}.json')
    try:
        p = subprocess.run([build.PY, '-m', 'k2v.worker', prop, '--only', str(case), '--out', of, '--mode', mode],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired:
        return -1, [], None, 'timeout'
    if p.returncode:
        return p.returncode, [], None, p.stderr.decode(errors='replace')
    s = json.load(open(of))
    return 0, s['violations'], s.get('digests', {}).get(str(case)), ''


def run(prop, meta, tier, seed, a, t0):
    from k2v import main
    v = json.load(open(a.replay)) if a.replay else None
    if v and v['mode'].startswith('native-'):
        return nat.replay_native(prop, a, v)
    b, good, left = nat.prepare(a, MODS)
    plain = build.env_for('release', b['lib'])
    so = library()
    envs = {m: dict(plain, LD_PRELOAD=so, K2V_DELAY=f'{seed}:{p}:{e}') for m, (p, e) in MODES.items()}
    if v:
        got, bad = {}, False
        for m in MODES:
            for k in range(3):
                envs[m].update(VERIF_SEED=str(v['seed']), VERIF_TIER=v['tier'], K2V_DELAY=f'{v["seed"] + k}:{MODES[m][0]}:{MODES[m][1]}')
                rc, vs, d, err = one(prop, envs[m], v['case'], m, 'replay')
                got[m, k] = d
                print(m, rc, d, str(vs)[:1500], err[-500:])
                bad |= rc != 0 or bool(vs)
        bad |= len({json.dumps(x) for x in got.values()}) > 1
        print(f'VIOLATION property={prop} replay={a.replay}' if bad else 'replay: no violation')
        return 1 if bad else 0
    n = a.cases or meta['cases'][tier]
    budget = a.budget or meta['budget'][tier]
    sts = {}

    def go(m):
        sts[m] = main.run_pool(prop, meta, envs[m], tier, seed, n, 2, budget, 60, m, mode=m)
    ts = [threading.Thread(target=go, args=(m,)) for m in MODES]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    os.unlink(so)
    st = sts['calm']
    compared = pairs = 0
    for i in list(st['digests']):
        ds = {m: sts[m]['digests'][i] for m in MODES if i in sts[m]['digests']}
        compared += 1
        pairs += len(ds) - 1
        if len({d[1] for d in ds.values()}) > 1:
            st['violations'].append({'key': f'differs:{ds["calm"][0]}', 'msg': 'the outcome of the same call depends on the schedule: '
                                     f'{ {m: d[1][:8] for m, d in ds.items()} }', 'case': int(i), 'seed': seed, 'tier': tier, 'mode': 'calm', 'kind': 'digest'})
    for m in list(MODES)[1:]:
        s = sts[m]
        for k in ('evaluations', 'oracle_checks', 'crashes', 'hangs', 'lost', 'skipped'):
            st[k] += s[k]
        for k, x in s['counters'].items():
            st['counters'][k] = st['counters'].get(k, 0) + x
        st['violations'] += s['violations']
        st['sigs'] |= s['sigs']
        st['stopped_early'] |= s['stopped_early']
        st['lost_err'] = s.get('lost_err', st.get('lost_err', ''))
    st['oracle_checks'] += pairs
    st['counters']['digest-comparisons'] = pairs
    # --- ThreadSanitizer
    t, progs, tleft = nat.sanitized('tsan', a, sorted(good))
    cnt, runs, fails = native.programs('tsan', progs, nat.san_env('tsan', t['lib']), seed, meta['san_budget'][tier], 10, 6, 120)
    st['violations'] += nat.violations(prop, fails, 'tsan', seed, tier)
    st['counters']['tsan-runs'] = sum(runs.values())
    st['counters']['tsan-concurrent-calls'] = cnt.get('concurrent_calls', 0)
    st['evaluations'] += sum(runs.values())
    st['oracle_checks'] += cnt.get('concurrent_calls', 0) + cnt.get('pool_tasks', 0)
    st['extra'] = {'delay_modes': MODES, 'calls_compared': compared, 'modules': sorted(good), 'modules_left_out': left,
                   'modules_left_out_tsan': tleft, 'tsan_runs': runs, 'tsan_events': cnt,
                   'sanitizer': 'ThreadSanitizer (gcc), reports wholly inside libtorch suppressed'}
    return main.finish(prop, tier, seed, meta, st, t0, [b, t])
