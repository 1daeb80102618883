"""Runner of C27: the same calls in processes whose heap is filled with
different patterns, with different argument layouts and call histories; the
digests of the outcomes must be the same everywhere."""
import json
import os
import subprocess
import threading

from k2v import build

MODES = ['zero', 'ones', 'huge', 'small', 'random']


def library():
    src = os.path.join(build.VERIF, 'native', 'poison.c')
    os.makedirs(build.WORK, exist_ok=True)
    so = os.path.join(build.WORK, f'poison-{os.getpid()}.so')
    p = subprocess.run(['gcc', '-O2', '-fPIC', '-shared', '-fno-builtin', '-ftls-model=initial-exec', src, '-o', so], capture_output=True, text=True)
    if p.returncode:
        raise build.BuildError('poison library: ' + p.stderr[-2000:])
    return so


def one(prop, env, case, mode, tag):
    """One case in a fresh process: (exit code, violations and suspects, digest, stderr)."""
    of = os.path.join(build.WORK, f'one-{prop}-{tag}-{mode}.json')
    try:
        p = subprocess.run([build.PY, '-m', 'k2v.worker', prop, '--only', str(case), '--out', of, '--mode', mode],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired:
        return -1, [], None, 'timeout'
    v, d = [], None
    if p.returncode == 0:
        s = json.load(open(of))
        v = s['violations'] + s.get('suspects', [])
        d = s.get('digests', {}).get(str(case))
    return p.returncode, v, d, p.stderr.decode(errors='replace')


def run(prop, meta, tier, seed, a, t0):
    from k2v import main
    b = {'kind': 'release', 'lib': build.REL + '/lib', 'wall_s': 0} if a.no_build else build.release()
    plain = build.env_for('release', b['lib'])
    so = library()
    envs = {m: dict(plain, LD_PRELOAD=so, K2V_POISON=m) for m in MODES}
    if a.replay:
        v = json.load(open(a.replay))
        got, bad = {}, False
        for m in MODES:
            envs[m].update(VERIF_SEED=str(v['seed']), VERIF_TIER=v['tier'])
            rc, vs, d, err = one(prop, envs[m], v['case'], m, 'replay')
            got[m] = d
            print(m, rc, d, str(vs)[:500])
            bad |= rc != 0 or bool(vs)
        bad |= len({json.dumps(x) for x in got.values()}) > 1
        print(f'VIOLATION property={prop} replay={a.replay}' if bad else 'replay: no violation')
        return 1 if bad else 0
    n = a.cases or meta['cases'][tier]
    budget = a.budget or meta['budget'][tier]
    sts = {}

    def go(m):
        sts[m] = main.run_pool(prop, meta, envs[m], tier, seed, n, 2, budget, 120, m, mode=m)
    ts = [threading.Thread(target=go, args=(m,)) for m in MODES]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    st = sts['zero']
    viol = []
    same = 0
    # crashes and failing inner cases: only those that a plain run does not have
    seen = {}
    for m in MODES:
        s = sts[m]
        for v in s['violations']:
            if v.get('kind'):
                rc, vs, _, _ = one(prop, plain, v['case'], 'plain', 'plain')
                if rc != 0 or vs:
                    same += 1
                    continue
                v['key'] = 'poisoned-' + v['key']
            viol.append(v)
        for i, name, why in sorted(s['suspects']):
            if seen.setdefault((m, name, why[:40]), 0) >= 2 or len(seen) > 40:
                continue
            seen[(m, name, why[:40])] += 1
            rc, vs, _, _ = one(prop, plain, i, 'plain', 'plain')
            if rc != 0 or vs:
                same += 1
                continue
            rc, vs, _, err = one(prop, envs[m], i, m, 'again')
            if rc != 0 or vs:
                viol.append({'key': f'poisoned:{name}', 'msg': f'fails only when heap memory is filled ({m}): {why}',
                             'tb': err[-3000:], 'case': i, 'seed': seed, 'tier': tier, 'mode': m, 'kind': 'poison'})
    # digests
    compared = pairs = 0
    for i in st['digests']:
        ds = {m: sts[m]['digests'][i] for m in MODES if i in sts[m]['digests']}
        compared += 1
        pairs += len(ds) - 1
        if len({d[1] for d in ds.values()}) > 1:
            name = ds['zero'][0]
            viol.append({'key': f'differs:{name}', 'msg': f'outcome of the same call differs between processes: '
                         f'{ {m: d[1][:8] for m, d in ds.items()} }',
                         'case': int(i), 'seed': seed, 'tier': tier, 'mode': 'zero', 'kind': 'digest'})
    for m in MODES[1:]:
        s = sts[m]
        for k in ('evaluations', 'oracle_checks', 'crashes', 'hangs', 'lost'):
            st[k] += s[k]
        for k, x in s['counters'].items():
            st['counters'][k] = st['counters'].get(k, 0) + x
        st['sigs'] |= s['sigs']
        st['stopped_early'] |= s['stopped_early']
        st['lost_err'] = s.get('lost_err', st.get('lost_err', ''))
    st['oracle_checks'] += pairs
    st['counters']['calls-compared'] = compared
    st['counters']['digest-comparisons'] = pairs
    st['violations'] = viol
    st['extra'] = {'heap_patterns': MODES, 'failed_without_poison_too': same}
    os.unlink(so)
    return main.finish(prop, tier, seed, meta, st, t0, [b])
