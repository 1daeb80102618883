"""Runner of C25: the workloads of C01..C24 on an ASan+UBSan build."""
import json
import os
import subprocess

from k2v import build


def one(prop, env, case, mode, tag):
    """Runs one case in a fresh process; returns (exit code, violations, stderr)."""
    of = os.path.join(build.WORK, f'one-{prop}-{tag}.json')
    p = subprocess.run([build.PY, '-m', 'k2v.worker', prop, '--only', str(case), '--out', of, '--mode', mode],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
    v = []
    if p.returncode == 0:
        s = json.load(open(of))
        v = s['violations'] + s.get('suspects', [])
    return p.returncode, v, p.stderr.decode(errors='replace')


def run(prop, meta, tier, seed, a, t0):
    from k2v import main
    if a.no_build and os.path.exists(os.path.join(build.WORK, 'b-asan', 'lib')):
        b = {'kind': 'asan', 'lib': os.path.join(build.WORK, 'b-asan', 'lib'), 'wall_s': 0}
    else:
        b = build.sanitized('asan')
    env = build.env_for('asan', b['lib'])
    if a.replay:
        v = json.load(open(a.replay))
        env['VERIF_SEED'] = str(v['seed'])
        env['VERIF_TIER'] = v['tier']
        rc, vs, err = one(prop, env, v['case'], 'asan', 'replay')
        print(err[-6000:])
        bad = rc != 0 or (v['key'].startswith('debug-check') and vs)
        print(f'VIOLATION property={prop} replay={a.replay}' if bad else 'replay: no violation')
        return 1 if bad else 0
    n = a.cases or meta['cases'][tier]
    budget = a.budget or meta['budget'][tier]
    st = main.run_pool(prop, meta, env, tier, seed, n, 8, budget, meta.get('case_limit', 240), 'asan', mode='asan')
    builds = [b]
    # An allocation request ASan's operator new cannot refuse with an exception
    # (a text naming state number 250,000,000): not a memory error.
    big = [v for v in st['violations'] if v.get('kind') == 'crash' and any(
        x in v['tb'] for x in ('AddressSanitizer: out of memory', 'AddressSanitizer: allocation-size-too-big',
                               'AddressSanitizer: requested allocation size'))]
    st['violations'] = [v for v in st['violations'] if v not in big]
    # A case that fails here is repeated on the release build.
    todo, seen = [], {}
    for i, name, why in sorted(st['suspects']):
        k = (name, why[:60])
        if seen.setdefault(k, 0) < 2 and len(todo) < 24:
            seen[k] += 1
            todo.append((i, name, why))
    same = 0
    if todo:
        r = {'kind': 'release', 'lib': build.REL + '/lib', 'wall_s': 0} if a.no_build else build.release()
        builds.append(r)
        renv = build.env_for('release', r['lib'])
        for i, name, why in todo:
            rc, vs, _ = one(prop, renv, i, 'rel', 'rel')
            if rc != 0 or vs:
                same += 1                 # belongs to another property
                continue
            rc, vs, err = one(prop, env, i, 'asan', 'again')
            if rc != 0 or vs:
                st['violations'].append({
                    'key': f'debug-check:{name}', 'msg': f'the debug build fails where the release build passes: {why}',
                    'tb': err[-6000:], 'case': i, 'seed': seed, 'tier': tier, 'mode': 'asan', 'kind': 'debug'})
    st['extra'] = {'allocation_limit_hits': len(big), 'failed_on_both_builds': same, 'suspects': len(st['suspects']),
                   'sanitizers': 'AddressSanitizer, UndefinedBehaviorSanitizer (halt on first report), '
                                 'K2_DCHECK enabled, _GLIBCXX_ASSERTIONS'}
    return main.finish(prop, tier, seed, meta, st, t0, builds)
