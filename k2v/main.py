"""Parent of a check: build, run workers, judge, write evidence."""
import argparse
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import time

from k2v import build

VERIF = build.VERIF


def load_meta(prop):
    """Property modules import k2/torch only inside functions, except workers';
    the parent reads plain data from the sibling table."""
    from k2v import meta
    return meta.META[prop]


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {e['key']: e for e in json.load(open(p))['findings'] if e['property'] == prop}


def run_pool(prop, meta, env, tier, seed, ncases, nw, budget, case_limit, tag, mode=''):
    """Runs cases [0,ncases) over nw workers; returns merged stats."""
    out = os.path.join(build.WORK, f'{prop}-{tag}')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    t0 = time.time()
    merged = {'evaluations': 0, 'oracle_checks': 0, 'skipped': 0, 'counters': {}, 'samples': [],
              'sigs': set(), 'violations': [], 'crashes': 0, 'hangs': 0, 'stopped_early': False,
              'lost': 0, 'suspects': [], 'digests': {}}
    jobs = [{'start': w, 'gen': 0, 'w': w} for w in range(min(nw, ncases))]
    running = []

    def launch(j):
        of = os.path.join(out, f'w{j["w"]}-{j["gen"]}.json')
        ef = open(of + '.err', 'wb')
        cmd = [build.PY, '-m', 'k2v.worker', prop, '--start', str(j['start']), '--stride', str(nw),
               '--end', str(ncases), '--out', of, '--deadline', str(t0 + budget), '--mode', mode]
        p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=ef, cwd=out, start_new_session=True)
        running.append(dict(j, p=p, of=of, ef=ef, t=time.time()))

    def merge(of):
        if not os.path.exists(of):
            return
        s = json.load(open(of))
        for k in ('evaluations', 'oracle_checks', 'skipped'):
            merged[k] += s[k]
        for k, v in s['counters'].items():
            merged['counters'][k] = merged['counters'].get(k, 0) + v
        merged['samples'] += s['samples']
        merged['sigs'] |= set(s['sigs'])
        merged['violations'] += s['violations']
        merged['digests'].update(s.get('digests', {}))
        merged['suspects'] += s.get('suspects', [])[:50]
        merged['stopped_early'] |= s['stopped_early']

    def prog(r):
        try:
            s = open(r['of'] + '.prog').read().split()
            return (int(s[0]), float(s[1])) if s and s[0] != 'done' else None
        except (OSError, ValueError, IndexError):
            return None

    for j in jobs:
        launch(j)
    while running:
        time.sleep(0.05)
        for r in list(running):
            rc = r['p'].poll()
            pr = prog(r)
            hang = False
            if rc is None:
                if pr and time.time() - pr[1] > case_limit:
                    hang = True
                elif not pr and time.time() - r['t'] > 300:
                    hang = True
                if not hang:
                    continue
                try:
                    os.killpg(r['p'].pid, signal.SIGABRT)
                    time.sleep(0.5)
                    os.killpg(r['p'].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                r['p'].wait()
            running.remove(r)
            r['ef'].close()
            merge(r['of'])
            if rc == 0 and not hang:
                continue
            err = open(r['of'] + '.err', errors='replace').read()
            fault = ''
            try:
                fault = open(r['of'] + '.fault', errors='replace').read()
            except OSError:
                pass
            if pr is None:
                merged['lost'] += 1
                merged['lost_err'] = err[-3000:]
                continue
            kind = 'hang' if hang else 'crash'
            merged['hangs' if hang else 'crashes'] += 1
            merged['violations'].append({
                'key': classify_crash(err, fault, kind, rc), 'msg': f'{kind} (exit {rc}) while running the case',
                'tb': (err[-6000:] + '\n' + fault[-3000:]), 'case': pr[0], 'seed': seed, 'tier': tier,
                'mode': mode, 'kind': kind})
            if merged['crashes'] + merged['hangs'] < 6 and pr[0] + nw < ncases and time.time() < t0 + budget:
                launch({'start': pr[0] + nw, 'gen': r['gen'] + 1, 'w': r['w']})
    merged['wall'] = time.time() - t0
    return merged


def classify_crash(err, fault, kind, rc):
    import re
    if kind == 'hang':
        m = re.findall(r'File "[^"]*/k2v/props/(\w+)\.py", line \d+ in (\w+)', fault)
        return 'hang:' + (m[0][1] if m else '?')
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (k2\w*::[\w:~]+)', err)
        return f'asan:{m.group(1)}:{fr[0] if fr else "?"}'
    m = re.search(r'([\w./-]+):\d+:\d+: runtime error: (.{0,80})', err)
    if m:
        return f'ubsan:{os.path.basename(m.group(1))}:{re.sub(r"[0-9]+", "N", m.group(2))}'
    m = re.findall(r'File "[^"]*/k2v/props/(\w+)\.py", line \d+ in (\w+)', fault)
    return f'crash:{m[0][1] if m else "?"}'


def finish(prop, tier, seed, meta, stats, t0, builds):
    ev = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(ev, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    kf = known(prop)
    seen = {}
    nviol = 0
    khit = set()
    lines = []
    for v in stats['violations']:
        if v['key'] in kf:
            khit.add(v['key'])
            continue
        nviol += 1
        if v['key'] in seen:
            continue
        seen[v['key']] = v
        path = os.path.join(rdir, f'{prop}-{len(seen)}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        if len(lines) < 10:
            lines.append((v, path))
    for k in sorted(khit):
        print(f'KNOWN-FINDING: property={prop} {kf[k]["what"]}')
    for v, path in lines:
        print(f'  {v["key"]}: {v["msg"][:600]}')
        print(f'VIOLATION property={prop} replay={path}')
    cov = {'evaluations': stats['evaluations'],
           'distinct_nontrivial': len(stats['sigs']),
           'rule': meta['rule'],
           'samples': stats['samples'][:5],
           'oracle_checks': stats['oracle_checks'],
           'skipped_out_of_domain': stats['skipped'],
           'counters': dict(sorted(stats['counters'].items())),
           'stopped_at_time_budget': stats['stopped_early'],
           'builds': builds}
    cov.update(stats.get('extra', {}))
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'exploration'),
         'coverage': cov, 'assumptions': meta.get('assumptions', []),
         'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(ev, exist_ok=True)
    tmp = os.path.join(ev, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(ev, prop + '.json'))
    print(f'{prop} {tier} seed={seed}: {stats["evaluations"]} cases, {len(stats["sigs"])} distinct, '
          f'{stats["oracle_checks"]} oracle checks, {nviol} violations, {e["wall_s"]}s')
    if nviol:
        return 1
    if stats['lost']:
        print('INCONCLUSIVE: a worker died before its first case', stats.get('lost_err', '')[-1500:])
        return 3
    for name, m in meta.get('min', {}).items():
        got = (stats['evaluations'] if name == 'evaluations' else
               stats['oracle_checks'] if name == 'oracle_checks' else stats['counters'].get(name, 0))
        if got < m:
            print(f'INCONCLUSIVE: monitor counter {name}={got} < {m}')
            return 3
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.environ['VERIF_SEED'] = str(seed)
    os.environ['VERIF_TIER'] = tier
    meta = load_meta(prop)
    os.makedirs(build.WORK, exist_ok=True)
    try:
        rc = run(prop, meta, tier, seed, a, t0)
    except build.BuildError as e:
        print('BUILD FAILED:', e)
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)


def run(prop, meta, tier, seed, a, t0):
    if meta.get('runner'):
        import importlib
        return importlib.import_module('k2v.' + meta['runner']).run(prop, meta, tier, seed, a, t0)
    if a.no_build:
        b = {'kind': 'release', 'lib': build.REL + '/lib', 'wall_s': 0}
    else:
        b = build.release()
    env = build.env_for('release', b['lib'])
    if a.replay:
        v = json.load(open(a.replay))
        env['VERIF_SEED'] = str(v['seed'])
        env['VERIF_TIER'] = v['tier']
        of = os.path.join(build.WORK, f'replay-{prop}.json')
        p = subprocess.run([build.PY, '-m', 'k2v.worker', prop, '--only', str(v['case']), '--out', of,
                            '--mode', v.get('mode', '')], env=env)
        if p.returncode != 0:
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        s = json.load(open(of))
        for x in s['violations']:
            print(json.dumps(x, indent=1))
        if s['violations']:
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        print('replay: no violation')
        return 0
    n = a.cases or meta['cases'][tier]
    budget = a.budget or meta.get('budget', {'quick': 150, 'thorough': 800})[tier]
    st = run_pool(prop, meta, env, tier, seed, n, 8, budget, meta.get('case_limit', 120), 'rel')
    return finish(prop, tier, seed, meta, st, t0, [b])


if __name__ == '__main__':
    main()
