"""Builds of /repo's current working tree: release (in the project's own build
directory) and sanitized (in a private directory outside /repo)."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import time

REPO = os.environ.get('K2V_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv'
PY = VENV + '/bin/python'
TORCH = VENV + '/lib/python3.12/site-packages/torch'
REL = os.environ.get('K2V_REL', '/opt/k2-build')
WORK = os.environ.get('K2V_WORK', '/tmp/k2v-work')


def log(*a):
    print('[k2v]', *a, file=sys.stderr, flush=True)


def _run(cmd, env=None, logfile=None, timeout=None):
    with open(logfile, 'ab') as f:
        return subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT,
                              timeout=timeout).returncode


def _touch_changed():
    """Ninja decides by time stamps. A source file whose content differs from
    the tree the sandbox's build directory was made from is touched, so that an
    edit carrying an old time stamp is never missed."""
    base = os.path.join(VERIF, 'base_sources.json')
    known = json.load(open(base)) if os.path.exists(base) else {}
    n = 0
    for root in ('k2/csrc', 'k2/python/csrc', 'k2/torch/csrc'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if not f.endswith(('.cu', '.h', '.cc', '.in', '.txt')):
                    continue
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    h = hashlib.sha256(fh.read()).hexdigest()
                if known.get(os.path.relpath(p, REPO)) != h:
                    try:
                        os.utime(p)
                        n += 1
                    except OSError:
                        pass
    return n


class BuildError(Exception):
    pass


def release():
    t = time.time()
    os.makedirs(WORK, exist_ok=True)
    lf = os.path.join(WORK, 'build-rel.log')
    n = _touch_changed()
    env = dict(os.environ, K2_NATIVE_ONLY='1')
    if subprocess.run(['test', '-d', REL]).returncode != 0:
        os.makedirs(REL, exist_ok=True)
    rc = _run(['bash', '/opt/vp/build.sh'], env=env, logfile=lf)
    if rc != 0:
        sys.stderr.write(open(lf, errors='replace').read()[-3000:])
        raise BuildError('release build failed')
    dt = time.time() - t
    log(f'release build ok in {dt:.1f}s ({n} files touched)')
    return {'kind': 'release', 'lib': REL + '/lib', 'wall_s': round(dt, 1), 'touched': n}


SAN = {
    'asan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined '
            '-fno-sanitize=vptr,nonnull-attribute -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS',
    'tsan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -DNDEBUG',
}


def sanitized(kind, targets=('fsa', 'k2_log', 'context', '_k2')):
    t = time.time()
    os.makedirs(WORK, exist_ok=True)
    b = os.path.join(WORK, 'b-' + kind)
    lf = os.path.join(WORK, f'build-{kind}.log')
    cmd = ['cmake', '-S', REPO, '-B', b, '-G', 'Ninja',
           '-DCMAKE_MODULE_PATH=/opt/vp/cmake', '-DCMAKE_BUILD_TYPE=Debug',
           '-DCMAKE_CXX_FLAGS=' + SAN[kind], '-DCMAKE_CXX_FLAGS_DEBUG=',
           '-DCMAKE_CXX_STANDARD=17', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
           '-DK2_WITH_CUDA=OFF', '-DK2_ENABLE_TESTS=OFF', '-DK2_ENABLE_BENCHMARK=OFF',
           '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
           f'-DPython3_EXECUTABLE={PY}',
           f'-DTORCH_LIBRARY={TORCH}/lib/libtorch.so',
           f'-DTORCH_LIBRARIES={TORCH}/lib/libtorch.so;{TORCH}/lib/libtorch_cpu.so;{TORCH}/lib/libc10.so',
           '-DTORCH_CXX_FLAGS=-D_GLIBCXX_USE_CXX11_ABI=0']
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    rc = _run(cmd, env=env, logfile=lf)
    if rc == 0:
        rc = _run(['cmake', '--build', b, '-j', '8', '--target', *targets], env=env, logfile=lf)
    if rc != 0:
        sys.stderr.write(open(lf, errors='replace').read()[-3000:])
        raise BuildError(f'{kind} build failed')
    dt = time.time() - t
    log(f'{kind} build ok in {dt:.1f}s')
    return {'kind': kind, 'lib': b + '/lib', 'wall_s': round(dt, 1)}


def _lib(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], capture_output=True,
                          text=True).stdout.strip()


def env_for(kind, lib, extra=None):
    e = {k: v for k, v in os.environ.items()
         if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'VERIF_SEED', 'VERIF_TIER', 'K2V_WORK')}
    e.update(PYTHONPATH=f'{VERIF}:{REPO}/k2/python:{lib}', OMP_NUM_THREADS='1',
             MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
             LC_ALL='C.UTF-8', K2_LOG_LEVEL='FATAL')
    if kind == 'asan':
        e['LD_PRELOAD'] = ' '.join(_lib(x) for x in ('libasan.so', 'libubsan.so', 'libstdc++.so'))
        e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:halt_on_error=1:'
                             'allocator_may_return_null=1:max_allocation_size_mb=4096')
        e['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=1:abort_on_error=1'
    elif kind == 'tsan':
        e['LD_PRELOAD'] = ' '.join(_lib(x) for x in ('libtsan.so', 'libstdc++.so'))
    e.update(extra or {})
    return e
