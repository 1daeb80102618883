"""Native drivers (native/nd_*.cc): small programs that call the C++ API of the
libraries under test and compare with sequential models. Each module is
compiled against the headers of /repo's working tree."""
import json
import os
import re
import subprocess
import threading
import time

from k2v import build

SRC = os.path.join(build.VERIF, 'native')
DEF = ['-DCUB_WRAPPED_NAMESPACE=k2', '-DK2_TORCH_VERSION_MAJOR=2', '-DK2_TORCH_VERSION_MINOR=4', '-DK2_USE_PYTORCH',
       '-DTHRUST_NS_QUALIFIER=thrust', '-D_GLIBCXX_USE_CXX11_ABI=0', '-std=c++17', '-fPIC', '-w',
       f'-I{build.TORCH}/include/torch/csrc/api/include', f'-I{build.TORCH}/include', f'-I{build.REPO}', '-I/usr/include/python3.12']
LIBS = ['-lk2context', '-lk2_log', '-lk2fsa', f'-L{build.TORCH}/lib', '-ltorch', '-ltorch_cpu', '-lc10', '-pthread']


API_LIBS = ['-lk2_torch_api', '-lk2_torch', *LIBS]


def compile_one(mod, kind, lib, out, pre='nd'):
    flags = {'release': ['-O1', '-DNDEBUG', '-shared'], 'tsan': build.SAN['tsan'].split(), 'asan': build.SAN['asan'].split()}[kind]
    src = [os.path.join(SRC, f'{pre}_{mod}.cc')] + ([] if kind == 'release' or pre == 'na' else [os.path.join(SRC, 'nd_main.cc')])
    cmd = ['g++', *DEF, *flags, *src, '-o', out, f'-L{lib}', *(API_LIBS if pre == 'na' else LIBS), f'-Wl,-rpath,{lib}:{build.TORCH}/lib']
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.stderr if p.returncode else ''


def modules(mods, kind, lib, pre='nd'):
    """Compiles the modules side by side: ({module: path}, {module: compiler's words})."""
    d = os.path.join(build.WORK, f'{pre}-{kind}')
    os.makedirs(d, exist_ok=True)
    good, bad = {}, {}

    def go(m):
        out = os.path.join(d, ('lib' if kind == 'release' else '') + f'{pre}_{m}' + ('.so' if kind == 'release' else ''))
        if os.path.exists(out):
            os.unlink(out)
        e = compile_one(m, kind, lib, out, pre)
        if e:
            bad[m] = [x for x in e.splitlines() if 'error' in x or 'undefined' in x][:3] or e[-500:]
        else:
            good[m] = out
    ts = [threading.Thread(target=go, args=(m,)) for m in mods]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for m in bad:
        build.log(f'native driver {m} ({kind}) does not compile against this tree, its cases are left out:', bad[m])
    if not good:
        raise build.BuildError('no native driver compiles: ' + str(bad)[:2000])
    return good, bad


class Lib:
    """A module loaded into this process."""

    def __init__(self, path):
        import ctypes
        self.c = ctypes
        self.run_ = ctypes.CDLL(path).nd_run
        self.run_.argtypes = [ctypes.c_uint64, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]

    def run(self, seed, only=''):
        """(exit code, counters, message)"""
        buf = self.c.create_string_buffer(1 << 15)
        rc = self.run_(seed, only.encode(), buf, 1 << 15)
        return (rc, *parse(buf.value.decode(errors='replace')))


def parse(text):
    n, msg = {}, ''
    for ln in text.splitlines():
        k, tab, v = ln.partition('\t')
        if k == '!':
            msg = v
        elif tab and v.isdigit():
            n[k] = n.get(k, 0) + int(v)
        elif msg:
            msg += '\n' + ln
    return n, msg


def reason(rc, msg):
    """A short key and the words for a failed run."""
    if rc == 2:
        m = re.search(r'Check failed[^\n]{0,300}', msg)
        f = re.search(r'/(\w+\.\w+):\d+:', msg)
        return 'refused:' + (f.group(1) if f else '?'), 'an exception on valid input: ' + (m.group(0) if m else msg[:400])
    return 'model:' + re.sub(r'[^A-Za-z0-9_]+', '-', re.split(r'[:,]|\d', msg)[0])[:60].strip('-'), msg[:800]


def programs(tag, progs, env, seed, budget, step, nproc, seed_limit, first=0):
    """Runs sanitized driver programs over ranges of seeds until the budget is used.
    Returns counters, runs and the list of (module, seed, kind, report)."""
    end = time.time() + budget
    cnt, bad, runs, nxt = {}, [], {m: 0 for m in progs}, {m: first for m in progs}
    lock = threading.Lock()
    order = sorted(progs)

    def one(m, a, b):
        of = os.path.join(build.WORK, f'{tag}-{m}-{a}.out')
        with open(of, 'wb') as f:
            p = subprocess.Popen([progs[m], str(seed * 1000003 + a), str(seed * 1000003 + b)], env=env, stdout=f, stderr=subprocess.STDOUT)
            last, size = time.time(), 0
            while p.poll() is None:
                time.sleep(.05)
                n = os.path.getsize(of)
                if n != size:
                    size, last = n, time.time()
                if time.time() - last > seed_limit:
                    p.kill()
                    p.wait()
                    break
            hang = p.returncode == -9
        t = open(of, errors='replace').read()
        os.unlink(of)
        cur = re.findall(r'^=(\d+)$', t, re.M)
        n, _ = parse(re.sub(r'^[=~].*$', '', t, flags=re.M))
        with lock:
            for k, v in n.items():
                cnt[k] = cnt.get(k, 0) + v
            done = len(re.findall(r'^~\d+$', t, re.M))
            runs[m] += done
            for s, body, rc in re.findall(r'^=(\d+)\n(.*?)^~(\d+)$', t, re.M | re.S):
                if rc != '0':
                    k, w = reason(int(rc), parse(body)[1])
                    bad.append((m, int(s), k, w, body[-4000:]))
            if p.returncode != 0 and not [x for x in bad if x[0] == m and a <= x[1] - seed * 1000003 < b] or 'WARNING: ThreadSanitizer' in t or 'ERROR: AddressSanitizer' in t or 'runtime error:' in t:
                at = int(cur[-1]) if cur else seed * 1000003 + a
                r = re.search(r'^=(\d+)(?:(?!^=).)*?(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|runtime error:)', t, re.M | re.S)
                if r:
                    at = int(r.group(1))
                bad.append((m, at, *classify(t, hang, p.returncode), report(t)))

    def loop():
        i = 0
        while time.time() < end and len(bad) < 20:
            with lock:
                m = min(order, key=lambda x: nxt[x])
                a = nxt[m]
                nxt[m] += step
            one(m, a, a + step)
            i += 1
    ts = [threading.Thread(target=loop) for _ in range(nproc)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return cnt, runs, bad


def report(t):
    i = [t.find(x) for x in ('WARNING: ThreadSanitizer', 'ERROR: AddressSanitizer', 'runtime error:') if x in t]
    return t[max(0, min(i) - 300):][:6000] if i else t[-3000:]


def classify(t, hang, rc):
    m = re.search(r'SUMMARY: ThreadSanitizer: ([\w -]+?) \S*?([\w.]+):\d+(?::\d+)? in ([\w:~]+)', t)
    if m:
        return f'tsan:{m.group(1)}:{m.group(3)}', f'ThreadSanitizer: {m.group(1)} in {m.group(3)} ({m.group(2)})'
    if 'WARNING: ThreadSanitizer' in t:
        m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', t)
        return 'tsan:' + m.group(1).strip(), 'ThreadSanitizer: ' + m.group(1)
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t)
    if m:
        return 'asan:' + m.group(1), 'AddressSanitizer: ' + m.group(1)
    m = re.search(r'runtime error: ([^\n]{0,100})', t)
    if m:
        return 'ubsan:' + re.sub(r'\d+', 'N', m.group(1)), m.group(1)
    return ('hang', 'a run that does not end') if hang else ('crash', f'the process ended with {rc}')
