"""Case context: oracle bookkeeping shared by all property modules."""
import hashlib
import json
import random
import traceback


class CaseFail(Exception):
    """Raised by ctx.fail: the oracle refuted the property on this case."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Ctx:
    def __init__(self, prop, seed, idx, tier, stats, verbose=False):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        self.rng = random.Random(f'{seed}/{prop}/{idx}')
        self.stats = stats
        self.notes = []
        self.verbose = verbose
        self.nontrivial = False
        self._sig = []

    # --- coverage
    def count(self, name, n=1):
        c = self.stats['counters']
        c[name] = c.get(name, 0) + n

    def sig(self, *parts):
        """Adds to the signature deciding whether the case is distinct."""
        self._sig.append(repr(parts))
        self.nontrivial = True

    def note(self, **kw):
        """Details written out when the case fails or is sampled."""
        self.notes.append({k: _short(v) for k, v in kw.items()})

    # --- oracles
    def fail(self, key, msg, **kw):
        if kw:
            self.note(**kw)
        raise CaseFail(key, msg)

    def ok(self, cond, key, msg='', **kw):
        self.stats['oracle_checks'] += 1
        self.count('chk:' + key)
        if not cond:
            self.fail(key, msg, **kw)

    def eq(self, got, want, key, msg='', **kw):
        self.stats['oracle_checks'] += 1
        self.count('chk:' + key)
        if not (got == want):
            self.fail(key, f'{msg}: got {_short(got)} want {_short(want)}', **kw)

    def close(self, got, want, key, msg='', tol=1e-4, rel=1e-4, **kw):
        self.stats['oracle_checks'] += 1
        self.count('chk:' + key)
        if not near(got, want, tol, rel):
            self.fail(key, f'{msg}: got {got} want {want}', **kw)

    def closes(self, got, want, key, msg='', tol=1e-4, rel=1e-4, **kw):
        got, want = list(got), list(want)
        self.stats['oracle_checks'] += 1
        self.count('chk:' + key)
        if len(got) != len(want):
            self.fail(key, f'{msg}: {len(got)} values, want {len(want)}', got=got, want=want, **kw)
        for i, (a, b) in enumerate(zip(got, want)):
            if not near(a, b, tol, rel):
                self.fail(key, f'{msg}: element {i}: got {a} want {b}', got=got, want=want, **kw)

    def raises(self, f, key, msg='', exc=Exception):
        self.stats['oracle_checks'] += 1
        self.count('chk:' + key)
        try:
            r = f()
        except exc as e:
            return e
        self.fail(key, f'{msg}: no exception, returned {_short(r)}')


INF = float('inf')


def near(a, b, tol=1e-4, rel=1e-4):
    if a == b:
        return True
    if a != a or b != b:
        return (a != a) and (b != b)
    if abs(a) == INF or abs(b) == INF:
        return False
    return abs(a - b) <= tol + rel * max(abs(a), abs(b))


def _short(v, n=1500):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + f'...({len(s)} chars)'


def sighash(parts):
    return hashlib.md5('|'.join(parts).encode()).hexdigest()[:16]
