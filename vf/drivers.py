"""The two drivers a harness runs under: SymS (symbolic, python3-vt) and ConS (concrete replay, any Python >= 3.9)."""
import math


class _Base:
    sym = False

    def __init__(self):
        self._cleanup = []
        self.exc_label = None
        self.cfg = {}

    def defer(self, fn):
        self._cleanup.append(fn)

    def cleanup(self):
        while self._cleanup:
            fn = self._cleanup.pop()
            try:
                fn()
            except Exception:
                pass
        self.exc_label = None

    # helpers shared by both
    def ints(self, name, n, lo, hi):
        return [self.int(f'{name}{i}', lo, hi) for i in range(n)]

    def floats(self, name, n, **k):
        return [self.float(f'{name}{i}', **k) for i in range(n)]

    def length(self, name, lo, hi):
        """a symbolic size, made concrete by forking over all its values"""
        return self.choice(name, hi - lo + 1) + lo

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]


class SymS(_Base):
    sym = True

    def __init__(self):
        super().__init__()
        import z3
        from . import engine
        self.z3 = z3
        self.en = engine

    @property
    def ex(self):
        return self.en.CUR

    def int(self, name, lo=None, hi=None):
        ex, z3 = self.ex, self.z3
        n = ex.name(name)
        v = z3.Int(n)
        ex.vars[n] = ('int', v)
        if lo is not None:
            ex.add(v >= lo)
        if hi is not None:
            ex.add(v <= hi)
        return self.en.SInt(v)

    def bool(self, name):
        ex = self.ex
        n = ex.name(name)
        v = self.z3.Bool(n)
        ex.vars[n] = ('bool', v)
        return self.en.SBool(v)

    def flag(self, name):
        """a boolean decided now (forks)"""
        ex = self.ex
        n = ex.name(name)
        v = self.z3.Bool(n)
        ex.vars[n] = ('bool', v)
        k = ex.fork(2)
        ex.add(v if k == 0 else self.z3.Not(v))
        return k == 0

    def float(self, name, lo=None, hi=None, nan=False, inf=False, npy=False):
        """a float: any real in [lo, hi]; optionally also nan / +inf / -inf"""
        ex, z3, en = self.ex, self.z3, self.en
        n = ex.name(name)
        v = z3.Real(n)
        bn = z3.Bool(n + '.nan') if nan else False
        bp = z3.Bool(n + '.pinf') if inf else False
        bm = z3.Bool(n + '.ninf') if inf else False
        if nan and inf:
            ex.add(z3.And(z3.Not(z3.And(bn, bp)), z3.Not(z3.And(bn, bm)), z3.Not(z3.And(bp, bm))))
        elif inf:
            ex.add(z3.Not(z3.And(bp, bm)))
        if lo is not None:
            ex.add(v >= en._to_x(lo).v)
        if hi is not None:
            ex.add(v <= en._to_x(hi).v)
        x = en.XReal(v, bn, bp, bm, npy)
        ex.vars[n] = ('real', x)
        return x

    def choice(self, name, n):
        if n == 1:
            return 0
        ex = self.ex
        nm = ex.name(name)
        v = self.z3.Int(nm)
        ex.vars[nm] = ('int', v)
        k = ex.fork(n)
        ex.add(v == k)
        return k

    def assume(self, c):
        self.ex.assume(c)

    def check(self, c, label):
        self.ex.check(c, label)

    def cover(self, label):
        self.ex.covers[label] = self.ex.covers.get(label, 0) + 1

    def observe(self, label, value):
        self.ex.observed.append((label, value))

    def stop(self):
        self.ex.die(self.en.PathAbort())

    # non-forking logic
    def all(self, cs):
        return self.en.mkbool(self.z3.And(*[self.en._b(c) for c in cs])) if cs else True

    def any(self, cs):
        return self.en.mkbool(self.z3.Or(*[self.en._b(c) for c in cs])) if cs else False

    def not_(self, c):
        return self.en.mkbool(self.z3.Not(self.en._b(c)))

    def implies(self, a, b):
        return self.en.mkbool(self.z3.Implies(self.en._b(a), self.en._b(b)))

    def iff(self, a, b):
        return self.en.mkbool(self.en._b(a) == self.en._b(b))

    def ite(self, c, a, b):
        return self.en.ite(c, a, b)

    def min(self, seq):
        return self.en.shim_min(list(seq))

    def max(self, seq):
        return self.en.shim_max(list(seq))

    def isfinite(self, x):
        return self.en._to_x(x).isfinite()

    def isnan(self, x):
        return self.en._to_x(x).isnan()

    def same(self, a, b):
        """bit-for-bit same float value (nan equals nan)"""
        en = self.en
        a, b = en._to_x(a), en._to_x(b)
        return en.mkbool(en.z_or(a._eq(b), en.z_and(a.nan, b.nan)))

    def close(self, a, b, tol=1e-9):
        """equal up to float rounding"""
        return self.same(a, b)

    def le(self, a, b, tol=1e-9):
        return a <= b

    def clear(self, a, b, tol=1e-9):
        """during a replay: give up on cases that float rounding could decide either way"""


def _close(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    if math.isinf(a) or math.isinf(b) or a != a or b != b:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Stop(BaseException):
    pass


class ConS(_Base):
    """Concrete driver: values come from a model; checks are evaluated by the real code."""

    def __init__(self, values, cfg=None):
        super().__init__()
        self.values = values
        self.counts = {}
        self.failed = []
        self.passed = []
        self.missing = []
        self.observed = []
        self.cfg = cfg or {}

    def _name(self, base):
        k = self.counts.get(base, 0)
        self.counts[base] = k + 1
        return base if k == 0 else f'{base}#{k}'

    def _get(self, name, default):
        n = self._name(name)
        if n in self.values:
            return self.values[n]
        self.missing.append(n)
        return default

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else (hi if hi is not None else 0))

    def bool(self, name):
        return self._get(name, False)

    def flag(self, name):
        return self._get(name, False)

    def float(self, name, lo=None, hi=None, nan=False, inf=False, npy=False):
        v = float(self._get(name, float(lo) if lo is not None else (float(hi) if hi is not None else 0.0)))
        if npy:
            import numpy
            v = numpy.float64(v)
        return v

    def choice(self, name, n):
        if n == 1:
            return 0
        return self._get(name, 0)

    def assume(self, c):
        if not c:
            raise Stop('assumption')

    def check(self, c, label):
        if c:
            self.passed.append(label)
        else:
            self.failed.append(label)
            raise Stop('failed ' + label)

    def cover(self, label):
        pass

    def observe(self, label, value):
        self.observed.append((label, value))

    def stop(self):
        raise Stop('stop')

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, seq):
        return min(seq)

    def max(self, seq):
        return max(seq)

    def isfinite(self, x):
        return math.isfinite(x)

    def isnan(self, x):
        return x != x

    def same(self, a, b):
        return a == b or (a != a and b != b)

    def close(self, a, b, tol=1e-9):
        return _close(float(a), float(b), tol)

    def le(self, a, b, tol=1e-9):
        return a <= b or _close(float(a), float(b), tol)

    def clear(self, a, b, tol=1e-9):
        a, b = float(a), float(b)
        if a != b and _close(a, b, tol):
            raise Stop('rounding')


def plain(v):
    """JSON-able rendering of an observation"""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, 'tolist') and hasattr(v, 'dtype'):
        return plain(v.tolist())
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(type(v).__name__)


def obs_equal(a, b, tol=1e-6):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_equal(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return _close(float(a), float(b), tol)
    return a == b
