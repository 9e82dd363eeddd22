"""Environment of the code under test: clock, randomness, missing third-party packages.

Used by both drivers.  Randomness and time are *nondeterministic values* constrained only by their documented contract:
symbolic under the solver, read from the model during a replay."""
import datetime as _dt
import importlib
import math
import os
import random as _random
import sys
import time as _time
import types
import warnings

REPO = os.environ.get('VF_REPO', '/repo')

S = None  # the current driver
MODULES = {}  # module name -> stand-in used by glompo's import statements (symbolic mode)


class Clock:
    """Non-decreasing clock. mode 'sym': every reading is an arbitrary later instant; 'tick': concrete ticks."""

    def __init__(self):
        self.mode = 'tick'
        self.now = 1000.0
        self.step = 1.0
        self.maxstep = 100
        self.reads = []

    def time(self):
        if self.mode == 'real':
            return _real_time()
        if self.mode == 'sym':
            self.now = self.now + S.int('clk', 0, self.maxstep)
        elif self.mode == 'tick':
            self.now = self.now + self.step
        self.reads.append(self.now)
        return self.now


_real_time = _time.time
clock = Clock()


# ---------------------------------------------------------------- randomness
class Rnd:
    """hooks; a harness may replace individual methods. draws: every real number drawn, with its range"""

    def __init__(self):
        self.draws = []
        self.picks = []  # weighted choices: (options, probabilities, index taken)

    def unit(self, tag):
        return S.float(tag, lo=0, hi=1)

    def uniform(self, a=0.0, b=1.0, tag='rnd_uniform'):
        lo, hi = (a, b) if bool(a <= b) else (b, a)
        v = S.float(tag)
        S.assume(v >= lo)
        S.assume(v <= hi)
        self.draws.append((v, a, b))
        return v

    def random(self):
        v = S.float('rnd_random', lo=0)
        S.assume(v < 1)
        self.draws.append((v, 0, 1))
        return v

    def choice(self, seq):
        seq = list(seq)
        return seq[S.choice('rnd_choice', len(seq))]

    def randint(self, a, b):
        v = S.int('rnd_int')
        S.assume(v >= a)
        S.assume(v <= b)
        return v


rnd = Rnd()


class PyRandom(types.ModuleType):
    """stand-in for the random module"""

    def __init__(self):
        super().__init__('random')

    def random(self):
        return rnd.random()

    def uniform(self, a, b):
        return rnd.uniform(a, b)

    def choice(self, seq):
        if isinstance(seq, str):  # checksum characters: all that matters is that no two checksums are the same
            global letters
            letters += 1
            return seq[letters // 15 % len(seq)]
        return rnd.choice(seq)

    def randint(self, a, b):
        return rnd.randint(a, b)

    def randrange(self, a, b=None):
        return rnd.randint(0 if b is None else a, (a if b is None else b) - 1)

    def choices(self, population, weights=None, k=1, **kw):
        if isinstance(population, str):
            return [self.choice(population) for _ in range(k)]
        population = list(population)
        return [rnd.choice(population) for _ in range(k)]

    def sample(self, population, k):
        pop = list(population)
        out = []
        for _ in range(k):
            i = S.choice('rnd_sample', len(pop))
            out.append(pop.pop(i))
        return out

    def shuffle(self, x):
        y = self.sample(list(x), len(x))
        x[:] = y

    def seed(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(_random, name)


class NpRandom(types.ModuleType):
    """stand-in for numpy.random"""

    def __init__(self):
        super().__init__('numpy.random')

    def _shape(self, size):
        if size is None:
            return None
        return (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(i) for i in size)

    def _fill(self, size, f):
        import numpy as np
        sh = self._shape(size)
        if sh is None:
            return f(())
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = f(i)
        if not S.sym:
            out = out.astype(float)
        return out

    def _npy(self, v):
        if S.sym:
            if type(v).__name__ == 'XReal':
                return type(v)(v.v, v.nan, v.pinf, v.ninf, True)
        return v

    def random(self, size=None):
        return self._fill(size, lambda i: self._npy(rnd.random()))

    random_sample = rand_ = sample = ranf = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np
        if size is None:
            if np.ndim(low) or np.ndim(high):
                size = np.broadcast(np.asarray(low, dtype=object), np.asarray(high, dtype=object)).shape
            else:
                return self._npy(rnd.uniform(low, high))
        sh = self._shape(size)
        lo = np.broadcast_to(np.asarray(low, dtype=object), sh)
        hi = np.broadcast_to(np.asarray(high, dtype=object), sh)
        return self._fill(sh, lambda i: self._npy(rnd.uniform(lo[i], hi[i])))

    def choice(self, a, size=None, replace=True, p=None):
        if size is not None:
            raise NotImplementedError('np.random.choice with size')
        seq = list(range(int(a))) if isinstance(a, int) else list(a)
        if p is not None:
            p = list(p)
            # documented contract of numpy: non-negative probabilities that sum to one, and one per entry
            if len(p) != len(seq):
                raise ValueError("'a' and 'p' must have same size")
            tot = 0
            for q in p:
                if not bool(q >= 0):
                    raise ValueError('probabilities are not non-negative')
                tot = tot + q
            if not bool(abs(tot - 1) <= 1e-8):
                raise ValueError('probabilities do not sum to 1')
        k = S.choice('np_choice', len(seq))
        if p is not None:
            S.assume(p[k] > 0)
        rnd.picks.append((seq, p, k))
        return seq[k]

    def randint(self, low, high=None, size=None, dtype=int):
        if size is not None:
            raise NotImplementedError('np.random.randint with size')
        if high is None:
            low, high = 0, low
        return rnd.randint(low, high - 1)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda i: self._npy(S.float('np_normal')))

    def seed(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        import numpy
        return getattr(numpy.random, name)


py_random = PyRandom()
np_random = NpRandom()


class TimeMod(types.ModuleType):
    def __init__(self):
        super().__init__('time')

    def time(self):
        return clock.time()

    monotonic = perf_counter = time

    def sleep(self, s):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(_time, name)


time_mod = TimeMod()


class FakeDateTime(_dt.datetime):
    """datetime whose now() follows the symbolic clock where a harness asks for it"""
    mode = 'epoch'

    @classmethod
    def now(cls, tz=None):
        if cls.mode == 'real':
            return _dt.datetime.now(tz)
        return cls.fixed()

    @classmethod
    def fixed(cls):
        return _dt.datetime(2020, 1, 1)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        try:
            return _dt.datetime.fromtimestamp(t, tz)
        except (TypeError, ValueError):
            return _dt.datetime(2020, 1, 1)


# ---------------------------------------------------------------- third-party stubs (symbolic mode only)
def crash_copy(src, dst):
    """what is left of an open log file when its process is killed"""
    if 'vf.pytab' in sys.modules:
        sys.modules['vf.pytab'].crash_copy(src, dst)
    else:
        import shutil
        import tables
        for f in list(tables.file._open_files.get_handlers_by_name(str(src))):
            f.flush()
        shutil.copy(str(src), str(dst))


def stub_tables():
    from . import pytab
    tb, ex = pytab.make()
    sys.modules['tables'] = tb
    sys.modules['tables.exceptions'] = ex
    return tb


def stub_matplotlib():
    class Any(types.ModuleType):
        def __init__(self, name):
            super().__init__(name)
            self.__path__ = []

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return AnyCallable(n)

    class AnyCallable:
        def __init__(self, n='x'):
            self._n = n

        def __call__(self, *a, **k):
            return AnyCallable()

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return AnyCallable(n)

        def __getitem__(self, i):
            return AnyCallable()

        def __iter__(self):
            return iter((AnyCallable(), AnyCallable()))
    for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.lines', 'matplotlib.colors', 'matplotlib.animation'):
        sys.modules[n] = Any(n)
    return sys.modules['matplotlib']


_loaded = None
PATCHES = {}  # real object -> replacement, applied to module globals of glompo (replay mode and extra env stubs)


def load(symbolic):
    """Make `glompo` importable from the current source of /repo and return it."""
    global _loaded
    if _loaded is not None:
        return _loaded
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    if symbolic:
        from . import shims
        stub_tables()
        stub_matplotlib()
        for absent in ('scipy', 'nevergrad'):  # as in the repository's interpreter
            sys.modules.setdefault(absent, None)
        from . import symtext
        MODULES.update({'re': symtext.RE, 'random': py_random, 'time': time_mod, 'numpy.random': np_random})
        sys.meta_path.insert(0, shims.Finder(REPO))
        _loaded = importlib.import_module('glompo')
    else:
        sys.path.insert(0, REPO)
        _loaded = importlib.import_module('glompo')
    import logging
    logging.disable(logging.CRITICAL)
    sys.getsizeof = lambda o, d=64: item_size
    import warnings as w
    w.showwarning = lambda *a, **k: None
    return _loaded


def preload():
    """import the package before the worker processes are forked"""
    for n in ('glompo.core.manager', 'glompo.core.scope', 'glompo.core.checkpointing', 'glompo.optimizers.random',
              'glompo.optimizers.cmawrapper', 'glompo.hunters', 'glompo.generators', 'glompo.opt_selectors',
              'glompo.convergence', 'glompo.benchmark_fncs', 'glompo.common.wrappers'):
        try:
            importlib.import_module(n)
        except Exception:
            pass


_patched = set()


def patch_modules():
    """Replay mode: point the names glompo modules imported from random/time/numpy.random at the stand-ins."""
    import numpy
    table = {}
    for real, fake in ((_random, py_random), (_time, time_mod), (numpy.random, np_random)):
        table[id(real)] = fake
    for n in ('random', 'uniform', 'choice', 'randint', 'randrange', 'choices', 'sample', 'shuffle'):
        table[id(getattr(_random, n))] = getattr(py_random, n)
    for n in ('random', 'uniform', 'choice', 'randint', 'rand', 'normal', 'random_sample', 'seed'):
        table[id(getattr(numpy.random, n))] = getattr(np_random, n)
    table[id(_real_time)] = time_mod.time
    np_shim = None
    for name, mod in list(sys.modules.items()):
        if (name == 'glompo' or name.startswith('glompo.')) and mod is not None and name not in _patched:
            _patched.add(name)
            for k, v in list(vars(mod).items()):
                if k.startswith('__'):
                    continue
                if id(v) in table:
                    setattr(mod, k, table[id(v)])
                elif v is numpy:
                    if np_shim is None:
                        np_shim = NpProxy()
                    setattr(mod, k, np_shim)


class NpProxy(types.ModuleType):
    """real numpy except for numpy.random (replay mode)"""

    def __init__(self):
        super().__init__('numpy')
        self.random = np_random

    def __getattr__(self, name):
        import numpy
        return getattr(numpy, name)


def module(name):
    """import a glompo module for the current driver"""
    load(S.sym)
    m = importlib.import_module(name)
    if not S.sym:
        patch_modules()
    return m


def new_clock(mode='tick', **k):
    global clock
    clock = Clock()
    clock.mode = mode
    for a, b in k.items():
        setattr(clock, a, b)
    return clock


letters = 0  # number of random characters drawn
item_size = 64  # size in bytes reported for any object


def reset():
    """fresh environment at the start of every path / replay"""
    global rnd, item_size, letters
    item_size = 64
    letters = 0
    if sys.modules.get('vf.pytab'):
        sys.modules['vf.pytab'].STORE.clear()
    if sys.modules.get('vf.symtext'):
        sys.modules['vf.symtext'].reset()
    rnd = Rnd()
    new_clock()
    FakeDateTime.mode = 'epoch'
