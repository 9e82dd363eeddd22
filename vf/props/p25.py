"""The optimizers GloMPO brings along: random sampling and the wrapper around CMA-ES."""
import contextlib
import copy
import io
import math
import os
import shutil
import sys
import tempfile
import types
from pathlib import Path

from vf import env
from vf.harness import H
from vf.props.common import bounds_ok

INFO = {
    'outside': 'more than 4 points of the random optimizer; more than 3 generations of up to 3 points; the cma package itself '
               '(a stand-in asks, is told and stops); processes as workers differ from threads only in the executor',
    'assumptions': ['the cma package: ask() returns popsize points, the injected ones first; result is the best it was told',
                    'pickling keeps values', 'executors run at most the given number of evaluations at a time and cancel '
                    'exactly those not started'],
}


# ------------------------------------------------------------------------------------------------ stand-ins
class Pipe:
    def __init__(self):
        self.inbox, self.sent = [], []
        self.on_send = lambda m: None

    def poll(self, timeout=0):
        return bool(self.inbox)

    def recv(self):
        return self.inbox.pop(0)

    def send(self, m):
        self.sent.append(m)
        self.on_send(m)


class Event:
    """released as soon as somebody waits; what happens meanwhile is recorded"""

    def __init__(self):
        self.open = True
        self.waits = 0

    def set(self):
        self.open = True

    def clear(self):
        self.open = False

    def is_set(self):
        return self.open

    def wait(self, timeout=None):
        self.waits += 1
        self.open = True
        return True


class Store(types.ModuleType):
    """dill: keeps copies"""

    def __init__(self):
        super().__init__('dill')
        self.items = []

    def pickles(self, *a, **k):
        return True

    def dump(self, obj, f, *a, **k):
        self.items.append(copy.deepcopy(obj))
        f.write(b'%d' % (len(self.items) - 1))

    def load(self, f, *a, **k):
        return copy.deepcopy(self.items[int(f.read())])


def swap(S, mod, match, new):
    for k, v in list(vars(mod).items()):
        if match(v):
            setattr(mod, k, new)
            S.defer(lambda k=k, v=v: setattr(mod, k, v))


def scene(S):
    import dill
    st = Store()
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith('glompo'):
            swap(S, mod, lambda v: v is dill or isinstance(v, Store), st)
    d = Path(tempfile.mkdtemp(prefix='vf_o_'))
    S.defer(lambda: shutil.rmtree(str(d), ignore_errors=True))
    return d


def links(**k):
    return dict(_opt_id=1, _signal_pipe=Pipe(), _results_queue=object(), _pause_flag=Event(), **k)


def deliver(pipe, kind, path, what=None):
    """the manager's side: put messages on the pipe, answer a request for a checkpoint"""
    if kind == 'stop':
        pipe.inbox.append(1)
    elif kind == 'inject':
        pipe.inbox.append((4, *what))
    elif kind == 'junk':
        pipe.inbox.extend([77, ('x', 1), None, 'stop'])
    elif kind in ('checkpoint', 'pass'):
        pipe.inbox.append(2)

        def answer(m):
            if m[0] == 1:
                pipe.inbox.append((0, path) if kind == 'checkpoint' else 3)
        pipe.on_send = answer


def lowest(S, pts):
    """the first lowest value (nan never counts, nor infinity)"""
    b = None
    for p in pts:
        if p[1] < (math.inf if b is None else b[1]):
            b = p
    return b


# ------------------------------------------------------------------------------------------------ random optimizer
def sampling(S):
    """as many points as configured, all inside the bounds; the best is reported; every message is obeyed at once"""
    d = scene(S)
    R = env.module('glompo.optimizers.random').RandomOptimizer
    bounds = []
    for i in range(S.length('dims', 1, S.cfg.get('dims', 1))):
        lo, w = S.float(f'lo{i}', -100, 100), S.float(f'w{i}', 0, 100)
        S.assume(w > 0)
        bounds.append((lo, lo + w))
    n = S.length('iters', 0, S.cfg['n'])
    alone = S.flag('alone')  # used without a manager
    kind = S.pick('kind', ['none', 'callback'] if alone else ['none', 'stop', 'callback', 'checkpoint', 'pass', 'junk', 'inject'])
    at = S.choice('at', n + 1) if kind != 'none' else None
    args = links() if not alone else {}
    opt = R(iters=n, **args)
    pts, events = [], []
    pipe, flag = args.get('_signal_pipe'), args.get('_pause_flag')
    before = []

    def f(x):
        k = len(pts)
        S.check(len(before) + k < n, 'random-number-of-evaluations')
        if len(before) + k >= n:
            S.stop()
        x = [x[i] for i in range(len(x))]
        S.check(len(x) == len(bounds), 'random-length')
        S.check(bounds_ok(S, x, bounds), 'random-within-bounds')
        if flag is not None:
            S.check(flag.is_set(), 'random-not-while-paused')
            if k:
                S.check(flag.waits > 0, 'random-waits-between-evaluations')
            flag.waits = 0
        pts.append((x, S.float('f', nan=True, inf=True)))
        if at is not None and k == at and kind != 'callback':
            deliver(pipe, kind, d / 'opt', ([1.0], 0.5))
        return pts[-1][1]

    if at == n and kind in ('stop', 'checkpoint', 'pass', 'junk', 'inject'):
        at = None  # never delivered

    def cb():
        events.append(len(pts))
        return kind == 'callback' and len(pts) - 1 == at
    use_cb = kind == 'callback' or S.flag('callbacks')
    res = opt.minimize(f, [b[0] for b in bounds], bounds, cb if use_cb else None)
    total = n
    if kind in ('stop', 'callback') and at is not None and at < n:
        total = at + 1
    S.check(len(pts) == total, 'random-number-of-evaluations')
    if use_cb:
        S.check(events == list(range(1, total + 1)), 'random-callbacks-after-each')

    def best(res, pts, lab):
        b = lowest(S, pts)
        if b is None:
            S.check(res.x is None, lab + '-nothing-found')
        else:
            S.check(S.same(res.fx, b[1]), lab + '-best-value')
            S.check(S.all([S.same(u, v) for u, v in zip(res.x, b[0])]), lab + '-best-point')
            S.cover('found')
        S.check(res.success is True, lab + '-success')
    best(res, pts, 'random')
    if pipe is not None:
        S.check([m[0] for m in pipe.sent] == ([1] if kind in ('checkpoint', 'pass') and at is not None else []) + [0], 'random-announces-its-end')
        S.check(not pipe.inbox, 'random-messages-read')
        if kind == 'inject' and at is not None:
            S.check(opt.incumbent['fx'] == 0.5 and list(opt.incumbent['x']) == [1.0], 'random-incumbent')
    S.cover(kind)
    if kind == 'checkpoint' and at is not None and at < n:
        first = pts[:at + 1]
        a2 = links(workers=S.length('workers', 1, 2))
        o2 = R.checkpoint_load(d / 'opt', **a2)
        S.check(o2.is_restart, 'resumed-flag')
        before += first
        pts, events = [], []
        pipe, flag, at = a2['_signal_pipe'], a2['_pause_flag'], None
        res = o2.minimize(f, None, bounds, None)
        S.check(len(first) + len(pts) == n, 'resumed-number-of-evaluations')
        best(res, first + pts, 'resumed')
        S.check([m[0] for m in pipe.sent] == [0], 'resumed-announces-its-end')
        S.cover('resumed')


# ------------------------------------------------------------------------------------------------ CMA-ES
class ES:
    """stand-in for cma.CMAEvolutionStrategy"""
    W = None

    def __init__(self, x0, sigma0, opts):
        self.x0, self.sigma, self.opts = x0, sigma0, opts
        self.popsize = opts.get('popsize')
        self.countiter = 0
        self.callbackstop = 0
        self.injected = []
        self.best = (None, math.inf)
        self.W.made.append(self)

    def stop(self):
        if self.callbackstop:
            return {'callback': None}
        return {'tolx': 1} if self.countiter >= self.W.gens else {}

    def ask(self):
        self.W.asked.append([])
        pop = self.W.asked[-1]
        for x, force in self.injected[:self.popsize]:
            pop.append(list(x) if force else self.W.point())
        self.injected = []
        while len(pop) < self.popsize:
            pop.append(self.W.point())
        return list(pop)

    def tell(self, x, fx):
        self.W.told.append((list(x), list(fx)))
        self.countiter += 1
        for a, b in zip(x, fx):
            if b < self.best[1]:
                self.best = (a, b)

    @property
    def result(self):
        return (self.best[0], self.best[1], self.countiter, 0, 0, 0, 0, 0)

    def inject(self, xs, force=None):
        xs = [list(x) for x in xs]
        self.W.injects.append((self.countiter, xs, force))
        self.injected += [(x, force) for x in xs]


def fake_cma():
    cma = types.ModuleType('cma')
    cma.__path__ = []
    cma.CMAOptions = lambda *a: {'popsize': '', 'maxiter': '', 'tolx': '', 'verbose': '', 'bounds': '', 'vv': '', 'timeout': ''}
    cma.CMAEvolutionStrategy = ES
    sub = types.ModuleType('cma.restricted_gaussian_sampler')

    class Sampler:
        @classmethod
        def extend_cma_options(cls, opts):
            return {**opts, 'sampler': cls.__name__}
    sub.GaussVDSampler = type('GaussVDSampler', (Sampler,), {})
    sub.GaussVkDSampler = type('GaussVkDSampler', (Sampler,), {})
    cma.restricted_gaussian_sampler = sub
    return cma, sub


class Pool:
    """stand-in for the executors: which of the running evaluations completes next is chosen by the driver"""
    W = None

    def __init__(self, max_workers=None):
        self.n = max_workers
        self.W.pools.append(self)
        self.jobs = []

    def __enter__(self):
        return self

    def submit(self, fn, *a, **k):
        j = Job(self, fn, a, k)
        self.jobs.append(j)
        return j

    def map(self, fn, *its, **k):
        js = [self.submit(fn, *a) for a in zip(*its)]
        return (j.result() for j in js)

    def running(self):
        return [j for j in self.jobs if j.state in ('wait', 'run')][:self.n]

    def advance(self):
        r = self.running()
        for j in r:
            j.state = 'run'
        j = r[self.W.S.choice('completes', len(r))]
        j.complete()
        for j2 in self.running():
            j2.state = 'run'
        return j

    def shutdown(self, wait=True, **k):
        while self.running():
            for j in self.running():
                j.state = 'run'
            self.running()[0].complete()

    def __exit__(self, *a):
        self.shutdown()
        return False


class Job:
    def __init__(self, pool, fn, a, k):
        self.pool, self.fn, self.a, self.k = pool, fn, a, k
        self.state = 'wait'
        self.value = None

    def complete(self):
        self.state = 'done'
        self.value = self.fn(*self.a, **self.k)

    def cancel(self):
        if self.state == 'wait':
            self.state = 'cancelled'
            return True
        return self.state == 'cancelled'

    def cancelled(self):
        return self.state == 'cancelled'

    def done(self):
        return self.state in ('done', 'cancelled')

    def running(self):
        return self.state == 'run'

    def result(self, timeout=None):
        while self.state in ('wait', 'run'):
            self.pool.advance()
        if self.state == 'cancelled':
            import concurrent.futures as cf
            raise cf.CancelledError()
        return self.value


def as_completed(fs, timeout=None):
    fs = list(fs)
    left = [j for j in fs]
    while left:
        done = [j for j in left if j.done()]
        if not done:
            done = [left[0].pool.advance()]
            if done[0] not in left:
                continue
        for j in done:
            left.remove(j)
            yield j


class Scene:
    def __init__(self, S, gens):
        self.S, self.gens = S, gens
        self.made, self.asked, self.told, self.injects, self.pools = [], [], [], [], []
        self.n = 0

    def point(self):
        self.n += 1
        return [float(self.n)]


def cma_module(S, gens):
    import concurrent.futures as cf
    sys.modules['cma'], sys.modules['cma.restricted_gaussian_sampler'] = fake_cma()
    d = scene(S)
    mod = env.module('glompo.optimizers.cmawrapper')
    swap(S, mod, lambda v: v is cf.ThreadPoolExecutor, type('Threads', (Pool,), {}))
    swap(S, mod, lambda v: v is cf.ProcessPoolExecutor, type('Processes', (Pool,), {}))
    swap(S, mod, lambda v: v is cf.as_completed, as_completed)
    w = Scene(S, gens)
    ES.W = Pool.W = w
    return d, mod, w


def inside(d):
    old = os.getcwd()
    os.chdir(str(d))
    return old


def evolution(S):
    """every point asked for is evaluated once and told with its value; the best is reported; messages are obeyed"""
    case = S.pick('case', S.cfg['cases']) if 'cases' in S.cfg else None
    gens = case[0] if case else S.length('generations', 1, S.cfg['gens'])
    d, mod, w = cma_module(S, gens)
    old = inside(d)
    S.defer(lambda: os.chdir(old))
    workers = S.length('workers', 1, S.cfg.get('workers', 1))
    pop = case[1] if case else S.pick('popsize', S.cfg.get('pops', [2]))
    alone = workers == 1 and S.cfg.get('alone', True) and S.flag('alone')
    kind = S.pick('kind', ['none', 'callback'] if alone else S.cfg.get('kinds', ['none', 'stop', 'callback', 'checkpoint', 'junk']))
    verbose = S.flag('verbose') if kind in ('none', 'checkpoint') and S.cfg.get('output', True) else False
    keep = S.flag('keep_files') if kind == 'none' and S.cfg.get('output', True) else False
    inf = S.cfg.get('inf', False)
    args = links() if not alone else {}
    pipe, flag = args.get('_signal_pipe'), args.get('_pause_flag')
    kw = {} if pop is None else {'popsize': pop}
    if case:
        freq = kw['injection_frequency'] = case[2]
        force = kw['force_injects'] = S.flag('force')
    opt = mod.CMAOptimizer(workers=workers, backend=S.pick('backend', ['threads', 'processes']) if workers > 1 else 'threads',
                           verbose=verbose, keep_files=keep, tolx=0.5, mine=7, **kw, **args)
    size = pop or (workers if workers > 1 else 4)
    when = S.choice('at', gens * size) if kind != 'none' else None
    x0, sigma = [0.0], S.float('sigma', 0, 10)
    bounds = [(-100.0, 100.0)]
    evals = []
    sent = {'x': None, 'fx': None, 'gen': None}

    def f(x):
        k = len(evals)
        x = list(x)
        S.check(w.asked and x in w.asked[-1], 'cma-evaluates-what-was-asked')
        if flag is not None:
            S.check(flag.is_set(), 'cma-not-while-paused')
        if inf and k == 0:
            v = S.float('f0', inf=True)
        else:
            v = S.float('f')
        evals.append((x, v))
        if when is not None and k == when and kind != 'callback':
            if kind == 'inject':
                sent.update(x=[-5.0], fx=S.float('better'), gen=len(w.asked))
            deliver(pipe, kind, d / 'opt', (sent['x'], sent['fx']))
        return v

    def cb():
        return kind == 'callback' and len(evals) - 1 >= when
    out = io.StringIO()

    def go(opt, **k):
        with contextlib.redirect_stdout(out):
            return opt.minimize(f, x0, bounds, cb if kind == 'callback' else None, **k)
    if not bool(sigma > 0):
        try:
            go(opt, sigma0=sigma)
            S.check(False, 'cma-sigma-refused')
        except ValueError:
            S.check(not evals, 'cma-sigma-refused')
            S.cover('refused')
        return
    res = go(opt, sigma0=sigma)

    def generations(lab, first):
        for k, pop_ in enumerate(w.asked):
            mine = evals[k * size:(k + 1) * size]
            told = w.told[k:k + 1]
            S.check(len(pop_) == size, lab + '-population-size')
            if len(mine) == size:
                if workers == 1:
                    S.check([e[0] for e in mine] == pop_, lab + '-evaluated-in-order')
                S.check(sorted(e[0] for e in mine) == sorted(pop_), lab + '-each-point-once')
                if told:
                    S.check(told[0][0] == pop_ and len(told[0][1]) == size, lab + '-told-what-was-asked')
                    at = {e[0][0]: e[1] for e in mine}
                    S.check(S.all([S.same(at[x[0]], v) for x, v in zip(*told[0])]), lab + '-told-each-its-value')
            else:
                S.check(not told, lab + '-unfinished-not-told')
            S.check(bool(told) or k == len(w.asked) - 1, lab + '-goes-on-from-told')
        b = lowest(S, first + [p for t in w.told for p in zip(*t)])
        if b is None:
            S.check(S.same(res.fx, math.inf), lab + '-nothing-found')
        else:
            S.check(S.same(res.fx, b[1]), lab + '-best-value')
            S.check(list(res.x) == list(b[0]), lab + '-best-point')
            S.cover('found')
    generations('cma', [])
    S.check(len(w.told) <= len(w.asked), 'cma-told-once')
    S.check(len(w.made) == 1, 'cma-one-solver')
    es = w.made[0]
    S.check(es.opts['tolx'] == 0.5 and es.opts['vv'] == {'mine': 7} and 'mine' not in es.opts, 'cma-settings')
    S.check(list(es.opts['bounds'][0]) == [-100.0] and list(es.opts['bounds'][1]) == [100.0], 'cma-bounds')
    S.check(S.same(es.sigma, sigma), 'cma-sigma')
    S.check(x0 in w.asked[0], 'cma-start-point-evaluated')
    stopping = kind in ('stop', 'callback') and when is not None
    full = (when // size + 1) * size if stopping else gens * size
    if workers == 1:
        S.check(len(evals) == full, 'cma-number-of-evaluations')
    elif not stopping:
        S.check(len(evals) == full, 'cma-number-of-evaluations')
    else:
        S.check(len(evals) <= full, 'cma-number-of-evaluations')
        # at most those already running when the message came are finished
        if kind == 'stop':
            S.check(len(evals) <= when + 1 + workers, 'cma-stops-during-generation')
    if workers > 1:
        S.check(len(w.pools) == len(w.asked) and all(p.n == workers for p in w.pools), 'cma-workers')
        S.check(all(type(p).__name__ == ('Threads' if opt._backend == 'threads' else 'Processes') for p in w.pools), 'cma-backend')
    b = lowest(S, [p for t in w.told for p in zip(*t)])
    S.check(bool(res.success) == (b is not None and bool(b[1] > -math.inf) and kind != 'stop'), 'cma-success')
    if not verbose:
        S.check(out.getvalue() == '', 'cma-silent')
    files = [p.name for p in d.iterdir() if p.name != 'opt']
    S.check(len(files) == (1 if keep else 0), 'cma-files')
    if pipe is not None:
        S.check([m[0] for m in pipe.sent] == ([1] if kind in ('checkpoint', 'pass') else []) + [0], 'cma-announces-its-end')
        S.check(not pipe.inbox, 'cma-messages-read')
    S.cover(kind)
    later = [i for i in w.injects if i[0] > 0]
    if case:
        expect(S, w, later, sent, freq, force, kind)
    else:
        S.check(not later, 'cma-no-injections')
    if kind == 'checkpoint' and workers == 1:
        told = when // size + 1
        first = [p for t in w.told[:told] for p in zip(*t)]
        w.asked, w.told, evals[:] = [], [], []
        a2 = links(workers=1)
        with contextlib.redirect_stdout(out):
            o2 = mod.CMAOptimizer.checkpoint_load(d / 'opt', **a2)
        pipe, flag, when = a2['_signal_pipe'], a2['_pause_flag'], None
        res = go(o2)  # the manager does not repeat the call arguments
        S.check(len(w.made) == 1, 'resumed-same-solver')
        S.check(len(evals) == (gens - told) * size, 'resumed-number-of-evaluations')
        S.check(len(w.told) == gens - told, 'resumed-told')
        generations('resumed', first)
        S.check([m[0] for m in pipe.sent] == [0], 'resumed-announces-its-end')
        S.cover('resumed')


def expect(S, w, later, sent, freq, force, kind):
    """incumbents received are injected when they are better than a whole generation, not too often"""
    last, want = 0, []
    for g, (xs, fs) in enumerate(w.told, 1):
        if sent['gen'] is not None and g >= sent['gen']:
            x, fx = sent['x'], sent['fx']
        else:
            x, fx = w.told[0][0][0], w.told[0][1][0]
        if freq and g - last > freq and all(bool(fx < v) for v in fs):
            want.append((g, x))
            last = g
        elif freq and g - last == freq and all(bool(fx < v) for v in fs):
            return  # "at least" the frequency: either reading
    S.check([(a, b[0]) for a, b, _ in later] == want, 'cma-injections')
    S.check(all(c == force for _, _, c in later), 'cma-injections-forced')
    if want:
        S.cover('injected')


def harnesses(tier):
    hs = [H('sampling', sampling, 'random optimizer: up to 3 points, 7 kinds of messages after any of them', {'n': 3},
            must=['none', 'stop', 'callback', 'checkpoint', 'pass', 'junk', 'inject', 'resumed', 'found'], weight=2),
          H('serial', evolution, 'CMA: up to 2 generations of 2 points', {'gens': 2, 'inf': True},
            must=['none', 'stop', 'callback', 'checkpoint', 'junk', 'resumed', 'found', 'refused'], weight=2),
          H('parallel', evolution, 'CMA: 1 or 2 workers, up to 3 points at a time', {'gens': 1, 'workers': 2, 'pops': [4, None], 'alone': False, 'output': False},
            must=['none', 'stop', 'found'], weight=2),
          H('injecting', evolution, 'CMA: incumbents received', {'alone': False, 'kinds': ['none', 'inject'],
            'output': False, 'cases': [(4, 1, 2), (2, 2, 1), (3, 1, None), (3, 1, 1)]}, must=['none', 'inject', 'injected'], weight=2)]
    if tier == 'thorough':
        hs += [H('sampling2', sampling, '2 dimensions, up to 4 points', {'n': 4, 'dims': 2}, weight=4),
               H('serial3', evolution, 'up to 3 generations', {'gens': 3, 'inf': True, 'pops': [1, 2, None]}, weight=5),
               H('injecting2', evolution, 'CMA: incumbents received, 2 points', {'alone': False, 'kinds': ['none', 'inject'],
            'output': False, 'cases': [(5, 1, 2), (3, 2, 1), (4, 1, 1)]}, weight=4),
               H('parallel3', evolution, '3 workers, 2 generations', {'gens': 2, 'workers': 3, 'pops': [3, 4], 'alone': False}, weight=5)]
    return hs
