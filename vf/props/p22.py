"""Optimizers are set up and called exactly as the selector, the generator and the user asked."""
from vf import env, world as wd
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 4 requests to the selector; settings which cannot be copied',
    'assumptions': ['the selector is an arbitrary one: it may hand out any configured optimizer, decline, or end spawning'],
}


def run(S):
    reqs = S.cfg['requests']
    proc = S.cfg.get('proc') if 'proc' in S.cfg else S.flag('processes')
    detailed = S.flag('detailed') if S.cfg.get('detail') else False
    w = wd.World(S)
    dims = S.length('dims', 1, 2)
    lo = [S.float(f'lo{j}', -100, 0) for j in range(dims)]
    hi = [S.float(f'hi{j}', 1, 100) for j in range(dims)]
    setting = [S.float(f'setting{i}') for i in range(2)]
    args = [S.float(f'arg{i}') for i in range(2)]
    inner = [1, 2]
    B = w.base.BaseOptimizer
    made, called = [], []

    def cls(name):
        class O(B):
            def __init__(self, *a, alpha=None, options=None, **k):
                super().__init__(*a, **k)
                self.alpha, self.options = alpha, options
                made.append((type(self), alpha, list(options), k.get('workers'), k.get('backend'), self))
                self.seen = list(options)
                options.append('changed')  # an optimizer may change its own settings

            def minimize(self, function, x0, bounds, callbacks=None, **k):
                called.append((self.opt_id, list(x0), [tuple(b) for b in bounds], callbacks, dict(k)))
                if 'box' in k:
                    k['box'].append('changed')
                self.message_manager(0, 'done')

            def callstop(self, reason=''):
                pass
        O.__name__ = name
        return O
    A, C = cls('OptA'), cls('OptB')
    backends = [None, None]
    for i in range(2):
        b = S.choice(f'backend{i}', 3) if S.cfg.get('backends') else 0
        backends[i] = [None, 'threads', 'processes'][b]
    conf = []
    for i, c in enumerate((A, C)):
        init = {'alpha': setting[i], 'options': inner[:], 'workers': i + 1}
        if backends[i]:
            init['backend'] = backends[i]
        conf.append((c, init, {'arg': args[i], 'box': [0]} if i == 0 or S.cfg.get('both') else None))
    Sel = env.module('glompo.opt_selectors.baseselector').BaseSelector
    told = []
    plan = []

    class Any(Sel):
        def select_optimizer(self, man, log, slots):
            S.check('end' not in told, 'asked-after-spawning-ended')
            S.check(man is m and log is m.opt_log, 'selector-sees-the-run')
            if len(told) >= reqs:
                k = 3
            else:
                # an optimizer must be given as long as none is running
                k = S.choice('answer', 4 if len(told) else 2)
            if k == 3:
                told.append('end')
                return False
            if k == 2 and any(not p.opt.dead for p in w.procs.values()):
                told.append('none')
                return None
            k = min(k, 1)
            if self.avail[k][1]['workers'] > slots:
                told.append('none')
                S.assume(any(not p.opt.dead for p in w.procs.values()))
                return None
            told.append(k)
            plan.append(k)
            return self.avail[k]
    sel = Any(*conf)
    sel.avail = [(c, i, k if k is not None else {}) for c, i, k in conf]
    gens = []
    G = env.module('glompo.generators').BaseGenerator

    class Gen(G):
        def generate(self, man):
            S.check(man is m, 'generator-sees-the-run')
            x = [S.float(f'x{len(gens)}_{j}') for j in range(dims)]
            gens.append(x)
            return x
    checker = wd.stopper(w, lambda c, man: c > 10)

    class Task:
        def __call__(self, x):
            return 0.0

        def detailed_call(self, x):
            return 0.0, 1.0
    m = wd.manager(w, sel, Task(), checker, max_jobs=3, bounds=list(zip(lo, hi)), x0_generator=Gen(),
                   backend='processes' if proc else 'threads', is_log_detailed=detailed)
    w.prompt = True
    w.idle_ok = lambda kind: False
    w.order = lambda kind, en, must: 0
    r = m.start_manager()
    S.check('GloMPO Crash' not in r.stats['end_cond'], 'normal-end')
    S.check(len(made) == len(plan) == len(gens) == m.o_counter, 'one-optimizer-per-answer')
    S.check(sorted(c[0] for c in called) == list(range(1, len(plan) + 1)), 'each-called-once')
    byid = {c[0]: c for c in called}
    for j, k in enumerate(plan):
        c, init, call = conf[k]
        t, alpha, options, workers, backend, o = made[j]
        S.check(t is c, 'class')
        S.check(o.opt_id == j + 1, 'number')
        S.check(S.same(alpha, setting[k]), 'setting')
        S.check(o.seen == inner if not proc else o.seen[:2] == inner, 'settings-not-shared')
        S.check(o.workers == k + 1, 'workers')
        S.check(o._backend == backends[k] if backends[k] else o._backend in ('threads', 'processes'), 'backend')
        if not backends[k] and not proc:
            S.check(o._backend == 'threads', 'default-backend')
        S.check(bool(o.is_log_detailed) == detailed, 'detailed')
        _, x0, bounds, cb, kw = byid[j + 1]
        S.check(len(x0) == dims, 'start-point')
        for a, b in zip(x0, gens[j]):
            S.check(S.same(a, b), 'start-point')
        S.check(len(bounds) == dims, 'bounds')
        for (a, b), p, q in zip(bounds, lo, hi):
            S.check(S.same(a, p), 'bounds')
            S.check(S.same(b, q), 'bounds')
        want = dict(call or {})
        S.check(set(kw) == set(want), 'call-arguments')
        if 'arg' in kw:
            S.check(S.same(kw['arg'], args[k]), 'call-argument')
        S.cover('opt%d' % k)
    if not proc:
        S.check(all(c[1]['options'] == inner for c in conf), 'configuration-unchanged')
    for k, (c, i, kk) in enumerate(conf):
        S.check(i.get('backend') == backends[k], 'configuration-keeps-backend')
    if 'none' in told:
        S.cover('declined')
    S.check(told[-1] == 'end' and r.stats['end_cond'] == 'No optimizers alive, spawning stopped.', 'ends-with-spawning')
    S.observe('plan', plan)


def harnesses(tier):
    hs = [H('requests', run, '3 requests, any answers, threads or processes', {'requests': 3}, must=['opt0', 'opt1', 'declined'],
            weight=3),
          H('backends', run, '2 requests, any configured backends, detailed or not',
            {'requests': 2, 'backends': True, 'both': True, 'detail': True}, must=['opt0', 'opt1'], weight=2)]
    if tier == 'thorough':
        hs += [H('requests5', run, '5 requests', {'requests': 5}, must=['opt0'], weight=5)]
    return hs
