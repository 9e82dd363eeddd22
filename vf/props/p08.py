"""Shared incumbents: every improvement reaches every other running optimizer, and nothing else does."""
from vf import world as wd
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 3 optimizers or 3 evaluations each',
    'assumptions': ['an optimizer that reads its messages handles them in the order they were sent'],
}


def run(S):
    n, k = S.cfg['n'], S.cfg['k']
    scripts, vals = mgr.evals(S, n, k, nan=S.cfg.get('any', False), inf=S.cfg.get('any', False))
    ends = S.cfg.get('ends', ())
    for i in range(n):
        scripts[i].append(('conv',) if i in ends else ('wait',))
    total = n * k if isinstance(k, int) else sum(k)
    share = S.flag('share') if S.cfg.get('off') else True
    done = []
    sent = []       # (number of recorded results at that time, optimizer, x, fx)
    alive = {}

    def on_log(who, r):
        done.append(r)
        alive[len(done)] = {i for i, p in w.procs.items() if not p.opt.dead}

    def on_send(who, msg):
        if isinstance(msg, tuple) and msg[0] == 4:
            sent.append((len(done), who, msg[1], msg[2]))
    w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= total or c > 8, vals, share_best_solutions=share)
    w.idle_ok = lambda kind: False
    w.prompt = True
    w.watch.update(log=on_log, send=on_send)
    opts = {}

    def on_start(i, p):
        opts[i] = p.optimizer
    w.watch['start'] = on_start
    r = m.start_manager()
    S.check('GloMPO Crash' not in r.stats['end_cond'], 'normal-end')
    if not share:
        S.check(not sent, 'nothing-shared-unasked')
        S.check(all(not o.injected for o in opts.values()), 'nothing-received-unasked')
        S.cover('off')
        return
    best = None
    want = []
    for j, res in enumerate(done):
        cur = float('inf') if best is None else best.fx
        if res.fx < cur:
            best = res
            S.cover('improved')
            for i in sorted(alive[j + 1]):
                if i != res.opt_id:
                    want.append((j + 1, i, res))
        else:
            S.cover('worse')
    S.check([(a, b) for a, b, _, _ in sent] == [(a, b) for a, b, _ in want], 'exactly-the-improvements-are-shared')
    for (_, _, x, fx), (_, _, res) in zip(sent, want):
        S.check(list(x) == list(res.x), 'shared-point')
        S.check(S.same(fx, res.fx), 'shared-value')
    for i, o in opts.items():
        mine = [(x, fx) for _, who, x, fx in sent if who == i]
        S.check(len(o.injected) <= len(mine), 'received-what-was-sent')
        for (x, fx), (x2, fx2) in zip(o.injected, mine):
            S.check(list(x) == list(x2), 'received-point')
            S.check(S.same(fx, fx2), 'received-value')
        if i - 1 not in ends:
            S.check(len(o.injected) == len(mine), 'all-received')
        if o.injected:
            x, fx = o.injected[-1]
            S.check(list(o.incumbent['x']) == list(x) and S.same(o.incumbent['fx'], fx), 'latest-incumbent')
            S.cover('received')


def harnesses(tier):
    hs = [H('two', run, '2 optimizers x 2 evaluations, all values, all delivery orders, with and without sharing',
            {'n': 2, 'k': 2, 'off': True}, must=['improved', 'worse', 'received', 'off'], weight=3),
          H('ending', run, '2 optimizers, one ends by itself while the other goes on improving', {'n': 2, 'k': [1, 2], 'ends': (0,)},
            must=['improved', 'received'], weight=2),
          H('three', run, '3 optimizers x 1 evaluation', {'n': 3, 'k': 1}, must=['improved', 'worse', 'received'], weight=3),
          H('any', run, '2 optimizers, 1 and 2 evaluations including nan and infinities', {'n': 2, 'k': [1, 2], 'any': True},
            must=['improved', 'worse'], weight=2)]
    if tier == 'thorough':
        hs += [H('two3', run, '2 optimizers x 3 evaluations', {'n': 2, 'k': 3}, must=['improved', 'received'], weight=5),
               H('three2', run, '3 optimizers, 2, 1 and 2 evaluations, one ends by itself', {'n': 3, 'k': [2, 1, 2], 'ends': (1,)},
                 must=['improved'], weight=6)]
    return hs
