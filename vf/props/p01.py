"""The incumbent is always the best recorded evaluation, and it is what the run returns."""
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 3 optimizers or 3 evaluations each; optimizers are scripted (evaluate, then run until told to stop)',
    'assumptions': ['evaluations reach the manager through the real results queue in the order they were put on it'],
}


def run(S):
    n, k = S.cfg['n'], S.cfg['k']
    scripts, vals = mgr.evals(S, n, k, nan=S.cfg.get('any', True), inf=S.cfg.get('any', True))
    for i in range(n):
        scripts[i].append(('wait',))
    total = n * k if isinstance(k, int) else sum(k)
    w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= total, vals, same=S.cfg.get('same', False))
    w.idle_ok = lambda kind: False
    done = []

    def expected():
        b = mgr.best_of(S, done)
        return None if b is None else done[b]

    def agree(lab, r, e, final=False):
        if e is None:
            S.check(not r.x, lab + '-no-point-yet')
            S.check(r.fx is None or r.fx == float('inf'), lab + '-no-value-yet')
        else:
            S.check(list(r.x) == list(e.x), lab + '-point')
            S.check(S.same(r.fx, e.fx), lab + '-value')
            S.check(r.origin['opt_id'] == e.opt_id, lab + '-finder')
            S.check(r.origin['type'] == mgr.NAMES[0 if S.cfg.get('same') else e.opt_id - 1], lab + '-finder-type')
            S.cover('found')

    def on_log(who, res):
        S.check(res.opt_id == who, 'logged-under-its-optimizer')
        agree('incumbent', m.result, expected())
        if done:
            S.check(m.result.stats['f_evals'] == len(done), 'statistics')
        done.append(res)
    w.watch['log'] = on_log
    r = m.start_manager()
    S.check(len(done) == total, 'all-results-processed')
    S.check(r.stats['end_cond'] == w.checker.str_with_result(), 'end-condition')
    e = expected()
    agree('returned', r, e, True)
    S.check(r.stats['f_evals'] == total, 'returned-statistics')
    S.observe('x', r.x if r.x is None else list(r.x))
    S.observe('fx', r.fx)
    if e is None:
        S.cover('none')


def nothing(S):
    """no evaluation at all: nothing is invented"""
    w, m = mgr.setup(S, {0: [('quit',)]}, lambda c, man: S.flag('stop') or c > 2)
    r = m.start_manager()
    S.check(not r.x and (r.fx is None or r.fx == float('inf')), 'nothing-evaluated')
    S.check('end_cond' in r.stats, 'end-condition')
    S.cover('done')


def harnesses(tier):
    hs = [H('two', run, '2 optimizers, 2 and 1 evaluations, any values incl. nan/inf, all delivery orders',
            {'n': 2, 'k': [2, 1]}, must=['found', 'none'], weight=3),
          H('two_finite', run, '2 optimizers x 2 evaluations, any finite values', {'n': 2, 'k': 2, 'any': False},
            must=['found'], weight=3),
          H('one', run, '1 optimizer x 4 evaluations', {'n': 1, 'k': 4}, must=['found']),
          H('three', run, '3 optimizers x 1 evaluation, any finite values', {'n': 3, 'k': 1, 'same': True, 'any': False},
            must=['found']),
          H('nothing', nothing, '1 optimizer that ends without evaluating', must=['done'])]
    if tier == 'thorough':
        hs += [H('two2', run, '2 optimizers x 2 evaluations, any values', {'n': 2, 'k': 2}, must=['found', 'none'], weight=5),
               H('three_any', run, '3 optimizers x 1 evaluation, any values', {'n': 3, 'k': 1, 'same': True}, weight=5),
               H('two3', run, '2 optimizers x 3 evaluations', {'n': 2, 'k': 3}, must=['found'], weight=5),
               H('three2', run, '3 optimizers x 2 evaluations', {'n': 3, 'k': 2}, must=['found'], weight=6)]
    return hs
