"""Function-value hunters decide exactly their documented condition."""
from vf import env
from vf.harness import H
from vf.props.common import mklog

INFO = {
    'outside': 'victim histories longer than the bounds; nan/inf inside BestUnmoving and EvaluationsUnmoving histories; '
               'window 0',
    'assumptions': ['histories are delivered through the real in-memory logger'],
}


def verdict(S, h, log, want, lab, a=1, b=2):
    r = h(log, a, b)
    S.check(S.iff(r, want), lab)
    S.check(S.iff(h.last_result, want), lab + '-last_result')
    S.observe(lab, S.all([r]))
    S.cover('done')


def hist(S, n, name='f', **k):
    return [([0.0], S.float(f'{name}{i}', **k)) for i in range(n)]


def best_unmoving(S):
    Hn = env.module('glompo.hunters')
    n = S.length('n', 0, 5 if S.deep else 4)
    calls = S.length('calls', 1, 4 if S.deep else 3)
    d = S.flag('default_tol')
    tol = 0 if d else S.float('tol', 0, 1)
    v = hist(S, n)
    log = mklog(S, {1: hist(S, S.length('nh', 0, 1), 'h'), 2: v})
    h = Hn.BestUnmoving(calls) if d else Hn.BestUnmoving(calls, tol)
    if n <= calls:
        want = False
    else:
        fs = [f for _, f in v]
        now, then = S.min(fs), S.min(fs[:-calls])
        lhs, rhs = abs(now - then), abs(then * tol)
        S.clear(lhs, rhs)
        want = lhs <= rhs
    verdict(S, h, log, want, 'BestUnmoving')


def evals_unmoving(S):
    Hn = env.module('glompo.hunters')
    calls = S.length('calls', 1, 3)
    n = S.length('n', 0, calls + 1)
    d = S.flag('default_tol')
    tol = 0 if d else (S.float('tol', 0, 1) if calls < 3 else S.pick('tol3', [0.25, 1.0]))
    v = hist(S, n, lo=-10 ** 6, hi=10 ** 6)
    log = mklog(S, {1: [], 2: v})
    h = Hn.EvaluationsUnmoving(calls) if d else Hn.EvaluationsUnmoving(calls, tol)
    if n < calls:
        want = False
    else:
        w = [f for _, f in v][-calls:]
        m = sum(w) / len(w)
        var = sum([(f - m) * (f - m) for f in w]) / len(w)
        rhs = w[-1] * tol
        S.clear(var, rhs * rhs)
        want = var <= rhs * rhs
    verdict(S, h, log, want, 'EvaluationsUnmoving')


def last_invalid(S):
    Hn = env.module('glompo.hunters')
    k = S.length('k', 1, 3)
    n = S.length('n', 0, k + 1)
    v = hist(S, n, nan=True, inf=True)
    log = mklog(S, {1: [], 2: v})
    h = Hn.LastPointsInvalid(k)
    want = n >= k and S.all([S.not_(S.isfinite(f)) for _, f in v[-k:]])
    verdict(S, h, log, want, 'LastPointsInvalid')


def min_calls(S):
    Hn = env.module('glompo.hunters')
    k = S.int('k', -2, 8)
    n = S.length('n', 0, 6)
    try:
        h = Hn.MinFuncCalls(k)
    except ValueError:
        S.check(k <= 0, 'MinFuncCalls-argument')
        return
    S.check(k > 0, 'MinFuncCalls-argument')
    verdict(S, h, mklog(S, {1: [([0.], 0.)] * 3, 2: [([0.], 1.)] * n}), n >= k, 'MinFuncCalls')


def type_hunter(S):
    Hn = env.module('glompo.hunters')
    B = env.module('glompo.optimizers.baseoptimizer').BaseOptimizer
    A1, A2 = type('OptA', (B,), {}), type('OptB', (B,), {})
    t1, t2 = S.pick('t1', ['OptA', 'OptB']), S.pick('t2', ['OptA', 'OptB', 'OptAB'])
    h = Hn.TypeHunter(S.pick('kill', [A1, A2]))
    log = mklog(S, {1: [([0.], 0.)], 2: [([0.], 0.)]}, {1: t1, 2: t2})
    verdict(S, h, log, h.opt_to_kill == t2, 'TypeHunter')


def value_annealing(S):
    """fh: hunter's best; fv: victim's best; the survival chance is (1 - med) ** (|fv - fh| / |fh|)"""
    Hn = env.module('glompo.hunters')
    d = S.flag('default')
    med = 0.5 if d else S.float('med', 0.01, 0.99)
    h = Hn.ValueAnnealing() if d else Hn.ValueAnnealing(med)
    fh, fv = S.float('fh', lo=-10 ** 3, hi=10 ** 3), S.float('fv', lo=-10 ** 3, hi=10 ** 3)
    log = mklog(S, {1: [([0.], fh), ([0.], fh + 1)], 2: [([0.], fv + 2), ([0.], fv)]})
    r = h(log, 1, 2)
    S.check(S.iff(r, h.last_result), 'ValueAnnealing-last_result')
    if fh == 0 or fv <= fh:
        S.check(S.not_(r), 'ValueAnnealing-spares-better-victim')
        S.cover('guard')
        return
    if len(env.rnd.draws) != 1:
        return
    (u, a, b), = env.rnd.draws
    u = (u - a) / (b - a)  # uniform between 0 and 1
    diff, mag = fv - fh, abs(fh)
    keep = 1.0
    for k in (1, 2, 3):
        keep = keep * (1 - med)
        S.clear(u, keep, 1e-6)
        S.clear(diff, k * mag)
        S.check(S.implies(S.all([diff <= k * mag, u <= keep - 1e-6]), S.not_(r)), 'ValueAnnealing-chance')
        S.check(S.implies(S.all([diff >= k * mag, u >= keep + 1e-6]), r), 'ValueAnnealing-chance')
    S.cover('drawn')


def time_annealing(S):
    Hn = env.module('glompo.hunters')
    d = S.flag('default')
    crit = 1 if d else S.float('crit', 0.01, 100)
    h = Hn.TimeAnnealing() if d else Hn.TimeAnnealing(crit)
    nh, nv = S.length('nh', 0, 3), S.pick('nv', [1, 2, 4])
    log = mklog(S, {1: [([0.], 0.)] * nh, 2: [([0.], 1.)] * nv})
    r = h(log, 1, 2)
    S.check(S.iff(r, h.last_result), 'TimeAnnealing-last_result')
    S.clear(nh, crit * nv)
    S.check(S.implies(nh >= crit * nv, S.not_(r)), 'TimeAnnealing-guaranteed-survival')
    if len(env.rnd.draws) == 1:
        u, a, b = env.rnd.draws[0]
        # quotient nh/nv against a uniform number between 0 and crit
        lhs, rhs = (u - a) * crit * nv, nh * (b - a)
        S.clear(lhs, rhs)
        S.check(S.iff(r, lhs > rhs), 'TimeAnnealing-chance')
        S.cover('drawn')


def harnesses(tier):
    return [H('best_unmoving', best_unmoving, 'victim history <=4 (5), window 1..3 (4), any finite values, tol in [0,1]',
              must=['done'], weight=3),
            H('evals_unmoving', evals_unmoving, 'victim history <=4, window 1..3, |f|<=1e6', must=['done'], weight=3),
            H('last_invalid', last_invalid, 'history <=4, window 1..3, nan and inf included', must=['done']),
            H('min_calls', min_calls, 'history <=6, threshold -2..8', must=['done']),
            H('type', type_hunter, 'three type names', must=['done']),
            H('value_annealing', value_annealing, '|f|<=1e3, ratios bracketed at 1, 2 and 3', must=['guard', 'drawn']),
            H('time_annealing', time_annealing, 'histories <=3, crit in [0.01,100]', must=['drawn'])]
