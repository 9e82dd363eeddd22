"""Parameter-space hunters decide exactly their documented geometric condition."""
from vf import env
from vf.harness import H
from vf.props.common import mklog
from vf.props.p17 import verdict

INFO = {
    'outside': 'more than 2 parameters, more than 4 optimizers, windows above 3',
    'assumptions': ['histories are delivered through the real in-memory logger; optimizers that ended are cleared from it '
                    'the way the manager does (clear_cache)'],
}

BOUNDS = [[(-1, 1)], [(0, 3), (-2, 2)]]
DIAM = [2, 5]


def pt(S, name, bounds):
    return [S.float(f'{name}_{j}', lo, hi) for j, (lo, hi) in enumerate(bounds)]


def d2(a, b):
    return sum([(p - q) * (p - q) for p, q in zip(a, b)])


def param_distance(S):
    Hn = env.module('glompo.hunters')
    w = S.choice('dims', 2)
    bounds, D = BOUNDS[w], DIAM[w]
    rel = S.float('rel', 0.001, 1.5)
    test_all = S.flag('test_all')
    n_opt = S.length('n_opt', 2, 4 if test_all else 2)
    hist = {}
    for i in range(1, n_opt + 1):
        k = 1 if i <= 2 else S.length(f'n{i}', 0, 1)
        hist[i] = [(pt(S, f'x{i}_{j}', bounds), float(10 * i - j)) for j in range(k)] if k else (
            [] if S.flag('table') else None)
    hist[1] = [(pt(S, 'old', bounds), 50.0)] + hist[1]
    log = mklog(S, hist)
    ended = None
    if test_all and n_opt >= 3 and S.flag('one_ended'):
        ended = 3 if not S.flag('low_id') else 2  # an optimizer other than the incumbent (1) has ended
        log.clear_cache(ended)
    victim = S.pick('victim', [i for i in range(2, n_opt + 1) if hist[i] and i != ended] or [None])
    if victim is None:
        return
    h = Hn.ParameterDistance(bounds, rel, test_all) if test_all else Hn.ParameterDistance(bounds, rel)
    others = [i for i in (range(1, n_opt + 1) if test_all else [1]) if i != victim and i != ended and hist[i]]
    conds = []
    for i in others:
        lhs, rhs = d2(hist[i][-1][0], hist[victim][-1][0]), rel * rel * (D * D)
        S.clear(lhs, rhs)
        conds.append(lhs <= rhs)
    verdict(S, h, log, S.any(conds), 'ParameterDistance', 1, victim)


def step_size(S):
    Hn = env.module('glompo.hunters')
    w = S.choice('dims', 2)
    bounds, D = BOUNDS[w], DIAM[w]
    calls = S.length('calls', 2, 3 if w == 0 else 2)
    n = S.length('n', 0, calls + 1)
    d = S.flag('default_tol')
    tol = 0.05 if d else S.float('tol', 0.001, 1)
    pts = [pt(S, f'p{i}', bounds) for i in range(n)]
    log = mklog(S, {1: [], 2: [(p, float(i)) for i, p in enumerate(pts)]})
    h = Hn.StepSize(bounds, calls) if d else Hn.StepSize(bounds, calls, tol)
    if n < calls:
        want = False
    else:
        last = pts[-calls:]
        if w == 0:
            tot = sum([abs(a[0] - b[0]) for a, b in zip(last[1:], last[:-1])])
            lhs, rhs = tot, tol * D * (calls - 1)
        else:
            lhs, rhs = d2(last[0], last[1]), tol * D * (tol * D)
        S.clear(lhs, rhs)
        want = lhs <= rhs
    verdict(S, h, log, want, 'StepSize')


def args(S):
    Hn = env.module('glompo.hunters')
    rel = S.float('rel', -1, 1)
    bad = S.flag('bad_bounds')
    b = [(1, 1)] if bad else [(0, 1)]
    try:
        Hn.ParameterDistance(b, rel)
        ok = True
    except ValueError:
        ok = False
    S.check(S.iff(ok, S.all([rel > 0, not bad])), 'ParameterDistance-arguments')
    S.cover('done')


def harnesses(tier):
    return [H('parameter_distance', param_distance, '1-2 parameters, 2-4 optimizers, points anywhere in the bounds',
              must=['done'], weight=3),
            H('step_size', step_size, '1-2 parameters, window 2..3, history <= window+1', must=['done'], weight=3),
            H('args', args, 'distance in [-1,1], valid/invalid bounds', must=['done'])]
