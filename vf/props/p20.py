"""Exploit-explore and basin-hopping generators place the start point by their documented formulas."""
from types import SimpleNamespace

from vf import env
from vf.harness import H
from vf.props.common import mklog, bounds_ok
from vf.props.p19 import manager, res

INFO = {
    'outside': 'more than 2 parameters, more than 3 optimizers, temperature 0; the roulette probabilities are only '
               'compared when the draw goes through a weighted numpy choice',
    'assumptions': ['numpy.random returns arbitrary values within its documented range',
                    'basin hopping: the Metropolis draw is not exactly 0'],
}


def blend(S):
    G = env.module('glompo.generators')
    dims = S.length('dims', 1, 2)
    b = [(-1.0, 1.0), (0.0, 4.0)][:dims]
    mx = S.pick('max_f', [2, 8])
    focus = S.pick('focus', [1, 2])
    n = S.length('opts', 1, 3)
    hist = {}
    for i in range(1, n + 1):
        if i == 1 and n > 1 and S.flag('no_points'):
            hist[i] = []
        else:
            x = [S.float(f'x{i}{d}') for d in range(dims)]
            S.assume(bounds_ok(S, x, b))
            hist[i] = [(x, S.float(f'f{i}', -100, 100))]
    f = S.int('f', 0, 2 * mx)
    g = G.ExploitExploreGenerator(b, mx, focus)
    p = list(g.generate(manager(S, mklog(S, hist), res([], float('inf')), f, b)))
    draws = env.rnd.draws
    if len(draws) != dims:
        return
    r = [lo + (hi - lo) * (v - a) / (c - a) if (a, c) != (lo, hi) else v for (v, a, c), (lo, hi) in zip(draws, b)]
    frac = S.min([f / mx, 1.0])
    alpha = frac * frac if focus == 2 else frac
    have = [i for i in hist if hist[i]]
    worst = S.max([hist[i][0][1] for i in have])
    best = S.min([hist[i][0][1] for i in have])
    hits = []
    for i in have:
        x, fx = hist[i][0]
        near = S.all([S.close(p[d], alpha * x[d] + (1 - alpha) * r[d], 1e-6) for d in range(dims)])
        hits.append(S.all([near, fx < worst]))
    rand = S.all([S.close(p[d], r[d], 1e-6) for d in range(dims)])
    S.check(S.implies(best < worst, S.any(hits)), 'blend-formula')
    S.check(S.implies(best >= worst, S.any(hits + [rand])), 'blend-no-preference')
    S.check(S.implies(S.all([f >= mx, best < worst]),
                      S.any([S.all([S.close(p[d], hist[i][0][0][d], 1e-6) for d in range(dims)]) for i in have])),
            'blend-exploits-at-the-end')
    S.check(S.implies(f == 0, rand), 'blend-explores-at-the-start')
    if len(env.rnd.picks) == 1 and env.rnd.picks[0][1] is not None and len(env.rnd.picks[0][1]) == len(have):
        _, pr, k = env.rnd.picks[0]
        tot = sum([worst - hist[i][0][1] for i in have])
        for i, q in zip(have, pr):
            S.check(S.close(q * tot, worst - hist[i][0][1], 1e-6), 'blend-roulette')
        S.cover('roulette')
    S.observe('x', p)
    S.cover('done')


def basin(S):
    G = env.module('glompo.generators.basinhopping')
    np = __import__('numpy')
    b = [(-10.0, 10.0)]
    step = 0.5
    rate = S.pick('rate', [0.5, 0.0, 1.0]) if S.deep else 0.5
    draw = env.rnd.random

    def positive():
        v = draw()
        S.assume(v > 0)
        return v
    env.rnd.random = positive
    g = G.BasinHoppingGenerator(1, step, rate, 2, 0.5)
    n = S.length('opts', 0, 3 if S.deep else 2)
    hist = {}
    for i in range(1, n + 1):
        hist[i] = [([S.float(f'x{i}', -10, 10)], S.float(f'f{i}', -100, 100))] if S.flag(f'has{i}') else []
    log = mklog(S, hist)
    cur = step
    for c in range(2):
        o = S.int('o', max(1, n), 4)
        env.rnd.draws.clear()
        before = g.step_size
        x = list(g.generate(manager(S, log, None, 0, b, o)))
        have = [i for i in hist if hist[i]]
        S.check(len(x) == 1, 'basin-length')
        S.observe(f'x{c}', x)
        if not have:
            S.check(bounds_ok(S, x, b), 'basin-random-within-bounds')
            S.cover('random')
            continue
        cur = g.step_size
        S.check(cur <= step, 'basin-max-step')
        S.check(S.implies(o % 2 != 0, S.close(cur, before)), 'basin-interval')
        S.check(S.any([S.close(cur, before), S.close(cur, before * 0.5), S.close(cur, S.min([before / 0.5, step]))]),
                'basin-factor')
        inc = log.get_best_iter()
        near = [S.all([S.le(hist[i][0][0][0] - cur, x[0]), S.le(x[0], hist[i][0][0][0] + cur)]) for i in have]
        S.check(S.any(near), 'basin-jump-from-known-point')
        S.cover('jump')


def harnesses(tier):
    return [H('blend', blend, '1-2 parameters, 1-3 optimizers, budget 2 or 8, focus 1 or 2', must=['done', 'roulette'], weight=3),
            H('basin', basin, '1 parameter, 0-2 (3) optimizers, 2 calls', must=['random', 'jump'], weight=2)]
