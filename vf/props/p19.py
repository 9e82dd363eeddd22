"""Every start point a generator hands out lies inside the bounds it was given (and has the right length)."""
from types import SimpleNamespace

from vf import env
from vf.harness import H
from vf.props.common import bounds_ok, mklog

INFO = {
    'outside': 'more than 3 parameters; scipy-dependent generators (perturbation, annealing); BasinHopping, whose '
               'documented jump is not confined to the bounds',
    'assumptions': ['numpy.random returns arbitrary values within its documented range',
                    'every logged point and the incumbent lie within the bounds'],
}


def mkbounds(S, n):
    out = []
    for i in range(n):
        lo = S.float(f'lo{i}', -10 ** 3, 10 ** 3)
        w = S.float(f'w{i}', 0, 10 ** 3)
        S.assume(w > 0)
        out.append((lo, lo + w))
    return out


def check_point(S, x, bounds, lab):
    x = list(x)
    S.check(len(x) == len(bounds), lab + '-length')
    S.check(bounds_ok(S, x, bounds), lab + '-within-bounds')
    S.observe(lab, x)
    S.cover('done')


def manager(S, log, result, f=0, bounds=(), o=1):
    return SimpleNamespace(opt_log=log, result=result, f_counter=f, bounds=bounds, n_parms=len(bounds), o_counter=o)


def res(x, fx):
    return env.module('glompo.common.namedtuples').Result(x, fx, {}, {})


def random_gen(S):
    G = env.module('glompo.generators')
    b = mkbounds(S, S.length('dims', 1, 3))
    g = G.RandomGenerator(b)
    for _ in range(2):
        check_point(S, g.generate(manager(S, mklog(S, {}), res([], float('inf')), bounds=b)), b, 'random')


def single(S):
    G = env.module('glompo.generators')
    b = mkbounds(S, S.length('dims', 1, 3))
    if S.flag('given'):
        x = [S.float(f'x{i}', None, None) for i in range(len(b))]
        S.assume(bounds_ok(S, x, b))
        g = G.SinglePointGenerator(b, x)
        p = g.generate(None)
        S.check(S.all([S.same(a, c) for a, c in zip(p, x)]), 'single-given-point')
    else:
        g = G.SinglePointGenerator(b)
        p = g.generate(None)
    first = list(p)
    check_point(S, first, b, 'single')
    S.check(S.all([S.same(a, c) for a, c in zip(first, g.generate(None))]), 'single-constant')


def incumbent(S):
    """documented: starts at the manager's incumbent, or at a random vector if there is none"""
    G = env.module('glompo.generators')
    b = mkbounds(S, S.length('dims', 1, 3))
    g = G.IncumbentGenerator(b)
    kind = S.pick('incumbent', ['found', 'none', 'initial'])
    if kind == 'found':
        x = [S.float(f'x{i}') for i in range(len(b))]
        S.assume(bounds_ok(S, x, b))
        r = res(x, S.float('fx'))
    elif kind == 'none':
        r = res(None, None)
    else:  # what the manager holds once an optimizer was started but nothing was evaluated yet
        best = mklog(S, {1: []}).get_best_iter()
        r = res(best['x'], best['fx'])
    p = g.generate(manager(S, mklog(S, {1: []}), r, bounds=b))
    if kind == 'found':
        S.check(S.all([S.same(a, c) for a, c in zip(p, x)]), 'incumbent-returned')
    check_point(S, p, b, 'incumbent')


def exploit(S):
    """1-4 optimizers (with or without evaluations), any budget fraction, focus 1 or 2 or 1/2"""
    G = env.module('glompo.generators')
    b = mkbounds(S, S.length('dims', 1, 1 if not S.deep else 2))
    mx = S.int('max_f', 2, 1000)
    focus = S.pick('focus', [None, 2, 0.5])
    g = G.ExploitExploreGenerator(b, mx) if focus is None else G.ExploitExploreGenerator(b, mx, focus)
    hist = {}
    n = S.length('opts', 0, 3)
    for i in range(1, n + 1):
        k = S.length(f'k{i}', 0, 1)
        pts = []
        for j in range(k):
            x = [S.float(f'x{i}{j}{d}') for d in range(len(b))]
            S.assume(bounds_ok(S, x, b))
            pts.append((x, S.float(f'f{i}{j}', -100, 100)))
        hist[i] = pts
    f = S.int('f', 0, 2000)
    log = mklog(S, hist)
    p = g.generate(manager(S, log, res([], float('inf')), f, b))
    check_point(S, p, b, 'exploit')
    if S.flag('again') and not S.deep:
        return


def harnesses(tier):
    return [H('random', random_gen, '1-3 parameters, arbitrary finite bounds', must=['done']),
            H('single', single, '1-3 parameters', must=['done']),
            H('incumbent', incumbent, '1-3 parameters; incumbent known, absent, or not evaluated yet', must=['done']),
            H('exploit', exploit, '1 parameter (2 thorough), 0-3 optimizers with 0-1 evaluations each', must=['done'], weight=3)]
