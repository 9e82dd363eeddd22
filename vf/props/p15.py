"""Built-in stopping criteria report exactly their documented condition on every manager history."""
from types import SimpleNamespace

from vf import env
from vf.harness import H

INFO = {
    'outside': 'histories longer than the stated number of observations; user-defined checkers',
    'assumptions': ['the manager is any object exposing f_counter, o_counter, conv_counter, hunt_victims, result, '
                    't_start and t_used; counters never decrease; the clock never decreases'],
}


def verdict(S, ck, man, want, lab):
    r = ck(man)
    S.check(S.iff(r, want), lab)
    S.check(S.iff(ck.last_result, want), lab + '-last_result')
    S.observe(lab, S.all([r]))
    S.cover('done')


def man0(**k):
    d = dict(f_counter=0, o_counter=0, conv_counter=0, hunt_victims={}, t_start=None, t_used=0.0,
             result=SimpleNamespace(x=None, fx=None, stats=None, origin=None), converged=False)
    d.update(k)
    return SimpleNamespace(**d)


def counters(S):
    C = env.module('glompo.convergence')
    kind = S.pick('kind', ['MaxFuncCalls', 'MaxOptsStarted', 'NOptConverged', 'MaxKills'])
    lim = S.int('limit', 0, None)
    ck = getattr(C, kind)(lim)
    f = o = c = k = 0
    for i in range(S.length('calls', 1, 3)):
        f, o, c = f + S.int('df', 0, 10 ** 6), o + S.int('do', 0, 50), c + S.int('dc', 0, 50)
        k = k + S.length('dk', 0, 2)
        man = man0(f_counter=f, o_counter=o, conv_counter=c, hunt_victims={j: 0. for j in range(k)})
        val = {'MaxFuncCalls': f, 'MaxOptsStarted': o, 'NOptConverged': c, 'MaxKills': k}[kind]
        verdict(S, ck, man, val >= lim, kind)


def target(S):
    C = env.module('glompo.convergence')
    t = S.float('target')
    dflt = S.flag('default_atol')
    atol = 1e-6 if dflt else S.float('atol', lo=0)
    ck = C.TargetCost(t) if dflt else C.TargetCost(t, atol)
    for i in range(S.length('calls', 1, 2)):
        if S.flag('none'):
            fx, want = None, False
        else:
            fx = S.float('fx', nan=True, inf=True)
            want = fx <= t + atol
        verdict(S, ck, man0(result=SimpleNamespace(x=[], fx=fx, stats=None, origin=None)), want, 'TargetCost')


def seconds(S):
    C = env.module('glompo.convergence')
    env.new_clock('sym')
    which = S.flag('overall')
    lim = S.int('limit', 1, 10 ** 6)
    ck = C.MaxSeconds(overall_max=lim) if which else C.MaxSeconds(session_max=lim)
    started = S.flag('started')
    start = S.int('start', 1, 999)
    used = S.int('used', 0, 10 ** 6)
    for i in range(S.length('calls', 1, 2)):
        man = man0(t_start=start if started else None, t_used=used)
        env.clock.reads.clear()
        r = ck(man)
        now = env.clock.reads[-1] if env.clock.reads else env.clock.now
        el = (now - start if started else 0) + (used if which else 0)
        S.check(S.iff(r, el >= lim), 'MaxSeconds')
        S.check(S.iff(ck.last_result, el >= lim), 'MaxSeconds-last_result')
        S.observe('r', S.all([r]))
        S.cover('done')


def seconds_args(S):
    """exactly one of the two limits must be given"""
    C = env.module('glompo.convergence')
    a = S.pick('a', [None, 5])
    b = S.pick('b', [None, 7])
    try:
        C.MaxSeconds(session_max=a, overall_max=b)
        ok = True
    except AssertionError:
        ok = False
    S.check(ok == ((a is None) != (b is None)), 'MaxSeconds-arguments')
    S.cover('done')


def kac(S):
    C = env.module('glompo.convergence')
    nk, nc = S.int('n_killed', 0, None), S.int('n_converged', 1, None)
    ck = C.KillsAfterConvergence(nk, nc)
    k, c, base = 0, 0, None
    for i in range(S.length('calls', 1, 4 if S.deep else 3)):
        c = c + S.int('dc', 0, 50)
        k = k + S.length('dk', 0, 2)
        if base is None and bool(c >= nc):
            base = k
        want = False if base is None else k - base >= nk
        verdict(S, ck, man0(conv_counter=c, hunt_victims={j: 0. for j in range(k)}), want, 'KillsAfterConvergence')


def harnesses(tier):
    return [H('counters', counters, '<=3 observations, counters unbounded, <=2 new kills per observation', must=['done']),
            H('target', target, '<=2 observations, all reals, nan, +-inf', must=['done']),
            H('seconds', seconds, '<=2 readings of an arbitrary non-decreasing clock', must=['done']),
            H('seconds_args', seconds_args, 'both limits absent/present', must=['done']),
            H('kills_after_conv', kac, '<=3 observations (4 thorough)', must=['done'])]
