"""helpers shared by the harnesses"""
import datetime

from vf import env


def IR(opt_id, x, fx, extras=()):
    return env.module('glompo.common.namedtuples').IterationResult(opt_id, x, fx, extras)


def mklog(S, hist, types=None, build=False, log=None):
    """real BaseLogger filled through its public interface; hist: {opt_id: [(x, fx), ...]}; None = no table yet"""
    L = env.module('glompo.core.optimizerlogger')
    log = L.BaseLogger(build) if log is None else log
    for i in sorted(hist):
        log.add_optimizer(i, (types or {}).get(i, 'Opt'), datetime.datetime(2020, 1, 1))
        if hist[i] is not None:
            log.add_iter_history(i, {})
            for x, fx in hist[i]:
                log.put_iteration(IR(i, x, fx))
    return log


def bounds_ok(S, x, bounds):
    return S.all([S.all([S.le(lo, v), S.le(v, hi)]) for v, (lo, hi) in zip(x, bounds)])
