"""common pieces of the checkpointing harnesses"""
import copy

from vf import env, world as wd
from vf.props import mgr


def control(S, w, **kw):
    C = env.module('glompo.core.checkpointing').CheckpointingControl
    kw.setdefault('checkpointing_dir', w.tmp / 'cp')
    kw.setdefault('naming_format', 'c_%(count)')
    return C(**kw)


def archives(w, pattern='*.tar.gz'):
    return sorted((w.tmp / 'cp').glob(pattern)) if (w.tmp / 'cp').exists() else []


def watch_checkpoints(w, m, keep=(), after=lambda: None):
    """record when a checkpoint begins and ends; returns the list of (trace index at the start, at the end)"""
    spans = []
    real = m.checkpoint

    def checkpoint():
        at = len(w.trace)
        w.record('chk-begin', None, None)
        spans.append([at, None, None, {}, bool(m.converged)])
        try:
            real()
        except BaseException as e:
            spans[-1][2] = e
            raise
        finally:
            spans[-1][1] = len(w.trace)
            spans[-1][3] = {k: copy.deepcopy(getattr(m, k)) for k in keep}
            w.trace.append(('chk-end', None, None))
            after()
    m.checkpoint = checkpoint
    return spans


def states(w, span):
    """optimizer -> what it saved of itself during the checkpoint; the state the manager saved"""
    opts, man, log = {}, None, None
    for what, who, data in w.trace[span[0]:span[1]]:
        if what == 'dump' and isinstance(data, dict):
            if who is not None:
                opts.setdefault(who, []).append(data)
            elif 'f_counter' in data:
                man = data
            else:
                log = data
    return opts, man, log
