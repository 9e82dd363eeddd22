"""A run resumed from a checkpoint goes on exactly where the checkpoint was made."""
from vf import env, world as wd
from vf.harness import H
from vf.props import mgr, chk
from vf.props.p10 import ENDS

INFO = {
    'outside': 'more than 2 optimizers before the checkpoint and 1 after; scope recordings; dill itself',
    'assumptions': ['pickling is replaced by copying (files, directories and archives are real)',
                    'an optimizer restores what it saved, as the base class does'],
}

KEEP = ('f_counter', 'o_counter', 'conv_counter', 'hunt_counter', 'bounds', 'n_parms', 'max_jobs', 'hunt_frequency', 'last_hunt',
        'spawning_opts', 'incumbent_sharing', 'summary_files', 'is_log_detailed', 'end_timeout', 'hunt_victims', 'proc_backend',
        'opts_daemonic', 'allow_forced_terminations', 'overwrite_existing', 'split_printstreams', 'status_frequency',
        'visualisation', 'last_iter_checkpoint')


def histories(S, log, n):
    out = {}
    for i in range(1, n + 1):
        if log.has_iter_history(i):
            out[i] = list(zip([int(c) for c in log.get_history(i, 'call_id')], [list(x) for x in log.get_history(i, 'x')],
                              log.get_history(i, 'fx')))
    return out


def first(S, n, ways, k, freq=None, at_end=True, **kw):
    """a run with a checkpoint; returns the world, the manager and the checkpoint"""
    scripts, vals = mgr.evals(S, n, k, const=kw.pop('const', lambda i, j: float(10 * i + j)))
    for i, x in enumerate(ways):
        scripts[i] += ENDS[x]
    stop = kw.pop('stop')
    w, m = mgr.setup(S, scripts, stop, vals, **kw)
    w.persist()
    w.prompt = True
    w.naps = S.cfg.get('naps', 2)
    m.checkpoint_control = chk.control(S, w, checkpoint_iter_frequency=freq if freq is not None else float('inf'),
                                       checkpoint_at_conv=at_end)
    w.spans = chk.watch_checkpoints(w, m, KEEP)
    w.victims = []
    real = m._shutdown_job

    def shutdown(i, h, r):
        w.victims.append((len(w.trace), i))
        real(i, h, r)
    m._shutdown_job = shutdown
    return w, m


def second(S, w, path, checker, **kw):
    """a new manager made from the checkpoint, in a world of its own"""
    w2 = wd.World(S, budget=S.cfg.get('budget2', 0))
    w2.persist()
    w2.scripts, w2.values, w2.reports_stop = w.scripts, w.values, True
    w2.prompt = True
    w2.naps = S.cfg.get('naps', 2)
    w2.checker = wd.stopper(w2, checker)
    task = lambda x: w2.values[x[0]]
    kw.setdefault('working_dir', w2.tmp)
    m = w2.core.GloMPOManager.load_manager(path, convergence_checker=w2.checker, **kw)
    w2.man = m
    for k in ('checkpoint', '_shutdown_job'):
        vars(m).pop(k, None)
    m.checkpoint_control = None
    m.overwrite_existing = True
    real = m.opt_log.put_iteration

    def put(r):
        w2.record('log', r.opt_id, r)
        real(r)
    m.opt_log.put_iteration = put
    meta = m.opt_log.put_metadata

    def put_meta(i, k, v):
        # the in-memory log ignores what concerns optimizers it has discarded
        w2.record('meta', i, (k, v) if i in m.opt_log else (k, v, 'ignored'))
        meta(i, k, v)
    m.opt_log.put_metadata = put_meta
    return w2, m


def resume(S):
    n = S.cfg['n']
    ways = [S.pick(f'end_{i + 1}', S.cfg.get('others', S.cfg['ways']) if i else S.cfg['ways']) for i in range(n)]
    k = S.cfg['k'] if isinstance(S.cfg['k'], (list, tuple)) else [S.cfg['k']] * n
    total = sum(k)
    kills = S.cfg.get('kills')
    at = S.int('stop_at', 0, total)

    def const(i, j):
        return S.float('f', nan=True) if S.cfg.get('symbolic') and (i, j) == (0, 0) else float(10 * i + j)
    slots = S.cfg.get('jobs', n)
    w, m = first(S, n, ways, k, stop=lambda c, man: man.f_counter >= at or c > 8, const=const, max_jobs=slots,
                 hunt=(lambda log, h, v: S.flag('kill')) if kills else None, hunt_frequency=1 if kills else float('inf'))
    m.start_manager()
    sp = w.spans[-1]
    if sp[2] is not None or not chk.archives(w):
        S.check(False, 'checkpoint-made')
    opts, saved, log = chk.states(w, sp)
    victims = {i for t, i in w.victims if t < sp[1]}
    before = [d for what, who, d in w.trace[:sp[1]] if what == 'log']
    started = [i for what, i, d in w.trace[:sp[1]] if what == 'start']
    w.end()
    w2, m2 = second(S, w, chk.archives(w)[-1], lambda c, man: man.f_counter >= total or c > 6)
    for a in KEEP:
        S.check(getattr(m2, a) == sp[3][a], 'settings-restored')
    S.check(S.same(m2.result.fx, saved['result'].fx) and m2.result.x == saved['result'].x, 'best-restored')
    S.check(len(m2.opt_log) == len(before), 'log-restored')
    h = histories(S, m2.opt_log, n)
    for i in started:
        mine = [(j + 1, list(d.x), d.fx) for j, d in enumerate(before) if d.opt_id == i]
        if i in h:
            S.check(len(h[i]) == len(mine), 'log-restored')
            for a, b in zip(h[i], mine):
                S.check(a[:2] == b[:2] and S.same(a[2], b[2]), 'log-restored')
    best = m2.opt_log.get_best_iter()
    S.check(S.same(best['fx'], saved['result'].fx), 'best-restored')
    S.check(not w2.did('start'), 'nothing-started-yet')
    if m2.converged or (not opts and not m2.spawning_opts):
        return
    try:
        r = m2.start_manager()
    except wd.Stuck:
        S.check(False, 'resumed-run-ends')
        S.stop()
    S.check(r.stats['end_cond'] in (w2.checker.str_with_result(), 'No optimizers alive, spawning stopped.'), 'resumed-run-ends')
    again = [i for what, i, d in w2.trace if what == 'start']
    S.check(sorted(i for i in again if i in started) == sorted(opts), 'running-optimizers-restarted')
    S.check([i for i in again if i not in started] == list(range(len(started) + 1, len(started) + 1 + len([i for i in again if i not in started]))),
            'new-optimizers-numbered-on')
    S.check(m2.o_counter == len(set(started) | set(again)) <= n, 'nothing-started-twice')
    if [i for i in again if i not in started]:
        S.cover('new-after')
    every = before + w2.did('log')
    for i in set(started) | set(again):
        mine = [list(d.x) for d in every if d.opt_id == i]
        want = [a[1] for a in w.scripts[i - 1] if a[0] == 'eval']
        S.check(mine == want[:len(mine)], 'no-gap-no-repeat')
        if i in opts and mine != want[:len([d for d in before if d.opt_id == i])]:
            S.cover('continued')
    S.check(m2.f_counter == len(every), 'count')
    if m2.f_counter >= total:
        S.cover('completed')
    b = mgr.best_of(S, every)
    if b is not None:
        S.check(S.same(r.fx, every[b].fx) and list(r.x) == list(every[b].x), 'best-of-both-parts')
    if victims:
        S.check(not victims & set(again), 'killed-stay-dead')
        S.cover('killed')
    for i in set(started) | set(again):
        cond = [d for what, who, d in w.trace[:sp[1]] + w2.trace if what == 'meta' and who == i and d[0] == 'end_cond']
        S.check(len([d for j, d in enumerate(cond) if j == 0 or len(d) == 2]) == 1, 'one-end')


class Task:
    """a task whose persistence works or not as told"""

    def __init__(self, tag, save=None):
        self.tag = tag
        if save is not None:
            self.checkpoint_save = save

    def __call__(self, x):
        return self.tag


def tasks(S):
    """how the task finds its way from one manager to the next"""
    err = S.pick('pickling', [None, TypeError('no'), RuntimeError('no')])
    loads = S.flag('unpickles')
    force = S.flag('force')
    own = S.pick('own_save', ['absent', 'works', 'fails'])
    loader = S.pick('loader', ['none', 'works', 'fails', 'useless'])
    given = S.flag('given')
    made = []

    def save(path):
        if own == 'fails':
            raise ValueError('broken')
        (wd.Path(path) / 'mytask').write_text('7')
        made.append(1)
    w = wd.World(S)
    d = w.persist()
    w.scripts, w.values = {}, {}
    sel = wd.selector(w, [(wd.scripted(w), {'script': 0, 'workers': 1})])
    m = wd.manager(w, sel, Task(3, None if own == 'absent' else save), wd.stopper(w, lambda c, man: False))
    m.opt_log = env.module('glompo.core.optimizerlogger').BaseLogger(False)
    m.checkpoint_control = chk.control(S, w, force_task_save=force)

    def bad(obj):
        return isinstance(obj, Task) and err is not None

    def dump(obj, file, *a, **k):
        if bad(obj):
            file.write(b'half')
            raise err
        return type(d).dump(d, obj, file)
    d.dump = dump
    d.bad_load = lambda obj: isinstance(obj, Task) and not loads
    m.checkpoint()
    S.check(len(chk.archives(w)) == 1, 'checkpoint-made')
    pickled = not force and err is None
    S.check(bool(made) == (not pickled and own == 'works'), 'own-save-used-if-needed')

    def load(path):
        S.check(((wd.Path(path) / 'mytask').exists()) == bool(made), 'loader-sees-the-files')
        if loader == 'fails':
            raise ValueError('broken')
        return Task(4) if loader == 'works' else 5
    try:
        m2 = w.core.GloMPOManager.load_manager(chk.archives(w)[0], task_loader=None if loader == 'none' else load,
                                               task=Task(6) if given else None)
        got = m2.task([0.0])
    except Exception as e:
        S.check(type(e).__name__ == 'CheckpointingError', 'clear-error')
        got = None
    if pickled:
        S.check(got == (3 if loads else None), 'pickled-task-restored')
        S.cover('pickled')
    elif loader == 'works':
        S.check(got == 4, 'loader-used')
        S.cover('loader')
    elif given:
        S.check(got == 6, 'task-given-used')
        S.cover('given' if loader == 'none' else 'loader-failed')
    else:
        S.check(got is None, 'no-task-no-run')
        S.cover('none')


def slots(S):
    """a smaller number of slots in the resumed run"""
    n = 2
    work = [S.length(f'workers_{i}', 1, 4) for i in range(n)]
    scripts = {i: [('wait',)] for i in range(n)}
    w, m = mgr.setup(S, scripts, lambda c, man: c >= 2, {}, workers=work, max_jobs=sum(work))
    w.persist()
    w.prompt = True
    w.naps = 0
    m.checkpoint_control = chk.control(S, w, checkpoint_at_conv=True)
    m.start_manager()
    w.end()
    new = S.int('max_jobs', 1, 9)
    try:
        w2, m2 = second(S, w, chk.archives(w)[-1], lambda c, man: c >= 2, max_jobs=new)
    except Exception as e:
        S.check(type(e).__name__ == 'CheckpointingError', 'clear-error')
        S.check(new < n, 'refused-only-if-impossible')
        S.cover('refused')
        return
    r = m2.start_manager()
    S.check(len(w2.did('start')) == n, 'all-restarted')
    used = [p.optimizer.workers for i, p in sorted(w2.procs.items())]
    if new >= sum(work):
        S.check(used == work, 'workers-kept')
        S.cover('kept')
    else:
        S.check(sum(used) <= new, 'fits')
        S.check(S.all([u == new // n for u in used]), 'shared-evenly')
        S.check(min(used) >= 1, 'at-least-one')
        S.cover('reduced')


def harnesses(tier):
    hs = [H('resume', resume, '2 optimizers with 3 evaluations, checkpoint after any number of evaluations, resumed to the end',
            {'n': 2, 'k': [2, 1], 'ways': ['wait']}, must=['continued', 'completed'], weight=3),
          H('ends', resume, 'optimizers which converge, crash or stop silently before or after the checkpoint',
            {'n': 2, 'k': 1, 'ways': ['conv', 'crash', 'quit', 'wait'], 'others': ['wait', 'conv'], 'naps': 1}, must=['completed'], weight=3),
          H('slots', resume, 'second optimizer started only in the resumed run',
            {'n': 2, 'k': 1, 'ways': ['conv', 'wait'], 'jobs': 1, 'naps': 1}, must=['new-after', 'completed']),
          H('kills', resume, 'optimizers killed before or at the checkpoint',
            {'n': 2, 'k': [2, 1], 'ways': ['wait'], 'kills': True, 'naps': 1}, must=['killed'], weight=2),
          H('values', resume, 'any first value', {'n': 2, 'k': 1, 'ways': ['wait'], 'symbolic': True, 'naps': 1}, must=['completed'])]
    hs += [H('tasks', tasks, 'task pickled or not, saved by itself or not, loaded by a loader or not, given or not',
             must=['pickled', 'loader', 'given', 'loader-failed', 'none']),
           H('slots2', slots, '2 optimizers of 1 to 4 workers, resumed with 1 to 9 slots', must=['kept', 'reduced', 'refused'])]
    if tier == 'thorough':
        hs += [H('resume3', resume, '3 optimizers', {'n': 3, 'k': 1, 'ways': ['wait'], 'naps': 1}, must=['completed'], weight=5),
               H('ends2', resume, 'ends, 2 evaluations', {'n': 2, 'k': 2, 'ways': ['conv', 'crash', 'quit', 'wait'], 'naps': 1},
                 must=['completed'], weight=5),
               H('kills2', resume, 'kills, 2 evaluations', {'n': 2, 'k': 2, 'ways': ['wait', 'conv'], 'kills': True, 'naps': 1},
                 must=['killed'], weight=5)]
    return hs
