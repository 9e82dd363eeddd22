"""The log file of a resumed run: rolled back to the checkpoint, continued, and complete."""
import os

from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr
from vf.props.p10 import ENDS
from vf.props.p26 import Model, file_holds

INFO = {
    'outside': 'more than 2 optimizers; more than 2 resumptions; files damaged by the operating system or HDF5 itself',
    'assumptions': ['symbolic mode uses a stand-in for PyTables; every replay validates it against the real PyTables',
                    'a killed process leaves what PyTables was told to write; pickling is replaced by copying'],
}


class Yaml:
    """the summary is kept instead of being written"""

    def __init__(self, w, real):
        self.w, self.real = w, real

    def dump(self, data, stream=None, *a, **k):
        self.w.summary = data

    def __getattr__(self, n):
        return getattr(self.real, n)


def watch_log(w, m):
    """record what the log is told; summary files are asked for, but only the log file is looked at"""
    L = env.module('glompo.core.optimizerlogger')
    F = L.FileLogger
    if not getattr(F, 'watched_', False):
        def wrap(name, rec):
            real = getattr(F, name)

            def f(self, *a, **k):
                rec(*a, **k)
                return real(self, *a, **k)
            w._set(F, name, f)
        wrap('add_optimizer', lambda i, *a, **k: wd.W.record('L-opt', i, None))
        wrap('put_iteration', lambda r: wd.W.record('log', r.opt_id, r))
        wrap('put_metadata', lambda i, k, v: wd.W.record('meta', i, (k, v)))
        wrap('put_message', lambda i, t: wd.W.record('message', i, t))
        w._set(F, 'watched_', True)
        w._set(L.BaseLogger, 'plot_trajectory', lambda *a, **k: None)
        if hasattr(w.core, 'yaml'):
            w._set(w.core, 'yaml', Yaml(w, w.core.yaml))
    m.summary_files = 3
    if not isinstance(m.opt_log, F):
        m.opt_log = F(1, 10, True)


def tell(told, trace):
    for what, i, d in trace:
        if what == 'L-opt':
            told.rows.setdefault(i, None)
            told.msgs.setdefault(i, [])
            told.meta.setdefault(i, {})
        elif what == 'log':
            if told.rows[i] is None:
                told.rows[i] = []
            row = (len(told.all) + 1, d.x, d.fx, d.extras)
            told.rows[i].append(row)
            told.all.append((i, row))
        elif what == 'meta' and d[0] != 'best_iter':
            told.meta[i][d[0]] = d[1]
        elif what == 'message':
            told.msgs[i].append(d)
    return told


def load(S, w, path, stop, control=None, moves=None, **changes):
    w.end()
    w2 = wd.World(S)
    w2.persist()
    w2.scripts, w2.values, w2.reports_stop = w.scripts, w.values, True
    w2.prompt = True
    w2.naps = 9 if moves is not None else 0
    left = [moves]

    def order(kind, en, must):
        if must or left[0] is None:
            return 0
        left[0] -= 1
        return 0 if left[0] >= 0 else None
    w2.order = order
    w2.checker = wd.stopper(w2, stop)
    w2.home = w.home
    m = w2.core.GloMPOManager.load_manager(path, convergence_checker=w2.checker, working_dir=w.home, **changes)
    w2.man = m
    vars(m).pop('checkpoint', None)
    m.checkpoint_control = control
    return w2, m


def lines(w, upto=None):
    """what the log was told, up to the moment the log was saved for a checkpoint"""
    if upto is None:
        return w.trace
    at = [i for i, t in enumerate(w.trace) if i >= upto and t[0] == 'dump' and isinstance(t[2], dict) and t[1] is None and 'f_counter' not in t[2]][0]
    return w.trace[:at]


def run(S):
    n = 2
    k = S.cfg.get('k', [2, 1])
    total = sum(k)
    ways = [S.pick(f'end_{i + 1}', S.cfg['ways']) for i in range(n)]
    scripts, vals = mgr.evals(S, n, k, const=lambda i, j: S.float('f', nan=True, inf=True) if (i, j) == S.cfg.get('sym', (0, 1)) else float(10 - i - j))
    for i, x in enumerate(ways):
        scripts[i] += ENDS[x]
    at = S.int('checkpoint_after', 0, total - 1)
    over = S.pick('first_run', S.cfg['first'])
    more = S.int('goes_on_for', 0, 2)
    if S.flag('buffer_full'):
        env.item_size = 200_000_000
    st = {'n': None}

    def stop(c, man):
        if len(w.spans) and st['n'] is None:
            st['n'] = c
        yes = c > 9 or (st['n'] is not None and c >= st['n'] + more)
        if yes and over == 'killed' and st['n'] is not None:
            env.crash_copy(w.home / 'glompo_log.h5', w.home / 'side.h5')
            st['killed'] = True
        return yes
    w, m = mgr.setup(S, scripts, stop, vals, max_jobs=S.cfg.get('jobs', n))
    w.persist()
    w.home = w.tmp
    w.prompt = True
    w.naps = S.cfg.get('naps', 9)
    free = [S.cfg.get('moves', 3)]

    def order(kind, en, must):
        if free[0] and (len(en) > 1 or not must):
            free[0] -= 1
            return S.pick('next', list(range(len(en))) + [None] * (not must))
        return 0 if must or st.get('slow') else None
    w.order = order
    watch_log(w, m)
    changes = {}
    if over == 'none':  # a log file is only asked for when resuming
        m.summary_files = S.length('summary_files', 0, 2)
        m.opt_log = wd.reclog(w, m.summary_files > 1)
        changes = {'summary_files': 3}
    m.checkpoint_control = chk.control(S, w, checkpoint_iter_frequency=at)
    def done():
        m.checkpoint_control = None
        w.order = lambda kind, en, must: 0
        w.naps = 0
    w.spans = chk.watch_checkpoints(w, m, after=done)
    m.start_manager()
    if not w.spans or over == 'killed' and not st.get('killed'):
        S.cover('none-made')
        return
    told = tell(Model(), lines(w, w.spans[0][0])) if over != 'none' else None
    h5 = w.home / 'glompo_log.h5'
    if st.get('killed'):
        os.replace(str(w.home / 'side.h5'), str(h5)) if 'vf.pytab' not in env.sys.modules else env.crash_copy(w.home / 'side.h5', h5)
    elif over == 'lost':
        os.unlink(str(h5))
    first = chk.archives(w)[0]
    again = S.cfg.get('again')
    mid = S.int('stops_at', 0, total) if S.cfg.get('stops') else total + 1
    w2, m2 = load(S, w, first, lambda c, man: S.any([man.f_counter >= mid, c > 6]), chk.control(S, w, checkpoint_at_conv=True) if again else None,
                  S.length('moves', 0, 2) if again else None, **changes)
    if again:
        w2.spans = chk.watch_checkpoints(w2, m2)
    if not m2._optimizer_packs and not m2.spawning_opts or m2.f_counter >= mid:
        return
    r = resumed(S, w2, m2)
    if over in ('lost', 'none'):
        fresh(S, h5, w2, len(told.all) if told else len([t for t in lines(w, w.spans[0][0]) if t[0] == 'log']))
        S.cover('new-file')
    else:
        now = tell(told, lines(w2, w2.spans[0][0]) if again else w2.trace)
        if not again:
            file_holds(S, h5, now, wide=True)
            S.cover('rolled-back' if more else 'continued')
    if over == 'killed':
        S.cover('killed')
    if again:
        w3, m3 = load(S, w2, chk.archives(w)[-1], lambda c, man: c > 6)
        if not m3._optimizer_packs and not m3.spawning_opts:
            return
        resumed(S, w3, m3)
        file_holds(S, h5, tell(told, w3.trace), wide=True)
        S.cover('again')


def resumed(S, w, m):
    try:
        r = m.start_manager()
    except wd.Stuck:
        S.check(False, 'resumed-run-ends')
        S.stop()
    S.check(r.stats['end_cond'] in (w.checker.str_with_result(), 'No optimizers alive, spawning stopped.'), 'resumed-run-ends')
    return r


def fresh(S, path, w, before):
    """the log file was lost: the new one holds all that happened since"""
    import tables as tb
    told = {}
    for j, d in enumerate(w.did('log')):
        told.setdefault(d.opt_id, []).append((before + j + 1, d.x, d.fx))
    with tb.open_file(str(path), 'r') as f:
        for i, rows in told.items():
            t = f.get_node('/', f'optimizer_{i}/iter_hist')
            S.check([int(c) for c in t.col('call_id')] == [r[0] for r in rows], 'new-file-rows')
            for v, r in zip(t.col('fx'), rows):
                S.check(S.same(v, r[2]), 'new-file-values')
            for x, r in zip(t.col('x'), rows):
                S.check(list(x) == list(r[1]), 'new-file-points')
            S.cover('new-rows')
        for what, i, d in w.trace:
            if what == 'meta' and d[0] == 'end_cond':
                S.check(f.get_node('/', f'optimizer_{i}')._v_attrs['end_cond'] == d[1], 'new-file-ends')
        S.check(f.root._v_attrs['f_counter'] == before + len(w.did('log')), 'new-file-total')


def foreign(S):
    """the log file in the working directory belongs to another run"""
    import tables as tb
    scripts, vals = mgr.evals(S, 1, 2, const=lambda i, j: float(j))
    scripts[0] += ENDS['wait']
    at = S.int('checkpoint_after', 0, 1)
    which = S.pick('log_of', ['other', 'same', 'later'])
    ws = []
    for i in range(2 if which == 'other' else 1):
        w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= 2 or c > 5, vals)
        w.persist()
        w.home = w.tmp
        w.prompt = True
        w.naps = 0
        w.order = lambda kind, en, must: 0
        watch_log(w, m)
        m.checkpoint_control = chk.control(S, w, checkpoint_iter_frequency=at)
        w.spans = chk.watch_checkpoints(w, m)
        m.start_manager()
        w.end()
        ws.append(w)
    w = ws[0]
    h5 = w.home / 'glompo_log.h5'
    arch = chk.archives(w)[0]
    if which == 'other':
        env.crash_copy(ws[1].home / 'glompo_log.h5', h5)
    if which == 'later':  # the log goes on with a run resumed from the same checkpoint
        w1, m1 = load(S, w, arch, lambda c, man: c > 1)
        m1.start_manager()
        w = w1
    w2, m2 = load(S, w, arch, lambda c, man: c > 1)
    if which == 'same':
        resumed(S, w2, m2)
        S.cover('accepted')
        return
    before = rows(h5)
    try:
        m2.start_manager()
        S.check(False, 'refused')
    except KeyError:
        pass
    S.check(not w2.did('start'), 'nothing-started')
    S.check(rows(h5) == before, 'foreign-log-untouched')
    S.cover('refused')


def rows(path):
    import tables as tb
    with tb.open_file(str(path), 'r') as f:
        return [(g._v_name, len(g['messages']), g['iter_hist'].nrows if 'iter_hist' in g else None) for g in f.iter_nodes('/', 'Group')] + \
               [f.root._v_attrs['checksum']]


def harnesses(tier):
    hs = [H('resume', run, 'log rolled back to a checkpoint after any number of evaluations and continued; first run ended or killed',
            {'ways': ['wait'], 'first': ['ended', 'killed'], 'k': [2, 2], 'moves': 2}, must=['continued', 'rolled-back', 'killed'], weight=2),
          H('ends', run, 'optimizers ending or sending messages before or after the checkpoint',
            {'ways': ['conv', 'crash', 'note'], 'k': [1, 1], 'first': ['ended', 'killed'], 'moves': 2}, must=['continued', 'rolled-back']),
          H('later', run, 'an optimizer started after the checkpoint', {'ways': ['conv', 'quit'], 'k': [1, 1], 'jobs': 1, 'first': ['ended', 'killed']},
            must=['continued', 'rolled-back']),
          H('lost', run, 'log file lost', {'ways': ['conv', 'note'], 'first': ['lost'], 'k': [2, 1], 'moves': 1}, must=['new-file', 'new-rows']),
          H('raised', run, 'log file only asked for when resuming', {'ways': ['note'], 'first': ['none'], 'k': [2, 1], 'moves': 1},
            must=['new-file', 'new-rows']),
          H('again', run, 'resumed twice', {'ways': ['wait'], 'first': ['ended', 'killed'], 'again': True, 'k': [2, 1], 'moves': 1}, must=['again']),
          H('foreign', foreign, 'log file of another run', must=['refused', 'accepted'])]
    if tier == 'thorough':
        hs += [H('resume3', run, 'resume, 3 free choices of the scheduler', {'ways': ['wait'], 'first': ['ended', 'killed'], 'k': [2, 2]}, weight=5),
               H('again2', run, 'resumed twice, 2 free choices', {'ways': ['wait'], 'first': ['ended', 'killed'], 'again': True, 'k': [2, 1], 'moves': 2}, weight=5),
               H('ends2', run, 'ends, 2 evaluations each', {'ways': ['conv', 'crash', 'note', 'quit', 'wait'], 'k': [2, 2],
                 'first': ['ended', 'killed'], 'naps': 1}, weight=5)]
    return hs
