"""Every evaluation taken from the results queue is counted and recorded exactly once, as it was evaluated."""
from vf import world as wd
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 3 optimizers or 4 evaluations each; results still on the queue when a stopping criterion ends the run '
               'are discarded by design and not part of the claim',
    'assumptions': ['the results queue is the real ChunkingQueue in the manager\'s process'],
}


def run(S):
    n, k = S.cfg['n'], S.cfg['k']
    opt = {}
    if S.cfg.get('const'):  # only the first value of each optimizer is symbolic
        opt['const'] = lambda i, j: S.float(f'f{i}') if j == 0 else float(i + 4 * j)
    if S.cfg.get('odd'):
        opt['const'] = lambda i, j: S.float(f'f{i}_{j}', nan=True, inf=True) if i == 0 else float(j)
    scripts, vals = mgr.evals(S, n, k, **opt)
    for i in range(n):
        scripts[i].append(('wait',) if S.cfg.get('wait', True) else ('conv',))
    total = n * k if isinstance(k, int) else sum(k)
    kills = S.cfg.get('kills', 0)
    killed = []  # optimizers stopped, in order
    taken = []   # results the manager has taken and must account for, in order
    evaluated = []
    seen = {}

    def hunt(log, h, v):
        S.check(v not in killed, 'killed-optimizer-judged-again')
        return len(killed) < kills and S.flag(f'kill_{v}')

    def stop(calls, man):
        seen['f'] = man.f_counter
        S.check(man.f_counter == len(taken), 'counter')
        return man.f_counter >= total or calls > 12
    w, m = mgr.setup(S, scripts, stop, vals, hunt=hunt if kills else None, hunt_frequency=1, qargs=S.cfg.get('q'),
                     summary_files=S.cfg.get('sf', 0))
    m.opt_log.build_traj_plot = True  # keep the records of finished optimizers so that they can be inspected
    w.idle_ok = lambda kind: False

    def task(x):
        evaluated.append(x[0])
        return vals[x[0]]
    m.task = task
    chunk = []

    def on_get(who, item):
        S.check(all(c.opt_id in killed for c in chunk), 'taken-result-skipped')
        chunk.clear()
        for r in item:
            if not isinstance(r, int):
                chunk.append(r)

    def on_log(who, r):
        while chunk and chunk[0].opt_id in killed:  # results of a stopped optimizer are dropped
            chunk.pop(0)
        S.check(bool(chunk), 'recorded-more-than-taken')
        c = chunk.pop(0)
        S.check(c.opt_id == r.opt_id and list(c.x) == list(r.x), 'recorded-as-taken')
        S.check(S.same(c.fx, r.fx), 'recorded-value')
        S.check(S.same(vals[r.x[0]], r.fx) and 10 * r.opt_id <= r.x[0] < 10 * r.opt_id + 10, 'recorded-what-was-evaluated')
        taken.append(r)

    def on_send(who, msg):
        if msg == 1 and m.t_end is None and m.converged is not True:
            killed.append(who)
            S.cover('killed')
    w.watch.update(get=on_get, log=on_log, send=on_send)
    m.start_manager = m.start_manager
    hist = {}
    close = m.opt_log.close

    def closing():
        for i in range(1, m.o_counter + 1):
            hist[i] = (list(m.opt_log.get_history(i, 'call_id')), list(m.opt_log.get_history(i, 'x')),
                       list(m.opt_log.get_history(i, 'fx')))
        hist['len'] = len(m.opt_log)
        close()
    m.opt_log.close = closing
    r = m.start_manager()
    S.check(r.stats.get('end_cond') == w.checker.str_with_result(), 'normal-end')
    S.check(m.f_counter == len(taken) == hist['len'], 'final-count')
    S.check(r.stats['f_evals'] == len(taken), 'result-count')
    S.check(len(evaluated) == len(set(evaluated)), 'evaluated-once')
    for i in range(1, n + 1):
        mine = [(j + 1, t) for j, t in enumerate(taken) if t.opt_id == i]
        S.check([c for c, _ in mine] == hist[i][0], 'history-numbering')
        S.check([list(t.x) for _, t in mine] == [list(x) for x in hist[i][1]], 'history-points')
        for (_, t), fx in zip(mine, hist[i][2]):
            S.check(S.same(t.fx, fx), 'history-values')
    if not killed:
        S.check(len(taken) == total, 'nothing-lost')
        S.cover('all')
    S.observe('n', len(taken))


def last(S):
    """the last optimizers end while the manager looks elsewhere: their last results are recorded all the same"""
    k = S.cfg['k']
    n = len(k)
    scripts, vals = mgr.evals(S, n, k)
    for i in range(n):
        scripts[i].append(('conv',) if S.cfg.get('conv') else ('quit',))
    w, m = mgr.setup(S, scripts, lambda c, man: c > 12, vals, budget=n, qargs=S.cfg.get('q'), max_jobs=n + 1)
    w.burst = True
    w.prompt = True
    w.naps = 1
    got = []
    w.watch['log'] = lambda who, r: got.append(r.x[0])
    r = m.start_manager()
    if r.stats['end_cond'] == 'No optimizers alive, spawning stopped.':
        S.check(sorted(got) == sorted(vals), 'nothing-lost')
        S.check(m.f_counter == r.stats['f_evals'] == len(vals), 'all-counted')
        S.cover('ended')


def extras(S):
    """detailed results are recorded under their headings together with the value they belong to"""
    n = 2
    k = S.cfg.get('k', 2)
    scripts, vals = mgr.evals(S, 1, k)
    scripts[0].append(('wait',))
    ex = {key: (S.float(f'a{j}'), S.float(f'b{j}')) for j, key in enumerate(vals)}
    headers = S.flag('headers')
    w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= k or c > 12, vals, is_log_detailed=True)

    class Task:
        def __call__(self, x):
            S.check(False, 'plain-call-although-detailed')

        def detailed_call(self, x):
            return (vals[x[0]],) + ex[x[0]]
    if headers:
        T = env_tables()
        Task.headers = lambda self: {'a': T.Float64Col(pos=0), 'b': T.Float64Col(pos=1)}
    m.task = Task()
    w.idle_ok = lambda kind: False
    got = {}
    close = m.opt_log.close

    def closing():
        names = ('a', 'b') if headers else ('result_0', 'result_1')
        for nm in ('x', 'fx') + names:
            got[nm] = list(m.opt_log.get_history(1, nm))
        got['names'] = names
        close()
    m.opt_log.close = closing
    r = m.start_manager()
    S.check(r.stats.get('end_cond') == w.checker.str_with_result(), 'normal-end')
    S.check(len(got['fx']) == k, 'all-recorded')
    for j in range(k):
        key = got['x'][j][0]
        S.check(S.same(got['fx'][j], vals[key]), 'value')
        for c, nm in enumerate(got['names']):
            S.check(S.same(got[nm][j], ex[key][c]), 'detail')
    S.cover('h' if headers else 'nh')


def env_tables():
    import tables
    return tables


def harnesses(tier):
    hs = [H('plain', run, '2 optimizers x 2 evaluations, all delivery orders', {'n': 2, 'k': 2}, must=['all']),
          H('odd', run, '2 optimizers, 2 and 1 evaluations, nan and infinite values too', {'n': 2, 'k': [2, 1], 'odd': True}, must=['all']),
          H('ending', run, '2 optimizers, 2 and 1 evaluations which then end by themselves', {'n': 2, 'k': [2, 1], 'wait': False, 'const': True},
            must=['all']),
          H('killed', run, '2 optimizers x 2 evaluations, one may be killed in any hunt', {'n': 2, 'k': 2, 'kills': 1},
            must=['all', 'killed'], weight=2),
          H('chunks', run, '2 optimizers x 3 evaluations over a queue of 1 with chunks of 2', {'n': 2, 'k': 3, 'q': (1, 2), 'const': True},
            must=['all'], weight=3),
          H('details', extras, '1 optimizer x 2 detailed evaluations, with and without headings', must=['h', 'nh'])]
    hs += [H('last', last, '1 optimizer x 2 evaluations ending at any moment, also between any two operations of the manager',
             {'k': [2]}, must=['ended']),
           H('last_chunk', last, '1 optimizer x 4 evaluations over a queue of 1 with chunks of 2', {'k': [4], 'q': (1, 2)},
             must=['ended'])]
    if tier == 'thorough':
        hs += [H('last2', last, '2 optimizers x 1 evaluation ending at any moment', {'k': [1, 1]}, must=['ended'], weight=4)]
    if tier == 'thorough':
        hs += [H('three', run, '3 optimizers x 2 evaluations, two may be killed', {'n': 3, 'k': 2, 'kills': 2},
                 must=['all', 'killed'], weight=5),
               H('chunks3', run, '2 optimizers x 4 evaluations, queue of 2 with chunks of 3', {'n': 2, 'k': 4, 'q': (2, 3)},
                 must=['all'], weight=5)]
    return hs
