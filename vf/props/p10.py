"""A checkpoint captures one consistent moment of the run, and the run goes on as if nothing had happened."""
from vf import env, world as wd
from vf.harness import H
from vf.props import mgr, chk

INFO = {
    'outside': 'more than 2 optimizers; optimizers which hang while being checkpointed (nothing bounds how long a checkpoint waits)',
    'assumptions': ['pickling is replaced by copying (files, directories and archives are real)',
                    'an optimizer reads its messages before every evaluation'],
}

ENDS = {'conv': [('conv',)], 'quit': [('quit',)], 'crash': [('crash', 'boom')], 'die': [('die', -9)], 'wait': [('wait',)],
        'note': [('note', 'hello'), ('wait',)], 'last': []}


def build(S, ways, k, stop, freq, **kw):
    n = len(ways)
    scripts, vals = mgr.evals(S, n, k, const=S.cfg.get('values', lambda i, j: float(10 * i + j)))
    for i, x in enumerate(ways):
        scripts[i] += ENDS[x]
    w, m = mgr.setup(S, scripts, stop, vals, **kw)
    w.persist()
    m.checkpoint_control = chk.control(S, w, checkpoint_iter_frequency=freq) if freq is not None else None
    w.prompt = True
    w.burst = S.cfg.get('burst', False)
    w.naps = S.cfg.get('naps', 1)
    w.after = lambda: None
    w.spans = chk.watch_checkpoints(w, m, after=lambda: w.after())
    if S.cfg.get('inside'):
        w.watch['chk-begin'] = lambda who, d: setattr(w, 'budget', S.cfg['inside'])
    return w, m


def consistent(S, w, span, victims):
    """the saved states agree with each other and with all that happened before and after"""
    opts, man, log = chk.states(w, span)
    S.check(man is not None and log is not None, 'complete')
    at_dump = [i for i, t in enumerate(w.trace) if i >= span[0] and t[0] == 'dump' and t[1] is None][0]
    put = {}
    for what, who, data in w.trace[:at_dump]:
        if what == 'put' and who is not None and not isinstance(data, int):
            put[who] = put.get(who, 0) + 1
    logged = [d for what, who, d in w.trace[:at_dump] if what == 'log']
    S.check(man['f_counter'] == len(logged) == log.get('_f_counter', len(logged)), 'counts-agree')
    for i, p in w.procs.items():
        mine = [d for d in logged if d.opt_id == i]
        if i not in victims:
            S.check(len(mine) == put.get(i, 0), 'nothing-in-flight')
        if i in opts:
            S.check(len(opts[i]) == 1, 'saved-once')
            S.check(i not in victims, 'killed-optimizers-not-saved')
            done = min(opts[i][0]['pos'], len([a for a in w.scripts[opts[i][0]['script']] if a[0] == 'eval']))
            S.check(done == len(mine), 'state-matches-log')
            S.cover('saved')
        # nobody moves between pausing and being released
        paused = None
        for what, who, data in w.trace[span[0]:span[1]]:
            if who != i:
                continue
            if what == 'opt-send' and data[0] == 1:
                paused = True
            elif what == 'release':
                paused = None
            elif what == 'put' and not isinstance(data, int):
                S.check(not paused, 'paused-meanwhile')
    return opts


def pause(S):
    n = S.cfg['n']
    ways = [S.pick(f'end_{i + 1}', S.cfg.get('others', S.cfg['ways']) if i else S.cfg['ways']) for i in range(n)]
    k = S.cfg['k']
    k = k if isinstance(k, (list, tuple)) else [k] * n
    kills = S.cfg.get('kills')
    proc = 'die' in ways
    total = sum(k)
    victims = []

    def hunt(log, h, v):
        return not victims and S.flag('kill')

    def stop(c, man):
        return c > S.cfg.get('loops', 9) or (man.f_counter >= total and c > 2)
    w, m = build(S, ways, k, stop, S.int('every', 0, total - 1), budget=S.cfg.get('budget', 0), hunt=hunt if kills else None,
                 hunt_frequency=1 if kills else float('inf'), backend='processes' if proc else 'threads',
                 qargs=S.cfg.get('qargs'))
    if kills:
        real = m._shutdown_job

        def shutdown(i, h, r):
            victims.append((len(w.trace), i))
            real(i, h, r)
        m._shutdown_job = shutdown
    if S.cfg.get('once', True):  # how the run proceeds after the first checkpoint is one fixed schedule
        def over():
            m.checkpoint_control = None
            w.order = lambda kind, en, must: 0
            w.budget = 0
        w.after = over
    try:
        r = m.start_manager()
    except wd.Stuck:
        S.check(False, 'run-goes-on')
        S.stop()
    S.check(r.stats['end_cond'] in (w.checker.str_with_result(), 'No optimizers alive, spawning stopped.'), 'run-goes-on')
    for sp in w.spans:
        S.check(sp[2] is None, 'succeeds')
        S.cover('checkpoint')
        alive = [i for what, i, d in w.trace[:sp[1]] if what == 'start']
        consistent(S, w, sp, [i for t, i in victims if t < sp[1]])
    S.check(len(chk.archives(w)) == len(w.spans), 'archive-made')
    # afterwards: nothing lost
    dead = {i for _, i in victims}
    for i, p in w.procs.items():
        mine = [d for d in w.did('log') if d.opt_id == i]
        want = [a[1] for a in w.scripts[i - 1] if a[0] == 'eval']
        S.check([list(d.x) for d in mine] == want[:len(mine)], 'in-order')
        if i not in dead and not S.cfg.get('qargs'):
            evs = [d for d in w.did('put', i) if not isinstance(d, int)]
            S.check(len(mine) == len(evs), 'nothing-lost')
        S.check(not p.opt.paused, 'released')
    if w.spans and all(x == 'wait' for x in ways) and not dead and not S.cfg.get('qargs'):
        S.check(m.f_counter == total, 'all-done')
        S.cover('all-done')
    if victims and w.spans:
        S.cover('killed')


def harnesses(tier):
    hs = [H('pause', pause, '2 optimizers with 2 evaluations each, checkpoint after any number of evaluations, all orders',
            {'n': 2, 'k': 2, 'ways': ['wait']}, must=['checkpoint', 'saved', 'all-done'], weight=3),
          H('ends', pause, '2 optimizers, one ending in any of 6 ways around the checkpoint',
            {'n': 2, 'k': 1, 'ways': ['conv', 'quit', 'crash', 'wait', 'note', 'last'], 'others': ['wait']}, must=['checkpoint', 'saved'], weight=3),
          H('moments', pause, 'an optimizer ending between any two operations of the manager',
            {'n': 2, 'k': 1, 'ways': ['conv', 'crash', 'die'], 'others': ['wait'], 'inside': 2, 'burst': True, 'naps': 1},
            must=['checkpoint', 'saved'], weight=3),
          H('kills', pause, 'optimizers killed before or during the checkpoint',
            {'n': 2, 'k': [2, 1], 'ways': ['wait'], 'kills': True}, must=['checkpoint', 'killed'], weight=3),
          H('queue', pause, 'queue of 1 chunk, results held back in chunks of 2',
            {'n': 2, 'k': [3, 2], 'ways': ['wait'], 'qargs': (1, 2)}, must=['checkpoint', 'saved'], weight=2)]
    if tier == 'thorough':
        hs += [H('pause3', pause, '3 optimizers', {'n': 3, 'k': 1, 'ways': ['wait']}, must=['saved'], weight=5),
               H('ends2', pause, 'both ending in any way', {'n': 2, 'k': 1, 'ways': ['conv', 'quit', 'crash', 'wait', 'note', 'last']},
                 must=['saved'], weight=5),
               H('moments2', pause, 'both ending between any two operations', {'n': 2, 'k': 1, 'ways': ['conv', 'crash', 'die', 'wait'],
                 'inside': 3}, must=['saved'], weight=5),
               H('kills2', pause, 'kills, 2 evaluations each', {'n': 2, 'k': 2, 'ways': ['wait', 'conv'], 'kills': True}, must=['killed'],
                 weight=5),
               H('again', pause, 'any number of checkpoints', {'n': 2, 'k': 1, 'ways': ['wait', 'conv'], 'once': False}, must=['saved'], weight=5)]
    return hs
