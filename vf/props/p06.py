"""However a run ends, it ends: every optimizer is told to stop and is gone, and the result says why."""
from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr

INFO = {
    'outside': 'more than 2 optimizers (3 on a full queue); optimizers that ignore SIGTERM; hanging threads without end_timeout '
               '(documented to wait for ever); interrupts while the run is already closing',
    'assumptions': ['a process that is sent SIGTERM ends; an optimizer that reads its messages acts on them'],
}

ENDS = {'conv': [('conv',)], 'quit': [('quit',)], 'crash': [('crash', 'boom')], 'die': [('die', -9)], 'wait': [('wait',)],
        'hang': [('hang',)]}


def finish(S, w, m, r, want, aborted=False):
    """what must hold whenever a run has returned"""
    S.check(isinstance(r.stats, dict) and r.stats.get('end_cond') == want, 'reason-for-the-end')
    S.check(w.closed == 1, 'log-closed-once')
    for i, p in w.procs.items():
        hung = p.opt.pending[0] == 'hang'
        S.check(p.opt.dead or (p.is_thread and hung), 'optimizer-gone')
        stops = [d for _, d in w.sent(i) if d == 1 or (isinstance(d, tuple) and d[0] == 1)]
        if hung:
            S.check(bool(stops), 'asked-before-being-forced')
            if not p.is_thread:
                S.check(len(w.did('terminate', i)) >= 1, 'forced-in-the-end')
                S.cover('forced')
        else:
            S.check(not w.did('terminate', i), 'not-forced-if-it-reacts')
        if w.waits.get(i) and p.opt.pending[0] != 'begin':
            cs = w.did('callstop', i)
            S.check(len(cs) >= 1, 'told-to-stop')
            if aborted:
                S.check(any(isinstance(d, tuple) and d[0] == 1 for d in stops), 'told-about-the-crash')
            S.cover('told')


def build(S, ways, stop, **kw):
    n = len(ways)
    k = S.cfg.get('k', 0)
    scripts, vals = mgr.evals(S, n, k, **({'const': lambda i, j: float(10 * i + j)} if S.cfg.get('const', True) else {}))
    for i, x in enumerate(ways):
        scripts[i] += ENDS[x]
    kw.setdefault('max_jobs', n + 1)
    w, m = mgr.setup(S, scripts, stop, vals, **kw)
    env.clock.step = 0.015625
    w.waits = {i + 1: x == 'wait' for i, x in enumerate(ways)}
    w.prompt = True
    w.burst = True
    w.naps = S.cfg.get('naps', 0)
    w.closed = 0
    close = m.opt_log.close

    def closing():
        w.closed += 1
        close()
    m.opt_log.close = closing
    return w, m


def go(S, w, m):
    try:
        return m.start_manager()
    except wd.Stuck:
        S.check(False, 'run-ends')
    except (KeyboardInterrupt, Exception):
        S.check(False, 'run-returns')
    S.stop()


def ends(S):
    """the run ends by its criterion or because nothing is left"""
    n = S.cfg['n']
    ways = [S.pick(f'end_{i + 1}', S.cfg['ways']) for i in range(n)]
    proc = S.flag('processes')
    if not proc:
        S.assume('die' not in ways)
    at = S.int('stop_at', 1, 3)
    seen = {}

    def stop(calls, man):
        seen['yes'] = bool(calls >= at)
        return seen['yes']
    kw = {'end_timeout': 1} if 'hang' in ways else {}
    w, m = build(S, ways, stop, backend='processes' if proc else 'threads', budget=S.cfg.get('budget', 0), **kw)
    w.join_completes = True
    r = go(S, w, m)
    if seen.get('yes'):
        S.cover('criterion')
        want = w.checker.str_with_result()
    else:
        S.cover('none-left')
        want = 'No optimizers alive, spawning stopped.'
        S.check(all(p.opt.dead for p in w.procs.values()), 'none-left')
    finish(S, w, m, r, want)
    S.check(m.o_counter == n == len(w.procs), 'started')


def fault(S):
    """an interrupt or an error at any operation of the manager"""
    n = S.cfg['n']
    ways = [S.pick(f'end_{i + 1}', S.cfg['ways']) for i in range(n)]
    err = S.pick('error', [KeyboardInterrupt(), RuntimeError('broken'), OSError(5, 'broken')])
    proc = S.flag('processes')
    kw = {'end_timeout': 1} if 'hang' in ways else {}
    w, m = build(S, ways, lambda c, man: c >= 2, backend='processes' if proc else 'threads', **kw)
    w.fault = err
    w.fault_window = lambda: m.t_start is not None and m.t_end is None and not m.converged
    w.order = (lambda kind, en, must: 0) if S.cfg.get('fixed') else None
    r = go(S, w, m)
    if not w.faulted:
        S.check(r.stats['end_cond'] in (w.checker.str_with_result(), 'No optimizers alive, spawning stopped.'), 'normal-end')
        return
    S.cover('interrupt' if isinstance(err, KeyboardInterrupt) else 'error')
    if r.stats['end_cond'] == w.checker.str_with_result() and isinstance(err, OSError):
        return  # a failing pipe may be taken for an optimizer that has gone
    finish(S, w, m, r, 'User Interrupt' if isinstance(err, KeyboardInterrupt) else 'GloMPO Crash', True)


def part(S):
    """an error in any component the user supplies"""
    which = S.pick('component', ['checker', 'selector', 'hunter', 'generator', 'headers'])
    err = S.pick('error', [ValueError('broken'), KeyboardInterrupt()])
    at = S.length('call', 1, 2)
    S.cfg = dict(S.cfg, k=2)
    count = {'n': 0}

    def maybe():
        count['n'] += 1
        if count['n'] >= at:
            count['hit'] = True
            raise err

    def stop(calls, man):
        if which == 'checker':
            maybe()
        return man.f_counter >= 4 or calls > 8

    def hunt(log, h, v):
        if which == 'hunter':
            maybe()
        return False
    w, m = build(S, ['wait', 'wait'], stop, hunt=hunt, hunt_frequency=1)
    sel = w.sel.select_optimizer

    def select(man, log, slots):
        if which == 'selector':
            maybe()
        return sel(man, log, slots)
    w.sel.select_optimizer = select
    gen = m.x0_generator.generate

    def generate(man):
        if which == 'generator':
            maybe()
        return gen(man)
    m.x0_generator.generate = generate
    w.order = lambda kind, en, must: 0
    r = go(S, w, m)
    if count.get('hit'):
        finish(S, w, m, r, 'User Interrupt' if isinstance(err, KeyboardInterrupt) else 'GloMPO Crash', True)
        S.cover(which)
        done = w.did('log')
        if done:
            S.check(r.x == list(min(done, key=lambda c: c.fx).x), 'best-so-far-returned')
    else:
        finish(S, w, m, r, w.checker.str_with_result())


def full(S):
    """at the end more results are on their way than fit on the queue"""
    n = S.cfg['n']
    k = S.cfg.get('k', 3)
    scripts = {i: [('eval!', [float(10 * i + j)]) for j in range(k)] + [('conv',)] for i in range(n)}
    vals = {a[1][0]: a[1][0] for s in scripts.values() for a in s if a[0] == 'eval!'}
    at = S.int('stop_at', 1, 3)
    w, m = mgr.setup(S, scripts, lambda c, man: c >= at, vals, max_jobs=n, qargs=(1, S.cfg.get('chunk', 1)))
    w.waits, w.closed = {}, 0
    close = m.opt_log.close

    def closing():
        w.closed += 1
        close()
    m.opt_log.close = closing
    w.prompt = True
    w.naps = 0
    if S.flag('crash'):
        w.checker.__class__.__call__ = lambda self, man: (_ for _ in ()).throw(RuntimeError('broken'))
    r = go(S, w, m)
    S.check(all(p.opt.dead for p in w.procs.values()), 'optimizers-gone')
    S.check(w.closed == 1, 'log-closed-once')
    S.cover('done')


def early(S):
    """nothing is started if the run is over before it begins"""
    w, m = build(S, ['wait'], lambda c, man: True)
    yes = S.flag('yes')
    w.checker.__class__.__call__ = lambda self, man: yes
    if not yes:
        w.checker.__class__.__call__ = lambda self, man: man.t_start is not None
    r = go(S, w, m)
    S.check(bool(w.procs) == (not yes), 'started-iff-not-over')
    if yes:
        S.check(not r.x, 'nothing-returned')
        S.cover('early')


def unready(S):
    """a criterion that cannot be evaluated before the start (there is nothing to judge yet)"""
    x = S.pick('end', ['conv', 'quit', 'crash', 'wait'])
    at = S.int('stop_at', 1, 3)
    seen = {}

    def stop(calls, man):
        seen['yes'] = bool(calls >= at)
        return seen['yes']
    w, m = build(S, [x], stop)
    call = w.checker.__class__.__call__

    def judge(self, man):
        if man.t_start is None:
            raise ValueError('nothing to judge yet')
        return call(self, man)
    w.checker.__class__.__call__ = judge
    r = go(S, w, m)
    if seen.get('yes'):
        want = w.checker.str_with_result()
        S.cover('criterion')
    else:
        want = 'No optimizers alive, spawning stopped.'
        S.cover('none-left')
    finish(S, w, m, r, want)


def paused(S):
    """a checkpoint fails while the optimizers are paused for it, and ends the run"""
    proc = S.flag('processes')
    n = S.cfg['n']
    what = S.pick('failure', ['pickle', 'archive', 'interrupt'])
    end = S.flag('at_end')
    w, m = build(S, ['wait'] * n, lambda c, man: c >= (1 if end else 4), backend='processes' if proc else 'threads')
    w.persist()
    m.checkpoint_control = chk.control(S, w, checkpoint_time_frequency=10 ** 6 if end else 0, checkpoint_at_conv=end,
                                       raise_checkpoint_fail=True)
    mod = env.module('glompo.core.manager')
    err = KeyboardInterrupt() if what == 'interrupt' else OSError(28, 'no space left')
    if what == 'pickle':
        w.dill.pickles = lambda obj, *a, **k: False
    else:
        def fail(*a, **k):
            raise err
        S.defer(lambda old=mod.tarfile.open: setattr(mod.tarfile, 'open', old))
        mod.tarfile.open = fail
    w.order = lambda kind, en, must: 0
    w.spans = chk.watch_checkpoints(w, m)
    r = go(S, w, m)
    S.check(len(w.spans) >= 1, 'checkpoint-made')
    finish(S, w, m, r, 'User Interrupt' if what == 'interrupt' else 'GloMPO Crash', True)
    S.cover('end' if end else 'during')


def crashing(S):
    """optimizers which crash as soon as they are started do not keep the run going for ever; others are no reason to stop"""
    n = 20
    how = S.pick('how', ['crash', 'conv', 'mixed'])
    evals = S.flag('evaluations')
    slots = S.length('max_jobs', 1, 2)
    end = {'crash': lambda i: ('crash', 'Traceback boom'), 'conv': lambda i: ('conv',),
           'mixed': lambda i: ('crash', 'Traceback boom') if i % 2 else ('conv',)}[how]
    scripts, vals = {}, {}
    for i in range(n):
        vals[float(i)] = float(i)
        scripts[i] = ([('eval', [float(i)])] if evals else []) + [end(i)]
    w, m = mgr.setup(S, scripts, lambda c, man: c > 60, vals, max_jobs=slots, same=True)
    env.clock.step = 0.015625
    w.waits, w.closed = {}, 0
    w.prompt, w.burst, w.naps = True, True, 0
    w.order = lambda kind, en, must: 0
    r = go(S, w, m)
    if evals or how == 'conv':
        S.check(r.stats['end_cond'] == 'No optimizers alive, spawning stopped.' and len(w.procs) == n, 'run-goes-on')
        S.cover('on')
    else:
        S.check(r.stats['end_cond'] == 'GloMPO Crash', 'given-up')
        S.check(len(w.procs) < n, 'given-up-soon')
        S.cover('off')


def harnesses(tier):
    hs = [H('ends', ends, '2 optimizers ending in any of 6 ways, run ended by its criterion at any loop or because none are left',
            {'n': 2, 'ways': ['conv', 'quit', 'crash', 'die', 'wait', 'hang']}, must=['criterion', 'none-left', 'forced', 'told'],
            weight=3),
          H('ends_any', ends, '1 optimizer with an evaluation ending between any two operations of the manager',
            {'n': 1, 'k': 1, 'ways': ['conv', 'crash', 'die', 'wait'], 'budget': 1, 'naps': 1}, must=['criterion', 'none-left'],
            weight=3),
          H('fault', fault, 'interrupt, error or failing pipe at any operation of the manager, 2 optimizers',
            {'n': 2, 'k': 1, 'ways': ['wait', 'hang'], 'fixed': True}, must=['interrupt', 'error', 'forced', 'told'], weight=3),
          H('part', part, 'error or interrupt in any user-supplied component, first or second call',
            must=['checker', 'selector', 'hunter', 'generator']),
          H('full', full, '3 optimizers x 3 unread results at the end, queue of 1', {'n': 2, 'k': 2}, must=['done'], weight=2),
          H('unready', unready, 'criterion failing before the start', must=['criterion', 'none-left']),
          H('paused', paused, '2 optimizers, checkpoint failing in 3 ways during the run or at its end', {'n': 2}, must=['end', 'during']),
          H('crashing', crashing, 'up to 20 optimizers on 1 or 2 slots, ending at once in 3 ways', must=['on', 'off']),
          H('early', early, 'criterion met before the start', must=['early'])]
    if tier == 'thorough':
        hs += [H('ends3', ends, '3 optimizers', {'n': 3, 'ways': ['conv', 'crash', 'wait', 'hang']}, must=['criterion'], weight=5),
               H('ends_any2', ends, '2 optimizers ending between any two operations',
                 {'n': 2, 'ways': ['conv', 'crash', 'die', 'wait'], 'budget': 1, 'naps': 1}, must=['criterion'], weight=5),
               H('fault_any', fault, 'interrupt or error at any operation, all orders', {'n': 2, 'k': 1, 'ways': ['wait', 'conv', 'hang']},
                 must=['interrupt'], weight=5),
               H('full3', full, '3 optimizers, queue of 1 with chunks of 2', {'n': 3, 'k': 2, 'chunk': 2}, must=['done'], weight=5)]
    return hs
