"""What the summary file, the log file and the returned statistics say about a run is what happened."""
import re

from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr
from vf.props.p14 import load, watch_log

INFO = {
    'outside': 'resource usage; plots; more than 2 optimizers, 2 evaluations each and 2 sessions',
    'assumptions': ['the YAML library writes what it is given'],
}

ENDS = {'conv': [('conv',)], 'crash': [('crash', 'boom')], 'quit': [('quit',)], 'wait': [('wait',)], 'die': [('die', -9)]}


def squeeze(s):
    return re.sub(r'\s+', '', str(s))


def solution(S, w, sol, lab):
    done = w.did('log')
    b = mgr.best_of(S, done)
    if b is None:
        S.check(not sol['x'], lab + '-no-solution')
        return
    S.check(S.same(sol['fx'], done[b].fx), lab + '-lowest-value')
    S.check(list(sol['x']) == list(done[b].x), lab + '-its-point')
    S.check(sol['origin']['opt_id'] == done[b].opt_id, lab + '-its-origin')
    S.check(sol['origin']['type'] == mgr.NAMES[done[b].opt_id - 1], lab + '-its-origin')


def report(S, w, m, r, reason, killed, ways, k):
    """the three places in which a run is summed up"""
    import tables as tb
    n_log = len(w.did('log'))
    ends = {}
    for i, (key, val) in [(i, d) for what, i, d in w.trace if what == 'meta']:
        if key == 'end_cond':
            ends.setdefault(i, str(val))
    conv = sum(1 for i, e in ends.items() if e.startswith('Optimizer convergence') or e.startswith('Normal termination'))
    s = w.summary
    c = s['Counters']
    for lab, got, want in (('evaluations', c['Function Evaluations'], n_log), ('started', c['Optimizers']['Started'], len(w.procs)),
                           ('killed', c['Optimizers']['Killed'], len(killed)), ('converged', c['Optimizers']['Converged'], conv)):
        S.check(got == want, 'summary-' + lab)
    S.check(squeeze(reason) in squeeze(s['Solution']['exit cond.']), 'summary-reason')
    solution(S, w, s['Solution'], 'summary')
    S.check(s['Settings']['Max Jobs'] == m.max_jobs, 'summary-slots')
    S.check(s['Settings']['x0 Generator'] is m.x0_generator and s['Settings']['Optimizer Selector'] is w.sel, 'summary-components')
    S.check(sorted(s['Settings']['Bounds'].bounds[0] if hasattr(s['Settings']['Bounds'], 'bounds') else (-10, 10)) == [-10, 10], 'summary-bounds')
    S.check(r.stats['end_cond'] in (reason, 'GloMPO Crash', 'User Interrupt'), 'result-reason')
    if n_log:
        for lab, key, want in (('evaluations', 'f_evals', n_log), ('started', 'opts_started', len(w.procs)),
                               ('killed', 'opts_killed', len(killed)), ('converged', 'opts_conv', conv)):
            if r.stats.get(key) is not None:
                S.check(r.stats[key] == want, 'result-' + lab)
    with tb.open_file(str(w.tmp / 'glompo_log.h5'), 'r') as f:
        a = f.root._v_attrs
        for lab, key, want in (('evaluations', 'n_evals', n_log), ('evaluations', 'f_counter', n_log), ('started', 'n_opts_started', len(w.procs)),
                               ('started', 'opts_started', len(w.procs)), ('killed', 'n_opts_killed', len(killed)),
                               ('converged', 'n_opts_conv', conv), ('hunts', 'n_hunts', m.hunt_counter)):
            S.check(a[key] == want, 'log-' + lab)
        S.check(squeeze(reason) in squeeze(a['exit_reason']), 'log-reason')
        S.check([list(b) for b in a['bounds']] == [[-10, 10]], 'log-bounds')
        best = a['best_iter']
        b = mgr.best_of(S, w.did('log'))
        if b is not None:
            d = w.did('log')[b]
            S.check(S.same(best['fx'], d.fx) and best['opt_id'] == d.opt_id and list(best['x']) == list(d.x), 'log-best')
            S.check(best['call_id'] == b + 1, 'log-best')
            S.cover('best')
            for i in w.procs:
                mine = [(j, e) for j, e in enumerate(w.did('log')) if e.opt_id == i]
                c = mgr.best_of(S, [e for _, e in mine])
                if c is not None:
                    S.check(a['best_iters'][i]['call_id'] == mine[c][0] + 1, 'log-best-of-each')
                    S.check(S.same(a['best_iters'][i]['fx'], mine[c][1].fx), 'log-best-of-each')
            fin = [e.fx for e in w.did('log') if S.all([e.fx < float('inf'), e.fx > -float('inf')])]
            if fin:
                S.check(S.all([a['max_eval'] >= v for v in fin]) and S.any([S.same(a['max_eval'], v) for v in fin]), 'log-highest')
    S.check(ends.keys() == w.procs.keys(), 'every-end-recorded')
    for i, e in ends.items():
        if i in killed and ways[i - 1] == 'wait':
            S.check(e.startswith('GloMPO Termination'), 'end-of-killed')
            S.cover('killed')
        elif ways[i - 1] == 'wait':
            S.check(e in ('GloMPO Convergence', 'GloMPO Crash', 'User Interrupt'), 'end-of-stopped')


def run(S):
    n = 2
    k = S.cfg.get('k', [1, 2])
    ways = [S.pick(f'end_{i + 1}', S.cfg['ways']) for i in range(n)]
    scripts, vals = mgr.evals(S, n, k, const=lambda i, j: S.float(f'f{i}_{j}', **S.cfg.get('float', {})) if (i, j) in S.cfg['sym'] else float(10 - i - j))
    for i, x in enumerate(ways):
        scripts[i] += ENDS[x]
    at = S.int('stop_at', 1, S.cfg.get('loops', 4))
    kill = S.cfg.get('kill')
    killed = set()
    err = S.pick('error', [None, RuntimeError('broken'), KeyboardInterrupt()]) if S.cfg.get('err') else None
    st = {}

    def stop(c, man):
        st['yes'] = bool(c >= at)
        if st['yes'] and err:
            raise err
        return st['yes']

    def hunt(log, h, v):
        if v == kill:
            killed.add(v)
        return v == kill
    proc = 'die' in ways
    w, m = mgr.setup(S, scripts, stop, vals, max_jobs=S.cfg.get('jobs', n), hunt=hunt if kill else None, hunt_frequency=1,
                     backend='processes' if proc else 'threads')
    w.prompt = True
    w.naps = S.cfg.get('naps', 9)
    free = [S.cfg.get('moves', 3)]

    def order(kind, en, must):
        if free[0] and (len(en) > 1 or not must):
            free[0] -= 1
            return S.pick('next', list(range(len(en))) + [None] * (not must))
        return 0 if must or S.cfg.get('go') else None
    w.order = order
    watch_log(w, m)
    r = m.start_manager()
    if not st.get('yes'):
        reason = 'No optimizers alive, spawning stopped.'
        S.cover('none-left')
    elif err is None:
        reason = w.checker.str_with_result()
        S.cover('criterion')
    else:
        reason = 'broken' if isinstance(err, RuntimeError) else 'User Interrupt'
        S.cover('error')
    report(S, w, m, r, reason, killed, ways, k)


class Span:
    """a time difference of symbolic length; as text a token which stands for it"""
    made = {}

    def __init__(self, days=0, seconds=0):
        self.s = seconds + 86400 * days

    def total_seconds(self):
        return self.s

    def __add__(self, o):
        return Span(seconds=self.s + (o if isinstance(o, int) else o.s))
    __radd__ = __add__

    def __str__(self):
        t = f'{type(self).__name__}#{len(self.made)}'
        self.made[t] = self
        return t

    def __format__(self, f):
        return str(self)


class When:
    def __init__(self, t):
        self.t = t

    @classmethod
    def now(cls, tz=None):
        return cls(env.clock.time())

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return cls(t)

    def __sub__(self, o):
        return Span(seconds=self.t - o.t)

    def timestamp(self):
        return self.t

    def __deepcopy__(self, memo):
        return self

    __str__ = Span.__str__
    __format__ = Span.__format__
    made = Span.made


def symbolic_times(w):
    import datetime as dt
    for k, v in list(vars(w.core).items()):
        if v is dt.datetime or v is env.FakeDateTime:
            w._set(w.core, k, When)
        elif v is dt.timedelta:
            w._set(w.core, k, Span)


def times(S):
    """what is said about the times, over one or two sessions"""
    Span.made.clear()
    scripts, vals = mgr.evals(S, 1, 2, const=lambda i, j: float(j))
    scripts[0] += [('wait',)]
    at = S.length('stop_at', 1, 2)
    again = S.flag('resumed')
    w, m = mgr.setup(S, scripts, lambda c, man: c >= at, vals, max_jobs=1)
    w.persist()
    symbolic_times(w)
    w.home = w.tmp
    w.prompt = True
    w.naps = 0
    w.order = lambda kind, en, must: 0
    watch_log(w, m)
    sessions = []

    def session(w, m, name, checkpoint):
        if checkpoint:
            m.checkpoint_control = chk.control(S, w, **checkpoint)
            marks = []
            real = m.checkpoint

            def mark():
                a = env.clock.now
                real()
                marks.append((a, env.clock.now))
            m.checkpoint = mark
        clk = S.int(f'{name}_starts', 0, 10 ** 6)
        S.assume(clk >= env.clock.now)
        env.clock.now = clk
        began, ended = [], []
        w.watch['start'] = lambda who, data: began.append(env.clock.now)
        crit = m.convergence_checker

        def over(man, call=type(crit).__call__):
            t = env.clock.now
            if man.t_start is not None and crit.calls == 0 and S.flag(f'{name}_looked_at'):
                man.write_summary_file(w.home / 'now')
                S.cover('looked-at-running')
            yes = call(crit, man)
            if yes:
                ended.append(t)
            return yes
        w._set(type(crit), '__call__', lambda self, man: over(man))
        m.start_manager()
        vars(m).pop('checkpoint', None)
        vals_ = {'start': (clk, began[0] if began else env.clock.now), 'end': (ended[-1] if ended else clk, env.clock.now)}
        return {**vals_, 'chk': marks if checkpoint else []}

    def between(v, lo, hi, lab):
        S.check(S.all([v >= lo, v <= hi]), lab)

    env.clock.mode = 'sym'
    env.clock.maxstep = 3
    kind = S.pick('checkpoint', ['none', 'iter', 'conv'] if not again else ['iter', 'conv', 'after'])
    one = session(w, m, 'first', {'none': None, 'after': None, 'iter': {'checkpoint_iter_frequency': 0}, 'conv': {'checkpoint_at_conv': True}}[kind])
    if again and not one['chk'] and kind != 'after':
        return

    def told(w, ss):
        t = w.summary['Assignment']['Time']
        ps = t['Optimization Periods']
        S.check(len(ps) == len(ss), 'periods')
        lo = hi = 0
        for p, s in zip(ps, ss):
            a, b = Span.made[p['Start']].t, Span.made[p['End']].t
            between(a, *s['start'], 'period-start')
            between(b, *s['end'], 'period-end')
            lo, hi = lo + s['end'][0] - s['start'][1], hi + s['end'][1] - s['start'][0]
        between(Span.made[t['Total']].s, lo, hi, 'total-time')
        between(Span.made[t['Session']].s, ss[-1]['end'][0] - ss[-1]['start'][1], ss[-1]['end'][1] - ss[-1]['start'][0], 'session-time')
    told(w, [one])
    S.cover('one')
    if not again:
        return
    if kind == 'after':
        gap = S.int('later', 0, 10 ** 6)
        env.clock.now = env.clock.now + gap
        m.checkpoint_control = chk.control(S, w)
        m.checkpoint()
        m.checkpoint_control = None
        first = one
        S.cover('after')
    else:  # the run may be over when a checkpoint is made
        c = one['chk'][0]
        first = {**one, 'end': (c[0] if bool(c[0] <= one['end'][0]) else one['end'][0], c[1])}
    arch = chk.archives(w)[0]
    lasted = first['end'][0] - first['start'][1], first['end'][1] - first['start'][0]
    at2 = S.length('stop_at_2', 1, 2)
    if S.flag('looked_at_before'):  # e.g. a checkpoint of the loaded, not yet resumed, run
        S.cover('looked')
        w2, m2 = load(S, w, arch, lambda c, man: c >= at2)
        symbolic_times(w2)
        m2.write_summary_file(w.home / 'other')
        t = w.summary['Assignment']['Time']
        between(Span.made[t['Total']].s, *lasted, 'saved-total-time')
    else:
        w2, m2 = load(S, w, arch, lambda c, man: c >= at2)
        symbolic_times(w2)
    between(m2.t_used, *lasted, 'time-used-before')
    two = session(w2, m2, 'second', None)
    told(w, [first, two])
    S.cover('two')


def harnesses(tier):
    hs = [H('run', run, '2 optimizers with 3 evaluations of any value, ended in 3 ways at any moment',
            {'ways': ['conv', 'crash', 'wait'], 'sym': [(0, 0), (1, 1)], 'moves': 2, 'loops': 4}, must=['criterion', 'best'], weight=2),
          H('left', run, 'run until nothing is left', {'ways': ['conv', 'quit', 'crash'], 'sym': [(1, 0)], 'k': [1, 1], 'moves': 1, 'loops': 9, 'go': True,
                                                      'float': {'nan': True, 'inf': True}}, must=['none-left', 'best']),
          H('killed', run, 'optimizers killed', {'ways': ['conv', 'wait'], 'sym': [], 'kill': 1, 'loops': 5, 'moves': 3}, must=['killed']),
          H('error', run, 'run ended by an error or interrupt', {'ways': ['conv', 'wait'], 'sym': [(0, 0)], 'err': True, 'moves': 1},
            must=['error', 'best']),
          H('times', times, 'one or two sessions with any gaps and speeds, with checkpoints during or at the end', must=['one', 'two', 'looked', 'looked-at-running', 'after'])]
    if tier == 'thorough':
        hs += [H('run4', run, '2 optimizers with 3 evaluations of any value, ended in 4 ways at any moment',
                 {'ways': ['conv', 'quit', 'crash', 'wait'], 'sym': [(0, 0), (1, 1)], 'float': {'nan': True, 'inf': True}},
                 must=['criterion', 'best'], weight=3),
               H('killed3', run, 'optimizers killed', {'ways': ['conv', 'wait', 'crash'], 'sym': [], 'kill': 1, 'loops': 6, 'moves': 4},
                 must=['killed'], weight=2)]
    return hs
