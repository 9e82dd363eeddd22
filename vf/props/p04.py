"""Hunting: only live inferior optimizers, only on the decision of the killing conditions, only as often as asked for."""
from vf import world as wd
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 3 optimizers or 3 evaluations each; hunt frequencies above 1000',
    'assumptions': ['the killing conditions are an arbitrary function: every combination of answers is explored'],
}


def run(S):
    n, k = S.cfg['n'], S.cfg['k']
    if S.cfg.get('late'):  # nothing valid at first: values which may or may not count
        opt = {'const': lambda i, j: [float('nan'), float(i)][S.choice('valid', 2)] if j == 0 else float(10 * i + j)}
    else:
        opt = {}
    scripts, vals = mgr.evals(S, n, k, **opt, **({'const': lambda i, j: S.float(f'f{i}') if j == 0 and i != S.cfg['const'] - 1 else float(10 * i + j)}
                                         if S.cfg.get('const') else {}))
    ends = S.cfg.get('ends', ())
    for i in range(n):
        scripts[i].append(('conv',) if i in ends else ('wait',))
    total = n * k if isinstance(k, int) else sum(k)
    freq = S.int('hunt_frequency', 1, 1000) if S.cfg.get('freq') else 1
    kills = S.cfg.get('kills', 1)
    done = []       # recorded results
    asked = []      # (victim) in the current hunt
    ended = set()   # optimizers whose end is on record
    closed = set()  # optimizers that have announced that no more results will come
    killed = {}
    st = {'last': 0, 'hunts': 0, 'open': False}

    def due():
        return len(done) - st['last'] >= freq

    def hunt(log, h, v):
        b = mgr.best_of(S, done)
        S.check(b is not None and h == done[b].opt_id, 'hunter-holds-the-incumbent')
        S.check(v != h, 'hunter-not-its-own-victim')
        S.check(v not in ended, 'victim-still-running')
        S.check(any(r.opt_id == v for r in done), 'victim-has-results')
        S.check(v not in asked, 'judged-once-per-hunt')
        S.check(due(), 'hunt-frequency')
        asked.append(v)
        for o in (h, v):
            fx = list(log.get_history(o, 'fx'))
            mine = [r.fx for r in done if r.opt_id == o]
            S.check(len(fx) == len(mine) == log.len(o), 'history-complete')
            for a, c in zip(fx, mine):
                S.check(S.same(a, c), 'history-values')
        yes = len(killed) < kills and S.flag(f'kill_{v}')
        st['want'] = v if yes else None
        st['hunter'] = h
        if yes:
            S.cover('killed')
        return yes

    def finish():
        """the hunt after the latest result, if any, is over"""
        if not done or not st['open']:
            return
        st['open'] = False
        S.check(st.get('want') is None, 'kill-decision-carried-out')
        if due():
            b = mgr.best_of(S, done)
            if b is not None:
                h = done[b].opt_id
                for v in w.procs:
                    if v != h and v not in st['ended'] and v not in closed and any(r.opt_id == v for r in done):
                        S.check(v in asked, 'every-candidate-judged')
                        S.cover('judged')
                st['last'] = len(done)
                st['hunts'] += 1
        else:
            S.check(not asked, 'no-hunt-before-its-time')
            S.cover('early')
        asked.clear()

    def on_log(who, r):
        finish()
        S.check(who not in killed, 'killed-optimizers-not-recorded')
        done.append(r)
        st['open'] = True
        st['ended'] = set(ended)

    def on_get(who, item):
        finish()
        for c in item:
            if isinstance(c, int):
                closed.add(c)

    def on_send(who, msg):
        if m.t_end is None and msg == 1:
            S.check(st.get('want') == who and who not in killed, 'stopped-without-decision')
            st['want'] = None
            killed[who] = st['hunter']

    def on_meta(who, kv):
        if kv[0] == 'end_cond':
            ended.add(who)
            txt = str(kv[1])
            if who in killed:
                S.check('GloMPO Termination' in txt and f'Hunter: {killed[who]}' in txt and 'Decider' in txt, 'kill-on-record')
                S.cover('recorded')
            else:
                S.check('Hunter' not in txt, 'kill-recorded-without-kill')

    def stop(calls, man):
        finish()
        S.check(man.f_counter == len(done), 'counter')
        return man.f_counter >= total or calls > 8
    w, m = mgr.setup(S, scripts, stop, vals, hunt=hunt, hunt_frequency=freq)
    m.opt_log.build_traj_plot = S.cfg.get('keep', False)
    w.idle_ok = lambda kind: False
    w.prompt = True
    w.watch.update(log=on_log, get=on_get, send=on_send, meta=on_meta)
    r = m.start_manager()
    S.check('GloMPO Crash' not in r.stats.get('end_cond'), 'normal-end')
    S.check(m.hunt_counter == st['hunts'], 'hunts-counted')
    if done:
        S.check(set(m.hunt_victims) == set(killed), 'victims-on-record')
    S.observe('killed', sorted(killed))


def none(S):
    """without killing conditions nobody is stopped before the end"""
    scripts, vals = mgr.evals(S, 2, 2)
    for i in range(2):
        scripts[i].append(('wait',))
    w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= 4 or c > 8, vals, hunt_frequency=1)
    w.idle_ok = lambda kind: False

    def on_send(who, msg):
        S.check(m.t_end is not None, 'stopped-without-killing-conditions')
    w.watch['send'] = on_send
    r = m.start_manager()
    S.check(m.f_counter == 4 and not m.hunt_victims and r.stats['opts_killed'] == 0, 'nothing-killed')
    S.cover('done')


def mode(S):
    """how a victim is stopped: by message, or at once by ending its process"""
    aggr, proc = S.flag('aggressive'), S.flag('processes')
    scripts, vals = mgr.evals(S, 2, 1)
    for i in range(2):
        scripts[i].append(('wait',))
    w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= 2, vals, hunt=lambda log, h, v: True, hunt_frequency=1,
                     aggressive_kill=aggr, backend='processes' if proc else 'threads')
    w.idle_ok = lambda kind: False
    seen = {'send': [], 'term': []}
    w.watch['send'] = lambda who, msg: seen['send'].append(who) if m.t_end is None else None
    w.watch['terminate'] = lambda who, d: seen['term'].append(who) if m.t_end is None else None
    m.start_manager()
    if len(m.hunt_victims) == 1:
        v = list(m.hunt_victims)
        S.check((seen['term'], seen['send']) == ((v, []) if aggr and proc else ([], v)), 'way-of-stopping')
        S.cover('aggr' if seen['term'] else 'soft')


def harnesses(tier):
    hs = [H('hunts', run, '2 optimizers x 2 evaluations, any hunt decision, hunt frequency 1..1000',
            {'n': 2, 'k': 2, 'freq': True, 'kills': 1}, must=['killed', 'judged', 'recorded', 'early'], weight=3),
          H('three', run, '3 optimizers x 1 evaluation, two may be killed', {'n': 3, 'k': 1, 'kills': 2, 'const': 3},
            must=['killed', 'judged', 'recorded'], weight=3),
          H('ending', run, '2 optimizers, one ends by itself, the other goes on', {'n': 2, 'k': [1, 2], 'ends': (0,), 'kills': 1},
            must=['killed', 'judged'], weight=2),
          H('late', run, '2 optimizers x 2 evaluations, the first of each may be nan, hunt frequency 1..1000',
            {'n': 2, 'k': 2, 'freq': True, 'kills': 0, 'late': True}, must=['judged', 'early'], weight=2),
          H('none', none, '2 optimizers x 2 evaluations without killing conditions', must=['done']),
          H('mode', mode, '2 optimizers, threads or processes, aggressive or not', must=['aggr', 'soft'])]
    if tier == 'thorough':
        hs += [H('three2', run, '3 optimizers x 2 evaluations, any frequency', {'n': 3, 'k': 2, 'kills': 2, 'freq': True, 'const': 4},
                 must=['killed', 'judged'], weight=6),
               H('ending3', run, '3 optimizers, two end by themselves', {'n': 3, 'k': [1, 1, 2], 'ends': (0, 1), 'kills': 2},
                 must=['killed'], weight=5)]
    return hs
