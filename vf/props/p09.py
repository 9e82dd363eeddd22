"""The manager does what the user asks for while it runs: STOP files, CHKPT file, scheduled checkpoints."""
from pathlib import Path

from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr

INFO = {
    'outside': 'more than 3 optimizers, more than 2 files at a time; files which cannot be deleted',
    'assumptions': ['pickling is replaced by copying (files, directories and archives are real)'],
}

NAMES = {'STOP_1': 1, 'STOP_2': 2, 'STOP_002': 2, 'STOP_03': 3, 'STOP_9': 9, 'STOP_x': None, 'STOP_': None, 'STOP_1_2': None,
         'stop_1': None, 'XSTOP_1': None, 'STOP1': None, 'STOP_1.txt': None}


def stop(S):
    """2 running optimizers, one that has ended, one that comes later"""
    first = S.pick('first', list(NAMES))
    second = S.pick('second', S.cfg['second'])
    at = S.int('created', 1, 3)
    scripts = {0: [('wait',)], 1: [('wait',)], 2: [('conv',)]}
    if S.cfg.get('evals'):
        vals = {float(j): float(j) for j in range(3)}
        scripts[0] = [('eval', [0.0]), ('wait',)]
        scripts[1] = [('eval', [1.0]), ('wait',)]
    else:
        vals = {}
    st = {'at': None, 'done': set()}
    names = [x for x in dict.fromkeys([first, second]) if x]

    def tick(calls, man):
        if st['at'] is None and calls >= at:
            st['at'] = calls
            for x in names:
                (w.tmp / x).touch()
        if st['at'] is not None:
            st['after'] = calls - st['at']
        return calls >= 6

    mode = S.pick('mode', ['threads', 'processes', 'aggressive']) if len(names) == 1 else 'processes'
    w, m = mgr.setup(S, scripts, tick, vals, max_jobs=3, backend='threads' if mode == 'threads' else 'processes',
                     aggressive_kill=mode == 'aggressive')
    w.prompt = True
    w.idle_ok = lambda kind: False
    w.order = lambda kind, en, must: 0
    r = m.start_manager()
    want = {NAMES[x] for x in names} & {1, 2}
    got = {i for i in w.procs if ('end_cond', 'User STOP file intervention.') in w.did('meta', i) or
           any(k == 'end_cond' and 'STOP' in str(v) for k, v in w.did('meta', i))}
    S.check(got == want, 'exactly-those-asked-for')
    for i in (1, 2):
        stops = [d for _, d in w.sent(i) if d == 1]
        if i in want:
            S.check(len(stops) == (mode != 'aggressive'), 'told-once')
            S.check(len([1 for k, v in w.did('meta', i) if k == 'end_cond']) == 1, 'recorded-once')
            S.check(i in m.hunt_victims, 'counted-as-killed')
            S.cover('stopped')
        else:
            S.check(i not in m.hunt_victims, 'others-run-on')
    S.check(r.stats['end_cond'] == w.checker.str_with_result() or want == {1, 2}, 'run-goes-on')
    for x in names:
        used = NAMES[x] in want and [y for y in names if NAMES[y] == NAMES[x]] == [x]
        if used:
            S.check(not (w.tmp / x).exists(), 'file-removed')
        elif NAMES[x] not in want:
            S.check((w.tmp / x).exists(), 'other-files-left')
            S.cover('ignored')


def late(S):
    """a file for an optimizer which is yet to be started takes effect when it runs"""
    scripts = {0: [('conv',)], 1: [('wait',)]}
    w, m = mgr.setup(S, scripts, lambda c, man: c >= S_at, {}, max_jobs=1)
    S_at = S.int('rounds', 1, 5)
    w.prompt = True
    w.naps = 1
    (w.tmp / 'STOP_2').touch()
    m.start_manager()
    ran = 2 in w.procs
    gone = not (w.tmp / 'STOP_2').exists()
    S.check(gone == (2 in m.hunt_victims), 'used-once-it-runs')
    S.check(S.implies(not ran, not gone), 'kept-until-then')
    S.check(1 not in m.hunt_victims, 'others-run-on')
    if gone:
        S.cover('used')
    else:
        S.cover('kept')


def manual(S):
    """the CHKPT file"""
    have = S.flag('control')
    at = S.int('created', 1, 3)
    again = S.flag('again')
    fails = S.flag('fails')
    scripts, vals = mgr.evals(S, 2, 1, const=lambda i, j: float(i))
    for i in range(2):
        scripts[i].append(('wait',))
    st = {'n': 0, 'calls': 0, 'rounds': []}

    def tick(calls, man):
        if (S.all([calls >= at, st['n'] == 0])) or (again and st['n'] == 1 and calls >= at + 1):
            st['n'] += 1
            st['calls'] = len(w.spans)
            (w.tmp / 'CHKPT').touch()
        elif st['n']:
            S.check(not (w.tmp / 'CHKPT').exists(), 'file-removed')
            S.check(len(w.spans) == st['n'], 'one-checkpoint-per-request')
            S.cover('requested')
        else:
            S.check(not w.spans, 'none-unasked')
        return calls >= 6
    w, m = mgr.setup(S, scripts, tick, vals)
    w.persist()
    w.prompt = True
    w.naps = 0
    w.order = lambda kind, en, must: 0
    m.checkpoint_control = chk.control(S, w) if have else None
    control = m.checkpoint_control
    w.spans = chk.watch_checkpoints(w, m)
    if fails:
        real = w.dill.pickles
        w.dill.pickles = lambda obj, *a, **k: False
    r = m.start_manager()
    S.check(r.stats['end_cond'] == w.checker.str_with_result(), 'run-goes-on')
    S.check(m.checkpoint_control is control, 'settings-untouched')
    d = w.tmp / ('cp' if have else 'checkpoints')
    files = sorted(d.glob('*')) if d.exists() else []
    if fails:
        S.check(not files, 'nothing-left-behind')
        S.cover('failed')
    else:
        S.check([f.name.endswith('.tar.gz') for f in files] == [True] * len(files) and len(files) >= 1, 'archives')
        S.check(len(files) == st['n'] or not have, 'archives')
        S.cover('own' if have else 'default')


def schedule(S):
    """checkpoints every so many evaluations or seconds, and at the end"""
    inf = float('inf')
    every = S.int('evaluations', 0, 4) if S.cfg['evals'] else inf
    secs = S.int('seconds', 0, 200) if S.cfg['time'] else inf
    conv = S.flag('at_end')
    scripts, vals = mgr.evals(S, 1, S.cfg['k'], const=lambda i, j: float(j))
    scripts[0].append(('wait',))
    clock = env.new_clock('sym')
    clock.maxstep = 100
    st = {'f': 0, 'lo': None, 'hi': None, 'spans': 0, 'f_now': None, 't_now': None}

    def review(spans):
        """was the last round right to make or not to make a checkpoint?"""
        if len(spans) > st['spans']:
            S.check(len(spans) == st['spans'] + 1, 'one-per-round')
            S.check(S.any(([st['f_now'] - st['f'] > every] if every != inf else []) +
                          ([st['begin'] - st['lo'] > secs] if secs != inf else [])), 'only-when-due')
            if every == inf:
                st['lo'], st['hi'] = st['begin'], st['end']
            elif secs == inf:
                st['f'] = st['f_now']
            st['spans'] = len(spans)
            S.cover('made')
        elif st['f_now'] is not None:
            if every != inf:
                S.check(st['f_now'] - st['f'] <= every, 'made-when-due')
            if secs != inf:
                S.check(st['t_now'] - st['hi'] <= secs, 'made-when-due')
            S.cover('not-due')

    def tick(calls, man):
        if st['lo'] is None:
            st['lo'] = st['hi'] = man.t_start
        review(w.spans)
        st['f_now'], st['t_now'] = man.f_counter, clock.now
        return calls >= S.cfg['rounds']

    w, m = mgr.setup(S, scripts, tick, vals)
    w.persist()
    w.fake_dates()
    m.status_frequency = 10 ** 9
    w.prompt = True
    w.order = lambda kind, en, must: None if not must and S.flag('slow') else 0
    m.checkpoint_control = chk.control(S, w, checkpoint_iter_frequency=every, checkpoint_time_frequency=secs, checkpoint_at_conv=conv)
    w.spans = chk.watch_checkpoints(w, m, after=lambda: st.update(end=clock.now))
    w.watch['chk-begin'] = lambda who, d: st.update(begin=clock.now)
    r = m.start_manager()
    S.check(r.stats['end_cond'] == w.checker.str_with_result(), 'run-goes-on')
    if conv:
        S.check(len(w.spans) >= 1 and w.spans[-1][4], 'at-the-end')
        w.spans.pop()
        S.cover('end')
    review(w.spans)
    S.check(len(chk.archives(w)) == len(w.spans) + (1 if conv else 0), 'archives')


def beginning(S):
    """a checkpoint before anything is started"""
    init = S.flag('at_init')
    scripts, vals = mgr.evals(S, 1, 1, const=lambda i, j: float(j))
    w = wd.World(S)
    w.persist()
    w.scripts, w.values = scripts, vals
    sel = wd.selector(w, [(wd.scripted(w), {'script': 0, 'workers': 1})])
    m = wd.manager(w, sel, lambda x: 1.0, wd.stopper(w, lambda c, man: c > 2), checkpoint_control=chk.control(S, w, checkpoint_at_init=init))
    S.check(len(chk.archives(w)) == (1 if init else 0), 'at-the-beginning')
    S.check(not w.did('start'), 'nothing-started')
    if init:
        m2 = w.core.GloMPOManager.load_manager(chk.archives(w)[0])
        S.check(m2.o_counter == 0 and m2.f_counter == 0, 'fresh')
        m2.checkpoint_control = None
        r = m2.start_manager()
        S.check(len(w.did('start')) == 1, 'started-from-it')
        S.cover('init')


def harnesses(tier):
    hs = [H('stop', stop, 'any two of 12 file names created in any of the first 3 rounds', {'second': [None, 'STOP_1', 'STOP_2', 'STOP_x']},
            must=['stopped', 'ignored'], weight=2),
          H('late', late, 'file for an optimizer that is started later', must=['used', 'kept']),
          H('manual', manual, 'CHKPT file in any of the first 3 rounds, with and without settings, once or twice, failing or not',
            must=['requested', 'own', 'default', 'failed'])]
    hs += [H('evaluations', schedule, 'checkpoint every 0 to 4 evaluations, 4 rounds, any speed of the optimizer',
             {'k': 3, 'rounds': 4, 'evals': True, 'time': False}, must=['made', 'not-due', 'end'], weight=2),
           H('seconds', schedule, 'checkpoint every 0 to 200 seconds, 3 rounds, any clock',
             {'k': 1, 'rounds': 3, 'evals': False, 'time': True}, must=['made', 'not-due', 'end'], weight=2),
           H('beginning', beginning, 'checkpoint at the beginning or not', must=['init'])]
    if tier == 'thorough':
        hs += [H('seconds5', schedule, '5 rounds', {'k': 2, 'rounds': 5, 'evals': False, 'time': True}, must=['made'], weight=5),
               H('evaluations6', schedule, '6 rounds', {'k': 5, 'rounds': 6, 'evals': True, 'time': False}, must=['made'], weight=5),
               H('stop_all', stop, 'any two of all names', {'second': list(NAMES), 'evals': True}, must=['stopped'], weight=2)]
    return hs
