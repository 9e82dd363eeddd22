"""Every optimizer that was started ends in exactly one recorded outcome, and the statistics agree with the record."""
from vf import world as wd
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 2 optimizers; optimizers whose process cannot be ended by a signal',
    'assumptions': ['an optimizer process which disappears closes its end of the pipe; its exit code is what the system reports'],
}

WAYS = ('conv', 'note-conv', 'quit', 'note-quit', 'crash', 'die', 'wait')
REASON = 'Optimizer convergence: done'


def actions(way):
    return {'conv': [('conv',)], 'note-conv': [('note', 'hello'), ('conv',)], 'quit': [('quit',)],
            'note-quit': [('note', 'hello'), ('quit',)], 'crash': [('note', 'hello'), ('crash', 'boom')],
            'die': [('die', -9)], 'wait': [('wait',)]}[way]


def klass(txt):
    """how the record describes the end"""
    if txt is None:
        return None
    if 'GloMPO Termination' in txt and 'Forced' not in txt:
        return 'killed'
    if txt == REASON:
        return 'said'
    if txt == 'Normal termination (Reason unknown)':
        return 'silent'
    if 'Error termination' in txt:
        return 'error'
    if txt == 'GloMPO Convergence':
        return 'closed'
    if txt in ('User Interrupt', 'GloMPO Crash'):
        return 'closed'
    return txt


def run(S):
    n = S.cfg['n']
    ways = [S.pick(f'end_{i + 1}', S.cfg['ways']) for i in range(n)]
    proc = S.flag('processes') if S.cfg.get('proc') is None else S.cfg['proc']
    if not proc:
        S.assume('die' not in ways)  # threads cannot disappear
    k = S.cfg.get('k', 1)
    scripts, vals = mgr.evals(S, n, k, **({'const': lambda i, j: float(i)} if S.cfg.get('const') else {}))
    for i in range(n):
        scripts[i] += actions(ways[i])
    kill = S.cfg.get('kill')
    if 'wait' in ways or kill:
        last = S.int('stop_after', 1, n)
    else:
        last = None

    def stop(calls, man):
        if calls > 8:
            return True
        return last is not None and 'wait' in ways and man.conv_counter >= last

    w, m = mgr.setup(S, scripts, stop, vals, max_jobs=n + 1, backend='processes' if proc else 'threads',
                     budget=S.cfg.get('budget', 0), hunt=(lambda log, h, v: S.flag(f'kill_{v}')) if kill else None,
                     hunt_frequency=1, force_terminations_after=-1)
    m.opt_log.build_traj_plot = True  # keep the records of finished optimizers
    w.prompt = True
    w.burst = True
    w.naps = S.cfg.get('naps', 0)
    ends, msgs = {}, {}
    killed = []
    w.watch['meta'] = lambda who, kv: ends.setdefault(who, []).append(str(kv[1])) if kv[0] == 'end_cond' else None
    w.watch['message'] = lambda who, t: msgs.setdefault(who, []).append(str(t))
    w.watch['send'] = lambda who, msg: killed.append(who) if m.t_end is None and msg == 1 and not m.converged else None
    final = {}
    close = m.opt_log.close

    def closing():
        for i in range(1, m.o_counter + 1):
            for key in ('t_start', 't_stop', 'end_cond', 'opt_type'):
                try:
                    final[i, key] = m.opt_log.get_metadata(i, key)
                except KeyError:
                    final[i, key] = None
            final[i, 'messages'] = [str(t) for t in m.opt_log.get_messages(i)] if hasattr(m.opt_log, 'get_messages') else None
        close()
    m.opt_log.close = closing
    r = m.start_manager()
    S.check('GloMPO Crash' not in r.stats['end_cond'], 'run-survives')
    S.check(m.o_counter == n, 'all-started')
    alone = r.stats['end_cond'] == 'No optimizers alive, spawning stopped.'
    got = {}
    for i in range(1, n + 1):
        way = ways[i - 1]
        S.check(len(ends.get(i, [])) == 1, 'exactly-one-outcome')
        txt = str(final[i, 'end_cond'])
        S.check(ends[i] == [txt], 'outcome-on-record')
        S.check(final[i, 't_stop'] is not None and final[i, 't_start'] is not None, 'times-on-record')
        S.check(final[i, 'opt_type'] == mgr.NAMES[i - 1], 'type-on-record')
        c = klass(txt)
        got[i] = c
        S.check((c == 'killed') == (i in killed), 'killed-iff-stopped')
        want = {'conv': 'said', 'note-conv': 'said', 'quit': 'silent', 'note-quit': 'silent', 'crash': 'error', 'die': 'error',
                'wait': 'closed'}[way]
        if alone and c != 'killed':
            S.check(c == want, 'outcome')
            S.cover(want)
        else:
            S.check(c in (want, 'killed', 'closed'), 'outcome-possible')
        if c == 'error':
            S.check(('9' if way == 'die' else '1') in txt, 'exit-code-on-record')
            if way == 'crash':
                S.check(any('boom' in t for t in msgs.get(i, [])), 'reason-of-crash-on-record')
            S.check(any('Terminated in error' in t for t in msgs.get(i, [])), 'error-noted')
        if c in ('said', 'silent', 'error') and way in ('note-conv', 'note-quit', 'crash'):
            S.check(msgs.get(i, [None])[0] == 'hello', 'message-on-record')
            S.check(msgs[i].count('hello') == 1, 'message-once')
            S.cover('message')
        if c == 'silent':
            S.check(any('Terminated normally' in t for t in msgs.get(i, [])), 'silence-noted')
    conv = sum(1 for c in got.values() if c in ('said', 'silent'))
    S.check(m.conv_counter == conv, 'converged-counter')
    S.check(len(m.hunt_victims) == len(killed) == sum(1 for c in got.values() if c == 'killed'), 'killed-counter')
    if m.f_counter:
        S.check(r.stats['opts_started'] == n, 'stats-started')
        S.check(r.stats['opts_conv'] == conv, 'stats-converged')
        S.check(r.stats['opts_killed'] == len(killed), 'stats-killed')
    for c in set(got.values()):
        S.cover(c)
    S.observe('ends', [got[i] for i in sorted(got)])


def harnesses(tier):
    allw = [x for x in WAYS]
    hs = [H('two', run, '2 optimizers without evaluations ending in any of 7 ways, threads or processes, all orders',
            {'n': 2, 'k': 0, 'ways': allw}, must=['said', 'silent', 'error', 'closed', 'message'], weight=3),
          H('one', run, '1 optimizer with an evaluation, ending in any of 7 ways at any moment, also between any two operations '
            'of the manager', {'n': 1, 'k': 1, 'ways': allw, 'budget': 1, 'naps': 1},
            must=['said', 'silent', 'error', 'closed', 'message'], weight=3),
          H('killed', run, '2 optimizers with an evaluation each, any of which may be killed at any hunt',
            {'n': 2, 'k': 1, 'ways': ['conv', 'quit', 'wait'], 'kill': True, 'proc': True}, must=['killed', 'said', 'silent', 'closed'],
            weight=3)]
    if tier == 'thorough':
        hs += [H('two_any', run, '2 optimizers, one ending between any two operations of the manager',
                 {'n': 2, 'k': 0, 'ways': allw, 'budget': 1, 'naps': 1}, must=['said', 'error'], weight=6),
               H('killed_any', run, '2 optimizers with an evaluation each, killed or ending between any two operations',
                 {'n': 2, 'k': 1, 'ways': allw, 'kill': True, 'budget': 1, 'const': True}, must=['killed'], weight=6)]
    return hs
