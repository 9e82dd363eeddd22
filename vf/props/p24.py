"""The optimizers' side of the conversation with the manager, and their state on file."""
import shutil
import tempfile
from pathlib import Path

from vf import env
from vf.harness import H
from vf.props.p25 import Event, Pipe, Store, scene

INFO = {
    'outside': 'more than 4 messages; states of more than 3 variables; dill itself; optimizers overriding the base methods',
    'assumptions': ['pipes deliver in order', 'pickling keeps values'],
}


def make(w):
    base = env.module('glompo.optimizers.baseoptimizer')

    class Plain(base.BaseOptimizer):
        def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1, backend='threads',
                     is_log_detailed=False, **kw):
            super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed, **kw)

        def minimize(self, function, x0, bounds, callbacks=None, **kw):
            return None

        def callstop(self, reason='none given'):
            w.did.append(('stop', reason))

        def a_method(self):
            return 1
    return Plain


class Line(Pipe):
    """a pipe on which the manager's next messages arrive once the optimizer has answered (or waits for them)"""

    def __init__(self, w):
        super().__init__()
        self.w = w
        self.later = []
        self.empty = 0

    def poll(self, timeout=0):
        if not self.inbox and timeout is None:
            if not self.later:
                raise Blocked()
            self.inbox.append(self.later.pop(0))
        if self.inbox:
            self.empty = 0
        else:  # somebody may look repeatedly instead of waiting
            self.empty += 1
            if self.empty > 3:
                if not self.later:
                    raise Blocked()
                self.inbox.append(self.later.pop(0))
                self.empty = 0
        return bool(self.inbox)

    def recv(self):
        m = super().recv()
        self.w.did.append(('read', m))
        return m

    def send(self, m):
        self.w.did.append(('sent', m))


class Blocked(BaseException):
    pass


class Flag(Event):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def clear(self):
        super().clear()
        self.w.did.append(('cleared',))

    def wait(self, timeout=None):
        self.w.did.append(('waits', self.open))
        return super().wait(timeout)


class Scene:
    def __init__(self, S):
        self.S = S
        self.did = []


KINDS = ['stop', 'reason', 'inject', 'save', 'pass', 'junk', 'prepare']


def talk(S):
    """every message is obeyed once, in order; a checkpoint is answered, saved, and waited for"""
    w = Scene(S)
    d = scene(S)
    P = make(w)
    line, flag = Line(w), Flag(w)
    o = P(_opt_id=3, _signal_pipe=line, _results_queue=object(), _pause_flag=flag)
    n = S.length('messages', 0, S.cfg['n'])
    msgs = []
    prep = None
    for i in range(n):
        k = S.pick('kind', KINDS if prep is None else KINDS[:-1])
        if k == 'prepare':
            prep = i
        msgs.append((k, {'stop': 1, 'reason': (1, f'because {i}'), 'inject': (4, [S.float('x')], S.float('fx', nan=True, inf=True)),
                         'save': (0, d / f's{i}'), 'pass': 3, 'prepare': 2,
                         'junk': S.pick('junk', [55, ('text', 1), 'text', None, 2.5, (99,)]) if k == 'junk' else None}[k]))
    cut = S.length('arrive_at_once', prep + 1, n) if prep is not None else n
    line.inbox = [m for _, m in msgs[:cut]]
    line.later = [m for _, m in msgs[cut:]]
    ends = prep is None or any(k in ('save', 'pass') for k, _ in msgs[prep + 1:])
    try:
        keys = o.check_messages()
    except Blocked:
        S.check(not ends, 'waits-only-for-an-instruction')
        S.check([x for x in w.did if x[0] == 'sent'] == [('sent', (1, None))], 'answered')
        S.check(not line.inbox and not line.later, 'all-read')
        S.check(('cleared',) not in w.did, 'not-paused-before-instructed')
        S.cover('blocked')
        return
    S.check(ends, 'returns-only-when-instructed')
    S.check(not line.inbox, 'all-read')
    key = {'stop': 1, 'reason': 1, 'inject': 4, 'save': 0, 'pass': 3, 'prepare': 2}
    reads = [x[1] for x in w.did if x[0] == 'read']
    S.check(len(reads) == len(msgs) - len(line.later) and all(a is m for a, (_, m) in zip(reads, msgs)), 'read-once-in-order')
    done = msgs[:len(reads)]
    if prep is None:
        S.check(list(keys) == [key[k] for k, _ in done if k in key], 'keys-returned')
    else:
        S.check(list(keys)[:prep + 1] == [key[k] for k, _ in done[:prep + 1] if k in key] or 'junk' in [k for k, _ in done], 'keys-returned')
    stops = [x[1] for x in w.did if x[0] == 'stop']
    S.check(stops == ['none given' if k == 'stop' else m[1] for k, m in done if k in ('stop', 'reason')], 'stops')
    inj = [m for k, m in done if k == 'inject']
    if inj:
        S.check(o.incumbent['x'] is inj[-1][1] and S.same(o.incumbent['fx'], inj[-1][2]), 'incumbent')
        S.cover('injected')
    else:
        S.check(o.incumbent['x'] is None and o.incumbent['fx'] is None, 'incumbent')
    saved = sorted(p.name for p in d.iterdir())
    S.check(saved == sorted(m[1].name for k, m in done if k == 'save'), 'saved')
    kinds = [x[0] for x in w.did]
    if prep is not None:
        i = kinds.index('sent')
        S.check(w.did[i] == ('sent', (1, None)) and kinds.count('sent') == 1, 'answered')
        S.check(kinds[:i].count('read') == prep + 1, 'answered-at-once')
        S.check(kinds.count('cleared') == 1 and kinds.index('cleared') > i, 'paused')
        j = kinds.index('cleared')
        S.check(('waits', False) in w.did[j:], 'waits-until-released')
        S.check(any(k in ('save', 'pass') for k, _ in done[prep + 1:kinds[:j].count('read')]), 'paused-after-instruction')
        S.cover('prepared')
    else:
        S.check('sent' not in kinds and 'cleared' not in kinds and 'waits' not in kinds, 'quiet')
    S.cover('talked')


def roundtrip(S):
    """an optimizer loaded from file has all public variables of the saved one, and the new links"""
    w = Scene(S)
    d = scene(S)
    P = make(w)
    if S.flag('class_variable'):
        P.shared = S.int('shared')
    log = S.flag('log_detailed')
    o = P(_opt_id=3, _signal_pipe=Line(w), _results_queue=object(), _pause_flag=Flag(w), workers=S.int('w', 1, 9), is_log_detailed=log)
    names = ['alpha', 'x_', 'logger_name']
    chosen = {}
    for i in range(S.length('variables', 0, S.cfg['n'])):
        nm = S.pick('name', [x for x in names if x not in chosen])
        kind = S.pick('value', ['number', 'list', 'dict', 'none', 'function'])
        v = S.float('v', nan=True, inf=True)
        val = {'number': v, 'list': [v, 1], 'dict': {'a': [v]}, 'none': None, 'function': lambda: 3}[kind]
        chosen[nm] = (kind, v)
        setattr(o, nm, val)
    o._private = 5
    if S.flag('has_incumbent'):
        fx = S.float('inc')
        o.inject([1.0, 2.0], fx)
    else:
        fx = None
    force = S.pick('force', [None, {'_private'}])
    o.checkpoint_save(d / 'file', force) if force else o.checkpoint_save(d / 'file')
    for nm, (kind, v) in chosen.items():  # goes on after being saved
        if kind == 'list':
            getattr(o, nm).append(9)
        elif kind == 'dict':
            getattr(o, nm)['a'].append(9)
        else:
            setattr(o, nm, 'changed')
    line, queue, flag = Line(w), object(), Flag(w)
    wk = S.int('w2', 1, 9)
    q = P.checkpoint_load(d / 'file', _opt_id=8, _signal_pipe=line, _results_queue=queue, _pause_flag=flag, workers=wk, backend='processes')
    S.check(isinstance(q, P) and q is not o, 'class')
    S.check(q.is_restart is True and o.is_restart is False, 'is-restart')
    S.check(q.opt_id == 8, 'number')
    S.check(q.logger.name.endswith('opt8'), 'logger')
    for nm, (kind, v) in chosen.items():
        if kind == 'function':
            continue
        S.check(hasattr(q, nm), 'variable-kept')
        got = getattr(q, nm)
        S.check(S.same(got, v) if kind == 'number' else got is None if kind == 'none' else
                (S.all([len(got) == 2, S.same(got[0], v), got[1] == 1]) if kind == 'list' else S.all([len(got['a']) == 1, S.same(got['a'][0], v)])),
                'variable-kept')
        S.cover('kept')
    S.check(q.is_log_detailed is log, 'log-detailed')
    if fx is not None:
        S.check(S.same(q.incumbent['fx'], fx) and list(q.incumbent['x']) == [1.0, 2.0], 'incumbent-kept')
    S.check(hasattr(q, '_private') == bool(force), 'private-only-if-forced')
    # the links are the new ones
    q.message_manager(9, 'hello')
    S.check(('sent', (9, 'hello')) in w.did, 'message-sent')
    line.inbox.append(2)
    line.later = [3]
    q.check_messages()
    S.check(('cleared',) in w.did and flag.waits == 1, 'new-links')
    S.cover('loaded')


def harnesses(tier):
    hs = [H('talk', talk, 'up to 3 messages of 7 kinds, arriving at once or while waited for', {'n': 3},
            must=['talked', 'prepared', 'blocked', 'injected'], weight=2),
          H('roundtrip', roundtrip, 'up to 2 variables of 5 kinds', {'n': 2}, must=['loaded', 'kept'], weight=2)]
    if tier == 'thorough':
        hs += [H('talk4', talk, 'up to 4 messages', {'n': 4}, weight=5), H('roundtrip3', roundtrip, '3 variables', {'n': 3}, weight=4)]
    return hs
