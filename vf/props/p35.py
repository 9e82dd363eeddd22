"""What an optimizer prints and logs: own files per optimizer."""
import io
import logging
import shutil
import sys
import tempfile
from pathlib import Path

from vf import env
from vf import world as wd
from vf.harness import H
from vf.props import chk, mgr, p13

INFO = {
    'outside': 'more than 2 optimizers printing up to 3 times; output of child processes written below Python (file descriptors); '
               'text lost in buffers when a process is killed by force; more than 4 log messages',
    'assumptions': ['a process has standard streams of its own, inherited from its parent, and flushes them when it ends',
                    'threads run the real thread body'],
}


def content(p):
    return p.read_text() if p.exists() else None


def streams(S):
    """interleavings of optimizers, task and manager, all printing"""
    term, terr = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr

    def back():
        sys.stdout, sys.stderr = old
    S.defer(back)
    n = S.cfg['n']
    said = {i: {'out': [], 'err': []} for i in range(1, n + 1)}
    own = []
    scripts, values = {}, {}
    for i in range(n):
        o = i + 1

        def task(o=o):
            sys.stdout.write(f'task {o};')
            said[o]['out'].append(f'task {o};')
            return 1.0
        values[float(o)] = task
        acts = []
        for j in range(S.length('acts', 0, S.cfg['k'])):
            kind = S.pick('does', ['out', 'err', 'eval'] if not i or not S.cfg.get('quiet') else ['out'])
            if kind == 'eval':
                acts.append(('eval!', [float(o)]))
            else:
                acts.append(('print', f'{kind} {o}.{j};') + (('err',) if kind == 'err' else ()))
        end = S.pick('ends', S.cfg['ends'] if not i or not S.cfg.get('quiet') else ['conv'])
        acts.append((end, f'bang {o}') if end == 'crash' else (end,))
        scripts[i] = acts
    backend = S.pick('backend', S.cfg.get('backends', ['threads', 'processes']))
    split = S.pick('split', [True, False])

    def checker(calls, man):
        W = wd.W
        if S.cfg.get('manager'):
            sys.stdout.write(f'manager {calls};')
            own.append(f'manager {calls};')
        return all(p.opt is not None and (p.opt.dead or p.opt.pending[0] == 'poll') for p in W.procs.values()) and len(W.procs) == n \
            or calls > 12
    sys.stdout, sys.stderr = term, terr
    if S.cfg.get('later') and S.flag('earlier_run'):  # left in place by an earlier run with threads
        R = env.module('glompo.core._backends').ThreadPrintRedirect
        sys.stdout, sys.stderr = R(term), R(terr)
    w, m = mgr.setup(S, scripts, checker, values, budget=S.cfg.get('budget', 0), backend=backend, split_printstreams=split,
                     end_timeout=1)
    w.streams = w.prompt = True
    w.naps = S.cfg.get('naps', 0)
    w.idle_ok = lambda kind: False
    first = 0
    if S.cfg.get('later'):  # many optimizers were started before
        first = m.o_counter = S.pick('started_before', [0, 9, 1233, 12344])

    def spy(o, text, err):
        said[o - first]['err' if err else 'out'].append(text + '\n')
    w.on_print = spy
    if not split:
        w.on_print = lambda o, text, err: own.append(text + '\n') if not err else None
        for i in range(n):
            def task(o=i + 1):
                sys.stdout.write(f'task {o};')
                own.append(f'task {o};')
                return 1.0
            values[float(i + 1)] = task
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.start_manager()
    w.drain()
    finished = [i for i, p in w.procs.items() if p.opt.dead]
    codes = {i: p.exitcode for i, p in w.procs.items() if p.opt.dead}
    w.end()
    back()
    d = w.tmp / 'glompo_optimizer_printstreams'
    S.check(term.getvalue() == ''.join(own), 'terminal-gets-the-rest-in-order')
    for o in finished:
        S.check(codes[o] == 0 or scripts[o - 1 - first][-1][0] != 'conv', 'ended-well')
    if not split:
        S.check(not d.exists() or not list(d.iterdir()), 'no-files-unless-asked')
        S.cover('together')
        return
    for o in finished:
        out, err = content(d / f'printstream_{o:04}.out'), content(d / f'printstream_{o:04}.err')
        codes[o - first] = codes[o]
        o -= first
        S.check(out is not None and err is not None, 'own-files')
        S.check(out == ''.join(said[o]['out']), 'own-output-complete-and-in-order')
        S.check(err.startswith(''.join(said[o]['err'])), 'own-errors-complete-and-in-order')
        crashed = scripts[o - 1][-1][0] == 'crash' and codes[o] != 0
        if crashed:
            S.check(f'bang {o}' in err and 'RuntimeError' in err, 'error-in-its-file')
            S.cover('crashed')
        else:
            S.check(err == ''.join(said[o]['err']), 'nothing-else-in-the-file')
        S.cover(backend)
        if said[o]['out']:
            S.cover('printed')
        if said[o]['err']:
            S.cover('errors')
    S.check(len(list(d.iterdir())) <= 2 * len(w.procs), 'no-other-files')


def resumed(S):
    """optimizers which go on after a restart"""
    term, terr = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr

    def back():
        sys.stdout, sys.stderr = old
    S.defer(back)
    n = S.cfg['n']
    backend, split = S.pick('backend', ['threads', 'processes']), S.flag('split')
    later = S.pick('backend2', ['same', 'threads', 'processes'])
    w, m = mgr.setup(S, {i: [('wait',)] for i in range(n)}, lambda c, man: c >= 2, {}, backend=backend, split_printstreams=split)
    w.persist()
    w.prompt = w.streams = True
    w.on_print = lambda o, text, err: None
    w.naps = 0
    m.checkpoint_control = chk.control(S, w, checkpoint_at_conv=True)
    sys.stdout, sys.stderr = term, terr
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.start_manager()
        w.end()
        asked = S.pick('split2', ['same', True, False])
        kw = {} if asked == 'same' else {'split_printstreams': asked}
        if later != 'same':
            kw['backend'] = later
        w2, m2 = p13.second(S, w, chk.archives(w)[-1], lambda c, man: False, **kw)
    split = split if asked == 'same' else asked
    w2.streams = True
    w2.scripts = {i: [('print', f'out {i + 1};'), ('print', f'err {i + 1};', 'err'),
                      ('crash', f'bang {i + 1}') if i == 0 and S.flag('crash') else ('conv',)] for i in range(n)}
    order = []
    w2.on_print = lambda o, text, err: order.append((o, text + '\n', err))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m2.start_manager()
    w2.drain()
    dead = [i for i, p in w2.procs.items() if p.opt.dead]
    w2.end()
    back()
    d = w2.tmp / 'glompo_optimizer_printstreams'
    S.check(sorted(w2.procs) == list(range(1, n + 1)), 'all-go-on')
    S.check(term.getvalue() == ('' if split else ''.join(t for _, t, e in order if not e)), 'terminal-gets-the-rest-in-order')
    for o in dead:
        S.check((w2.procs[o].exitcode == 0) == (w2.scripts[o - 1][-1][0] == 'conv'), 'ended-well')
        if split:
            out, err = content(d / f'printstream_{o:04}.out'), content(d / f'printstream_{o:04}.err')
            S.check(out == f'out {o};\n', 'own-output-complete-and-in-order')
            S.check(err is not None and err.startswith(f'err {o};\n'), 'own-errors-complete-and-in-order')
            S.check(('bang' in err) == (w2.scripts[o - 1][-1][0] == 'crash'), 'error-in-its-file')
            S.cover('split')
        else:
            S.check(not d.exists() or not list(d.iterdir()), 'no-files-unless-asked')
            S.cover('together')


def threads(S):
    """the redirection alone: any order of beginning, writing, ending and closing"""
    import threading
    B = env.module('glompo.core._backends')
    d = Path(tempfile.mkdtemp(prefix='vf_p_'))
    S.defer(lambda: shutil.rmtree(str(d), ignore_errors=True))
    (d / 'glompo_optimizer_printstreams').mkdir()
    term = io.StringIO()
    R = B.ThreadPrintRedirect(term)
    who = {'now': 100}

    class T:
        @property
        def ident(self):
            return who['now']

    class Fake:
        def __getattr__(self, k):
            return getattr(threading, k)

        @staticmethod
        def get_ident():
            return who['now']

        @staticmethod
        def currentThread():
            return T()
        current_thread = currentThread
    for k, v in list(vars(B).items()):
        if v is threading:
            setattr(B, k, Fake())
            S.defer(lambda k=k, v=v: setattr(B, k, v))
    idents = {}
    for t in range(S.cfg['n']):  # identifiers of threads are reused once these have ended
        idents[t + 1] = S.pick('ident', [101, 102][:t + 1])
    files, state, main = {o: '' for o in idents}, {o: 0 for o in idents}, ''
    for step in range(S.cfg['steps']):
        o = S.choice('who', len(idents) + 1)
        who['now'] = idents[o] if o else 100
        if o == 0:
            R.write(f'{step};')
            main += f'{step};'
            continue
        others = [p for p in idents if p != o and idents[p] == idents[o] and state[p] == 1]
        if others:
            S.stop()  # two threads alive with the same identifier do not exist
        if state[o] == 0:
            R.register(o, d, 'out')
            state[o] = 1
        elif state[o] == 1 and S.flag('ends'):
            R.close(who['now'])
            state[o] = 2
        else:
            R.write(f'{step};')
            if state[o] == 1:
                files[o] += f'{step};'
            else:
                main += f'{step};'
    R.close()
    S.check(term.getvalue() == main, 'unregistered-and-ended-threads-print-as-usual')
    for o in idents:
        S.check((content(d / 'glompo_optimizer_printstreams' / f'printstream_{o:04}.out') or '') == files[o], 'own-output')
    S.cover('done')
    if idents[1] == idents.get(2) and state.get(2):
        S.cover('reused')


def logs(S):
    """log records of optimizers split into files"""
    F = env.module('glompo.common.helpers').SplitOptimizerLogs
    d = Path(tempfile.mkdtemp(prefix='vf_l_'))
    S.defer(lambda: shutil.rmtree(str(d), ignore_errors=True))
    propagate = S.flag('propagate')
    fmt = logging.Formatter('%(levelname)s:%(name)s:%(message)s') if S.flag('format') else None
    common = io.StringIO()
    h = logging.StreamHandler(common)
    h.addFilter(F(d / 'logs', propagate=propagate, formatter=fmt))
    if fmt:
        h.setFormatter(fmt)
    top = logging.getLogger('glompo.optimizers')
    names = ['glompo.optimizers.opt1', 'glompo.optimizers.opt12']
    old = top.level, top.handlers[:], top.propagate, logging.root.manager.disable
    levels = [logging.DEBUG, logging.WARNING]

    def back():
        top.setLevel(old[0])
        top.handlers[:] = old[1]
        top.propagate = old[2]
        logging.disable(old[3])
        for x in names:
            lg = logging.getLogger(x)
            for y in lg.handlers[:]:
                y.close()
                lg.removeHandler(y)
            lg.setLevel(logging.NOTSET)
            lg._cache.clear() if hasattr(lg, '_cache') else None
    S.defer(back)
    back()
    logging.disable(logging.NOTSET)
    top.handlers[:] = [h]
    top.propagate = False
    at, hl = S.pick('logger_level', levels), S.pick('handler_level', levels)
    top.setLevel(at)
    h.setLevel(hl)
    want, all_ = {1: [], 12: []}, []
    seen = set()
    for k in range(S.length('messages', 0, S.cfg['n'])):
        o, lv = S.pick('optimizer', [1, 12]), S.pick('level', levels)
        logging.getLogger(f'glompo.optimizers.opt{o}').log(lv, 'message %d', k)
        line = f'{logging.getLevelName(lv)}:glompo.optimizers.opt{o}:message {k}' if fmt else f'message {k}'
        if lv < at:
            continue
        if lv >= hl:
            seen.add(o)
            all_.append(line)
        if o in seen:  # its file exists from the first message the handler deals with
            want[o].append(line)
    for o in want:
        got = content(d / 'logs' / f'optimizer_{o}.log')
        S.check((got or '').splitlines() == want[o], 'own-log-complete-once-and-in-order')
        S.check((got is not None) == (o in seen), 'own-log-exists')
    S.check(common.getvalue().splitlines() == (all_ if propagate else []), 'common-log-as-asked')
    S.cover('propagated' if propagate and all_ else 'kept-back')


def harnesses(tier):
    hs = [H('streams', streams, '2 optimizers with up to 1 output each (own, error, from the task), one ends well or crashes',
            {'n': 2, 'k': 1, 'ends': ['conv', 'crash', 'wait'], 'quiet': True}, must=['together', 'crashed', 'threads', 'processes', 'printed', 'errors'], weight=2),
          H('order', streams, '2 optimizers printing while the manager prints', {'n': 2, 'k': 1, 'ends': ['conv'], 'manager': True, 'naps': 1, 'backends': ['threads']},
            must=['together', 'threads', 'printed'], weight=2),
          H('later', streams, 'the 1st, 10th, 1234th or 12345th optimizer, with or without an earlier run',
            {'n': 1, 'k': 2, 'ends': ['conv', 'crash'], 'later': True}, must=['together', 'crashed', 'threads', 'processes', 'printed', 'errors']),
          H('resumed', resumed, 'an optimizer going on after a restart, with the same or other settings', {'n': 1},
            must=['split', 'together']),
          H('threads', threads, 'any order of 5 steps of 2 optimizer threads and the main one', {'n': 2, 'steps': 5}, must=['done', 'reused']),
          H('logs', logs, 'up to 3 messages', {'n': 3}, must=['propagated', 'kept-back'])]
    if tier == 'thorough':
        hs += [H('streams2', streams, 'up to 2 outputs each', {'n': 2, 'k': 2, 'ends': ['conv', 'crash', 'quit', 'wait'], 'naps': 1}, weight=5),
               H('threads7', threads, '7 steps of 3 threads', {'n': 3, 'steps': 7}, weight=4),
               H('logs4', logs, '4 messages', {'n': 4}, weight=3)]
    return hs
