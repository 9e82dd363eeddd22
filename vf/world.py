"""A closed, deterministic world for the manager: optimizers run as coroutines (strictly handed-off threads) that execute the
real optimizer base class, message wrapper and results queue; pipes, events, processes and time are stand-ins whose
interleavings are chosen by the driver (symbolic: forked by the explorer; replay: read from the model)."""
import copy
import datetime as _dt
import inspect
import multiprocessing as _mp
import os
import queue as _queue
import shutil
import sys
import tempfile
import threading
import traceback
import types
from collections import deque
from pathlib import Path

from vf import env

W = None  # the current world


class Killed(BaseException):
    pass


class Stuck(BaseException):
    """the manager is blocked for ever (or exceeded the step bound of the harness)"""


def baton():
    """a lock handed back and forth between the manager's thread and one optimizer"""
    k = threading.Lock()
    k.acquire()
    return k


class Opt:
    def __init__(self, w, proc):
        self.w = w
        self.proc = proc
        self.sem = baton()
        self.pending = ('begin', None)
        self.dead = False
        self.killed = False
        self.thread = None
        self.exitcode = None
        self.paused = False
        self.log = []
        self.std = sys.stdout, sys.stderr

    def enabled(self):
        if self.dead:
            return False
        cond = self.pending[1]
        return cond is None or cond()

    def run(self):
        self.sem.acquire()
        try:
            if not self.killed:
                try:
                    self.proc.work()
                    code = 0
                except Killed:
                    raise
                except Exception:
                    code = -1 if self.proc.is_thread else 1
                self.op('exit')
                self.exitcode = code if self.exitcode is None else self.exitcode
        except Killed:
            pass
        except BaseException as e:  # end of path in symbolic mode
            self.w.raised = e
        self.dead = True
        self.w.current = None
        self.w.main.release()

    def op(self, kind, cond=None):
        """called in the optimizer: wait for the scheduler"""
        if self.killed:
            raise Killed()
        self.pending = (kind, cond)
        self.w.current = None
        self.w.main.release()
        self.sem.acquire()
        self.w.current = self
        if self.killed:
            raise Killed()

    def step(self):
        """called by the manager: let the optimizer perform its pending operation and run up to the next one"""
        self.w.steps += 1
        if self.thread is None:
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
        self.w.current = self
        self.give()
        if self.w.raised is not None:
            e, self.w.raised = self.w.raised, None
            raise e

    def give(self):
        """hand over; a process has standard streams of its own"""
        own = self.w.streams and not self.proc.is_thread
        if own:
            mine = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = self.std
        self.sem.release()
        self.w.main.acquire()
        if own:
            self.std = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = mine
        self.w.current = None

    def kill(self, code):
        if self.dead:
            return
        self.killed = True
        if self.thread is not None:
            self.give()
        self.dead = True
        self.exitcode = code


class Proc:
    """stand-in for multiprocessing.Process and CustomThread"""
    is_thread = False

    def __init__(self, working_directory=None, group=None, target=None, name=None, args=(), kwargs=None, daemon=None,
                 redirect_print=False, **k):
        self.w = W
        self.target, self.args, self.kwargs, self.name, self.daemon = target, args, kwargs or {}, name, daemon
        self.redirect = redirect_print
        self.working_directory = working_directory
        self.opt = None
        self.real = None
        self.pid = 4242
        o = getattr(inspect.unwrap(target), '__self__', None)
        self.opt_id = getattr(o, '_opt_id', None)
        self.optimizer = o
        self.joins = []

    @property
    def ident(self):
        return self.pid

    def start(self):
        self.opt = Opt(self.w, self)
        self.w.procs[self.opt_id] = self
        self.w.record('start', self.opt_id, self)

    def work(self):
        if not self.w.streams:
            return self.target(*self.args, **self.kwargs)
        if self.is_thread:
            self.real = self.w.backends.CustomThread(
                self.working_directory, target=self.target, args=self.args, kwargs=self.kwargs, name=self.name,
                daemon=self.daemon, redirect_print=self.redirect)
            return self.real.run()
        try:  # what multiprocessing does
            self.target(*self.args, **self.kwargs)
        except Exception:
            sys.stderr.write(f'Process {self.name}:\n')
            traceback.print_exc()
            raise
        finally:
            for s in (sys.stdout, sys.stderr):
                try:
                    s.flush()
                except (AttributeError, ValueError):
                    pass

    def is_alive(self):
        self.w.point('alive', self.opt_id)
        return self.opt is not None and not self.opt.dead

    @property
    def exitcode(self):
        if self.opt is None:
            return None
        if self.real is not None:
            return self.real.exitcode
        if self.is_thread:
            return self.opt.exitcode if self.opt.exitcode is not None else 0
        return self.opt.exitcode if self.opt.dead else None

    def terminate(self):
        self.w.record('terminate', self.opt_id, None)
        if self.is_thread:
            raise AttributeError("threads have no attribute 'terminate'")
        if not self.w.ignore_term:
            self.opt.kill(-15)

    kill = terminate

    def join(self, timeout=None):
        self.w.record('join', self.opt_id, timeout)
        self.w.join(self, timeout)


class Thread_(Proc):
    is_thread = True


class Conn:
    def __init__(self, w, side):
        self.w = w
        self.side = side
        self.inbox = deque()
        self.peer = None
        self.closed = False

    def poll(self, timeout=0.0):
        w = self.w
        if self.side == 'o':
            if timeout is None and w.current is not None:
                w.current.op('poll', lambda: bool(self.inbox))
            return bool(self.inbox)
        if timeout is None or timeout > 0:
            w.block('pollwait', lambda: bool(self.inbox) or self.hung_up(), timeout)
        else:
            w.point('poll', self)
        return bool(self.inbox) or self.hung_up()

    def hung_up(self):
        """the optimizer at the other end has ended, and its end was closed with it"""
        i = self.w.conn_opt(self)
        o = self.w.procs[i].opt if i is not None else None
        return o is not None and o.dead

    def recv(self):
        w = self.w
        if self.side == 'o' and w.current is not None:
            if not self.inbox:
                w.current.op('recv', lambda: bool(self.inbox))
        elif not self.inbox:
            w.block('recv', lambda: bool(self.inbox) or self.hung_up(), None)
            if not self.inbox:
                if self.peer.inbox:  # messages it has never read
                    self.peer.inbox.clear()
                    raise ConnectionResetError(104, 'Connection reset by peer')
                raise EOFError
        return self.inbox.popleft()

    def send(self, obj):
        w = self.w
        if self.side == 'o' and w.current is not None:
            w.current.op('send')
            w.record('opt-send', w.current.proc.opt_id, obj)
        else:
            w.point('send', self)
            w.record('send', self, obj)
            if self.hung_up():
                raise BrokenPipeError(32, 'Broken pipe')
        self.peer.inbox.append(obj)

    def close(self):
        self.closed = True

    def fileno(self):
        return 3


class Ev:
    def __init__(self, w):
        self.w = w
        self.flag = False
        self.polled = 0

    def set(self):
        self.flag = True
        if self.w.current is None:
            self.w.record('release', self, None)

    def clear(self):
        self.flag = False

    def is_set(self):
        if self.w.current is None:
            self.w.block('is_set', lambda: not self.flag, 0.0)
        return self.flag

    def wait(self, timeout=None):
        w = self.w
        if w.current is not None:
            if not self.flag:
                w.current.paused = True
                w.current.op('wait', lambda: self.flag)
                w.current.paused = False
        else:
            w.block('wait', lambda: self.flag, timeout)
        return self.flag


def make_queue(w, base):
    class WQueue(base):
        """the real results queue; only blocking is replaced by scheduling"""

        def get(self, block=True, timeout=None):
            if w.current is None:
                if (block and (timeout is None or timeout > 0)) or w.polls > 2:
                    w.block('get', lambda: not self.empty_now(), timeout if block else 0.0)
                else:
                    w.point('get', None)
                    w.polls += self.empty_now()  # polling over and over: others get to move in between
            if self.empty_now():
                raise _queue.Empty()
            item = super().get(False)
            w.record('get', None, item)
            return item

        def get_nowait(self):
            return self.get(False)

        def empty_now(self):
            return super().empty()

        def empty(self):
            w.point('empty', None)
            return super().empty()

        def full(self):
            w.point('full', None)
            return super().full()

        def room(self):
            return self.maxsize <= 0 or len(self.queue) < self.maxsize

        def put(self, item, block=True, timeout=None):
            if w.current is not None:
                w.current.op('put', self.room)
            w.record('put', w.current.proc.opt_id if w.current else None, item)
            return super().put(item, False)

        def put_nowait(self, item):
            if w.current is not None:
                w.current.op('put', lambda: not self.fast_func or len(self.cache) + 1 < self.chunk_size or self.room())
            w.record('put', w.current.proc.opt_id if w.current else None, item)
            return super().put_nowait(item)
    return WQueue


class MpManager:
    def __init__(self, w):
        self.w = w

    def Event(self):
        e = Ev(self.w)
        self.w.events.append(e)
        return e

    def ChunkingQueue(self, *a, **k):
        q = make_queue(self.w, self.w.backends.ChunkingQueue)
        q = q(*(self.w.qargs or a), **({} if self.w.qargs else k))
        self.w.queue = q
        return q

    def shutdown(self):
        pass


class FakeMp(types.ModuleType):
    def __init__(self):
        super().__init__('multiprocessing')

    def Manager(self):
        return MpManager(W)

    def Pipe(self, duplex=True):
        a, b = Conn(W, 'm'), Conn(W, 'o')
        a.peer, b.peer = b, a
        W.pipes.append(a)
        return a, b

    Process = Proc

    def cpu_count(self):
        return W.cpus

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(_mp, name)


FAKE_MP = FakeMp()


class FakeDill(types.ModuleType):
    """what is dumped is a copy of the objects as they are at that moment; the file holds its number"""

    def __init__(self, w):
        super().__init__('dill')
        self.w = w
        self.bad = lambda obj: False  # objects that cannot be pickled
        self.bad_load = lambda obj: False

    def pickles(self, obj, *a, **k):
        return not self.bad(obj)

    def dump(self, obj, file, *a, **k):
        self.w.record('dump', self.w.current.proc.opt_id if self.w.current else None, obj)
        if self.bad(obj):
            raise TypeError('cannot pickle object')
        n = len(self.w.store)
        self.w.store[n] = copy.deepcopy(obj)
        file.write(b'%d' % n)

    def load(self, file, *a, **k):
        obj = self.w.store[int(file.read())]
        if self.bad_load(obj):
            raise TypeError('cannot unpickle object')
        return copy.deepcopy(obj)

    def dumps(self, obj, *a, **k):
        import io
        f = io.BytesIO()
        self.dump(obj, f)
        return f.getvalue()

    def loads(self, b, *a, **k):
        import io
        return self.load(io.BytesIO(b))


class World:
    def __init__(self, S, budget=0, max_points=3000, qargs=None):
        global W
        W = self
        self.S = S
        self.main = baton()
        self.current = None
        self.raised = None
        self.procs = {}
        self.pipes = []
        self.events = []
        self.trace = []  # everything that happened, in order
        self.budget = budget  # scheduling deviations allowed at non-blocking manager operations
        self.idle = 0
        self.polls = 0
        self.steps = 0
        self.points = 0
        self.max_points = max_points
        self.qargs = qargs
        self.queue = None
        self.ignore_term = False
        self.watch = {}
        self.streams = False  # standard streams are looked at: real thread bodies, own streams of processes
        self.free = True  # blocking operations choose freely which optimizer moves
        self.cpus = 4
        self.quiet = False  # nothing moves (used while the harness itself inspects)
        self.order = None
        self.join_completes = True
        self.idle_ok = lambda kind: True
        self.fault = None  # raised in the manager at one of its operations
        self.fault_window = lambda: True
        self.faulted = False
        self.burst = False
        self.naps = None  # how often the manager may still time out although optimizers could move (None: any number)
        self.prompt = False  # optimizers start up at once (their first operation commutes with everything else)
        self.tmp = Path(tempfile.mkdtemp(prefix='vf_w_'))
        S.defer(self.close)
        self.core = env.module('glompo.core.manager')
        self.backends = env.module('glompo.core._backends')
        self.base = env.module('glompo.optimizers.baseoptimizer')
        self._patch()

    def _patch(self):
        """point the names the manager module imported at the stand-ins"""
        real_thread = self.backends.CustomThread
        for mod in (self.core,):
            for k, v in list(vars(mod).items()):
                if v is _mp:
                    self._set(mod, k, FAKE_MP)
                elif v is real_thread:
                    self._set(mod, k, Thread_)

    def fake_dates(self):
        """dates made from symbolic clock readings are not looked at"""
        for k, v in list(vars(self.core).items()):
            if v is _dt.datetime:
                self._set(self.core, k, env.FakeDateTime)

    def persist(self):
        """pickling is replaced by keeping a copy of the objects (files, directories and archives are real)"""
        import dill
        self.store = getattr(self.S, 'pickles', None)
        if self.store is None:
            self.store = self.S.pickles = {}
            self.S.defer(lambda: delattr(self.S, 'pickles'))
        fake = FakeDill(self)
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.startswith('glompo'):
                for k, v in list(vars(mod).items()):
                    if v is dill or isinstance(v, FakeDill):
                        self._set(mod, k, fake)
        self.dill = fake
        return fake

    def _set(self, mod, k, v):
        old = getattr(mod, k, self)
        setattr(mod, k, v)
        self.S.defer(lambda: delattr(mod, k) if old is self else setattr(mod, k, old))

    def end(self):
        """everything that still runs disappears"""
        self.quiet = True
        for p in self.procs.values():
            if p.opt is not None and not p.opt.dead:
                try:
                    p.opt.kill(-9)
                except BaseException:
                    pass

    def close(self):
        self.end()
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------ recording
    def record(self, what, who, data):
        if isinstance(who, Conn):
            who = self.conn_opt(who)
        elif isinstance(who, Ev):
            who = self.ev_opt(who)
        self.trace.append((what, who, data))
        f = self.watch.get(what)
        if f is not None:
            f(who, data)

    def conn_opt(self, conn):
        for i, p in self.procs.items():
            if p.optimizer is not None and p.optimizer._signal_pipe is conn.peer:
                return i
        return None

    def ev_opt(self, ev):
        for i, p in self.procs.items():
            if p.optimizer is not None and p.optimizer._pause_signal is ev:
                return i
        return None

    def sent(self, i=None, key=None):
        """messages sent by the manager: [(opt id, message)]"""
        out = [(w, d) for k, w, d in self.trace if k == 'send' and (i is None or w == i)]
        if key is not None:
            out = [(w, d) for w, d in out if (d[0] if isinstance(d, tuple) else d) == key]
        return out

    def did(self, what, i=None):
        return [d for k, w, d in self.trace if k == what and (i is None or w == i)]

    # ------------------------------------------------------------ scheduling
    def alive_path(self):
        S = self.S
        if S.sym and S.ex.dead is not None:
            raise S.ex.dead
        self.points += 1
        if self.points > self.max_points:
            raise Stuck('step bound')
        if self.fault is not None and self.current is None and self.fault_window() and S.flag('fault'):
            f, self.fault = self.fault, None
            self.faulted = True
            raise f

    def enabled(self):
        return [p.opt for i, p in sorted(self.procs.items()) if p.opt is not None and p.opt.enabled()]

    def point(self, kind, who):
        """a non-blocking operation of the manager"""
        if self.quiet or self.current is not None:
            return
        self.alive_path()
        if self.budget > 0:
            en = self.enabled()
            if en:
                k = self.S.choice('at_' + kind, len(en) + 1)
                if k:
                    self.budget -= 1
                    en[k - 1].step()
                    while self.burst and en[k - 1].enabled():  # runs on as far as it can
                        en[k - 1].step()

    def block(self, kind, ready, timeout):
        """an operation of the manager that may wait: optimizers move until it is satisfied or times out"""
        if self.quiet:
            return
        self.alive_path()
        self.polls = 0
        while not ready():
            en = self.enabled()
            if self.prompt:
                new = [e for e in en if e.pending[0] == 'begin']
                if new:
                    new[0].step()
                    continue
            if not en:
                if timeout is None:
                    raise Stuck('manager waits for ever: ' + kind)
                self.idle += 1
                if self.idle > 60:
                    raise Stuck('manager polls for ever: ' + kind)
                return
            must = timeout is None or kind in ('pollwait', 'is_set') or not self.idle_ok(kind) or self.naps == 0
            k = self.choose(kind, en, must)
            if k is None:
                self.idle += 1
                if self.naps:
                    self.naps -= 1
                return
            self.idle = 0
            en[k].step()
            self.alive_path()
        self.idle = 0

    def choose(self, kind, en, must):
        if self.order is not None:
            return self.order(kind, en, must)
        if not self.free:
            return 0
        k = self.S.choice('sched', len(en) + (0 if must else 1))
        return None if k == len(en) else k

    def join(self, proc, timeout):
        o = proc.opt
        if o is None or o.dead:
            return
        if timeout is not None and not self.join_completes:
            return
        for _ in range(200):
            if o.dead:
                return
            if o.enabled():
                o.step()
            else:
                others = [e for e in self.enabled()]
                if not others:
                    break
                others[0].step()
        if timeout is None and not o.dead:
            raise Stuck('manager joins for ever')

    def drain(self):
        """let everything that can still move, move"""
        for _ in range(200):
            en = self.enabled()
            if not en:
                return
            en[0].step()


def scripted(w, name='ScriptOpt'):
    """an optimizer class running a script of actions, on the real base class"""
    B = w.base.BaseOptimizer  # everything else is looked up in the current world: the class may be used in a resumed run

    class ScriptOpt(B):
        def __init__(self, *a, script=0, **k):
            super().__init__(*a, **k)
            self.script = script
            self.pos = 0
            self.stopped = False
            self.injected = []

        def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
            while self.pos < len(W.scripts[self.script]):
                act = W.scripts[self.script][self.pos]
                kind = act[0]
                if kind == 'eval':
                    self.check_messages()
                    self._pause_signal.wait()
                    if self.stopped:
                        break
                    function(act[1])
                elif kind == 'eval!':
                    function(act[1])
                elif kind == 'check':
                    self.check_messages()
                    self._pause_signal.wait()
                    if self.stopped:
                        break
                elif kind == 'wait':  # keep running until told to stop
                    while not self.stopped:
                        self._signal_pipe.poll(timeout=None)
                        self.check_messages()
                        self._pause_signal.wait()
                    break
                elif kind == 'conv':
                    self.message_manager(0, act[1] if len(act) > 1 else 'Optimizer convergence: done')
                    return
                elif kind == 'print':
                    W.current.op('print')
                    W.on_print(self._opt_id, act[1], len(act) > 2)
                    print(act[1], file=sys.stderr if len(act) > 2 else sys.stdout)
                elif kind == 'note':
                    self.message_manager(9, act[1])
                elif kind == 'crash':
                    raise RuntimeError(act[1] if len(act) > 1 else 'boom')
                elif kind == 'die':  # the process disappears
                    W.current.exitcode = act[1]
                    raise Killed()
                elif kind == 'hang':
                    W.current.op('hang', lambda: False)
                elif kind == 'quit':
                    return
                elif kind == 'raise':
                    raise act[1]
                self.pos += 1
            if self.stopped and W.reports_stop:
                self.message_manager(0, 'Manager requested stop')

        def callstop(self, reason=''):
            self.stopped = True
            W.record('callstop', self._opt_id, reason)

        def inject(self, x, fx):
            super().inject(x, fx)
            self.injected.append((x, fx))
    ScriptOpt.__name__ = name
    return ScriptOpt


def selector(w, plan, after=False):
    """hands out the plan [(class, init kwargs)] in order, then `after` (False: stop spawning, None: nothing now)"""
    B = env.module('glompo.opt_selectors.baseselector').BaseSelector

    class PlanSelector(B):
        def __init__(self):
            super().__init__(*[(c, dict(k), None) for c, k in plan])
            self.n = 0
            self.asked = []

        def select_optimizer(self, manager, log, slots_available):
            self.asked.append((manager.o_counter, slots_available))
            if self.n >= len(plan):
                return after
            c, k = plan[self.n]
            if dict(k).get('workers', 1) > slots_available:
                return None
            self.n += 1
            k = dict(k)
            k.setdefault('workers', 1)
            return c, k, {}
    return PlanSelector()


def stopper(w, f):
    """a stopping criterion given by a function of the manager"""
    B = env.module('glompo.convergence').BaseChecker

    class Stopper(B):
        def __init__(self):
            super().__init__()
            self.calls = 0

        def __call__(self, manager):
            if manager.t_start is None:
                self.last_result = False
                return False
            self.calls += 1
            self.last_result = bool(f(self.calls, manager))
            return self.last_result
    return Stopper()


def hunter(w, f):
    B = env.module('glompo.hunters').BaseHunter

    class Decider(B):
        def __init__(self):
            super().__init__()

        def __call__(self, log, hunter_opt_id, victim_opt_id):
            self.last_result = bool(f(log, hunter_opt_id, victim_opt_id))
            return self.last_result
    return Decider()


class Gen:
    pass


def generator(w):
    B = env.module('glompo.generators').BaseGenerator

    class Zero(B):
        def generate(self, manager):
            return [0.0]
    return Zero()


def reclog(w, build=False):
    """the real in-memory logger, also recording what it is told"""
    L = env.module('glompo.core.optimizerlogger')

    class RecLogger(L.BaseLogger):
        def put_iteration(self, iter_res):
            w.record('log', iter_res.opt_id, iter_res)
            super().put_iteration(iter_res)

        def put_metadata(self, opt_id, key, value):
            w.record('meta', opt_id, (key, value))
            super().put_metadata(opt_id, key, value)

        def put_message(self, opt_id, message):
            w.record('message', opt_id, message)
            super().put_message(opt_id, message)
    return RecLogger(build)


def manager(w, sel, task, checker=None, **kw):
    k = dict(task=task, bounds=[(-10, 10)], opt_selector=sel, working_dir=w.tmp, max_jobs=2, backend='threads',
             convergence_checker=checker, x0_generator=generator(w), summary_files=0, split_printstreams=False,
             overwrite_existing=True)
    k.update(kw)
    w.reports_stop = k.pop('reports_stop', True)
    m = w.core.GloMPOManager.new_manager(**k)
    m.opt_log = reclog(w)
    w.man = m
    return m
