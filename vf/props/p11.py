"""Checkpoints are durable: failures never cost an existing checkpoint, and only surplus old ones are deleted."""
import os
import pathlib
import shutil as _shutil
import tarfile as _tarfile

from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr

INFO = {
    'outside': 'two failures at once; failures of the operating system while old checkpoints are restored',
    'assumptions': ['a failing operation has no effect, except that a failing archive may be left incomplete',
                    'file operations are those of pathlib, shutil and tarfile'],
}


class Disk:
    """file operations of the checkpoint, any one of which may fail or be the last before the process is killed"""

    def __init__(self, S, w):
        self.S, self.w = S, w
        self.on = False
        self.fault = None      # raised at one operation
        self.failed = None     # name of the operation
        self.ops = []
        self.dead = False
        self.mtimes = {}
        disk = self
        base = type(pathlib.Path())

        class P(base):
            if hasattr(base, '_from_parts'):  # before Python 3.12
                pass

            def mkdir(self, *a, **k):
                disk.point('mkdir')
                return super().mkdir(*a, **k)

            def unlink(self, *a, **k):
                disk.point('unlink')
                return super().unlink(*a, **k)

            def replace(self, t):
                disk.point('replace')
                if str(self) in disk.mtimes:
                    disk.mtimes[str(t)] = disk.mtimes[str(self)]
                return super().replace(t)

            def rename(self, t):
                disk.point('rename')
                return super().rename(t)

            def open(self, mode='r', *a, **k):
                if 'w' in mode or 'x' in mode or 'a' in mode:
                    disk.point('open')
                return super().open(mode, *a, **k)

            def stat(self, *a, **k):
                st = super().stat(*a, **k)
                return Stat(st, disk.mtimes[str(self)]) if str(self) in disk.mtimes else st
        self.P = P

        class Tar:
            def __getattr__(self, n):
                return getattr(_tarfile, n)

            def open(self, name=None, mode='r', *a, **k):
                if 'r' in mode:
                    return _tarfile.open(name, mode, *a, **k)
                disk.point('tar-open')
                t = _tarfile.open(name, mode, *a, **k)
                add = t.add

                def adding(*a, **k):
                    disk.point('tar-add')
                    r = add(*a, **k)
                    disk.point('tar-added')
                    return r
                t.add = adding
                return t

        class Sh:
            def __getattr__(self, n):
                f = getattr(_shutil, n)
                if n in ('rmtree', 'move', 'copy', 'copyfile', 'copytree', 'make_archive'):
                    def g(*a, **k):
                        ignore = k.get('ignore_errors') or (n == 'rmtree' and len(a) > 1 and a[1])
                        try:
                            disk.point(n)
                        except OSError:
                            if ignore:
                                return None
                            raise
                        return f(*a, **k)
                    return g
                return f
        for mod in (w.core, env.module('glompo.core.checkpointing'), env.module('glompo.core.optimizerlogger')):
            for k, v in list(vars(mod).items()):
                if v is pathlib.Path:
                    w._set(mod, k, P)
                elif v is _tarfile:
                    w._set(mod, k, Tar())
                elif v is _shutil:
                    w._set(mod, k, Sh())

    def point(self, name):
        if not self.on:
            return
        self.ops.append(name)
        if self.dead:
            raise wd.Killed()
        if self.fault is not None and self.S.flag('fails'):
            f, self.fault = self.fault, None
            self.failed = name
            if f == 'killed':
                self.dead = True
                raise wd.Killed()
            raise f


class Stat:
    def __init__(self, st, m):
        self._st, self.st_mtime, self.st_ctime = st, m, m
        self.st_mtime_ns = self.st_ctime_ns = m * 1000000000

    def __getattr__(self, n):
        return getattr(self._st, n)


def complete(path):
    """the archive can be read and holds everything"""
    try:
        with _tarfile.open(path, 'r:gz') as t:
            names = t.getnames()
        return {'manager', 'opt_log', 'optimizers'} <= set(names)
    except Exception:
        return False


def setting(S, fmt, keep, raising, n_old, **kw):
    """a manager between two evaluations and a directory with old checkpoints and other files"""
    w = wd.World(S)
    w.persist()
    w.scripts, w.values = {0: [('wait',)]}, {}
    sel = wd.selector(w, [(wd.scripted(w), {'script': 0, 'workers': 1})])
    m = wd.manager(w, sel, abs, wd.stopper(w, lambda c, man: False))
    m.opt_log = env.module('glompo.core.optimizerlogger').BaseLogger(False)
    disk = Disk(S, w)
    d = disk.P(w.tmp / 'cp')
    d.mkdir()
    m.checkpoint_control = env.module('glompo.core.checkpointing').CheckpointingControl(
        checkpointing_dir=d, naming_format=fmt, keep_past=keep, raise_checkpoint_fail=raising, **kw)
    return w, m, disk, d


def content(d):
    return {p.name: p.read_bytes() for p in wd.Path(d).iterdir() if p.is_file()}


def make_old(w, d, names):
    """complete old checkpoints, told apart by their content"""
    for i, n in enumerate(names):
        src = w.tmp / f'old_{i}'
        (src / 'optimizers').mkdir(parents=True)
        for f in ('manager', 'opt_log'):
            (src / f).write_text(f'{f} {i}')
        with _tarfile.open(str(wd.Path(d) / n), 'x:gz') as t:
            t.add(str(src), arcname='')


def faults(S):
    """any operation fails, or the process is killed at it"""
    over = S.flag('overwrite')
    fmt = 'c' if over else 'c_%(count)'
    keep = S.int('keep_past', -1, 3) if S.cfg.get('keep', True) else -1
    raising = S.flag('raise_fail')
    w, m, disk, d = setting(S, fmt, keep, raising, 2)
    old = ['c.tar.gz'] if over else ['c_000.tar.gz', 'c_001.tar.gz']
    make_old(w, d, old)
    before = content(d)
    running = S.flag('running')
    ev = None
    if running:
        m._fill_optimizer_slots()
        for p in w.procs.values():
            p.opt.step()
        w.order = lambda kind, en, must: 0
    disk.fault = S.pick('fault', S.cfg['faults'])
    kind = disk.fault
    disk.on = True
    err = None
    try:
        m.checkpoint()
    except wd.Killed:
        err = 'killed'
    except wd.Stuck:
        S.check(False, 'does-not-hang')
        S.stop()
    except BaseException as e:
        err = e
    disk.on = False
    after = content(d)
    hit = disk.failed
    saved = [n for n in after if (n not in before or after[n] != before[n]) and m.checkpoint_control.matches_naming_format(n)]
    ok = [n for n in saved if complete(wd.Path(d) / n)]
    if err == 'killed':
        # at least: whatever was there is still there in full, or the new one is complete
        for n, b in before.items():
            S.check(b in after.values() or bool(ok), 'existing-checkpoint-survives')
        S.check(bool(ok) or all(b in after.values() for b in before.values()), 'existing-checkpoint-survives')
        S.cover('killed')
        return
    if hit is None:
        S.check(err is None, 'succeeds')
        S.check(len(ok) == 1, 'new-one-complete')
        S.cover('fine')
    else:
        S.cover('failed')
    S.check(len(saved) == len(ok) <= 1, 'no-incomplete-checkpoint')
    if not ok:
        S.check({n: b for n, b in after.items() if n in before} == before, 'failed-checkpoint-changes-nothing')
        S.check(hit == 'unlink' or after == before, 'failed-checkpoint-changes-nothing')
        S.cover('nothing-made')
    else:
        # the new one is there: at most the surplus is gone
        gone = [n for n in before if n not in after]
        left = [n for n in before if n in after and after[n] == before[n]]
        S.check(S.any([keep < 0, S.all([])]) if not gone else keep >= 0, 'deleted-only-if-asked')
        S.check(S.any([not gone, len(left) >= keep]), 'only-the-surplus')
        S.cover('made')
    if hit not in ('rmtree', 'unlink'):
        S.check(not [p for p in wd.Path(d).iterdir() if p.is_dir()], 'no-remnants')
    if isinstance(kind, OSError) and not raising:
        S.check(err is None, 'run-goes-on')
        S.cover('goes-on')
    if running and err is None:
        for p in w.procs.values():
            for _ in range(20):
                if not p.opt.enabled():
                    break
                p.opt.step()
            S.check(not p.opt.paused and p.opt.pending[0] != 'wait', 'optimizers-released')


OTHERS = ['notes.txt', 'other_000.tar.gz', 'c_abc.tar.gz', 'xc_000.tar.gz', 'c_000.tar.gz.bak', 'c_01.tar.gz', 'c_000_x.tar.gz']


def retention(S):
    """how many old checkpoints are kept, and which"""
    fmt = S.pick('format', ['c_%(count)', '%(day)%(month)%(year)_%(count)', 'c'])
    n = S.length('old', 0, S.cfg['n'])
    keep = S.int('keep_past', -1, S.cfg['n'] + 1)
    w, m, disk, d = setting(S, fmt, keep, True, n)
    if fmt == 'c_%(count)':
        names = [f'c_{i:03}.tar.gz' for i in range(n)]
    elif fmt == 'c':
        names = ['c.tar.gz'][:n]
    else:
        days = ['31122019', '01012020', '15122019', '02012020'][:n]
        names = [f'{x}_{i:03}.tar.gz' for i, x in enumerate(days)]
    make_old(w, d, names)
    for i, x in enumerate(names):
        os.utime(str(d / x), (1000 + 10 * i, 1000 + 10 * i))
    others = [x for x in OTHERS if fmt != 'c' or x != 'c.tar.gz']
    for x in others:
        (wd.Path(d) / x).write_text(x)
        os.utime(str(d / x), (1, 1))
    (wd.Path(d) / 'c_004').mkdir()
    (wd.Path(d) / 'some_dir').mkdir()
    before = content(d)
    m.checkpoint()
    after = content(d)
    made = [x for x in after if x not in before or after[x] != before[x]]
    S.check(len(made) == 1 and complete(wd.Path(d) / made[0]), 'new-one-complete')
    S.check(m.checkpoint_control.matches_naming_format(made[0]), 'named-as-asked')
    for x in others:
        S.check(x in after, 'other-files-kept')
    S.check((wd.Path(d) / 'some_dir').is_dir(), 'other-files-kept')
    old = [x for x in names if x != made[0]]
    for i, x in enumerate(old):
        newer = len(old) - 1 - i
        S.check(S.iff(x in after, S.any([keep < 0, newer < keep])), 'newest-kept-oldest-deleted')
        if x not in after:
            S.cover('deleted')
        elif n > 1:
            S.cover('kept')
    S.check(not [x for x in after if x not in before and x not in made], 'nothing-else')


def harnesses(tier):
    hs = [H('faults', faults, 'any file operation fails',
            {'faults': [OSError(28, 'No space left on device'), _tarfile.TarError('broken')]},
            must=['fine', 'failed', 'nothing-made', 'made', 'goes-on'], weight=2),
          H('killed', faults, 'the process is killed or interrupted, or anything else goes wrong, at any file operation',
            {'faults': ['killed', KeyboardInterrupt(), RuntimeError('broken')], 'keep': False}, must=['killed', 'failed', 'nothing-made'],
            weight=2),
          H('retention', retention, 'up to 3 old checkpoints among other files, any number to be kept, 3 naming formats',
            {'n': 3}, must=['deleted', 'kept'])]
    if tier == 'thorough':
        hs += [H('retention4', retention, 'up to 4 old checkpoints', {'n': 4}, must=['deleted'])]
    return hs
