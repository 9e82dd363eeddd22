"""Setting a manager up: what is refused, what is taken over, what is filled in."""
import math

from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr

INFO = {
    'outside': 'more than 3 parameters; values of other types than those listed; visualisation',
    'assumptions': ['pickling is replaced by copying'],
}


def parts(w):
    return dict(task=lambda x: 0.0, bounds=[(-1.0, 1.0)], opt_selector=wd.selector(w, [(wd.scripted(w), {'script': 0, 'workers': 1})]),
                convergence_checker=wd.stopper(w, lambda c, m: c >= 2), x0_generator=wd.generator(w), working_dir=w.tmp, backend='threads',
                max_jobs=2, summary_files=0, split_printstreams=False, hunt_frequency=3)


def refused(S, w, kw, exc, lab):
    m = w.core.GloMPOManager()
    try:
        m.setup(**kw)
        S.check(False, lab)
    except exc:
        pass
    S.check(not m.is_initialised, lab + '-not-initialised')
    m.start_manager()
    S.check(not w.did('start'), lab + '-nothing-starts')
    S.cover(lab)


def limits(S):
    """bounds and slots are refused exactly if they are invalid"""
    w = wd.World(S)
    w.scripts, w.values = {0: [('wait',)]}, {}
    kw = parts(w)
    bounds, ok = [], []
    for i in range(S.length('parameters', 1, S.cfg['n'])):
        lo, hi = S.float(f'lo{i}', nan=True, inf=True), S.float(f'hi{i}', nan=True, inf=True)
        bounds.append((lo, hi) if S.flag('tuple') else [lo, hi])
        ok.append(S.all([lo < hi, lo > -math.inf, hi < math.inf]))
    kw['bounds'] = bounds
    H_ = env.module('glompo.common.helpers')
    fine = bool(S.all(ok))
    S.check(H_.is_bounds_valid(bounds, False) is fine, 'bounds-valid')
    if fine:
        S.check(H_.is_bounds_valid(bounds) is True, 'bounds-valid')
    else:
        try:
            H_.is_bounds_valid(bounds, raise_invalid=True)
            S.check(False, 'invalid-bounds')
        except ValueError:
            pass
        refused(S, w, kw, ValueError, 'invalid-bounds')
        return
    jobs = S.pick('max_jobs', ['default', 'number', 'fraction', 'text'])
    w.cpus = S.int('cpus', 1, 64)
    if jobs == 'default':
        del kw['max_jobs']
    else:
        kw['max_jobs'] = {'number': S.int('jobs', -5, 1000), 'fraction': 1.5, 'text': '3'}[jobs]
    if jobs in ('fraction', 'text'):
        return refused(S, w, kw, TypeError, 'invalid-max-jobs')
    if jobs == 'number':
        if kw['max_jobs'] < 0:
            return refused(S, w, kw, ValueError, 'negative-max-jobs')
        if kw['max_jobs'] == 0:
            return  # not set
    m = w.core.GloMPOManager()
    m.setup(**kw)
    S.check(m.is_initialised, 'initialised')
    S.check(m.n_parms == len(bounds) and len(m.bounds) == len(bounds), 'parameters')
    S.check(S.all([S.all([S.same(a[0], b[0]), S.same(a[1], b[1])]) for a, b in zip(m.bounds, bounds)]), 'bounds-taken-over')
    S.check(S.all([S.same(b.min, a[0]) for a, b in zip(bounds, m.bounds)]), 'bounds-taken-over')
    if jobs == 'number':
        S.check(m.max_jobs == kw['max_jobs'], 'max-jobs-taken-over')
    else:
        S.check(S.any([m.max_jobs == w.cpus - 1, S.all([w.cpus == 1, m.max_jobs == 1])]), 'max-jobs-default')
    S.check(m.max_jobs >= 1, 'at-least-one-job')
    S.cover('accepted')
    m.setup(**{**kw, 'bounds': [(0.0, 9.0)] * 5, 'max_jobs': 77})
    S.check(m.n_parms == len(bounds), 'set-up-once')


class Other:
    pass


def components(S):
    """components of the wrong kind are refused, missing ones get the documented default"""
    w = wd.World(S)
    w.scripts, w.values = {0: [('wait',)]}, {}
    kw = parts(w)
    kw['killing_conditions'] = wd.hunter(w, lambda *a: False)
    what = S.pick('component', ['task', 'opt_selector', 'convergence_checker', 'x0_generator', 'killing_conditions'])
    how = S.pick('how', ['fine', 'wrong', 'class', 'absent'])
    if how == 'absent' and what in ('task', 'opt_selector'):
        how = 'wrong'
    given = kw[what]
    if how == 'wrong':
        kw[what] = Other()
    elif how == 'class' and what != 'task':
        kw[what] = type(given)
    elif how == 'absent':
        kw[what] = None
    if how in ('wrong', 'class') and not (how == 'class' and what == 'task'):
        refused(S, w, kw, TypeError, 'wrong-component')
        return
    m = w.core.GloMPOManager()
    m.setup(**kw)
    if how == 'absent':
        d = getattr(m, what)
        if what == 'convergence_checker':
            C = env.module('glompo.convergence').KillsAfterConvergence
            S.check(isinstance(d, C), 'default-criterion')
        elif what == 'x0_generator':
            G = env.module('glompo.generators').RandomGenerator
            S.check(isinstance(d, G), 'default-generator')
            x = d.generate(m)
            S.check(len(x) == 1 and bool(x[0] >= -1.0) and bool(x[0] <= 1.0), 'default-generator')
        else:
            S.check(d is None, 'no-hunting')
        S.cover('default')
    else:
        S.check(getattr(m, what) is given, 'component-taken-over')
        S.cover('fine')


def values(S, only=None):
    """settings for the behaviour, with symbolic values"""
    flags = ['overwrite_existing', 'share_best_solutions', 'is_log_detailed', 'aggressive_kill', 'split_printstreams']
    return {'hunt_frequency': S.int('hunt_frequency', 1, 1000), 'status_frequency': S.int('status_frequency', 1, 10 ** 6),
            'force_terminations_after': S.int('force', -5, 1000), 'end_timeout': S.int('end_timeout', 1, 1000),
            'max_jobs': S.int('max_jobs', 1, 100), **{k: S.flag(k) for k in flags if only in (None, k)}}


NAMES = {'share_best_solutions': 'incumbent_sharing'}


def as_given(S, m, given, lab):
    for k, v in given.items():
        if k == 'force_terminations_after':
            continue
        got = getattr(m, NAMES.get(k, k))
        S.check(got is v if isinstance(v, bool) else got == v, f'{lab}-{k}')


def settings(S):
    """settings are taken over as given, at set-up and when a checkpoint is loaded"""
    w = wd.World(S)
    d = w.persist()
    w.scripts, w.values = {0: [('wait',)]}, {}
    w.prompt = True
    kw = parts(w)
    loaded = S.cfg['loaded']
    one = values(S) if not loaded else {}
    backend = S.pick('backend', ['threads', 'processes', 'processes_forced', 'rockets']) if not loaded else None
    if not loaded:
        kw.update(one, backend=backend)
    if loaded:
        kw['split_printstreams'] = True  # (a setting that can be switched off)
    m = w.core.GloMPOManager()
    m.setup(**kw)
    if not loaded:
        as_given(S, m, one, 'setup')
        S.check(m.working_dir == w.tmp.resolve(), 'setup-directory')
        S.check(m.proc_backend is (backend != 'threads'), 'setup-backend')
        S.check(m.opts_daemonic is (backend != 'processes_forced'), 'setup-backend')
        S.check(m.visualisation is not True and m.checkpoint_control is None and m.killing_conditions is None, 'setup-off-by-default')
        S.cover('setup')
        return
    m.checkpoint_control = chk.control(S, w)
    m.checkpoint()
    m.checkpoint_control = None
    arch = chk.archives(w)[0]
    keys = ['overwrite_existing', 'share_best_solutions', 'hunt_frequency', 'status_frequency', 'is_log_detailed',
            'force_terminations_after', 'aggressive_kill', 'end_timeout', 'split_printstreams', 'max_jobs', 'convergence_checker',
            'killing_conditions', 'x0_generator', 'opt_selector', 'working_dir', 'backend', 'summary_files', 'checkpoint_control', 'unknown_thing']
    changed = S.pick('changed', keys)
    every = values(S, changed)
    every.update(convergence_checker=wd.stopper(w, lambda c, m: c >= 2), killing_conditions=wd.hunter(w, lambda *a: False),
                 x0_generator=wd.generator(w), opt_selector=wd.selector(w, []), working_dir=w.tmp / 'other', backend=backend,
                 summary_files=1, checkpoint_control=chk.control(S, w), unknown_thing=3)
    if changed == 'backend':
        backend = every[changed] = S.pick('backend', ['threads', 'processes', 'processes_forced'])
    over = {changed: every[changed]}
    m2 = w.core.GloMPOManager.load_manager(arch, **over)
    S.check(m2.is_initialised, 'initialised')
    if changed in ('backend', 'working_dir', 'unknown_thing', 'force_terminations_after'):
        if changed == 'working_dir':
            S.check(m2.working_dir == (w.tmp / 'other').resolve(), 'loaded-directory')
        elif changed == 'backend':
            S.check(m2.proc_backend is (backend != 'threads') and m2.opts_daemonic is (backend != 'processes_forced'), 'loaded-backend')
    elif isinstance(over[changed], (bool, int)) or changed in ('hunt_frequency', 'status_frequency', 'end_timeout', 'max_jobs'):
        as_given(S, m2, over, 'loaded')
    else:
        S.check(getattr(m2, changed) is over[changed], 'loaded-component')
    for k in ('hunt_frequency', 'max_jobs', 'n_parms', 'working_dir', 'bounds', 'proc_backend', 'end_timeout', 'split_printstreams',
              'incumbent_sharing', 'is_log_detailed', 'aggressive_kill', 'overwrite_existing', 'status_frequency', 'summary_files'):
        if k != NAMES.get(changed, changed) and not (k == 'proc_backend' and changed == 'backend'):
            S.check(getattr(m2, k) == getattr(m, k), 'others-kept')
    S.cover(changed)


def harnesses(tier):
    return [H('limits', limits, f'{2 if tier == "quick" else 3} parameters with any bounds, any max_jobs, 1 to 64 cpus',
              {'n': 2 if tier == 'quick' else 3}, must=['accepted', 'invalid-bounds', 'invalid-max-jobs', 'negative-max-jobs'], weight=2),
            H('components', components, '5 components, right, wrong or missing', must=['wrong-component', 'default', 'fine']),
            H('settings', settings, 'any settings at set-up', {'loaded': False}, must=['setup'], weight=2),
            H('overrides', settings, 'any one setting changed on loading', {'loaded': True},
              must=['share_best_solutions', 'hunt_frequency', 'opt_selector', 'backend'], weight=3)]
