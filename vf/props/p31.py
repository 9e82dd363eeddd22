"""The ParAMS interface: scaling, storing, (de)activating and numbering of parameters, error values, set-up from files."""
import shutil
import sys
import tempfile
import types
import warnings
from pathlib import Path

from vf import env
from vf.harness import H

INFO = {
    'outside': 'the ParAMS package itself (not installed here): parameter sets, data sets and jobs are stand-ins which follow its '
               'documented interface; more than 4 parameters or 3 data set entries',
    'assumptions': ['a ParAMS parameter set is a sequence of named parameters with value, range and active flag, .active is the '
                    'sub-sequence of the active ones, and assigning to .x sets the values'],
}


class ResultsError(Exception):
    pass


class DataSetEvaluationError(Exception):
    pass


class Par:
    def __init__(self, i, name, value, rng, on):
        self._id, self.name, self.value, self.range, self.is_active = i, name, value, rng, on


class View:
    def __init__(self, ps):
        self._ps = ps

    x = property(lambda s: [p.value for p in s._ps])

    @x.setter
    def x(self, v):
        if len(v) != len(self._ps):
            raise ValueError('wrong number of parameters')
        for p, a in zip(self._ps, v):
            p.value = a

    names = property(lambda s: [p.name for p in s._ps])
    range = property(lambda s: [p.range for p in s._ps])

    def __len__(self):
        return len(self._ps)

    def __iter__(self):
        return iter(self._ps)

    def __getitem__(self, i):
        return self._ps[i] if not isinstance(i, str) else [p for p in self._ps if p.name == i][0]


class Set(View):
    allowed = None
    error = None

    def __init__(self, ps):
        super().__init__(ps)
        self.asked = []

    active = property(lambda s: View([p for p in s._ps if p.is_active]))
    is_active = property(lambda s: [p.is_active for p in s._ps])

    @is_active.setter
    def is_active(self, v):
        if len(v) != len(self._ps):
            raise ValueError('wrong number of parameters')
        for p, a in zip(self._ps, v):
            p.is_active = bool(a)

    _name_to_allidx = property(lambda s: {p.name: p._id for p in s._ps})

    def _get_active(self):
        return list(self.allowed)

    def get_engine(self, x):
        self.asked.append(list(x))
        return types.SimpleNamespace(settings=('settings', list(x)))


class Entry:
    def __init__(self, weight, sigma):
        self.weight, self.sigma, self.jobids = weight, sigma, ['j']


class Data:
    def __init__(self, entries, fx=None, resids=None):
        self.entries, self.fx, self.resids, self.error, self.calls = entries, fx, resids, None, []

    def __len__(self):
        return len(self.entries)

    def __getitem__(self, i):
        return self.entries[i if not isinstance(i, str) else int(i[1:])]

    def get(self, what):
        return [getattr(e, what) for e in self.entries]

    def forces(self):
        return []

    def check_consistency(self, jobs):
        return []

    def evaluate(self, results, loss, return_residuals):
        self.calls.append(results)
        if self.error is not None:
            raise self.error
        np = __import__('numpy')
        r = np.empty((1, len(self.resids)), dtype=object)
        r[0, :] = self.resids
        return self.fx, r, r.copy()


class Jobs:
    error = None

    def __init__(self):
        self.ran = []

    def run(self, settings, parallel=None):
        self.ran.append(settings)
        if self.error is not None:
            raise self.error
        return ('results', len(self.ran))


class Box:
    def __init__(self, *a, **k):
        pass


def packages():
    """stand-ins for the modules the interface imports"""
    def mod(name, **k):
        m = sys.modules.get(name)
        if m is None or not getattr(m, 'vf_fake', False):
            m = types.ModuleType(name)
            m.vf_fake, m.__path__ = True, []
            sys.modules[name] = m
        for a, b in k.items():
            setattr(m, a, b)
        if '.' in name:
            up, me = name.rsplit('.', 1)
            setattr(mod(up), me, m)
        return m
    mod('scm.params.common._version', __version__='0.5.3')
    mod('scm.params.common.parallellevels', ParallelLevels=Box)
    mod('scm.params.common.reaxff_converter', geo_to_params=None, trainset_to_params=None)
    mod('scm.params.core.dataset', DataSet=Box, SSE=Box, DataSetEvaluationError=DataSetEvaluationError)
    mod('scm.params.core.jobcollection', JobCollection=Box)
    mod('scm.params.core.opt_components', _Step=Box)
    mod('scm.params.optimizers.base', BaseOptimizer=type('BaseOptimizer', (), {}), MinimizeResult=type('MinimizeResult', (), {}))
    mod('scm.params.parameterinterfaces.base', BaseParameters=Box)
    mod('scm.params.parameterinterfaces.reaxff', ReaxParams=Box)
    mod('scm.params.parameterinterfaces.xtb', XTBParams=Box)
    mod('scm.plams.core.errors', ResultsError=ResultsError)
    mod('scm.plams.interfaces.adfsuite.reaxff', reaxff_control_to_settings=None)


def interface():
    packages()
    return env.module('glompo.interfaces.params')


def parameters(S, n=None, ranges='sym', least=0):
    n = S.length('n_parameters', max(least, 1), S.cfg.get('n', 3)) if n is None else n
    ps = []
    for i in range(n):
        if ranges == 'sym':  # widths are powers of two, so that the real code's arithmetic is exact where it is replayed
            lo = S.int(f'low{i}', -3, 3)
            w = S.pick(f'width{i}', [0.5, 1, 4]) if i == 0 else 2
            rng = (lo + 0, lo + w)
        else:
            rng = (i, i + 2)
        ps.append(Par(i, f'p{i}', S.int(f'value{i}', -3, 3), rng, S.flag(f'active{i}')))
    if least:
        S.assume(sum(p.is_active for p in ps) >= least)
    return Set(ps)


def warned(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f()
    return r, len(w)


def scaling(S):
    """real and scaled values are transformed into one another by the ranges of the parameters they belong to"""
    P = interface()
    eng = parameters(S, least=1)
    e = P.ReaxFFError(Data([]), Jobs(), eng)
    act = [p for p in eng if p.is_active]
    S.check(e.n_parms == len(act) and e.n_all_parms == len(eng), 'number-of-parameters')
    S.check(list(e.active_names) == [p.name for p in act], 'names-of-active-parameters')
    S.check(list(e.active_abs_indices) == [p._id for p in act], 'numbers-of-active-parameters')
    S.check([tuple(b) for b in e.bounds] == [(0, 1)] * len(act), 'bounds-are-scaled')
    n = S.length('n_values', 1, len(eng) + 1)
    which = act if n == len(act) else list(eng) if n == len(eng) else None
    x = [S.int(f'x{i}', -8, 8) / 4 for i in range(n)]
    for there, back, f in ((e.convert_parms_real2scaled, e.convert_parms_scaled2real, 'scaled'),
                           (e.convert_parms_scaled2real, e.convert_parms_real2scaled, 'real')):
        try:
            y = list(there(x))
        except ValueError:
            S.check(which is None, 'values-refused-' + f)
            continue
        S.check(which is not None and len(y) == n, 'wrong-number-of-values-refused-' + f)
        for p, a, b in zip(which, x, y):
            lo, hi = p.range
            S.check(b * (hi - lo) == a - lo if f == 'scaled' else b == lo + a * (hi - lo), 'transformed-' + f)
        S.check(S.all([a == b for a, b in zip(back(y), x)]), 'transformed-back-' + f)
    S.cover('active' if which is act else 'all' if which else 'wrong')


def storing(S):
    """values are stored for exactly the parameters meant; a warning if one is outside of its range"""
    P = interface()
    eng = parameters(S, ranges='sym', least=1)
    e = P.XTBError(Data([]), Jobs(), eng)
    full = S.flag('full')
    space = S.pick('space', ['real', 'scaled', 'other'])
    old = [p.value for p in eng]
    which = list(eng) if full else [p for p in eng if p.is_active]
    x = [S.int(f'x{i}', -8, 24) / 4 for i in range(len(which))]
    try:
        _, n = warned(lambda: e.set_parameters(list(x), space, full))
    except ValueError:
        S.check(space == 'other', 'storing-refused')
        S.check(S.all([p.value == v for p, v in zip(eng, old)]), 'refused-storing-changes-nothing')
        return
    S.check(space != 'other', 'unknown-space-refused')
    if space == 'scaled':
        x = [p.range[0] + v * (p.range[1] - p.range[0]) for p, v in zip(which, x)]
    S.check(S.all([p.value == v for p, v in zip(which, x)]), 'stored')
    ids = [p._id for p in which]
    S.check(S.all([p.value == v for p, v in zip(eng, old) if p._id not in ids]), 'other-parameters-unchanged')
    out = S.any([S.any([v < p.range[0], v > p.range[1]]) for p, v in zip(which, x)])
    inside = S.all([S.all([v > p.range[0], v < p.range[1]]) for p, v in zip(which, x)])
    S.check(S.implies(out, n > 0), 'warned-if-outside')
    S.check(S.implies(inside, n == 0), 'not-warned-if-inside')
    S.cover('full' if full else 'active')


def toggling(S):
    """exactly the parameters named are (de)activated; of those never to be activated none, unless forced"""
    P = interface()
    n = S.length('n_parameters', 1, S.cfg['n'])
    eng = parameters(S, n=n, ranges='fixed')
    reax = S.flag('reaxff')
    e = (P.ReaxFFError if reax else P.XTBError)(Data([]), Jobs(), eng)
    eng.allowed = [S.flag(f'allowed{i}') for i in range(n)] if reax else [True] * n
    named = [S.flag(f'named{i}') for i in range(n)]
    names = S.flag('by_name')
    arg = [(f'p{i}' if names else i) for i in range(n) if named[i]]
    S.assume(len(arg) > 0)
    if S.flag('reversed'):
        arg.reverse()
    how = S.pick('toggle', ['on', 'off', True, False, None, 'maybe'])
    kw = {}
    force = False
    if reax and S.flag('force'):
        kw['force'] = force = True
    stranger = names and not reax and S.flag('unknown_name')
    if stranger:
        arg.append('p9')
    old = list(eng.is_active)
    try:
        _, w = warned(lambda: e.toggle_parameter(arg, how, **kw))
    except ValueError:
        S.check(how is None or how == 'maybe', 'toggle-refused')
        S.check(list(eng.is_active) == old, 'refused-toggle-changes-nothing')
        return
    S.check(how is not None and how != 'maybe', 'unknown-toggle-refused')
    on = how in ('on', True) and how is not False
    for i in range(n):
        never = on and not eng.allowed[i] and not force
        want = on if named[i] and not never else old[i]
        S.check(eng.is_active[i] == want, 'toggled')
    odd = stranger or on and any(named[i] and not eng.allowed[i] for i in range(n))
    S.check((w > 0) == bool(odd), 'toggle-warning')
    S.cover('on' if on else 'off')
    if odd and reax:
        S.cover('never')


def numbering(S):
    """absolute and relative numbers of the active parameters correspond"""
    P = interface()
    eng = parameters(S, ranges='fixed')
    e = P.XTBError(Data([]), Jobs(), eng)
    act = [p._id for p in eng if p.is_active]
    m = S.length('asked', 1, 2)
    ids = [S.pick(f'id{i}', list(range(len(eng)))) for i in range(m)]
    S.check(list(e.convert_indices_abs2rel(ids)) == [act.index(i) if i in act else None for i in ids], 'absolute-to-relative')
    if act:
        rel = [S.pick(f'rel{i}', list(range(len(act)))) for i in range(m)]
        S.check(list(e.convert_indices_rel2abs(rel)) == [act[i] for i in rel], 'relative-to-absolute')
        S.cover('active')


def values(S):
    """error values, residuals and headings of the training and the validation set"""
    P = interface()
    eng = parameters(S, n=2, ranges='sym')
    S.assume(any(eng.is_active))
    act = [p for p in eng if p.is_active]

    def data(k):
        m = S.length(f'{k}_entries', 1, 2)
        return Data([Entry(S.int(f'{k}_weight{i}', 0, 3), S.pick(f'{k}_sigma{i}', [1, 0.5]) if i == 0 else 2) for i in range(m)],
                    S.int(f'{k}_fx', 0, 9), [S.int(f'{k}_resid{i}', -3, 3) for i in range(m)])
    ts = data('train')
    vs = data('valid') if S.flag('validation') else None
    scale = S.flag('scale_residuals')
    jobs = Jobs()
    e = P.XTBError(ts, jobs, eng, validation_dataset=vs, scale_residuals=scale)
    fail = S.pick('failure', [None, 'jobs', 'train', 'valid'])
    if fail == 'valid' and vs is None:
        fail = None
    err = S.pick('error', [ResultsError, DataSetEvaluationError])('x') if fail else None
    if fail == 'jobs':
        jobs.error = err
    elif fail == 'train':
        ts.error = err
    elif fail == 'valid':
        vs.error = err
    x = [S.int(f'x{i}', 0, 4) / 4 for i in range(len(act))]
    real = [p.range[0] + v * (p.range[1] - p.range[0]) for p, v in zip(act, x)]
    inf = float('inf')
    what = S.pick('call', ['call', 'detailed', 'resids'])
    r = {'call': lambda: e(list(x)), 'detailed': lambda: e.detailed_call(list(x)), 'resids': lambda: e.resids(list(x))}[what]()
    S.check(len(eng.asked) == 1 and S.all([a == b for a, b in zip(eng.asked[0], real)]), 'evaluated-at-the-real-values')
    S.check(len(jobs.ran) == 1 and S.all([a == b for a, b in zip(jobs.ran[0][1], real)]), 'jobs-run-with-these-parameters')

    def resid(d):
        return [en.weight * (v / en.sigma) ** 2 if scale else v for en, v in zip(d.entries, d.resids)]

    def flat(a):
        return list(__import__('numpy').ravel(a)) if not isinstance(a, (list, tuple)) else list(a)

    def same(a, b):
        return len(flat(a)) == len(b) and S.all([p == q for p, q in zip(flat(a), b)])
    if fail:
        if what == 'call':
            S.check(r == inf, 'failed-evaluation-is-infinite')
        elif what == 'detailed':
            S.check(len(r) == (2 if vs is None else 4), 'detailed-length')
            S.check(S.all([r[i] == inf for i in range(0, len(r), 2)]), 'failed-evaluation-is-infinite')
        S.cover('failed')
        return
    if what == 'call':
        S.check(r == ts.fx, 'error-value')
    elif what == 'resids':
        S.check(same(r, resid(ts)), 'residuals')
    else:
        S.check(len(r) == (2 if vs is None else 4), 'detailed-length')
        S.check(r[0] == ts.fx and same(r[1], resid(ts)), 'detailed-training')
        if vs is not None:
            S.check(r[2] == vs.fx and same(r[3], resid(vs)), 'detailed-validation')
            S.cover('validation')
    heads = e.headers()
    S.check(list(heads) == ['fx', 'resids_ts', 'fx_vs', 'resids_vs'][:2 if vs is None else 4], 'headings')
    S.cover('evaluated')


def weights(S):
    """new weights are given to exactly the entries named"""
    P = interface()
    m = S.length('entries', 1, 3)
    ts = Data([Entry(S.int(f'w{i}', 0, 3), 1) for i in range(m)])
    old = ts.get('weight')
    e = P.XTBError(ts, Jobs(), parameters(S, n=1, ranges='fixed'))
    named = [i for i in range(m) if S.flag(f'named{i}')]
    key = (lambda i: f'r{i}') if S.flag('by_name') else (lambda i: i)
    new = {i: S.int(f'new{i}', 0, 3) for i in named}
    how = S.pick('how', ['dict', 'list', 'nothing'])
    one = S.int('one', 0, 3)
    try:
        if how == 'dict':
            e.reweigh_residuals({key(i): new[i] for i in named})
        else:
            e.reweigh_residuals([key(i) for i in named], *([one] if how == 'list' else []))
    except ValueError:
        S.check(how == 'nothing', 'weights-refused')
        return
    S.check(how != 'nothing', 'weight-missing-refused')
    for i in range(m):
        S.check(ts.entries[i].weight == (old[i] if i not in named else new[i] if how == 'dict' else one), 'weights')
    S.cover('done')


def wrapped(S):
    """a run within ParAMS: what the manager is given, and what is made of its result"""
    P = interface()
    found = S.flag('found')
    x = [S.int('x0', -4, 4), S.int('x1', -4, 4)] if found else S.pick('nothing', [None, []])
    fx = S.float('fx', nan=False) if found else float('inf')
    conv = S.flag('converged')
    got = {}

    class Manager:
        converged = False

        def setup(self, **k):
            got.update(k)

        def start_manager(self):
            self.converged = conv
            return types.SimpleNamespace(x=x, fx=fx, stats={}, origin={})
    S.defer(lambda old=P.GloMPOManager: setattr(P, 'GloMPOManager', old))
    P.GloMPOManager = Manager
    kw = {}
    if S.flag('max_jobs'):
        kw['max_jobs'] = 5
    if S.flag('others'):
        kw.update(task='mine', bounds='mine', hunt_frequency=7)
    sel = object()

    class Step:
        v = True
        cbs = [1] if S.flag('callbacks') else None

        def __call__(self, p):
            return ('value', tuple(p))
    step = Step()
    workers = S.pick('workers', [1, 3])
    bounds = [(0, 1), (0, 1)]
    r, _ = warned(lambda: P.GlompoParamsWrapper(sel, **kw).minimize(step, [0.5, 0.5], bounds, workers))
    S.check(got['opt_selector'] is sel and got['bounds'] == bounds, 'manager-given-selector-and-bounds')
    S.check(got['max_jobs'] == (5 if 'max_jobs' in kw else workers), 'manager-given-number-of-jobs')
    S.check(('hunt_frequency' in got) == ('hunt_frequency' in kw), 'manager-given-other-settings')
    S.check(got['task']([1, 2]) == ('value', (1, 2)), 'manager-given-function')
    S.check(not step.cbs and not step.v, 'function-silent')
    S.check(r.success == (conv and found), 'success')
    if found:
        S.check(S.all([a == b for a, b in zip(r.x, x)]) and r.fx == fx, 'result')
    S.cover('found' if found else 'nothing')


def classic(S):
    """set-up from classic files: which parameters are active, within which ranges, starting where"""
    P = interface()
    d = Path(tempfile.mkdtemp(prefix='vf_p31_'))
    S.defer(lambda: shutil.rmtree(d, ignore_errors=True))
    n = 2
    have = {f: S.flag(f'has_{f}') for f in ('bool', 'min', 'max')}
    for f in ['ffield', 'trainset.in', 'control', 'geo'] + ['ffield_' + k for k, v in have.items() if v]:
        (d / f).write_text('x')
    if S.flag('has_params'):
        (d / 'params').write_text('x')
    start = [S.int(f'value{i}', -4, 4) for i in range(n)]
    base = [S.flag(f'base_active{i}') for i in range(n)]
    on = [S.flag(f'on{i}') for i in range(n)]
    low = [S.int(f'low{i}', -3, 3) for i in range(n)]
    high = [S.int(f'high{i}', -3, 3) for i in range(n)]
    default = [(-2, 2)] * n
    made = []

    class Reax(Set):
        def __init__(self, path, bounds_scale=None):
            v = {'ffield': start, 'ffield_bool': [int(o) for o in on], 'ffield_min': low, 'ffield_max': high}[Path(path).name]
            super().__init__([Par(i, f'p{i}', v[i], default[i], base[i]) for i in range(n)])
            self.read = []
            made.append(self)

        def read_paramsfile(self, path):
            self.read.append(Path(path).name)
    rm = S.pick('inconsistent', [0, 1])

    class DS(Data):
        def check_consistency(self, jobs):
            return list(range(rm))

        def __delitem__(self, ids):
            for i in sorted(ids, reverse=True):
                del self.entries[i]
    ds, jc = DS([Entry(1, 1), Entry(1, 1)]), Jobs()
    settings = types.SimpleNamespace(input=types.SimpleNamespace(ams=types.SimpleNamespace(properties=types.SimpleNamespace())))
    for k, v in {'ReaxParams': Reax, 'trainset_to_params': lambda p: ds, 'geo_to_params': lambda p, s: jc,
                 'reaxff_control_to_settings': lambda p: settings}.items():
        S.defer(lambda k=k, old=getattr(P, k): setattr(P, k, old))
        setattr(P, k, v)
    (a, b, eng), _ = warned(lambda: P.setup_reax_from_classic(d))
    S.check(a is ds and b is jc and eng is made[0], 'what-is-set-up')
    S.check(len(ds) == 2 - rm, 'inconsistent-entries-removed')
    if (d / 'params').exists():
        S.check(eng.read == ['params'], 'params-file-read')
        S.check(list(eng.is_active) == base and list(eng.range) == default, 'files-ignored-if-params')
        S.cover('params')
    elif all(have.values()):
        for i in range(n):
            if on[i] and low[i] < high[i]:
                S.check(eng[i].is_active is True and S.all([eng[i].range[0] == low[i], eng[i].range[1] == high[i]]), 'range-from-files')
            else:
                S.check(eng[i].is_active is False, 'inactive-from-files')
        S.cover('files')
    else:
        S.check(list(eng.is_active) == base and list(eng.range) == default, 'files-incomplete')
    for i in range(n):
        p = eng[i]
        if p.is_active:
            lo, hi = p.range
            if S.all([start[i] > lo, start[i] < hi]):
                S.check(p.value == start[i], 'start-kept')
            else:
                S.check(p.value * 2 == lo + hi, 'start-moved-to-middle')
    S.cover('done')


class Disk:
    """what the stand-ins have written: kept per path, a marker is on the real disk"""

    def __init__(self):
        self.kept = {}

    def put(self, path, what, form):
        if Path(path).suffix or not Path(path).is_dir():
            Path(path).write_text(form)
        self.kept[str(Path(path).resolve())] = (form, what)

    def get(self, path, form):
        f, what = self.kept[str(Path(path).resolve())]
        if f != form:
            raise ValueError('wrong kind of file')
        return what


def filing(S):
    """set-up from, and saving to, files"""
    P = interface()
    d = Path(tempfile.mkdtemp(prefix='vf_p31_'))
    S.defer(lambda: shutil.rmtree(d, ignore_errors=True))
    disk = Disk()

    class Filed:
        what = None

        def pickle_dump(self, path):
            disk.put(path, self.what, 'pickle')

        def store(self, path):
            disk.put(path, self.what, 'yaml')

        def load(self, path):
            self.what = disk.get(path, 'yaml')

        def check_consistency(self, jobs):
            return []

        def __len__(self):
            return 1

    class DS(Filed):
        def pickle_load(self, path):
            self.what = disk.get(path, 'pickle')

    class JC(DS):
        pass

    class Eng(Set):
        def __init__(self, path=None, what=None):
            self.what = disk.get(path, 'engine') if path is not None else what
            super().__init__([Par(0, 'p0', self.what, (0, 2), True)])

        def write(self, path, parameters=None):
            disk.put(path, self.what if parameters is None else parameters[0], 'engine')

        def pickle_dump(self, path):
            disk.put(path, self.what, 'pickle')

        @classmethod
        def pickle_load(cls, path):
            return cls(what=disk.get(path, 'pickle'))
    for k, v in {'DataSet': DS, 'JobCollection': JC, 'ReaxParams': Eng, 'XTBParams': Eng}.items():
        S.defer(lambda k=k, old=getattr(P, k): setattr(P, k, old))
        setattr(P, k, v)
    reax = S.flag('reax')
    cls = P.ReaxFFError if reax else P.XTBError
    ds, jc, eng = DS(), JC(), None
    case = S.pick('case', ['checkpoint', 'files', 'save'])
    ds.what, jc.what = S.int('data', 0, 99), S.int('jobs', 0, 99)
    eng = Eng(what=S.int('engine', 0, 99))
    if case == 'files':
        have = {(n, s): S.flag(f'has_{n}.{s}') for n in ('data_set', 'job_collection') for s in ('pkl', 'yml')}
        for n, o in (('data_set', ds), ('job_collection', jc)):
            if have[n, 'pkl']:
                disk.put(d / f'{n}.pkl', o.what, 'pickle')
            if have[n, 'yml']:
                disk.put(d / f'{n}.yml', S.int('other', 0, 99) if have[n, 'pkl'] else o.what, 'yaml')
        if reax:
            disk.put(d / 'reax_params.pkl', eng.what, 'pickle')
        else:
            disk.put(d, eng.what, 'engine')
        try:
            t = cls.from_params_files(str(d) if S.flag('text') else d)
        except FileNotFoundError:
            S.check(not all(have[n, 'pkl'] or have[n, 'yml'] for n in ('data_set', 'job_collection')), 'missing-only-if-missing')
            S.cover('missing')
            return
        S.check(all(have[n, 'pkl'] or have[n, 'yml'] for n in ('data_set', 'job_collection')), 'missing-is-an-error')
        if have['data_set', 'pkl'] and have['data_set', 'yml']:
            S.cover('both')
    else:
        kw = {'validation_dataset': None} if S.flag('explicit') else {}
        t = cls(ds, jc, eng, **kw)
        if case == 'checkpoint':
            t.checkpoint_save(str(d) if S.flag('text') else d)
            S.check(S.all([t.dat_set.what == ds.what, t.job_col.what == jc.what]), 'saving-changes-nothing')
            t = cls.from_params_files(d)
        else:
            names = {k: v for k, v in {'ds': 'a.yml', 'jc': 'b.yml', 'ff': 'c'}.items() if S.flag(f'named_{k}')}
            given = S.flag('given')
            x = [S.int('x', 0, 99)] if given else None
            t.save(str(d) if S.flag('text') else d, names or (None if S.flag('nothing') else {}), x)
            for k, n, v, form in (('ds', 'data_set.yml', ds.what, 'yaml'), ('jc', 'job_collection.yml', jc.what, 'yaml'),
                                  ('ff', 'ffield', x[0] if given else eng.what, 'engine')):
                p = d / names.get(k, n)
                S.check(p.exists() and disk.get(p, form) == v, 'saved-as-named')
            S.check(len(list(d.iterdir())) == 3, 'nothing-else-saved')
            S.cover('saved')
            return
    S.check(t.dat_set.what == ds.what, 'data-set-loaded')
    S.check(t.job_col.what == jc.what, 'jobs-loaded')
    S.check(t.par_eng.what == eng.what, 'engine-loaded')
    S.check(isinstance(t, cls), 'same-kind')
    S.cover(case)


def harnesses(tier):
    return [H('scaling', scaling, '1-3 (4) parameters, all active sets, ranges and values in quarters', cfg={'n': 4 if tier == 'thorough' else 3},
              must=['active', 'all', 'wrong']),
            H('storing', storing, '1-2 (3) parameters, both spaces', cfg={'n': 3 if tier == 'thorough' else 2}, must=['full', 'active']),
            H('toggling', toggling, '1-2 (3) parameters, every subset, 6 toggles', cfg={'n': 3 if tier == 'thorough' else 2}, must=['on', 'off', 'never']),
            H('numbering', numbering, '1-3 parameters', must=['active']),
            H('values', values, '2 parameters, 1-2 entries per data set, 4 failures', must=['evaluated', 'failed', 'validation']),
            H('weights', weights, '1-3 entries', must=['done']),
            H('wrapped', wrapped, 'all outcomes', must=['found', 'nothing']),
            H('classic', classic, '2 parameters, all combinations of files', must=['params', 'files', 'done']),
            H('filing', filing, 'all combinations of files, both kinds of engine', must=['checkpoint', 'files', 'saved', 'both', 'missing'])]
