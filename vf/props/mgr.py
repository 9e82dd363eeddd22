"""common pieces of the manager-level harnesses"""
from vf import world as wd

NAMES = ('OptA', 'OptB', 'OptC')


def setup(S, scripts, checker, values=None, max_jobs=None, budget=0, hunt=None, after=False, same=False, workers=None,
          kwargs=None, **kw):
    """a manager over scripted optimizers (one per script)"""
    wk = {k: kw.pop(k) for k in ('qargs', 'max_points') if k in kw}
    w = wd.World(S, budget=budget, **wk)
    w.scripts = scripts
    w.values = values or {}
    n = len(scripts)
    classes = [wd.scripted(w, NAMES[0 if same else i % 3]) for i in range(n)]
    plan = []
    for i in range(n):
        k = {'script': i}
        if workers:
            k['workers'] = workers[i]
        plan.append((classes[i], k))
    w.plan = plan
    w.sel = wd.selector(w, plan, after)
    w.checker = wd.stopper(w, checker)
    w.hunter = wd.hunter(w, hunt) if hunt else None

    def task(x):
        v = w.values[x[0]]
        return v() if callable(v) else v
    m = wd.manager(w, w.sel, task, w.checker, max_jobs=max_jobs or n,
                   killing_conditions=w.hunter, **kw)
    return w, m


def evals(S, n, k, first=1, **opt):
    """scripts of k evaluations for n optimizers, with their values: ids are 10*opt + j"""
    vals = {}
    scripts = {}
    for i in range(n):
        acts = []
        for j in range(k if isinstance(k, int) else k[i]):
            key = float(10 * (i + first) + j)
            vals[key] = opt['const'](i, j) if 'const' in opt else S.float(f'f{i + first}_{j}', **opt)
            acts.append(('eval', [key]))
        scripts[i] = acts
    return scripts, vals


def logged(w):
    return [d for d in w.did('log')]


def best_of(S, results):
    """index of the first lowest value among the results (nan never counts), or None; forks on the order"""
    best = None
    for i, r in enumerate(results):
        cur = float('inf') if best is None else results[best].fx
        if r.fx < cur:
            best = i
    return best


def put_evals(w, i=None):
    return [d for d in w.did('put', i) if not isinstance(d, int)]
