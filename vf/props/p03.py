"""Worker slots are never over-committed, free slots are offered, and identifiers are unique and ascending."""
from vf import env, world as wd
from vf.harness import H
from vf.props import mgr

INFO = {
    'outside': 'more than 4 optimizers or 3 slots; forced restarts of crashed machines',
    'assumptions': ['an optimizer occupies its slots until its process or thread has ended'],
}


def alive(w, but=None):
    return [p for p in w.procs.values() if p.opt is not None and not p.opt.dead and p is not but]


def run(S):
    """a selector that fills whatever is offered with optimizers of arbitrary size, until it has no more to give"""
    n = S.cfg['n']
    cap = S.int('max_jobs', 1, 1000)
    w = wd.World(S, budget=S.cfg.get('budget', 0))
    w.scripts = {i: [('eval', [float(i)])] * S.cfg.get('k', 0) + [('conv',) if i < S.cfg.get('ends', n) else ('wait',)]
                 for i in range(n)}
    w.values = {float(i): float(n - i) for i in range(n)}
    C = wd.scripted(w, 'OptA')
    B = env.module('glompo.opt_selectors.baseselector').BaseSelector
    sizes, offered, told, declined = [], [], [], []

    class Sel(B):
        def __init__(self):
            super().__init__((C, {'workers': 1}, None))

        def select_optimizer(self, man, log, slots):
            used = sum(sizes[i - 1] for i in sorted(w.procs) if not w.procs[i].opt.dead)
            S.check(slots <= cap - used, 'offered-slots-in-use')
            if not S.cfg.get('budget'):
                S.check(slots == cap - used, 'offered-all-free-slots')
            S.check(slots >= 1, 'offered-nothing')
            S.check(not told, 'asked-after-it-ended-spawning')
            offered.append((slots, used))
            if len(sizes) >= n:
                told.append(1)
                return False
            if not declined and alive(w) and S.flag('decline'):
                declined.append(1)
                S.cover('declined')
                return None
            size = S.int('size', 1, 1000)
            S.assume(size <= slots)
            if len(sizes) == 1 and alive(w):
                S.cover('wide')
            sizes.append(size)
            return C, {'script': len(sizes) - 1, 'workers': size}, {}
    stop = {}

    def on_start(i, p):
        S.check(i == len(stop) + 1, 'identifiers-ascending')
        stop[i] = p
        S.check(sum(sizes[j - 1] for j in stop if not stop[j].opt.dead) <= cap, 'slots-exceeded')
        S.check(p.optimizer.workers == sizes[i - 1], 'optimizer-workers')
        if len(alive(w)) > 1:
            S.cover('parallel')

    def checker(calls, man):
        return calls > 25
    w.sel = Sel()
    w.checker = wd.stopper(w, checker)
    m = wd.manager(w, w.sel, lambda x: w.values[x[0]], w.checker, max_jobs=cap)
    w.watch['start'] = on_start
    w.idle_ok = lambda kind: False
    w.prompt = True
    r = m.start_manager()
    S.check(len(stop) == m.o_counter == len(sizes), 'started-counter')
    S.check(sorted(stop) == list(range(1, len(stop) + 1)), 'identifiers')
    if S.cfg.get('ends', n) == n:
        S.check(len(stop) == n, 'all-offered-optimizers-started')
        S.check(r.stats['end_cond'] == 'No optimizers alive, spawning stopped.', 'end-condition')
        S.cover('ended')
    S.observe('sizes', sizes)


def kills(S):
    """optimizers told to stop keep their slots until they have ended"""
    cap = S.int('max_jobs', 2, 1000)
    sizes = []
    w = wd.World(S)
    n = 3
    w.scripts = {i: [('eval', [float(i)]), ('wait',)] for i in range(n)}
    w.values = {float(i): float(n - i) for i in range(n)}
    C = wd.scripted(w, 'OptA')
    B = env.module('glompo.opt_selectors.baseselector').BaseSelector

    class Sel(B):
        def __init__(self):
            super().__init__((C, {'workers': 1}, None))

        def select_optimizer(self, man, log, slots):
            used = sum(sizes[i - 1] for i in sorted(w.procs) if not w.procs[i].opt.dead)
            S.check(slots == cap - used, 'slots-of-stopped-optimizers-kept-until-they-end')
            if m.hunt_victims and any(not w.procs[v].opt.dead for v in m.hunt_victims):
                S.cover('lingering')
            elif m.hunt_victims:
                S.cover('freed')
            if len(sizes) >= n:
                return False if m.hunt_victims else None
            size = S.int('size', 1, 1000)
            S.assume(size <= slots)
            sizes.append(size)
            return C, {'script': len(sizes) - 1, 'workers': size}, {}

    def on_start(i, p):
        S.check(sum(sizes[j - 1] for j in w.procs if not w.procs[j].opt.dead) <= cap, 'slots-exceeded')
    w.sel = Sel()
    w.checker = wd.stopper(w, lambda calls, man: calls > 6)
    w.hunter = wd.hunter(w, lambda log, h, v: len(m.hunt_victims) < 1)
    m = wd.manager(w, w.sel, lambda x: w.values[x[0]], w.checker, max_jobs=cap, killing_conditions=w.hunter, hunt_frequency=1)
    w.watch['start'] = on_start
    w.naps = 1
    w.idle_ok = lambda kind: bool(m.hunt_victims)
    w.prompt = True
    m.start_manager()
    S.observe('sizes', sizes)


def refill(S):
    """a free slot is offered again before the run waits for further results"""
    cap = S.length('max_jobs', 1, 2)
    scripts, vals = mgr.evals(S, 3, 1, const=lambda i, j: float(i))
    longer = S.choice('longer', 3) if cap == 2 else 3  # this one never ends by itself
    for i in range(3):
        scripts[i].append(('wait',) if i == longer else ('conv',))
    w, m = mgr.setup(S, scripts, lambda c, man: c > 25 or (longer < 3 and man.conv_counter >= 2), vals, max_jobs=cap)
    w.idle_ok = lambda kind: False
    r = m.start_manager()
    if longer < 3:
        S.check(m.conv_counter == 2, 'free-slot-used-while-another-runs')
        S.cover('beside')
        return
    S.check(len(w.procs) == 3, 'every-optimizer-started')
    S.check(r.stats['end_cond'] == 'No optimizers alive, spawning stopped.', 'end-condition')
    S.check(m.o_counter == 3 and m.conv_counter == 3, 'counters')
    S.cover('done')


def initial(S):
    """at the start of the run the slots are filled up before anything is waited for"""
    cap = S.length('max_jobs', 1, 4)
    n = 4
    sizes = [S.length(f'w{i}', 1, 2) for i in range(n)]
    scripts, vals = mgr.evals(S, n, 1, const=lambda i, j: float(i))
    for i in range(n):
        scripts[i].append(('wait',))
    w, m = mgr.setup(S, scripts, lambda c, man: True, vals, max_jobs=cap, workers=sizes, after=None)
    first = []

    def on_get(who, item):
        if not first:
            first.append(sum(sizes[i - 1] for i in w.procs))
    block = w.block

    def blocked(kind, ready, timeout):
        if not first:
            first.append(len(w.procs))
        return block(kind, ready, timeout)
    w.block = blocked
    w.order = lambda kind, en, must: 0
    r = m.start_manager()
    want, used = 0, 0
    for s in sizes:
        if used + s > cap:
            break
        used += s
        want += 1
    if want == 0:
        S.check('GloMPO Crash' in r.stats['end_cond'], 'nothing-fits-is-an-error')
        S.cover('nothing')
        return
    S.check(first[:1] == [want], 'slots-filled-at-start')
    S.check(m.o_counter == want, 'started')
    S.cover('filled')


def harnesses(tier):
    hs = [H('slots', run, '3 optimizers of any size on any number of slots up to 1000, each ending by itself; the selector may '
            'decline once', {'n': 3}, must=['parallel', 'wide', 'declined', 'ended'], weight=3),
          H('kills', kills, '3 optimizers of any size on any number of slots up to 1000, one is killed and ends at any moment',
            must=['lingering', 'freed']),
          H('refill', refill, '3 optimizers on 1 or 2 slots', must=['done', 'beside']),
          H('initial', initial, '4 optimizers of 1 or 2 workers on 1..4 slots', must=['nothing', 'filled'])]
    if tier == 'thorough':
        hs += [H('slots4', run, '4 optimizers of any size', {'n': 4}, must=['parallel', 'ended'], weight=5),
               H('interleaved', run, '3 optimizers, one scheduling deviation at any non-blocking operation of the manager',
                 {'n': 3, 'budget': 1}, must=['parallel', 'ended'], weight=5)]
    return hs
