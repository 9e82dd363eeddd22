"""Selectors hand out exactly the documented optimizer for every budget, slot count and history of requests."""
from types import SimpleNamespace

from vf import env
from vf.harness import H

INFO = {
    'outside': 'more than 3 optimizer types, more than 4 requests; user-defined selectors',
    'assumptions': ['evaluation and optimizer counters never decrease between requests',
                    'random choices return an arbitrary element'],
}


def opts(S, n, wmax=4):
    B = env.module('glompo.optimizers.baseoptimizer').BaseOptimizer
    out = []
    for i in range(n):
        cls = type(f'Opt{i}', (B,), {})
        out.append((cls, S.int(f'w{i}', 1, wmax), {'tag': i}, {'call': i}))
    return out


def build(sel, o, **k):
    return sel(*[(cls, dict(kw, workers=w), ck) for cls, w, kw, ck in o], **k)


def got(S, r, o, i, lab):
    """the answer is configuration i, complete and unchanged"""
    S.check(isinstance(r, tuple) and len(r) == 3, lab + '-kind')
    cls, kw, ck = r
    S.check(cls is o[i][0] and set(kw) == {'tag', 'workers'} and kw['tag'] == i and ck == {'call': i}, lab)
    S.check(kw['workers'] == o[i][1], lab)
    S.observe('sel', i)


def spawn(S):
    """a spawn-control function with an arbitrary limit, or none; returns (callable or None, kind, limit)"""
    O = env.module('glompo.opt_selectors')
    kind = S.pick('control', [None, 'IterSpawnStop', 'NOptimizersSpawnStop'])
    if kind is None:
        return None, None, 0
    lim = S.int('limit', 0, 20)
    return getattr(env.module('glompo.opt_selectors.spawncontrol'), kind)(lim), kind, lim


def allowed(kind, lim, man):
    return True if kind is None else (man.f_counter < lim if kind == 'IterSpawnStop' else man.o_counter < lim)


def requests(S):
    f = o = 0
    for _ in range(S.length('requests', 1, 4 if S.deep else 3)):
        f, o = f + S.int('df', 0, 10), o + S.int('do', 0, 3)
        yield SimpleNamespace(f_counter=f, o_counter=o), S.int('slots', 0, 4)


def cycle(S):
    O = env.module('glompo.opt_selectors')
    o = opts(S, S.length('n', 1, 3))
    sp, kind, lim = spawn(S)
    sel = build(O.CycleSelector, o, allow_spawn=sp)
    nxt = 0
    for man, slots in requests(S):
        r = sel.select_optimizer(man, None, slots)
        if not allowed(kind, lim, man):
            S.check(r is False, 'cycle-spawning-off')
            S.cover('off')
        elif o[nxt][1] > slots:
            S.check(r is None, 'cycle-none-fits')
        else:
            got(S, r, o, nxt, 'cycle-order')
            nxt = (nxt + 1) % len(o)
            S.cover('got')


def rand(S):
    O = env.module('glompo.opt_selectors')
    o = opts(S, S.length('n', 1, 3))
    sp, kind, lim = spawn(S)
    sel = build(O.RandomSelector, o, allow_spawn=sp)
    for man, slots in list(requests(S))[:2]:
        r = sel.select_optimizer(man, None, slots)
        fits = [bool(c[1] <= slots) for c in o]
        if not allowed(kind, lim, man):
            S.check(r is False, 'random-spawning-off')
            S.cover('off')
        elif not any(fits):
            S.check(r is None, 'random-none-fits')
        else:
            S.check(isinstance(r, tuple) and len(r) == 3, 'random-kind')
            i = r[1]['tag']
            S.check(fits[i], 'random-fits')
            got(S, r, o, i, 'random-choice')
            S.cover('got')


def chain(S):
    O = env.module('glompo.opt_selectors')
    n = S.length('n', 1, 3)
    o = opts(S, n, 2)
    th, t = [], 0
    for i in range(n if S.flag('last_threshold') else n - 1):
        t = t + S.int(f'dt{i}', 1, 10)
        th.append(t)
    sp, kind, lim = (None, None, 0) if S.flag('no_control') else spawn(S)
    sel = build(O.ChainSelector, o, fcall_thresholds=list(th), allow_spawn=sp)
    for man, slots in list(requests(S)):
        r = sel.select_optimizer(man, None, slots)
        i = sum(1 for x in th if man.f_counter >= x)
        if not allowed(kind, lim, man):
            S.check(r is False, 'chain-spawning-off')
        elif i == n:
            S.check(r is False, 'chain-after-last-threshold')
            S.cover('end')
        elif o[i][1] > slots:
            S.check(r is None, 'chain-none-fits')
        else:
            got(S, r, o, i, 'chain-stage')
            S.cover('got')


def construct(S):
    """all accepted spellings of an available optimizer, and the rejected ones"""
    O = env.module('glompo.opt_selectors')
    B = env.module('glompo.optimizers.baseoptimizer').BaseOptimizer
    A = type('A', (B,), {})
    X = type('X', (B,), {})
    kind = S.pick('sel', ['CycleSelector', 'RandomSelector', 'ChainSelector'])
    items = {'cls': A, 'none': (A, None, None), 'kw': (A, {'a': 1}, {'b': 2}), 'workers': (A, {'workers': 3}, None),
             'notopt': int, 'badinit': (A, 5, None), 'badcall': (A, None, 'x')}
    which = S.pick('item', list(items))
    k = {'fcall_thresholds': [5]} if kind == 'ChainSelector' else {}
    try:
        sel = getattr(O, kind)(items[which], **k)
        ok = True
    except (ValueError, TypeError):
        ok = False
    S.check(ok == (which not in ('notopt', 'badinit', 'badcall')), 'selector-arguments')
    if not ok:
        return
    S.check(A in sel and X not in sel, 'selector-membership')
    r = sel.select_optimizer(SimpleNamespace(f_counter=0, o_counter=0), None, 5)
    want = {'cls': ({'workers': 1}, {}), 'none': ({'workers': 1}, {}), 'kw': ({'a': 1, 'workers': 1}, {'b': 2}),
            'workers': ({'workers': 3}, {})}[which]
    S.check(r[0] is A and (r[1], r[2]) == want, 'selector-defaults')
    S.cover('built')


def harnesses(tier):
    b = '1-3 types needing 1..4 workers, 0..4 free slots, <=3 requests (4 thorough), counters and limits arbitrary'
    return [H('cycle', cycle, b, must=['off', 'got'], weight=3), H('random', rand, b + ' (2 requests)', must=['off', 'got'], weight=2),
            H('chain', chain, b + ', thresholds arbitrary ascending', must=['end', 'got'], weight=4),
            H('construct', construct, '7 spellings x 3 selectors', must=['built'])]
