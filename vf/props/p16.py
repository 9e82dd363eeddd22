"""Boolean combinations of stopping criteria and of hunters: value, laziness, freshness, flattening and text."""
from vf import env
from vf.harness import H

INFO = {
    'outside': 'trees with more leaves than the bound; the same leaf object used twice in one tree',
    'assumptions': ['leaf conditions are arbitrary: each evaluation returns an arbitrary boolean'],
}

# tree shapes over n leaves: nested pairs
SHAPES = {2: [(0, 1)], 3: [((0, 1), 2), (0, (1, 2))],
          4: [((0, 1), (2, 3)), (((0, 1), 2), 3), (0, (1, (2, 3))), ((0, (1, 2)), 3), (0, ((1, 2), 3))]}


def combos(S):
    kind = S.cfg['kind']
    if kind == 'checker':
        base = env.module('glompo.convergence').BaseChecker
        args = (object(),)
    else:
        base = env.module('glompo.hunters').BaseHunter
        args = (object(), 1, 2)
    n = S.length('leaves', 2, 4 if S.deep else 3)
    shape = S.pick('shape', SHAPES[n])
    calls = []

    def mk(i):
        class Leaf(base):
            def __init__(self, num):
                super().__init__()
                self.num = num

            def __call__(self, *a):
                calls.append((self.num, a))
                self.last_result = answers[self.num]
                return self.last_result
        return Leaf(i)
    leaves = [mk(i) for i in range(n)]

    def build(t):
        if isinstance(t, int):
            return leaves[t], ('leaf', t)
        (a, ta), (b, tb) = build(t[0]), build(t[1])
        if S.flag('op_or'):
            return a | b, ('or', ta, tb)
        return a & b, ('and', ta, tb)
    tree, form = build(shape)

    def ev(f):
        """(value, leaves that a lazy left-to-right evaluation looks at)"""
        if f[0] == 'leaf':
            return bool(answers[f[1]]), [f[1]]
        a, la = ev(f[1])
        if (f[0] == 'or') == a:
            return a, la
        b, lb = ev(f[2])
        return b, la + lb

    def text(f, seen):
        if f[0] == 'leaf':
            t = str(leaves[f[1]])
            return t if seen is None else f'{t} = {answers[f[1]] if f[1] in seen else None}'
        return f"[{text(f[1], seen)} {'|' if f[0] == 'or' else '&'} \n{text(f[2], seen)}]"

    S.check([x for x in tree] == leaves, 'combination-flattens-in-order')
    S.check(str(tree) == text(form, None), 'combination-text')
    S.check(tree.last_result is None, 'combination-fresh-before-use')
    answers = None
    S.check(tree.str_with_result() == text(form, ()), 'combination-result-text-before-use')
    for _ in range(S.length('calls', 1, 2)):
        answers = [S.flag(f'a{i}') for i in range(n)]
        del calls[:]
        r = tree(*args)
        want, seen = ev(form)
        S.check(bool(r) == want, 'combination-value')
        S.check(bool(tree.last_result) == want, 'combination-last_result')
        S.check([c[0] for c in calls] == seen, 'combination-lazy')
        S.check(all(c[1] == args for c in calls), 'combination-arguments')
        S.check(all((lf.last_result is None) == (i not in seen) for i, lf in enumerate(leaves)), 'combination-fresh')
        S.check(tree.str_with_result() == text(form, seen), 'combination-result-text')
        nested(S, tree.str_with_result())
    S.cover('done')


def nested(S, s):
    """the indented rendering keeps every character that is not white space and indents by nesting depth"""
    out = env.module('glompo.common.helpers').nested_string_formatting(s)
    core = s[1:-1]
    S.check(''.join(out.split()) == ''.join(core.split()), 'nested-text-content')
    depth = 0
    for line in out.split('\n'):
        if ']' in line:
            depth -= 1
        S.check(len(line) - len(line.lstrip(' ')) == depth, 'nested-text-indent')
        if '[' in line:
            depth += 1
    S.check(depth == 0, 'nested-text-balanced')


def words(S):
    """the text of an elementary condition: its name and every argument it was made with"""
    base = env.module('glompo.convergence').BaseChecker if S.flag('checker') else env.module('glompo.hunters').BaseHunter
    n = S.length('arguments', 0, 3)
    kept = [S.flag(f'kept{i}') for i in range(n)]
    vals = [S.pick(f'value{i}', [0, 7.5, 'abc', None]) for i in range(n)]

    class Strange_Name(base):
        def keep(self, **k):
            super().__init__()
            for i, v in enumerate(k.values()):
                if kept[i]:
                    setattr(self, f'arg{i}', v)

        def __call__(self, *a):
            self.last_result = True
            return True
    sig = ', '.join(f'arg{i}' for i in range(n))
    ns = {}
    exec(f"def __init__(self{', ' if n else ''}{sig}):\n    self.keep({', '.join(f'arg{i}=arg{i}' for i in range(n))})", ns)
    Strange_Name.__init__ = ns['__init__']
    c = Strange_Name(*vals)
    want = f"Strange_Name({', '.join(f'arg{i}={vals[i]}' if kept[i] else f'arg{i}' for i in range(n))})"
    S.check(str(c) == want, 'condition-text')
    S.check(c.str_with_result() == want + ' = None', 'condition-result-text-before-use')
    c(1, 2, 3) if base.__name__ == 'BaseHunter' else c(1)
    S.check(c.str_with_result() == want + ' = True', 'condition-result-text')
    c.reset()
    S.check(c.last_result is None, 'condition-reset')
    S.cover('words')


def types(S):
    """only conditions of the same family can be combined"""
    C = env.module('glompo.convergence')
    a = C.MaxKills(1)
    b = S.pick('b', [3, 'x', None])
    try:
        (a | b) if S.flag('or') else (a & b)
        ok = True
    except TypeError:
        ok = False
    S.check(not ok, 'combination-type-check')


def harnesses(tier):
    return [H('checkers', combos, 'all trees with 2-3 leaves (4 thorough), <=2 evaluations', cfg={'kind': 'checker'}, must=['done']),
            H('hunters', combos, 'all trees with 2-3 leaves (4 thorough), <=2 evaluations', cfg={'kind': 'hunter'}, must=['done']),
            H('words', words, 'conditions with 0-3 arguments of 4 kinds, kept or not', must=['words']),
            H('types', types, 'three foreign operands')]
