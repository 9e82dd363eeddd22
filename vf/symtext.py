"""Symbolic text: a str may hold private-use characters which stand for a symbolic character code.  They survive every str
operation that treats characters as opaque (slicing, joining, replacing, use as a file name); the operations which look at
them are int(), formatting of symbolic integers and regular expressions, for which stand-ins are given here."""
import builtins
import re
import types

import z3

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc

BASE = 0xF0000
TABLE = []
BY = {}
SPLIT = {}
on = False


def reset():
    global on
    TABLE.clear()
    BY.clear()
    SPLIT.clear()
    on = False


def char(code):
    """a character with this (z3 integer) code"""
    code = z3.simplify(code)
    if z3.is_int_value(code):
        return chr(code.as_long())
    k = code.get_id()
    if k not in BY:
        BY[k] = BASE + len(TABLE)
        TABLE.append(code)
    return chr(BY[k])


def code(c):
    o = ord(c)
    return TABLE[o - BASE] if BASE <= o < BASE + len(TABLE) else z3.IntVal(o)


def lit(o):
    return code(chr(o))


def is_ph(c):
    return BASE <= ord(c) < BASE + len(TABLE)


def has(s):
    return isinstance(s, str) and any(is_ph(c) for c in s)


def equal(a, b):
    """condition under which the two strings are the same"""
    from .engine import mkbool
    if len(a) != len(b):
        return False
    cs = [code(x) == code(y) for x, y in zip(a, b) if x != y]
    return mkbool(z3.And(*cs)) if cs else True


def holds(e):
    from .engine import mkbool
    return bool(mkbool(e))


def to_int(s, base=10):
    from .engine import SInt
    t = s.strip()
    if base != 10 or not t:
        raise ValueError(f'invalid literal for int(): {s!r}')
    v = z3.IntVal(0)
    for c in t:
        d = code(c)
        if not holds(z3.And(d >= 48, d <= 57)):
            raise ValueError('invalid literal for int() with base 10')
        v = v * 10 + (d - 48)
    return SInt(z3.simplify(v))


def split(e, n):
    """the decimal digits of a term known to be in [0, 10**n): new variables, so that the arithmetic stays linear"""
    from . import engine
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return str(e.as_long()).rjust(n, '0')
    k = (e.get_id(), n)
    if k not in SPLIT:
        v = [z3.Int(f'digit!{len(SPLIT)}!{i}') for i in range(n)]
        for x in v:
            engine.CUR.add(z3.And(x >= 0, x <= 9))
        engine.CUR.add(e == z3.Sum([x * 10 ** (n - 1 - i) for i, x in enumerate(v)]))
        SPLIT[k] = (e, ''.join(char(x + 48) for x in v))
    return SPLIT[k][1]


def fmt(e, spec):
    """an integer term as text (up to 9 digits)"""
    m = re.fullmatch(r'(0?)(\d*)d?', spec)
    if m is None:
        return None
    if holds(e < 0):
        return None
    n = 1
    while n < 9 and not holds(e < 10 ** n):
        n += 1
    s = split(e, n)
    width = int(m.group(2) or 0)
    return s.rjust(width, '0' if m.group(1) else ' ')


# ------------------------------------------------------------------ regular expressions
def in_set(items, c, flags):
    """condition for the character code to be in the set"""
    neg, alts = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            alts.append(c == lit(av))
        elif op is sc.RANGE:
            alts.append(z3.And(c >= av[0], c <= av[1]))
        elif op is sc.CATEGORY:
            alts.append(category(av, c))
        else:
            raise NotImplementedError(str(op))
    r = z3.Or(*alts) if alts else z3.BoolVal(False)
    return z3.Not(r) if neg else r


def category(av, c):
    dig = z3.And(c >= 48, c <= 57)
    word = z3.Or(dig, z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95)
    space = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
    t = {sc.CATEGORY_DIGIT: dig, sc.CATEGORY_WORD: word, sc.CATEGORY_SPACE: space}
    if av in t:
        return t[av]
    return z3.Not({sc.CATEGORY_NOT_DIGIT: dig, sc.CATEGORY_NOT_WORD: word, sc.CATEGORY_NOT_SPACE: space}[av])


def step(cond):
    return holds(z3.simplify(cond))


def run(seq, k, s, i, g, cont):
    """match seq[k:] at position i; cont(i, groups) decides the rest.  Decisions on characters fork the path."""
    if k == len(seq):
        return cont(i, g)
    op, av = seq[k]

    def nxt(j, h):
        return run(seq, k + 1, s, j, h, cont)
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
        if i >= len(s):
            return None
        c = code(s[i])
        ok = {sc.LITERAL: lambda: c == lit(av), sc.NOT_LITERAL: lambda: c != lit(av), sc.IN: lambda: in_set(av, c, 0),
              sc.ANY: lambda: c != 10}[op]()
        return nxt(i + 1, g) if step(ok) else None
    if op is sc.SUBPATTERN:
        gid, sub = av[0], av[-1]

        def close(j, h):
            return nxt(j, {**h, gid: (i, j)} if gid is not None else h)
        return run(list(sub), 0, s, i, g, close)
    if op is sc.BRANCH:
        for alt in av[1]:
            r = run(list(alt), 0, s, i, g, nxt)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def more(n, j, h):
            def again(q, w):
                return None if q == j and n >= lo else more(n + 1, q, w)
            if n < lo:
                return run(sub, 0, s, j, h, again)
            if op is sc.MIN_REPEAT:
                r = nxt(j, h)
                if r is not None:
                    return r
                return run(sub, 0, s, j, h, again) if hi is sc.MAXREPEAT or n < hi else None
            if hi is sc.MAXREPEAT or n < hi:
                r = run(sub, 0, s, j, h, again)
                if r is not None:
                    return r
            return nxt(j, h)
        return more(0, i, g)
    if op is sc.GROUPREF:
        if av not in g:
            return None
        a, b = g[av]
        t = s[a:b]
        if i + len(t) > len(s):
            return None
        for x, y in zip(t, s[i:i + len(t)]):
            if x != y and not step(code(x) == code(y)):
                return None
        return nxt(i + len(t), g)
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return nxt(i, g) if i == 0 else None
        if av is sc.AT_END_STRING:
            return nxt(i, g) if i == len(s) else None
        if av is sc.AT_END:
            ok = i == len(s) or i == len(s) - 1 and step(code(s[i]) == 10)
            return nxt(i, g) if ok else None
    if op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] == 1:
        r = run(list(av[1]), 0, s, i, g, lambda j, h: (j, h))
        if op is sc.ASSERT:
            return nxt(i, r[1]) if r is not None else None
        return nxt(i, g) if r is None else None
    from .engine import Unsupported
    raise Unsupported(f'regular expression: {op}')


class Match:
    def __init__(self, pat, s, a, b, g):
        self.re, self.string, self.a, self.b, self.g = pat, s, a, b, g

    def span(self, k=0):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        return (self.a, self.b) if k == 0 else self.g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        return self._one(ks[0]) if len(ks) == 1 else tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max(self.g, key=lambda k: (self.g[k][1], -k)) if self.g else None

    @property
    def lastgroup(self):
        for n, k in self.re.groupindex.items():
            if k == self.lastindex:
                return n
        return None


class Pattern:
    def __init__(self, p, flags=0):
        self._r = re.compile(p, flags)
        self.pattern, self.flags = self._r.pattern, self._r.flags
        self.groups, self.groupindex = self._r.groups, self._r.groupindex
        self._p = None

    def _sym(self, s, i, full):
        if self._p is None:
            self._p = list(sp.parse(self.pattern, self.flags & ~re.UNICODE))
        r = run(self._p, 0, s, i, {}, lambda j, g: (j, g) if not full or j == len(s) else None)
        return None if r is None else Match(self, s, i, r[0], r[1])

    def fullmatch(self, s, *a):
        return self._sym(s, 0, True) if has(s) else self._r.fullmatch(s, *a)

    def match(self, s, *a):
        return self._sym(s, 0, False) if has(s) else self._r.match(s, *a)

    def search(self, s, *a):
        if not has(s):
            return self._r.search(s, *a)
        for i in range(len(s) + 1):
            m = self._sym(s, i, False)
            if m is not None:
                return m
        return None

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        f = getattr(self._r, n)

        def g(*a, **k):
            if any(has(x) for x in a):
                from .engine import Unsupported
                raise Unsupported(f're.{n} on symbolic text')
            return f(*a, **k)
        return g if callable(f) else f


class Re(types.ModuleType):
    def __init__(self):
        super().__init__('re')

    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def __getattr__(self, n):
        f = getattr(re, n)
        if not isinstance(f, types.FunctionType) or n == 'escape':
            return f

        def g(p, *a, **k):
            if any(has(x) for x in a):
                from .engine import Unsupported
                raise Unsupported(f're.{n} on symbolic text')
            return f(p._r if isinstance(p, Pattern) else p, *a, **k)
        return g


RE = Re()
