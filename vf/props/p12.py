"""Checkpoint names: what is generated, and what is recognised."""
import datetime as _dt
import shutil
import tempfile
from pathlib import Path

from vf import env
from vf.harness import H

INFO = {
    'outside': 'formats other than those listed; names with characters outside printable ASCII; more than 3 existing names',
    'assumptions': ['symbolic characters are carried through str operations as opaque characters; a stand-in for re decides matches'],
}

LEN = {'date': 8, 'year': 4, 'yr': 2, 'month': 2, 'day': 2, 'time': 6, 'hour': 2, 'min': 2, 'sec': 2}
FORMATS = ['c_%(count)', '%(count)', 'a.b+(c)_%(count)', '%(year)-%(month)-%(day)', '%(yr)%(month)%(hour)%(min)%(sec)x',
           'glompo_checkpoint_%(date)_%(time)', '%(time)_%(count)', '%(count)_%(date)', '%(count)%(count)', 'fixed', '[%(day)]{2}',
           'x%(count)y%(count)']
EXT = '.tar.gz'


def parts(fmt):
    out = []
    while fmt:
        if fmt.startswith('%('):
            k, fmt = fmt[2:].split(')', 1)
            out.append(('key', k))
        else:
            out.append(('lit', fmt[0]))
            fmt = fmt[1:]
    return out


class T:
    """text in both modes"""

    def __init__(self, S):
        self.S = S
        if S.sym:
            from vf import symtext
            symtext.on = True
            self.st = symtext

    def char(self, name, lo=32, hi=126):
        v = self.S.int(name, lo, hi)
        self.S.assume(v != 47)
        return self.st.char(v.e) if self.S.sym else chr(v)

    def text(self, name, n):
        return ''.join(self.char(f'{name}{i}') for i in range(n))

    def digits(self, name, n):
        return ''.join(self.char(f'{name}{i}', 48, 57) for i in range(n))

    def eq(self, a, b):
        return self.st.equal(a, b) if self.S.sym else a == b

    def is_digit(self, c):
        if self.S.sym:
            e = self.st.code(c)
            return self.S.all([self.en(e >= 48), self.en(e <= 57)])
        return c in '0123456789'

    def en(self, e):
        from vf.engine import mkbool
        return mkbool(e)

    def number(self, s):
        if not self.S.sym:
            return sum((ord(c) - 48) * 10 ** i for i, c in enumerate(reversed(s)))
        from vf.engine import SInt
        import z3
        v = z3.IntVal(0)
        for c in s:
            v = v * 10 + (self.st.code(c) - 48)
        return SInt(v)

    def pad(self, v, n):
        """a number known to have at most n digits"""
        if not self.S.sym:
            return f'{v:0{n}}'
        import z3
        return self.st.split(v.e if hasattr(v, 'e') else z3.IntVal(v), n)


def shapes(fmt, n):
    """splits of a name of n characters: lists of (part, slice)"""
    ps = parts(fmt)
    k = sum(1 for p in ps if p == ('key', 'count'))
    fixed = sum(1 if a == 'lit' else LEN.get(b, 0) for a, b in ps)
    if k == 0:
        if fixed != n:
            return None
        w = 0
    else:
        if (n - fixed) % k or (n - fixed) // k < 3:
            return None
        w = (n - fixed) // k
    out, i = [], 0
    for p in ps:
        m = 1 if p[0] == 'lit' else LEN.get(p[1], w)
        out.append((p, i, i + m))
        i += m
    return out


def fits(t, fmt, name):
    """condition for the name to be one of this format, and its number (or None)"""
    S = t.S
    conds, count = [], None
    for ext in (False, True):
        n = name[:-len(EXT)] if ext else name
        if ext and len(name) < len(EXT):
            continue
        sh = shapes(fmt, len(n))
        if sh is None:
            continue
        cs = [t.eq(name[-len(EXT):], EXT)] if ext else []
        first = None
        for (kind, v), a, b in sh:
            if kind == 'lit':
                cs.append(t.eq(n[a:b], v))
            else:
                cs += [t.is_digit(c) for c in n[a:b]]
                if v == 'count':
                    if first is not None:
                        cs.append(t.eq(n[a:b], first))
                    first = n[a:b]
        conds.append((S.all(cs), first))
    return conds


def recognised(S):
    """a name is recognised exactly if it has the form of the naming format"""
    fmt = S.pick('format', S.cfg['formats'])
    t = T(S)
    ps = parts(fmt)
    base = sum(1 if a == 'lit' else LEN.get(b, 3) for a, b in ps)
    n = base + S.choice('more', S.cfg.get('more', 3)) - 1
    ext = S.pick('extension', ['none', 'archive', 'like'])
    name = t.text('c', n)
    if ext == 'archive':
        name += EXT
    elif ext == 'like':
        k = S.pick('changed', S.cfg.get('changed', [0, 4]))
        name += EXT[:k] + t.char('x') + EXT[k + 1:]
    C = env.module('glompo.core.checkpointing').CheckpointingControl(naming_format=fmt, checkpointing_dir='nowhere')
    got = C.matches_naming_format(name)
    want = S.any([c for c, _ in fits(t, fmt, name)])
    S.check(S.iff(got, want), 'recognised')
    S.cover('yes' if got else 'no')


class Fields:
    """a moment whose fields are symbolic"""

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __getattr__(self, k):
        m = {'year': 'y', 'month': 'm', 'day': 'd', 'hour': 'H', 'minute': 'M', 'second': 'S'}
        if k in m:
            return self.v[m[k]]
        raise AttributeError(k)

    def strftime(self, f):
        t, v = self.t, self.v
        out = {'%Y': t.pad(v['y'], 4), '%y': t.pad(v['y'] % 100, 2), '%m': t.pad(v['m'], 2), '%d': t.pad(v['d'], 2),
               '%H': t.pad(v['H'], 2), '%M': t.pad(v['M'], 2), '%S': t.pad(v['S'], 2)}
        for a, b in out.items():
            f = f.replace(a, b)
        return f


def moment(S, t):
    v = {'y': S.int('year', 1970, 2099), 'm': S.int('month', 1, 12), 'd': S.int('day', 1, 28), 'H': S.int('hour', 0, 23),
         'M': S.int('minute', 0, 59), 'S': S.int('second', 0, 59)}
    now = Fields(t, v) if S.sym else _dt.datetime(v['y'], v['m'], v['d'], v['H'], v['M'], v['S'])

    class DT(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return now
        today = now
    mod = env.module('glompo.core.checkpointing')
    old = mod.datetime
    if isinstance(old, type(_dt)):
        import types
        mod.datetime = types.SimpleNamespace(datetime=DT)
    else:
        mod.datetime = DT
    S.defer(lambda: setattr(mod, 'datetime', old))
    text = {'year': t.pad(v['y'], 4), 'yr': t.pad(v['y'] % 100, 2), 'month': t.pad(v['m'], 2), 'day': t.pad(v['d'], 2),
            'hour': t.pad(v['H'], 2), 'min': t.pad(v['M'], 2), 'sec': t.pad(v['S'], 2)}
    text['date'] = text['year'] + text['month'] + text['day']
    text['time'] = text['hour'] + text['min'] + text['sec']
    return text


def directory(S):
    d = Path(tempfile.mkdtemp(prefix='vf_n_'))
    S.defer(lambda: shutil.rmtree(str(d), ignore_errors=True))
    return d


def checked(S, t, C, fmt, text, old):
    """the generated name shows the moment and the next number, and is recognised"""
    name = C.get_name()
    sh = shapes(fmt, len(name))
    S.check(sh is not None, 'form')
    number = None
    for (kind, v), a, b in sh:
        if kind == 'lit':
            S.check(t.eq(name[a:b], v), 'literal')
        elif v == 'count':
            S.check(S.all([t.is_digit(c) for c in name[a:b]]), 'number')
            if number is not None:
                S.check(t.eq(name[a:b], number), 'same-number')
            number = name[a:b]
        else:
            S.check(t.eq(name[a:b], text[v]), 'moment')
    S.check(C.matches_naming_format(name), 'own-name-recognised')
    S.check(C.matches_naming_format(name + EXT), 'own-archive-recognised')
    if number is None:
        return name
    k = t.number(number)
    S.check(S.any([len(number) == 3, k >= 10 ** (len(number) - 1)]), 'three-digits-or-as-many-as-needed')
    taken = [(c, t.number(f)) for x in old for c, f in fits(t, fmt, x)]
    for c, v in taken:
        S.check(S.implies(c, k > v), 'beyond-all-existing')
    S.check(S.any([k == 0] + [S.all([c, k == v + 1]) for c, v in taken]), 'next-number')
    for x in old:
        S.check(S.not_(t.eq(x, name)), 'new')
        S.check(S.not_(t.eq(x, name + EXT)), 'new')
    S.cover('counted')
    return name


def generated(S):
    fmt = S.pick('format', S.cfg['formats'])
    t = T(S)
    text = moment(S, t)
    there = S.flag('directory')
    d = directory(S) if there else Path('/nonexistent/vf')
    old = []
    if there:
        for i in range(S.length('existing', 0, S.cfg['n'])):
            kind = S.pick('kind', S.cfg.get('kinds', ['own', 'long', 'archive', 'other', 'near']))
            if kind == 'other':
                x = t.text(f'o{i}_', 5)
            else:
                w = 4 if kind == 'long' else 3
                cnt = t.digits(f'n{i}_', w)
                x = ''.join(v if a == 'lit' else cnt if v == 'count' else t.digits(f'f{i}_', LEN[v]) for a, v in parts(fmt))
                if kind == 'archive':
                    x += EXT
                elif kind == 'near':
                    x = t.char(f'p{i}') + x if S.flag('before') else x + t.char(f'p{i}')
            if x in ('.', '..') or (d / x).exists():
                continue
            (d / x).touch()
            old.append(x)
    C = env.module('glompo.core.checkpointing').CheckpointingControl(naming_format=fmt, checkpointing_dir=d)
    name = checked(S, t, C, fmt, text, old)
    S.cover('generated')
    if there and S.cfg.get('again') and 'count' in fmt:
        (d / (name + EXT)).touch()
        other = env.module('glompo.core.checkpointing').CheckpointingControl(naming_format=fmt, checkpointing_dir=d)
        old = old + [name + EXT]
        if S.flag('another'):  # somebody else puts a checkpoint there meanwhile
            cnt = t.digits('m_', 3)
            x = ''.join(v if a == 'lit' else cnt if v == 'count' else t.digits('g_', LEN[v]) for a, v in parts(fmt))
            if not (d / x).exists():
                (d / x).touch()
                old = old + [x]
                S.cover('another')
        checked(S, t, other if S.flag('new_control') else C, fmt, text, old)
        S.cover('again')


def harnesses(tier):
    counted = [f for f in FORMATS if 'count' in f]
    hs = [H('recognised', recognised, 'any text of printable characters one shorter to one longer than the shortest name, 12 formats',
            {'formats': FORMATS}, must=['yes', 'no'], weight=2),
          H('generated', generated, 'any moment, 12 formats, up to 1 existing file with any name', {'formats': FORMATS, 'n': 1},
            must=['generated', 'counted'], weight=2),
          H('counted', generated, 'a second checkpoint; up to 2 existing files', {'formats': counted[:2], 'n': 2, 'again': True, 'kinds': ['own', 'long']},
            must=['counted', 'again', 'another'], weight=2)]
    if tier == 'thorough':
        hs += [H('recognised5', recognised, 'up to 4 longer', {'formats': FORMATS, 'more': 6, 'changed': list(range(7))}, weight=4),
               H('counted3', generated, '3 existing files', {'formats': counted, 'n': 3, 'again': True}, weight=5)]
    return hs
