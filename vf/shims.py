"""numpy / math / builtins stand-ins that understand proxies (symbolic mode only) and the module loader that makes the
real glompo sources see them.  Every module of /repo/glompo is compiled from its current text and executed with a namespace
whose ``__builtins__`` and imports resolve to these stand-ins; the only rewriting is that the ``%`` operator is reached
through a function, because text on its left would otherwise turn a symbolic integer into a number."""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import math
import re
import sys
import types

import numpy as np
import z3

from . import engine as en
from . import symtext
from .engine import SBool, SInt, XReal, is_sym, ite, mkbool, shim_max, shim_min, _to_x, z_or, z_not, z_and


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if depth > 4:
        return False
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(i, depth + 1) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(i, depth + 1) for i in x)
    return False


def obj(x):
    """object array of proxies with numpy float semantics"""
    if isinstance(x, np.ndarray):
        a = x.astype(object) if x.dtype != object else x
    else:
        a = _nested(x)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = _el(a[i])
    return out


def _el(v):
    if type(v) is XReal:
        return v if v.npy else XReal(v.v, v.nan, v.pinf, v.ninf, True)
    return v


def _nested(x):
    if is_sym(x) or not isinstance(x, (list, tuple, np.ndarray, map, range)) and not hasattr(x, '__iter__'):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    subs = [_nested(i) for i in x]
    if not subs:
        return np.empty((0,), dtype=object)
    if len({s.shape for s in subs}) != 1:
        raise ValueError('inhomogeneous shape')
    a = np.empty((len(subs),) + subs[0].shape, dtype=object)
    for i, s in enumerate(subs):
        a[i] = s if s.shape else s[()]
    return a


def unbox(a):
    return a[()] if isinstance(a, np.ndarray) and a.shape == () else a


def elementwise(f):
    def g(x, *r, **k):
        a = obj(x)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return unbox(out)
    return g


def elementwise2(f):
    def g(x, y, *r, **k):
        a, b = np.broadcast_arrays(obj(x), obj(y))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i], b[i])
        return unbox(out)
    return g


def reduce_axis(f):
    def g(x, axis=None, *r, **k):
        a = obj(x)
        if axis is None:
            return f(list(a.flat))
        axis = axis % a.ndim
        rest = a.shape[:axis] + a.shape[axis + 1:]
        out = np.empty(rest, dtype=object)
        for i in np.ndindex(*rest):
            out[i] = f(list(a[i[:axis] + (slice(None),) + i[axis:]]))
        return unbox(out)
    return g


def r_sum(v):
    t = 0
    for x in v:
        t = t + x
    return t


def r_prod(v):
    t = 1
    for x in v:
        t = t * x
    return t


def r_mean(v):
    if not v:
        return math.nan
    return _to_x(r_sum(v)) / float(len(v))


def r_var(v):
    m = r_mean(v)
    return r_mean([(x - m) * (x - m) for x in v])


def r_std(v):
    return _to_x(r_var(v)).sqrt()


def np_min2(m, x):
    r = ite(x < m, x, m)
    return _nanprop(r, m, x)


def np_max2(m, x):
    r = ite(x > m, x, m)
    return _nanprop(r, m, x)


def _nanprop(r, m, x):
    rx, mx, xx = _to_x(r), _to_x(m), _to_x(x)
    nan = z_or(mx.nan, xx.nan)
    if nan is False:
        return r
    return XReal.mk(rx.v, nan, z_and(rx.pinf, z_not(nan)), z_and(rx.ninf, z_not(nan)), True)


def r_min(v):
    if not v:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    m = v[0]
    for x in v[1:]:
        m = np_min2(m, x)
    return m


def r_max(v):
    if not v:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    m = v[0]
    for x in v[1:]:
        m = np_max2(m, x)
    return m


def tr(x):
    return en._b(x) if isinstance(x, (bool, np.bool_)) or type(x) is SBool else en._b(mkbool(
        z_not(z_and(_to_x(x).fin, _to_x(x).v == 0))))


def r_all(v):
    return mkbool(z3.And([tr(x) for x in v])) if v else True


def r_any(v):
    return mkbool(z3.Or([tr(x) for x in v])) if v else False


def isfinite1(x):
    return _to_x(x).isfinite()


def isclose1(a, b, rtol=1e-5, atol=1e-8):
    a, b = _to_x(a), _to_x(b)
    return mkbool(en._b(abs(a - b) <= atol + rtol * abs(b))) if a.simple and b.simple else \
        mkbool(z_or(en._b(a == b), en._b(ite(b.isfinite(), abs(a - b) <= atol + rtol * abs(b), False))))


def np_array(x, *a, **k):
    if has_sym(x):
        return obj(x)
    return np.array(x, *a, **k)


def r_argmin(v):
    b = 0
    for i in range(1, len(v)):
        if v[i] < v[b]:
            b = i
    return b


def r_argmax(v):
    b = 0
    for i in range(1, len(v)):
        if v[i] > v[b]:
            b = i
    return b


def _where(c, *ab):
    if not ab:
        return np.where([bool(x) for x in np.ravel(c)])
    c, a, b = np.broadcast_arrays(obj(c), obj(ab[0]), obj(ab[1]))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = ite(c[i], a[i], b[i])
    return unbox(out)


def _norm(x, *a, **k):
    if a or k:
        raise TypeError('norm with ord')
    return _to_x(r_sum([v * v for v in obj(x).flat])).sqrt()


NP = {
    'array': np_array, 'asarray': np_array,
    'isfinite': elementwise(isfinite1), 'isnan': elementwise(lambda x: _to_x(x).isnan()),
    'isinf': elementwise(lambda x: _to_x(x).isinf()),
    'sqrt': elementwise(lambda x: _to_x(x).sqrt()), 'exp': elementwise(lambda x: _to_x(x).exp()),
    'log': elementwise(lambda x: _to_x(x).log()), 'log10': elementwise(lambda x: _to_x(x).log10()),
    'sin': elementwise(lambda x: _to_x(x).sin()), 'cos': elementwise(lambda x: _to_x(x).cos()),
    'abs': elementwise(abs), 'absolute': elementwise(abs), 'fabs': elementwise(abs),
    'square': elementwise(lambda x: x * x), 'sign': elementwise(lambda x: _to_x(x).sign()),
    'floor': elementwise(lambda x: _to_x(x).floor()), 'ceil': elementwise(lambda x: _to_x(x).ceil()),
    'logical_not': elementwise(lambda x: mkbool(z3.Not(tr(x)))),
    'negative': elementwise(lambda x: -x),
    'minimum': elementwise2(np_min2), 'maximum': elementwise2(np_max2),
    'fmin': elementwise2(lambda a, b: ite(_to_x(a).isnan(), b, ite(b < a, b, a))),
    'fmax': elementwise2(lambda a, b: ite(_to_x(a).isnan(), b, ite(b > a, b, a))),
    'power': elementwise2(lambda a, b: a ** b),
    'isclose': lambda a, b, *r, **k: elementwise2(lambda x, y: isclose1(x, y, *r, **k))(a, b),
    'allclose': lambda a, b, *r, **k: r_all(list(np.ravel(elementwise2(lambda x, y: isclose1(x, y, *r, **k))(a, b)))),
    'logical_and': elementwise2(lambda a, b: mkbool(z3.And(tr(a), tr(b)))),
    'logical_or': elementwise2(lambda a, b: mkbool(z3.Or(tr(a), tr(b)))),
    'less': elementwise2(lambda a, b: a < b), 'less_equal': elementwise2(lambda a, b: a <= b),
    'greater': elementwise2(lambda a, b: a > b), 'greater_equal': elementwise2(lambda a, b: a >= b),
    'sum': reduce_axis(r_sum), 'prod': reduce_axis(r_prod), 'product': reduce_axis(r_prod),
    'mean': reduce_axis(r_mean), 'average': reduce_axis(r_mean), 'var': reduce_axis(r_var), 'std': reduce_axis(r_std),
    'min': reduce_axis(r_min), 'max': reduce_axis(r_max), 'amin': reduce_axis(r_min), 'amax': reduce_axis(r_max),
    'all': reduce_axis(r_all), 'any': reduce_axis(r_any), 'argmin': reduce_axis(r_argmin),
    'argmax': reduce_axis(r_argmax), 'where': _where,
    'clip': lambda x, lo, hi, *r, **k: elementwise(lambda v: np_min2(np_max2(v, lo), hi))(x)
    if np.ndim(lo) == 0 and np.ndim(hi) == 0 else NPM.minimum(NPM.maximum(x, lo), hi),
    'ptp': lambda x, *r, **k: r_max(list(obj(x).flat)) - r_min(list(obj(x).flat)),
    'dot': lambda a, b, *r, **k: r_sum([x * y for x, y in zip(obj(a).flat, obj(b).flat)])
    if np.ndim(obj(a)) == 1 and np.ndim(obj(b)) == 1 else np.dot(obj(a), obj(b)),
    'transpose': lambda x, *r, **k: np.transpose(obj(x), *r, **k),
    'float64': lambda x: _el(_to_x(x)), 'ravel': lambda x, *a, **k: np.ravel(obj(x), *a, **k),
    'diff': lambda x, *a, **k: np.diff(obj(x), *a, **k),
    'float_': lambda x: _el(_to_x(x)),
}

_NP_OLD = {'product': 'prod', 'float_': 'float64', 'bool8': 'bool_', 'Inf': 'inf', 'NaN': 'nan', 'infty': 'inf',
           'float': None, 'int': None, 'bool': None, 'object': None}


class ShimNumpy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__path__ = []
        self._cache = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = self._cache.get(name)
        if c is not None:
            return c
        if name == 'random':
            from . import env
            r = env.np_random
        elif name == 'linalg':
            r = types.SimpleNamespace(norm=lambda x, *a, **k: _norm(x, *a, **k) if has_sym(x)
                                      else np.linalg.norm(x, *a, **k))
            for k in dir(np.linalg):
                if not hasattr(r, k) and not k.startswith('_'):
                    setattr(r, k, getattr(np.linalg, k))
        else:
            real = getattr(np, name, None)
            if real is None:
                alt = _NP_OLD.get(name, '')
                if alt == '':
                    raise AttributeError(f'numpy has no attribute {name}')
                real = getattr(np, alt) if alt else getattr(builtins, name)
            sym = NP.get(name)
            if sym is None:
                r = real
            elif isinstance(real, type):
                r = _type_shim(real, sym)
            else:
                def r(*a, _real=real, _sym=sym, **k):
                    if any(has_sym(i) for i in a) or any(has_sym(i) for i in k.values()):
                        return _sym(*a, **k)
                    return _real(*a, **k)
                r.__name__ = name
        self._cache[name] = r
        return r


NPM = ShimNumpy()


def _type_shim(real, conv):
    class M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __call__(cls, *a, **k):
            if a and has_sym(a[0]):
                return conv(a[0])
            if real is int and a and symtext.has(a[0]):
                return symtext.to_int(*a, **k)
            return real(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)
    if real is bool:
        return real
    return M(real.__name__, (real,), {'__module__': real.__module__, '__doc__': real.__doc__})


def _f1(name, sym):
    real = getattr(math, name)

    def f(x, *a):
        return sym(_to_x(x)) if is_sym(x) else real(x, *a)
    return f


class ShimMath(types.ModuleType):
    def __init__(self):
        super().__init__('math')

        def msqrt(x):
            if (x.v < 0) is not False and x.fin is not False and bool(mkbool(z_or(x.ninf, z_and(x.fin, x.v < 0)))):
                raise ValueError('math domain error')
            y = x.sqrt()
            return XReal(y.v, x.nan, x.pinf)
        self.sqrt = _f1('sqrt', msqrt)
        for n in ('exp', 'log', 'log10', 'sin', 'cos', 'isnan', 'isfinite', 'isinf'):
            setattr(self, n, _f1(n, lambda x, n=n: getattr(x, n)()))
        self.fabs = _f1('fabs', abs)
        self.floor = _f1('floor', lambda x: x.__floor__())
        self.ceil = _f1('ceil', lambda x: -((-x).__floor__()))
        self.trunc = _f1('trunc', lambda x: x.__trunc__())
        self.fsum = lambda s: r_sum(list(s)) if has_sym(list(s)) else math.fsum(s)
        self.prod = lambda s, **k: r_prod(list(s))
        self.pow = lambda a, b: a ** b if is_sym(a) or is_sym(b) else math.pow(a, b)
        self.hypot = lambda *a: _to_x(r_sum([x * x for x in a])).sqrt() if has_sym(a) else math.hypot(*a)
        self.dist = lambda p, q: _to_x(r_sum([(a - b) * (a - b) for a, b in zip(p, q)])).sqrt() \
            if has_sym(list(p)) or has_sym(list(q)) else math.dist(p, q)
        self.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: isclose1(a, b, rel_tol, abs_tol) \
            if is_sym(a) or is_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def __getattr__(self, name):
        return getattr(math, name)


MATHM = ShimMath()

ShimInt = _type_shim(int, lambda x: x if type(x) is SInt else (x._i() if type(x) is SBool else en.CUR.f_trunc(x)))
ShimFloat = _type_shim(float, lambda x: _to_x(x) if type(x) is not XReal else x)


def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    from . import env
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0:
        top = name.split('.')[0]
        if top == 'numpy':
            if not fromlist or name == 'numpy':
                return NPM
            if name == 'numpy.random':
                return NPM.random
            return m
        if name == 'math':
            return MATHM
        if name in env.MODULES:
            return env.MODULES[name]
        if top in env.MODULES and not fromlist:
            return env.MODULES[top]
    return m


def make_builtins():
    d = dict(vars(builtins))
    d['__import__'] = shim_import
    d['min'] = shim_min
    d['max'] = shim_max
    d['int'] = ShimInt
    d['float'] = ShimFloat
    d['__percent__'] = lambda a, b: percent(a, b)
    d['print'] = lambda *a, **k: None
    return d


BUILTINS = make_builtins()


def percent(a, b):
    """a % b as written in the code under test: text formatting keeps symbolic integers"""
    if not isinstance(a, str) or not symtext.on:
        return a % b
    args = list(b) if type(b) is tuple else [b]
    if not any(type(x) is SInt for x in args):
        return a % b
    out, i = [], 0
    for m in re.finditer(r'%(?:(%)|([0]?)(\d*)([disr])|(.))', a):
        out.append(a[i:m.start()])
        i = m.end()
        if m.group(1):
            out.append('%')
            continue
        if m.group(4) is None:
            return a % b
        x = args.pop(0)
        if type(x) is SInt:
            out.append(format(x, m.group(2) + m.group(3)) if m.group(4) in 'di' else str(x).rjust(int(m.group(3) or 0)))
        else:
            out.append(m.group(0) % (x,))
    return ''.join(out) + a[i:]


class _Percent(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__percent__', ast.Load()), [node.left, node.right], []), node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__['__builtins__'] = BUILTINS
        super().exec_module(module)

    def get_code(self, fullname):
        # always from the current source text
        with open(self.path, 'rb') as f:
            tree = ast.fix_missing_locations(_Percent().visit(ast.parse(f.read(), self.path)))
        return compile(tree, self.path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'glompo' and not fullname.startswith('glompo.'):
            return None
        import os
        p = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f),
                                                          submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


import importlib.util  # noqa: E402
