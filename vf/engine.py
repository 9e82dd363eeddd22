"""Symbolic executor for the real glompo modules.

The Python functions of /repo run unmodified on *proxy* values.  Every proxy wraps a z3
term; operators build bigger terms; the truth value of a symbolic condition forks the
execution.  Paths are enumerated depth first by re-execution, and every fork is taken only
if z3 says the resulting path condition is satisfiable.  ``S.check(c)`` asks z3 whether the
path condition together with *not c* is satisfiable: "unsat" on every path means the
assertion holds for every value inside the stated bounds; a model is a counterexample.
"""
import math
import signal
import time
from fractions import Fraction

import z3

_true = z3.BoolVal(True)
_false = z3.BoolVal(False)

# ---- thin term builders: the z3 Python layer spends most of its time coercing operands that are already terms
_ctx = z3.main_ctx()
_cref = _ctx.ref()


def And(*a):
    n = len(a)
    return z3.BoolRef(z3.z3core.Z3_mk_and(_cref, n, (z3.Ast * n)(*[x.ast for x in a])), _ctx)


def Or(*a):
    n = len(a)
    return z3.BoolRef(z3.z3core.Z3_mk_or(_cref, n, (z3.Ast * n)(*[x.ast for x in a])), _ctx)


def Not(a):
    return z3.BoolRef(z3.z3core.Z3_mk_not(_cref, a.ast), _ctx)


def Lt(a, b):
    """a < b of two terms of the same arithmetic sort"""
    return z3.BoolRef(z3.z3core.Z3_mk_lt(_cref, a.ast, b.ast), _ctx)


def Eq(a, b):
    return z3.BoolRef(z3.z3core.Z3_mk_eq(_cref, a.ast, b.ast), _ctx)


def simp(e):
    """simplified boolean term, or True / False"""
    a = z3.z3core.Z3_simplify(_cref, e.ast)
    v = z3.z3core.Z3_get_bool_value(_cref, a)
    r = z3.BoolRef(a, _ctx)
    return True if v == 1 else False if v == -1 else r


class PathAbort(BaseException):
    """Current path is infeasible / cut."""


class Endless(BaseException):
    pass


class Budget(BaseException):
    """Exploration budget used up."""


class Unsupported(BaseException):
    """The executor has no encoding for an operation on a symbolic value."""


CUR = None  # current Explorer


def _b(x):
    """z3 Bool of a python/symbolic truth value (no forking)."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return _true if x else _false


def z_and(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    return True if not a else (a[0] if len(a) == 1 else And(*a))


def z_or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    return False if not a else (a[0] if len(a) == 1 else Or(*a))


def z_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return Not(a)


def z_if(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


def z_if_b(c, a, b):
    """If over booleans that may be python constants."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return z_or(z_and(c, a), z_and(z_not(c), b))


def mkbool(e):
    if e is True or e is False:
        return e
    e = simp(e)
    return e if e is True or e is False else SBool(e)


class SBool:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (SBool, bool)) or type(o).__name__ in ('bool_', 'bool'):
            return mkbool(z3.And(self.e, _b(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)) or type(o).__name__ in ('bool_', 'bool'):
            return mkbool(z3.Or(self.e, _b(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, _b(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))
    logical_not = __invert__

    def any(self, *a, **k):
        return self
    all = any

    def item(self):
        return self

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == _b(o))
        return self._i() == o

    def __ne__(self, o):
        r = self == o
        return ~r if type(r) is SBool else not r

    def _i(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __str__(self):
        return '<symbool>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<symbool>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        return _unpickle, (CUR.intern(self),)


def _unpickle(k):
    return CUR.interned[k]


def _is_num(o):
    return type(o) in (SInt, XReal, SBool) or isinstance(o, (int, float)) or hasattr(o, '__float__') and hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0


def _to_x(o):
    t = type(o)
    if t is XReal:
        return o
    if t is SInt:
        return XReal(z3.ToReal(o.e))
    if t is SBool:
        return XReal(z3.ToReal(o._i().e))
    if isinstance(o, Fraction):
        return XReal(z3.RealVal(str(o)))
    npy = hasattr(o, 'dtype')
    f = float(o)
    if f != f:
        return XReal(z3.RealVal(0), nan=True, npy=npy)
    if f in (math.inf, -math.inf):
        return XReal(z3.RealVal(0), pinf=f > 0, ninf=f < 0, npy=npy)
    return XReal(realval(o if isinstance(o, int) else f), npy=npy)


def realval(f):
    if isinstance(f, int):
        return z3.RealVal(int(f))
    fr = Fraction(f)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


class _Num:
    __slots__ = ()

    def __str__(self):
        return '<sym>'
    __repr__ = __str__

    def __format__(self, spec):
        return '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        return _unpickle, (CUR.intern(self),)

    def copy(self):
        return self

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def shape(self):
        raise AttributeError('shape')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if type(r) is SBool else not r

    # elementary functions (np object ufuncs call these by name)
    def sqrt(self):
        return CUR.f_sqrt(_to_x(self))

    def exp(self):
        return CUR.f_exp(_to_x(self))

    def log(self):
        return CUR.f_log(_to_x(self))

    def log10(self):
        return CUR.f_log(_to_x(self), 'log10')

    def sin(self):
        return CUR.f_trig(_to_x(self))[0]

    def cos(self):
        return CUR.f_trig(_to_x(self))[1]

    def isfinite(self):
        x = _to_x(self)
        return mkbool(z_not(z_or(x.nan, x.pinf, x.ninf)))

    def isnan(self):
        return mkbool(_to_x(self).nan)

    def isinf(self):
        x = _to_x(self)
        return mkbool(z_or(x.pinf, x.ninf))

    def floor(self):
        return CUR.f_floor(_to_x(self))

    def __floor__(self):
        return CUR.f_floor(_to_x(self), asint=True)

    def ceil(self):
        return -((-_to_x(self)).floor())


class SInt(_Num):
    __slots__ = ('e',)

    def __str__(self):
        return format(self, '')
    __repr__ = __str__

    def __format__(self, spec):
        from . import symtext
        r = symtext.fmt(self.e, spec) if symtext.on else None
        return '<sym>' if r is None else r

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SInt(e)

    def _o(self, o):
        """coerce: returns z3 int or None if real needed, NotImplemented if not numeric"""
        t = type(o)
        if t is SInt:
            return o.e
        if t is SBool:
            return o._i().e
        if isinstance(o, bool) or isinstance(o, int):
            return z3.IntVal(int(o))
        if hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0 and o.dtype.kind in 'iub':
            return z3.IntVal(int(o))
        if t is XReal or _is_num(o):
            return None
        return NotImplemented

    def _bin(self, o, f, name, swap=False):
        z = self._o(o)
        if z is NotImplemented:
            return NotImplemented
        if z is None:
            a, b = _to_x(self), _to_x(o)
            if swap:
                a, b = b, a
            return getattr(a, name)(b)
        return SInt.mk(f(z, self.e) if swap else f(self.e, z))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, '__add__')

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, '__add__', True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, '__sub__')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, '__sub__', True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, '__mul__')

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, '__mul__', True)

    def __truediv__(self, o):
        if self._o(o) is NotImplemented:
            return NotImplemented
        return _to_x(self).__truediv__(_to_x(o))

    def __rtruediv__(self, o):
        if self._o(o) is NotImplemented:
            return NotImplemented
        return _to_x(o).__truediv__(_to_x(self))

    def _dm(self, a, b):
        if bool(mkbool(b == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        # python floor semantics; z3 div: floor for b>0, ceil for b<0
        if bool(mkbool(b > 0)):
            return a / b, a % b
        return (-a) / (-b), -((-a) % (-b))

    def __floordiv__(self, o):
        z = self._o(o)
        if z is NotImplemented:
            return z
        if z is None:
            return _to_x(self).__floordiv__(_to_x(o))
        return SInt.mk(self._dm(self.e, z)[0])

    def __rfloordiv__(self, o):
        z = self._o(o)
        if z is NotImplemented:
            return z
        if z is None:
            return _to_x(o).__floordiv__(_to_x(self))
        return SInt.mk(self._dm(z, self.e)[0])

    def __mod__(self, o):
        z = self._o(o)
        if z is NotImplemented:
            return z
        if z is None:
            return _to_x(self).__mod__(_to_x(o))
        return SInt.mk(self._dm(self.e, z)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        z = self._o(o)
        if z is NotImplemented:
            return z
        return SInt.mk(self._dm(z, self.e)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return _to_x(self).__pow__(o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return SInt.mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt.mk(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f, name):
        z = self._o(o)
        if z is NotImplemented:
            return NotImplemented
        if z is None:
            return getattr(_to_x(self), name)(_to_x(o))
        return mkbool(f(self.e, z))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '__lt__')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '__le__')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '__eq__')

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __index__(self):
        return CUR.concretize(self.e)

    def __int__(self):
        return CUR.concretize(self.e)

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def is_integer(self):
        return True

    def __float__(self):
        return float(CUR.concretize(self.e))

    def bit_length(self):
        return self.__index__().bit_length()

    def __and__(self, o):
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __lshift__(self, o):
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> o


class XReal(_Num):
    """Extended real: a mathematical real, +inf, -inf or nan (IEEE order and special cases)."""
    __slots__ = ('v', 'nan', 'pinf', 'ninf', 'npy', 'sq')

    def __init__(self, v, nan=False, pinf=False, ninf=False, npy=False, sq=None):
        self.sq = sq  # v is the square root of sq (a z3 real known to be >= 0): comparisons use the squares
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.npy = npy

    @property
    def __class__(self):
        return float

    @staticmethod
    def mk(v, nan=False, pinf=False, ninf=False, npy=False):
        v = z3.simplify(v)
        def s(b):
            if b is True or b is False:
                return b
            return simp(b)
        return XReal(v, s(nan), s(pinf), s(ninf), npy)

    @property
    def fin(self):
        return z_not(z_or(self.nan, self.pinf, self.ninf))

    @property
    def simple(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def _ok(self, o):
        return type(o) in (XReal, SInt, SBool) or _is_num(o)

    def __add__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = _to_x(o)
        npy = self.npy or o.npy
        if self.simple and o.simple:
            return XReal.mk(self.v + o.v, npy=npy)
        nan = z_or(self.nan, o.nan, z_and(self.pinf, o.ninf), z_and(self.ninf, o.pinf))
        return XReal.mk(self.v + o.v, nan, z_and(z_or(self.pinf, o.pinf), z_not(nan)),
                        z_and(z_or(self.ninf, o.ninf), z_not(nan)), npy)
    __radd__ = __add__

    def __neg__(self):
        return XReal.mk(-self.v, self.nan, self.ninf, self.pinf, self.npy)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self + (-_to_x(o))

    def __rsub__(self, o):
        if not self._ok(o):
            return NotImplemented
        return _to_x(o) + (-self)

    def _sign(self):
        """(is positive, is negative, is zero) for non-nan"""
        return (z_or(self.pinf, z_and(self.fin, self.v > 0)), z_or(self.ninf, z_and(self.fin, self.v < 0)),
                z_and(self.fin, self.v == 0))

    def __mul__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = _to_x(o)
        npy = self.npy or o.npy
        if self.simple and o.simple:
            return XReal.mk(self.v * o.v, npy=npy)
        p1, n1, z1 = self._sign()
        p2, n2, z2 = o._sign()
        i1, i2 = z_or(self.pinf, self.ninf), z_or(o.pinf, o.ninf)
        nan = z_or(self.nan, o.nan, z_and(i1, z2), z_and(i2, z1))
        anyinf = z_and(z_or(i1, i2), z_not(nan))
        pos = z_or(z_and(p1, p2), z_and(n1, n2))
        return XReal.mk(self.v * o.v, nan, z_and(anyinf, pos), z_and(anyinf, z_not(pos)), npy)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = _to_x(o)
        npy = self.npy or o.npy
        if not npy:
            if bool(mkbool(z_and(o.fin, o.v == 0))):
                raise ZeroDivisionError('float division by zero')
            if self.simple and o.simple:
                return XReal.mk(self.v / o.v)
        if self.simple and o.simple and z3.is_rational_value(o.v) and o.v.numerator_as_long() != 0:
            r = XReal.mk(self.v / o.v, npy=npy)
            if self.sq is not None and o.v.numerator_as_long() > 0:
                r.sq = z3.simplify(self.sq / (o.v * o.v))
            return r
        p1, n1, z1 = self._sign()
        p2, n2, z2 = o._sign()
        i1, i2 = z_or(self.pinf, self.ninf), z_or(o.pinf, o.ninf)
        nan = z_or(self.nan, o.nan, z_and(i1, i2), z_and(z1, z2))
        toinf = z_and(z_not(nan), z_or(i1, z2))
        # zero divisor counts as +0 (only -0.0 would differ)
        pos = z_or(z_and(p1, z_or(p2, z2)), z_and(n1, n2))
        v = z_if(z_and(i2, z_not(i1)), z3.RealVal(0), self.v / z_if(z2, z3.RealVal(1), o.v))
        return XReal.mk(v, nan, z_and(toinf, pos), z_and(toinf, z_not(pos)), npy)

    def __rtruediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        return _to_x(o).__truediv__(self)

    def __floordiv__(self, o):
        r = self / o
        return r if r is NotImplemented else r.floor()

    def __rfloordiv__(self, o):
        return (_to_x(o) / self).floor()

    def __mod__(self, o):
        o = _to_x(o)
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _to_x(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, (int, float)) and type(o) not in (SInt, XReal) and float(o).is_integer() and abs(o) <= 8:
            k = int(abs(o))
            r = XReal(z3.RealVal(1), npy=self.npy)
            for _ in range(k):
                r = r * self
            return r if o >= 0 else XReal(z3.RealVal(1), npy=self.npy) / r
        if isinstance(o, float) and type(o) is not XReal and float(o) == 0.5:
            return self.sqrt()
        return CUR.f_pow(self, _to_x(o))

    def __rpow__(self, o):
        return CUR.f_pow(_to_x(o), self)

    def __abs__(self):
        return XReal.mk(z3.If(self.v >= 0, self.v, -self.v), self.nan, z_or(self.pinf, self.ninf), False, self.npy)

    fabs = __abs__

    def _lt(self, o):
        if self.simple and o.simple:
            if self.sq is not None or o.sq is not None:
                if o.sq is None:
                    return z3.And(o.v > 0, self.sq < o.v * o.v)
                if self.sq is None:
                    return z3.Or(self.v < 0, self.v * self.v < o.sq)
                return self.sq < o.sq
            return Lt(self.v, o.v)
        return z_and(z_not(self.nan), z_not(o.nan),
                     z_or(z_and(self.ninf, z_not(o.ninf)), z_and(o.pinf, z_not(self.pinf)),
                          z_and(self.fin, o.fin, Lt(self.v, o.v))))

    def _eq(self, o):
        if self.simple and o.simple:
            if self.sq is not None or o.sq is not None:
                if self.sq is None:
                    return o._eq(self)
                return self.sq == o.sq if o.sq is not None else z3.And(o.v >= 0, self.sq == o.v * o.v)
            return Eq(self.v, o.v)
        return z_and(z_not(self.nan), z_not(o.nan),
                     z_or(z_and(self.ninf, o.ninf), z_and(o.pinf, self.pinf),
                          z_and(self.fin, o.fin, Eq(self.v, o.v))))

    def __lt__(self, o):
        if not self._ok(o):
            return NotImplemented
        return mkbool(self._lt(_to_x(o)))

    def __gt__(self, o):
        if not self._ok(o):
            return NotImplemented
        return mkbool(_to_x(o)._lt(self))

    def __le__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = _to_x(o)
        return mkbool(z_or(self._lt(o), self._eq(o)))

    def __ge__(self, o):
        if not self._ok(o):
            return NotImplemented
        o = _to_x(o)
        return mkbool(z_or(o._lt(self), self._eq(o)))

    def __eq__(self, o):
        if not self._ok(o):
            return NotImplemented
        return mkbool(self._eq(_to_x(o)))

    def __hash__(self):
        CUR.die(Unsupported('hash of a symbolic float'))

    def __bool__(self):
        r = mkbool(z_not(z_and(self.fin, self.v == 0)))
        return bool(r)

    def __trunc__(self):
        return CUR.f_trunc(self)

    def __int__(self):
        r = CUR.f_trunc(self)
        return r if isinstance(r, int) and type(r) is not SInt else CUR.concretize(r.e)

    def __float__(self):
        s = z3.simplify(self.v)
        if self.simple and z3.is_rational_value(s):
            return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        CUR.die(Unsupported('float() of a symbolic float reached C code'))

    def __round__(self, n=None):
        if n is None:
            return CUR.f_round(self)
        CUR.die(Unsupported('round(x, n)'))

    def is_integer(self):
        return mkbool(z_and(self.fin, z3.IsInt(self.v)))

    def clip(self, lo, hi):
        return shim_min(shim_max(self, lo), hi)

    def sign(self):
        return ite(self > 0, 1.0, ite(self < 0, -1.0, 0.0))


def ite(c, a, b):
    """value-level if-then-else without forking where the operands are numeric or boolean"""
    if type(c) is not SBool:
        return a if c else b
    if a is b:
        return a
    sy = (SInt, XReal, SBool)
    if isinstance(a, bool) and isinstance(b, bool):
        return mkbool(z3.If(c.e, _b(a), _b(b)))
    if isinstance(a, int) and isinstance(b, int):
        za = a.e if type(a) is SInt else (a._i().e if type(a) is SBool else z3.IntVal(int(a)))
        zb = b.e if type(b) is SInt else (b._i().e if type(b) is SBool else z3.IntVal(int(b)))
        return SInt.mk(z3.If(c.e, za, zb))
    if _is_num(a) and _is_num(b):
        a, b = _to_x(a), _to_x(b)
        return XReal.mk(z3.If(c.e, a.v, b.v), z_if_b(c.e, a.nan, b.nan), z_if_b(c.e, a.pinf, b.pinf),
                        z_if_b(c.e, a.ninf, b.ninf), a.npy or b.npy)
    return a if bool(c) else b


def is_sym(x):
    return type(x) in (SInt, XReal, SBool)


def shim_min(*a, **k):
    return _minmax(a, k, lambda x, m: x < m, min)


def shim_max(*a, **k):
    return _minmax(a, k, lambda x, m: x > m, max)


def _minmax(a, k, better, real):
    items = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(is_sym(i) for i in items) or not all(_is_num(i) for i in items):
        return real(items, **k) if len(a) == 1 else real(*items, **k)
    m = items[0]
    for x in items[1:]:
        m = ite(better(x, m), x, m)
    return m


class Explorer:
    """Depth-first exploration of all feasible paths of ``fn(S)``."""

    def __init__(self, fn, S, deadline=None, max_paths=10 ** 9, query_timeout_ms=20000, seed=1, path_cpu=0):
        self.fn = fn
        self.S = S
        self.deadline = deadline
        self.max_paths = max_paths
        self.qt = query_timeout_ms
        self.seed = seed
        # statistics
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_time = 0.0
        self.incomplete = []  # reasons
        self.endless = False
        self.path_cpu = path_cpu  # a path which takes longer is given up, and tried on the real code
        if path_cpu:
            signal.signal(signal.SIGPROF, lambda *a: self.die(Endless()))
        self.cex = []  # dicts
        self.covers = {}
        self.checks = {}  # label -> number of discharged
        self.samples = []  # (values, observations)
        self.sample_seen = 0
        self.exhausted = False
        self.inconclusive = []
        self.max_cex = 6
        self.sample_cap = 24

    # ---- path state
    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.qt)
        self.solver.set('random_seed', self.seed)
        self.model = None
        self.vars = {}
        self.counts = {}
        self.interned = []
        self.fterms = {}
        self.known = {}  # branch conditions already decided on this path
        self.approx = False
        self.observed = []
        self.path_labels = []
        self.dead = None

    def die(self, exc):
        # the code under test may swallow a BaseException (return inside finally): remember that the path is over
        self.dead = exc
        raise exc

    def intern(self, x):
        self.interned.append(x)
        return len(self.interned) - 1

    def _check(self, *extra):
        if self.dead is not None:
            raise self.dead
        if self.deadline and time.monotonic() > self.deadline:
            self.die(Budget())
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.solver_time += time.monotonic() - t
        self.queries += 1
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.unknown:
            self.unknown += 1
        return r

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                self.die(PathAbort())
        return self.model

    def add(self, e):
        if e is True:
            return
        if e is False:
            self.die(PathAbort())
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def assume(self, c):
        if not is_sym(c):
            if not c:
                self.die(PathAbort())
            return
        e = c.e
        self.add(e)
        if len(self.trace) < len(self.prefix):
            return
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.die(PathAbort())
            if r == z3.sat:
                self.model = self.solver.model()

    def branch(self, e):
        if self.dead is not None:
            raise self.dead
        e = simp(e)
        if e is True or e is False:
            return e
        key = e.get_id()
        if key in self.known:
            return self.known[key][0]
        d = self._branch(e)
        self.known[key] = (d, e)
        return d

    def _branch(self, e):
        i = len(self.trace)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.trace.append((d, forced))
            if not forced:
                self.add(e if d else Not(e))
            return d
        self.decisions += 1
        m = self._get_model()
        if m is None:  # unknown: try both
            d = True
            other = z3.sat
        else:
            d = z3.is_true(m.eval(e, model_completion=True))
            other = self._check(Not(e) if d else e)
        if other == z3.unsat:
            self.trace.append((d, True))
            return d
        self.work.append(self.trace + [(not d, False)])
        self.trace.append((d, False))
        self.add(e if d else Not(e))
        return d

    def concretize(self, e):
        while True:
            e = z3.simplify(e)
            if z3.is_int_value(e):
                return e.as_long()
            i = len(self.trace)
            # value choice must be reproducible on re-execution: store it in the trace
            if i < len(self.prefix):
                d, v = self.prefix[i]
                v = v[1]
            else:
                m = self._get_model()
                if m is None:
                    raise Unsupported('concretize under unknown')
                v = m.eval(e, model_completion=True).as_long()
            d = self._branch_val(e, v)
            if d:
                return v

    def _branch_val(self, e, v):
        i = len(self.trace)
        c = e == v
        if i < len(self.prefix):
            d, (forced, _) = self.prefix[i]
            self.trace.append((d, (forced, v)))
            if not forced:
                self.add(c if d else z3.Not(c))
            return d
        self.decisions += 1
        other = self._check(z3.Not(c))
        if other == z3.unsat:
            self.trace.append((True, (True, v)))
            return True
        self.work.append(self.trace + [(False, (False, v))])
        self.trace.append((True, (False, v)))
        self.add(c)
        return True

    def fork(self, n):
        """free n-way choice over a fresh variable: every value is feasible, so no query is needed"""
        if self.dead is not None:
            raise self.dead
        if self.deadline and time.monotonic() > self.deadline:
            self.die(Budget())
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i][0]
        else:
            self.decisions += 1
            k = 0
            for j in range(n - 1, 0, -1):
                self.work.append(self.trace + [(j, 'fork')])
        self.trace.append((k, 'fork'))
        return k

    # ---- variables
    def name(self, base):
        k = self.counts.get(base, 0)
        self.counts[base] = k + 1
        return base if k == 0 else f'{base}#{k}'

    def values_from(self, model):
        out = {}
        for n, (kind, terms) in self.vars.items():
            if kind == 'int':
                out[n] = model.eval(terms, model_completion=True).as_long()
            elif kind == 'bool':
                out[n] = z3.is_true(model.eval(terms, model_completion=True))
            else:
                x = terms
                out[n] = self.eval_x(x, model)
        return out

    def eval_x(self, x, model):
        def t(b):
            if b is True or b is False:
                return b
            return z3.is_true(model.eval(b, model_completion=True))
        if t(x.nan):
            return math.nan
        if t(x.pinf):
            return math.inf
        if t(x.ninf):
            return -math.inf
        v = model.eval(x.v, model_completion=True)
        return z3_to_float(v)

    def eval_any(self, v, model):
        t = type(v)
        if t is SInt:
            r = model.eval(v.e, model_completion=True)
            return r.as_long() if z3.is_int_value(r) else None
        if t is SBool:
            return z3.is_true(model.eval(v.e, model_completion=True))
        if t is XReal:
            return self.eval_x(v, model)
        if isinstance(v, dict):
            return {str(k): self.eval_any(x, model) for k, x in v.items()}
        if isinstance(v, (list, tuple)) or (hasattr(v, 'tolist') and hasattr(v, 'dtype') and getattr(v, 'ndim', 0) > 0):
            return [self.eval_any(x, model) for x in v]
        if hasattr(v, 'item') and hasattr(v, 'dtype'):
            return v.item()
        if isinstance(v, (set, frozenset)):
            return sorted(self.eval_any(x, model) for x in v)
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        return str(type(v).__name__)

    # ---- uninterpreted / axiomatised functions
    def _fresh(self, base):
        n = self.name('~' + base)
        return z3.Real(n)

    def f_sqrt(self, x):
        if not x.npy and bool(mkbool(z_or(x.ninf, z_and(x.fin, x.v < 0)))):
            if True:
                # math domain error for math.sqrt, nan for numpy: shims decide, numpy is the default here
                return XReal(z3.RealVal(0), nan=True, npy=True)
        sv = z3.simplify(x.v)
        if z3.is_rational_value(sv):
            fr = Fraction(sv.numerator_as_long(), sv.denominator_as_long())
            if fr >= 0:
                a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
                if a * a == fr.numerator and b * b == fr.denominator:
                    return XReal(z3.RealVal(str(Fraction(a, b))), x.nan, x.pinf, False, True)
        key = ('sqrt', sv.sexpr())
        if key not in self.fterms:
            y = self._fresh('sqrt')
            self.add(z3.Implies(sv >= 0, z3.And(y >= 0, y * y == sv)))
            self.model = None
            self.fterms[key] = y
        y = self.fterms[key]
        if x.simple and self.nonneg(sv):
            return XReal(y, npy=True, sq=sv)
        return XReal.mk(y, z_or(x.nan, x.ninf, z_and(x.fin, x.v < 0)), x.pinf, False, True)

    def nonneg(self, sv):
        key = ('nonneg', sv.sexpr())
        if key not in self.fterms:
            self.fterms[key] = self._check(sv < 0) == z3.unsat
        return self.fterms[key]

    def _mono(self, fam, x, base, axioms):
        """fresh y = f(x) for a strictly increasing f, consistent with the previous applications on this path"""
        sv = z3.simplify(x)
        key = (fam, sv.sexpr())
        if key in self.fterms:
            return self.fterms[key][1]
        self.approx = True
        y = self._fresh(base)
        for (f, _), (px, py) in [(k, v) for k, v in self.fterms.items() if k[0] == fam]:
            self.add(z3.And(z3.Implies(px < sv, py < y), z3.Implies(sv < px, y < py), z3.Implies(sv == px, y == py)))
        for a in axioms(sv, y):
            self.add(a)
        # exp and log are inverse of one another (and exp turns multiples into powers)
        if fam in ('exp', 'log'):
            for (f, _), (px, py) in [(k, v) for k, v in self.fterms.items()
                                                                   if k[0] == ('log' if fam == 'exp' else 'exp')]:
                (e_arg, e_val), (l_arg, l_val) = ((sv, y), (px, py)) if fam == 'exp' else ((px, py), (sv, y))
                w = l_arg
                for n in (1, 2, 3):
                    t = n * l_val
                    self.add(z3.Implies(l_arg > 0, z3.And(z3.Implies(e_arg == t, e_val == w),
                                                          z3.Implies(e_arg < t, e_val < w),
                                                          z3.Implies(e_arg > t, e_val > w))))
                    w = w * l_arg
        self.model = None
        self.fterms[key] = (sv, y)
        return y

    def f_exp(self, x):
        y = self._mono('exp', x.v, 'exp', lambda v, y: [y > 0, y >= 1 + v, z3.Implies(v == 0, y == 1),
                                                        z3.Implies(v < 0, y < 1)] + self._exp_anchors(v, y))
        return XReal.mk(z_if(x.ninf, z3.RealVal(0), y), x.nan, x.pinf, False, True)

    def _exp_anchors(self, v, y):
        # numeric anchors of exp at multiples of log(1/2), good to 1e-8
        out = []
        for k in (1, 2, 3):
            a, b = realval(k * math.log(0.5)), realval(0.5 ** k)
            e = z3.RealVal('1/100000000')
            out += [z3.Implies(v <= a + e, y <= b + e), z3.Implies(v >= a - e, y >= b - e)]
        return out

    def f_log(self, x, fam='log'):
        y = self._mono(fam, x.v, fam, lambda v, y: [z3.Implies(v == 1, y == 0), z3.Implies(v > 0, y <= v - 1)]
                       if fam == 'log' else [z3.Implies(v == 1, y == 0), z3.Implies(v == 10, y == 1)])
        neg = z_and(x.fin, x.v < 0)
        zero = z_and(x.fin, x.v == 0)
        return XReal.mk(y, z_or(x.nan, neg, x.ninf), x.pinf, zero, True)

    def f_trig(self, x):
        sv = z3.simplify(x.v)
        key = ('trig', sv.sexpr())
        if key not in self.fterms:
            self.approx = True
            s, c = self._fresh('sin'), self._fresh('cos')
            self.add(z3.And(s >= -1, s <= 1, c >= -1, c <= 1, s * s + c * c == 1,
                            z3.Implies(sv == 0, z3.And(s == 0, c == 1))))
            self.model = None
            self.fterms[key] = (s, c)
        s, c = self.fterms[key]
        bad = z_or(x.nan, x.pinf, x.ninf)
        return XReal.mk(s, bad, npy=True), XReal.mk(c, bad, npy=True)

    def f_pow(self, a, b):
        sa, sb = z3.simplify(a.v), z3.simplify(b.v)
        if z3.is_rational_value(sb):
            fr = Fraction(sb.numerator_as_long(), sb.denominator_as_long())
            if fr.denominator == 1 and abs(fr) <= 8:
                return a ** int(fr)
            if fr == Fraction(1, 2):
                return a.sqrt()
        key = ('pow', sa.sexpr() + '^' + sb.sexpr())
        if key not in self.fterms:
            self.approx = True
            y = self._fresh('pow')
            self.add(z3.And(z3.Implies(sa > 0, y > 0), z3.Implies(z3.And(sa == 0, sb > 0), y == 0),
                            z3.Implies(sb == 0, y == 1), z3.Implies(sa == 1, y == 1),
                            z3.Implies(z3.And(sa >= 0, sa <= 1, sb >= 0), y <= 1),
                            z3.Implies(z3.And(sa >= 1, sb >= 0), y >= 1),
                            z3.Implies(sb == 1, y == sa)))
            self.model = None
            self.fterms[key] = y
        return XReal.mk(self.fterms[key], z_or(a.nan, b.nan, z_and(a.fin, a.v < 0)), a.pinf, False, a.npy or b.npy)

    def f_floor(self, x, asint=False):
        if asint:
            return SInt.mk(z3.ToInt(x.v))
        return XReal.mk(z3.ToReal(z3.ToInt(x.v)), x.nan, x.pinf, x.ninf, x.npy)

    def f_trunc(self, x):
        if bool(mkbool(x.nan)):
            raise ValueError('cannot convert float NaN to integer')
        if bool(mkbool(z_or(x.pinf, x.ninf))):
            raise OverflowError('cannot convert float infinity to integer')
        return SInt.mk(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)))

    def f_round(self, x):
        f = z3.ToInt(x.v)
        d = x.v - z3.ToReal(f)
        h = z3.RealVal('1/2')
        return SInt.mk(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    # ---- property side
    def grid_model(self, *extra):
        """A model of the current path (plus extra) whose reals are dyadic where possible, so that the floats the
        replay uses are exactly the solver's values."""
        base = list(extra)
        reals = [t.v for k, t in self.vars.values() if k == 'real']
        if reals:
            for den, lim in ((1, 1000), (8, 10 ** 5), (1024, 10 ** 6), (2 ** 20, 10 ** 9)):
                cons = []
                for i, r in enumerate(reals):
                    cons += [z3.IsInt(r * den), r <= lim, r >= -lim]
                self.solver.push()
                self.solver.set('timeout', 3000)
                try:
                    if self._check(*(base + cons)) == z3.sat:
                        return self.solver.model()
                finally:
                    self.solver.pop()
                    self.solver.set('timeout', self.qt)
        if self._check(*base) == z3.sat:
            return self.solver.model()
        return None

    def record_cex(self, label, model, kind, detail=''):
        n = sum(1 for c in self.cex if c['label'] == label)
        self.cex_total = getattr(self, 'cex_total', 0) + 1
        if n >= self.max_cex or model is None:
            if model is None:
                self.inconclusive.append(f'{label}: no model')
            return
        self.cex.append({'label': label, 'kind': kind, 'detail': detail, 'values': self.values_from(model),
                         'approx': self.approx})

    def check(self, cond, label, **info):
        if self.dead is not None:
            raise self.dead
        self.path_labels.append(label)
        if not is_sym(cond):
            self.checks[label] = self.checks.get(label, 0) + 1
            if not cond:
                self.record_cex(label, self.grid_model(), 'check')
                self.die(PathAbort())
            return
        e = _b(cond if type(cond) is SBool else mkbool(z_not(z_and(_to_x(cond).v == 0))))
        r = self._check(z3.Not(e))
        if r == z3.unsat:
            self.checks[label] = self.checks.get(label, 0) + 1
            return
        if r == z3.unknown:
            self.inconclusive.append(f'{label}: solver unknown')
            self.add(e)
            return
        self.record_cex(label, self.grid_model(z3.Not(e)), 'check')
        self.add(e)
        self.model = None
        self._get_model()

    # ---- main loop
    def run(self, work=None, until=None):
        """explore from the given path prefixes; after `until` the unexplored prefixes are left in self.left"""
        global CUR
        prev = CUR
        CUR = self
        self.work = [[]] if work is None else list(work)
        self.left = []
        try:
            while self.work:
                if until is not None and time.monotonic() > until and self.paths + self.aborted:
                    self.left, self.work = self.work, []
                    return self
                if self.paths + self.aborted >= self.max_paths:
                    self.incomplete.append('path budget')
                    return self
                if self.deadline and time.monotonic() > self.deadline:
                    self.incomplete.append('time budget')
                    return self
                self._reset(self.work.pop())
                try:
                    try:
                        if self.path_cpu:
                            signal.setitimer(signal.ITIMER_PROF, self.path_cpu)
                        self.fn(self.S)
                    except Exception:
                        if self.dead is None:
                            raise
                    finally:
                        if self.path_cpu:
                            signal.setitimer(signal.ITIMER_PROF, 0)
                    if self.dead is not None:
                        raise self.dead
                    self._end_path()
                except Endless:
                    self.dead = None
                    self._incomplete('a path which does not end', endless=True)
                    self.endless = True
                    return self
                except PathAbort:
                    self.aborted += 1
                except Unsupported as e:
                    self.aborted += 1
                    self._incomplete(f'unsupported: {e}')
                except Budget:
                    self.incomplete.append('time budget')
                    return self
                except RecursionError:
                    raise
                except Exception as e:
                    self.aborted += 1
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb][-1]
                    lab = getattr(self.S, 'exc_label', None) or 'no-unexpected-exception'
                    self.record_cex(lab, self.grid_model(), 'exception',
                                    f'{type(e).__name__}: {e} @ {where.filename}:{where.lineno}')
                finally:
                    self.S.cleanup()
            self.exhausted = True
            return self
        finally:
            CUR = prev

    def _incomplete(self, why, **k):
        self.incomplete.append(why)
        try:
            m = self.grid_model()
        except BaseException:
            m = None
        if m is not None and len([s for s in self.samples if s.get('incomplete')]) < 40:
            self.samples.append(dict({'values': self.values_from(m), 'observed': None, 'incomplete': why}, **k))

    def _end_path(self):
        self.paths += 1
        self.sample_seen += 1
        # geometric spread of the sampled paths
        k = self.sample_seen
        if k <= 8 or (k & (k - 1)) == 0 or (k % 97 == 0 and len(self.samples) < self.sample_cap):
            m = self.grid_model()
            if m is not None:
                self.samples.append({'values': self.values_from(m), 'approx': self.approx,
                                     'observed': [(l, self.eval_any(v, m)) for l, v in self.observed]})


def z3_to_float(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        if z3.is_int_value(v):
            return float(v.as_long())
        fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
        try:
            return fr.numerator / fr.denominator
        except OverflowError:
            return math.inf if fr > 0 else -math.inf
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Unsupported(f'model value {v}')
