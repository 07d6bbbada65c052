"""Symbolic scalars (mathematical integers and reals with a NaN flag)."""
from fractions import Fraction
import math
import numbers
import numpy as _np
import z3


class Unsupported(BaseException):
    """The construct is outside the verifier's reach (never a violation)."""


class Sym(object):
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic value to ndarray')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def zreal(x):
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x.is_integer():
            return z3.RealVal(int(x))
        fr = Fraction(repr(x))
        return z3.RealVal(fr)
    return z3.RealVal(x)


def z_or(*xs):
    xs = [x for x in xs if x is not None and not z3.is_false(x)]
    if not xs:
        return None
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def z_and(*xs):
    xs = [x for x in xs if x is not None and not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def z_not(x):
    if x is None:
        return TRUE
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def is_pynum(x):
    return isinstance(x, (int, float, _np.integer, _np.floating, bool,
                          _np.bool_)) and not isinstance(x, Sym)


def is_pycplx(x):
    return isinstance(x, (complex, _np.complexfloating))


def lift(x):
    """number -> SNum/SBool/SCplx"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return SBool(z3.BoolVal(bool(x)))
    if isinstance(x, (int, _np.integer)):
        return SNum(z3.IntVal(int(x)))
    if isinstance(x, (float, _np.floating)):
        if math.isnan(x):
            return SNum(z3.RealVal(0), TRUE)
        if math.isinf(x):
            return SExt(SNum(z3.RealVal(0)), z3.BoolVal(bool(x < 0)),
                        z3.BoolVal(bool(x > 0)))
        return SNum(zreal(x))
    if is_pycplx(x):
        return SCplx(lift(float(x.real)), lift(float(x.imag)))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, Fraction):
        return SNum(z3.RealVal(x))
    raise Unsupported('cannot lift %r' % type(x))


def num(x):
    """anything numeric -> SNum"""
    x = lift(x)
    if isinstance(x, SBool):
        return SNum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SNum):
        return x
    if isinstance(x, SExt):
        raise Unsupported('infinity')
    raise Unsupported('number expected, got %r' % type(x))


def toreal(t):
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def _coerce(a, b):
    if a.t.sort() != b.t.sort():
        return toreal(a.t), toreal(b.t)
    return a.t, b.t


def _defer(o):
    return getattr(o, '_is_sarray', False) or isinstance(o, STime)


def is_const(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def const_of(t):
    if z3.is_int_value(t):
        return t.as_long()
    fr = t.as_fraction()
    return fr


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        from .engine import E
        return E.decide(self.t)

    def _o(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return z3.BoolVal(bool(o))
        if isinstance(o, SBool):
            return o.t
        return None

    def __and__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SBool(z_and(self.t, t))
    __rand__ = __and__

    def __or__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SBool(z_or(self.t, t) if z_or(self.t, t) is not None
                     else FALSE)
    __ror__ = __or__

    def __xor__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return SBool(z3.Xor(self.t, t))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z_not(self.t))

    def __eq__(self, o):
        t = self._o(o)
        if t is None:
            if is_pynum(o) or isinstance(o, SNum):
                return num(self) == o
            return NotImplemented
        return SBool(self.t == t)

    def __ne__(self, o):
        t = self._o(o)
        if t is None:
            if is_pynum(o) or isinstance(o, SNum):
                return num(self) != o
            return NotImplemented
        return SBool(self.t != t)

    def __hash__(self):
        return self.t.hash()

    def _arith(self, o, op, r=False):
        if _defer(o):
            return NotImplemented
        a, b = num(self), o
        return getattr(a, ('__r%s__' if r else '__%s__') % op)(b)

    def __repr__(self):
        return 'SBool(%s)' % self.t


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    def _mk(op):
        return (lambda self, o: self._arith(o, op),
                lambda self, o: self._arith(o, op, True))
    _f, _r = _mk(_op)
    setattr(SBool, '__%s__' % _op, _f)
    setattr(SBool, '__r%s__' % _op, _r)


def floordiv(a, b):
    """Python floor division on integer terms."""
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    # z3: a == b*div + mod, 0<=mod<|b| ; python floors
    q = a / b
    return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1))


class SNum(Sym):
    """term t of sort Int or Real; nan: Bool term or None (= never NaN)."""

    pyf = False     # result of float(): division by zero raises

    def __init__(self, t, nan=None):
        self.t = t
        if nan is not None and z3.is_false(nan):
            nan = None
        self.nan = nan

    # -- numpy scalar-ish attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    @property
    def dtype(self):
        return _np.dtype('int64' if self.is_int else 'float64')

    def copy(self):
        return self

    def item(self):
        return self

    def all(self):
        return SBool(z_or(self.t != 0, self.nan))
    any = all

    @property
    def real(self):
        return self

    def conj(self):
        return self

    def is_integer(self):
        return SBool(z_and(z3.IsInt(toreal(self.t)), z_not(self.nan)))

    def astype(self, t):
        from . import builtins_shim as b
        return b.sint(self) if _np.dtype(t).kind == 'i' else self

    def _bin(self, o, f, swap=False, cmp=False):
        if _defer(o):
            return NotImplemented
        if isinstance(o, SCplx) or is_pycplx(o):
            a = SCplx(self, lift(0.))
            return NotImplemented if cmp else None
        try:
            o = num(o)
        except Unsupported:
            if isinstance(o, (str, type(None), list, tuple, dict)):
                return NotImplemented
            raise
        a, b = (o, self) if swap else (self, o)
        x, y = _coerce(a, b)
        if cmp and x.sort() == z3.RealSort():
            from .mathfun import poly_cmp
            t = poly_cmp(f, x, y)
            if t is not None:
                return t, z_or(a.nan, b.nan)
        return f(x, y), z_or(a.nan, b.nan)

    def _ar(self, o, f, swap=False):
        r = self._bin(o, f, swap)
        if r is NotImplemented:
            return r
        return SNum(*r)

    def __add__(self, o):
        if isinstance(o, SCplx) or is_pycplx(o):
            return SCplx(self, num(0.)) + o
        if is_pynum(o) and o == 0 and not isinstance(o, float):
            return self
        return self._ar(o, lambda a, b: a + b)

    def __radd__(self, o):
        if is_pynum(o) and o == 0 and not isinstance(o, float):
            return self
        if is_pycplx(o):
            return SCplx(self, num(0.)) + o
        return self._ar(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinstance(o, SCplx) or is_pycplx(o):
            return SCplx(self, num(0.)) - o
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if is_pycplx(o):
            return lift(o) - SCplx(self, num(0.))
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o.__mul__(self)  # list repetition
        if isinstance(o, SCplx) or is_pycplx(o):
            return SCplx(self, num(0.)) * o
        return self._ar(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from .arrays import SList
            if len(o) == 1:
                v = o[0]
                return SList(self, lambda k: v)
            raise Unsupported('list repetition')
        if is_pycplx(o):
            return SCplx(self, num(0.)) * o
        return self._ar(o, lambda a, b: a * b, True)

    @staticmethod
    def _div(a, b):
        x, y = toreal(a.t), toreal(b.t)
        nan = z_or(a.nan, b.nan)
        if is_const(y):
            if const_of(y) == 0:
                return SNum(z3.RealVal(0), TRUE)
        else:
            nan = z_or(nan, y == 0)
        return SNum(x / y, nan)

    def __truediv__(self, o):
        if _defer(o):
            return NotImplemented
        if isinstance(o, SCplx) or is_pycplx(o):
            return SCplx(self, num(0.)) / o
        return self._div(self, num(o))

    def __rtruediv__(self, o):
        if _defer(o):
            return NotImplemented
        if is_pycplx(o):
            return lift(o) / self
        if self.pyf and type(o) in (int, float):
            # both operands are Python floats
            from .engine import E
            if E.decide(self.t == 0):
                raise ZeroDivisionError('float division by zero')
        return self._div(num(o), self)

    @staticmethod
    def _fdiv(a, b):
        if a.is_int and b.is_int:
            nan = z_or(a.nan, b.nan)
            return SNum(floordiv(a.t, b.t), nan)
        q = SNum._div(a, b)
        return SNum(z3.ToReal(z3.ToInt(q.t)), q.nan)

    def __floordiv__(self, o):
        if _defer(o):
            return NotImplemented
        return self._fdiv(self, num(o))

    def __rfloordiv__(self, o):
        if _defer(o):
            return NotImplemented
        return self._fdiv(num(o), self)

    @staticmethod
    def _fmod(a, b):
        if a.is_int and b.is_int:
            if z3.is_int_value(b.t) and b.t.as_long() > 0:
                return SNum(a.t % b.t, z_or(a.nan, b.nan))
            return SNum(a.t - b.t * floordiv(a.t, b.t), z_or(a.nan, b.nan))
        q = SNum._fdiv(a, b)
        return SNum(toreal(a.t) - toreal(b.t) * q.t, q.nan)

    def __mod__(self, o):
        if _defer(o):
            return NotImplemented
        return self._fmod(self, num(o))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        if _defer(o):
            return NotImplemented
        return self._fmod(num(o), self)

    def __pow__(self, o):
        if is_pynum(o):
            if float(o).is_integer() and abs(o) <= 6:
                n = int(o)
                if n == 0:
                    return num(1)
                r = self
                for _ in range(abs(n) - 1):
                    r = r * self
                return r if n > 0 else 1 / r
            if o == 0.5:
                from .mathfun import ssqrt
                return ssqrt(self)
        o = num(o) if not _defer(o) else o
        if _defer(o):
            return NotImplemented
        from .mathfun import uf
        return uf('pow', self, o)

    def __rpow__(self, o):
        from .mathfun import uf
        if is_pynum(o) and o == 2 and self.is_int:
            return uf('pow2', self)
        if _defer(o):
            return NotImplemented
        return uf('pow', num(o), self)

    def __neg__(self):
        return SNum(-self.t, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.t >= 0, self.t, -self.t), self.nan)

    def _cmp(self, o, f):
        if isinstance(o, SExt) or _isinf(o):
            return SExt.of(self)._cmp(o, f)
        r = self._bin(o, f, cmp=True)
        if r is NotImplemented:
            return r
        return SBool(z_and(z_not(r[1]) if r[1] is not None else TRUE, r[0]))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return True
        r = self._bin(o, lambda a, b: a != b, cmp=True)
        if r is NotImplemented:
            return r
        x = z_or(r[1], r[0])
        return SBool(FALSE if x is None else x)

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        from .engine import E
        return E.decide(z_or(self.t != 0, self.nan))

    def _concrete(self):
        t = z3.simplify(self.t)
        if self.nan is None and is_const(t):
            return const_of(t)
        from .engine import E
        c = E.unique_value(self.t)
        if c is not None and self.nan is None:
            return c
        return None

    def __index__(self):
        c = self._concrete()
        if c is None or not self.is_int:
            raise Unsupported('symbolic value used as a concrete index')
        return int(c)

    def __int__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported('int() of a symbolic value outside the code '
                              'under contract')
        return int(c)

    def __float__(self):
        c = self._concrete()
        if c is None:
            raise Unsupported('float() of a symbolic value outside the code '
                              'under contract')
        return float(c)

    def __floor__(self):
        from .mathfun import sfloor
        return sfloor(self)

    def __ceil__(self):
        from .mathfun import sceil
        return sceil(self)

    def __round__(self, n=None):
        from .mathfun import sround
        return sround(self, n)

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return 'SNum(%s%s)' % (self.t, '' if self.nan is None else
                               ' nan:%s' % self.nan)


def _isinf(o):
    return isinstance(o, (float, _np.floating)) and math.isinf(o)


class SExt(Sym):
    """number that may be infinite: x (finite or NaN) unless neg or pos.
    Only selection, comparison and the position of the extremum are
    defined; everything else is out of reach."""
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, x, neg, pos):
        self.x, self.neg, self.pos = x, neg, pos

    @staticmethod
    def of(o):
        o = lift(o)
        return o if isinstance(o, SExt) else SExt(num(o), FALSE, FALSE)

    @property
    def nan(self):
        if self.x.nan is None:
            return None
        return z_and(self.x.nan, z_not(self.neg), z_not(self.pos))

    @property
    def inf(self):
        return SBool(z3.simplify(z3.Or(self.neg, self.pos)))

    dtype = _np.dtype('float64')

    def __neg__(self):
        return SExt(-self.x, self.pos, self.neg)

    def _cmp(self, o, f):
        """compares (rank, value): -inf, finite, +inf"""
        o = SExt.of(o)
        z, one = z3.RealVal(0), z3.RealVal(1)

        def key(e):
            return (z3.If(e.neg, -one, z3.If(e.pos, one, z)), z3.If(
                z3.Or(e.neg, e.pos), z, toreal(e.x.t)))
        (a, x), (b, y) = key(self), key(o)
        t = z3.simplify(z3.If(a == b, f(x, y), f(a, b)))
        nan = z_or(self.nan, o.nan)
        return SBool(t if nan is None else z3.And(z3.Not(nan), t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SExt'

    def __getattr__(self, name):
        if name.startswith('__') or name == '_is_sarray':
            raise AttributeError(name)
        raise Unsupported('infinity')


class SCplx(Sym):
    def __init__(self, re, im):
        self.re, self.im = num(re), num(im)
    ndim = 0
    shape = ()

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def nan(self):
        return z_or(self.re.nan, self.im.nan)

    def conj(self):
        return SCplx(self.re, -self.im)
    conjugate = conj

    @staticmethod
    def _c(o):
        o = lift(o)
        if isinstance(o, SCplx):
            return o
        return SCplx(num(o), num(0.))

    def __add__(self, o):
        if _defer(o):
            return NotImplemented
        o = self._c(o)
        return SCplx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        if _defer(o):
            return NotImplemented
        o = self._c(o)
        return SCplx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        if _defer(o):
            return NotImplemented
        return self._c(o) - self

    def __mul__(self, o):
        if _defer(o):
            return NotImplemented
        o = lift(o)
        if isinstance(o, (SNum, SBool)):
            o = num(o)
            return SCplx(self.re * o, self.im * o)
        return SCplx(self.re * o.re - self.im * o.im,
                     self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _defer(o):
            return NotImplemented
        o = lift(o)
        if isinstance(o, (SNum, SBool)):
            o = num(o)
            return SCplx(self.re / o, self.im / o)
        d = o.re * o.re + o.im * o.im
        n = self * o.conj()
        return SCplx(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        if _defer(o):
            return NotImplemented
        return self._c(o) / self

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def __abs__(self):
        from .mathfun import ssqrt
        return ssqrt(self.re * self.re + self.im * self.im)

    def __pow__(self, o):
        if is_pynum(o) and float(o).is_integer() and 1 <= o <= 4:
            r = self
            for _ in range(int(o) - 1):
                r = r * self
            return r
        raise Unsupported('complex power')

    def __eq__(self, o):
        o = self._c(o)
        return (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash((self.re, self.im))


class STime(Sym):
    """A point in time (seconds, mathematical real): contract of UTCDateTime.
    """

    def __init__(self, t):
        self.s = num(t) if not isinstance(t, STime) else t.s

    @property
    def timestamp(self):
        return SNum(toreal(self.s.t), self.s.nan)

    def _o(self, o):
        if isinstance(o, STime):
            return o.s
        if hasattr(o, 'timestamp') and not isinstance(o, Sym):
            return num(o.timestamp)
        return None

    def __add__(self, o):
        if _defer(o) and not isinstance(o, STime):
            return NotImplemented
        return STime(self.s + num(o))
    __radd__ = __add__

    def __sub__(self, o):
        if getattr(o, '_is_sarray', False):
            return NotImplemented
        t = self._o(o)
        if t is not None:
            return self.s - t
        return STime(self.s - num(o))

    def __rsub__(self, o):
        t = self._o(o)
        if t is None:
            return NotImplemented
        return t - self.s

    def _cmp(self, o, op):
        if getattr(o, '_is_sarray', False):
            return NotImplemented
        t = self._o(o)
        if t is None:
            try:
                t = num(o)
            except Unsupported:
                return NotImplemented
        return getattr(self.s, op)(t)

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, '__ne__')

    def __hash__(self):
        return hash(self.s)

    def __format__(self, spec):
        return '<symtime>'

    def __repr__(self):
        return 'STime(%s)' % self.s.t


def ite(c, a, b):
    """scalar if-then-else without forking"""
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if isinstance(c, SNum):
        c = c != 0
    ct = c.t
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if a is b:
        return a
    if isinstance(a, STime) or isinstance(b, STime):
        return STime(ite(c, a.s, b.s))
    a, b = lift(a), lift(b)
    if isinstance(a, SExt) or isinstance(b, SExt):
        a, b = SExt.of(a), SExt.of(b)
        x = b.x if z3.is_true(z3.simplify(z3.Or(a.neg, a.pos))) else (
            a.x if z3.is_true(z3.simplify(z3.Or(b.neg, b.pos)))
            else ite(c, a.x, b.x))
        return SExt(x, z3.simplify(z3.If(ct, a.neg, b.neg)),
                    z3.simplify(z3.If(ct, a.pos, b.pos)))
    if isinstance(a, SCplx) or isinstance(b, SCplx):
        a, b = SCplx._c(a), SCplx._c(b)
        return SCplx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(z3.If(ct, a.t, b.t))
    a, b = num(a), num(b)
    x, y = _coerce(a, b)
    if x.eq(y):
        t = x
    else:
        t = z3.If(ct, x, y)
    na, nb = a.nan, b.nan
    if na is None and nb is None:
        nan = None
    else:
        na = FALSE if na is None else na
        nb = FALSE if nb is None else nb
        if na.eq(nb):
            nan = na
        else:
            nan = z_or(z_and(ct, na), z_and(z_not(ct), nb))
    return SNum(t, nan)


def nan_of(x):
    n = getattr(x, 'nan', None)
    return SBool(FALSE if n is None else n)


def denan(x):
    """value with the NaN flag dropped"""
    x = lift(x)
    if isinstance(x, SNum):
        return SNum(x.t)
    return x


def same(a, b):
    """exact equality with NaN == NaN  -> SBool"""
    if isinstance(a, STime) or isinstance(b, STime):
        a = STime(a) if not isinstance(a, STime) else a
        return a == b
    a, b = lift(a), lift(b)
    if isinstance(a, SCplx) or isinstance(b, SCplx):
        a, b = SCplx._c(a), SCplx._c(b)
        return same(a.re, b.re) & same(a.im, b.im)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(a.t == b.t)
    a, b = num(a), num(b)
    x, y = _coerce(a, b)
    if a.nan is None and b.nan is None:
        return SBool(x == y)
    na = FALSE if a.nan is None else a.nan
    nb = FALSE if b.nan is None else b.nan
    return SBool(z3.And(na == nb, z3.Or(na, x == y)))


def py(x):
    """Simplify a symbolic scalar to a python number when it is constant."""
    if isinstance(x, SNum):
        if x.nan is not None:
            return x
        t = x.t if is_const(x.t) else z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        return SNum(t)
    if isinstance(x, SBool):
        t = z3.simplify(x.t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    return x


numbers.Number.register(SNum)


class SCode(str):
    """a string of which only the place in the alphabetical order is known
    (an integer; equal strings have equal places)"""

    def __new__(cls, name, t):
        x = str.__new__(cls, '<%s>' % name)
        x.t = t
        return x

    def _t(self, o):
        if isinstance(o, SCode):
            return o.t
        if isinstance(o, str) and o == '':
            return z3.IntVal(0)
        if isinstance(o, str):
            raise Unsupported('comparison of a code with a fixed string')
        return None

    def _cmp(self, o, f):
        t = self._t(o)
        return NotImplemented if t is None else SBool(f(self.t, t))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        raise Unsupported('hash of a code')

    def _no(self, *a, **k):
        raise Unsupported('text of a code')
    __add__ = __radd__ = __getitem__ = __len__ = __contains__ = _no
    __iter__ = __mul__ = __mod__ = __str__ = __format__ = _no
    split = join = startswith = endswith = replace = _no
