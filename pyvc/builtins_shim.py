"""Numeric builtins on symbolic values (exact contracts)."""
import builtins
import z3
from .values import (Sym, SNum, SBool, SCplx, STime, Unsupported, num, lift,
                     ite, py, toreal, is_pynum)
from .engine import E
from . import arrays as A, loops
from .mathfun import strunc, sround, smin, smax


class _M(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._np

    def __hash__(cls):
        return hash(cls._np)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._np)


class sint(metaclass=_M):
    _np = int

    @staticmethod
    def _check(x):
        if isinstance(x, SNum):
            return x.is_int
        return isinstance(x, int) or isinstance(x, SBool)

    @staticmethod
    def _make(x=0, *a):
        if isinstance(x, A.SArray):
            x = x.item()
        if isinstance(x, SBool):
            return num(x)
        if isinstance(x, SNum):
            if x.nan is not None:
                if E.decide(x.nan):
                    raise ValueError('cannot convert float NaN to integer')
            return py(strunc(SNum(x.t)))
        return int(x, *a)


class sfloat(metaclass=_M):
    _np = float

    @staticmethod
    def _check(x):
        if isinstance(x, SNum):
            return not x.is_int
        return isinstance(x, float)

    @staticmethod
    def _make(x=0.0):
        if isinstance(x, A.SArray):
            x = x.item()
        if isinstance(x, (SNum, SBool)):
            x = num(x)
            r = SNum(toreal(x.t), x.nan)
            r.pyf = True
            return r
        if isinstance(x, STime):
            return x.timestamp
        return float(x)


class sbool(metaclass=_M):
    _np = bool

    @staticmethod
    def _check(x):
        return isinstance(x, (bool, SBool))

    @staticmethod
    def _make(x=False):
        return bool(x)


def slen(x):
    if isinstance(x, A.SArray):
        if not x.shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, (A.SList, loops.SIter)):
        return x.n
    return len(x)


def srange(*a):
    a = [A.ival(x) if isinstance(x, Sym) else x for x in a]
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return loops.SRange(0, a[0])
        return loops.SRange(*a)
    return range(*a)


def senumerate(it, start=0):
    si = loops.as_iter(it)
    if si is None:
        return enumerate(it, start)
    return loops.SIter(si.n, lambda k: (k + start if start else k,
                                        si.item(k)))


def szip(*its, **kw):
    sis = [loops.as_iter(i) for i in its]
    if all(s is None for s in sis):
        return zip(*its, **kw)
    n = None
    items = []
    for i, s in zip(its, sis):
        if s is None:
            s = loops.SIter(slen(i), (lambda seq: (lambda k: _li(seq, k)))(
                list(i)))
        items.append(s)
        if n is None:
            n = s.n
        elif A.dim_eq(n, s.n) is not True:
            n = py(smin(n, s.n))
    return loops.SIter(n, lambda k: tuple(s.item(k) for s in items))


def _li(seq, k):
    if isinstance(k, int):
        return seq[k]
    return loops.merge([((num(k) == i).t, v) for i, v in enumerate(seq)])


def _ext(which):
    pyf = min if which == 'min' else max

    def f(*a, **k):
        key = k.get('key')
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, (A.SArray, A.SList)):
            if isinstance(xs, A.SList):
                xs = xs.to_array()
            return A.extremum(which, xs.shape, xs.getter())
        xs = list(xs)
        if not any(isinstance(x, Sym) for x in xs):
            return pyf(*a, **k)
        if key is not None:
            raise Unsupported('min/max with key')
        if any(isinstance(x, STime) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = (x < r) if which == 'min' else (x > r)
                r = ite(c, x, r)
            return r
        r = xs[0]
        for x in xs[1:]:
            # python semantics: keep r unless x is strictly better
            c = (num(x) < r) if which == 'min' else (num(x) > r)
            r = ite(c, x, r)
        return py(r) if isinstance(r, Sym) else r
    return f


def ssum(it, start=0):
    if isinstance(it, A.SList):
        it = it.to_array()
    if isinstance(it, A.SArray):
        if it.ndim != 1:
            raise Unsupported('sum of nd array')
        return A.sum_over(it.shape, it.getter()) + start
    return sum(it, start)


def sany(it):
    if isinstance(it, A.SList):
        it = it.to_array()
    if isinstance(it, A.SArray):
        g = it.getter()
        return A.any_over(it.shape, lambda *v: num(g(*v)) != 0
                          if it.kind != 'b' else g(*v))
    it = list(it)
    if any(isinstance(x, Sym) for x in it):
        r = SBool(z3.BoolVal(False))
        for x in it:
            r = r | _truth(x)
        return r
    return any(it)


def sall(it):
    if isinstance(it, A.SList):
        it = it.to_array()
    if isinstance(it, A.SArray):
        g = it.getter()
        return A.all_over(it.shape, lambda *v: num(g(*v)) != 0
                          if it.kind != 'b' else g(*v))
    it = list(it)
    if any(isinstance(x, Sym) for x in it):
        r = SBool(z3.BoolVal(True))
        for x in it:
            r = r & _truth(x)
        return r
    return all(it)


def _truth(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return x != 0
    return SBool(z3.BoolVal(bool(x)))


def sround_(x, n=None):
    if isinstance(x, Sym):
        return sround(x, n)
    return round(x, n) if n is not None else round(x)


def sisinstance(x, c):
    return builtins.isinstance(x, c)


def sprint(*a, **k):
    return None


def slist(x=()):
    if isinstance(x, A.SList):
        return x
    si = loops.as_iter(x)
    if si is not None:
        return A.SList(si.n, si.item)
    return list(x)


class slist_cls(metaclass=_M):
    _np = list

    @staticmethod
    def _check(x):
        return isinstance(x, (list, A.SList))

    @staticmethod
    def _make(x=()):
        return slist(x)


OVERRIDES = dict(
    int=sint, float=sfloat, len=slen, range=srange, enumerate=senumerate,
    zip=szip, min=_ext('min'), max=_ext('max'), sum=ssum, any=sany, all=sall,
    round=sround_, print=sprint, list=slist_cls)
