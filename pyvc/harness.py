"""Contracts that run both symbolically (proof) and concretely (replay).

A contract is a Python function of a context `c`: it draws the inputs
(precondition), calls the code under contract and states the postconditions
with c.check / c.forall.  In symbolic mode the inputs are unconstrained
symbols, the code is the rewritten source of /repo and every check becomes an
obligation for the solvers.  In concrete mode the same text draws numbers,
calls the real function and evaluates the checks.
"""
import contextlib
import fractions
import itertools
import math
import os
import random
import shutil
import tempfile
import traceback

import numpy as np
import z3

from .values import (Sym, SNum, SBool, SCplx, SCode, STime, Unsupported, num, lift,
                     ite, same, py, toreal, z_and, z_or, z_not, TRUE, FALSE,
                     nan_of)
from .engine import E, Infeasible, Obligation
from . import arrays as A, loader, mathfun

CONTRACTS = {}


class Contract(object):
    def __init__(self, prop, name, f, functions, proof, cases, thorough,
                 bound, timeout, paths, note, opts):
        self.prop, self.name, self.f = prop, name, f
        self.functions = functions
        self.proof = proof
        self.cases, self.thorough = cases, thorough
        self.bound = bound
        self.timeout = timeout
        self.paths = paths
        self.note = note
        self.opts = opts


def contract(prop, name, functions=(), proof=True, cases=150, thorough=None,
             bound='', timeout=20, paths=400, note='', opts=()):
    def deco(f):
        CONTRACTS.setdefault(prop, []).append(Contract(
            prop, name, f, list(functions), proof, cases,
            thorough or cases * 20, bound, timeout, paths, note, opts))
        return f
    return deco


class Reject(Exception):
    """concrete inputs outside the precondition"""


class CheckFailed(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, '%s %s' % (name, detail))
        self.name, self.detail = name, detail


# ----------------------------------------------------------------------
# sources of concrete inputs
class RandomSource(object):
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.np = np.random.RandomState(self.r.randrange(2 ** 31))
        self.log = []

    def int(self, name, lo, hi):
        r = self.r
        p = r.random()
        if p < .12:
            v = lo
        elif p < .2:
            v = hi
        elif p < .3:
            v = min(hi, lo + 1)
        else:
            v = r.randint(lo, hi)
        return v

    def real(self, name, lo, hi, den):
        r = self.r
        if den:
            a, b = math.ceil(lo * den), math.floor(hi * den)
            if r.random() < .15:
                c = [x for x in (lo, hi, 0) if lo <= x <= hi and
                     float(x * den).is_integer()]
                if c:
                    return float(r.choice(c))
            return r.randint(a, b) / den
        if r.random() < .1:
            return float(r.choice([lo, hi]))
        return r.uniform(lo, hi)

    def index(self, name, n):
        return self.r.randrange(n)

    def bool(self, name):
        return self.r.random() < .5

    def array(self, name, shape, kind, nan, lo, hi, distinct):
        R = self.np
        n = int(np.prod(shape)) if shape else 1
        if kind == 'b':
            p = self.r.choice([0., .2, .5, .8, 1.])
            return R.rand(*shape) < p
        if kind == 'i':
            return R.randint(lo if lo is not None else -5,
                             (hi if hi is not None else 5) + 1, size=shape)
        mode = self.r.choice(['int', 'int', 'norm', 'norm', 'const', 'sparse',
                              'ramp', 'dyad'])
        if distinct:
            a = R.permutation(n).reshape(shape) + R.randint(0, 4, shape) / 8.
            a = a - n // 2
        elif mode == 'int':
            a = R.randint(-3, 4, size=shape).astype(float)
        elif mode == 'norm':
            a = R.randn(*shape)
        elif mode == 'const':
            a = np.zeros(shape) + R.randint(-2, 3)
        elif mode == 'sparse':
            a = (R.rand(*shape) < .3) * R.randint(-4, 5, size=shape) * 1.
        elif mode == 'ramp':
            a = np.arange(n, dtype=float).reshape(shape) - R.randint(0, n + 1)
        else:
            a = R.randint(-64, 65, size=shape) / 16.
        a = np.array(a, dtype=float)
        if kind == 'c':
            a = a + 1j * R.randint(-3, 4, size=shape)
        if lo is not None or hi is not None:
            if mode == 'norm' and lo is not None and hi is not None:
                a = R.uniform(lo, hi, size=shape)
            a = np.clip(a, lo, hi)
        if nan and self.r.random() < .5:
            pm = self.r.choice([.05, .3, .7])
            a = np.where(R.rand(*shape) < pm, np.nan, a)
            if self.r.random() < .3 and a.ndim >= 1 and a.shape[0] > 0:
                a[R.randint(a.shape[0])] = np.nan
        return a


def _mval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return float(f)
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Reject('no model value')


class ModelSource(object):
    """inputs taken from a solver model"""

    def __init__(self, model):
        self.m = model
        self.k = 0

    def int(self, name, lo, hi):
        return _mval(self.m, z3.Int(name))

    def real(self, name, lo, hi, den):
        return float(_mval(self.m, z3.Real(name)))

    def index(self, name, n):
        v = _mval(self.m, z3.Int(name))
        if not 0 <= v < n:
            v = n - 1
        return v

    def bool(self, name):
        return _mval(self.m, z3.Bool(name))

    def array(self, name, shape, kind, nan, lo, hi, distinct):
        if int(np.prod(shape)) > 200000:
            raise Reject('model too large')
        fn, fnan = _array_decls(name, len(shape), kind)
        out = np.zeros(shape, dtype={'b': bool, 'i': int, 'f': float,
                                     'c': complex}[kind])
        for w in np.ndindex(*shape):
            iv = [z3.IntVal(int(i)) for i in w]
            if kind == 'c':
                out[w] = complex(_mval(self.m, fn(*iv)), _mval(
                    self.m, z3.Function(name + '.im', *(
                        [z3.IntSort()] * len(shape) + [z3.RealSort()]))(*iv)))
                continue
            v = _mval(self.m, fn(*iv)) if shape else _mval(self.m, fn())
            if lo is not None:
                v = max(v, lo)
            if hi is not None:
                v = min(v, hi)
            if nan and _mval(self.m, fnan(*iv)):
                v = float('nan')
            out[w] = v
        return out


def _array_decls(name, nd, kind):
    s = {'b': z3.BoolSort(), 'i': z3.IntSort()}.get(kind, z3.RealSort())
    return (z3.Function(name, *([z3.IntSort()] * nd + [s])),
            z3.Function(name + '.nan', *([z3.IntSort()] * nd +
                                         [z3.BoolSort()])))


# ----------------------------------------------------------------------
class Ctx(object):
    """common interface"""
    symbolic = False

    def expect_raises(self, exc, f, name):
        """the call must raise exc"""
        try:
            f()
        except exc:
            self.check(name, True)
            return
        self.check(name, False)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, con):
        self.con = con
        self.n = 0
        self._undo = []
        E.inputs = {'__dims__': []}
        self.reached = set()

    # -- inputs
    def int(self, name, lo=None, hi=None, dim=False, gen=None):
        t = z3.Int(name)
        v = SNum(t)
        if lo is not None:
            E.assume(v >= lo)
        if hi is not None:
            E.assume(v <= hi)
        if dim:
            E.inputs['__dims__'].append(t)
        return v

    def dim(self, name, lo=1, hi=None, gen=None):
        return self.int(name, lo, hi, True)

    def real(self, name, lo=None, hi=None, den=None, gen=None,
             positive=False):
        v = SNum(z3.Real(name))
        if lo is not None:
            E.assume(v >= lo)
        if hi is not None:
            E.assume(v <= hi)
        if positive:
            E.assume(v > 0)
        return v

    def bool(self, name):
        return SBool(z3.Bool(name))

    def flag(self, name):
        """a configuration switch: both values explored"""
        return bool(self.bool(name))

    def choice(self, name, options):
        t = z3.Int(name)
        n = len(options)
        for i in range(n - 1):
            if E.decide(t == i):
                return options[i]
        return options[n - 1]

    def array(self, name, shape, kind='f', nan=False, lo=None, hi=None,
              distinct=False, gen=None):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        fn, fnan = _array_decls(name, len(shape), kind)
        if shape:
            E.in_arrays[fn.name()] = len(shape)
            E.in_arrays[fnan.name()] = len(shape)
        if kind == 'c':
            fi = z3.Function(name + '.im', *(
                [z3.IntSort()] * len(shape) + [z3.RealSort()]))
            E.in_arrays[fi.name()] = len(shape)

        def f(*v):
            iv = [A.zi(i) for i in v]
            t = fn(*iv)
            if kind == 'b':
                return SBool(t)
            if kind == 'c':
                return SCplx(SNum(t), SNum(fi(*iv)))
            x = SNum(t)
            if lo is not None:
                x = ite(SBool(x.t >= num(lo).t), x, num(lo))
            if hi is not None:
                x = ite(SBool(x.t <= num(hi).t), x, num(hi))
            if nan:
                x = SNum(x.t, fnan(*iv))
            return x
        return A.SArray(shape, f, kind)

    def time(self, name, lo=0, hi=None, den=None):
        return STime(SNum(z3.Real(name)))

    def code(self, name, options=()):
        """a network, station or component code (any string)"""
        t = z3.Int(name)
        E.assume(SBool(t > 0))
        return SCode(name, t)

    def times(self, name, n, lo=0, hi=2 ** 20, den=8):
        """a list of n times"""
        fn, _ = _array_decls(name, 1, 'f')
        E.in_arrays[fn.name()] = 1
        return A.SList(n, lambda k: STime(SNum(fn(A.zi(k)))))

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise Infeasible()
            return
        E.assume(lift(cond))

    # -- code
    def fn(self, path):
        return loader.function(path)

    def mod(self, name):
        return loader.shadow(name)

    def patch(self, name, obj, note=None):
        """use the contract `obj` of the callee 'pkg.mod:attr' (the callee
        is verified on its own)"""
        mod, q = name.split(':')
        o = loader.shadow(mod)
        for p in q.split('.')[:-1]:
            o = getattr(o, p)
        q = q.split('.')[-1]
        self._undo.append((o, q, getattr(o, q)))
        setattr(o, q, obj)
        E.assumed.add(note or 'contract of the callee %s' % name)

    def unpatch(self):
        for o, q, v in reversed(self._undo):
            setattr(o, q, v)
        self._undo = []

    def np(self):
        from . import npshim
        return npshim.MODULE

    def ext(self, mod, name):
        """an external function (its assumed contract)"""
        from . import extern
        return getattr(extern._overlay(mod), name)

    # -- checks
    def check(self, name, cond, detail=None):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        if isinstance(cond, SNum):
            cond = cond != 0
        E.prove('%s/%s/%s' % (self.con.prop, self.con.name, name), cond)

    def _idx(self, name, bounds):
        idx = []
        for k, b in enumerate(bounds):
            if isinstance(b, int) and b == 1:
                idx.append(0)
                continue
            v = SNum(z3.Int('i_%s_%d_%d' % (name, k, self.n)))
            idx.append(v)
        return idx

    def forall(self, name, bounds, f):
        """for every index in the box: f(*index) holds"""
        self.n += 1
        bounds = [A.ival(b) for b in bounds]
        idx = self._idx(name, bounds)
        mark = len(E.pc)
        for v, b in zip(idx, bounds):
            if isinstance(v, SNum):
                E.pc.append(v.t >= 0)
                E.pc.append(v.t < A.zi(b))
        try:
            if E.feasible(TRUE):
                r = f(*idx)
                for k, x in enumerate(r if isinstance(r, (list, tuple))
                                      else [r]):
                    self.check(name if k == 0 else '%s#%d' % (name, k), x)
            else:
                self.check(name, True)
        finally:
            # decisions taken while evaluating stay with the path
            del E.pc[mark:mark + sum(2 for v in idx if isinstance(v, SNum))]

    def exists_index(self, name, bounds):
        """arbitrary index in the (non-empty) box, as an input"""
        idx = self._idx(name, [A.ival(b) for b in bounds])
        for v, b in zip(idx, bounds):
            if isinstance(v, SNum):
                E.assume(SBool(z3.And(v.t >= 0, v.t < A.zi(A.ival(b)))))
        return idx

    # -- spec operators
    def eq(self, a, b, tol=None, scale=None):
        if isinstance(a, (str, type(None))) or isinstance(
                b, (str, type(None))):
            return a == b
        return same(a, b)

    def le(self, a, b, tol=None):
        return lift(a) <= b

    def close(self, a, b, tol=None):
        return same(a, b)

    def ite(self, c, a, b):
        if callable(a) or callable(b):
            a = a() if callable(a) else a
            b = b() if callable(b) else b
        return ite(c, a, b)

    def and_(self, *xs):
        r = SBool(TRUE)
        for x in xs:
            x = lift(x)
            r = r & x
        return r

    def or_(self, *xs):
        r = SBool(FALSE)
        for x in xs:
            r = r | lift(x)
        return r

    def not_(self, x):
        return ~lift(x)

    def implies(self, a, b):
        a = lift(a)
        if z3.is_false(z3.simplify(a.t)):
            return SBool(TRUE)
        if callable(b):
            b = b()
        return ~a | lift(b)

    def isnan(self, x):
        return nan_of(lift(x))

    def sum(self, bounds, f):
        return A.sum_over(bounds, f)

    def max(self, bounds, f):
        return A.extremum('max', bounds, f)

    def min(self, bounds, f):
        return A.extremum('min', bounds, f)

    def mean(self, bounds, f):
        from . import npshim as N
        return N._r_mean(bounds, f, None)

    def std(self, bounds, f):
        from . import npshim as N
        return N._r_std(0)(bounds, f, None)

    def nanmean(self, bounds, f):
        from . import npshim as N
        return N._r_nanmean(bounds, f, None)

    def nanmax(self, bounds, f):
        from . import npshim as N
        return N._r_nanext('max')(bounds, f, None)

    def nanmin(self, bounds, f):
        from . import npshim as N
        return N._r_nanext('min')(bounds, f, None)

    def nanstd(self, bounds, f):
        from . import npshim as N
        return N._r_nanstd(0)(bounds, f, None)

    def count(self, n, f):
        return A.count_over(n, f)

    def any(self, bounds, f):
        return A.any_over(bounds, f)

    def all(self, bounds, f):
        return A.all_over(bounds, f)

    def at(self, a, *i):
        a = A.as_sarray(a)
        return a.at(*[A.ival(x) if not isinstance(x, int) else x for x in i])

    def floor(self, x):
        return mathfun.sfloor(x)

    def ceil(self, x):
        return mathfun.sceil(x)

    def trunc(self, x):
        return mathfun.strunc(x)

    def round(self, x):
        return mathfun.sround(x)

    def sqrt(self, x):
        return mathfun.ssqrt(x)

    def exp(self, x):
        return mathfun.sexp(x)

    def abs(self, x):
        return abs(lift(x))

    def imax(self, a, b):
        return mathfun.smax(a, b)

    def imin(self, a, b):
        return mathfun.smin(a, b)

    def cost(self, n):
        pass

    def case(self, cond):
        """case split of the proof (both sides explored)"""
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        return E.decide(lift(cond).t)


class ConcCtx(Ctx):
    def __init__(self, con, src):
        self.con = con
        self.src = src
        self.drawn = []
        self.checked = 0
        self.tmp = None
        self._exit = contextlib.ExitStack()

    # -- inputs
    def _log(self, name, v):
        self.drawn.append((name, v))
        return v

    def int(self, name, lo=None, hi=None, dim=False, gen=None):
        if gen is not None:
            glo, ghi = gen
        else:
            glo = lo if lo is not None else -8
            ghi = hi if hi is not None else max(glo + 1, (
                9 if dim else 12))
        v = self.src.int(name, int(glo), int(ghi))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return self._log(name, int(v))

    def dim(self, name, lo=1, hi=None, gen=None):
        return self.int(name, lo, hi, True, gen)

    def real(self, name, lo=None, hi=None, den=8, gen=None, positive=False):
        if gen is not None:
            glo, ghi = gen
        else:
            glo = lo if lo is not None else (0 if positive else -8)
            ghi = hi if hi is not None else max(glo + 1, 8)
        v = self.src.real(name, glo, ghi, den)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (
                positive and v <= 0):
            raise Reject()
        return self._log(name, v)

    def bool(self, name):
        return self._log(name, self.src.bool(name))
    flag = bool

    def choice(self, name, options):
        k = self.src.index(name, len(options))
        self._log(name, k)
        return options[k]

    def array(self, name, shape, kind='f', nan=False, lo=None, hi=None,
              distinct=False, gen=None):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        if gen is not None and isinstance(self.src, RandomSource):
            a = gen(self.src.np, shape)
        else:
            a = self.src.array(name, shape, kind, nan, lo, hi, distinct)
        self._log(name, a.copy())
        return a

    def code(self, name, options=('A', 'AB', 'ABA', 'B', 'BA')):
        if isinstance(self.src, ModelSource):
            v = 'C%09d' % (self.src.int(name, 0, 0) + 10 ** 8)
        else:
            v = options[self.src.index(name, len(options))]
        return self._log(name, v)

    def time(self, name, lo=0, hi=2 ** 20, den=8):
        from obspy import UTCDateTime
        v = self.src.real(name, lo, hi, den)
        return UTCDateTime(self._log(name, v))

    def times(self, name, n, lo=0, hi=64, den=2):
        from obspy import UTCDateTime
        if isinstance(self.src, RandomSource):
            a = np.array([self.src.real(name, lo, hi, den)
                          for _ in range(int(n))])
        else:
            a = self.src.array(name, (int(n),), 'f', False, None, None,
                               False)
        return [UTCDateTime(float(x)) for x in self._log(name, a)]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Reject()

    def fn(self, path):
        return loader.real(path)

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def patch(self, name, obj, note=None):
        mod, q = name.split(':')
        o = self.mod(mod)
        for p in q.split('.')[:-1]:
            o = getattr(o, p)
        q = q.split('.')[-1]
        old = o.__dict__[q] if isinstance(o, type) else getattr(o, q)
        setattr(o, q, obj)
        self._exit.callback(setattr, o, q, old)

    def np(self):
        return np

    def ext(self, mod, name):
        import importlib
        return getattr(importlib.import_module(mod), name)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='pyvc_')
        self._exit.callback(shutil.rmtree, d, True)
        return d

    def close_(self):
        self._exit.close()

    # -- checks
    def check(self, name, cond, detail=None):
        self.checked += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not bool(cond):
            raise CheckFailed(name, detail if detail is not None else '')

    def forall(self, name, bounds, f):
        tot = 1
        for b in bounds:
            tot *= max(int(b), 0)
        it = itertools.product(*[range(int(b)) for b in bounds])
        if tot > 3000:
            rr = random.Random(tot)
            it = (tuple(rr.randrange(int(b)) for b in bounds)
                  for _ in range(3000))
        for idx in it:
            r = f(*idx)
            for k, x in enumerate(r if isinstance(r, (list, tuple))
                                  else [r]):
                self.check(name if k == 0 else '%s#%d' % (name, k), x,
                           'at index %s' % (idx,))

    def exists_index(self, name, bounds):
        return [self.int('i_%s_%d' % (name, k), 0, int(b) - 1)
                for k, b in enumerate(bounds)]

    # -- spec operators
    def eq(self, a, b, tol=1e-7, scale=None):
        if isinstance(a, (str, type(None), bool)) or isinstance(
                b, (str, type(None), bool)):
            return a == b
        from obspy import UTCDateTime
        if isinstance(a, UTCDateTime) or isinstance(b, UTCDateTime):
            return abs(UTCDateTime(a) - UTCDateTime(b)) < 1e-5
        if isinstance(a, (complex, np.complexfloating)) or isinstance(
                b, (complex, np.complexfloating)):
            return abs(a - b) <= (tol or 1e-7) * max(1., abs(a), abs(b))
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        s = max(1., abs(a), abs(b)) if scale is None else max(
            float(scale), 1e-300)
        return abs(a - b) <= (tol or 1e-7) * s

    def le(self, a, b, tol=1e-7):
        a, b = float(a), float(b)
        return a <= b + (tol or 1e-7) * max(1., abs(a), abs(b))

    def close(self, a, b, tol=1e-7):
        return self.eq(a, b, tol)

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        if not a:
            return True
        return b() if callable(b) else b

    def isnan(self, x):
        try:
            return bool(np.isnan(x))
        except TypeError:
            return False

    def sum(self, bounds, f):
        r = 0
        for w in itertools.product(*[range(int(b)) for b in bounds]):
            r = r + f(*w)
        return r

    def max(self, bounds, f):
        return np.max([f(*w) for w in itertools.product(
            *[range(int(b)) for b in bounds])])

    def min(self, bounds, f):
        return np.min([f(*w) for w in itertools.product(
            *[range(int(b)) for b in bounds])])

    def _vals(self, bounds, f):
        return np.array([f(*w) for w in itertools.product(
            *[range(int(b)) for b in bounds])], dtype=float)

    def mean(self, bounds, f):
        return np.mean(self._vals(bounds, f))

    def std(self, bounds, f):
        return np.std(self._vals(bounds, f))

    def nanmean(self, bounds, f):
        return np.nanmean(self._vals(bounds, f))

    def nanmax(self, bounds, f):
        return np.nanmax(self._vals(bounds, f))

    def nanmin(self, bounds, f):
        return np.nanmin(self._vals(bounds, f))

    def nanstd(self, bounds, f):
        return np.nanstd(self._vals(bounds, f))

    def count(self, n, f):
        return sum(1 for k in range(int(n)) if f(k))

    def any(self, bounds, f):
        return any(bool(f(*w)) for w in itertools.product(
            *[range(int(b)) for b in bounds]))

    def all(self, bounds, f):
        return all(bool(f(*w)) for w in itertools.product(
            *[range(int(b)) for b in bounds]))

    def at(self, a, *i):
        return a[tuple(int(k) for k in i)] if isinstance(
            a, np.ndarray) else a[int(i[0])]

    def floor(self, x):
        return math.floor(x)

    def ceil(self, x):
        return math.ceil(x)

    def trunc(self, x):
        return int(x)

    def round(self, x):
        return int(np.round(x))

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float('nan')

    def exp(self, x):
        return math.exp(x)

    def abs(self, x):
        return abs(x)

    def imax(self, a, b):
        return max(a, b)

    def imin(self, a, b):
        return min(a, b)

    def cost(self, n):
        pass

    def case(self, cond):
        return bool(cond)


# ----------------------------------------------------------------------
class Outcome(object):
    def __init__(self, con):
        self.con = con
        self.obligations = []     # dicts
        self.error = None         # Unsupported etc.
        self.paths = 0
        self.called = []
        self.assumed = []
        self.solver_s = 0.
        self.refuted = None       # (Obligation, model)


def run_symbolic(con):
    """all obligations of a proof contract"""
    E.reset()
    E.timeout_ms = int(con.timeout * 1000)
    E.max_paths = con.paths
    E.axiom_opts = set(con.opts)
    loader.reset()
    out = Outcome(con)
    done = [0]

    def run():
        c = SymCtx(con)
        try:
            try:
                con.f(c)
            finally:
                c.unpatch()
        except Unsupported:
            raise
        except Infeasible:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1] if tb else None
            inner = last is not None and '/pyvc/' in last.filename
            if inner and isinstance(e, (AttributeError, NotImplementedError,
                                        AssertionError, RecursionError)):
                raise Unsupported('verifier: %r' % (e,)) from e
            if last is not None and '/repo/' not in last.filename and \
                    not inner and not isinstance(e, (
                        ValueError, IndexError, KeyError, TypeError)):
                raise Unsupported('%r in %s' % (e, last.filename)) from e
            where = ' '.join('%s:%d' % (os.path.basename(f.filename),
                                        f.lineno) for f in tb[-4:])
            E.prove('%s/%s/no unexpected exception' % (con.prop, con.name),
                    False, note='%s: %s (%s)' % (type(e).__name__, e, where))
        done[0] += 1
    try:
        E.explore(run)
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/repo/' in f.filename or
                 '/contracts/' in f.filename]
        w = ' at %s:%d' % (os.path.basename(where[-1].filename),
                           where[-1].lineno) if where else ''
        out.error = 'out of reach: %s%s' % (e, w)
    except RecursionError as e:
        out.error = 'out of reach: recursion'
    except z3.Z3Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out.error = 'verifier error: %s %s' % (e, [
            '%s:%d' % (os.path.basename(f.filename), f.lineno)
            for f in tb[-5:]])
    out.paths = E.stats['paths']
    out.called = sorted(E.called)
    out.assumed = sorted(E.assumed)
    out.solver_s = E.stats['solver_s']
    for ob in E.obligations:
        out.obligations.append(dict(
            name=ob.name, status=ob.status, backend=ob.backend,
            secs=round(ob.secs, 3), note=ob.note))
        if ob.status != 'proved' and (out.refuted is None or (
                ob.status == 'refuted' and
                out.refuted.status != 'refuted')):
            out.refuted = ob
    if out.error is None and not out.obligations:
        out.error = 'vacuous: no obligation generated'
    if out.error is None and done[0] == 0:
        out.error = 'vacuous: no path reaches the end'
    return out


class Failure(object):
    def __init__(self, con, check, detail, drawn, src):
        self.con, self.check, self.detail = con, check, detail
        self.drawn, self.src = drawn, src


def run_concrete(con, src, srcdesc):
    """one concrete case -> None (held), 'reject' or Failure"""
    c = ConcCtx(con, src)
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                con.f(c)
        return None if c.checked else 'reject'
    except Reject:
        return 'reject'
    except CheckFailed as e:
        return Failure(con, e.name, str(e.detail), c.drawn, srcdesc)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any('/seismic/' in f.filename for f in tb):
            raise
        where = ' '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                         for f in tb[-4:])
        return Failure(con, 'no unexpected exception', '%s: %s (%s)' % (
            type(e).__name__, e, where), c.drawn, srcdesc)
    finally:
        c.close_()
