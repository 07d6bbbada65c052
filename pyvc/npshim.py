"""Contracts of the NumPy functions used by the code under contract.

Concrete arguments are passed to NumPy itself; symbolic ones get the
mathematical meaning documented for the function.
"""
import math
import types
import builtins as _bi
import numpy as _np
import z3
from .values import (Sym, SNum, SBool, SCplx, SExt, STime, Unsupported, num, lift,
                     ite, py, toreal, z_or, z_and, z_not, nan_of, denan,
                     is_pynum, TRUE, FALSE)
from .engine import E
from . import arrays as A
from .arrays import (SArray, SList, as_sarray, elementwise, sum_over,
                     extremum, argext, any_over, all_over, count_over, ival,
                     zi, _kmax)
from . import mathfun as M

__builtins_all, __builtins_any, __builtins_max = _bi.all, _bi.any, _bi.max


def issym(*xs):
    for x in xs:
        if isinstance(x, Sym):
            return True
        if isinstance(x, (list, tuple)) and issym(*x):
            return True
        if isinstance(x, dict) and issym(*x.values()):
            return True
    return False


def _isarr(x):
    return isinstance(x, (SArray, _np.ndarray, SList, list, tuple)) and not (
        isinstance(x, (SArray, _np.ndarray)) and x.ndim == 0)


def _unary(f, kind=None):
    def g(x, out=None, **kw):
        if kw.get('where') is not None:
            raise Unsupported('ufunc where')
        if not issym(x) and not isinstance(x, SArray):
            if not isinstance(x, (list, tuple, _np.ndarray)):
                r = f(x)
                return r
            x = as_sarray(x)
        if isinstance(x, (SArray, list, tuple, SList)):
            r = elementwise(f, x, kind=kind)
            return _out(out, r)
        return f(x)
    return g


def _out(out, r):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    r = as_sarray(r)
    g = r.getter()
    out._store(lambda *v: g(*v))
    return out


def _binary(f, kind=None):
    def g(a, b, out=None, where=None, **kw):
        r = elementwise(lambda x, y: f(lift(x), y), a, b, kind=kind) if (
            _isarr(a) or _isarr(b)) else f(lift(a), b)
        if where is not None and where is not True:
            if out is None:
                out = empty(as_sarray(r).shape)
            w = as_sarray(where)
            r = as_sarray(r)
            rg = r.getter()
            wb, sel = A.broadcast([as_sarray(out), w])
            wg = w.getter()
            s = sel[1]
            out._store(lambda *v: rg(*v), lambda *v: wg(
                *[0 if k is None else v[k] for k in s]))
            return out
        return _out(out, r)
    return g


# -- creation ----------------------------------------------------------
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(ival(x) for x in s)
    if isinstance(s, SArray) and s.ndim == 1:
        return tuple(ival(x) for x in s.tolist())
    return (ival(s),)


def _neg(shape):
    for s in shape:
        if isinstance(s, int):
            if s < 0:
                raise ValueError('negative dimensions are not allowed')
        elif E.known(zi(s) >= 0) is not True:
            if not E.decide(zi(s) >= 0):
                raise ValueError('negative dimensions are not allowed')


def _dk(dtype, default='f'):
    if dtype is None:
        return default
    d = getattr(dtype, '_np', dtype)
    k = _np.dtype(d).kind
    return {'u': 'i', 'S': 'O', 'U': 'O'}.get(k, k)


def _const(v, k):
    if k == 'i':
        return int(v)
    if k == 'b':
        return bool(v)
    if k == 'c':
        return SCplx(num(float(v)), num(0.))
    return v if isinstance(v, Sym) else float(v)


def zeros(shape, dtype=None, **kw):
    shape = _shape(shape)
    _neg(shape)
    k = _dk(dtype)
    v = _const(0, k)
    return SArray(shape, lambda *i: v, k)


def ones(shape, dtype=None, **kw):
    shape = _shape(shape)
    _neg(shape)
    k = _dk(dtype)
    v = _const(1, k)
    return SArray(shape, lambda *i: v, k)


def full(shape, v, dtype=None, **kw):
    shape = _shape(shape)
    _neg(shape)
    return SArray(shape, lambda *i: v,
                  _dk(dtype, A._kind_of_scalar(v)))


def empty(shape, dtype=None, **kw):
    shape = _shape(shape)
    _neg(shape)
    k = _dk(dtype)
    nm = 'uninit!%d' % next(E.fresh_n)
    dom = [z3.IntSort()] * len(shape)
    if k == 'O':
        k = 'f'
    if k == 'b':
        d = z3.Function(nm, *(dom + [z3.BoolSort()]))
        return SArray(shape, lambda *i: SBool(d(*[zi(x) for x in i])), k)
    d = z3.Function(nm, *(dom + [z3.IntSort() if k == 'i' else
                                 z3.RealSort()]))
    dn = z3.Function(nm + 'n', *(dom + [z3.BoolSort()]))

    def f(*i):
        t = [zi(x) for x in i]
        return SNum(d(*t), None if k == 'i' else dn(*t))
    return SArray(shape, f, k)


def zeros_like(a, dtype=None, **kw):
    a = as_sarray(a)
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


def ones_like(a, dtype=None, **kw):
    a = as_sarray(a)
    return ones(a.shape, dtype if dtype is not None else a.dtype)


def empty_like(a, dtype=None, **kw):
    a = as_sarray(a)
    return empty(a.shape, dtype if dtype is not None else a.dtype)


def full_like(a, v, dtype=None, **kw):
    a = as_sarray(a)
    r = empty(a.shape, dtype if dtype is not None else a.dtype)
    r.fill(v)
    return r


def arange(*a, **kw):
    dt = kw.get('dtype')
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0], a[1]
        step = a[2] if len(a) > 2 else kw.get('step', 1)
    start, stop, step = [x.timestamp if isinstance(x, STime) else x
                         for x in (start, stop, step)]
    if not issym(start, stop, step):
        return as_sarray(_np.arange(start, stop, step))
    isint = __builtins_all(isinstance(x, int) or (isinstance(x, SNum) and x.is_int)
                for x in (start, stop, step))
    n = (num(stop) - start) / num(step)
    n = SNum(-z3.ToInt(-z3.simplify(toreal(n.t)))) if not isint else None
    if isint:
        st = num(step)
        if is_pynum(step) and step == 1:
            n = num(stop) - start
        elif is_pynum(step):
            n = -((-(num(stop) - start)) // step) if step > 0 else \
                -((num(stop) - start) // -step)
        else:
            n = -(-(num(stop) - start) // st)
    n = A._nonneg(py(n))

    def f(k):
        return num(start) + num(k) * step
    r = SArray((n,), f, 'i' if isint else 'f')
    return A.cast(r, dt) if dt is not None else r


def linspace(start, stop, num_=50, endpoint=True, **kw):
    n = kw.pop('num', num_)
    if not issym(start, stop, n):
        return as_sarray(_np.linspace(start, stop, n, endpoint=endpoint))
    n = ival(n)
    d = (n - 1) if endpoint else n
    if isinstance(n, int) and n == 1:
        return SArray((1,), lambda k: num(start) + 0.0, 'f')

    def f(k):
        step = (num(stop) - start) / num(d)
        v = num(start) + num(k) * SNum(step.t)
        # a single point: numpy returns start
        one = num(d) == 0
        return ite(one, SNum(toreal(num(start).t)), v)
    return SArray((n,), f, 'f')


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, (list, tuple)) and not issym(x):
        r = _np.array(x, dtype=None if dtype is None else
                      getattr(dtype, '_np', dtype), ndmin=ndmin)
        if r.dtype.kind in 'bifcu':
            return as_sarray(r)
        return r
    if isinstance(x, _np.ndarray):
        if x.dtype.kind not in 'bifcu':
            return x.copy()
        x = as_sarray(x)
    if isinstance(x, STime) or (isinstance(x, (list, tuple)) and __builtins_any(
            isinstance(y, STime) for y in x)):
        return times_array(x)
    if isinstance(x, (set, dict, str)) or x is None:
        return _np.array(x)
    r = as_sarray(x)
    r = r.copy() if isinstance(r, SArray) else r
    if dtype is not None:
        r = A.cast(r, dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def times_array(x):
    vals = list(x)

    def f(i):
        if isinstance(i, int):
            return vals[i]
        out = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            out = ite(SBool(zi(i) == k), vals[k], out)
        return out
    return SArray((len(vals),), f, 'O')


def asarray(x, dtype=None, **kw):
    if isinstance(x, SArray) and dtype is None:
        return x
    return array(x, dtype)


def copy(x, **kw):
    return as_sarray(x).copy()


def atleast_1d(x):
    if isinstance(x, (list, tuple, _np.ndarray)) and not issym(x):
        r = _np.atleast_1d(x)
        return as_sarray(r) if r.dtype.kind in 'bifcu' else r
    a = as_sarray(x)
    return a if a.ndim else SArray((1,), lambda k: a.at(), a.kind)


def atleast_2d(x):
    a = as_sarray(x)
    if a.ndim >= 2:
        return a
    if a.ndim == 1:
        return a[None]
    return SArray((1, 1), lambda *k: a.at(), a.kind)


def eye(n, m=None, **kw):
    n = ival(n)
    m = n if m is None else ival(m)
    return SArray((n, m), lambda i, j: ite(num(i) == j, 1., 0.), 'f')


def diag(a, k=0):
    a = as_sarray(a)
    if a.ndim == 2:
        g = a.getter()
        return SArray((py(M.smin(a.shape[0], a.shape[1])),),
                      lambda i: g(i, i), a.kind)
    g = a.getter()
    return SArray((a.shape[0], a.shape[0]),
                  lambda i, j: ite(num(i) == j, g(i), 0.), a.kind)


def meshgrid(x, y, **kw):
    if kw.get('indexing', 'xy') != 'xy':
        raise Unsupported('meshgrid indexing')
    x, y = as_sarray(x), as_sarray(y)
    gx, gy = x.getter(), y.getter()
    sh = (y.shape[0], x.shape[0])
    return [SArray(sh, lambda i, j: gx(j), x.kind),
            SArray(sh, lambda i, j: gy(i), y.kind)]


# -- reductions --------------------------------------------------------
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(x % a.ndim for x in axis)
    axis = int(axis)
    if axis < -a.ndim or axis >= a.ndim:
        raise _np.AxisError(axis, a.ndim)
    return [axis % a.ndim]


def _reduce(a, axis, red, keepdims=False, kind='f', out=None):
    """red(bounds, fn) -> scalar"""
    a = as_sarray(a)
    if a.comp is not None:
        b, m, g = A.comp_box(a)
        return red(b, g, m)
    ax = _axes(a, axis)
    g = a.getter()
    bounds = [a.shape[k] for k in ax]
    rest = [k for k in range(a.ndim) if k not in ax]

    def f(*v):
        def h(*w):
            idx = [None] * a.ndim
            for k, x in zip(ax, w):
                idx[k] = x
            for k, x in zip(rest, v):
                idx[k] = x
            return g(*idx)
        return red(bounds, h, None)
    if not rest and not keepdims:
        return f()
    if keepdims:
        shape = [1 if k in ax else a.shape[k] for k in range(a.ndim)]
        r = SArray(shape, lambda *v: f(*[v[k] for k in rest]), kind)
    else:
        r = SArray([a.shape[k] for k in rest], f, kind)
    # probe once so that errors (empty axis, ...) surface eagerly
    r_probe = [SNum(z3.Int('$b9%d_%d' % (E.bdepth, i)))
               for i in range(len(rest))]
    f(*r_probe)
    return _out(out, r)


def _r_sum(bounds, f, m):
    if m is not None:
        return sum_over(bounds, lambda *v: _sel(m(*v), f(*v)))
    return sum_over(bounds, f)


def _sel(c, v, z=0):
    v = lift(v)
    if isinstance(v, SBool):
        v = num(v)
    r = ite(lift(c), v, z)
    return r


def _num_elems(bounds, m=None):
    if m is not None:
        return sum_over(bounds, lambda *v: num(lift(m(*v)))) if \
            len(bounds) > 1 else count_over(bounds[0], m)
    n = 1
    for b in bounds:
        n = n * b
    return n


def _ndiv(s, n):
    """s/n where n==0 gives NaN"""
    if isinstance(s, SCplx):
        return s / num(n)
    return num(s) / num(n)


def _r_mean(bounds, f, m):
    return _ndiv(_r_sum(bounds, f, m), _num_elems(bounds, m))


def _r_std(ddof=0):
    def red(bounds, f, m):
        return M.ssqrt(_var(bounds, f, m, ddof))
    return red


def _var(bounds, f, m, ddof):
    mu = _r_mean(bounds, f, m)

    def g(*v):
        d = lift(f(*v)) - mu
        return d * d
    n = _num_elems(bounds, m)
    return _ndiv(_r_sum(bounds, g, m), n - ddof if ddof else n)


def _nz(f):
    """NaN -> 0"""
    def g(*v):
        x = num(f(*v))
        return ite(nan_of(x), 0, denan(x)) if x.nan is not None else x
    return g


def _r_nansum(bounds, f, m):
    return _r_sum(bounds, _nz(f), m)


def _cnt_valid(bounds, f, m):
    def ok(*v):
        c = ~nan_of(num(f(*v)))
        return c if m is None else (c & lift(m(*v)))
    if len(bounds) == 1:
        return count_over(bounds[0], ok)
    return sum_over(bounds, lambda *v: num(ok(*v)))


def _r_nansum0(bounds, f, m):
    s = num(_r_nansum(bounds, f, m))
    return SNum(s.t, z_or(s.nan, (num(_cnt_valid(bounds, f, m)) == 0).t))


def _r_nanmean(bounds, f, m):
    if m is None and [b for b in bounds if isinstance(b, int) and b == 1] \
            == list(bounds):
        return num(f(*[0] * len(bounds)))   # of one element
    return _ndiv(_r_nansum(bounds, f, m), _cnt_valid(bounds, f, m))


def _r_ext(kind):
    def red(bounds, f, m):
        if m is not None:
            return _masked_ext(kind, bounds, f, m)
        return extremum(kind, bounds, f)
    return red


def _masked_ext(kind, bounds, f, m):
    # max over the selected elements = element at the position of an
    # attained maximum; expressed with a finite-box maximum of an
    # order-preserving pairing (selected first)
    c = any_over(bounds, m)
    if not E.decide(c.t):
        raise ValueError('zero-size array to reduction operation')
    # shift every unselected element to the (finite) extremum of the selected
    vs, v = A._bounded_eval(bounds, f)
    vm = lift(A._bounded_eval(bounds, m)[1]).t
    v = num(v)
    app = E.make_fun('mext_' + kind, [(
        [zi(ival(b)) for b in bounds], [x.t for x in vs],
        [z3.simplify(v.t), z3.simplify(vm)])], [], v.t.sort())
    nan = A._nan_any(bounds, lambda *w: ite(lift(m(*w)), f(*w), 0.))
    return SNum(app, nan)


def _r_nanext(kind):
    def red(bounds, f, m):
        def ok(*v):
            c = ~nan_of(num(f(*v)))
            return c if m is None else (c & lift(m(*v)))
        allok = A._nan_any(bounds, f) is None and m is None
        if allok:
            return extremum(kind, bounds, f)
        for b in bounds:
            if isinstance(ival(b), int):
                if ival(b) == 0:
                    raise ValueError('zero-size array to reduction')
            elif not E.decide(zi(b) > 0):
                raise ValueError('zero-size array to reduction')
        vs, v = A._bounded_eval(bounds, f)
        v = num(v)
        vm = lift(A._bounded_eval(bounds, ok)[1]).t
        app = E.make_fun('mext_' + kind, [(
            [zi(ival(b)) for b in bounds], [x.t for x in vs],
            [z3.simplify(v.t), z3.simplify(vm)])], [], v.t.sort())
        none = ~any_over(bounds, ok)
        return SNum(app, none.t)
    return red


def _r_any(bounds, f, m):
    return any_over(bounds, lambda *v: _tr(f(*v)) if m is None else
                    (_tr(f(*v)) & lift(m(*v))))


def _tr(x):
    x = lift(x)
    return x if isinstance(x, SBool) else (num(x) != 0)


def _r_all(bounds, f, m):
    return all_over(bounds, lambda *v: _tr(f(*v)) if m is None else
                    (_tr(f(*v)) | ~lift(m(*v))))


def _mkred(red, kind='f'):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if isinstance(a, _np.ma.MaskedArray):
            raise Unsupported('masked array')
        k = kind
        if isinstance(a, SMasked):
            nred = {_r_sum: _r_nansum0, _r_mean: _r_nanmean}.get(red)
            if nred is None:
                raise Unsupported('reduction of a masked array')
            return a.reduce(nred, axis, keepdims, k)
        if kind == 'same':
            k = as_sarray(a).kind
        return _reduce(a, axis, red, keepdims, k, out)
    return f


sum = _mkred(_r_sum)
mean = _mkred(_r_mean)
nansum = _mkred(_r_nansum)
nanmean = _mkred(_r_nanmean)
amax = max = _mkred(_r_ext('max'), 'same')
amin = min = _mkred(_r_ext('min'), 'same')
nanmax = _mkred(_r_nanext('max'))
nanmin = _mkred(_r_nanext('min'))
any = _mkred(_r_any, 'b')
all = _mkred(_r_all, 'b')


def std(a, axis=None, ddof=0, keepdims=False, **kw):
    return _reduce(a, axis, _r_std(ddof), keepdims)


def var(a, axis=None, ddof=0, keepdims=False, **kw):
    return _reduce(a, axis, lambda b, f, m: _var(b, f, m, ddof), keepdims)


def _r_nanstd(ddof=0):
    def red(bounds, f, m):
        mu = _r_nanmean(bounds, f, m)

        def g(*v):
            d = num(f(*v)) - SNum(mu.t)
            return d * d
        n = _cnt_valid(bounds, f, m)
        r = M.ssqrt(_ndiv(_r_nansum(bounds, g, m), n - ddof if ddof else n))
        return SNum(r.t, z_or(r.nan, mu.nan))
    return red


def nanstd(a, axis=None, ddof=0, keepdims=False, **kw):
    return _reduce(a, axis, _r_nanstd(ddof), keepdims)


def _opaque_red(kind):
    def f(a, q=None, axis=None, keepdims=False, **kw):
        def red(bounds, fn, m):
            if m is not None:
                return _opq_masked(kind, bounds, fn, m, q)
            vs, v = A._bounded_eval(bounds, fn)
            v = num(v)
            sc = [] if q is None else [toreal(num(q).t)]
            app = E.make_fun(kind, [(
                [zi(ival(b)) for b in bounds], [x.t for x in vs],
                [z3.simplify(toreal(v.t))])], sc, z3.RealSort())
            E.assumed.add('numpy.' + kind)
            return SNum(app, A._nan_any(bounds, fn))
        return _reduce(a, axis, red, keepdims)
    return f


def _opq_masked(kind, bounds, fn, m, q):
    vs, v = A._bounded_eval(bounds, fn)
    vm = lift(A._bounded_eval(bounds, m)[1]).t
    v = num(v)
    sc = [] if q is None else [toreal(num(q).t)]
    app = E.make_fun(kind + '_m', [(
        [zi(ival(b)) for b in bounds], [x.t for x in vs],
        [z3.simplify(toreal(v.t)), z3.simplify(vm)])], sc, z3.RealSort())
    E.assumed.add('numpy.' + kind)
    return SNum(app, A._nan_any(bounds, lambda *w: ite(
        lift(m(*w)), fn(*w), 0.)))


_median = _opaque_red('median')


def median(a, axis=None, keepdims=False, **kw):
    return _median(a, None, axis, keepdims)


percentile = _opaque_red('percentile')


def _opaque_nan(kind):
    def f(a, q=None, axis=None, keepdims=False, **kw):
        def red(bounds, fn, m):
            def ok(*v):
                c = ~nan_of(num(fn(*v)))
                return c if m is None else c & lift(m(*v))
            vs, v = A._bounded_eval(bounds, fn)
            vm = lift(A._bounded_eval(bounds, ok)[1]).t
            v = num(v)
            sc = [] if q is None else [toreal(num(q).t)]
            app = E.make_fun(kind, [(
                [zi(ival(b)) for b in bounds], [x.t for x in vs],
                [z3.simplify(toreal(v.t)), z3.simplify(vm)])], sc,
                z3.RealSort())
            E.assumed.add('numpy.' + kind)
            return SNum(app, (~any_over(bounds, ok)).t)
        return _reduce(a, axis, red, keepdims)
    return f


_nanmedian = _opaque_nan('nanmedian')


def nanmedian(a, axis=None, keepdims=False, **kw):
    return _nanmedian(a, None, axis, keepdims)


def _mkarg(kind, skipnan=False):
    def f(a, axis=None, **kw):
        a = as_sarray(a)
        if axis is None:
            if a.ndim != 1:
                a = a.ravel()
            axis = 0
        ax = axis % a.ndim
        g = a.getter()
        rest = [k for k in range(a.ndim) if k != ax]

        def h(*v):
            def el(j):
                idx = [None] * a.ndim
                idx[ax] = j
                for k, x in zip(rest, v):
                    idx[k] = x
                return g(*idx)
            if skipnan:
                vs, x = A._bounded_eval([a.shape[ax]], el)
                x = num(x)
                if x.nan is not None:
                    bad = ~any_over([a.shape[ax]],
                                    lambda j: ~nan_of(num(el(j))))
                    if not rest:
                        if E.decide(bad.t):
                            raise ValueError('All-NaN slice encountered')
                    app = E.make_fun(
                        'm' + kind, [([zi(a.shape[ax])], [vs[0].t],
                                      [z3.simplify(x.t),
                                       z3.simplify(z_not(x.nan))])], [],
                        z3.IntSort())
                    return SNum(app)
            return argext(kind, a.shape[ax], el)
        if not rest:
            return h()
        return SArray([a.shape[k] for k in rest], h, 'i')
    return f


argmax = _mkarg('argmax')
argmin = _mkarg('argmin')
nanargmax = _mkarg('argmax', True)
nanargmin = _mkarg('argmin', True)


def ptp(a, axis=None, **kw):
    return amax(a, axis=axis) - amin(a, axis=axis)


def cumsum(a, axis=None, **kw):
    a = as_sarray(a)
    if a.ndim != 1:
        if axis is None:
            raise Unsupported('cumsum nd')
        ax = axis % a.ndim
    else:
        ax = 0
    g = a.getter()

    def f(*v):
        v = list(v)
        return sum_over((py(num(v[ax]) + 1),), lambda k: g(
            *(v[:ax] + [k] + v[ax + 1:])))
    return SArray(a.shape, f, a.kind)


def trapz(y, x=None, dx=1.0, axis=-1):
    y = as_sarray(y)
    ax = axis % y.ndim
    g = y.getter()
    n = y.shape[ax]
    xg = as_sarray(x).getter() if x is not None else None
    rest = [k for k in range(y.ndim) if k != ax]

    def f(*v):
        def el(j):
            idx = [None] * y.ndim
            idx[ax] = j
            for k, q in zip(rest, v):
                idx[k] = q
            return g(*idx)

        def t(j):
            j1 = py(num(j) + 1)
            d = dx if xg is None else num(xg(j1)) - xg(j)
            return (num(el(j)) + el(j1)) / 2 * d
        return sum_over((py(num(n) - 1),), t)
    if not rest:
        return f()
    return SArray([y.shape[k] for k in rest], f, 'f')


# -- elementwise -------------------------------------------------------
def _pyelse(pyf, f):
    def g(x):
        if isinstance(x, Sym):
            return f(x)
        return pyf(x)
    return g


def _isnan(x):
    x = lift(x)
    if isinstance(x, SBool):
        return SBool(FALSE)
    n = x.nan
    return SBool(FALSE if n is None else n)


def isnan(x, **kw):
    if isinstance(x, (SArray, SList, list, tuple, _np.ndarray)):
        return elementwise(_isnan, x, kind='b')
    if not isinstance(x, Sym):
        return _np.isnan(x)
    return _isnan(x)


def isinf(x, **kw):
    # numbers are finite unless the code says infinity (see trusted base)
    def f(v):
        v = lift(v)
        return v.inf if isinstance(v, SExt) else SBool(FALSE)
    if isinstance(x, (SArray, list, tuple, _np.ndarray)):
        return elementwise(f, x, kind='b')
    if isinstance(x, SExt):
        return x.inf
    if not isinstance(x, Sym):
        return _np.isinf(x)
    return SBool(FALSE)


def isfinite(x, **kw):
    r = isnan(x)
    if isinstance(r, (SArray, SBool)):
        return ~(r | isinf(x))
    return _np.isfinite(x)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        v = lift(v)
        if isinstance(v, SBool):
            return v
        if isinstance(v, SCplx):
            return SCplx(f(v.re), f(v.im))
        if isinstance(v, SExt):
            raise Unsupported('infinity')
        if v.nan is None:
            return v
        return ite(nan_of(v), nan, denan(v))
    if isinstance(x, (SArray, SList, list, tuple, _np.ndarray)):
        r = elementwise(f, x)
        if not copy and isinstance(x, SArray):
            return _out(x, r)
        return r
    if not isinstance(x, Sym):
        return _np.nan_to_num(x, nan=nan)
    return f(x)


sqrt = _unary(M.ssqrt, 'f')
exp = _unary(_pyelse(math.exp, M.sexp), None)
log = _unary(_pyelse(lambda x: float(_np.log(x)), M.slog), 'f')
cos = _unary(_pyelse(math.cos, lambda x: M.uf('cos', x)), 'f')
sin = _unary(_pyelse(math.sin, lambda x: M.uf('sin', x)), 'f')
tan = _unary(_pyelse(math.tan, lambda x: M.uf('tan', x)), 'f')
log10 = _unary(_pyelse(math.log10, lambda x: M.uf('log10', x)), 'f')
arctan2 = _binary(lambda a, b: M.uf('arctan2', a, b), 'f')


def _abs1(x):
    return __builtins_abs(x)


__builtins_abs = __import__('builtins').abs


def absolute(x, out=None, **kw):
    if isinstance(x, (SArray, SList, list, tuple, _np.ndarray)):
        a = as_sarray(x)
        return _out(out, elementwise(
            lambda v: __builtins_abs(lift(v) if not isinstance(v, Sym)
                                     else v), a,
            kind='f' if a.kind == 'c' else a.kind))
    return __builtins_abs(x)


abs = fabs = absolute


def _fl(x):
    r = M.sfloor(x)
    return SNum(toreal(r.t), r.nan)


def _ce(x):
    r = M.sceil(x)
    return SNum(toreal(r.t), r.nan)


floor = _unary(_pyelse(lambda x: float(math.floor(x)), _fl), 'f')
ceil = _unary(_pyelse(lambda x: float(math.ceil(x)), _ce), 'f')


def _tr0(x):
    r = M.strunc(x)
    return SNum(toreal(r.t), r.nan)


fix = trunc = _unary(_pyelse(lambda x: float(math.trunc(x)), _tr0), 'f')
sign = _unary(_pyelse(_np.sign, M.ssign), None)


def around(x, decimals=0, **kw):
    def f(v):
        if not isinstance(v, Sym):
            return _np.around(v, decimals)
        r = M.sround(v, decimals)
        return SNum(toreal(r.t), r.nan)
    if isinstance(x, (SArray, list, tuple, _np.ndarray)):
        return elementwise(f, x, kind='f')
    return f(x)


round = round_ = around

add = _binary(lambda a, b: a + b)
subtract = _binary(lambda a, b: a - b)
multiply = _binary(lambda a, b: a * b)
divide = true_divide = _binary(lambda a, b: a / b)
floor_divide = _binary(lambda a, b: a // b)
power = _binary(lambda a, b: a ** b)
mod = remainder = _binary(lambda a, b: a % b)
logical_and = _binary(lambda a, b: _tr(a) & _tr(b), 'b')
logical_or = _binary(lambda a, b: _tr(a) | _tr(b), 'b')
logical_xor = _binary(lambda a, b: _tr(a) ^ _tr(b), 'b')
greater = _binary(lambda a, b: a > b, 'b')
greater_equal = _binary(lambda a, b: a >= b, 'b')
less = _binary(lambda a, b: a < b, 'b')
less_equal = _binary(lambda a, b: a <= b, 'b')
equal = _binary(lambda a, b: a == b, 'b')
not_equal = _binary(lambda a, b: a != b, 'b')
logical_not = _unary(lambda a: ~_tr(a), 'b')
fmod = _binary(lambda a, b: a - b * _tr0(num(a / b)))


def _npmax(a, b):
    a, b = num(a), num(b)
    r = ite(SBool((a - b).t >= 0), SNum(a.t), SNum(b.t))
    return SNum(r.t, z_or(a.nan, b.nan))


def _npmin(a, b):
    a, b = num(a), num(b)
    r = ite(SBool((a - b).t <= 0), SNum(a.t), SNum(b.t))
    return SNum(r.t, z_or(a.nan, b.nan))


maximum = _binary(_npmax)
minimum = _binary(_npmin)


def heaviside(x, h):
    def f(v, hh):
        v = num(v)
        r = ite(SBool(v.t > 0), 1., ite(SBool(v.t < 0), 0., hh))
        return SNum(toreal(num(r).t), z_or(num(r).nan, v.nan))
    return _binary(f)(x, h)


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    def f(x, y):
        x, y = num(x), num(y)
        return __builtins_abs(x - y) <= (num(atol) + num(rtol) *
                                         __builtins_abs(y))
    return _binary(f, 'b')(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    r = isclose(a, b, rtol, atol)
    return all(r) if isinstance(r, SArray) else r


def array_equal(a, b, **kw):
    a, b = as_sarray(a), as_sarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if A.dim_eq(x, y) is not True:
            if not E.decide(zi(x) == zi(y)):
                return False
    return all(a == b)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    def f(x, lo, hi):
        x = num(x)
        r = x
        if lo is not None:
            r = _npmax(r, num(lo))
        if hi is not None:
            r = _npmin(r, num(hi))
        return r
    arrs = [a]
    if a_min is not None and a_max is not None:
        r = elementwise(lambda x, lo, hi: f(x, lo, hi), a, a_min, a_max)
    elif a_min is not None:
        r = elementwise(lambda x, lo: f(x, lo, None), a, a_min)
    else:
        r = elementwise(lambda x, hi: f(x, None, hi), a, a_max)
    return _out(out, r)


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    if not _isarr(c) and not _isarr(a) and not _isarr(b):
        return ite(_tr(c), a, b)
    return elementwise(lambda x, p, q: ite(_tr(x), p, q), c, a, b)


def nonzero(c):
    c = as_sarray(c)
    if c.ndim != 1:
        raise Unsupported('nonzero of nd array')
    if c.kind != 'b':
        c = elementwise(_tr, c, kind='b')
    return (A.nonzero1(c),)


def flatnonzero(c):
    return nonzero(c)[0]


def argwhere(c):
    c = as_sarray(c)
    r = nonzero(c)[0]
    g = r.getter()
    q = SArray((r.shape[0], 1), lambda i, j: g(i), 'i')
    q.maskof = r.maskof if False else None
    return q


def count_nonzero(c, axis=None, **kw):
    return _reduce(c, axis, lambda b, f, m: _num_elems(
        b, lambda *v: _tr(f(*v))), kind='i')


# -- rearranging -------------------------------------------------------
def squeeze(a, axis=None):
    if isinstance(a, _np.ndarray) and a.dtype.kind not in 'bifcu':
        return _np.squeeze(a, axis)
    return A.squeeze(a, axis)


def reshape(a, shape, **kw):
    return A.reshape(a, shape)


def ravel(a, **kw):
    return A.reshape(a, (-1,))


def transpose(a, *x):
    return as_sarray(a).transpose(*x)


def flip(a, axis=None):
    a = as_sarray(a)
    if axis is None:
        ax = range(a.ndim)
    elif isinstance(axis, (tuple, list)):
        ax = [x % a.ndim for x in axis]
    else:
        ax = [axis % a.ndim]
    return a[tuple(slice(None, None, -1) if k in ax else slice(None)
                   for k in range(a.ndim))]


def flipud(a):
    return flip(a, 0)


def fliplr(a):
    return flip(a, 1)


def concatenate(arrs, axis=0, **kw):
    if isinstance(arrs, SList):
        raise Unsupported('concatenate of a symbolic list')
    arrs = [as_sarray(a) for a in arrs]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    nd = arrs[0].ndim
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        nd, axis = 1, 0
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    ax = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for k in range(nd):
            if k != ax:
                e = A.dim_eq(a.shape[k], arrs[0].shape[k])
                if e is None:
                    e = E.decide(zi(a.shape[k]) == zi(arrs[0].shape[k]))
                if not e:
                    raise ValueError('all the input array dimensions except '
                                     'for the concatenation axis must match')
    offs = [0]
    for a in arrs:
        o = offs[-1] + a.shape[ax]
        offs.append(py(o) if isinstance(o, Sym) else o)
    gs = [a.getter() for a in arrs]

    def f(*v):
        i = v[ax]
        if isinstance(i, int) and __builtins_all(
                isinstance(o, int) for o in offs):
            for k in range(len(gs)):
                if offs[k] <= i < offs[k + 1]:
                    w = list(v)
                    w[ax] = i - offs[k]
                    return gs[k](*w)
        out = None
        for k in range(len(gs) - 1, -1, -1):
            w = list(v)
            d = i - offs[k] if not (isinstance(offs[k], int) and
                                    offs[k] == 0) else i
            w[ax] = py(d) if isinstance(d, Sym) else d
            val = gs[k](*w)
            if out is None:
                out = val
            else:
                out = ite(SBool(z3.simplify(zi(i) < zi(offs[k + 1]))), val,
                          out)
        return out
    shape = list(arrs[0].shape)
    shape[ax] = offs[-1]
    return SArray(shape, f, _kmax(*[a.kind for a in arrs]))




def hstack(arrs, **kw):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs, **kw):
    return concatenate([atleast_2d(a) for a in arrs], 0)


def stack(arrs, axis=0):
    a = A.stack_list(list(arrs))
    if axis == 0:
        return a
    return moveaxis(a, 0, axis)


def moveaxis(a, s, d):
    order = [k for k in range(a.ndim) if k != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*order)


def expand_dims(a, axis):
    a = as_sarray(a)
    n = a.ndim + 1
    axis = axis % n
    key = [slice(None)] * a.ndim
    key.insert(axis, None)
    return a[tuple(key)]


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(as_sarray(a)) if as_sarray(a).ndim else
                            atleast_1d(a), atleast_1d(b)])
    return concatenate([a, b], axis)


def tile(a, reps):
    a = as_sarray(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [ival(r) for r in reps]
    nd = __builtins_max(a.ndim, len(reps))
    sh = [1] * (nd - a.ndim) + list(a.shape)
    reps = [1] * (nd - len(reps)) + reps
    g = a.getter()
    off = nd - a.ndim

    def f(*v):
        w = []
        for k in range(off, nd):
            if isinstance(reps[k], int) and reps[k] == 1:
                w.append(v[k])
            elif isinstance(sh[k], int) and sh[k] == 1:
                w.append(0)
            else:
                w.append(py(num(v[k]) % sh[k]))
        return g(*w)
    shape = []
    for s, r in zip(sh, reps):
        if isinstance(r, int) and r == 1:
            shape.append(s)
        elif isinstance(s, int) and s == 1:
            shape.append(A._nonneg(r))
        else:
            x = num(s) * r
            shape.append(py(x))
    return SArray(shape, f, a.kind)




def repeat(a, n, axis=None):
    a = as_sarray(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    ax = axis % a.ndim
    g = a.getter()

    def f(*v):
        w = list(v)
        w[ax] = py(num(w[ax]) // n)
        return g(*w)
    shape = list(a.shape)
    shape[ax] = py(num(shape[ax]) * n)
    return SArray(shape, f, a.kind)


def roll(a, shift, axis=None):
    a = as_sarray(a)
    if axis is None:
        if a.ndim == 1:
            axis = 0
        else:
            sh = a.shape
            if isinstance(shift, (tuple, list)):
                s = 0
                for x in shift:
                    s = s + x
                shift = s
            return reshape(roll(a.ravel(), shift, 0), sh)
    if isinstance(axis, (tuple, list)):
        for s, x in zip(shift, axis):
            a = roll(a, s, x)
        return a
    ax = axis % a.ndim
    g = a.getter()
    n = a.shape[ax]

    def f(*v):
        w = list(v)
        d = num(w[ax]) - shift
        # i - shift modulo n, without a mod when the shift is in range
        w[ax] = py(d % n)
        return g(*w)
    return SArray(a.shape, f, a.kind)


def diff(a, n=1, axis=-1, **kw):
    a = as_sarray(a)
    ax = axis % a.ndim
    k1 = [slice(None)] * a.ndim
    k2 = [slice(None)] * a.ndim
    k1[ax] = slice(1, None)
    k2[ax] = slice(None, -1)
    return a[tuple(k1)] - a[tuple(k2)]


def delete(a, obj, axis=None):
    a = as_sarray(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    ax = axis % a.ndim
    n = a.shape[ax]
    if isinstance(obj, (SArray,)) and obj.maskof is not None:
        m = ~obj.maskof
    elif isinstance(obj, SArray) and obj.kind == 'b':
        m = ~obj
    elif isinstance(obj, (list, tuple, _np.ndarray)):
        ks = [ival(o) for o in list(obj)]
        m = SArray((n,), lambda i: ~_inlist(i, ks, n), 'b')
    else:
        ks = [ival(obj)]
        m = SArray((n,), lambda i: ~_inlist(i, ks, n), 'b')
    key = [slice(None)] * a.ndim
    key[ax] = m
    return a[tuple(key)]


def _inlist(i, ks, n):
    r = SBool(FALSE)
    for k in ks:
        kk = py(num(k) + n) if (isinstance(k, int) and k < 0) else k
        r = r | (num(i) == kk)
    return r


def dot(a, b, **kw):
    if not (_isarr(a) and _isarr(b)):
        return a * b
    a, b = as_sarray(a), as_sarray(b)
    n1 = a.shape[-1]
    n2 = b.shape[-2] if b.ndim > 1 else b.shape[0]
    e = A.dim_eq(n1, n2)
    if e is None:
        e = E.decide(zi(n1) == zi(n2))
    if not e:
        raise ValueError('shapes not aligned')
    ga, gb = a.getter(), b.getter()
    na = a.ndim - 1

    def f(*v):
        va, vb = v[:na], v[na:]
        if b.ndim == 1:
            return sum_over((n1,), lambda k: lift(ga(*va, k)) * gb(k))
        return sum_over((n1,), lambda k: lift(ga(*va, k)) * gb(
            *vb[:-1], k, vb[-1]))
    shape = list(a.shape[:-1]) + (list(b.shape[:-2]) + [b.shape[-1]]
                                  if b.ndim > 1 else [])
    if not shape:
        return f()
    return SArray(shape, f, _kmax(a.kind, b.kind))


matmul = dot


def outer(a, b):
    a, b = as_sarray(a), as_sarray(b)
    ga, gb = a.getter(), b.getter()
    return SArray((a.shape[0], b.shape[0]),
                  lambda i, j: lift(ga(i)) * gb(j), _kmax(a.kind, b.kind))


def convolve(a, v, mode='full'):
    """numpy.convolve for 1-D input: out[k] = sum_j a[j] v[k-j]"""
    a, v = as_sarray(a), as_sarray(v)
    na, nv = a.shape[0], v.shape[0]
    ga, gv = a.getter(), v.getter()
    mx, mn = M.smax(na, nv), M.smin(na, nv)
    if mode == 'full':
        off, n = num(0), num(na) + nv - 1
    elif mode == 'same':
        off, n = (mn - 1) // 2, mx
    else:
        off, n = mn - 1, mx - mn + 1

    def f(k):
        kk = num(k) + off

        def t(j):
            q = kk - j
            ok = (q >= 0) & (q < nv)
            return ite(ok, num(ga(j)) * gv(py(ite(ok, q, 0))), 0.)
        return sum_over((na,), t)
    return SArray((py(n),), f, 'f')


def interp(x, xp, fp, **kw):
    raise Unsupported('np.interp')


def isscalar(x):
    if isinstance(x, (SNum, SBool, SCplx)):
        return True
    if isinstance(x, (SArray, SList)):
        return False
    return _np.isscalar(x)


def shape(a):
    return as_sarray(a).shape


def ndim(a):
    return as_sarray(a).ndim


def size(a):
    return as_sarray(a).size


def sort(a, axis=-1, **kw):
    if isinstance(a, _np.ndarray) or not issym(a):
        return as_sarray(_np.sort(_np.asarray(a)))
    raise Unsupported('sort')


def unique(a, **kw):
    if not issym(a):
        return _np.unique(a, **kw)
    raise Unsupported('unique')


def require(a, *x, **k):
    return as_sarray(a)


def real(a):
    return as_sarray(a).real if _isarr(a) else lift(a).real


def imag(a):
    return as_sarray(a).imag


def conj(a):
    return as_sarray(a).conj() if _isarr(a) else lift(a).conj()


conjugate = conj


def angle(a):
    return elementwise(lambda z: M.uf('arctan2', SCplx._c(z).im,
                                      SCplx._c(z).re), a, kind='f')


def logspace(a, b, num=50, **kw):
    if issym(a, b, num):
        raise Unsupported('logspace')
    return as_sarray(_np.logspace(a, b, num, **kw))


class errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def polyfit(x, y, deg, **kw):
    raise Unsupported('polyfit')


METHODS = {}
for _n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'any', 'all', 'argmax',
           'argmin', 'clip', 'dot', 'round', 'cumsum', 'nonzero', 'repeat',
           'ptp'):
    METHODS[_n] = globals()[_n]


# -- submodules --------------------------------------------------------
def _dft(kind, x, n, axis):
    """discrete Fourier transform as an uninterpreted linear-free operator:
    value at bin k depends only on (zero padded/cropped data, n, k)"""
    x = as_sarray(x)
    ax = axis % x.ndim
    n = x.shape[ax] if n is None else ival(n)
    g = x.getter()
    E.assumed.add('numpy.fft.' + kind)
    L = x.shape[ax]

    def pad(v):
        def el(j):
            w = list(v)
            w[ax] = j
            if A.dim_eq(L, n) is True:
                return g(*w)
            c = SBool(z3.simplify(zi(j) < zi(L)))
            return ite(c, g(*w), 0.)
        return el

    def f(*v):
        el = pad(v)
        vs, val = A._bounded_eval([n], el)
        k = v[ax]
        if x.kind == 'c' or isinstance(lift(val), SCplx):
            val = SCplx._c(val)
            bodies = [z3.simplify(toreal(val.re.t)),
                      z3.simplify(toreal(val.im.t))]
            nan = A._nan_any([n], lambda j: SNum(z3.RealVal(0), SCplx._c(
                el(j)).nan))
        else:
            val = num(val)
            bodies = [z3.simplify(toreal(val.t))]
            nan = A._nan_any([n], el)
        outs = []
        for part in ('re', 'im'):
            app = E.make_fun(kind + '_' + part, [(
                [zi(n)], [vs[0].t], bodies)], [zi(k)], z3.RealSort())
            outs.append(SNum(app, nan))
        return SCplx(*outs)
    return x, ax, n, f


def _rfft(x, n=None, axis=-1, **kw):
    x, ax, n, f = _dft('rfft', x, n, axis)
    shape_ = list(x.shape)
    shape_[ax] = py(num(n) // 2 + 1)
    return SArray(shape_, f, 'c')


def _fft(x, n=None, axis=-1, **kw):
    x, ax, n, f = _dft('fft', x, n, axis)
    shape_ = list(x.shape)
    shape_[ax] = n
    return SArray(shape_, f, 'c')


def _irfft(x, n=None, axis=-1, **kw):
    x = as_sarray(x)
    ax = axis % x.ndim
    m = x.shape[ax]
    n = py((num(m) - 1) * 2) if n is None else ival(n)
    g = x.getter()
    E.assumed.add('numpy.fft.irfft')
    need = py(num(n) // 2 + 1)

    def f(*v):
        def el(j):
            w = list(v)
            w[ax] = j
            if A.dim_eq(m, need) is True:
                return g(*w)
            c = SBool(z3.simplify(zi(j) < zi(m)))
            return ite(c, g(*w), SCplx(num(0.), num(0.)))
        vs, val = A._bounded_eval([need], el)
        val = SCplx._c(val)
        nan = A._nan_any([need], lambda j: SNum(z3.RealVal(0), SCplx._c(
            el(j)).nan))
        app = E.make_fun('irfft', [(
            [zi(need)], [vs[0].t],
            [z3.simplify(toreal(val.re.t)), z3.simplify(toreal(val.im.t))])],
            [zi(n), zi(v[ax])], z3.RealSort())
        return SNum(app, nan)
    shape_ = list(x.shape)
    shape_[ax] = n
    return SArray(shape_, f, 'f')


def _rfftfreq(n, d=1.0):
    n_ = py(num(n) // 2 + 1)
    return SArray((n_,), lambda k: num(k) / (num(n) * d), 'f')


fft = types.SimpleNamespace(rfft=_rfft, irfft=_irfft, fft=_fft,
                            rfftfreq=_rfftfreq)


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None:
        raise Unsupported('norm order')
    return sqrt(sum(absolute(x) ** 2, axis=axis, keepdims=keepdims))


def _matfun(name):
    def f(a, **kw):
        a = as_sarray(a)
        g = a.getter()
        E.assumed.add('numpy.linalg.' + name)
        sc0 = [toreal(num(kw[k]).t) for k in sorted(kw)]

        def el(i, j):
            vs, val = A._bounded_eval(a.shape, g)
            val = num(val)
            app = E.make_fun('la_' + name, [(
                [zi(s) for s in a.shape], [x.t for x in vs],
                [z3.simplify(toreal(val.t))])], sc0 + [zi(i), zi(j)],
                z3.RealSort())
            return SNum(app, A._nan_any(a.shape, g))
        return SArray((a.shape[1], a.shape[0]), el, 'f')
    return f


linalg = types.SimpleNamespace(norm=_norm, inv=_matfun('inv'),
                               pinv=_matfun('pinv'))


def _ma(name):
    def f(*a, **k):
        if issym(*a):
            raise Unsupported('np.ma.' + name)
        return getattr(_np.ma, name)(*a, **k)
    return f


class SMasked(object):
    """masked array over symbolic data; masked elements read as NaN"""

    def __init__(self, data, mask):
        data = as_sarray(data)
        g, m = data.getter(), as_sarray(mask)
        m = A.broadcast([data, m])[1][1] if m.shape != data.shape else m
        mg = m.getter()
        bad = A.any_over(data.shape, lambda *v: nan_of(num(g(*v))) &
                         ~lift(mg(*v)))
        if E.decide(bad.t):
            raise Unsupported('masked array with unmasked NaN')
        self.a = SArray(data.shape, lambda *v: ite(
            lift(mg(*v)), num(float('nan')), g(*v)), data.kind)

    @classmethod
    def wrap(cls, a):
        r = object.__new__(cls)
        r.a = as_sarray(a)
        return r

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    def __getitem__(self, k):
        return SMasked.wrap(self.a[k])

    def filled(self, v=None):
        if v is None:
            raise Unsupported('default fill value')
        g = self.a.getter()

        def f(*i):
            x = num(g(*i))
            return ite(nan_of(x), num(v), x)
        return SArray(self.a.shape, f, self.a.kind)

    def reduce(self, red, axis, keepdims, kind):
        r = _reduce(self.a, axis, red, keepdims, kind)
        return SMasked.wrap(r) if isinstance(r, SArray) else r


def _masked_array(data, mask=False, *a, **k):
    if a or k:
        raise Unsupported('np.ma.masked_array options')
    if not issym(data, mask):
        return _np.ma.masked_array(data, mask)
    return SMasked(data, mask)


class _MA(object):
    MaskedArray = _np.ma.MaskedArray
    masked = _np.ma.masked

    masked_array = staticmethod(_masked_array)

    def __getattr__(self, n):
        if n == 'is_masked':
            return lambda x: False if isinstance(x, Sym) else \
                _np.ma.is_masked(x)
        return _ma(n)


ma = _MA()


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SArray, _np.ndarray))


class ndarray(metaclass=_NDMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SNum) and not x.is_int or isinstance(
            x, cls._np)

    def __call__(cls, x=0.):
        from .builtins_shim import sfloat
        return sfloat(x)


class float64(metaclass=_FloatMeta):
    _np = _np.float64


class float32(metaclass=_FloatMeta):
    _np = _np.float32


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SNum) and x.is_int or isinstance(x, cls._np)

    def __call__(cls, x=0):
        from .builtins_shim import sint
        return sint(x)


class int64(metaclass=_IntMeta):
    _np = _np.int64


class int32(metaclass=_IntMeta):
    _np = _np.int32


nan = float('nan')
NaN = nan
def result_type(*xs):
    """kind only: widths of number types are not modelled"""
    ks = []
    for x in xs:
        if isinstance(x, type):
            ks.append(_np.dtype(getattr(x, '_np', x)).kind)
        else:
            ks.append(as_sarray(x).kind)
    if 'c' in ks:
        return complex
    return _np.float64 if 'f' in ks else int


pi = math.pi
newaxis = None
inf = float('inf')


class Module(types.ModuleType):
    """`numpy` as seen by the code under contract"""

    def __getattr__(self, name):
        g = globals()
        if name.startswith('__'):
            raise AttributeError(name)
        if name in g and not name.startswith('_'):
            return g[name]
        r = getattr(_np, name)
        if isinstance(r, type) or not callable(r):
            return r

        def w(*a, **k):
            if issym(*a) or issym(k):
                raise Unsupported('numpy.' + name)
            return r(*a, **k)
        return w


MODULE = Module('numpy')
MODULE.__path__ = []


def _operand(x):
    return as_sarray(x) if isinstance(
        x, (SList, list, tuple, _np.ndarray)) else x


def hypot(a, b, **kw):
    if kw or not issym(a, b):
        return _np.hypot(a, b, **kw)
    a, b = _operand(a), _operand(b)
    return sqrt(a**2 + b**2)


def square(a, **kw):
    if kw or not issym(a):
        return _np.square(a, **kw)
    return _operand(a)**2


def negative(a, **kw):
    if kw or not issym(a):
        return _np.negative(a, **kw)
    return -_operand(a)


def positive(a, **kw):
    if kw or not issym(a):
        return _np.positive(a, **kw)
    return _operand(a)*1


def reciprocal(a, **kw):
    if kw or not issym(a):
        return _np.reciprocal(a, **kw)
    return 1./_operand(a)


def ascontiguousarray(a, dtype=None):
    if not issym(a):
        return _np.ascontiguousarray(a, dtype)
    return asarray(a, dtype)


def pad(a, pad_width, mode='constant', **kw):
    """padding with a constant"""
    if not issym(a, pad_width):
        return _np.pad(a, pad_width, mode, **kw)
    value = kw.pop('constant_values', 0)
    if kw or mode != 'constant' or isinstance(value, (
            list, tuple, _np.ndarray)):
        raise Unsupported('numpy.pad')
    a = as_sarray(a)
    if not isinstance(pad_width, (list, tuple)):
        pad_width = (pad_width, pad_width)
    pad_width = list(pad_width)
    if not isinstance(pad_width[0], (list, tuple)):
        pad_width = [tuple(pad_width)]
    if len(pad_width) == 1:
        pad_width = pad_width*a.ndim
    if [len(p) for p in pad_width] != [2]*a.ndim:
        raise Unsupported('numpy.pad')
    for ax, w in enumerate(pad_width):
        parts = [a]
        for k in (0, 1):
            if isinstance(w[k], int) and w[k] == 0:
                continue
            shape = list(a.shape)
            shape[ax] = w[k]
            p = full(tuple(shape), value, dtype=a.dtype)
            parts.insert(0 if k == 0 else len(parts), p)
        if len(parts) > 1:
            a = concatenate(parts, axis=ax)
    return a


class _R(object):
    """np.r_ for one-dimensional parts"""

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if not issym(*ks):
            return _np.r_[k]
        for x in ks:
            if isinstance(x, (slice, str)):
                raise Unsupported('np.r_ with slices or directives')
        ks = [atleast_1d(x) for x in ks]
        for x in ks:
            if len(x.shape) != 1:
                raise Unsupported('np.r_ of matrices')
        return concatenate(ks)


r_ = _R()
