"""Symbolic NumPy arrays: symbolic shape plus a function from index to value.

Views share storage with their base (basic slicing), so in-place writes through
a view reach the base exactly as in NumPy.
"""
import builtins
import itertools
import numpy as np
import z3

from .values import (Sym, SNum, SBool, SCplx, SExt, STime, Unsupported, lift, num,
                     ite, py, is_pynum, is_pycplx, toreal, z_or, z_and,
                     z_not, TRUE, FALSE, nan_of, denan, same)
from .engine import E, bound_vars


def ival(x):
    """index/dimension -> python int or SNum(Int)"""
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, SNum):
        if not x.is_int:
            raise TypeError(
                'only integers, slices (`:`), ellipsis (`...`), '
                'numpy.newaxis (`None`) and integer or boolean arrays are '
                'valid indices')
        return py(x)
    if isinstance(x, SBool):
        return py(num(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return int(x)
    if isinstance(x, SArray) and x.ndim == 0:
        return ival(x.at())
    raise TypeError('%r object cannot be interpreted as an integer'
                    % type(x).__name__)


def dim_eq(a, b):
    """True / False / None"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    ta, tb = num(a).t, num(b).t
    if ta.eq(tb):
        return True
    return E.known(ta == tb)


def zi(x):
    return num(x).t


class Fn(object):
    """memoised index function"""
    __slots__ = ('f', 'cache')

    def __init__(self, f):
        self.f = f
        self.cache = {}

    def __call__(self, *idx):
        key = tuple(i if isinstance(i, int) else ('t', i.t.get_id())
                    for i in idx)
        r = self.cache.get(key)
        if r is None:
            v = self.f(*idx)
            self.cache[key] = r = (v, idx)
        return r[0]


class Storage(object):
    def __init__(self, shape, fn, kind):
        self.shape = tuple(shape)
        self._fn = Fn(fn) if not isinstance(fn, Fn) else fn
        self.kind = kind
        self.loop = list(E.loop_stack)      # loops active at creation

    @property
    def fn(self):
        return self._fn

    @fn.setter
    def fn(self, f):
        self._fn = f if isinstance(f, Fn) else Fn(f)

    def write(self, f):
        if E.loop_stack:
            E.journal.append((self, self._fn))
        self.fn = f


def _kind_of_scalar(v):
    if isinstance(v, (SBool, bool, np.bool_)):
        return 'b'
    if isinstance(v, SNum):
        return 'i' if v.is_int else 'f'
    if isinstance(v, SExt):
        return 'f'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating)):
        return 'f'
    if isinstance(v, SCplx) or is_pycplx(v):
        return 'c'
    return 'O'


_ORDER = 'bifcO'


def _kmax(*ks):
    return max(ks, key=_ORDER.index)


class SArray(Sym):
    _is_sarray = True
    __hash__ = None

    def __init__(self, shape, fn=None, kind='f', storage=None, axes=None,
                 comp=None, maskof=None):
        self.shape = tuple(ival(s) for s in shape)
        if storage is None:
            storage = Storage(self.shape, fn, kind)
            axes = [('sl', k, 0, 1) for k in range(len(self.shape))]
        self.st = storage
        self.axes = axes
        self.comp = comp        # (mask SArray-fn, n, full fn): compressed 1-D
        self.maskof = maskof    # index array of the set positions of a mask

    # -- basic attributes
    @property
    def kind(self):
        return self.st.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return py(r) if isinstance(r, Sym) else r

    @property
    def dtype(self):
        return np.dtype({'b': 'bool', 'i': 'int64', 'f': 'float64',
                         'c': 'complex128', 'O': 'object'}[self.kind])

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        n = self.shape[0]
        if isinstance(n, int):
            return n
        return n.__index__()

    def __bool__(self):
        if self.size == 1:
            return bool(self.at(*([0] * self.ndim)))
        if isinstance(self.size, int) and self.size > 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous.')
        raise Unsupported('truth value of an array')

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[k] for k in range(n)])
        raise Unsupported('iteration over a symbolic array')

    def __repr__(self):
        return 'SArray%s' % (self.shape,)

    def __format__(self, spec):
        return '<symarray>'

    # -- reading
    def _sidx(self, vidx):
        out = []
        for a in self.axes:
            if a[0] == 'fix':
                out.append(a[1])
            else:
                _, v, off, step = a
                i = vidx[v]
                if step != 1:
                    i = i * step
                if not (isinstance(off, int) and off == 0):
                    i = i + off
                out.append(py(i) if isinstance(i, Sym) else i)
        return out

    def getter(self):
        """index function of the current contents (snapshot)"""
        fn = self.st.fn
        self._note_read()
        if self.comp is None and all(
                a[0] == 'sl' and a[1] == k and isinstance(a[2], int) and
                a[2] == 0 and a[3] == 1 for k, a in enumerate(self.axes)) \
                and len(self.axes) == self.ndim:
            return fn
        return Fn(lambda *v: fn(*self._sidx(v)))

    def _note_read(self):
        if E.loop_stack:
            E.loop_stack[-1].note(self, None, False)

    def at(self, *vidx):
        fn = self.st.fn
        if E.loop_stack:
            E.loop_stack[-1].note(self, vidx, False)
        return fn(*self._sidx(vidx))

    # -- writing through the view
    def _store(self, newval, region=None):
        """newval(vidx)->value for every element of the view (optionally only
        where region(vidx) holds)"""
        old = self.st.fn
        axes = self.axes
        shape = self.shape
        nv = len(shape)
        if E.loop_stack:
            E.loop_stack[-1].note(self, None, True)

        def f(*sidx):
            v = [0] * nv
            conds = []
            for a, s in zip(axes, sidx):
                if a[0] == 'fix':
                    conds.append(_eqc(s, a[1]))
                else:
                    _, k, off, step = a
                    d = s if (isinstance(off, int) and off == 0) else s - off
                    d = py(d) if isinstance(d, Sym) else d
                    if step == 1:
                        v[k] = d
                    elif step == -1:
                        v[k] = py(-d) if isinstance(d, Sym) else -d
                    else:
                        if step < 0:
                            raise Unsupported('write through negative step')
                        if isinstance(d, int):
                            conds.append(d % step == 0)
                        else:
                            conds.append(d % step == 0)
                        v[k] = d // step
                    if not _full(self.st.shape, axes, a, shape):
                        conds.append(_ge0(v[k]))
                        conds.append(_lt(v[k], shape[k]))
            conds = [c for c in conds if c is not True]
            if any(c is False for c in conds):
                return old(*sidx)
            if region is not None:
                r = region(*v)
                if isinstance(r, (bool, np.bool_)):
                    if not r:
                        return old(*sidx)
                else:
                    conds.append(r)
            if not conds:
                return newval(*v)
            c = SBool(z3.simplify(z_and(*[
                c.t if isinstance(c, SBool) else z3.BoolVal(bool(c))
                for c in conds])))
            if z3.is_true(c.t):
                return newval(*v)
            if z3.is_false(c.t):
                return old(*sidx)
            return ite(c, newval(*v), old(*sidx))
        self.st.write(f)

    def _cast(self, v):
        k = self.kind
        if k == 'i' and isinstance(v, SNum) and not v.is_int:
            from .mathfun import strunc
            return strunc(v)
        if k == 'i' and isinstance(v, (float, np.floating)):
            return int(v)
        if k == 'f':
            v = lift(v)
            if isinstance(v, SCplx):
                return v.re
            v = num(v)
            if v.is_int:
                return SNum(toreal(v.t), v.nan)
            return v
        return v

    # -- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, SArray) and k.kind == 'b':
                n_real += k.ndim
            elif isinstance(k, np.ndarray) and k.dtype == bool:
                n_real += k.ndim
            else:
                n_real += 1
        ell = [i for i, k in enumerate(key) if k is Ellipsis]
        if ell:
            i = ell[0]
            key[i:i + 1] = [slice(None)] * (self.ndim - n_real)
        elif n_real < self.ndim:
            key = key + [slice(None)] * (self.ndim - n_real)
        if n_real > self.ndim:
            raise IndexError('too many indices for array')
        return key

    def _index(self, i, n):
        """normalised scalar index; raises IndexError like NumPy"""
        i = ival(i)
        if isinstance(i, int) and isinstance(n, int):
            if i < -n or i >= n:
                raise IndexError('index %d is out of bounds for axis with '
                                 'size %d' % (i, n))
            return i % n if n else i
        zi_, zn = zi(i), zi(n)
        if isinstance(i, int):
            ok = (zn > i) if i >= 0 else (zn >= -i)
        else:
            ok = z3.And(zi_ >= -zn, zi_ < zn)
        if not E.decide(ok):
            raise IndexError('index out of bounds')
        if isinstance(i, int):
            return i if i >= 0 else py(n + i)
        k = E.known(zi_ >= 0)
        if k is True:
            return i
        if k is False:
            return py(i + n)
        return py(ite(SBool(zi_ >= 0), i, i + n))

    def __getitem__(self, key):
        if self.comp is not None:
            return self._comp_get(key)
        if isinstance(key, tuple) and any(
                isinstance(k, SArray) and k.maskof is not None for k in key):
            key = tuple(k.maskof if isinstance(k, SArray) and
                        k.maskof is not None else k for k in key)
        elif isinstance(key, SArray) and key.maskof is not None:
            key = key.maskof
        # full boolean mask
        if isinstance(key, SArray) and key.kind == 'b' and \
                key.ndim == self.ndim:
            return compress(self, key)
        if isinstance(key, np.ndarray) and key.dtype == bool:
            key = as_sarray(key)
            if key.ndim == self.ndim:
                return compress(self, key)
        key = self._norm_key(key)
        adv = [i for i, k in enumerate(key) if isinstance(
            k, (SArray, np.ndarray, list)) and not (
            isinstance(k, (SArray, np.ndarray)) and k.ndim == 0)]
        if adv:
            return self._fancy(key, adv)
        axes_v = self._view_axes()
        shape = []
        newaxes = [a if a[0] == 'fix' else None for a in self.axes]
        vi = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[vi]
            pos = axes_v.get(vi)
            if isinstance(k, slice):
                start, length, step = norm_slice(k, n)
                if pos is not None:
                    _, _, off, st0 = self.axes[pos]
                    o = off + start * st0 if not (
                        isinstance(start, int) and start == 0) else off
                    newaxes[pos] = ('sl', len(shape),
                                    py(o) if isinstance(o, Sym) else o,
                                    st0 * step)
                shape.append(length)
            else:
                i = self._index(k, n)
                if pos is not None:
                    _, _, off, st0 = self.axes[pos]
                    o = off + i * st0
                    newaxes[pos] = ('fix', py(o) if isinstance(o, Sym) else o)
            vi += 1
        r = SArray(shape, storage=self.st, axes=newaxes)
        if not shape and len([k for k in key if k is not None]) == self.ndim:
            return r.at()
        return r

    def _view_axes(self):
        return {a[1]: p for p, a in enumerate(self.axes) if a[0] == 'sl'}

    def _fancy(self, key, adv):
        if len(adv) != 1:
            raise Unsupported('several index arrays')
        p = adv[0]
        k = key[p]
        if isinstance(k, list):
            if all(isinstance(x, (bool, np.bool_, SBool)) for x in k) and k:
                k = stack_scalars(k, 'b')
            else:
                k = stack_scalars(k, 'i')
        elif isinstance(k, np.ndarray):
            k = as_sarray(k)
        rest = list(key)
        if k.kind == 'b':
            if k.ndim != 1:
                raise Unsupported('partial boolean mask of higher rank')
            n = self.shape[p]
            if dim_eq(k.shape[0], n) is False:
                raise IndexError('boolean index did not match')
            ix = nonzero1(k)
        else:
            ix = k
        rest[p] = slice(None)
        base = self[tuple(rest)]
        # position of axis p in base
        q = 0
        for kk in rest[:p]:
            if kk is None or isinstance(kk, slice):
                q += 1
        g = base.getter()
        n = base.shape[q]
        ig = ix.getter()
        m = ix.ndim
        nonneg = k.kind == 'b'

        def f(*v):
            j = ival(ig(*v[q:q + m]))
            if not nonneg:
                if isinstance(j, int):
                    if j < 0:
                        j = py(j + n)
                elif E.known(zi(j) >= 0) is not True:
                    j = py(ite(j >= 0, j, j + n))
            return g(*(list(v[:q]) + [j] + list(v[q + m:])))
        shape = list(base.shape[:q]) + list(ix.shape) + list(
            base.shape[q + 1:])
        # bounds
        if k.kind != 'b':
            if isinstance(n, int) and all(isinstance(s, int)
                                          for s in ix.shape):
                for w in itertools.product(*[range(s) for s in ix.shape]):
                    j = ival(ig(*w))
                    if isinstance(j, int):
                        if not -n <= j < n:
                            raise IndexError('index out of bounds')
                    elif not E.decide(z3.And(zi(j) >= -n, zi(j) < n)):
                        raise IndexError('index out of bounds')
            elif E.axiom_opts is not None and 'nofancybounds' not in \
                    E.axiom_opts:
                bad = any_over(ix.shape, lambda *w: SBool(z3.Or(
                    zi(ig(*w)) < -zi(n), zi(ig(*w)) >= zi(n))))
                if E.decide(bad.t):
                    raise IndexError('index out of bounds')
        r = SArray(shape, f, base.kind)
        if k.kind == 'b' and self.ndim == 1:
            r.comp = (k.getter(), k.shape[0], g)
        return r

    def _comp_get(self, key):
        if isinstance(key, slice) and key == slice(None):
            return self
        # materialise
        r = SArray(self.shape, self.st.fn, self.kind)
        return r[key]

    def __setitem__(self, key, value):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, SArray) and key.maskof is not None:
            key = key.maskof
        if isinstance(key, tuple):
            key = tuple(k.maskof if isinstance(k, SArray) and
                        k.maskof is not None else k for k in key)
        if isinstance(key, np.ndarray) and key.dtype == bool:
            key = as_sarray(key)
        if isinstance(key, SArray) and key.kind == 'b' and \
                key.ndim == self.ndim:
            m = key.getter()
            for a, b in zip(key.shape, self.shape):
                if dim_eq(a, b) is False:
                    raise IndexError('boolean index did not match')
            if isinstance(value, SArray) and value.comp is not None:
                cm, n, g = value.comp
                if not _same_mask(cm, m, self.shape):
                    raise Unsupported('masked store from another mask')
                self._store(lambda *v: self._cast(g(*v)),
                            lambda *v: m(*v))
                return
            val = _bvalue(value, None)
            self._store(lambda *v: self._cast(val()), lambda *v: m(*v))
            return
        nk = self._norm_key(key)
        adv = [i for i, k in enumerate(nk) if isinstance(
            k, (SArray, np.ndarray, list)) and not (
            isinstance(k, (SArray, np.ndarray)) and k.ndim == 0)]
        if adv:
            if len(adv) > 1:
                raise Unsupported('several index arrays in a store')
            p = adv[0]
            k = nk[p]
            if isinstance(k, list):
                k = np.asarray(k) if all(is_pynum(x) for x in k) else \
                    stack_scalars(k, 'i')
            if isinstance(k, np.ndarray) and k.dtype == bool:
                k = as_sarray(k)
            if isinstance(k, SArray) and k.kind == 'b' and k.ndim == 1:
                rest = list(nk)
                rest[p] = slice(None)
                view = self[tuple(rest)]
                q = sum(1 for kk in rest[:p]
                        if kk is None or isinstance(kk, slice))
                m = k.getter()
                if isinstance(value, (SArray, np.ndarray)) and \
                        value.ndim >= view.ndim - q:
                    # row-compressed value: use rank
                    value = as_sarray(value)
                    if not value.comp:
                        g0 = value.getter()
                        rk = rank_of(k)
                        off = value.ndim - view.ndim

                        def nv(*v):
                            w = list(v)
                            w[q] = rk(v[q])
                            w = [0 if (isinstance(s, int) and s == 1) else x
                                 for x, s in zip(w[-value.ndim:],
                                                 value.shape)]
                            return self._cast(g0(*w))
                        view._store(nv, lambda *v: m(v[q]))
                        return
                    raise Unsupported('compressed store')
                shp = list(view.shape)
                shp[q] = 1
                val = _bvalue(value, view.shape)
                view._store(lambda *v: self._cast(val(*v)),
                            lambda *v: m(v[q]))
                return
            if isinstance(k, np.ndarray) and k.ndim == 1:
                for jj, kk in enumerate(k):
                    rest = list(nk)
                    rest[p] = int(kk)
                    if isinstance(value, (SArray, np.ndarray)) and \
                            value.ndim:
                        v = as_sarray(value)
                        sel = [slice(None)] * v.ndim
                        ax = v.ndim - (len([x for x in nk[p:] if isinstance(
                            x, (slice, np.ndarray, list))]))
                        sel[ax] = jj if v.shape[ax] != 1 else 0
                        self[tuple(rest)] = v[tuple(sel)]
                    else:
                        self[tuple(rest)] = value
                return
            if isinstance(k, SArray) and k.kind == 'i' and k.ndim == 1 and \
                    not (isinstance(value, (SArray, np.ndarray)) and
                         value.ndim):
                rest = list(nk)
                rest[p] = slice(None)
                view = self[tuple(rest)]
                q = sum(1 for kk in rest[:p]
                        if kk is None or isinstance(kk, slice))
                hit = image(k, view.shape[q])
                val = _bvalue(value, None)
                view._store(lambda *v: self._cast(val()),
                            lambda *v: hit(v[q]))
                return
            raise Unsupported('store through a symbolic index array')
        view = self._viewkey(tuple(nk))
        if isinstance(value, SArray) and value.st is self.st:
            value = value.copy()
        val = _bvalue(value, view.shape)
        view._store(lambda *v: self._cast(val(*v)))

    def _viewkey(self, key):
        """like basic __getitem__ but never reads scalars out"""
        axes_v = self._view_axes()
        shape = []
        newaxes = [a if a[0] == 'fix' else None for a in self.axes]
        vi = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[vi]
            pos = axes_v.get(vi)
            if isinstance(k, slice):
                start, length, step = norm_slice(k, n)
                if pos is not None:
                    _, _, off, st0 = self.axes[pos]
                    o = off + start * st0
                    newaxes[pos] = ('sl', len(shape),
                                    py(o) if isinstance(o, Sym) else o,
                                    st0 * step)
                shape.append(length)
            else:
                i = self._index(k, n)
                if pos is not None:
                    _, _, off, st0 = self.axes[pos]
                    o = off + i * st0
                    newaxes[pos] = ('fix', py(o) if isinstance(o, Sym) else o)
            vi += 1
        return SArray(shape, storage=self.st, axes=newaxes)

    # -- operators
    def _bin(self, o, f, swap=False, kind=None):
        if isinstance(o, (str, type(None))):
            return NotImplemented
        if swap:
            return elementwise(lambda a, b: f(a, b), o, self, kind=kind)
        return elementwise(f, self, o, kind=kind)

    def _inplace(self, o, f):
        r = elementwise(f, self, o)
        for a, b in zip(r.shape, self.shape):
            if dim_eq(a, b) is False:
                raise ValueError('non-broadcastable output operand')
        if len(r.shape) != len(self.shape):
            raise ValueError('non-broadcastable output operand')
        if self.kind == 'i' and r.kind == 'f':
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        if self.comp is not None:
            return r
        g = r.getter()
        self._store(lambda *v: g(*v))
        return self

    def __neg__(self):
        return elementwise(lambda a: -lift(a), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise(lambda a: abs(lift(a)), self,
                           kind='f' if self.kind == 'c' else None)

    def __invert__(self):
        return elementwise(lambda a: ~lift(a), self, kind='b')

    def __and__(self, o):
        return self._bin(o, lambda a, b: lift(a) & lift(b), kind='b')
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: lift(a) | lift(b), kind='b')
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: lift(a) ^ lift(b), kind='b')

    # -- methods
    def copy(self, *a, **k):
        if self.comp is not None:
            return self
        g = self.getter()
        return SArray(self.shape, lambda *v: g(*v), self.kind)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def astype(self, t, *a, **k):
        return cast(self, t)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *ax):
        n = self.ndim
        if not ax or ax[0] is None:
            ax = tuple(reversed(range(n)))
        elif len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        inv = {o: i for i, o in enumerate(ax)}
        axes = [a if a[0] == 'fix' else ('sl', inv[a[1]], a[2], a[3])
                for a in self.axes]
        return SArray([self.shape[a] for a in ax], storage=self.st, axes=axes)

    def swapaxes(self, i, j):
        ax = list(range(self.ndim))
        i, j = i % self.ndim, j % self.ndim
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(*ax)

    @property
    def real(self):
        return elementwise(lambda a: lift(a).real, self,
                           kind='f' if self.kind == 'c' else None)

    @property
    def imag(self):
        return elementwise(lambda a: SCplx._c(a).im, self, kind='f')

    def conj(self):
        return elementwise(lambda a: lift(a).conj(), self)
    conjugate = conj

    def fill(self, v):
        self._store(lambda *i: self._cast(v))

    def tolist(self):
        if all(isinstance(s, int) for s in self.shape) and self.ndim == 1:
            return [self.at(k) for k in range(self.shape[0])]
        raise Unsupported('tolist')

    def item(self):
        if self.size == 1:
            return self.at(*([0] * self.ndim))
        raise Unsupported('item')

    @property
    def flat(self):
        raise Unsupported('flat')

    def ravel(self, *a):
        return reshape(self, (-1,))
    flatten = ravel

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def __getattr__(self, name):
        if name.startswith('__') or name in (
                'mask', 'stats', 'timestamp', 'data'):
            raise AttributeError(name)
        from . import npshim
        f = npshim.METHODS.get(name)
        if f is None:
            raise AttributeError(name)
        return lambda *a, **k: f(self, *a, **k)


def _mkbin():
    import operator as op
    for name, f in (('add', op.add), ('sub', op.sub), ('mul', op.mul),
                    ('truediv', op.truediv), ('floordiv', op.floordiv),
                    ('mod', op.mod), ('pow', op.pow)):
        def mk(f):
            def g(a, b):
                if not isinstance(a, Sym):
                    a = lift(a)
                return f(a, b)
            return g
        g = mk(f)
        setattr(SArray, '__%s__' % name,
                lambda self, o, g=g: self._bin(o, g))
        setattr(SArray, '__r%s__' % name,
                lambda self, o, g=g: self._bin(o, g, True))
        setattr(SArray, '__i%s__' % name,
                lambda self, o, g=g: self._inplace(o, g))
    for name, f in (('lt', op.lt), ('le', op.le), ('gt', op.gt),
                    ('ge', op.ge), ('eq', op.eq), ('ne', op.ne)):
        def mk2(f):
            def g(a, b):
                return f(lift(a) if not isinstance(a, Sym) else a, b)
            return g
        setattr(SArray, '__%s__' % name,
                lambda self, o, g=mk2(f): self._bin(o, g, kind='b'))


_mkbin()
SArray.__hash__ = None


def _full(sshape, axes, a, vshape):
    p = axes.index(a)
    _, k, off, step = a
    return isinstance(off, int) and off == 0 and step == 1 and (
        sshape[p] is vshape[k] or (
            isinstance(sshape[p], int) and sshape[p] == vshape[k]) or (
            isinstance(sshape[p], SNum) and isinstance(vshape[k], SNum) and
            sshape[p].t.eq(vshape[k].t)))


def _eqc(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = zi(a), zi(b)
    if ta.eq(tb):
        return True
    return SBool(ta == tb)


def _ge0(a):
    if isinstance(a, int):
        return a >= 0
    return SBool(zi(a) >= 0)


def _lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return SBool(zi(a) < zi(b))


def norm_slice(s, n):
    """(start, length, step) with NumPy clamping"""
    step = 1 if s.step is None else ival(s.step)
    if not isinstance(step, int):
        if s.start is None and s.stop is None and \
                E.known(zi(step) < 0) is True:
            return py(n - 1), py((n - step - 1) // (-step)), step
        if s.start is None or (isinstance(s.start, int) and s.start == 0):
            if E.known(zi(step) > 0) is not True:
                raise Unsupported('symbolic step of unknown sign')
            if s.stop is not None:
                n = _clamp(s.stop, n)
            ln = py((n + step - 1) // step)
            return 0, ln, step
        raise Unsupported('symbolic step')
    if step == 0:
        raise ValueError('slice step cannot be zero')
    if step < 0:
        if s.start is None and s.stop is None:
            if step == -1:
                return py(n - 1), n, -1
            ln = (n - step - 1) // (-step)
            return py(n - 1), py(ln) if isinstance(ln, Sym) else ln, step
        if isinstance(n, int) and all(
                x is None or isinstance(x, int) for x in (s.start, s.stop)):
            r = range(n)[s]
            return r.start, len(r), step
        if step == -1:
            # a[p:q:-1]
            top = py(n - 1) if s.start is None else _clampneg(s.start, n)
            if s.stop is None:
                bot = -1
            else:
                bot = _clampneg(s.stop, n)
            ln = _nonneg(top - bot)
            return top, ln, -1
        raise Unsupported('negative step slice')
    start = 0 if s.start is None else _clamp(s.start, n)
    stop = n if s.stop is None else _clamp(s.stop, n)
    d = stop - start
    if isinstance(d, Sym):
        d = py(d)
    ln = _nonneg(d)
    if step != 1:
        ln = (ln + step - 1) // step
    return start, (py(ln) if isinstance(ln, Sym) else ln), step


def _clampneg(v, n):
    """clamp for negative steps: result in [-1, n-1]"""
    v = ival(v)
    if isinstance(v, int) and isinstance(n, int):
        if v < 0:
            v += n
            return max(v, -1)
        return min(v, n - 1)
    v = num(v)
    w = ite(v < 0, v + n, v)
    w = ite(w < -1, -1, ite(w > n - 1, num(n) - 1, w))
    return py(w)


def _nonneg(d):
    if isinstance(d, int):
        return max(d, 0)
    d = py(d)
    if isinstance(d, int):
        return max(d, 0)
    k = E.known(d.t >= 0)
    if k is True:
        return d
    if k is False:
        return 0
    return py(ite(d >= 0, d, 0))


def _clamp(v, n):
    v = ival(v)
    if isinstance(v, int) and isinstance(n, int):
        if v < 0:
            return max(v + n, 0)
        return min(v, n)
    if isinstance(v, int) and v == 0:
        return 0
    tv, tn = zi(v), zi(n)
    if isinstance(v, int):
        k = v >= 0
    else:
        k = E.known(tv >= 0)
    if k is None:
        w = ite(SBool(tv >= 0), num(v), num(v) + n)
        kk = None
    elif k:
        w = num(v)
    else:
        w = num(v) + n
    t = w.t
    lo = True if k else E.known(t >= 0)
    hi = E.known(t <= tn)
    if lo is not True:
        w = 0 if lo is False else ite(SBool(t >= 0), w, 0)
    if hi is not True:
        w = num(n) if hi is False else ite(SBool(t <= tn), w, num(n))
    return py(w)


def _bvalue(value, shape):
    """callable giving the value broadcast to shape"""
    if isinstance(value, (list, tuple)):
        value = as_sarray(value)
    if isinstance(value, np.ndarray):
        value = as_sarray(value) if value.ndim else value.item()
    if isinstance(value, SArray) and value.ndim == 0:
        value = value.at()
    if not isinstance(value, SArray):
        return lambda *v: value
    if shape is None:
        if value.size == 1:
            z = value.at(*([0] * value.ndim))
            return lambda *v: z
        raise Unsupported('array stored through a mask')
    g = value.getter()
    # drop leading unit dims
    vs = list(value.shape)
    lead = 0
    while len(vs) - lead > len(shape) and vs[lead] == 1:
        lead += 1
    if len(vs) - lead > len(shape):
        raise ValueError('could not broadcast input array')
    off = len(shape) - (len(vs) - lead)
    sel = []
    for k in range(lead, len(vs)):
        d, s = vs[k], shape[off + k - lead]
        if isinstance(d, int) and d == 1:
            sel.append(None)
            continue
        e = dim_eq(d, s)
        if e is None:
            e = E.decide(zi(d) == zi(s))
            if not e:
                if E.decide(zi(d) == 1):
                    sel.append(None)
                    continue
        if not e:
            raise ValueError('could not broadcast input array')
        sel.append(off + k - lead)
    return lambda *v: g(*([0] * lead + [0 if k is None else v[k]
                                        for k in sel]))


def as_sarray(x):
    if isinstance(x, SArray):
        return x
    if isinstance(x, SList):
        return x.to_array()
    if isinstance(x, (list, tuple)):
        x = list(x)
        if not any(_has_sym(v) for v in x):
            x = np.array(x)
        else:
            return stack_list(x)
    if isinstance(x, np.ma.MaskedArray):
        raise Unsupported('masked array')
    if isinstance(x, np.ndarray):
        a = x
        if a.dtype == object:
            vals = {w: a[w] for w in np.ndindex(*a.shape)}
        k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(
            a.dtype.kind, 'O')
        a = a.copy()

        def f(*v):
            if all(isinstance(i, int) for i in v):
                r = a[tuple(v)]
                return r.item() if hasattr(r, 'item') else r
            if a.size > 256:
                raise Unsupported('symbolic index into a long constant')
            if a.size == 0:
                return 0.
            uni = a.flat[0]
            if k in 'bif' and (a == uni).all():
                return uni.item()
            out = None
            for w in np.ndindex(*a.shape):
                val = a[w]
                val = val.item() if hasattr(val, 'item') else val
                if out is None:
                    out = val
                else:
                    c = z_and(*[zi(i) == j for i, j in zip(v, w)])
                    out = ite(SBool(z3.simplify(c)), val, out)
            return out
        return SArray(a.shape, f, k)
    if isinstance(x, (Sym, int, float, bool, complex, np.generic)):
        return SArray((), lambda: x, _kind_of_scalar(x))
    raise Unsupported('array from %r' % type(x))


def _has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def stack_scalars(vals, kind=None):
    vals = list(vals)
    kind = kind or (_kmax(*[_kind_of_scalar(v) for v in vals])
                    if vals else 'f')

    def f(i):
        if isinstance(i, int):
            return vals[i]
        out = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            out = ite(SBool(zi(i) == k), vals[k], out)
        return out
    return SArray((len(vals),), f, kind)


def stack_list(vals):
    if not any(isinstance(v, (SArray, np.ndarray, list, tuple, SList))
               for v in vals):
        return stack_scalars(vals)
    arrs = [as_sarray(v) for v in vals]
    nd = arrs[0].ndim
    for a in arrs:
        if a.ndim != nd:
            raise ValueError('inhomogeneous shape')
        for x, y in zip(a.shape, arrs[0].shape):
            e = dim_eq(x, y)
            if e is None:
                e = E.decide(zi(x) == zi(y))
            if not e:
                raise ValueError('inhomogeneous shape')
    gs = [a.getter() for a in arrs]
    kind = _kmax(*[a.kind for a in arrs])

    def f(i, *v):
        if isinstance(i, int):
            return gs[i](*v)
        out = gs[-1](*v)
        for k in range(len(gs) - 2, -1, -1):
            out = ite(SBool(zi(i) == k), gs[k](*v), out)
        return out
    return SArray((len(arrs),) + tuple(arrs[0].shape), f, kind)


def broadcast(arrs):
    """common shape and per-array index selectors"""
    nd = max(a.ndim for a in arrs)
    shape = []
    for k in range(nd):
        d = 1
        for a in arrs:
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            s = a.shape[j]
            if isinstance(s, int) and s == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = s
                continue
            e = dim_eq(d, s)
            if e is None:
                if E.decide(zi(d) == zi(s)):
                    e = True
                elif E.decide(zi(d) == 1):
                    d = s
                    continue
                elif E.decide(zi(s) == 1):
                    continue
                else:
                    e = False
            if not e:
                raise ValueError('operands could not be broadcast together '
                                 'with shapes %s' % [a.shape for a in arrs])
        shape.append(d)
    sels = []
    for a in arrs:
        sel = []
        for j in range(a.ndim):
            k = nd - a.ndim + j
            s = a.shape[j]
            if isinstance(s, int) and s == 1 and not (
                    isinstance(shape[k], int) and shape[k] == 1):
                sel.append(None)
            elif not isinstance(s, int) and dim_eq(s, shape[k]) is not True:
                sel.append(None)   # known to be 1 on this path
            else:
                sel.append(k)
        sels.append(sel)
    return tuple(shape), sels


def _same_mask(m1, m2, shape):
    if m1 is m2:
        return True
    v = [SNum(E.fresh('$mk')) for _ in shape]
    try:
        a, b = lift(m1(*v)), lift(m2(*v))
    except Unsupported:
        return False
    if a.t.eq(b.t):
        return True
    return E.known(z3.Implies(z_and(*[
        z3.And(i.t >= 0, i.t < zi(n)) for i, n in zip(v, shape)]),
        a.t == b.t)) is True


def elementwise(f, *ops, kind=None):
    arrs = [as_sarray(o) for o in ops]
    comps = [a.comp for a in arrs if a.comp is not None]
    if comps:
        m0, n0, _ = comps[0]
        ok = True
        for a in arrs:
            if a.comp is not None:
                if not _same_mask(a.comp[0], m0, (n0,) * 1 if not isinstance(
                        n0, tuple) else n0):
                    ok = False
            elif a.size != 1:
                ok = False
        if ok:
            gs = [(a.comp[2] if a.comp is not None else
                   (lambda z: (lambda *v: z))(a.at(*([0] * a.ndim))))
                  for a in arrs]
            full = Fn(lambda *v: f(*[g(*v) for g in gs]))
            ls = [a.getter() if a.comp is not None else
                  (lambda z: (lambda *v: z))(a.at(*([0] * a.ndim)))
                  for a in arrs]
            r = SArray(next(a.shape for a in arrs if a.comp is not None),
                       lambda *v: f(*[g(*v) for g in ls]),
                       kind or _rkind(f, arrs))
            r.comp = (m0, n0, full)
            return r
    shape, sels = broadcast(arrs)
    gs = [a.getter() for a in arrs]

    def fn(*v):
        return f(*[g(*[0 if k is None else v[k] for k in sel])
                   for g, sel in zip(gs, sels)])
    r = SArray(shape, fn, kind or _rkind(f, arrs))
    if not shape:
        return r.at()
    return r


def _rkind(f, arrs):
    ks = [a.kind for a in arrs]
    k = _kmax(*ks)
    if k in 'bif' and getattr(f, '__name__', '') != 'x':
        # true division and elementary functions give floats; probing the
        # operator on dummy values is the simplest way to know
        try:
            probe = [{'b': SBool(z3.Bool('p!b')), 'i': SNum(z3.Int('p!i')),
                      'f': SNum(z3.Real('p!f'))}[a.kind] for a in arrs]
            n0 = len(E.pc)
            r = f(*probe)
            return _kind_of_scalar(r)
        except Exception:
            return k
        except Unsupported:
            return k
    return k


def cast(a, t):
    from .mathfun import strunc
    if isinstance(t, type) and t is bool:
        k = 'b'
    else:
        try:
            if getattr(t, '_np', None) is not None:
                t = t._np
            k = np.dtype(t).kind
        except TypeError:
            k = {'sint': 'i', 'sfloat': 'f', 'sbool': 'b'}.get(
                getattr(t, '__name__', ''), None)
            if k is None:
                raise Unsupported('dtype %r' % (t,))
    k = {'u': 'i'}.get(k, k)
    a = as_sarray(a)
    if k == a.kind:
        return a.copy()
    if k == 'f':
        return elementwise(lambda x: _tofloat(x), a, kind='f')
    if k == 'i':
        return elementwise(lambda x: strunc(num(x)), a, kind='i')
    if k == 'b':
        return elementwise(lambda x: num(x) != 0, a, kind='b')
    if k == 'c':
        return elementwise(lambda x: SCplx._c(x), a, kind='c')
    raise Unsupported('dtype %r' % (t,))


def _tofloat(x):
    x = lift(x)
    if isinstance(x, SCplx):
        return x.re
    x = num(x)
    return SNum(toreal(x.t), x.nan)


# ----------------------------------------------------------------------
# binders
class _Binder(object):
    def __enter__(self):
        self.d = E.bdepth
        E.bdepth += 1
        return self

    def var(self, k=0):
        return SNum(z3.Int('$b%d_%d' % (self.d, k)))

    def __exit__(self, *a):
        E.bdepth -= 1


def _bounded_eval(bounds, f):
    """evaluate f on canonical bound variables -> (vars, value)"""
    with _Binder() as b:
        vs = [b.var(k) for k in range(len(bounds))]
        v = f(*vs)
    return vs, v


def _small(bounds):
    if all(isinstance(b, int) for b in bounds):
        n = 1
        for b in bounds:
            n *= b
        return n <= 12
    return False


def _full_range(n, v, t):
    """an operator over the set positions of a mask, written over the whole
    range of the mask: t mentions v only as the v-th set position and n is the
    number of set positions -> (range, mask, t of the position) or None"""
    found = None
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        nm = x.decl().name()
        if nm.startswith('nth!'):
            fd = E.funs[nm]
            sub = list(zip(fd.params, x.children()))
            j = z3.substitute(fd.scalars[0], *sub) if sub else fd.scalars[0]
            if j.eq(v):
                if found is not None and not found[0].eq(x):
                    return None
                found = (x, fd, sub)
        stack.extend(x.children())
    if found is None:
        return None
    x, fd, sub = found

    def inst(y):
        return z3.substitute(y, *sub) if sub else y
    if not z3.simplify(inst(fd.scalars[1])).eq(z3.simplify(zi(n))):
        return None
    (bounds, vs, bodies), = fd.comps
    w = z3.Int('$w%d' % E.bdepth)
    body = z3.substitute(t, (x, w))
    if _has(body, v):
        return None
    own = vs[0]
    par = [(p, a) for p, a in sub if not p.eq(own)]
    mask = z3.substitute(bodies[0], (own, w))
    if par:
        mask = z3.substitute(mask, *par)
    if _has(mask, v) or _has(inst(bounds[0]), v):
        return None
    return (inst(bounds[0]), z3.substitute(mask, (w, v)),
            z3.substitute(body, (w, v)))


def any_over(bounds, f):
    """exists index in range with f(index) -> SBool"""
    bounds = [ival(b) for b in bounds]
    if _small(bounds):
        ts = [lift(f(*w)).t for w in itertools.product(
            *[range(b) for b in bounds])]
        r = z_or(*ts)
        return SBool(FALSE if r is None else r)
    vs, v = _bounded_eval(bounds, f)
    t = z3.simplify(lift(v).t)
    if z3.is_false(t):
        return SBool(FALSE)
    if z3.is_true(t):
        return SBool(z_and(*[zi(b) > 0 for b in bounds]))
    if len(bounds) == 1:
        r = _full_range(bounds[0], vs[0].t, t)
        if r is not None:
            bounds, t = [SNum(r[0])], z3.simplify(z3.And(r[1], r[2]))
    app = E.make_fun('any', [([zi(b) for b in bounds], [x.t for x in vs],
                              [t])], [], z3.BoolSort())
    return SBool(app)


def all_over(bounds, f):
    return ~any_over(bounds, lambda *v: ~lift(f(*v)))


def count_over(n, f):
    n = ival(n)
    if isinstance(n, int) and n <= 12:
        r = num(0)
        for k in range(n):
            r = r + num(f(k))
        return py(r)
    vs, v = _bounded_eval([n], f)
    t = z3.simplify(lift(v).t)
    if z3.is_true(t):
        return n
    if z3.is_false(t):
        return 0
    r = _full_range(n, vs[0].t, t)
    if r is not None:
        n, t = SNum(r[0]), z3.simplify(z3.And(r[1], r[2]))
    return SNum(E.make_fun('count', [([zi(n)], [vs[0].t], [t])], [],
                           z3.IntSort()))


def _nan_any(bounds, f):
    def g(*v):
        x = lift(f(*v))
        n = x.nan if not isinstance(x, SBool) else None
        return SBool(FALSE if n is None else n)
    r = any_over(bounds, g)
    return None if z3.is_false(r.t) else r.t


def sum_over(bounds, f):
    """sum of f over the index box"""
    bounds = [ival(b) for b in bounds]
    if _small(bounds):
        r = num(0)
        first = True
        for w in itertools.product(*[range(b) for b in bounds]):
            x = f(*w)
            if isinstance(x, (SBool, bool)):
                x = num(x)
            r = x if first else r + x
            first = False
        return r
    if len(bounds) > 1:
        # iterated sums
        return sum_over(bounds[:1], lambda i: sum_over(
            bounds[1:], lambda *v: f(i, *v)))
    vs, v = _bounded_eval(bounds, f)
    v = lift(v)
    if isinstance(v, SBool):
        v = num(v)
    n = bounds[0]
    if isinstance(v, SCplx):
        return SCplx(_sum_term(n, vs[0].t, v.re), _sum_term(
            n, vs[0].t, v.im))
    r = _sum_term(n, vs[0].t, v)
    nan = _nan_any(bounds, f)
    return SNum(r.t, nan)


def _has(t, v):
    return any(x.eq(v) for x in bound_vars(t))


def _sum_term(n, v, x):
    t = z3.simplify(x.t)
    out = None
    for coef, body in _linear(t, v):
        r = None if body is None else _full_range(n, v, body)
        if r is not None:
            s = _sum_atom(SNum(r[0]), v, z3.simplify(z3.If(
                r[1], r[2], z3.RealVal(0) if r[2].sort() == z3.RealSort()
                else z3.IntVal(0))), x.t.sort())
        else:
            s = _sum_atom(n, v, body, x.t.sort())
        s = s if coef is None else (
            toreal(coef) * toreal(s) if coef.sort() != s.sort() else
            coef * s)
        if out is None:
            out = s
        else:
            if out.sort() != s.sort():
                out, s = toreal(out), toreal(s)
            out = out + s
    return SNum(z3.simplify(out))


def _sum_atom(n, v, body, sort):
    if body is None:
        nn = zi(n)
        nn = z3.If(nn >= 0, nn, z3.IntVal(0))
        return nn if sort == z3.IntSort() else z3.ToReal(nn)
    return E.make_fun('sum', [([zi(n)], [v], [body])], [], body.sort(),
                      {'ge': 'sum_ge' in E.axiom_opts})


def _linear(t, v):
    """split t into sum of coef*body with coef free of v"""
    if z3.is_add(t):
        out = []
        for c in t.children():
            out += _linear(c, v)
        return out
    if z3.is_sub(t):
        ch = t.children()
        out = _linear(ch[0], v)
        for c in ch[1:]:
            out += [((-k if k is not None else (
                z3.RealVal(-1) if t.sort() == z3.RealSort() else
                z3.IntVal(-1))), b) for k, b in _linear(c, v)]
        return out
    if not _has(t, v):
        return [(t, None)]
    co, body = _factors(t, v)
    return [(co, body)]


def _factors(t, v):
    """t == coef*body, coef free of v (None = 1)"""
    if z3.is_mul(t):
        co, bo = None, None
        for c in t.children():
            if not _has(c, v):
                co = c if co is None else co * c
            else:
                k, b = _factors(c, v)
                if k is not None:
                    co = k if co is None else co * k
                bo = b if bo is None else bo * b
        return co, bo
    if z3.is_div(t) and t.sort() == z3.RealSort():
        a, b = t.children()
        if not _has(b, v):
            k, bo = _factors(a, v)
            one = z3.RealVal(1)
            return ((k if k is not None else one) / b), bo
        if not _has(a, v) and not (z3.is_rational_value(a) and
                                   a.as_fraction() == 1):
            return a, z3.RealVal(1) / b
    return None, t


def extremum(kind, bounds, f):
    """max/min over a nonempty index box (NaN if any NaN)"""
    bounds = [ival(b) for b in bounds]
    for b in bounds:
        if isinstance(b, int):
            if b == 0:
                raise ValueError('zero-size array to reduction operation')
        elif E.known(zi(b) > 0) is not True:
            if not E.decide(zi(b) > 0):
                raise ValueError('zero-size array to reduction operation')
    if _small(bounds):
        r = None
        for w in itertools.product(*[range(b) for b in bounds]):
            x = num(f(*w))
            if r is None:
                r = x
            else:
                c = (r.t >= x.t) if kind == 'max' else (r.t <= x.t)
                if r.t.sort() != x.t.sort():
                    c = (toreal(r.t) >= toreal(x.t)) if kind == 'max' else (
                        toreal(r.t) <= toreal(x.t))
                y = ite(SBool(c), SNum(r.t), SNum(x.t))
                r = SNum(y.t, z_or(r.nan, x.nan))
        return r
    vs, v = _bounded_eval(bounds, f)
    v = num(v)
    t = z3.simplify(v.t)
    if not any(_has(t, x.t) for x in vs):
        return SNum(t, _nan_any(bounds, f))
    app = E.make_fun(kind, [([zi(b) for b in bounds], [x.t for x in vs],
                             [t])], [], t.sort())
    return SNum(app, _nan_any(bounds, f))


def argext(kind, n, f):
    """argmax/argmin; first NaN wins like NumPy is not modelled: caller
    must pass NaN-free values (denan) and guard NaN separately"""
    n = ival(n)
    if isinstance(n, int) and n == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    if not isinstance(n, int) and E.known(zi(n) > 0) is not True:
        if not E.decide(zi(n) > 0):
            raise ValueError('attempt to get argmax of an empty sequence')
    if isinstance(n, int) and n == 1:
        return 0
    if isinstance(n, int) and n <= 12:
        ext = [f(k) for k in range(n)]
        if builtins.any(isinstance(x, SExt) for x in ext):
            if not builtins.all(SExt.of(x).nan is None for x in ext):
                raise Unsupported('infinity')
        else:
            ext = [num(x) for x in ext]
        best, bi = ext[0], num(0)
        for k in range(1, n):
            x = ext[k]
            c = (x > best) if kind == 'argmax' else (x < best)
            best, bi = ite(c, x, best), ite(c, k, bi)
        return bi
    vs, v = _bounded_eval([n], f)
    if isinstance(v, SExt):
        if kind == 'argmin':
            return argext('argmax', n, lambda k: -SExt.of(f(k)))
        if not z3.is_false(v.pos) or v.nan is not None:
            raise Unsupported('infinity')
        fin = z3.simplify(z_not(v.neg))
        app = E.make_fun('margmax', [([zi(n)], [vs[0].t], [
            z3.simplify(v.x.t), fin])], [], z3.IntSort())
        return ite(any_over([n], lambda k: ~SBool(SExt.of(f(k)).neg)),
                   SNum(app), 0)
    v = num(v)
    nan = _nan_any([n], f)
    t = z3.simplify(v.t)
    if not _has(t, vs[0].t):
        r = num(0)
    else:
        r = SNum(E.make_fun(kind, [([zi(n)], [vs[0].t], [t])], [],
                            z3.IntSort()))
    if nan is None:
        return r
    # NumPy: the first NaN is returned
    first = SNum(E.make_fun('argmax', [([zi(n)], [vs[0].t], [z3.If(
        v.nan, z3.IntVal(1), z3.IntVal(0))])], [], z3.IntSort()))
    return ite(SBool(nan), first, r)


def nonzero1(mask):
    """increasing index array of the set positions of a 1-D mask"""
    n = mask.shape[0]
    m = mask.getter()
    if isinstance(n, int) and n <= 12:
        vals = [SBool(z3.simplify(lift(m(k)).t)) for k in range(n)]
        if all(z3.is_true(x.t) or z3.is_false(x.t) for x in vals):
            ks = [k for k in range(n) if z3.is_true(vals[k].t)]
            r = as_sarray(np.array(ks, dtype=int))
            r.maskof = mask
            return r
    cnt = count_over(n, m)
    vs, v = _bounded_eval([n], m)
    t = z3.simplify(lift(v).t)
    var = vs[0].t

    def f(j):
        if z3.is_true(t):
            return j
        app = E.make_fun('nth', [([zi(n)], [var], [t])],
                         [zi(j), zi(cnt)], z3.IntSort())
        return SNum(app)
    r = SArray((cnt,), f, 'i')
    r.maskof = mask
    return r


def _leaves(t, conds=()):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return _leaves(t.arg(1), conds + (t.arg(0),)) + _leaves(
            t.arg(2), conds + (z3.Not(t.arg(0)),))
    return [(conds, t)]


def image(ix, n):
    """k -> does the index array (into an axis of length n) hold k?"""
    g = ix.getter()
    m = ix.shape[0]
    bad = any_over([m], lambda j: (num(g(j)) < -num(n)) | (
        num(g(j)) >= n))
    if E.decide(bad.t):
        raise IndexError('index is out of bounds')

    def wrap(j):
        x = num(g(j))
        return ite(x < 0, x + n, x)
    neg = any_over([m], lambda j: num(g(j)) < 0)
    if z3.is_false(neg.t) or not E.decide(neg.t):
        wrap = g
    vs, val = _bounded_eval([m], wrap)
    v = vs[0].t
    pieces = []
    for conds, t in _leaves(z3.simplify(num(val).t)):
        # t == k solved for the position: t = c*v + off with c = +-1
        w0 = z3.simplify(z3.substitute(t, (v, z3.IntVal(0))))
        for c in (1, -1):
            if z3.is_true(z3.simplify(t == c * v + w0)) or z3.is_int_value(
                    d := z3.simplify(t - (c * v + w0))) and \
                    d.as_long() == 0:
                pieces.append((conds, c, w0))
                break
        else:
            pieces = None
            break

    def hit(k):
        if pieces is None:
            return any_over([m], lambda j: num(wrap(j)) == k)
        kt = zi(k)
        alts = []
        for conds, c, off in pieces:
            j = z3.simplify(c * (kt - off))
            alts.append(z3.And(j >= 0, j < zi(m), *[
                z3.substitute(x, (v, j)) for x in conds]))
        return SBool(z3.simplify(z3.Or(*alts)))
    return hit


def rank_of(mask):
    """k -> number of set positions before k"""
    m = mask.getter()

    def f(k):
        if isinstance(k, int) and k == 0:
            return 0
        return count_over(k, m)
    return f


def compress(a, mask):
    """a[mask] for a full boolean mask"""
    mg, ag = mask.getter(), a.getter()
    for x, y in zip(a.shape, mask.shape):
        e = dim_eq(x, y)
        if e is None:
            e = E.decide(zi(x) == zi(y))
        if not e:
            raise IndexError('boolean index did not match indexed array')
    if a.ndim == 1:
        ix = nonzero1(mask)
        ig = ix.getter()
        r = SArray(ix.shape, lambda j: ag(ival(ig(j))), a.kind)
        r.comp = (mg, a.shape[0], ag)
        return r
    # flattened selection of an nd array: only reductions are supported
    cnt = sum_over(a.shape, lambda *v: num(mg(*v)))

    def bad(j):
        raise Unsupported('element of a flattened masked selection')
    r = SArray((py(cnt),), bad, a.kind)
    r.comp = (mg, tuple(a.shape), ag)
    return r


def comp_box(a):
    """(bounds, masked fn) for reductions over a compressed array"""
    m, n, g = a.comp
    b = n if isinstance(n, tuple) else (n,)
    return b, m, g


# ----------------------------------------------------------------------
# shape manipulation
def squeeze(a, axis=None):
    a = as_sarray(a)
    keep = []
    for k, s in enumerate(a.shape):
        if axis is not None and k != axis % a.ndim:
            keep.append(k)
            continue
        e = dim_eq(s, 1)
        if e is None:
            e = E.decide(zi(s) == 1)
        if not e:
            if axis is not None:
                raise ValueError('cannot select an axis to squeeze out which '
                                 'has size not equal to one')
            keep.append(k)
    if len(keep) == a.ndim:
        return a
    axes = []
    for ax in a.axes:
        if ax[0] == 'sl' and ax[1] not in keep:
            axes.append(('fix', ax[2]))
        elif ax[0] == 'sl':
            axes.append(('sl', keep.index(ax[1]), ax[2], ax[3]))
        else:
            axes.append(ax)
    return SArray([a.shape[k] for k in keep], storage=a.st, axes=axes)


def reshape(a, shape):
    a = as_sarray(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = [ival(s) for s in shape]
    tot = a.size
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape)
             if isinstance(s, int) and s == -1][0]
        rest = 1
        for i, s in enumerate(shape):
            if i != k:
                rest = rest * s
        if isinstance(rest, int) and rest == 1:
            shape[k] = tot
        else:
            # a dimension equal to one of the old ones?
            q = None
            old = list(a.shape)
            for i, s in enumerate(shape):
                if i == k:
                    continue
                for j, o in enumerate(old):
                    if dim_eq(s, o):
                        old.pop(j)
                        break
                else:
                    break
            else:
                q = 1
                for o in old:
                    q = q * o
            if q is None:
                q = num(tot) // rest
            shape[k] = py(q) if isinstance(q, Sym) else q
    # drop/insert unit dimensions
    os_ = [(k, s) for k, s in enumerate(a.shape) if dim_eq(s, 1) is not True]
    ns_ = [(k, s) for k, s in enumerate(shape) if dim_eq(s, 1) is not True]
    g = a.getter()
    if len(os_) == len(ns_) and all(
            dim_eq(x[1], y[1]) is True for x, y in zip(os_, ns_)):
        mp = {o[0]: n[0] for o, n in zip(os_, ns_)}
        # keep it a view
        axes = []
        for ax in a.axes:
            if ax[0] == 'fix':
                axes.append(ax)
            elif ax[1] in mp:
                axes.append(('sl', mp[ax[1]], ax[2], ax[3]))
            else:
                axes.append(('fix', ax[2]))
        return SArray(shape, storage=a.st, axes=axes)

    def flat_idx(v, sh):
        r = 0
        for i, s in zip(v, sh):
            r = r * s + i
        return r

    def unflat(r, sh):
        out = []
        for s in reversed(sh[1:]):
            out.append(py(num(r) % s))
            r = num(r) // s
        out.append(py(r) if isinstance(r, Sym) else r)
        return list(reversed(out))
    if isinstance(tot, int) and all(isinstance(s, int) for s in shape):
        n = 1
        for s in shape:
            n *= s
        if n != tot:
            raise ValueError('cannot reshape array of size %d' % tot)

    def f(*v):
        r = flat_idx(v, shape)
        return g(*unflat(r, list(a.shape)))
    return SArray(shape, f, a.kind)


# ----------------------------------------------------------------------
class SList(Sym):
    """A list of symbolic length."""
    _is_slist = True
    __hash__ = None

    def __init__(self, n, fn, prefix=()):
        self.n = ival(n)
        self.fn = Fn(fn)

    def __len__(self):
        return num(self.n).__index__()

    def __getitem__(self, k):
        if isinstance(k, slice):
            start, ln, step = norm_slice(k, self.n)
            fn = self.fn
            return SList(ln, lambda i: fn(ival(start + i * step)))
        k = ival(k)
        if isinstance(k, int) and k < 0:
            k = py(self.n + k)
        return self.fn(k)

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.fn(k) for k in range(self.n)])
        raise Unsupported('iteration over a symbolic list')

    def __bool__(self):
        if isinstance(self.n, int):
            return self.n > 0
        return E.decide(zi(self.n) > 0)

    def copy(self):
        return self

    def to_array(self):
        fn = self.fn
        with _Binder() as b:
            x = fn(b.var())
        if isinstance(x, SArray) or isinstance(x, np.ndarray):
            x = as_sarray(x)
            return SArray((self.n,) + tuple(x.shape), lambda i, *v: as_sarray(
                fn(i)).at(*v), x.kind)
        return SArray((self.n,), lambda i: fn(i), _kind_of_scalar(x))
