"""Assumed contracts of non-NumPy dependencies (scipy, obspy, mpi4py, ...)."""
import builtins
import importlib
import types
import numpy as _np
import z3
from .values import (Sym, SNum, SBool, SCplx, STime, Unsupported, num, lift,
                     ite, py, toreal, is_pynum)
from .engine import E
from .values import denan
from .mathfun import strunc, uf
from . import arrays as A, npshim as N
from .arrays import SArray, as_sarray, zi, ival


class Overlay(types.ModuleType):
    def __init__(self, name, over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_name'] = name
        self.__dict__['_over'] = over
        self.__path__ = []

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        if n.startswith('__'):
            raise AttributeError(n)
        m = importlib.import_module(self._name)
        try:
            return getattr(m, n)
        except AttributeError:
            return importlib.import_module(self._name + '.' + n)


# -- obspy time --------------------------------------------------------
class _UTCMeta(type):
    def __instancecheck__(cls, x):
        from obspy import UTCDateTime as U
        return isinstance(x, (STime, U))

    def __call__(cls, *a, **k):
        from obspy import UTCDateTime as U
        if a and isinstance(a[0], STime):
            return a[0]
        if a and isinstance(a[0], SNum):
            return STime(a[0])
        return U(*a, **k)


class UTC(metaclass=_UTCMeta):
    pass


# -- obspy.Trace -------------------------------------------------------
def _trace_classes():
    from obspy import Trace as RT
    from obspy.core.util import AttribDict

    class Meta(type):
        def __instancecheck__(cls, x):
            if cls is STrace:
                return type.__instancecheck__(cls, x) or isinstance(x, RT)
            return type.__instancecheck__(cls, x)

        def __call__(cls, *a, **k):
            d = k.get('data', a[0] if a else None)
            if cls is STrace and not isinstance(d, SArray):
                return RT(*a, **k)
            return type.__call__(cls, *a, **k)

    class STrace(metaclass=Meta):
        """obspy.Trace as far as the code under contract uses it: data and
        header, the sample count of the header follows the data"""

        def __init__(self, data=None, header=None):
            E.assumed.add('obspy.Trace (data, stats and the sample count)')
            h = AttribDict(dict(header or {}))
            object.__setattr__(self, 'data', data)
            object.__setattr__(self, 'stats', h)
            if 'npts' not in h:
                h['npts'] = as_sarray(data).shape[0]

        def __setattr__(self, k, v):
            if k == 'data':
                self.stats['npts'] = as_sarray(v).shape[0]
            object.__setattr__(self, k, v)

        def copy(self):
            import copy
            t = object.__new__(type(self))
            object.__setattr__(t, 'data', self.data.copy())
            object.__setattr__(t, 'stats', copy.deepcopy(self.stats))
            return t

        @property
        def id(self):
            s = self.stats
            return '.'.join((s.network, s.station, s.location, s.channel))
    return STrace


STrace = _trace_classes()


# -- obspy.Stream ------------------------------------------------------
def _stream_class():
    from obspy import Stream as RS

    class Meta(type):
        def __instancecheck__(cls, x):
            if cls is SStream:
                return type.__instancecheck__(cls, x) or isinstance(x, RS)
            return type.__instancecheck__(cls, x)

    class SStream(metaclass=Meta):
        """obspy.Stream as far as the code under contract uses it: an ordered
        list of traces; iteration runs over a snapshot of the list"""

        def __init__(self, traces=None):
            E.assumed.add('obspy.Stream (an ordered list of traces; '
                          'selection by header values, stable sort)')
            self.traces = []
            if isinstance(traces, STrace):
                traces = [traces]
            for t in traces or []:
                self.traces.append(t)

        def __len__(self):
            return len(self.traces)

        def __iter__(self):
            E.assumed.add('obspy.Stream (an ordered list of traces; '
                          'selection by header values, stable sort)')
            return list(self.traces).__iter__()

        def __getitem__(self, i):
            if isinstance(i, slice):
                return self.__class__(self.traces[i])
            return self.traces[i]

        def __setitem__(self, i, v):
            self.traces[i] = v

        def __add__(self, o):
            if isinstance(o, STrace):
                o = [o]
            return self.__class__(self.traces + list(o))

        def __iadd__(self, o):
            if isinstance(o, STrace):
                o = [o]
            self.traces.extend(list(o))
            return self

        def append(self, t):
            self.traces.append(t)
            return self

        def extend(self, o):
            self.traces.extend(list(o))
            return self

        def insert(self, i, o):
            if isinstance(o, STrace):
                self.traces.insert(i, o)
            else:
                self.traces[i:i] = list(o)
            return self

        def remove(self, t):
            for i, x in enumerate(self.traces):
                if x is t:
                    del self.traces[i]
                    return self
            raise Unsupported('Stream.remove of an equal trace')

        def pop(self, i=-1):
            return self.traces.pop(i)

        def count(self):
            return len(self.traces)

        def copy(self):
            return self.__class__([t.copy() for t in self.traces])

        def sort(self, keys=None, reverse=False):
            if keys is None:
                keys = ['network', 'station', 'location', 'channel',
                        'starttime', 'endtime']
            for k in reversed(keys):
                # stable insertion sort
                out = []
                for t in self.traces:
                    i = len(out)
                    while i > 0 and (t.stats[k] > out[i - 1].stats[k]
                                     if reverse else
                                     t.stats[k] < out[i - 1].stats[k]):
                        i -= 1
                    out.insert(i, t)
                self.traces = out
            return self

        def select(self, network=None, station=None, location=None,
                   channel=None, sampling_rate=None, npts=None,
                   component=None, id=None, inventory=None):
            import fnmatch
            if inventory is not None or component is not None:
                raise Unsupported('Stream.select options')
            out = []
            for t in self.traces:
                if id is not None and not fnmatch.fnmatch(
                        t.id.upper(), id.upper()):
                    continue
                if any(p is not None and not fnmatch.fnmatch(
                        t.stats[q].upper(), p.upper()) for q, p in (
                            ('network', network), ('station', station),
                            ('location', location), ('channel', channel))):
                    continue
                if sampling_rate is not None and \
                        sampling_rate != t.stats.sampling_rate:
                    continue
                if npts is not None and npts != t.stats.npts:
                    continue
                out.append(t)
            return self.__class__(out)
    return SStream


SStream = _stream_class()


# -- scipy.interpolate -------------------------------------------------
def _arrkey(a):
    g = a.getter()
    vs, v = A._bounded_eval(a.shape, g)
    v = num(v)
    return ([zi(s) for s in a.shape], [x.t for x in vs],
            [z3.simplify(toreal(v.t))])


def _interp_op(name, xs, ys, scal):
    """value of an interpolant of (xs, ys) at a point: an operator of the
    data and the point only (assumed contract)"""
    E.assumed.add(name)
    kx, ky = _arrkey(xs), _arrkey(ys)
    nanx = A._nan_any(xs.shape, xs.getter())
    nany = A._nan_any(ys.shape, ys.getter())

    def at(p):
        p = num(p)
        app = E.make_fun(name, [kx, ky],
                         scal + [z3.simplify(toreal(p.t))], z3.RealSort())
        from .values import z_or
        return SNum(app, z_or(p.nan, nanx, nany))

    def call(p, *a, **k):
        if a or k:
            raise Unsupported(name + ' call options')
        if isinstance(p, (SArray, _np.ndarray, list, tuple, A.SList)):
            return A.elementwise(at, p, kind='f')
        return at(p)
    return call


class UnivariateSpline(object):
    def __init__(self, x, y, w=None, bbox=None, k=3, s=None, ext=0,
                 check_finite=False):
        if w is not None or bbox is not None:
            raise Unsupported('spline weights')
        self.x, self.y = as_sarray(x), as_sarray(y)
        if self.x.ndim != 1 or self.y.ndim != 1:
            raise Unsupported('spline of nd data')
        if A.dim_eq(self.x.shape[0], self.y.shape[0]) is not True:
            if not E.decide(zi(self.x.shape[0]) == zi(self.y.shape[0])):
                raise ValueError('x and y should have a same length')
        ext = {0: 0, 'extrapolate': 0, 1: 1, 'zeros': 1, 2: 2, 'raise': 2,
               3: 3, 'const': 3}[ext]
        tag = 'spline_k%s_s%s_e%d' % (k, s, ext)
        self.f = _interp_op(tag, self.x, self.y, [])

    def __call__(self, p, *a, **k):
        return self.f(p, *a, **k)


class InterpolatedUnivariateSpline(UnivariateSpline):
    def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, **kw):
        UnivariateSpline.__init__(self, x, y, k=k, s=0, ext=ext)


class interp1d(object):
    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=float('nan'),
                 assume_sorted=False):
        self.x, self.y = as_sarray(x), as_sarray(y)
        fv = fill_value
        if isinstance(fv, str):
            tag, sc = fv, []
        elif isinstance(fv, (tuple, list)):
            tag = 'pair%d%d' % (int(fv[0] != fv[0]), int(fv[1] != fv[1])) \
                if not N.issym(*fv) else 'pair'
            sc = [toreal(num(v).t) for v in fv]
        else:
            v = num(fv)
            tag, sc = ('nan' if v.nan is not None else 'fv'), [toreal(v.t)]
        self.tag = 'interp1d_%s_%s_%s' % (kind, tag, bounds_error)
        self.sc = sc
        self.axis = axis

    def __call__(self, p):
        if self.y.ndim == 1:
            return _interp_op(self.tag, self.x, self.y, self.sc)(p)
        raise Unsupported('interp1d of nd data')


# -- scipy.signal / obspy filters: opaque row operators ----------------
def row_operator(name, x, scal, axis=-1, n_out=None):
    """y = op(x) along axis: y[.., j] depends only on the row, the scalar
    parameters and j (assumed contract; no other property is used)"""
    x = as_sarray(x)
    ax = axis % x.ndim
    g = x.getter()
    n = x.shape[ax]
    E.assumed.add(name)

    def f(*v):
        def el(j):
            w = list(v)
            w[ax] = j
            return g(*w)
        vs, val = A._bounded_eval([n], el)
        val = num(val)
        app = E.make_fun(name, [([zi(n)], [vs[0].t],
                                 [z3.simplify(toreal(val.t))])],
                         scal + [zi(v[ax])], z3.RealSort())
        return SNum(app, A._nan_any([n], el))
    shape = list(x.shape)
    if n_out is not None:
        shape[ax] = n_out
    return SArray(shape, f, 'f')


def _scal(*xs):
    return [toreal(num(x).t) for x in xs]


class Design(object):
    """filter coefficients, known by the parameters of the design only"""

    def __init__(self, part, args):
        self.part, self.args = part, args


def butter(N_, Wn, btype='low', analog=False, output='ba', fs=None):
    if analog or output != 'ba':
        raise Unsupported('butter options')
    bt = {'low': 0, 'lowpass': 0, 'lp': 0, 'high': 1, 'highpass': 1, 'hp': 1,
          'band': 2, 'bandpass': 2, 'pass': 2, 'bp': 2}.get(btype)
    if bt is None:
        raise Unsupported('butter type')
    w = as_sarray(Wn) if not isinstance(Wn, (float, int, SNum)) else None
    w = [Wn] if w is None or not w.ndim else [
        w.getter()(num(k)) for k in range(int(py(num(w.shape[0]))))]
    if len(w) != (2 if bt == 2 else 1):
        raise ValueError('number of critical frequencies')
    w = [num(x) for x in w]
    if fs is not None:
        w = [2 * x / fs for x in w]
    for x in w:
        if not E.decide(z3.And(toreal(x.t) > 0, toreal(x.t) < 1)):
            raise ValueError('Digital filter critical frequencies must be '
                             '0 < Wn < 1')
    if bt == 2 and not E.decide(toreal(w[0].t) < toreal(w[1].t)):
        raise ValueError('Wn[0] must be less than Wn[1]')
    args = [z3.RealVal(bt), toreal(num(N_).t)] + [toreal(x.t) for x in w]
    args += [z3.RealVal(0)] * (4 - len(args))
    E.assumed.add('scipy.signal.butter (coefficients depend on order, type '
                  'and frequencies only; refuses frequencies outside the '
                  'Nyquist range)')
    return Design('b', args), Design('a', args)


def lfilter(b, a, x, axis=-1, zi=None):
    if not (isinstance(b, Design) and isinstance(a, Design)) or \
            b.part != 'b' or a.part != 'a' or b.args is not a.args or \
            zi is not None:
        raise Unsupported('lfilter')
    return row_operator('scipy.signal.lfilter (every output row depends on '
                        'the input row and the filter only)', x, b.args, axis)


def cosine_taper(npts, p=0.1, freqs=None, flimit=None, halfcosine=True,
                 sactaper=False):
    if freqs is not None or flimit is not None or sactaper or \
            not halfcosine:
        raise Unsupported('cosine_taper options')
    E.assumed.add('obspy.signal.invsim.cosine_taper (piecewise definition, '
                  'cos only known to lie in [-1, 1] with cos 0 = 1, cos pi = -1)')
    n = ival(npts)
    p = num(p)
    if not E.decide(z3.And(toreal(p.t) >= 0, toreal(p.t) <= 1)):
        raise ValueError('Decimal taper percentage must be between 0 and 1.')
    half = n * p / 2.0
    if E.decide(z3.Or(toreal(p.t) == 0, toreal(p.t) == 1)):
        frac = strunc(half)
    else:
        frac = strunc(half + 0.5)
    frac = py(frac)
    i2, i3, i4 = frac - 1, n - frac, n - 1
    i2 = ite(num(i2) == 0, num(i2) + 1, num(i2))
    i3 = ite(num(i3) == i4, num(i3) - 1, num(i3))
    def f(k):
        k = num(k)
        lo = 0.5 * (1.0 - denan(uf('cospi', num(k) / i2)))
        hi = 0.5 * (1.0 + denan(uf('cospi', (i3 - k) / (i4 - i3))))
        r = ite(k >= i3, hi, ite(k <= i2, lo, num(1.)))
        return ite((k <= i2) | (k >= i3), r, num(1.))
    return SArray((n,), f, 'f')


def next_fast_len(n, *a, **k):
    if not isinstance(n, Sym):
        from scipy.fftpack import next_fast_len as nf
        return nf(n, *a, **k)
    E.assumed.add('scipy.fftpack.next_fast_len (>= argument)')
    m = SNum(E.make_fun('nextfast', [], [zi(ival(n))], z3.IntSort()))
    E.assume(m >= n)
    return m


class Comm(object):
    """single-process communicator"""

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1
    rank, size = 0, 1

    def bcast(self, x, root=0):
        return x

    def gather(self, x, root=0):
        return [x]

    def allgather(self, x):
        return [x]

    def barrier(self):
        pass
    Barrier = barrier


MPI = types.SimpleNamespace(COMM_WORLD=Comm(), Comm=Comm, IN_PLACE='in place')
for _n in ('SUM', 'MIN', 'MAX', 'PROD', 'FLOAT', 'DOUBLE', 'COMPLEX', 'INT',
           'C_FLOAT_COMPLEX', 'C_DOUBLE_COMPLEX', 'LONG', 'BOOL'):
    setattr(MPI, _n, _n)


def opaque(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


class Registry(object):
    """name -> replacement, per module; contracts may add entries"""

    def __init__(self):
        self.over = {}

    def set(self, mod, name, obj):
        self.over.setdefault(mod, {})[name] = obj


REG = Registry()


def _base():
    REG.over.clear()
    for m in ('obspy', 'obspy.core', 'obspy.core.utcdatetime'):
        REG.set(m, 'UTCDateTime', UTC)
    for m in ('obspy', 'obspy.core', 'obspy.core.trace'):
        REG.set(m, 'Trace', STrace)
    for m in ('obspy', 'obspy.core', 'obspy.core.stream'):
        REG.set(m, 'Stream', SStream)
    REG.set('scipy.interpolate', 'UnivariateSpline', UnivariateSpline)
    REG.set('scipy.interpolate', 'InterpolatedUnivariateSpline',
            InterpolatedUnivariateSpline)
    REG.set('scipy.interpolate', 'interp1d', interp1d)
    REG.set('scipy.fftpack', 'next_fast_len', next_fast_len)
    REG.set('scipy.interpolate', 'pchip_interpolate',
            opaque('pchip_interpolate'))
    REG.set('obspy.signal.invsim', 'cosine_taper', cosine_taper)
    REG.set('mpi4py', 'MPI', MPI)
    REG.set('scipy.signal', 'butter', butter)
    REG.set('scipy.signal', 'lfilter', lfilter)


_base()


def override_import(name, fromlist):
    if name == 'numpy':
        return N.MODULE
    if name.startswith('numpy.'):
        sub = importlib.import_module(name)
        if name == 'numpy.typing':
            N.MODULE.typing = sub
        if not fromlist:
            return N.MODULE
        r = getattr(N.MODULE, name.split('.')[1], sub)
        return r
    if name in REG.over or any(
            m.startswith(name + '.') for m in REG.over) or \
            name.split('.')[0] in ('scipy', 'obspy', 'mpi4py'):
        top = name.split('.')[0]
        if fromlist:
            return _overlay(name)
        return _overlay(top)
    return None


_ov = {}


def _overlay(name):
    if name not in _ov:
        o = Overlay(name, REG.over.setdefault(name, {}))
        _ov[name] = o
        for m in list(REG.over):
            if m.startswith(name + '.'):
                sub = m[len(name) + 1:].split('.')[0]
                if sub not in o._over:
                    o._over[sub] = _overlay(name + '.' + sub)
    return _ov[name]
