"""C13 time-domain preprocessing acts on every trace by itself."""
from .common import contract

TD = 'seismic.correlate.preprocessing_td:'


def _mat(c, nan=False, nmin=1, rows=(1, 4), cols=(1, 12)):
    m = c.dim('rows', 1, gen=rows)
    n = c.dim('npts', nmin, gen=(max(cols[0], nmin), cols[1]))
    A = c.array('A', (m, n), nan=nan)
    return m, n, A, A.copy()


def _mean(c, n, f):
    return c.sum([n], f) / n


def _std(c, n, f):
    mu = _mean(c, n, f)
    return c.sqrt(c.sum([n], lambda k: (f(k) - mu) * (f(k) - mu)) / n)


@contract('C13', 'sign-bit normalisation', [TD + 'signBitNormalization'])
def signbit(c):
    m, n, A, old = _mat(c, True)
    out = c.fn(TD + 'signBitNormalization')(A, {}, {})
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    c.forall('sign of every sample', [m, n], lambda i, j: c.eq(
        out[i, j], c.ite(c.isnan(c.at(old, i, j)), float('nan'), c.ite(
            c.at(old, i, j) > 0, 1., c.ite(
                c.at(old, i, j) < 0, -1., 0.)))))


@contract('C13', 'standard-deviation normalisation',
          [TD + 'normalizeStandardDeviation'])
def stdnorm(c):
    m, n, A, old = _mat(c)
    out = c.fn(TD + 'normalizeStandardDeviation')(A, {}, {})
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))

    def el(i, j):
        s = _std(c, n, lambda k: c.at(old, i, k))
        return c.eq(out[i, j], c.at(old, i, j) / c.ite(s == 0, 1., s))
    # (rounding leaves a constant row with a tiny spread: use other rows)
    if not c.symbolic:
        sd = old.std(axis=1)
        c.assume(((sd == 0) | (sd > 1e-9)).all())
    c.forall('divided by its own standard deviation', [m, n], el)


@contract('C13', 'clipping', [TD + 'clip'])
def clip(c):
    m, n, A, old = _mat(c, True)
    fac = c.real('std_factor', 0, gen=(0, 3), den=4)
    i, = c.exists_index('row', [m])
    j, = c.exists_index('col', [n])
    c.assume(c.count(n, lambda k: c.not_(c.isnan(c.at(old, i, k)))) > 0)
    out = c.fn(TD + 'clip')(A, {'std_factor': fac}, {})

    sd = c.nanstd([n], lambda k: c.at(old, i, k))
    lim = fac * sd
    x = c.at(old, i, j)
    c.check('limited to the threshold, else unchanged', c.eq(
        c.at(out, i, j), c.ite(x > lim, lim, c.ite(x < -lim, -lim, x))))


@contract('C13', 'demeaning', [TD + 'demean', TD + 'detrend'])
def demean(c):
    m, n, A, old = _mat(c, True)
    out = c.fn(TD + 'detrend')(A, {'type': 'constant'}, {})
    i, = c.exists_index('row', [m])
    j, = c.exists_index('col', [n])
    c.assume(c.count(n, lambda k: c.not_(c.isnan(c.at(old, i, k)))) > 0)
    mu = c.nanmean([n], lambda k: c.at(old, i, k))
    c.check('mean of the valid samples removed', c.eq(
        c.at(out, i, j), c.at(old, i, j) - mu))
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))


@contract('C13', 'linear detrending', [TD + 'detrendqr', TD + 'detrend'],
          proof=False, bound='matrices up to 4 x 30')
def detrend(c):
    m, n, A, old = _mat(c, nmin=3, cols=(3, 30))
    out = c.fn(TD + 'detrend')(A, {}, {})
    import numpy as np
    t = np.arange(n)
    for i in range(m):
        rem = old[i] - out[i]
        p = np.polyfit(t, rem, 1)
        sc = 1e-6 * (1 + np.abs(old[i]).max()) * n
        c.check('what is removed is a straight line',
                np.abs(np.polyval(p, t) - rem).max() < sc)
        c.check('no mean left', abs(out[i].mean()) < sc)
        c.check('no trend left', abs((out[i] * t).sum()) < sc * n)
    one = c.fn(TD + 'detrendqr')(old[0].copy())
    c.check('single traces too', np.allclose(one, out[0], atol=1e-8))


@contract('C13', 'scipy detrending around gaps', [TD + 'detrend_scipy'],
          proof=False, bound='matrices up to 4 x 30')
def detrend_scipy(c):
    m, n, A, old = _mat(c, True, nmin=3, cols=(3, 30))
    typ = c.choice('type', ['linear', 'constant'])
    import numpy as np
    from scipy.signal import detrend as sp
    out = c.fn(TD + 'detrend_scipy')(A, {'type': typ}, {})
    for i in range(m):
        ok = ~np.isnan(old[i])
        c.check('gaps stay', (np.isnan(out[i]) == ~ok).all())
        if ok.any():
            c.check('valid samples detrended', np.allclose(
                out[i][ok], sp(old[i][ok], type=typ)))


@contract('C13', 'running normalisation', [TD + 'TDnormalization'],
          timeout=60)
def tdnorm(c):
    m, n, A, old = _mat(c, cols=(1, 12))
    W = c.int('window', 1, gen=(1, 6))
    c.assume(W <= n)
    sr = 4.
    out = c.fn(TD + 'TDnormalization')(
        A, {'windowLength': W / sr, 'filter': None}, {'sampling_rate': sr})
    h = (W - 1) // 2

    def sm1(i, p):
        def t(k):
            q = p + h - k
            ok = c.and_(q >= 0, q < n)
            qq = c.imin(c.imax(q, 0), n - 1)
            x = c.at(old, i, qq)
            return c.ite(ok, x * x * (1 / W), 0.)
        return c.sum([W], t)

    def sm2(i, p):
        def t(k):
            q = p - h + k
            ok = c.and_(q >= 0, q < n)
            return c.ite(ok, lambda: sm1(i, q) * (1 / W), 0.)
        return c.sum([W], t)

    if c.symbolic:
        i, = c.exists_index('row', [m])
        j, = c.exists_index('col', [n])
        x, y = c.at(old, i, j), c.at(out, i, j)
        c.check('sign kept', c.implies(c.not_(c.isnan(y)), c.and_(
            c.implies(x > 0, y > 0), c.implies(x < 0, y < 0),
            c.implies(x == 0, y == 0))))
        return
    for i in range(m):
        env = [sm2(i, p) for p in range(n)]
        mx = max(env)
        for j in range(n):
            if mx > 0:
                c.check('divided by the smoothed envelope', c.eq(
                    out[i, j], old[i, j] / (env[j] + mx * 1e-6) ** .5))


@contract('C13', 'tapering before correlation', [TD + 'taper'])
def taper(c):
    m, n, A, old = _mat(c, nmin=4, cols=(4, 20))
    p = c.real('p', 0, 1, den=16)
    args = {'type': 'cosine_taper', 'p': p}
    out = c.fn(TD + 'taper')(A, args, {})
    c.check('arguments kept', len(args) == 2)
    i, i2 = c.exists_index('row', [m]) + c.exists_index('row2', [m])
    j, = c.exists_index('col', [n])
    x, y = c.at(old, i, j), c.at(out, i, j)
    c.check('weight between 0 and 1', c.and_(
        c.implies(x >= 0, c.and_(c.le(0, y), c.le(y, x))),
        c.implies(x <= 0, c.and_(c.le(y, 0), c.le(x, y)))))
    c.check('same weight in every row', c.implies(
        c.eq(x, c.at(old, i2, j)), c.eq(y, c.at(out, i2, j))))
    c.check('interior untouched', c.implies(c.and_(
        j > n * p / 2 + 1, n - 1 - j > n * p / 2 + 1), c.eq(y, x)))
    c.check('ends are zero', c.implies(c.and_(
        n * p >= 1, p < 1, c.or_(j == 0, j == n - 1)), c.eq(y, 0)))


@contract('C13', 'zero padding', [TD + 'zeroPadding'])
def pad(c):
    axis = c.choice('axis', [1, 0])
    one = c.flag('single') if axis == 0 else False
    m = c.dim('rows', 1, gen=(1, 12))
    n = c.dim('npts', 1, gen=(1, 12))
    A = c.array('A', (n,) if one else (m, n), nan=True)
    old = A.copy()
    typ = c.choice('type', ['nextFastLen', 'avoidWrapAround',
                            'avoidWrapFastLen'])
    sr = c.real('sampling_rate', 0, gen=(0, 4), den=4)
    lts = c.real('lengthToSave', 0, gen=(0, 5), den=4)
    out = c.fn(TD + 'zeroPadding')(
        A, {'type': typ}, {'sampling_rate': sr, 'lengthToSave': lts},
        axis=axis)
    l0 = n if one or axis == 1 else m
    l1 = out.shape[axis]
    need = l0 if typ == 'nextFastLen' else c.trunc(l0 + sr * lts)
    c.check('long enough', l1 >= need)
    if typ == 'avoidWrapAround':
        c.check('not longer than needed', l1 == need)
    if one:
        c.check('rank', len(out.shape) == 1)
        c.forall('data then zeros', [l1], lambda j: c.eq(out[j], c.ite(
            j < n, lambda: c.at(old, c.imin(j, n - 1)), 0.)))
    elif axis == 1:
        c.check('other axis', out.shape[0] == m)
        c.forall('data then zeros', [m, l1], lambda i, j: c.eq(
            out[i, j], c.ite(j < n, lambda: c.at(
                old, i, c.imin(j, n - 1)), 0.)))
    else:
        c.check('other axis', out.shape[1] == n)
        c.forall('data then zeros', [l1, n], lambda i, j: c.eq(
            out[i, j], c.ite(i < m, lambda: c.at(
                old, c.imin(i, m - 1), j), 0.)))


@contract('C13', 'muting', [TD + 'mute'], proof=False, cases=250,
          bound='matrices up to 3 x 60, taper lengths 2 to 12 samples')
def mute(c):
    import numpy as np
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 1, gen=(1, 60))
    A = c.array('A', (m, n))
    old = A.copy()
    ntap = c.int('ntap', 2, gen=(2, 12))
    ext = c.flag('extend_gaps')
    kind = c.choice('kind', ['threshold', 'std_factor', 'default'])
    args = {'taper_len': ntap / 4., 'extend_gaps': ext}
    if kind != 'default':
        args[kind] = c.real('level', 0, gen=(0, 4), den=4)
    out = c.fn(TD + 'mute')(A, args, {'sampling_rate': 4.})
    if n <= ntap:
        c.check('short traces muted', (out == 0).all())
        return
    lim = args['threshold'] if kind == 'threshold' else old.std(
        axis=1, keepdims=True) * args.get('std_factor', 1.)
    over = np.abs(old) > lim
    if kind != 'threshold':
        # values at the threshold within rounding are undetermined
        c.assume((np.abs(np.abs(old) - lim) > 1e-9).all())
    w = np.where(old != 0, out / np.where(old == 0, 1, old), .5)
    c.check('weights between 0 and 1', ((w > -1e-9) & (w < 1 + 1e-9)).all())
    r = 2 * ntap if ext else ntap // 2 + 1
    for i in range(m):
        for j in range(n):
            if ext and over[i, j]:
                c.check('loud samples muted', abs(out[i, j]) < 1e-9 * (
                    1 + abs(old[i, j])))
            if r <= j < n - r and not over[i, j - r:j + r + 1].any():
                c.check('quiet samples unchanged',
                        abs(out[i, j] - old[i, j]) < 1e-9 * (
                            1 + abs(old[i, j])))


@contract('C13', 'traces are processed independently', [
    TD + 'clip', TD + 'demean', TD + 'normalizeStandardDeviation',
    TD + 'signBitNormalization', TD + 'TDnormalization', TD + 'taper',
    TD + 'mute', TD + 'detrendqr', TD + 'TDfilter'], proof=False, cases=200,
    bound='matrices up to 4 x 40')
def independent(c):
    import numpy as np
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.dim('npts', 8, gen=(8, 40))
    A = c.array('A', (m, n))
    par = {'sampling_rate': 8.}
    fl = {'type': 'bandpass', 'freqmin': .5, 'freqmax': 2.}
    f, args = c.choice('step', [
        ('clip', {'std_factor': 1.}), ('detrend', {}),
        ('detrend', {'type': 'constant'}),
        ('detrend', {'method': 'scipy'}),
        ('normalizeStandardDeviation', {}), ('signBitNormalization', {}),
        ('TDnormalization', {'windowLength': .5, 'filter': None}),
        ('TDnormalization', {'windowLength': .5, 'filter': fl}),
        ('taper', {'type': 'cosine_taper', 'p': .2}),
        ('mute', {'taper_len': .5, 'extend_gaps': True}),
        ('mute', {'taper_len': .5, 'extend_gaps': False, 'filter': fl}),
        ('TDfilter', fl), ('zeroPadding', {'type': 'nextFastLen'})])
    fun = c.fn(TD + f)
    full = fun(A.copy(), dict(args), dict(par))
    for i in range(m):
        one = fun(A[i:i + 1].copy(), dict(args), dict(par))
        c.check('row result does not depend on other rows', np.allclose(
            one[0], full[i], rtol=1e-6, atol=1e-8, equal_nan=True))


@contract('C13', 'options of the time-domain steps', [
    TD + 'detrend', TD + 'detrend_scipy', TD + 'TDnormalization',
    TD + 'TDfilter', TD + 'mute', TD + 'taper', TD + 'zeroPadding'],
    proof=False, cases=120, bound='matrices up to 3 x 60')
def options(c):
    """methods, filters and values that make no sense"""
    import numpy as np
    from obspy.signal import filter as osf
    from scipy.signal import detrend as sp
    m, n = c.dim('rows', 1, gen=(1, 3)), c.dim('npts', 12, gen=(12, 60))
    A = c.array('A', (m, n))
    par = {'sampling_rate': 8.}
    low, high = c.choice('band', [(.5, 2.), (1., 3.)])
    flt = c.choice('filter', [
        dict(type='bandpass', freqmin=low, freqmax=high),
        dict(type='lowpass', freq=high), dict(type='highpass', freq=low)])
    given = dict(flt)
    opts = {k: v for k, v in flt.items() if k != 'type'}

    def filtered(x):
        return getattr(osf, flt['type'])(x, df=8., **opts)
    want = np.array([filtered(x) for x in A])
    got = c.fn(TD + 'TDfilter')(A.copy(), flt, par)
    c.check('filter', np.allclose(got, want))
    # detrending
    det = c.fn(TD + 'detrend')
    typ = c.choice('type', ['linear', 'constant'])
    for args in ({'type': typ}, {'method': 'qr', 'type': typ},
                 {'method': 'scipy', 'type': typ}):
        a = dict(args)
        c.check('trend', np.allclose(det(A.copy(), a, par), sp(
            A, type=typ), atol=1e-3), args)
        c.check('arguments unchanged', a == args)
    if typ == 'linear':
        # the straight line between the breakpoints
        c.check('scipy takes its own options', np.allclose(
            det(A.copy(), {'method': 'scipy', 'bp': [n // 2]}, par),
            sp(A, bp=[n // 2]), atol=1e-6))
    c.expect_raises(ValueError, lambda: det(
        A.copy(), {'method': 'ruler'}, par), 'unknown method')
    c.expect_raises(ValueError, lambda: det(
        A.copy(), {'type': 'cubic'}, par), 'unknown trend')
    # running normalisation by the filtered envelope
    norm = c.fn(TD + 'TDnormalization')
    W = c.int('window', 1, gen=(1, 8))
    w = np.ones(W) / W
    if n >= W and np.abs(A).max(axis=1).min() > 0:
        for args, X in (({'filter': None}, A), ({'filter': flt}, want)):
            env = []
            for x in X:
                e = np.convolve(x**2, w, 'same')
                e = np.convolve(e[::-1], w, 'same')[::-1]
                env.append(e + e.max() * 1e-6)
            ok = np.array(env) > 1e-9
            out = norm(A.copy(), dict(args, windowLength=W / 8.), par)
            c.check('divided by the envelope', np.allclose(
                out[ok], (A / np.sqrt(env))[ok], rtol=1e-5, atol=1e-7))
            one = norm(A[0].copy(), dict(args, windowLength=W / 8.), par)
            c.check('single trace', np.allclose(
                one[ok[0]], out[0][ok[0]], rtol=1e-5, atol=1e-7))
    for bad in (0, -1.):
        c.expect_raises(ValueError, lambda: norm(
            A.copy(), {'windowLength': bad, 'filter': None}, par),
            'window without length')
    # muting where the filtered trace is loud
    mute = c.fn(TD + 'mute')
    ntap = c.int('ntap', 2, gen=(2, 6))
    args = dict(taper_len=ntap / 8., extend_gaps=c.flag('extend'),
                threshold=np.abs(want).max() * .5, filter=flt)
    out = mute(A.copy(), args, par)
    if n > ntap:
        ref = mute(want.copy(), {k: v for k, v in args.items()
                                 if k != 'filter'}, par)
        ok = np.abs(want) > 1e-6
        wt = ref[ok] / want[ok]
        c.check('muted where the filtered trace is loud', np.allclose(
            out[ok], A[ok] * wt, atol=1e-6))
    one = mute(A.copy(), dict(args, taper_len=1 / 8.), par)
    over = np.abs(want) > args['threshold']
    near = np.abs(np.abs(want) - args['threshold']) < 1e-9
    c.check('taper of one sample', ((one == 0) | ~over | near).all())
    c.expect_raises(ValueError, lambda: mute(
        A.copy(), dict(args, taper_len=0), par), 'taper without length')
    # padding
    pad = c.fn(TD + 'zeroPadding')
    c.expect_raises(NotImplementedError, lambda: pad(
        A[None].copy(), {'type': 'nextFastLen'}, par), 'three dimensions')
    c.expect_raises(NotImplementedError, lambda: pad(
        A.copy(), {'type': 'nextFastLen'}, par, axis=2), 'third axis')
    c.expect_raises(ValueError, lambda: pad(
        np.array([]), {'type': 'nextFastLen'}, par, axis=0), 'no data')
    c.expect_raises(ValueError, lambda: pad(
        A.copy(), {'type': 'nextPrime'}, par), 'unknown length')
    L = c.real('lengthToSave', 0, gen=(0, 8))
    p = dict(par, lengthToSave=L)
    exact = pad(A.copy(), {'type': 'avoidWrapAround'}, p)
    c.check('no wrap around', exact.shape == (m, int(n + 8 * L)))
    from scipy.fftpack import next_fast_len
    c.check('fast without wrap around', pad(
        A.copy(), {'type': 'avoidWrapFastLen'}, p).shape == (
            m, next_fast_len(int(n + 8 * L))))
    c.check('options unchanged', flt == given)
