"""C16 filtering and resampling of correlations and traces."""
import warnings

from .common import contract, corr_header, PCP

MU = 'seismic.utils.miic_utils:'
FILT = PCP + ':corr_mat_filter'
DEC = PCP + ':corr_mat_decimate'
RST = PCP + ':corr_mat_resample_time'
ROD = PCP + ':corr_mat_resample_or_decimate'
RS = PCP + ':corr_mat_resample'


def zero_phase(c, x, order, w, btype):
    """forward and backward pass of the filter"""
    sig = c.ext('scipy.signal', 'lfilter')
    b, a = c.ext('scipy.signal', 'butter')(order, w, btype=btype)
    x = sig(b, a, x, axis=1)
    return sig(b, a, x[:, ::-1], axis=1)[:, ::-1]


@contract('C16', 'band pass of a matrix', [FILT])
def band(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 1, gen=(4, 20))
    data = c.array('data', (m, n))
    old = data.copy()
    sr = c.real('rate', positive=True, den=1, gen=(1, 8))
    st = corr_header(c, n, sr=sr)
    f0 = c.real('low', positive=True, gen=(0, 2), den=8)
    f1 = c.real('high', positive=True, gen=(0, 6), den=8)
    order = c.choice('order', [1, 3, 4])
    c.assume(f0 > 0)
    if c.case(c.or_(f1 <= f0, f1 >= sr / 2)):
        c.expect_raises(ValueError, lambda: c.fn(FILT)(
            data, st, (f0, f1), order), 'impossible band')
        return
    out = c.fn(FILT)(data, st, (f0, f1), order)
    ref = zero_phase(c, old, order, [f0 / (sr / 2), f1 / (sr / 2)], 'band')
    i, j = c.exists_index('ij', [m, n])
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    c.check('zero phase filter of the row', c.eq(
        c.at(out, i, j), c.at(ref, i, j), tol=1e-6, scale=10))
    c.check('input untouched', c.eq(c.at(data, i, j), c.at(old, i, j)))


@contract('C16', 'decimated lag axis', [DEC])
def decimate(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 1, gen=(4, 30))
    data = c.array('data', (m, n))
    old = data.copy()
    sr = c.real('rate', positive=True, den=1, gen=(1, 8))
    st = corr_header(c, n, sr=sr)
    lag0 = st['start_lag']
    f = c.int('factor', 0, gen=(0, 5))
    c.assume(f * 2 <= n)
    if c.case(f < 1):
        c.expect_raises(ValueError, lambda: c.fn(DEC)(data, st, f),
                        'impossible factor')
        return
    out, st2 = c.fn(DEC)(data, st, f)
    c.check('lags start where they did', c.eq(st2['start_lag'], lag0))
    c.check('sampling rate', c.eq(st2['sampling_rate'] * f, sr))
    c.check('number of samples', c.and_(
        st2['npts'] == out.shape[1], out.shape[0] == m))
    if c.case(c.eq(f, 1)):
        i, j = c.exists_index('ij', [m, n])
        c.check('nothing to do', c.eq(c.at(out, i, j), c.at(old, i, j)))
        return
    k = out.shape[1]
    c.check('no lag beyond the last one', (k - 1) * f <= n - 1)
    c.check('at most two lags lost', (k + 1) * f >= n - 1)
    ref = zero_phase(c, old, 4, 1. / f, 'lowpass')
    i, j = c.exists_index('ij', [m, k])
    c.check('low passed sample of the same lag', c.eq(
        c.at(out, i, j), c.at(ref, i, j * f), tol=1e-6, scale=10))
    i, j = c.exists_index('in', [m, n])
    c.check('input untouched', c.eq(c.at(data, i, j), c.at(old, i, j)))


@contract('C16', 'regular sampling of the time axis',
          [RS, 'seismic.correlate.stream:CorrBulk.resample'], proof=False,
          cases=400, thorough=4000, bound='up to 8 rows and 6 bins')
def bins(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    m = c.int('rows', 1, gen=(1, 8))
    n = c.int('npts', 1, gen=(1, 4))
    data = c.array('data', (m, n), nan=True)
    s = np.array([c.int('s%d' % i, 0, gen=(0, 30)) for i in range(m)]) / 2.
    if c.flag('sorted'):
        s = np.sort(s)
    e = s + np.array([c.int('e%d' % i, 1, gen=(1, 6)) for i in range(m)]) / 2.
    T = UTC(2020, 1, 1)
    h = dict(corr_start=[T + x for x in s], corr_end=[T + x for x in e])
    locs = None
    if c.flag('locations'):
        locs = h['location'] = [c.choice('loc%d' % i, ['-', '-00'])
                                for i in range(m)]
    st = corr_header(c, n, ntrcs=m, network='A-B', **h)
    k = c.int('bins', 1, gen=(1, 6))
    a = np.sort(np.array([c.int('a%d' % i, 0, gen=(0, 30))
                          for i in range(k)])) / 2.
    ends = c.choice('ends', ['given', 'none', 'bad'])
    b = None
    if ends == 'none':
        inc = c.int('inc', 1, gen=(1, 8)) / 2.
        a = a[0] + inc * np.arange(k)
        b = a + inc if k > 1 else np.array([e[-1]])
        arg = []
    elif ends == 'given':
        b = a + np.array([c.int('b%d' % i, 1, gen=(1, 8))
                          for i in range(k)]) / 2.
        arg = b
    else:
        arg = np.arange(k + 1.)
    stamp = c.flag('time stamps')
    conv = (lambda x: (T + x).timestamp) if stamp else (lambda x: T + x)
    A, arg = [conv(x) for x in a], [conv(x) for x in arg]
    old = data.copy()
    use = c.flag('bulk')

    def go():
        if use:
            cb = c.fn('seismic.correlate.stream:CorrBulk')(data, stats=st)
            cb.resample(A, arg)
            return cb.data, cb.stats
        return c.fn(RS)(data, st, A, arg)
    if ends == 'bad':
        c.expect_raises(ValueError, go, 'number of end times')
        return
    out, st2 = go()
    c.check('one row per bin', out.shape == (k, n))
    for i in range(k):
        ind = np.nonzero((s >= a[i]) & (s < b[i]))[0]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            want = np.nanmean(old[ind], 0) if len(ind) else np.full(
                n, np.nan)
        c.check('mean of the correlations that start in the bin',
                np.allclose(out[i], want, equal_nan=True), (i, ind, out[i]))
        c.check('times of the bin', st2.corr_start[i] == T + a[i] and
                st2.corr_end[i] == T + b[i])
        if locs and len(ind):
            c.check('location of the bin', st2.location[i] == locs[ind[0]])
    c.check('one header value per row', st2.ntrcs == k and len(
        st2.corr_start) == len(st2.corr_end) == k and (
            not locs or len(st2.location) == k))
    c.check('input untouched', np.array_equal(data, old, equal_nan=True))
    c.check('lag axis kept', st2.npts == n and st2.network == 'A-B')


def pulse(np, t, f, t0):
    return np.cos(2 * np.pi * f * (t - t0)) * np.exp(-((t - t0) * f) ** 2)


@contract('C16', 'signal after a change of the sampling rate',
          [ROD, RST, DEC, 'seismic.correlate.stream:'
           'CorrBulk.resample_time_axis'], proof=False, cases=100,
          thorough=1500, bound='up to 400 samples')
def signal(c):
    import numpy as np
    sr = float(c.choice('rate', [8, 10, 20, 25]))
    new = c.choice('new', [1, 2, 2.5, 4, 5, 8, 10, 20, 25, 30])
    n = c.int('npts', 200, gen=(200, 400))
    lag = c.int('lag', -300, gen=(-300, 50)) / sr
    m = c.int('rows', 1, gen=(1, 3))
    t = lag + np.arange(n) / sr
    f = min(new, sr) * c.choice('f', [.12, .15, .2])
    t0 = [t[n // 3] + c.int('at%d' % i, 0, gen=(0, n // 3)) / sr
          for i in range(m)]
    amp = [c.int('amp%d' % i, 1, gen=(1, 20)) for i in range(m)]
    data = np.array([a * pulse(np, t, f, x) for a, x in zip(amp, t0)])
    alias = c.flag('above the new rate') and new <= sr / 2
    if alias:
        data = data + 3 * np.sin(2 * np.pi * .49 * sr * t)
    old = data.copy()
    st = corr_header(c, n, sr=sr, start_lag=lag, network='A-B')
    use = c.flag('bulk')

    def go():
        if use:
            cb = c.fn('seismic.correlate.stream:CorrBulk')(data, stats=st)
            cb.resample_time_axis(new)
            return cb.data, cb.stats
        return c.fn(ROD)(data, st, new)
    if new > sr:
        c.expect_raises(ValueError, go, 'higher rate')
        return
    out, st2 = go()
    c.check('input untouched', np.array_equal(data, old))
    c.check('sampling rate', st2.sampling_rate == new)
    c.check('start lag', abs(st2.start_lag - lag) < 1e-9)
    c.check('shape', out.shape == (m, st2.npts))
    T = lag + np.arange(st2.npts) / float(new)
    c.check('span of the lags', T[-1] <= t[-1] + 1e-6 and
            T[-1] >= t[-1] - 2. / new, (T[-1], t[-1]))
    if n / sr * f < 6:
        return      # the pulse reaches the ends
    inner = (T > t[0] + 1.5 / f) & (T < t[-1] - 1.5 / f)
    for i in range(m):
        ref = amp[i] * pulse(np, T, f, t0[i])
        err = np.abs(out[i] - ref)[inner].max() / amp[i]
        lim = .15 if not alias or new == sr else .15 + 1. / amp[i]
        c.check('signal at the same lags', err < lim, (err, lim, f, new))


@contract('C16', 'traces of a lower sampling rate',
          [MU + 'resample_or_decimate'], proof=False, cases=100,
          thorough=1500, bound='up to 3 traces of 600 samples')
def traces(c):
    import numpy as np
    Trace, Stream = c.ext('obspy', 'Trace'), c.ext('obspy', 'Stream')
    UTC = c.ext('obspy', 'UTCDateTime')
    new = c.choice('new', [1, 2, 2.5, 5, 8, 10, 20])
    k = c.int('traces', 0, gen=(0, 3))
    same = c.flag('one rate')
    filt = c.choice('filter', [True, True, False])
    trs, ref = [], []
    for i in range(k):
        sr = float(c.choice('rate%d' % i, [10, 20, 25, 50]))
        if same and i:
            sr = trs[0].stats.sampling_rate
        n = c.int('npts%d' % i, 300, gen=(300, 600))
        t = np.arange(n) / sr
        f = min(new, sr) * .15
        t0 = t[n // 2]
        x = pulse(np, t, f, t0)
        trs.append(Trace(x, dict(sampling_rate=sr, starttime=UTC(2020, 1, 1)
                                 + i, station='S%d' % i)))
        ref.append((sr, n, f, t0, x.copy()))
    rates = {r[0] for r in ref}
    one = k == 1 and c.flag('single trace')
    arg = trs[0] if one else Stream(trs)

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return c.fn(MU + 'resample_or_decimate')(arg, new, filt)
    if len(rates) == 1 and new > min(rates):
        c.expect_raises(ValueError, go, 'higher rate')
        return
    out = go()
    out = [out] if one else list(out)
    c.check('all traces', len(out) == k)
    for i, (tr, (sr, n, f, t0, x)) in enumerate(zip(out, ref)):
        c.check('trace in place', tr.stats.station == 'S%d' % i and
                abs(tr.stats.starttime - (UTC(2020, 1, 1) + i)) < 1e-6)
        if new >= sr:
            c.check('left as it is', tr.stats.sampling_rate == sr and
                    np.array_equal(tr.data, x))
            continue
        c.check('rate', abs(tr.stats.sampling_rate - new) < 1e-9)
        T = np.arange(tr.stats.npts) / float(new)
        c.check('length', abs(tr.stats.npts / float(new) - n / sr) <
                1.01 / new)
        if n / sr * f < 12:
            continue
        y = tr.data
        if filt:        # causal filter: the pulse may come later
            p, q = np.abs(y).max(), T[np.argmax(np.abs(y))]
            c.check('signal kept', .6 < p < 1.2 and -.5 / f < q - t0 < 3 / f,
                    (p, q, t0, f))
        else:
            # obspy's Fourier resampling rounds the length of the trace
            p, q = np.abs(y).max(), T[np.argmax(np.abs(y))]
            c.check('signal at the same times', .6 < p < 1.05 and
                    abs(q - t0) < 1.6 / new, (p, q, t0, f))


@contract('C16', 'no false signals at a lower sampling rate',
          [MU + 'resample_or_decimate'], proof=False, cases=60,
          thorough=1000, bound='traces of up to 6000 samples')
def no_alias(c):
    """what the lower rate cannot hold is gone, what it holds is kept"""
    import numpy as np
    Trace, Stream = c.ext('obspy', 'Trace'), c.ext('obspy', 'Stream')
    sr = float(c.choice('rate', [20, 25, 50, 100]))
    new = c.choice('new', [1, 2, 2.5, 3, 4, 5, 6, 8, 10, 12])
    c.assume(sr / new > 1.5 and (sr / new < 40))
    t = np.arange(int(60 * sr / new)) / sr
    rel = c.choice('frequency', [.05, .1, .2, .25, .55, .7, 1., 1.45, 3.])
    f = rel * new
    # also after the change the frequency is to be told from zero
    c.assume(f < .48 * sr)
    x = np.sin(2 * np.pi * f * t + c.int('phase', 0, gen=(0, 6)))
    tr = Trace(x.copy(), dict(sampling_rate=sr))
    one = c.flag('single trace')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = c.fn(MU + 'resample_or_decimate')(
            tr if one else Stream([tr]), new)
    out = out if one else out[0]
    y = out.data[len(out.data) // 3:-len(out.data) // 8]
    a = np.sqrt(2 * np.mean(y ** 2))
    if rel > .5:
        c.check('too fast for the rate', a < .05, (a, sr, new, f))
    else:
        # obspy's Fourier resampling interpolates the spectrum when the
        # length is no multiple: weaker towards the ends
        low = .9 if sr % new == 0 else .4
        c.check('slow enough', low < a < 1.1, (a, sr, new, f))
