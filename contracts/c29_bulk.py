"""C29 operations on a matrix of correlations."""
import warnings

from .common import contract, corr_header

S = 'seismic.correlate.stream:'
CB = S + 'CorrBulk'
P = 'seismic.monitor.post_corr_process:'
SM = 'seismic.correlate.stream:'


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


# method: (arguments, function, positional arguments expected, returns stats)
DATA, STATS = 'data', 'stats'
METHODS = {
    'normalize': [
        (dict(), 'corr_mat_normalize', (DATA, STATS, None, None, 'energy')),
        (dict(starttime='a', endtime='b', normtype='c'),
         'corr_mat_normalize', (DATA, STATS, 'a', 'b', 'c'))],
    'clip': [(dict(thres='a', axis='b'), 'corr_mat_clip', (DATA, 'a', 'b')),
             (dict(thres='a'), 'corr_mat_clip', (DATA, 'a', 1))],
    'correct_decay': [(dict(), 'corr_mat_correct_decay', (DATA, STATS))],
    'envelope': [(dict(), 'corr_mat_envelope', (DATA,))],
    'filter': [(dict(freqs=('a', 'b'), order='c'), 'corr_mat_filter',
                (DATA, STATS, ('a', 'b'), 'c'))],
    'mirror': [(dict(), 'corr_mat_mirror', (DATA, STATS))],
    'resample': [(dict(starttimes='a', endtimes='b'), 'corr_mat_resample',
                  (DATA, STATS, 'a', 'b'))],
    'resample_time_axis': [(dict(freq='a'), 'corr_mat_resample_or_decimate',
                            (DATA, STATS, 'a'))],
    'smooth': [(dict(wsize='a', wtype='b', axis='c'), 'corr_mat_smooth',
                (DATA, 'a', 'b', 'c')),
               (dict(wsize='a'), 'corr_mat_smooth', (DATA, 'a', 'flat', 1))],
    'taper': [(dict(width='a'), 'corr_mat_taper', (DATA, STATS, 'a'))],
    'taper_center': [(dict(width='a', slope_frac='b'),
                      'corr_mat_taper_center', (DATA, STATS, 'a', 'b'))],
    'trim': [(dict(starttime='a', endtime='b'), 'corr_mat_trim',
              (DATA, STATS, 'a', 'b'))],
}
WITH_STATS = ('mirror', 'resample', 'resample_time_axis', 'trim')
# what tells the parameters in the list of processing steps
CALLS = [(k, i) for k in METHODS for i in range(len(METHODS[k]))]
NAMES = {
    'corr_mat_normalize': ('data', 'stats', 'starttime', 'endtime',
                           'normtype'),
    'corr_mat_clip': ('A', 'thres', 'axis'),
    'corr_mat_correct_decay': ('data', 'stats'),
    'corr_mat_envelope': ('data',),
    'corr_mat_filter': ('data', 'stats', 'freqs', 'order'),
    'corr_mat_mirror': ('data', 'stats'),
    'corr_mat_resample': ('data', 'stats', 'start_times', 'end_times'),
    'corr_mat_resample_or_decimate': ('data', 'stats', 'freq'),
    'corr_mat_smooth': ('data', 'wsize', 'wtype', 'axis'),
    'corr_mat_taper': ('data', 'stats', 'width'),
    'corr_mat_taper_center': ('data', 'stats', 'width', 'slope_frac'),
    'corr_mat_trim': ('data', 'stats', 'starttime', 'endtime'),
}


def bulk(c, m, n, **k):
    """a matrix of correlations with m rows"""
    st = corr_header(c, n, **k)
    data = c.array('data', (m, n))
    b = c.fn(CB)(data, stats=st)
    return b, data


@contract('C29', 'operations act on data, header and history', [
    CB + '.' + k for k in METHODS] + [CB + '.__init__'],
    cases=60, note='the functions of post_corr_process as contracts; all '
    'arguments (opaque values)')
def dispatch(c):
    """a method passes its arguments on, keeps what the function returns,
    adds one step to the history and returns the object"""
    name, i = c.choice('method', CALLS)
    kw, func, want = METHODS[name][i]
    m, n = c.dim('rows', 1, gen=(1, 3)), c.dim('npts', 1, gen=(1, 4))
    b, data = bulk(c, m, n, processing_bulk=['before'])
    stats, refs = b.stats, b.ref_trc
    calls = []

    new = ('new data', 'new stats')
    if name in WITH_STATS:
        nst = b.stats.copy()
        new = ('new data', nst)

    def f(*a, **k):
        got = dict(zip(NAMES[func], a))
        got.update(k)
        calls.append(got)
        return new if name in WITH_STATS else new[0]
    c.patch((S if func == 'corr_mat_trim' else P) + func, f)
    out = getattr(b, name)(**kw)
    c.check('object', out is b)
    c.check('one call', len(calls) == 1)
    for p, w in zip(NAMES[func], want):
        g = calls[0].get(p)
        if w is DATA:
            c.check('data passed', g is data)
        elif w is STATS:
            c.check('header passed', g is stats)
        else:
            c.check('argument ' + p, g == w, (g, w))
    c.check('data kept', b.data == 'new data')
    c.check('header kept', b.stats is (
        new[1] if name in WITH_STATS else stats))
    c.check('history', len(b.stats['processing_bulk']) == 2 and
            b.stats['processing_bulk'][0] == 'before',
            b.stats['processing_bulk'])
    step = b.stats['processing_bulk'][1]
    for v in kw.values():
        for x in v if isinstance(v, tuple) else [v]:
            if name == 'normalize' and i == 0:
                continue
            c.check('parameters in the history', str(x) in step, step)


@contract('C29', 'corrections by a measured change', [
    CB + '.correct_stretch', CB + '.correct_shift'], cases=60,
    note='apply_stretch and apply_shift as contracts')
def corrections(c):
    """corrected by minus the measured value"""
    m, n = c.dim('rows', 1, gen=(1, 3)), c.dim('npts', 1, gen=(1, 4))
    b, data = bulk(c, m, n)
    stats = b.stats
    value = c.array('value', (m,), nan=True)
    calls = []
    kind = c.choice('kind', ['stretch', 'shift'])

    def f(*a, **k):
        got = dict(zip(('data', 'stats', kind), a))
        got.update(k)
        calls.append(got)
        return ('new data', stats) if kind == 'stretch' else 'new data'

    class Measured:
        pass
    dv = Measured()
    dv.value, dv.value_type = value, kind
    c.patch(P + 'apply_' + kind, f)
    out = getattr(b, 'correct_' + kind)(dv)
    c.check('object', out is b and b.data == 'new data' and
            b.stats is stats)
    c.check('one call', len(calls) == 1)
    got = calls[0]
    c.check('data and header', got['data'] is data and
            got['stats'] is stats, sorted(got))
    v = got.get(kind, got.get('shifts', got.get('stretches')))
    j, = c.exists_index('j', [m])
    c.check('minus the value', c.ite(
        c.isnan(c.at(value, j)), lambda: c.isnan(c.at(v, j)),
        lambda: c.eq(c.at(v, j), -c.at(value, j))))
    c.check('history', len(b.stats['processing_bulk']) == 1)
    if kind == 'stretch':
        dv.value_type = 'shift'
        c.expect_raises(ValueError, lambda: b.correct_stretch(dv),
                        'no stretch values')


@contract('C29', 'stretch of a matrix', [CB + '.stretch'], cases=60,
          note='corr_mat_stretch and DV as contracts; all arguments (opaque '
          'values)')
def stretch(c):
    """the estimate of the matrix with the reference that is given or kept,
    the similarity matrix only if asked for"""
    m, n = c.dim('rows', 1, gen=(1, 3)), c.dim('npts', 1, gen=(1, 4))
    b, data = bulk(c, m, n)
    b.ref_trc = c.choice('kept', [None, 'kept'])
    calls, made = [], []
    names = ('cdata', 'stats', 'ref_trc', 'tw', 'stretch_range',
             'stretch_steps', 'sides', 'return_sim_mat', 'ref_tr_trim',
             'ref_tr_stats')

    def f(*a, **k):
        calls.append(dict(zip(names, a), **k))
        return {'value': 'v', 'sim_mat': 'matrix'}

    def dv(*a, **k):
        made.append((a, k))
        return 'result'
    c.patch(P + 'corr_mat_stretch', f)
    c.patch(S + 'DV', dv)
    opts = ('tw', 'stretch_range', 'stretch_steps', 'sides', 'ref_tr_trim',
            'ref_tr_stats')
    kw = {k: 'some ' + k for k in c.choice('options', [(), opts] + [
        (k,) for k in opts])}
    full = c.choice('matrix', [None, True, False])
    if full is not None:
        kw['return_sim_mat'] = full
    want = dict(dict(tw=None, stretch_range=.1, stretch_steps=101,
                     sides='both', return_sim_mat=False, ref_tr_trim=None,
                     ref_tr_stats=None), **kw)
    want['ref_trc'] = b.ref_trc
    if c.flag('reference given'):
        want['ref_trc'] = kw['ref_trc'] = 'given'
    out = b.stretch(processing='steps', **kw)
    c.check('one estimate', len(calls) == len(made) == 1 and
            out == 'result')
    got = calls[0]
    c.check('data and header', got['cdata'] is data and
            got['stats'] is b.stats)
    for k, w in sorted(want.items()):
        c.check('argument ' + k, got.get(k) == w, (k, got.get(k), w))
    res = made[0][1]
    c.check('result', not made[0][0] and res['value'] == 'v' and
            res['dv_processing'] == 'steps' and len(res) == 3)
    if full:
        c.check('similarity matrix', res['sim_mat'] == 'matrix')
    else:
        c.check('no similarity matrix', res['sim_mat'].shape[0] == 0)
    c.check('matrix as before', b.data is data)


@contract('C29', 'reference trace', [CB + '.extract_trace'], cases=30,
          note='corr_mat_extract_trace as a contract')
def reference(c):
    m, n = c.dim('rows', 1, gen=(1, 3)), c.dim('npts', 1, gen=(1, 4))
    b, data = bulk(c, m, n)
    calls = []
    c.patch(P + 'corr_mat_extract_trace', lambda *a: calls.append(a) or 'r')
    out = b.extract_trace('method', 'percentile')
    c.check('argument', len(calls) == 1 and calls[0][0] is data and
            calls[0][1] is b.stats and calls[0][2:] == (
                'method', 'percentile'), calls)
    c.check('kept', out == 'r' and b.ref_trc == 'r' and b.data is data)


def smoothed(x, w):
    """weighted mean of the samples around, the data continued by point
    reflection"""
    import numpy as np
    n, k = len(x), len(w)

    def at(i):
        if i < 0:
            return 2 * x[0] - x[-i]
        if i >= n:
            return 2 * x[-1] - x[2 * (n - 1) - i]
        return x[i]
    a = k // 2
    return np.array([sum(w[k - 1 - q] * at(i + q - a) for q in range(k))
                     for i in range(n)]) / np.sum(w)


@contract('C29', 'smoothing', [P + '_smooth', P + 'corr_mat_smooth'],
          proof=False, cases=60, thorough=600, bound='up to 6 x 12 samples')
def smooth(c):
    import numpy as np
    m, n = c.int('rows', 1, gen=(1, 6)), c.int('npts', 1, gen=(1, 12))
    data = c.array('data', (m, n), nan=True)
    axis = c.choice('axis', [0, 1])
    size = n if axis == 0 else m
    wlen = c.int('window', 1, gen=(1, 13))
    wtype = c.choice('wtype', ['flat', 'hanning', 'hamming', 'bartlett',
                               'blackman'])
    f = c.fn(P + 'corr_mat_smooth')
    if wlen > size:
        c.expect_raises(ValueError, lambda: f(
            data.copy(), wlen, wtype, axis), 'window longer than the data')
        return
    if wlen > 2:
        c.expect_raises(ValueError, lambda: f(
            data.copy(), wlen, 'other', axis), 'unknown window')
    w = np.ones(wlen) if wtype == 'flat' else getattr(np, wtype)(wlen)
    c.assume(np.sum(w) > 0)
    x = np.nan_to_num(data)
    out = f(data.copy(), wlen, wtype, axis)
    want = x if wlen < 3 else np.apply_along_axis(
        lambda y: smoothed(y, w), 1 - axis, x)
    c.check('shape', out.shape == (m, n))
    c.check('smoothed', np.allclose(out, want), (out, want))
    if wlen % 2:
        ramp = np.linspace(1, 5, size)
        lin = np.tile(ramp, (m, 1)) if axis == 0 else np.tile(
            ramp[:, None], (1, n))
        c.check('straight lines do not change', np.allclose(
            f(lin.copy(), wlen, wtype, axis), lin))
    one = f(x[0].copy(), min(wlen, n), wtype) if min(wlen, n) < 3 else None
    if one is not None:
        c.check('single vector', np.array_equal(one, x[0]))


@contract('C29', 'envelope and decay', [
    P + 'corr_mat_envelope', P + 'corr_mat_correct_decay',
    CB + '.correct_decay', CB + '.envelope'], proof=False, cases=40,
    thorough=300, bound='up to 5 rows of up to 160 samples')
def decay(c):
    """an exponential decay with the lapse time is removed, the amplitude
    around zero lag becomes one; the header stays"""
    import numpy as np
    half = c.int('half', 20, gen=(30, 80))
    other = c.int('other', 20, gen=(30, 80))
    n = half + other + 1
    m = c.int('rows', 1, gen=(1, 5))
    sr = float(c.choice('sr', [1, 4, 25]))
    k = -c.choice('decay', [.001, .01, .03])
    a = c.choice('amp', [.1, 1., 30.])
    t = np.arange(n) - half
    ph = np.array([c.real('ph%d' % i, gen=(0, 6)) for i in range(m)])
    wave = np.cos(2 * np.pi * t[None, :] / 4. + ph[:, None])
    data = a * np.exp(k * np.abs(t))[None, :] * wave
    gap = c.flag('gap') and m > 1
    if gap:
        data[0] = np.nan
    st = corr_header(c, n, sr=sr, start_lag=-half / sr)
    b = c.fn(CB)(data.copy(), stats=st)
    before = {q: b.stats[q] for q in ('start_lag', 'end_lag', 'npts',
                                      'sampling_rate')}
    env = c.fn(P + 'corr_mat_envelope')(data[1 if gap else 0:])
    mid = slice(half - 12, half + 12)
    c.check('envelope bounds the data', np.all(
        env >= np.abs(data[1 if gap else 0:]) * (1 - 1e-9) - 1e-9 * a))
    c.check('envelope', np.allclose(
        env[:, mid], (a * np.exp(k * np.abs(t)))[None, mid], rtol=.35))
    b.correct_decay()
    got = b.data[1 if gap else 0:]
    # the envelope is not defined well at the ends
    if np.all(env.mean(axis=0) > .5 * a * np.exp(k * np.abs(t))):
        c.check('decay removed', np.allclose(
            got[:, mid], wave[1 if gap else 0:, mid], atol=.35),
            np.abs(got[:, mid] - wave[1 if gap else 0:, mid]).max())
    # every sample is divided by the same positive curve, exponential on
    # both sides of zero lag
    r = data[1 if gap else 0:] / got
    c.check('one curve', np.allclose(r, r[:1]) and np.all(r > 0))
    lr = np.log(r[0])
    s1 = np.diff(lr[half:])
    s0 = np.diff(lr[:half + 1])
    c.check('exponential on both sides', np.allclose(s1, s1[0]) and
            np.allclose(s0, -s1[0]))
    c.check('gap', not gap or np.all(np.isnan(b.data[0])))
    c.check('header', all(b.stats[q] == before[q] for q in before))


LISTS = ['corr_start', 'corr_end', 'location', 'channel']


@contract('C29', 'traces of a matrix', [
    CB + '.__getitem__', CB + '.create_corr_stream', CB + '.copy',
    CB + '.__init__',
    CB + '.select_corr_time'], proof=False, cases=60, thorough=600,
    bound='up to 6 rows of 5 samples')
def traces(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    m, n = c.int('rows', 1, gen=(1, 6)), 5
    t = sorted(c.int('t%d' % i, 0, gen=(0, 50)) for i in range(m))
    start = [UTC(2015, 1, 1) + 3600 * x for x in t]
    end = [x + 1800 for x in start]
    loc = ['-%02d' % i for i in range(m)] if c.flag('locations') else '-'
    cha = ['HHZ-HH%d' % i for i in range(m)] if c.flag(
        'channels') else 'HHZ-HHZ'
    kind = c.choice('kind', [list, np.array])
    b, data = bulk(c, m, n, corr_start=kind(start), corr_end=kind(end),
                   location=loc, start_lag=-2., ntrcs=m, sr=1.,
                   channel=cha, processing_bulk=['step'])
    keep = data.copy()
    new = c.fn(CB)(data.copy())
    c.check('without a header', new.stats.ntrcs == m and new.stats.npts == n
            and new.stats.processing_bulk == [] and new.ref_trc is None)

    def matches(tr, i, name):
        c.check(name + ': data', np.array_equal(tr.data, data[i]))
        c.check(name + ': times', tr.stats.corr_start == start[i] and
                tr.stats.corr_end == end[i], (tr.stats.corr_start, start[i]))
        c.check(name + ': location', tr.stats.location == (
            loc if isinstance(loc, str) else loc[i]))
        c.check(name + ': channel', tr.stats.channel == (
            cha if isinstance(cha, str) else cha[i]))
        c.check(name + ': lag', tr.stats.start_lag == -2. and
                tr.stats.npts == n and tr.stats.end_lag == 2.)
    i = c.int('i', -6, gen=(-m, m - 1))
    c.assume(-m <= i < m)
    q = c.choice('int', [int, np.int64, np.int32])
    matches(b[q(i)], i, 'trace')
    st = b.create_corr_stream()
    c.check('number of traces', len(st) == m)
    for k, tr in enumerate(st):
        matches(tr, k, 'stream')
    if isinstance(cha, str):
        new = c.fn(CB)(data.copy(), statlist=[tr.stats for tr in st])
        c.check('header of the traces', list(np.atleast_1d(
            new.stats.corr_start)) == start and new.stats.npts == n and
            new.stats.start_lag == -2. and new.stats.ntrcs == m)
    ind = [c.int('ind%d' % k, 0, gen=(0, m - 1)) for k in range(3)]
    c.assume(max(ind) < m)
    some = b.create_corr_stream(ind)
    c.check('number of selected traces', len(some) == len(ind))
    for k, tr in zip(ind, some):
        matches(tr, k, 'selected')
    lo = c.int('lo', 0, gen=(0, m - 1))
    hi = c.int('hi', 1, gen=(lo + 1, m))
    c.assume(lo < hi <= m)
    part = b[lo:hi]
    c.check('part', np.array_equal(part.data, data[lo:hi]) and
            part.stats.ntrcs == hi - lo and list(part.stats.corr_start)
            == start[lo:hi] and list(part.stats.corr_end) == end[lo:hi] and
            (part.stats.location == loc if isinstance(loc, str) else
             list(part.stats.location) == loc[lo:hi]) and
            (part.stats.channel == cha if isinstance(cha, str) else
             list(part.stats.channel) == cha[lo:hi]) and part.stats.processing_bulk == ['step'])
    cp = b.copy()
    cp.data[:] = 7
    cp.stats.processing_bulk += ['other']
    cp.stats['start_lag'] = 4.
    part.stats.processing_bulk += ['other']
    c.check('copies do not share', np.array_equal(b.data, keep) and
            b.stats.processing_bulk == ['step'] and b.stats.start_lag == -2.)
    s0, s1 = UTC(2015, 1, 1) + 3600 * c.int('s', 0, gen=(0, 50)), 0
    s1 = s0 + 1800 * c.int('d', 1, gen=(1, 60))
    whole = c.flag('partially')
    want = [k for k in range(m) if (
        end[k] > s0 and start[k] < s1 if whole else
        start[k] >= s0 and end[k] <= s1)]
    touch = any(end[k] == s0 or start[k] == s1 for k in range(m))
    if want and not (touch and whole):
        sel = quiet(lambda: b.select_corr_time(s0, s1, whole))
        c.check('selected by time', np.array_equal(
            np.atleast_2d(sel.data), data[want]), (sel.data, want))


@contract('C29', 'moving average', [P + '_smooth'], timeout=40)
def moving(c):
    """with the data mirrored in the first and last sample"""
    n, W = c.dim('samples', 1, gen=(1, 12)), c.int('window', 0, gen=(0, 6))
    x = c.array('x', (n,))
    f = lambda: c.fn(P + '_smooth')(x, W, 'flat')  # noqa
    if c.case(n < W):
        c.expect_raises(ValueError, f, 'window longer than the data')
        return
    old = x.copy()
    y = f()
    i, = c.exists_index('i', [n])
    c.check('length', y.shape[0] == n)
    c.check('data kept', c.eq(c.at(x, i), c.at(old, i)))
    if c.case(W < 3):
        c.check('too short to smooth', c.eq(c.at(y, i), c.at(old, i)))
        return
    if c.symbolic:
        return          # the values are compared below for concrete data
    h = (W - 1) // 2
    e = [2 * old[0] - old[k] for k in range(W - 1, 0, -1)] + list(old) + [
        2 * old[-1] - old[n - 1 - k] for k in range(1, W)]
    want = sum(e[i + W - 1 + h - k] for k in range(W)) / W
    c.check('mean of the window', c.eq(y[i], want))
