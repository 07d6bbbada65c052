"""C09 estimating and undoing time shifts."""
from .common import contract, corr_header, PCP
from .c07_stretch_estimate import (VCE, window, compare_estimate, gappy,
                                   similarities, some_windows)
from .c08_stretch_apply import waveform

SM = 'seismic.monitor.stretch_mod:'
ST = 'seismic.correlate.stream:'
SHIFT, MEASURE = PCP + ':apply_shift', PCP + ':measure_shift'
REFMAT = SM + 'create_shifted_ref_mat'
COMPARE = SM + 'compare_with_modified_reference'


def line(c, x, y, n, q):
    """broken line through (x[k], y[k]), continued beyond the ends"""
    return c.ext('scipy.interpolate', 'interp1d')(
        x, y, fill_value='extrapolate')(q)


@contract('C09', 'every correlation is moved by its own shift', [SHIFT])
def apply(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 2, gen=(2, 12))
    data = c.array('data', (m, n))
    st = corr_header(c, n, corr_start=[], corr_end=[])
    v = c.array('shift', (m,), lo=-3, hi=3)
    old, lag0, sr = data.copy(), st['start_lag'], st['sampling_rate']
    out = c.fn(SHIFT)(data, st, v)
    i, j = c.exists_index('ij', [m, n])
    t = lag0 + j / sr
    x = c.np().linspace(st['start_lag'], st['end_lag'], n)
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    c.check('value at the lag plus shift', c.eq(
        c.at(out, i, j), line(c, x, old[i], n, t + c.at(v, i)) + 0.,
        tol=1e-6, scale=10))
    c.check('shift kept', c.and_(c.eq(st['start_lag'], lag0),
                                 st['npts'] == n))


@contract('C09', 'zero shift', [SHIFT])
def zero(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 2, gen=(2, 12))
    data = c.array('data', (m, n))
    old = data.copy()
    st = corr_header(c, n, corr_start=[], corr_end=[])
    out = c.fn(SHIFT)(data, st, c.np().zeros(m))
    i, j = c.exists_index('ij', [m, n])
    c.check('data unchanged', c.eq(c.at(out, i, j), c.at(old, i, j)))


class _DV(object):
    def __init__(self, kind, value):
        self.value_type, self.value = kind, value


@contract('C09', 'correction undoes the estimated shift',
          [ST + 'CorrBulk.correct_shift', SHIFT])
def correct(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 2, gen=(2, 12))
    data = c.array('data', (m, n))
    st = corr_header(c, n, corr_start=[], corr_end=[])
    v = c.array('shift', (m,), lo=-3, hi=3)
    old, oldv = data.copy(), v.copy()
    lag0, sr = st['start_lag'], st['sampling_rate']
    cb = c.fn(ST + 'CorrBulk')(data, st)
    r = cb.correct_shift(_DV('shift', v))
    i, j = c.exists_index('ij', [m, n])
    x = c.np().linspace(st['start_lag'], st['end_lag'], n)
    t = lag0 + j / sr
    c.check('value at the lag minus the estimate', c.eq(
        c.at(cb.data, i, j), line(c, x, old[i], n, t - c.at(v, i)) + 0.,
        tol=1e-6, scale=10))
    c.check('bulk itself is corrected', r is cb)
    c.check('estimate kept', c.eq(c.at(v, i), c.at(oldv, i)))
    c.check('noted', cb.stats['processing_bulk'][-1] ==
            'Corrected for time shift')


@contract('C09', 'candidates are shifted references', [REFMAT])
def refmat(c):
    n = c.dim('npts', 4, gen=(4, 12))
    s = c.dim('shifts', 1, gen=(1, 5))
    two = c.flag('2-D')
    ref = c.array('ref', (1, n) if two else (n,))
    st = corr_header(c, n)
    v = c.array('shift', (s,), lo=-3, hi=3)
    sr, lag0 = st['sampling_rate'], st['start_lag']
    out = c.fn(REFMAT)(ref, st, v)
    i, j = c.exists_index('ij', [s, n])
    x = c.np().linspace(st['start_lag'], st['end_lag'], n)
    trc = ref[0] if two else ref
    spl = c.ext('scipy.interpolate', 'UnivariateSpline')(x, trc, s=0)
    c.check('shape', c.and_(out.shape[0] == s, out.shape[1] == n))
    c.check('reference at the lag plus shift', c.eq(
        c.at(out, i, j), spl(lag0 + j / sr + c.at(v, i)) + 0.,
        tol=1e-6, scale=100))
    c.check('zero shift is the reference', c.implies(
        c.at(v, i) == 0, lambda: c.eq(c.at(out, i, j), c.at(trc, j))))


@contract('C09', 'similarity of shifted references', [COMPARE])
def compare(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 1, gen=(1, 9))
    s = c.dim('shifts', 1, gen=(1, 4))
    data = c.array('data', (m, n))
    ref = c.array('ref', (s, n))
    a = c.int('first', 0, gen=(0, 4))
    b = c.int('last', 1, gen=(1, 9))
    c.assume(c.and_(a < b, b <= n))
    idx = c.np().arange(a, b, 1)
    old = data.copy()
    sim = c.fn(COMPARE)(data, ref, idx)
    i, j = c.exists_index('ij', [m, s])
    k, = c.exists_index('k', [n])
    w = b - a
    d = c.sum([w], lambda q: c.at(data, i, a + q) * c.at(ref, j, a + q))
    xx = c.sum([w], lambda q: c.at(data, i, a + q) * c.at(data, i, a + q))
    yy = c.sum([w], lambda q: c.at(ref, j, a + q) * c.at(ref, j, a + q))
    c.check('shape', c.and_(sim.shape[0] == m, sim.shape[1] == s))
    c.check('normalised scalar product of the samples in the window',
            c.implies(xx * yy > 0, lambda: c.eq(
                c.at(sim, i, j) * c.sqrt(xx * yy), d)))
    c.check('no similarity without energy', c.implies(
        c.eq(xx * yy, 0.), lambda: c.isnan(c.at(sim, i, j))))
    c.check('data untouched', c.eq(c.at(data, i, k), c.at(old, i, k)))


@contract('C09', 'the best of the tested shifts is reported', [MEASURE],
          timeout=40)
def measure(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 12, gen=(16, 40))
    h = c.int('half', 1, gen=(1, 3))
    z = c.int('zero', 0, gen=(4, 12))
    sr = c.real('rate', positive=True, gen=(1, 4), den=1)
    rng = c.int('range', 1, gen=(1, 3))
    a = c.int('first', 0, gen=(0, 6))
    b = c.int('last', 1, gen=(5, 16))
    sides = c.choice('sides', ['single', 'both'])
    # window and range in samples, inside the correlation
    c.assume(c.and_(a < b, b + rng <= n - 1 - z))
    if not c.symbolic:      # lags without rounding errors
        c.assume(sr in (1, 2, 4))
    c.assume(-(b + rng) >= -z if sides == 'both' else a - rng >= -z)
    steps = 2 * h + 1
    data = c.array('data', (m, n))
    ref = c.array('ref', (n,))
    st = corr_header(c, n, sr=sr, start_lag=-z / sr,
                     corr_start=c.times('start', m),
                     corr_end=c.times('end', m))
    old, lag0 = data.copy(), st['start_lag']
    dv = c.fn(MEASURE)(data, st, ref, [[a / sr, b / sr]], rng / sr, steps,
                       sides, True)
    i, k = c.exists_index('ik', [m, steps])
    q, = c.exists_index('q', [n])
    sim = c.np().reshape(dv.sim_mat, (m, steps))
    corr = c.np().reshape(dv.corr, (m,))
    val = c.np().reshape(dv.value, (m,))
    shifts = c.np().linspace(-rng / sr, rng / sr, steps)
    c.check('tested shifts', c.eq(c.at(dv.second_axis, k), -rng / sr +
                                  k * (rng / sr / h)))
    best = c.at(c.np().argmax(sim, axis=1), i)
    if c.case(c.not_(c.isnan(c.at(corr, i)))):
        c.check('no similarity is larger',
                c.at(sim, i, k) <= c.at(corr, i))
        c.check('the largest similarity is reported',
                c.eq(c.at(sim, i, best), c.at(corr, i)))
        c.check('shift of the largest similarity',
                c.eq(c.at(val, i), c.at(shifts, best)))
    c.check('no shift without similarity', c.eq(
        c.isnan(c.at(val, i)), c.isnan(c.at(corr, i))))
    c.check('data untouched', c.eq(c.at(data, i, q), c.at(old, i, q)))
    c.check('header untouched', c.and_(c.eq(st['start_lag'], lag0),
                                       st['npts'] == n))


TSE = SM + 'time_shift_estimate'
TSA = SM + 'time_shift_apply'


@contract('C09', 'shifting by time_shift_apply', [TSA])
def tsa(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 2, gen=(2, 12))
    one = c.flag('single_sided')
    per = c.flag('per sample')
    data = c.array('data', (m, n))
    old = data.copy()
    v = c.array('shift', (m, n) if per else (m,), lo=-4, hi=4)
    out = c.fn(TSA)(data, v, one)
    i, j = c.exists_index('ij', [m, n])
    d = c.at(v, i, j) if per else c.at(v, i)
    q = j - d
    t0 = 0. if one else (n - 1.) / 2.
    lin = c.ext('scipy.interpolate', 'interp1d')(
        c.np().arange(n) - t0, old[i], kind='linear', bounds_error=False,
        fill_value=0)
    c.check('value at the time minus the shift', c.eq(
        c.at(out, i, j), lin(j - t0 - d) + 0., tol=1e-6, scale=10))
    eps = 1e-9
    c.check('zero beyond the ends', c.implies(
        c.or_(q < -eps, q > n - 1 + eps), lambda: c.eq(c.at(out, i, j), 0.)))
    c.check('whole samples are moved', c.implies(
        c.and_(q >= 0, q <= n - 1, c.eq(c.floor(q), q)),
        lambda: c.eq(c.at(out, i, j), c.at(old, i, c.floor(q)))))
    c.check('argument untouched', c.eq(c.at(data, i, j), c.at(old, i, j)))


@contract('C09', 'estimate of time_shift_estimate', [TSE, VCE], timeout=40)
def tse(c):
    one = c.flag('single_sided')
    n = c.dim('npts', 4, gen=(5, 15))
    m = c.dim('traces', 2, gen=(2, 4))
    s = c.dim('steps', 2, gen=(2, 7))
    mat = c.array('mat', (m, n), nan=True)
    ref = c.array('ref', (n,))
    rng = c.real('range', positive=True, gen=(1, 4), den=4)
    tw, a, b = window(c, n, 'single' if one else 'both')
    old = mat.copy()
    dv = c.fn(TSE)(mat, ref, [tw], rng, s, one)
    i, j = c.exists_index('ij', [m, s])
    np = c.np()
    eps = np.linspace(-rng, rng, s)
    t = np.arange(n) - ((n - 1.) / 2. if one else 0.)
    spl = c.ext('scipy.interpolate', 'UnivariateSpline')(
        t, ref, s=0, ext='const')
    cand = spl(t[None, :] - eps[:, None])
    want = c.fn(VCE)(old, [tw], cand, eps, 'single' if one else 'both', True)
    c.check('candidates', c.eq(c.at(dv['second_axis'], j),
                               -rng + j * (2 * rng / (s - 1))))
    c.check('kind', c.at(dv['value_type'], 0) == 'shift')
    c.check('similarity with the shifted reference', c.eq(
        c.at(dv['sim_mat'], i, j), c.at(want['sim_mat'], i, j)))
    c.check('similarity of the best candidate', c.eq(
        c.at(dv['corr'], i), c.at(want['corr'], i)))
    c.check('value of the best candidate', c.eq(
        c.at(dv['value'], i), c.at(want['value'], i)))
    k, = c.exists_index('k', [n])
    c.check('input untouched', c.eq(c.at(mat, i, k), c.at(old, i, k)))


@contract('C09', 'estimate and correction of a shifted wave field',
          [MEASURE, ST + 'CorrBulk.measure_shift',
           ST + 'CorrBulk.correct_shift'], proof=False, cases=100,
          bound='random band-limited signals, 241 samples, candidate shifts '
                'on the grid')
def roundtrip(c):
    import numpy as np
    from obspy import UTCDateTime
    n, sr = 241, 8.
    t0 = [UTCDateTime(0), UTCDateTime(1)]
    st = c.fn('seismic.correlate.stats:CorrStats')(dict(
        sampling_rate=sr, start_lag=-15., npts=n, corr_start=list(t0),
        corr_end=[x + 1 for x in t0]))
    t = np.linspace(-15, 15, n)
    w = waveform(c, n, t)
    grid = np.linspace(-1, 1, 17)
    v = grid[[c.int('k%d' % i, 0, 16) for i in range(2)]]
    sides = c.choice('sides', ['both', 'single'])
    data = np.array([w(t + x) for x in v])
    cb = c.fn(ST + 'CorrBulk')(data.copy(), st)
    dv = cb.measure_shift(ref_trc=w(t), tw=[[1., 9.]], shift_range=1.,
                          shift_steps=17, sides=sides, return_sim_mat=True)
    c.check('estimate', np.allclose(dv.value, v, atol=1e-9))
    c.check('similarity', np.all(dv.corr > .999) and
            np.all(dv.corr <= 1 + 1e-9))
    c.check('measuring leaves the correlations alone',
            np.array_equal(cb.data, data) and
            cb.stats['start_lag'] == -15. and cb.stats['npts'] == n)
    cb.correct_shift(dv)
    mid = slice(20, n - 20)
    c.check('wave field restored', np.allclose(
        cb.data[:, mid], w(t)[mid], atol=2e-1))


@contract('C09', 'estimates with and without reference and window', [TSE],
          proof=False, cases=150, thorough=2000,
          bound='up to 4 rows of 31 samples, 3 windows')
def defaults(c):
    import numpy as np
    import warnings
    from scipy.interpolate import UnivariateSpline
    one = c.flag('single_sided')
    sides = 'single' if one else 'both'
    n, m = c.int('npts', 9, gen=(9, 31)), c.int('rows', 1, gen=(1, 4))
    s = c.int('steps', 3, gen=(3, 8))
    mat = gappy(c, np, m, n)
    tw, ranges = some_windows(c, n, sides)
    clean = c.flag('gaps are zero')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = np.nan_to_num(mat) if clean else mat
        # samples without data count as zero
        ref = np.nansum(x, axis=0) / m
        given = c.flag('reference given')
        if given:
            ref = np.random.default_rng(n).normal(size=n)
        old = mat.copy()
        arg = mat[0] if m == 1 and c.flag('vector') else mat
        rng = c.choice('range', [1., 2., 2.5])
        axis = np.linspace(-rng, rng, s)
        t = np.arange(n)
        spl = UnivariateSpline(t, ref, s=0, ext='const')
        cand = np.array([spl(t - e) for e in axis])
        matrix = c.flag('matrix')
        dv = c.fn(TSE)(arg, ref if given else None, tw, rng, s, one, matrix,
                       clean)
        sim = similarities(np, x, cand, ranges, sides)
        compare_estimate(c, np, dv, sim, axis, matrix)
    c.check('input untouched', np.array_equal(mat, old, equal_nan=True))


@contract('C09', 'shift measured in several windows', [MEASURE, REFMAT,
                                                        COMPARE],
          proof=False, cases=150, thorough=2000,
          bound='up to 4 rows of 121 samples, 3 windows')
def measure_windows(c):
    import numpy as np
    from scipy.interpolate import UnivariateSpline
    from obspy import UTCDateTime
    sr = c.choice('rate', [1., 2., 4.])
    left, right = c.int('left', 20, gen=(20, 60)), c.int(
        'right', 20, gen=(20, 60))
    n, m = left + right + 1, c.int('rows', 2, gen=(2, 4))
    sides = c.choice('sides', ['both', 'single'])
    rng = c.int('range', 1, gen=(1, 4))
    half = c.int('half', 1, gen=(1, 4))
    data = np.random.default_rng(c.int('seed', 0, gen=(0, 10 ** 6))).normal(
        size=(m, n))
    t0 = [UTCDateTime(100 * k) for k in range(m)]
    st = corr_header(c, n, sr=sr, start_lag=-left / sr, corr_start=list(t0),
                     corr_end=[x + 50 for x in t0])
    f = c.fn(MEASURE)
    if c.flag('window not given'):
        c.assume(sides == 'single' or left == right)
        tw, wins = None, [(rng - left, right - rng)]
        c.assume(sides == 'single')
    else:
        wins = []
        for k in range(c.int('windows', 1, gen=(1, 3))):
            lo = c.int('lo%d' % k, 0, gen=(0 if sides == 'both' else -12, 10))
            wins.append((lo, lo + c.int('len%d' % k, 3, gen=(3, 14))))
        tw = [[a / sr, b / sr] for a, b in wins]
        last = max(b for _, b in wins) + rng
        first = -last if sides == 'both' else min(
            a for a, _ in wins) - rng
        if last > right or first < -left:
            c.expect_raises(AssertionError, lambda: f(
                data, st, None, tw, rng / sr, 2 * half + 1, sides),
                'window beyond the correlation')
            return
        bad = c.choice('refused', [None] * 5 + [
            'even', 'sides', 'length', 'window', 'negative'])
        if bad:
            r = np.ones(n - 1) if bad == 'length' else None
            w = [[1., 2., 3.]] if bad == 'window' else [
                [-1., 5.]] if bad == 'negative' else tw
            c.expect_raises(ValueError, lambda: f(
                data, st, r, w, rng / sr, 2 * half + (bad != 'even'),
                {'sides': 'left', 'negative': 'both'}.get(bad, sides)), bad)
            return
    given = c.flag('reference given')
    ref = np.random.default_rng(n).normal(size=n) if given else None
    old, oldr, lag0 = data.copy(), None if ref is None else ref.copy(), st[
        'start_lag']
    matrix = c.flag('matrix')
    dv = f(data, st, ref, tw, rng / sr, 2 * half + 1, sides, matrix)
    # used part of the lag axis
    hi = max(b for _, b in wins) + rng
    lo = -hi if sides == 'both' else min(a for a, _ in wins) - rng
    part = slice(lo + left, hi + left + 1)
    x = data[:, part]
    r = x.mean(axis=0) if ref is None else ref[part]
    t = np.arange(lo, hi + 1) / sr
    axis = np.linspace(-rng / sr, rng / sr, 2 * half + 1)
    spl = UnivariateSpline(t, r, s=0)
    cand = np.array([spl(t + e) for e in axis])
    sims = []
    for a, b in wins:
        k = np.arange(a, b) - lo
        if sides == 'both':
            k = np.concatenate((-np.arange(a, b) - lo, k))
        p, q = x[:, k], cand[:, k]
        sims.append(p @ q.T / np.sqrt(
            (p ** 2).sum(axis=1)[:, None] * (q ** 2).sum(axis=1)))
    sim = np.mean(sims, axis=0)
    c.check('tested shifts', np.allclose(dv.second_axis, axis))
    c.check('mean similarity of the windows', np.allclose(
        dv.corr, sim.max(axis=1)))
    c.check('most similar shift', all(any(abs(v - axis[s > s.max() - 1e-9])
                                          < 1e-12)
                                      for v, s in zip(dv.value, sim)))
    if matrix:
        c.check('similarities', np.allclose(dv.sim_mat, sim))
    else:
        c.check('no similarities', dv.sim_mat is None or not np.size(
            dv.sim_mat))
    c.check('times of the correlations', list(dv.stats.corr_start) == t0)
    c.check('kind', str(np.ravel(dv.value_type)[0]) == 'shift')
    c.check('arguments untouched', np.array_equal(data, old) and (
        ref is None or np.array_equal(ref, oldr)) and st['npts'] == n and
        st['start_lag'] == lag0 and list(st['corr_start']) == t0)


@contract('C09', 'shifting with several measurements per correlation', [TSA],
          proof=False, cases=60, bound='1 to 3 correlations, 3 to 12 samples')
def tsa_shapes(c):
    import numpy as np
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 3, gen=(3, 12))
    one = c.flag('single_sided')
    data = c.array('data', (m, n))
    v = c.array('shift', (m,), lo=-4, hi=4)
    apply = c.fn(TSA)
    want = apply(data, v, one)
    c.check('column of shifts', np.array_equal(
        apply(data, v[:, None], one), want))
    c.check('two-sided unless asked otherwise', np.array_equal(
        apply(data, v), apply(data, v, False)))
    c.expect_raises(ValueError, lambda: apply(
        data, np.zeros((m + 1, 1)), one), 'too many shifts')
    c.expect_raises(ValueError, lambda: apply(
        data, np.zeros((m, n - 1)), one), 'shifts for other samples')
    if m == 1:
        c.check('single trace', np.array_equal(
            apply(data[0], v, one), want))
