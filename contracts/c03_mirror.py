"""C03 mirroring averages the two lag directions."""
from .common import contract, corr_header

MIRROR = 'seismic.monitor.post_corr_process:corr_mat_mirror'


@contract('C03', 'corr_mat_mirror', [MIRROR])
def mirror(c):
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.dim('npts', 1, gen=(1, 14))
    k = c.int('zero_index', gen=(-3, 16))
    data = c.array('data', (m, n), nan=True)
    sr = c.choice('sampling_rate', [1., 2., 8.])
    stats = corr_header(c, n, sr, -k / sr)
    old = data.copy()
    lag0, lag1 = stats['start_lag'], stats['end_lag']
    out, st = c.fn(MIRROR)(data, stats)
    c.check('argument keeps its header', c.and_(
        c.eq(stats['start_lag'], lag0), c.eq(stats['end_lag'], lag1),
        stats['npts'] == n))
    c.forall('argument keeps its data', [m, n],
             lambda i, j: c.eq(data[i, j], old[i, j]))
    if c.case(c.or_(k <= 0, n - 1 <= k)):
        c.check('one-sided data unchanged', out.shape[1] == n)
        c.forall('one-sided data unchanged', [m, n],
                 lambda i, j: c.eq(out[i, j], old[i, j]))
        c.check('one-sided header unchanged', c.eq(st['start_lag'], lag0))
        return
    size = c.imax(k + 1, n - k)
    c.check('length is the longer side', out.shape[1] == size)
    c.check('rows', out.shape[0] == m)

    def value(i, j):
        pos, neg = k + j, k - j
        has_p, has_n = pos < n, neg >= 0
        p = c.ite(has_p, lambda: c.at(old, i, c.imin(pos, n - 1)), 0.)
        q = c.ite(has_n, lambda: c.at(old, i, c.imax(neg, 0)), 0.)
        return c.eq(out[i, j], c.ite(c.and_(has_p, has_n), (p + q) / 2,
                                     c.ite(has_p, p, q)))
    c.forall('mean of both directions where both exist, else the one',
             [m, size], value)
    c.check('starts at zero lag', c.eq(st['start_lag'], 0))
    c.check('npts', st['npts'] == size)
    c.check('last lag', c.eq(st['end_lag'], (size - 1) / sr))
    c.check('sampling rate', c.eq(st['sampling_rate'], sr))


@contract('C03', 'zero lag between two samples', [MIRROR])
def off_grid(c):
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.dim('npts', 1, gen=(1, 14))
    data = c.array('data', (m, n), nan=True)
    sr = c.choice('sampling_rate', [1., 2., 8.])
    k = c.int('before_zero', gen=(-3, 16))
    f = c.real('fraction', .01, .99, gen=(.125, .875))
    lag = -(k + f) / sr
    stats = corr_header(c, n, sr, lag)
    old = data.copy()
    out, st = c.fn(MIRROR)(data, stats)
    c.check('size', c.and_(out.shape[0] == m, out.shape[1] == n))
    c.forall('data unchanged', [m, n],
             lambda i, j: c.eq(out[i, j], old[i, j]))
    c.check('header unchanged', c.and_(
        c.eq(st['start_lag'], lag), st['npts'] == n,
        c.eq(st['sampling_rate'], sr)))


@contract('C03', 'rounded lags', [MIRROR, 'seismic.correlate.stream:'
                                  'CorrBulk.mirror'], proof=False, cases=300,
          bound='sampling rates and lags with decimal digits')
def rounded(c):
    import numpy as np
    n = c.int('npts', 3, 14)
    k = c.int('zero_index', 1, n - 2)
    sr = c.choice('sr', [3., 5., 7., 10., 12.5, 25., 30., 50., 100.])
    lag = -k / sr
    if c.flag('float32'):
        lag = float(np.float32(lag))
    data = np.arange(2. * n).reshape(2, n)
    out, st = c.fn(MIRROR)(data.copy(), corr_header(c, n, sr, lag))
    size = max(k + 1, n - k)
    c.check('length', out.shape == (2, size) and st['npts'] == size)
    c.check('zero lag', np.allclose(out[:, 0], data[:, k]))
    c.check('both sides', np.allclose(out[:, 1], (
        data[:, k + 1] + data[:, k - 1]) / 2))
    CB = c.fn('seismic.correlate.stream:CorrBulk')
    for x in (lag, lag - .5 / sr):
        b = CB(data.copy(), corr_header(c, n, sr, x))
        b.mirror()
        c.check('bulk', b.data.shape[1] == b.stats.npts == (
            size if x == lag else n))
