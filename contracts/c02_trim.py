"""C02 trimming keeps samples and their lag labels together."""
from .common import contract, corr_header

TRIM = 'seismic.monitor.trim:corr_mat_trim'


def on_grid(c, x):
    """number of the sample at or before position x (in samples), where
    positions within a millionth of a sample are on the grid"""
    return c.floor(c.np().around(x, 6))


@contract('C02', 'corr_mat_trim 2-D', [TRIM])
def trim2(c):
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.dim('npts', 1, gen=(1, 20))
    data = c.array('data', (m, n), nan=True)
    stats = corr_header(c, n)
    sr, lag0 = stats['sampling_rate'], stats['start_lag']
    t0 = c.real('starttime', gen=(-10, 12))
    t1 = c.real('endtime', gen=(-10, 14))
    c.assume(t0 <= t1)
    old = data.copy()
    out, st = c.fn(TRIM)(data, stats, t0, t1)
    s, e = on_grid(c, (t0 - lag0) * sr), on_grid(c, (t1 - lag0) * sr)
    inside = c.and_(s >= 0, e < n)
    c.check('rank', len(out.shape) == 2)
    c.check('rows kept', out.shape[0] == m)
    if c.case(inside):
        c.check('sample count', out.shape[1] == e - s + 1)
        c.forall('same sample at same lag', [m, out.shape[1]],
                 lambda i, j: c.eq(out[i, j], old[i, s + j]))
        c.check('first label belongs to first sample',
                c.eq(st['start_lag'], lag0 + s / sr))
        c.check('no sample before the request rounded down',
                c.and_(c.le(st['start_lag'], t0 + 1e-6 / sr),
                       c.not_(st['start_lag'] + 1 / sr <= t0)))
        c.check('no sample after the end', c.le(st['end_lag'],
                                                t1 + 1e-6 / sr))
    else:
        c.check('unchanged npts', out.shape[1] == n)
        c.forall('unchanged data', [m, n],
                 lambda i, j: c.eq(out[i, j], old[i, j]))
        c.check('unchanged start', c.eq(st['start_lag'], lag0))
    c.check('npts', st['npts'] == out.shape[1])
    c.check('sampling rate', c.eq(st['sampling_rate'], sr))
    c.check('end label', c.eq(st['end_lag'], st['start_lag'] + (
        out.shape[1] - 1) / sr))


@contract('C02', 'corr_mat_trim 1-D', [TRIM])
def trim1(c):
    n = c.dim('npts', 1, gen=(1, 20))
    data = c.array('data', (n,), nan=True)
    stats = corr_header(c, n)
    sr, lag0 = stats['sampling_rate'], stats['start_lag']
    t0 = c.real('starttime', gen=(-10, 12))
    t1 = c.real('endtime', gen=(-10, 14))
    c.assume(t0 <= t1)
    old = data.copy()
    out, st = c.fn(TRIM)(data, stats, t0, t1)
    s, e = on_grid(c, (t0 - lag0) * sr), on_grid(c, (t1 - lag0) * sr)
    if c.case(c.and_(s >= 0, e < n)):
        c.check('sample count', out.shape[0] == e - s + 1)
        c.forall('same sample at same lag', [out.shape[0]],
                 lambda j: c.eq(out[j], old[s + j]))
        c.check('first label belongs to first sample',
                c.eq(st['start_lag'], lag0 + s / sr))
    else:
        c.check('unchanged npts', out.shape[0] == n)
        c.forall('unchanged data', [n], lambda j: c.eq(out[j], old[j]))
        c.check('unchanged start', c.eq(st['start_lag'], lag0))
    c.check('npts', st['npts'] == out.shape[0])


@contract('C02', 'lags on the sampling grid', [TRIM])
def grid(c):
    n = c.dim('npts', 2, gen=(2, 60))
    z = c.int('zero', 0, gen=(0, 60))
    sr = c.real('rate', positive=True, gen=(1, 100), den=1)
    data = c.array('data', (n,), nan=True)
    stats = corr_header(c, n, sr=sr, start_lag=-z / sr)
    a = c.int('first', 0, gen=(0, 30))
    b = c.int('last', 0, gen=(0, 60))
    c.assume(c.and_(a <= b, b < n))
    out, st = c.fn(TRIM)(data.copy(), stats, (a - z) / sr, (b - z) / sr)
    c.check('first to last sample', out.shape[0] == b - a + 1)
    j, = c.exists_index('j', [b - a + 1])
    c.check('the samples requested', c.eq(c.at(out, j), c.at(data, a + j)))
    c.check('first lag', c.eq(st['start_lag'], (a - z) / sr))
