"""C05 normalising divides every row by its own amplitude in the window."""
from .common import contract, corr_header

NORM = 'seismic.monitor.post_corr_process:corr_mat_normalize'
CLIP = 'seismic.monitor.post_corr_process:corr_mat_clip'


@contract('C05', 'corr_mat_normalize', [NORM])
def normalize(c):
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.dim('npts', 1, gen=(1, 14))
    data = c.array('data', (m, n), nan=True)
    stats = corr_header(c, n)
    sr, lag0 = stats['sampling_rate'], stats['start_lag']
    kind = c.choice('normtype', ['energy', 'abssum', 'max', 'absmax',
                                 'unknown'])
    t0 = t1 = None
    if c.flag('with_start'):
        t0 = c.real('starttime', gen=(-10, 10))
    if c.flag('with_end'):
        t1 = c.real('endtime', gen=(-10, 12))
    s = c.floor((t0 - lag0) * sr) if t0 is not None else 0
    e = c.floor((t1 - lag0) * sr) if t1 is not None else n
    if t1 is not None:
        c.assume(e > 0)
        if t0 is not None:
            c.assume(e > s)
    elif t0 is not None:
        c.assume(s < n)
    old = data.copy()
    if kind == 'unknown':
        if t0 is None and t1 is None:
            c.expect_raises(ValueError, lambda: c.fn(NORM)(
                data, stats, t0, t1, kind), 'unknown measure')
        return
    out = c.fn(NORM)(data, stats, t0, t1, kind)
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    if c.case(c.or_(s < 0, e >= n) if t1 is not None else s < 0):
        c.forall('window outside: unchanged', [m, n],
                 lambda i, j: c.eq(out[i, j], old[i, j]))
        return
    w = e - s

    def amp(i):
        if kind == 'energy':
            return c.sqrt(c.sum([w], lambda k: c.at(old, i, s + k) *
                                c.at(old, i, s + k)) / w)
        if kind == 'abssum':
            return c.sum([w], lambda k: c.abs(c.at(old, i, s + k))) / w
        if kind == 'max':
            return c.max([w], lambda k: c.at(old, i, s + k))
        return c.max([w], lambda k: c.abs(c.at(old, i, s + k)))

    def row(i, j):
        a = amp(i)
        return c.eq(out[i, j], c.ite(a == 0, lambda: c.at(old, i, j),
                                     lambda: c.at(old, i, j) / c.ite(
                                         a == 0, 1., a)))
    c.forall('divided by the amplitude in the window', [m, n], row)


@contract('C05', 'corr_mat_clip', [CLIP])
def clip(c):
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.dim('npts', 1, gen=(1, 8))
    data = c.array('data', (m, n))
    th = c.real('thres', 0, gen=(0, 3), den=4)
    axis = c.choice('axis', [0, 1, None])
    old = data.copy()
    out = c.fn(CLIP)(data, th, axis)
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))

    def std(i, j):
        if axis == 1:
            mu = c.sum([n], lambda k: c.at(old, i, k)) / n
            return c.sqrt(c.sum([n], lambda k: (c.at(old, i, k) - mu) * (
                c.at(old, i, k) - mu)) / n)
        if axis == 0:
            mu = c.sum([m], lambda k: c.at(old, k, j)) / m
            return c.sqrt(c.sum([m], lambda k: (c.at(old, k, j) - mu) * (
                c.at(old, k, j) - mu)) / m)
        mu = c.sum([m, n], lambda k, q: c.at(old, k, q)) / (m * n)
        return c.sqrt(c.sum([m, n], lambda k, q: (c.at(old, k, q) - mu) * (
            c.at(old, k, q) - mu)) / (m * n))

    def val(i, j):
        lim = th * std(i, j)
        x = c.at(old, i, j)
        return c.eq(out[i, j], c.ite(x > lim, lim, c.ite(x < -lim, -lim, x)))
    c.forall('limited to the threshold, else unchanged', [m, n], val)
    c.forall('argument keeps its values', [m, n],
             lambda i, j: c.eq(data[i, j], old[i, j]))
