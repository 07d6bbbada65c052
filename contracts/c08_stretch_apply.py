"""C08 applying and undoing a stretch."""
from .common import contract, corr_header, PCP

SM = 'seismic.monitor.stretch_mod:'
ST = 'seismic.correlate.stream:'
AS = PCP + ':apply_stretch'


def header(c, n):
    return corr_header(c, n, corr_start=[], corr_end=[])


def times(c, st, n):
    return c.np().linspace(st['start_lag'], st['end_lag'], n)


def lag(c, st, t, n, j):
    """lag of sample j (when run: as rounded on the lag axis, as the last
    sample is otherwise outside the axis by the rounding error)"""
    return t if c.symbolic else float(times(c, st, n)[j])


@contract('C08', 'stretched sample comes from the stretched lag', [AS])
def apply(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    data = c.array('data', (m, n))
    st = header(c, n)
    v = c.array('stretch', (m,), lo=-1, hi=1)
    old, lag0, sr = data.copy(), st['start_lag'], st['sampling_rate']
    out, st2 = c.fn(AS)(data, st, v)
    i, j = c.exists_index('ij', [m, n])
    t = lag(c, st, lag0 + j / sr, n, j)
    spl = c.ext('scipy.interpolate', 'UnivariateSpline')(
        times(c, st, n), old[i], s=0, ext=1)
    c.check('value at the lag times exp(-stretch)', c.eq(
        c.at(out, i, j), spl(t * c.exp(-c.at(v, i))) + 0.,
        tol=1e-6, scale=10))
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    c.check('header kept', c.and_(c.eq(st2['start_lag'], lag0),
                                  st2['npts'] == n))


@contract('C08', 'zero stretch', [AS])
def identity(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    data = c.array('data', (m, n))
    st = header(c, n)
    old = data.copy()
    out, _ = c.fn(AS)(data, st, c.np().zeros(m))
    i, j = c.exists_index('ij', [m, n])
    c.check('data unchanged', c.eq(c.at(out, i, j), c.at(old, i, j)))


@contract('C08', 'nothing from outside the correlation', [AS])
def outside(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    data = c.array('data', (m, n))
    st = header(c, n)
    v = c.array('stretch', (m,), lo=-1, hi=1)
    lag0, sr = st['start_lag'], st['sampling_rate']
    out, _ = c.fn(AS)(data, st, v)
    i, j = c.exists_index('ij', [m, n])
    t = (lag0 + j / sr) * c.exp(-c.at(v, i))
    eps = 1e-9
    c.check('zero beyond the ends', c.implies(
        c.or_(t < lag0 - eps, t > lag0 + (n - 1) / sr + eps),
        lambda: c.eq(c.at(out, i, j), 0.)))


class _DV(object):
    def __init__(self, kind, value):
        self.value_type, self.value = kind, value


def bulk(c, data, st):
    return c.fn(ST + 'CorrBulk')(data, st)


@contract('C08', 'correction undoes the estimated stretch',
          [ST + 'CorrBulk.correct_stretch', AS])
def correct(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    data = c.array('data', (m, n))
    st = header(c, n)
    v = c.array('value', (m,), lo=-1, hi=1)
    old, lag0, sr = data.copy(), st['start_lag'], st['sampling_rate']
    old_v = v.copy()
    cb = bulk(c, data, st)
    r = cb.correct_stretch(_DV('stretch', v))
    i, j = c.exists_index('ij', [m, n])
    t = lag(c, st, lag0 + j / sr, n, j)
    spl = c.ext('scipy.interpolate', 'UnivariateSpline')(
        times(c, st, n), old[i], s=0, ext=1)
    c.check('value at the lag times exp(value)', c.eq(
        c.at(cb.data, i, j), spl(t * c.exp(c.at(v, i))) + 0.,
        tol=1e-6, scale=10))
    c.check('header kept', c.and_(c.eq(cb.stats['start_lag'], lag0),
                                  cb.stats['npts'] == n))
    c.check('estimate kept', c.eq(c.at(v, i), c.at(old_v, i)))
    c.check('bulk itself is corrected', r is cb)
    c.check('noted', cb.stats['processing_bulk'][-1] ==
            'Applied time stretch')


@contract('C08', 'only stretches are corrected as stretches',
          [ST + 'CorrBulk.correct_stretch'])
def wrong_kind(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    data = c.array('data', (m, n))
    cb = bulk(c, data.copy(), header(c, n))
    v = c.array('value', (m,), lo=-1, hi=1)
    try:
        cb.correct_stretch(_DV('shift', v))
        c.check('refused', False)
    except ValueError:
        c.check('refused', True)
    i, j = c.exists_index('ij', [m, n])
    c.check('data unchanged', c.eq(c.at(cb.data, i, j), c.at(data, i, j)))


@contract('C08', 'stretching by time_stretch_apply',
          [SM + 'time_stretch_apply'])
def tsa(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    one = c.flag('single_sided')
    data = c.array('data', (m, n))
    old = data.copy()
    v = c.array('stretch', (m,), lo=-1, hi=1)
    out = c.fn(SM + 'time_stretch_apply')(data, v, one)
    tap = c.ext('obspy.signal.invsim', 'cosine_taper')(n, .05)
    i, j = c.exists_index('ij', [m, n])
    t = c.np().arange(n) - (0. if one else (n - 1.) / 2.)
    spl = c.ext('scipy.interpolate', 'UnivariateSpline')(
        t, old[i] * tap, s=0)
    c.check('tapered trace at the time times exp(stretch)', c.eq(
        c.at(out, i, j), spl(c.at(t, j) * c.exp(c.at(v, i))) + 0.,
        tol=1e-6, scale=10))


def waveform(c, n, t):
    """smooth band-limited signal, a function of time"""
    import numpy as np
    f = [c.real('f%d' % k, gen=(2, 5), den=16) for k in range(3)]
    p = [c.real('p%d' % k, gen=(0, 6), den=4) for k in range(3)]
    return lambda t: sum(np.sin(a * t + b) for a, b in zip(f, p)) * \
        np.exp(-(np.abs(t) / 12.) ** 2)


@contract('C08', 'estimate and correction of a stretched wave field',
          [SM + 'time_stretch_estimate', AS,
           ST + 'CorrBulk.correct_stretch', ST + 'CorrBulk.stretch'],
          proof=False, cases=120,
          bound='random band-limited signals, 241 samples, candidate '
                'stretches on the grid')
def roundtrip(c):
    import numpy as np
    n, sr = 241, 8.
    st = c.fn('seismic.correlate.stats:CorrStats')(dict(
        sampling_rate=sr, start_lag=-15., npts=n, corr_start=[0, 1],
        corr_end=[1, 2]))
    t = np.linspace(-15, 15, n)
    w = waveform(c, n, t)
    k = [c.int('k%d' % i, 0, 10) for i in range(2)]
    grid = np.linspace(-.05, .05, 11)
    v = grid[k]
    data = np.array([w(t * np.exp(-x)) for x in v])
    cb = bulk(c, data.copy(), st)
    lag0, npts = st['start_lag'], st['npts']
    dv = cb.stretch(ref_trc=w(t), stretch_range=.05, stretch_steps=11,
                    tw=[np.arange(8, 88)], return_sim_mat=True)
    c.check('estimate', np.allclose(dv.value, v, atol=1e-9))
    c.check('similarity', np.all(dv.corr > .999) and
            np.all(dv.corr <= 1 + 1e-9))
    c.check('measuring leaves the correlations alone',
            np.array_equal(cb.data, data) and
            cb.stats['start_lag'] == lag0 and cb.stats['npts'] == npts)
    cb.correct_stretch(dv)
    mid = slice(40, n - 40)
    c.check('wave field restored', np.allclose(
        cb.data[:, mid], w(t)[mid], atol=5e-3))


@contract('C08', 'measuring leaves the correlations alone',
          [PCP + ':corr_mat_stretch'], timeout=40)
def side_effects(c):
    m = c.dim('rows', 2, gen=(2, 4))
    n = c.dim('npts', 9, gen=(12, 40))
    z = c.int('zero', 4, gen=(4, 36))
    c.assume(z <= n - 5)
    sides = c.choice('sides', ['both', 'left', 'right', 'single'])
    c.case(z <= n - 1 - z)
    data = c.array('data', (m, n))
    sr = c.real('rate', positive=True, gen=(1, 4), den=1)
    st = corr_header(c, n, sr=sr, start_lag=-z / sr, corr_start=[],
                     corr_end=[])
    old, lag0 = data.copy(), st['start_lag']
    dv = c.fn(PCP + ':corr_mat_stretch')(
        data, st, None, None, .1, 5, sides, True)
    i, j = c.exists_index('ij', [m, n])
    c.check('data', c.eq(c.at(old, i, j), c.at(data, i, j)))
    c.check('header', c.and_(c.eq(st['start_lag'], lag0), st['npts'] == n,
                             c.eq(st['sampling_rate'], sr)))
    k = c.imin(z, n - 1 - z)
    c.check('header of the estimate describes the part used', c.and_(
        dv['stats']['npts'] == (n - z if sides == 'single' else 2 * k + 1),
        c.eq(dv['stats']['start_lag'],
             0. if sides == 'single' else -k / sr)))


@contract('C08', 'stretching with several measurements per correlation',
          [SM + 'time_stretch_apply'], proof=False, cases=60,
          bound='1 to 3 correlations, 4 to 12 samples')
def tsa_shapes(c):
    import numpy as np
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 4, gen=(4, 12))
    one = c.flag('single_sided')
    data = c.array('data', (m, n))
    v = c.array('stretch', (m,), lo=-1, hi=1)
    apply = c.fn(SM + 'time_stretch_apply')
    want = apply(data.copy(), v, one)
    k = c.int('columns', 1, 3)
    more = c.array('further', (m, k), lo=-1, hi=1)
    more[:, 0] = v
    c.check('the first measurement counts', np.array_equal(
        apply(data.copy(), more, one), want))
    c.check('two-sided unless asked otherwise', np.array_equal(
        apply(data.copy(), v), apply(data.copy(), v, False)))
    c.expect_raises(ValueError, lambda: apply(
        data.copy(), np.zeros((m + 1, k)), one), 'too many measurements')
    if m == 1:
        c.check('single trace', np.array_equal(
            apply(data[0].copy(), v, one), want))
