"""C07 estimates by comparison with stretched references."""
from .common import contract, corr_header

SM = 'seismic.monitor.stretch_mod:'
VCE = SM + 'velocity_change_estimate'
SIDES = ['both', 'left', 'right', 'single']


def in_window(c, k, n, a, b, sides):
    """sample k belongs to the lapse time window [a, b) (in samples)"""
    if sides == 'single':
        return c.and_(k >= a, k < b)
    ctr = (n - 1) // 2
    left = c.and_(ctr - k >= a, ctr - k < b)
    right = c.and_(k - ctr >= a, k - ctr < b)
    return {'left': left, 'right': right, 'both': c.or_(left, right)}[sides]


def window(c, n, sides, tag=''):
    """a window inside the data: (window, first, last + 1)"""
    a = c.int('first' + tag, 0, gen=(0, 3))
    b = c.int('last' + tag, 1, gen=(1, 5))
    c.assume(a < b)
    ctr = (n - 1) // 2
    if sides == 'single':
        c.assume(b <= n)
    else:
        if sides != 'right':
            c.assume(b - 1 <= ctr)
        if sides != 'left':
            c.assume(ctr + b <= n)
    return c.np().arange(a, b, 1), a, b



def similarity(c, n, x, y, w):
    """normalised scalar product of x and y over the samples selected by w"""
    d = c.sum([n], lambda k: c.ite(w(k), lambda: x(k) * y(k), 0.))
    xx = c.sum([n], lambda k: c.ite(w(k), lambda: x(k) * x(k), 0.))
    yy = c.sum([n], lambda k: c.ite(w(k), lambda: y(k) * y(k), 0.))
    return d, xx * yy


@contract('C07', 'similarity and best match', [VCE])
def estimate(c):
    sides = c.choice('sides', SIDES)
    n = c.dim('npts', 1, gen=(1, 11))
    m = c.dim('traces', 2, gen=(2, 4))
    s = c.dim('stretches', 2, gen=(2, 5))
    mat = c.array('mat', (m, n), nan=True)
    ref = c.array('ref', (s, n))
    vec = c.array('strvec', (s,))
    tw, a, b = window(c, n, sides)
    dv = c.fn(VCE)(mat, [tw], ref, vec, sides, True)
    sim = dv['sim_mat']
    i, j = c.exists_index('ij', [m, s])
    x = lambda k: c.ite(c.isnan(c.at(mat, i, k)), 0.,  # noqa
                        lambda: c.at(mat, i, k))
    y = lambda k: c.at(ref, j, k)  # noqa
    w = lambda k: in_window(c, k, n, a, b, sides)  # noqa
    d, nn = similarity(c, n, x, y, w)
    r = c.at(sim, i, j)
    c.check('shape', c.and_(sim.shape[0] == m, sim.shape[1] == s))
    c.check('similarity is the normalised scalar product in the window',
            c.implies(nn > 0, lambda: c.eq(r * c.sqrt(nn), d)))
    corr, val = c.at(dv['corr'], i), c.at(dv['value'], i)
    ok = c.not_(c.isnan(corr))
    c.check('no value without similarity', c.eq(c.isnan(val), c.isnan(corr)))
    c.check('no similarity is larger', c.implies(ok, lambda: r <= corr))
    best = c.at(c.np().argmax(sim, axis=1), i)
    c.check('a similarity is reached', c.implies(
        ok, lambda: c.eq(c.at(sim, i, best), corr)))
    c.check('value belongs to the largest similarity', c.implies(
        ok, lambda: c.eq(c.at(vec, best), val)))
    c.check('missing only without any similarity', c.implies(
        c.isnan(corr), lambda: c.any([s], lambda k: c.isnan(
            c.at(sim, i, k)))))
    c.check('stretches reported', c.eq(c.at(dv['second_axis'], j),
                                       c.at(vec, j)))


TSE = SM + 'time_stretch_estimate'


@contract('C07', 'candidates are stretched references', [TSE, VCE],
          timeout=40)
def stretch_estimate(c):
    sides = c.choice('sides', ['both', 'single'])
    n = c.dim('npts', 4, gen=(5, 15))
    m = c.dim('traces', 2, gen=(2, 4))
    s = c.dim('steps', 2, gen=(2, 7))
    mat = c.array('mat', (m, n), nan=True)
    ref = c.array('ref', (n,))
    rng = c.real('range', positive=True, gen=(1, 4), den=16)
    tw, a, b = window(c, n, sides)
    old = mat.copy()
    dv = c.fn(TSE)(mat, ref, [tw], rng, s, sides)
    i, j = c.exists_index('ij', [m, s])
    np = c.np()
    eps = np.linspace(-rng, rng, s)
    t = np.arange(n) - (0. if sides == 'single' else (n - 1.) / 2.)
    spl = c.ext('scipy.interpolate', 'UnivariateSpline')(
        t, ref, s=0, ext='zeros')
    cand = spl(t[None, :] * np.exp(-eps)[:, None])
    want = c.fn(VCE)(old, [tw], cand, eps, sides, True)
    c.check('candidates', c.eq(c.at(dv['second_axis'], j),
                               -rng + j * (2 * rng / (s - 1))))
    c.check('kind', dv['value_type'] == 'stretch')
    c.check('similarity with the stretched reference', c.eq(
        c.at(dv['sim_mat'], i, j), c.at(want['sim_mat'], i, j)))
    c.check('similarity of the best candidate', c.eq(
        c.at(dv['corr'], i), c.at(want['corr'], i)))
    c.check('value of the best candidate', c.eq(
        c.at(dv['value'], i), c.at(want['value'], i)))
    k, = c.exists_index('k', [n])
    c.check('input untouched', c.eq(c.at(mat, i, k), c.at(old, i, k)))


def similarities(np, mat, cand, windows, sides):
    """similarity of every row with every candidate in every window"""
    n = mat.shape[1]
    ctr = (n - 1) // 2
    out = np.full((len(mat), len(cand), len(windows)), np.nan)
    for k, (a, b) in enumerate(windows):
        lags = np.arange(n) - (0 if sides == 'single' else ctr)
        w = (np.abs(lags) >= a) & (np.abs(lags) < b)
        if sides == 'left':
            w &= lags <= 0
        elif sides == 'right':
            w &= lags >= 0
        for i, x in enumerate(mat):
            for j, y in enumerate(cand):
                q = np.sqrt((x[w] @ x[w]) * (y[w] @ y[w]))
                if q > 0 and not np.isnan(x).any():
                    out[i, j, k] = (x[w] @ y[w]) / q
    return out


def some_windows(c, n, sides):
    """time windows or None with the ranges they stand for"""
    if c.flag('window not given'):
        return None, [(0, n if sides == 'single' else n // 2)]
    out = [window(c, n, sides, str(k)) for k in range(
        c.int('windows', 1, gen=(1, 3)))]
    return [x[0] for x in out], [x[1:] for x in out]


def compare_estimate(c, np, dv, sim, axis, matrix=True, turned=False):
    """the estimate is the best of the similarities"""
    best = np.full(sim.shape[::2], np.nan)
    val = best.copy()
    for i in range(len(sim)):
        for k in range(sim.shape[2]):
            x = sim[i, :, k]
            if not np.isnan(x).any():
                best[i, k] = x.max()
                near = axis[x > x.max() - 1e-9]
                got = np.reshape(dv['value'] if turned else np.transpose(
                    dv['value']), (len(sim), -1))[i, k]
                c.check('value of the best candidate', any(
                    abs(got - near) < 1e-12), (got, near))
                val[i, k] = got
    v = np.reshape(dv['value'], best.shape if turned else best.T.shape)
    q = np.reshape(dv['corr'], best.shape if turned else best.T.shape)
    if not turned:
        v, q = v.T, q.T
    c.check('missing without similarity', np.array_equal(
        np.isnan(v), np.isnan(val)))
    c.check('similarity of the best candidate', np.allclose(
        q, best, equal_nan=True))
    c.check('candidates', np.allclose(dv['second_axis'], axis))
    if matrix:
        c.check('similarities', np.allclose(
            np.reshape(dv['sim_mat'], sim.shape), sim, equal_nan=True))
    else:
        c.check('no similarities', dv.get('sim_mat', None) is None)


def gappy(c, np, m, n):
    rng = np.random.default_rng(c.int('seed', 0, gen=(0, 10 ** 6)))
    mat = rng.normal(size=(m, n))
    for i in range(m):
        k = c.choice('gap%d' % i, [None, None, None, 0, n - 1, 'all'])
        if k is not None:
            mat[i, slice(None) if k == 'all' else k] = np.nan
    return mat


@contract('C07', 'estimates with and without reference and window',
          [TSE, VCE, SM + 'time_windows_creation'], proof=False, cases=150,
          thorough=2000, bound='up to 4 rows of 31 samples, 3 windows')
def defaults(c):
    import numpy as np
    import warnings
    from scipy.interpolate import UnivariateSpline
    sides = c.choice('sides', SIDES)
    n, m = c.int('npts', 9, gen=(9, 31)), c.int('rows', 1, gen=(1, 4))
    s = c.int('steps', 3, gen=(3, 8))
    mat = gappy(c, np, m, n)
    tw, ranges = some_windows(c, n, sides)
    clean = c.flag('gaps are zero')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        x = np.nan_to_num(mat) if clean else mat
        ref = np.nanmean(x, axis=0)
        given = c.flag('reference given') or np.isnan(ref).any()
        if given:
            ref = np.random.default_rng(n).normal(size=n)
        old = mat.copy()
        arg = mat[0] if m == 1 and c.flag('vector') else mat
        rng = c.choice('range', [.05, .1, .3])
        axis = np.linspace(-rng, rng, s)
        kind = c.choice('kind', ['stretch', 'candidates'] if tw else [
            'stretch'])
        full, trim, st, lag = ref, None, None, 0
        if kind == 'stretch' and given and n % 2 and sides != 'single' \
                and c.flag('longer reference'):
            lag = c.int('longer', 1, gen=(1, 5))
            full = np.random.default_rng(m).normal(size=n + 2 * lag)
            st = corr_header(c, n + 2 * lag, sr=2.,
                             start_lag=-(n // 2 + lag) / 2.)
            trim = -(n // 2) / 2., (n // 2) / 2.
        t = np.arange(len(full)) - (
            0 if sides == 'single' else (len(full) - 1) / 2)
        spl = UnivariateSpline(t, full, s=0, ext='zeros')
        cand = np.array([spl(t * np.exp(-e)) for e in axis])
        cand = cand[:, lag:lag + n]
        matrix = True
        if kind == 'stretch':
            dv = c.fn(TSE)(arg, full if given else None, tw, rng, s, sides,
                           clean, trim, st)
        else:
            matrix = c.flag('matrix')
            dv = c.fn(VCE)(arg, tw, cand, axis, sides, matrix, clean)
        sim = similarities(np, x, cand, ranges, sides)
        compare_estimate(c, np, dv, sim, axis, matrix, kind == 'stretch')
    c.check('input untouched', np.array_equal(mat, old, equal_nan=True))
    tw = [np.arange(0, 3)]
    c.expect_raises(ValueError, lambda: c.fn(VCE)(
        mat, tw, cand[:, 1:], axis, sides), 'candidates of another length')
    c.expect_raises(ValueError, lambda: c.fn(VCE)(
        mat, tw, cand, axis, 'centre'), 'unknown side')


PCP = 'seismic.monitor.post_corr_process'


@contract('C07', 'part of the correlations compared',
          [PCP + ':corr_mat_stretch'], timeout=40,
          note='combination of estimates and reference as contracts')
def compared(c):
    """the symmetric part (one-sided: the causal part) is compared with the
    same part of the references; options reach the estimate"""
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 3, gen=(5, 30))
    z = c.int('zero', 1, gen=(1, 28))
    c.assume(z <= n - 2)
    sides = c.choice('sides', SIDES)
    c.case(z <= n - 1 - z)
    data = c.array('data', (m, n))
    sr = c.real('rate', positive=True, gen=(1, 4), den=1)
    st = corr_header(c, n, sr=sr, start_lag=-z / sr, corr_start=[],
                     corr_end=[])
    seen = {}

    def combine(mat, ref, **k):
        seen.update(mat=mat, ref=ref, k=k)
        return {'value': 'value'}

    def extract(mat, stats, *a, **k):
        seen['extract'] = (mat, stats)
        return 'mean'
    c.patch(PCP + ':multi_ref_vchange_and_align', combine)
    c.patch(PCP + ':corr_mat_extract_trace', extract)
    own, longer = c.flag('reference'), c.flag('reference header')
    sim = c.flag('return_sim_mat')
    dv = c.fn(PCP + ':corr_mat_stretch')(
        data, st, ref_trc='ref' if own else None, tw='tw',
        stretch_range='range', stretch_steps='steps', sides=sides,
        return_sim_mat=sim, ref_tr_stats='header' if longer else None)
    one = sides == 'single'
    h = c.imin(z, n - 1 - z)
    a, w = (z, n - z) if one else (z - h, 2 * h + 1)
    mat, k = seen['mat'], seen['k']
    c.check('part', c.and_(mat.shape[0] == m, mat.shape[1] == w))
    i, j = c.exists_index('ij', [m, w])
    c.check('its samples', c.eq(c.at(mat, i, j), c.at(data, i, a + j)))
    c.check('options', k['tw'] == 'tw' and k['stretch_range'] == 'range' and
            k['stretch_steps'] == 'steps' and k['sides'] == sides and
            k['return_sim_mat'] == sim)
    t0, t1 = k['ref_tr_trim']
    c.check('same part of the references', c.and_(
        c.eq(t0, 0. if one else -h / sr),
        c.eq(t1, (n - 1 - z) / sr if one else h / sr)))
    if own:
        c.check('reference', seen['ref'] == 'ref')
    else:
        c.check('mean of the part', seen['ref'] == 'mean' and
                seen['extract'][0] is mat)
    if longer:
        c.check('header of the reference', k['ref_tr_stats'] == 'header')
    else:
        c.check('header of the part', c.and_(
            k['ref_tr_stats']['npts'] == w,
            c.eq(k['ref_tr_stats']['start_lag'], 0. if one else -h / sr)))
    c.check('result', dv['value'] == 'value')
    c.check('header', c.and_(dv['stats']['npts'] == w, c.eq(
        dv['stats']['start_lag'], 0. if one else -h / sr)))
