"""C04 tapers only attenuate, and only where requested."""
from .common import contract, corr_header

TAPER = 'seismic.monitor.post_corr_process:corr_mat_taper'
CENTER = 'seismic.monitor.post_corr_process:corr_mat_taper_center'


@contract('C04', 'corr_mat_taper', [TAPER])
def taper(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 3, gen=(3, 24))
    data = c.array('data', (m, n), nan=True)
    stats = corr_header(c, n)
    sr = stats['sampling_rate']
    w = c.real('width', 0, gen=(0, 6))
    old = data.copy()
    f = c.fn(TAPER)
    if c.case(c.and_(w > 0, 2 * w * sr > n)):
        c.expect_raises(ValueError, lambda: f(data, stats, w),
                        'taper longer than the signal is refused')
        return
    out = f(data, stats, w)
    ws = w * sr
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    # the same weight for every row: compare two rows with equal content
    i, i2 = c.exists_index('row', [m]) + c.exists_index('row2', [m])
    j, = c.exists_index('col', [n])
    x, y = c.at(old, i, j), c.at(out, i, j)
    x2, y2 = c.at(old, i2, j), c.at(out, i2, j)
    c.check('weight between 0 and 1', c.implies(
        x >= 0, c.and_(c.le(0, y), c.le(y, x))))
    c.check('weight between 0 and 1 (negative values)', c.implies(
        x <= 0, c.and_(c.le(y, 0), c.le(x, y))))
    c.check('NaN stays NaN', c.implies(c.isnan(x), c.isnan(y)))
    c.check('nothing becomes NaN', c.implies(
        c.not_(c.isnan(x)), c.not_(c.isnan(y))))
    c.check('same weight in every row', c.implies(
        c.eq(x, x2), c.eq(y, y2)))
    c.check('interior untouched', c.implies(
        c.and_(j > ws + 1, n - 1 - j > ws + 1), c.eq(y, x)))
    c.check('first sample is zero', c.implies(
        c.and_(ws >= .5, j == 0, c.not_(c.isnan(x))), c.eq(y, 0)))
    c.check('last sample is zero', c.implies(
        c.and_(ws >= .5, j == n - 1, c.not_(c.isnan(x))),
        c.eq(c.at(out, i, 0) * 0 if False else y, 0)))


@contract('C04', 'corr_mat_taper_center', [CENTER])
def center(c):
    m = c.dim('rows', 1, gen=(1, 3))
    n = c.dim('npts', 1, gen=(1, 30))
    data = c.array('data', (m, n), nan=True)
    stats = corr_header(c, n)
    sr, lag0 = stats['sampling_rate'], stats['start_lag']
    w = c.real('width', gen=(-1, 10))
    frac = c.real('slope_frac', 0, 1, den=16)
    c.assume(frac > 0)
    old = data.copy()
    f = c.fn(CENTER)
    if c.case(c.or_(w < 0, w > n / sr)):
        c.expect_raises(ValueError, lambda: f(data, stats, w, frac),
                        'impossible width is refused')
        return
    out = f(data, stats, w, frac)
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))
    i, = c.exists_index('row', [m])
    j, = c.exists_index('col', [n])
    x, y = c.at(old, i, j), c.at(out, i, j)
    zero = -lag0 * sr          # position of zero lag in samples
    half = c.ceil(w * sr / 2)  # half width in samples
    slope = c.ceil(half * frac)
    d = c.abs(j - zero)
    c.check('weight between 0 and 1', c.implies(
        x >= 0, c.and_(c.le(0, y), c.le(y, x))))
    c.check('weight between 0 and 1 (negative values)', c.implies(
        x <= 0, c.and_(c.le(y, 0), c.le(x, y))))
    c.check('NaN exactly where it was', c.eq(c.isnan(x), c.isnan(y)))
    c.check('outside the window untouched', c.implies(
        d >= half + 1, c.eq(y, x)))
    c.check('centre is muted', c.implies(
        c.and_(d + 1 <= half - slope, c.not_(c.isnan(x)), w > 0),
        c.eq(y, 0)))
    c.check('zero width changes nothing', c.implies(w == 0, c.eq(y, x)))
    if not c.symbolic and w > 0 and abs(zero - round(zero)) < 1e-9:
        # cosine from one to zero over the slope on either side
        import numpy as np
        from obspy.signal.invsim import cosine_taper
        z, h, s = int(round(zero)), int(half), int(slope)
        wt = np.ones(2 * h + 1)
        wt[:] = 0
        if s:
            tap = cosine_taper(2 * s, p=1)
            wt[:s], wt[-s:] = tap[s:], tap[:s]
        k = np.arange(n) - (z - h)
        ok = (k >= 0) & (k <= 2 * h)
        full = np.ones(n)
        full[ok] = wt[k[ok]]
        c.check('cosine shaped', np.allclose(out, old * full,
                                             equal_nan=True))


COS = 'seismic.correlate.preprocessing_stream:cos_taper'


class _Trace(object):
    """the part of a trace that cos_taper uses"""

    def __init__(self, data, sr, n):
        import types
        self.data = data
        self.stats = types.SimpleNamespace(sampling_rate=sr, npts=n)


@contract('C04', 'cos_taper', [COS])
def cos_taper(c):
    n = c.dim('npts', 1, gen=(1, 40))
    kind = c.choice('kind', ['f', 'i'])
    data = c.array('data', (n,), kind=kind)
    sr = c.real('sampling_rate', positive=True, den=1, gen=(1, 8))
    w = c.real('taper_len', gen=(-1, 5))
    old = data.copy()
    tr = _Trace(data, sr, n)
    tl = c.round(w * sr)
    f = c.fn(COS)
    if c.case(c.or_(w <= 0, 2 * tl > n)):
        c.expect_raises(ValueError, lambda: f(tr, w, False, False),
                        'impossible taper is refused')
        return
    c.assume(tl >= 1)
    out = f(tr, w, False, False).data
    c.check('length', out.shape[0] == n)
    j, = c.exists_index('j', [n])
    x, y = c.at(old, j), c.at(out, j)
    c.check('weight between 0 and 1', c.implies(
        x >= 0, c.and_(c.le(0, y), c.le(y, x))))
    c.check('weight between 0 and 1 (negative values)', c.implies(
        x <= 0, c.and_(c.le(y, 0), c.le(x, y))))
    c.check('interior untouched', c.implies(
        c.and_(j >= tl, j < n - tl), c.eq(y, x)))
    c.check('ends are zero', c.implies(
        c.or_(j == 0), c.eq(y, 0)))
    if not c.symbolic:
        import numpy as np
        c.check('last sample is zero', abs(out[-1]) < 1e-12 * (
            1 + abs(old[-1])))
        wt = np.sin(np.linspace(0, np.pi, 2 * tl))
        c.check('cosine shaped', np.allclose(out[:tl], old[:tl] * wt[:tl])
                and np.allclose(out[n - tl:], old[n - tl:] * wt[tl:]))


@contract('C04', 'cos_taper_st', [
    COS, 'seismic.correlate.preprocessing_stream:cos_taper_st'],
    proof=False, bound='streams of up to 3 traces of 60 samples with gaps')
def cos_taper_st(c):
    import numpy as np
    from obspy import Stream, Trace
    k = c.int('traces', 1, gen=(1, 3))
    sr = c.int('sampling_rate', 1, gen=(1, 4))
    st, old, masks = Stream(), [], []
    for q in range(k):
        n = c.dim('npts%d' % q, 1, gen=(4, 60))
        a = c.array('data%d' % q, (n,))
        g = c.int('gap%d' % q, 0, gen=(0, 30))
        tr = Trace(a.copy(), header={'sampling_rate': sr,
                                     'station': 'S%d' % q})
        mk = np.zeros(n, bool)
        if 0 < g < n - 6:
            mk[g:g + 4] = True
            tr.data = np.ma.array(a.copy(), mask=mk)
        st.append(tr)
        old.append(a)
        masks.append(mk)
    w = c.real('taper_len', positive=True, gen=(0, 4))
    at = c.flag('taper_at_masked')
    f = c.fn('seismic.correlate.preprocessing_stream:cos_taper_st')
    if k == 1 and c.flag('trace alone'):
        out = f(st[0], w, taper_at_masked=at)
        c.check('stream of the trace', isinstance(out, Stream))
    else:
        out = f(st, w, taper_at_masked=at)
    c.check('all traces kept', len(out) == k)
    tl = int(round(w * sr))
    for tr, a, mk in zip(out, old, masks):
        c.check('length kept', len(tr.data) == len(a))
        c.check('gaps kept', (np.ma.getmaskarray(tr.data) == mk).all())
        # segments to be tapered
        if at and mk.any():
            e = np.where(mk)[0]
            segs = [(0, e[0]), (e[-1] + 1, len(a))]
        else:
            segs = [(0, len(a))]
        for s, t in segs:
            wt = np.ones(t - s)
            if tl and 2 * tl <= t - s:
                tp = np.sin(np.linspace(0, np.pi, 2 * tl))
                wt[:tl], wt[t - s - tl:] = tp[:tl], tp[tl:]
            got = np.ma.getdata(tr.data)[s:t]
            ok = ~mk[s:t]
            c.check('tapered at the ends, else unchanged', np.allclose(
                got[ok], (a[s:t] * wt)[ok]))
