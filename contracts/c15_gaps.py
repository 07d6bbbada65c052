"""C15 gaps stay gaps, and samples stay at their times."""
import warnings

from .common import contract

PS = 'seismic.correlate.preprocessing_stream:'
MU = 'seismic.utils.miic_utils:'


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def trace(c, tag='', most=40, least=1, gaps=True, sr=None):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    n = c.int('npts' + tag, least, gen=(least, most))
    x = c.array('x' + tag, (n,))
    m = np.zeros(n, bool)
    if gaps:
        for i in range(c.int('gaps' + tag, 0, gen=(0, 3))):
            a = c.int('gap%s%d' % (tag, i), 0, gen=(0, n - 1))
            m[a:a + c.int('len%s%d' % (tag, i), 1, gen=(1, 6))] = True
    sr = sr or float(c.choice('rate' + tag, [1, 2, 4, 8]))
    tr = c.ext('obspy', 'Trace')(
        np.ma.array(x, mask=m) if m.any() else x.copy(),
        dict(sampling_rate=sr, starttime=UTC(2020, 1, 1) + c.int(
            'start' + tag, 0, gen=(0, 9)), station='S' + tag))
    return tr, x, m


def parts(m):
    """index ranges without a gap"""
    out, a = [], None
    for k, v in enumerate(list(m) + [True]):
        if not v and a is None:
            a = k
        if v and a is not None:
            out.append((a, k))
            a = None
    return out


def same(c, tr, want, mask, t0, name, tol=1e-6):
    import numpy as np
    got = np.ma.getmaskarray(np.ma.masked_invalid(tr.data))
    c.check(name + ': start and number of samples', tr.stats.npts == len(
        want) == len(tr.data) and abs(tr.stats.starttime - t0) < 1e-6,
        (tr.stats.npts, len(want), tr.stats.starttime, t0))
    c.check(name + ': gaps', np.array_equal(got, mask), (got, mask))
    c.check(name + ': samples', np.allclose(
        np.ma.getdata(tr.data)[~mask], np.asarray(want)[~mask], atol=tol),
        (tr.data, want))


@contract('C15', 'masked times', [PS + 'trace_mask_at_utc',
                                  PS + 'stream_mask_at_utc'], proof=False,
          cases=400, thorough=4000, bound='up to 3 traces and 4 intervals')
def masks(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    trs = [trace(c, str(i)) for i in range(c.int('traces', 1, gen=(1, 3)))]
    k = c.int('intervals', 0, gen=(0, 4))
    T = UTC(2020, 1, 1)
    s = np.array([c.int('s%d' % i, -20, gen=(-20, 60)) / 4.
                  for i in range(k)])
    same_len = c.flag('one length')
    ln = c.int('length', 1, gen=(1, 80)) / 4.
    e = s + ([ln] * k if same_len else [c.int('l%d' % i, 1, gen=(
        1, 60)) / 4. for i in range(k)])
    rev = c.flag('reverse')
    S = [T + x for x in s]
    if c.flag('array'):
        S = np.array(S)
    st = c.ext('obspy', 'Stream')([t[0] for t in trs])
    raw = [t[0].copy() for t in trs]
    kw = dict(masklen=ln) if same_len else dict(ends=[T + x for x in e])
    bad = c.choice('bad', [None] * 6 + ['both', 'none', 'number'])
    if bad:
        kw = {'both': dict(masklen=ln, ends=[T + x for x in e]), 'none': {},
              'number': dict(ends=[T + x for x in e] + [T])}[bad]
        c.expect_raises(ValueError, lambda: c.fn(
            PS + 'stream_mask_at_utc')(st, S, reverse=rev, **kw), 'refused')
        return
    out = c.fn(PS + 'stream_mask_at_utc')(st, S, reverse=rev, **kw)
    c.check('all traces', len(out) == len(trs))
    for tr, old, (_, x, m) in zip(out, raw, trs):
        dt = tr.stats.delta
        t = (old.stats.starttime - T) + np.arange(len(x)) * dt
        must = np.zeros(len(x), bool)
        may = np.zeros(len(x), bool)
        for a, b in zip(s, e):
            if a >= t[-1] or b <= t[0]:
                # outside, or touches it only
                if a == t[-1] or b == t[0]:
                    may |= (t >= a - dt) & (t <= b + dt)
                continue
            must |= (t >= a) & (t <= b)
            may |= (t > a - dt * 1.01) & (t < b + dt * 1.01)
        got = np.ma.getmaskarray(tr.data)
        lo, hi = (~may, ~must) if rev else (must, may)
        c.check('masked within the intervals', np.all(got[lo]), (got, lo))
        c.check('masked nowhere else', not np.any((got & ~m)[~hi]),
                (got, m, hi))
        c.check('gaps stay', np.all(got[m]))
        c.check('samples and times kept', np.array_equal(
            np.ma.getdata(tr.data), x) and
            tr.stats.starttime == old.stats.starttime and
            tr.stats.npts == len(x))


@contract('C15', 'detrending of the parts between gaps', [PS + 'detrend_st'],
          proof=False, cases=300, thorough=3000, bound='up to 3 traces')
def detrend(c):
    import numpy as np
    trs = [trace(c, str(i), least=3) for i in range(c.int('traces', 1,
                                                          gen=(1, 3)))]
    kind = c.choice('kind', ['linear', 'demean', 'constant'])
    T = [t[0].stats.starttime for t in trs]
    st = c.ext('obspy', 'Stream')([t[0] for t in trs])
    c.assume(all(b - a > 1 for t in trs for a, b in parts(t[2])))
    out = quiet(lambda: c.fn(PS + 'detrend_st')(st, kind))
    c.check('all traces', len(out) == len(trs))
    for tr, (_, x, m), t0 in zip(out, trs, T):
        want = np.zeros(len(x))
        for a, b in parts(m):
            y, k = x[a:b], np.arange(b - a)
            want[a:b] = y - (np.polyval(np.polyfit(k, y, 1), k)
                             if kind == 'linear' else y.mean())
        same(c, tr, want, m, t0, 'detrended')


def tapered(np, y, k):
    tap = np.sin(np.linspace(0, np.pi, 2 * k))
    y = y.astype(float)
    if k:
        y[:k] *= tap[:k]
        y[-k:] *= tap[-k:]
    return y


@contract('C15', 'taper of the parts between gaps',
          [PS + 'cos_taper', PS + 'cos_taper_st'], proof=False, cases=300,
          thorough=3000, bound='up to 3 traces')
def taper(c):
    import numpy as np
    trs = [trace(c, str(i)) for i in range(c.int('traces', 1, gen=(1, 3)))]
    T = [t[0].stats.starttime for t in trs]
    tl = c.int('length', 2, gen=(2, 12)) / 2.
    st = c.ext('obspy', 'Stream')([t[0] for t in trs])
    out = quiet(lambda: c.fn(PS + 'cos_taper_st')(st, tl, False, True))
    c.check('all traces', len(out) == len(trs))
    for tr, (_, x, m), t0 in zip(out, trs, T):
        k = round(tl * tr.stats.sampling_rate)
        want = x.copy()
        for a, b in parts(m):
            if 2 * k <= b - a and k:
                want[a:b] = tapered(np, x[a:b], k)
        same(c, tr, want, m, t0, 'tapered')


@contract('C15', 'filter of the parts between gaps', [PS + 'stream_filter'],
          proof=False, cases=200, thorough=2000, bound='up to 3 traces')
def filt(c):
    import numpy as np
    trs = [trace(c, str(i)) for i in range(c.int('traces', 1, gen=(1, 3)))]
    c.assume(all((~t[2]).any() for t in trs))
    T = [t[0].stats.starttime for t in trs]
    Stream, Trace = c.ext('obspy', 'Stream'), c.ext('obspy', 'Trace')
    st = Stream([t[0] for t in trs])
    opt = dict(freqmin=.05, freqmax=.3)
    single = len(trs) == 1 and c.flag('trace')
    out = quiet(lambda: c.fn(PS + 'stream_filter')(
        st[0] if single else st, 'bandpass', opt))
    c.check('all traces', [t.stats.station for t in out] == [
        t[0].stats.station for t in trs])
    for tr, (_, x, m), t0 in zip(out, trs, T):
        want = np.zeros(len(x))
        P = parts(m)
        for a, b in P:
            q = Trace(x[a:b].copy(), dict(
                sampling_rate=tr.stats.sampling_rate))
            q.filter('bandpass', **opt)
            want[a:b] = q.data
        a, b = P[0][0], P[-1][1]
        same(c, tr, want[a:b], m[a:b], t0 + a * tr.stats.delta, 'filtered')


@contract('C15', 'short gaps are interpolated',
          [MU + 'interpolate_gaps', MU + 'interpolate_gaps_st'], proof=False,
          cases=400, thorough=4000, bound='up to 40 samples')
def interpolate(c):
    import numpy as np
    tr, x, m = trace(c)
    c.assume((~m).any())
    most = c.choice('longest', [-1, 1, 2, 3, 5])
    if c.flag('missing as nan'):
        tr.data = np.where(m, np.nan, x)
    old = tr.data.copy()
    one = c.flag('array')
    data = tr.data
    if one:
        out = quiet(lambda: c.fn(MU + 'interpolate_gaps')(data, most))
    else:
        st = c.ext('obspy', 'Stream')([tr])
        out = quiet(lambda: c.fn(MU + 'interpolate_gaps_st')(
            st, most))[0].data
    want, mask = x.copy(), m.copy()
    P = parts(m)
    for (a, b), (d, e) in zip(P, P[1:]):
        if most == -1 or d - b <= most:
            for k in range(b, d):
                want[k] = x[b - 1] + (x[d] - x[b - 1]) * (
                    k - b + 1.) / (d - b + 1)
            mask[b:d] = False
    got = np.ma.getmaskarray(np.ma.masked_invalid(out))
    c.check('gaps', np.array_equal(got, mask), (got, mask, most))
    c.check('samples', np.allclose(np.ma.getdata(out)[~mask], want[~mask]),
            (out, want))
    c.check('input untouched', np.array_equal(
        np.ma.getmaskarray(data), np.ma.getmaskarray(old)) and
        np.array_equal(np.ma.getdata(data), np.ma.getdata(old),
                       equal_nan=True))


@contract('C15', 'treatment of gaps', [MU + 'gap_handler',
                                       MU + 'discard_short_traces'],
          proof=False, cases=300, thorough=3000, bound='up to 2 traces')
def handler(c):
    import numpy as np
    trs = [trace(c, str(i), most=80, least=10)
           for i in range(c.int('traces', 1, gen=(1, 2)))]
    Stream = c.ext('obspy', 'Stream')
    st = Stream()
    for tr, x, m in trs:
        # a single trace that contains the gaps as masked samples
        st += Stream([tr])
    c.assume(all((~t[2]).any() for t in trs))
    most = c.choice('longest', [1, 2, 4])
    keep = c.choice('retain', [0, 2, 5])
    tl = c.choice('taper', [.5, 1, 2])
    out = quiet(lambda: c.fn(MU + 'gap_handler')(st, most, keep, tl))
    for tr, x, m in trs:
        sr = tr.stats.sampling_rate
        P = parts(m)
        want, mask = x.copy(), m.copy()
        for (a, b), (d, e) in zip(P, P[1:]):
            if d - b <= most:
                want[b:d] = np.interp(np.arange(b, d), [b - 1, d],
                                      [x[b - 1], x[d]])
                mask[b:d] = False
        P = [p for p in parts(mask) if (p[1] - p[0]) / sr > keep]
        res = out.select(station=tr.stats.station)
        c.check('nothing left of short pieces', len(res) == bool(P),
                (len(res), P))
        if not P:
            continue
        a, b = P[0][0], P[-1][1]
        full = np.ones(len(x), bool)
        k = round(tl * sr)
        for p, q in P:
            full[p:q] = False
            if 2 * k <= q - p and k:
                want[p:q] = tapered(np, want[p:q], k)
        same(c, res[0], want[a:b], full[a:b],
             tr.stats.starttime + a / sr, 'pieces')


@contract('C15', 'empty and short traces',
          [MU + 'get_valid_traces', MU + 'discard_short_traces'],
          proof=False, cases=200, thorough=2000, bound='up to 6 traces')
def valid(c):
    trs = [trace(c, str(i), most=10) for i in range(c.int('traces', 0,
                                                          gen=(0, 6)))]
    Stream = c.ext('obspy', 'Stream')
    st = Stream([t[0] for t in trs])
    c.fn(MU + 'get_valid_traces')(st)
    want = [t[0] for t in trs if not t[2].all()]
    c.check('traces with data', len(st) == len(want) and all(
        a is b for a, b in zip(st, want)), (len(st), len(want)))
    ln = c.int('length', 0, gen=(0, 8)) / 2.
    st = Stream([t[0] for t in trs])
    c.fn(MU + 'discard_short_traces')(st, ln)
    want = [t[0] for t in trs if len(t[1]) / t[0].stats.sampling_rate > ln]
    c.check('long traces', len(st) == len(want) and all(
        a is b for a, b in zip(st, want)), (len(st), len(want)))
