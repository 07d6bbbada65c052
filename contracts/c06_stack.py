"""C06 averages of correlations."""
from .common import contract, corr_header, PCP

ST = 'seismic.correlate.stream:'
RES = PCP + ':corr_mat_resample'
EXT = PCP + ':corr_mat_extract_trace'


def stream(c, k, same=True, nan=True, n=None):
    n = n if n is not None else c.dim('npts', 1, gen=(1, 8))
    trs, raw = [], []
    for i in range(k):
        ni = n if same else c.dim('npts%d' % i, 1, gen=(1, 4))
        a = c.array('a%d' % i, (ni,), nan=nan)
        t0 = c.time('start%d' % i, 0, 30)
        d = c.real('dur%d' % i, positive=True, gen=(0, 20), den=2)
        tr = c.fn(ST + 'CorrTrace')(a.copy(), _header=dict(
            sampling_rate=2., start_lag=-1. if same else -ni / 2.,
            network='N-N', station='A-B', location='-',
            channel='HHZ-HHZ', corr_start=t0, corr_end=t0 + d))
        trs.append(tr)
        raw.append((a, t0, t0 + d, d, ni))
    return c.fn(ST + 'CorrStream')(trs), raw, n


def average(c, raw, weight, j):
    """weighted mean of the available samples j of the correlations:
    (sum of weighted samples, sum of weights)"""
    sx = sw = 0
    for r in raw:
        a, b = c.at(r[0], j), (r[3] if weight == 'by_length' else 1)
        sx = sx + c.ite(c.isnan(a), 0., lambda a=a, b=b: a * b)
        sw = sw + c.ite(c.isnan(a), 0., b)
    return sx, sw


@contract('C06', 'stack of correlations', [ST + 'stack_st'], timeout=60)
def stack(c):
    k = c.choice('traces', [1, 2, 3])
    st, raw, n = stream(c, k)
    weight = c.choice('weight', ['mean', 'by_length', 'average'])
    out = c.fn(ST + 'stack_st')(st, weight, norm=False)
    j, = c.exists_index('j', [n])
    sx, sw = average(c, raw, weight, j)
    y = c.at(out.data, j)
    c.check('length', out.data.shape[0] == n)
    c.check('average of the available samples', c.implies(
        sw > 0, c.eq(y * sw, sx)))
    c.check('no data, no value', c.eq(c.isnan(y), sw == 0))
    for r in raw:
        c.check('starts with the first window',
                out.stats.corr_start <= r[1])
        c.check('ends with the last window', out.stats.corr_end >= r[2])
    c.check('start is one of the starts', c.or_(*[
        out.stats.corr_start == r[1] for r in raw]))
    c.check('end is one of the ends', c.or_(*[
        out.stats.corr_end == r[2] for r in raw]))
    c.check('lag axis kept', c.eq(out.stats.start_lag, -1.))
    c.check('sample count', out.stats.npts == n)
    c.check('identifier kept', out.stats.station == 'A-B' and
            out.stats.channel == 'HHZ-HHZ')
    c.check('input data untouched', c.and_(*[
        c.eq(c.at(a.data, j), c.at(r[0], j)) for a, r in zip(st, raw)]))


@contract('C06', 'normalised stack', [ST + 'stack_st'], timeout=60)
def stack_norm(c):
    k = c.choice('traces', [1, 2])
    st, raw, n = stream(c, k)
    weight = c.choice('weight', ['mean', 'by_length'])
    plain = c.fn(ST + 'stack_st')(st, weight, norm=False)
    out = c.fn(ST + 'stack_st')(st, weight)
    j, = c.exists_index('j', [n])
    p, y = c.at(plain.data, j), c.at(out.data, j)
    top = c.nanmax([n], lambda i: c.abs(c.at(plain.data, i)))
    c.check('scaled to its largest amplitude', c.implies(
        c.not_(c.isnan(top)), lambda: c.implies(
            top > 0, lambda: c.eq(y * top, p))))
    c.check('no amplitude above 1', c.implies(c.and_(
        c.not_(c.isnan(p)), c.abs(c.ite(c.isnan(p), 1., p)) > 0),
        lambda: c.le(c.abs(y), 1.)))


@contract('C06', 'only correlations of the same length are averaged',
          [ST + 'stack_st'], timeout=60)
def stack_lengths(c):
    k = c.choice('traces', [2, 3])
    n = c.dim('n', 2, gen=(2, 5))
    short = c.choice('short', list(range(k)))
    trs, raw = [], []
    for i in range(k):
        ni = n - 1 if i == short else n
        a = c.array('a%d' % i, (ni,))
        t0 = c.time('start%d' % i, 0, 30)
        trs.append(c.fn(ST + 'CorrTrace')(a.copy(), _header=dict(
            sampling_rate=2., start_lag=-ni / 2., network='N-N',
            station='A-B', location='-', channel='HHZ-HHZ', corr_start=t0,
            corr_end=t0 + 5 + i)))
        raw.append((a, t0, t0 + 5 + i, 5 + i))
    out = c.fn(ST + 'stack_st')(c.fn(ST + 'CorrStream')(trs), 'mean',
                                norm=False)
    keep = [r for i, r in enumerate(raw) if i != short]
    j, = c.exists_index('j', [n])
    sx, sw = average(c, keep, 'mean', j)
    c.check('shorter correlation left out', c.eq(c.at(out.data, j) * sw, sx))
    c.check('header of a stacked correlation', c.and_(
        out.stats.npts == n, c.eq(out.stats.start_lag, -n / 2.),
        c.or_(*[out.stats.corr_start == r[1] for r in keep])))


@contract('C06', 'stacking by group', [ST + 'stack_st_by_group',
                                       ST + 'compare_tr_id'], timeout=60)
def groups(c):
    n = c.dim('n', 1, gen=(1, 4))
    k = c.choice('traces', [1, 2, 3])
    loc = c.flag('regard_loc')
    trs, key = [], []
    for i in range(k):
        s = c.choice('id%d' % i, [('A-B', 'HHZ-HHZ', '00-00'),
                                  ('A-B', 'HHZ-HHZ', '10-00'),
                                  ('A-B', 'HHN-HHZ', '00-00'),
                                  ('A-C', 'HHZ-HHZ', '00-00')])
        a = c.array('a%d' % i, (n,))
        t0 = c.time('start%d' % i, 0, 30)
        trs.append(c.fn(ST + 'CorrTrace')(a, _header=dict(
            sampling_rate=1., start_lag=0., network='N-N', station=s[0],
            channel=s[1], location=s[2], corr_start=t0, corr_end=t0 + 5)))
        key.append(s if loc else s[:2])
    out = c.fn(ST + 'stack_st_by_group')(c.fn(ST + 'CorrStream')(trs), loc,
                                         'mean')
    c.check('one stack per group', len(out) == len(set(key)))
    cmp = c.fn(ST + 'compare_tr_id')
    for s in set(key):
        mem = [t for t, q in zip(trs, key) if q == s]
        ref = c.fn(ST + 'stack_st')(c.fn(ST + 'CorrStream')(mem), 'mean')
        got = [o for o in out if (o.stats.station, o.stats.channel,
                                  o.stats.location)[:len(s)] == s]
        c.check('every group present', len(got) == 1)
        j, = c.exists_index('j_' + '_'.join(s), [n])
        c.check('stack of the members only', c.eq(
            c.at(got[0].data, j), c.at(ref.data, j)))
        c.check('window of the members', c.and_(
            got[0].stats.corr_start == ref.stats.corr_start,
            got[0].stats.corr_end == ref.stats.corr_end))
        c.check('same group, same identifier', c.and_(*[
            cmp(got[0], t, loc) for t in mem]))


@contract('C06', 'stacks of successive time windows', [
    ST + 'CorrStream.stack', ST + 'CorrStream.slide'], proof=False,
    cases=600, bound='up to 6 correlations, 2 stations, 4 samples')
def stack_windows(c):
    k = c.int('traces', 1, 6)
    n = 3
    stl = c.choice('stack_len', [7, 7, 10, 16., 0, 'daily'])
    UTC = c.ext('obspy', 'UTCDateTime')
    scale = 7213 if stl == 'daily' else 1
    trs, raw = [], []
    for i in range(k):
        a = c.array('a%d' % i, (n,), distinct=True)
        t0 = c.time('start%d' % i, 0, 30, den=1)
        t0 = UTC(t0.timestamp * scale)
        d = c.choice('d%d' % i, [1, 5, 7, 7]) * scale
        s = c.choice('s%d' % i, ['A-B', 'A-C'])
        trs.append(c.fn(ST + 'CorrTrace')(a.copy(), _header=dict(
            sampling_rate=1., start_lag=0., network='N-N', station=s,
            channel='HHZ-HHZ', location='-', corr_start=t0,
            corr_end=t0 + d)))
        raw.append((a, t0, t0 + d, s))
    st = c.fn(ST + 'CorrStream')(trs)
    first = min(r[1] for r in raw)
    last = max(r[2] for r in raw)
    opt = {}
    if stl != 0 and c.flag('from'):
        first = opt['starttime'] = first + scale * c.int('later', -9, 9)
    if stl != 0 and c.flag('until'):
        last = opt['endtime'] = last - scale * c.int('earlier', -9, 9)
    if stl == 'daily':
        first, stl = UTC(first.year, first.month, first.day), 86400
        opt['stack_len'] = 'daily'
    out = st.stack('mean', **dict(dict(stack_len=stl), **opt))
    want = []
    if stl == 0:
        wins = [None]
    else:
        wins, t = [], first
        while t < last:
            wins.append((t, t + stl))
            t = t + stl
    for w in wins:
        for s in ('A-B', 'A-C'):
            mem = [r for r in raw if r[3] == s and (
                w is None or w[0] < r[2] <= w[1])]
            if mem:
                want.append((s, mem))
    c.check('one stack per window and station', len(out) == len(want))
    for tr, (s, mem) in zip(sorted(out, key=lambda t: (
            t.stats.corr_end.timestamp, t.stats.station)), sorted(
                want, key=lambda w: (max(
                    m[2] for m in w[1]).timestamp, w[0]))):
        c.check('station', tr.stats.station == s)
        c.check('window covered by the stack', c.and_(
            tr.stats.corr_start == min(m[1] for m in mem),
            tr.stats.corr_end == max(m[2] for m in mem)))
        ref = sum(m[0] for m in mem) / len(mem)
        big = max(abs(ref))
        if big > 1e-9:
            c.check('average of the correlations of the window',
                    c.np().allclose(tr.data * big, ref))


@contract('C06', 'representative trace', [EXT], timeout=60)
def extract(c):
    m = c.dim('traces', 1, gen=(1, 5))
    n = c.dim('npts', 1, gen=(1, 6))
    d = c.array('data', (m, n), nan=True)
    st = corr_header(c, n)
    out = c.fn(EXT)(d, st, method='mean')
    j, = c.exists_index('j', [n])
    cnt = c.count(m, lambda i: c.not_(c.isnan(c.at(d, i, j))))
    tot = c.sum([m], lambda i: c.ite(c.isnan(c.at(d, i, j)), 0.,
                                     lambda: c.at(d, i, j)))
    c.check('one trace', out.shape[0] == n)
    c.check('mean of the available samples', c.implies(
        cnt > 0, c.eq(c.at(out, j) * cnt, tot)))
    c.check('no data, no value', c.eq(c.isnan(c.at(out, j)), cnt == 0))


@contract('C06', 'representative trace of normalised correlations', [EXT],
          timeout=60)
def extract_norm(c):
    m = c.dim('traces', 1, gen=(1, 5))
    n = c.dim('npts', 1, gen=(1, 6))
    d = c.array('data', (m, n), nan=True)
    st = corr_header(c, n)
    nd = c.fn(PCP + ':corr_mat_normalize')(d.copy(), st, normtype='absmax')
    ref = c.fn(EXT)(nd, st, method='mean')
    out = c.fn(EXT)(d, st, method='norm_mean')
    j, = c.exists_index('j', [n])
    c.check('mean of the normalised correlations', c.eq(
        c.at(out, j), c.at(ref, j)))


@contract('C06', 'median and percentile traces', [EXT], proof=False,
          cases=300, bound='up to 7 correlations of 6 samples')
def extract_other(c):
    np = c.np()
    m = c.dim('traces', 1, gen=(1, 7))
    n = c.dim('npts', 1, gen=(2, 6))
    d = c.array('data', (m, n), nan=True)
    st = corr_header(c, n)
    d0 = d.copy()
    out = c.fn(EXT)(d, st, method='median')
    for j in range(n):
        v = sorted(x for x in d[:, j] if x == x)
        ref = np.nan if not v else (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2
        c.check('median of the available samples', c.eq(out[j], ref))
    c.check('input untouched', np.array_equal(d, d0, equal_nan=True))
    with_data = [i for i in range(m) if np.isfinite(d[i]).all() and
                 abs(d[i]).max() > 0]
    c.assume(len(with_data) > 0)
    q = c.choice('percentile', [0., 25., 50., 80., 100.])
    # correlations with gaps do not take part
    nd = {i: d[i] / abs(d[i]).max() for i in with_data}
    zero = [i for i in range(m) if np.isfinite(d[i]).all() and
            i not in with_data]
    mean = sum(nd.values()) / (len(nd) + len(zero))
    c.assume(abs(mean).max() > 1e-6)
    out = c.fn(EXT)(d, st, method='similarity_percentile', percentile=q)
    c.check('input untouched by selection', np.array_equal(
        d, d0, equal_nan=True))
    cor = {i: np.dot(nd[i], mean) / np.sqrt(
        np.sum(nd[i] ** 2) * np.sum(mean ** 2)) for i in with_data}
    vals = sorted(cor.values())
    tres = np.percentile(vals, q)
    sel = [i for i in cor if cor[i] >= tres - 1e-12]
    sel2 = [i for i in cor if cor[i] > tres + 1e-12]
    ok = False
    for s in (sel, sel2):
        if s:
            ok = ok or np.allclose(out, sum(nd[i] for i in s) / len(s))
    if not ok and len(sel) - len(sel2) > 1:
        c.assume(False)      # ties within rounding
    c.check('mean of the correlations most similar to the mean', ok)


def bins(c, mode):
    m = c.dim('traces', 1, gen=(1, 7))
    n = c.dim('npts', 1, gen=(1, 4))
    nb = c.dim('bins', 2 if mode == 'regular' else 1, gen=(2, 5))
    d = c.array('data', (m, n), nan=True)
    starts = c.times('corr_start', m, 0, 12)
    ends = c.times('corr_end', m, 0, 16)
    st = corr_header(c, n, sr=2., start_lag=-1., corr_start=starts,
                     corr_end=ends)
    return m, n, nb, d, starts, st


@contract('C06', 'averages in time bins', [RES], timeout=60)
def resample(c):
    mode = c.choice('mode', ['given', 'regular'])
    m, n, nb, d, starts, st = bins(c, mode)
    bs = c.times('bin_start', nb, 0, 14)
    if mode == 'given':
        be = c.times('bin_end', nb, 0, 16)
        out, ost = c.fn(RES)(d, st, bs, be)
    else:
        out, ost = c.fn(RES)(d, st, bs)
    b, j = c.exists_index('bj', [nb, n])
    t0 = bs[b]
    t1 = be[b] if mode == 'given' else bs[b] + (bs[1] - bs[0])
    inside = lambda i: c.and_(starts[i] >= t0, starts[i] < t1,  # noqa
                              c.not_(c.isnan(c.at(d, i, j))))
    cnt = c.count(m, inside)
    tot = c.sum([m], lambda i: c.ite(inside(i), lambda: c.at(d, i, j), 0.))
    y = c.at(out, b, j)
    c.check('one row per bin', c.and_(out.shape[0] == nb,
                                      out.shape[1] == n))
    c.check('mean of the correlations starting in the bin', c.implies(
        cnt > 0, c.eq(y * cnt, tot)))
    c.check('empty bins hold no data', c.eq(c.isnan(y), cnt == 0))
    c.check('bins in the header', c.and_(
        c.eq(ost['corr_start'][b], t0), c.eq(ost['corr_end'][b], t1)))
