"""C18 selecting correlations by time."""
import datetime
import warnings

from .common import contract, corr_header

S = 'seismic.correlate.stream:'
CB, CS = S + 'CorrBulk.', S + 'CorrStream.'
FSI = CB + '_find_slice_index'


def bulk(c, data, st, a, b):
    st['corr_start'], st['corr_end'] = a, b
    return c.fn(S + 'CorrBulk')(data, stats=st)


@contract('C18', 'slice of a matrix', [CB + 'slice', FSI])
def cut(c):
    m = c.dim('rows', 1, gen=(1, 6))
    n = c.dim('npts', 1, gen=(1, 5))
    data = c.array('data', (m, n))
    a, b = c.times('start', m), c.times('end', m)
    cb = bulk(c, data, corr_header(c, n, network='A-B'), a, b)
    lo, hi = c.time('from'), c.time('to')
    part = c.flag('partial')
    if c.case(hi <= lo):
        c.expect_raises(ValueError, lambda: cb.slice(lo, hi, part),
                        'no window')
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ii = c.fn(FSI)(cb, lo, hi, part)
    i, = c.exists_index('i', [m])
    s, e = a[i], b[i]
    want = c.and_(e >= lo, s <= hi) if part else c.and_(s >= lo, e <= hi)
    c.check('one decision per row', c.eq(ii.shape[0], m))
    c.check('rows within the window', c.eq(c.at(ii, i), want))


def stream(c, k, length=True):
    """k correlations with arbitrary times"""
    import numpy as np
    Tr = c.fn(S + 'CorrTrace')
    Stats = c.fn('seismic.correlate.stats:CorrStats')
    out = []
    for i in range(k):
        t0 = c.time('start%d' % i)
        t1 = t0 + c.real('length%d' % i, gen=(0, 20))
        out.append(Tr(np.arange(3.) + i, _header=Stats(dict(
            sampling_rate=2., start_lag=-1., npts=3, network='A-B',
            station='S-T', channel='Z-Z', corr_start=t0, corr_end=t1))))
    return c.fn(S + 'CorrStream')(list(out)), out


def selected(c, st, trs, want, name=''):
    got = list(st)
    for tr, w in zip(trs, want):
        inn = any(x is tr for x in got)
        c.check(name + 'selected exactly if in the window',
                w if inn else c.not_(w))
    c.check(name + 'nothing else', len(got) == len({id(x) for x in got})
            and all(any(x is t for t in trs) for x in got))


@contract('C18', 'correlations of a time span', [CS + 'select_corr_time'],
          note='two correlations with arbitrary times')
def span(c):
    st, trs = stream(c, 2)
    lo = c.time('from')
    hi = lo + c.real('span', gen=(0, 40))
    part = c.flag('partial')
    c.assume(hi > lo)
    out = st.select_corr_time(lo, hi, part)
    want = []
    for tr in trs:
        s, e = tr.stats.corr_start, tr.stats.corr_end
        want.append(c.and_(e > lo, e <= hi) if part else
                    c.and_(s >= lo, e <= hi))
    selected(c, out, trs, want)
    got = list(out)
    for x, y in zip(got, got[1:]):
        c.check('in order of time', x.stats.corr_start <= y.stats.corr_start)
    c.check('stream itself keeps everything', len(st) == 2 and all(
        any(x is t for x in st) for t in trs))


@contract('C18', 'correlations without the given times',
          [CS + 'pop_at_utcs'], note='two correlations with arbitrary times')
def pop(c):
    st, trs = stream(c, 2)
    n = c.dim('utcs', 1, gen=(1, 5))
    ts = c.times('utc', n, lo=0, hi=40)
    out = st.pop_at_utcs(c.np().array(ts))
    want = []
    for tr in trs:
        s, e = tr.stats.corr_start, tr.stats.corr_end
        want.append(c.not_(c.any(
            [n], lambda q: c.and_(ts[q] > s, ts[q] < e))))
    selected(c, out, trs, want)
    c.check('stream itself keeps everything', len(st) == 2)


def many(c, most=8, days=False):
    """a stream of correlations of several groups, and its traces"""
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    Tr = c.fn(S + 'CorrTrace')
    Stats = c.fn('seismic.correlate.stats:CorrStats')
    out = []
    for i in range(c.int('traces', 1, gen=(1, most))):
        if days:
            t0 = UTC(2020, 2, 28) + 1800 * c.int('s%d' % i, 0, gen=(0, 150))
            ln = c.choice('l%d' % i, [1800, 3600, 3600 * 5, 900.5])
        else:
            t0 = UTC(2020, 1, 1) + c.int('s%d' % i, 0, gen=(0, 40)) / 2.
            ln = c.int('l%d' % i, 0, gen=(1, 8)) / 2.
        out.append(Tr(np.arange(4.) + 10 ** (i % 5), _header=Stats(dict(
            sampling_rate=2., start_lag=-1., npts=4, network='A-B',
            station=c.choice('sta%d' % i, ['S-T', 'S-T', 'S-S']),
            channel='HHZ-HHZ', location=c.choice('loc%d' % i, ['-', '-00']),
            corr_start=t0, corr_end=t0 + ln,
            processing=['first', 'second', 'third'][:(i + 1) % 4]))))
    return c.fn(S + 'CorrStream')(list(out)), out


@contract('C18', 'correlations of a time of the day', [CS + 'select_time'],
          proof=False, cases=300, thorough=3000, bound='up to 8 traces')
def daily(c):
    st, trs = many(c, days=True)
    a, b = [(c.choice(
        x + 'h', list(range(25)) + [24] * 4), c.choice(
        x + 'm', [0, 30, 59]), c.choice(x + 's', [0, 0., 59, .5]))
        for x in 'ab']
    excl = c.flag('exclude')
    out = list(st.select_time(a, b, excl))
    for tr in trs:
        s, e = tr.stats.corr_start, tr.stats.corr_end
        sec = s.hour * 3600 + s.minute * 60 + s.second + s.microsecond / 1e6
        lo, hi = [q[0] * 3600 + q[1] * 60 + q[2] for q in (a, b)]
        inside = sec >= lo and sec + (e - s) <= hi
        c.check('selected exactly if within the time of the day',
                any(x is tr for x in out) == (inside != excl),
                (s, e, a, b, excl))
    c.check('order kept', [id(x) for x in out] == [
        id(x) for x in trs if any(x is y for y in out)])


@contract('C18', 'successive windows', [CS + 'slide'], proof=False,
          cases=300, thorough=3000, bound='up to 8 traces')
def windows(c):
    st, trs = many(c)
    UTC = c.ext('obspy', 'UTCDateTime')
    win = c.int('window', 0, gen=(0, 16)) / 2.
    step = c.int('step', -1, gen=(-1, 12)) / 2.
    part = c.flag('partial')
    kw = {}
    a = min(t.stats.corr_start for t in trs)
    b = max(t.stats.corr_end for t in trs)
    if c.flag('start given'):
        kw['starttime'] = a = UTC(2020, 1, 1) + c.int('from', 0, gen=(0, 30))
    if c.flag('end given'):
        kw['endtime'] = b = UTC(2020, 1, 1) + c.int('to', 0, gen=(0, 60))
    longest = max(t.stats.corr_end - t.stats.corr_start for t in trs)

    def go():
        return [list(x) for x in st.slide(win, step, part, **kw)]
    if step <= 0 or win < longest:
        c.expect_raises(ValueError, go, 'refused')
        return
    want = []
    k = 0
    while a + k * step < b:
        lo, hi = a + k * step, a + k * step + win
        sel = {id(t) for t in trs if (
            lo < t.stats.corr_end <= hi if part else
            t.stats.corr_start >= lo and t.stats.corr_end <= hi)}
        if sel:
            want.append(sel)
        k += 1
    got = go()
    c.check('windows with data', len(got) == len(want), (got, want))
    c.check('correlations of every window', all(
        {id(t) for t in x} == y and len(x) == len(y)
        for x, y in zip(got, want)))


@contract('C18', 'stacks of successive windows', [CS + 'stack', CS + 'slide'],
          proof=False, cases=300, thorough=3000, bound='up to 8 traces')
def stacks(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    how = c.choice('stack_len', [0, 'daily', 'seconds'])
    st, trs = many(c, days=how == 'daily')
    regard = c.flag('regard location')
    weight = c.choice('weight', ['mean', 'by_length'])
    sl = how
    a = min(t.stats.corr_start for t in trs)
    if how == 'daily':
        step, a = 86400, UTC(a.date)
    elif how == 'seconds':
        sl = step = c.int('length', 8, gen=(8, 30)) / 2.
        if c.flag('start given'):
            a = UTC(2020, 1, 1) + c.int('from', 0, gen=(0, 8))
    groups = {}
    for t in trs:
        s = t.stats
        q = 0
        if how:
            q = -int((a - s.corr_end) // step) - 1
            if s.corr_end <= a:
                continue
        groups.setdefault((q, s.station, s.location if regard else 0),
                          []).append(t)
    data = [t.data.copy() for t in trs]
    out = st.stack(weight, stack_len=sl, regard_location=regard,
                   **({'starttime': a} if how == 'seconds' else {}))
    c.check('one stack per group and window', len(out) == len(groups),
            (len(out), sorted(groups)))
    res = {}
    for t in out:
        s = t.stats
        res[s.station, s.corr_start.timestamp, s.corr_end.timestamp,
            s.location if regard else 0, round(float(t.data[0]), 5)] = t
    for (q, sta, loc), g in groups.items():
        w = np.array([1. if weight == 'mean' else
                      x.stats.corr_end - x.stats.corr_start for x in g])
        m = (np.array([x.data for x in g]) * w[:, None]).sum(0) / w.sum()
        m = m / np.abs(m).max()     # stacks are normalised
        k = (sta, min(x.stats.corr_start for x in g).timestamp,
             max(x.stats.corr_end for x in g).timestamp, loc,
             round(float(m[0]), 5))
        c.check('mean of the correlations of the group',
                k in res and np.allclose(res[k].data, m), (k, list(res)))
    c.check('data as they were', all(np.array_equal(t.data, d)
                                     for t, d in zip(trs, data)))


@contract('C18', 'rows of a slice', [CB + 'slice', FSI], proof=False,
          cases=300, thorough=3000, bound='up to 8 rows')
def rows(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    st, trs = many(c)
    sel = [t for t in trs if t.stats.station == trs[0].stats.station]
    cb = c.fn(S + 'CorrStream')([t.copy() for t in sel]).create_corr_bulk(
        inplace=False)
    if c.flag('times as array'):
        for k in ('corr_start', 'corr_end'):
            cb.stats[k] = np.array(cb.stats[k])
    lo = UTC(2020, 1, 1) + c.int('from', 0, gen=(0, 50)) / 2.
    hi = lo + c.int('span', 1, gen=(1, 30)) / 2.
    part = c.flag('partial')
    before = cb.data.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = cb.slice(lo, hi, part)
    want = [i for i, t in enumerate(sel) if (
        t.stats.corr_end >= lo and t.stats.corr_start <= hi if part else
        t.stats.corr_start >= lo and t.stats.corr_end <= hi)]
    c.check('rows', np.array_equal(out.data, before[want]))
    for k in ('corr_start', 'corr_end', 'location', 'channel'):
        c.check('header of the rows', list(out.stats[k]) == [
            sel[i].stats[k] for i in want], (k, out.stats[k]))
    s = dict(sel[0].stats)
    for k in ('network', 'station', 'start_lag', 'sampling_rate', 'npts',
              'processing'):
        c.check('header that concerns all rows', out.stats[k] == s[k],
                (k, out.stats[k], s[k]))
    c.check('matrix as it was', np.array_equal(cb.data, before) and
            len(cb.stats.corr_start) == len(sel))
