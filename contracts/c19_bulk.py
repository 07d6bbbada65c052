"""C19 rows of a correlation matrix and their header belong together."""
import fnmatch
import warnings

from .common import contract

S = 'seismic.correlate.stream:'
CB, CS = S + 'CorrBulk.', S + 'CorrStream.'
ROW = ('corr_start', 'corr_end', 'location')
COMMON = ('network', 'station', 'start_lag', 'end_lag', 'npts',
          'sampling_rate', 'stla', 'stlo', 'stel', 'evla', 'evlo', 'evel',
          'dist', 'az', 'baz')


def stream(c, most=7, mixed=True):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    Tr = c.fn(S + 'CorrTrace')
    Stats = c.fn('seismic.correlate.stats:CorrStats')
    n = c.int('npts', 1, gen=(1, 6))
    odd = c.choice('differing', [None, None, 'dist', 'start_lag', 'baz',
                                 'stla', 'sampling_rate', 'az', 'evlo',
                                 'stlo', 'stel', 'evla', 'evel'])
    geo = c.flag('coordinates')
    out = []
    for i in range(c.int('traces', 1, gen=(1, most))):
        t0 = UTC(2020, 1, 1) + c.int('s%d' % i, 0, gen=(0, 20)) * 60
        h = dict(sampling_rate=2., start_lag=-1., npts=n,
                 network=c.choice('net%d' % i, ['A-B', 'A-B', 'A-A']),
                 station=c.choice('sta%d' % i, ['S-T', 'S-T', 'S-S']),
                 channel=c.choice('cha%d' % i, ['HHZ-HHZ', 'HHZ-HHZ',
                                                'HHE-HHZ']),
                 location=c.choice('loc%d' % i, ['-', '-00']),
                 corr_start=t0, corr_end=t0 + 60 * c.int('l%d' % i, 1, gen=(
                     1, 3)))
        if geo:
            h.update(stla=1., stlo=2., stel=3., evla=4., evlo=5., evel=6.,
                     dist=7., az=8., baz=9.)
        if odd and (geo or odd in h) and i and c.flag('odd%d' % i):
            h[odd] += 1.
        out.append(Tr(c.array('x%d' % i, (n,)), _header=Stats(h)))
    return c.fn(S + 'CorrStream')(list(out)), out


def fits(code, pat):
    return pat is None or fnmatch.fnmatchcase(code, pat)


@contract('C19', 'matrix of a stream', [CS + 'create_corr_bulk', S +
                                        'convert_statlist_to_bulk_stats'],
          proof=False, cases=300, thorough=3000, bound='up to 7 correlations')
def create(c):
    import numpy as np
    st, trs = stream(c)
    raw = [(t.data.copy(), dict(t.stats)) for t in trs]
    ask = dict(network=c.choice('network', [None, 'A-B', 'A-*']),
               station=c.choice('station', [None, 'S-T', '*-T', 'X-X']),
               channel=c.choice('channel', [None, 'HHZ-HHZ', 'HH?-HHZ']),
               location=c.choice('location', [None, None, '-']))
    times = None
    if c.flag('time span'):
        lo = raw[0][1]['corr_start'] + 60 * c.int('from', -3, gen=(-5, 3))
        hi = lo + 60 * c.int('span', 1, gen=(1, 20))
        times = (lo, hi)
    inplace = c.flag('inplace')
    want = [i for i, (x, h) in enumerate(raw) if all(
        fits(h[k], v) for k, v in ask.items()) and (
            times is None or lo < h['corr_end'] <= hi)]
    if times:
        want.sort(key=lambda i: raw[i][1]['corr_start'])

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return st.create_corr_bulk(times=times, inplace=inplace, **ask)
    if not want:
        c.expect_raises(ValueError, go, 'no data')
        return
    want = [i for i in want if raw[i][1]['sampling_rate'] == raw[want[0]][1][
        'sampling_rate']]
    first = raw[want[0]][1]
    wild = ask['channel'] is None or '?' in ask['channel']
    row = ROW + (('channel',) if wild else ())
    if any(raw[i][1].get(k) != first.get(k) for i in want
           for k in COMMON + (() if wild else ('channel',))):
        c.expect_raises(ValueError, go, 'differing headers')
        return
    cb = go()
    c.check('one row per correlation', np.array_equal(
        cb.data, np.array([raw[i][0] for i in want])), (cb.data, want))
    for k in row:
        c.check('header of the rows', cb.stats[k] == [
            raw[i][1][k] for i in want], (k, cb.stats[k]))
    for k in COMMON + (() if wild else ('channel',)):
        c.check('header of all rows', cb.stats.get(k) == first.get(k), k)
    c.check('number of rows', cb.stats.ntrcs == len(want))
    if not inplace:
        c.check('stream as it was', all(
            np.array_equal(t.data, r[0]) and all(
                np.array_equal(t.stats[k], v) for k, v in r[1].items())
            for t, r in zip(trs, raw)))
    # and back again
    pick = None
    if c.flag('some rows'):
        pick = [c.int('row%d' % i, 0, gen=(0, 9)) % len(want)
                for i in range(c.int('picked', 0, gen=(0, 4)))]
    back = cb.create_corr_stream(pick)
    idx = list(range(len(want))) if pick is None else pick
    c.check('one trace per row', len(back) == len(idx))
    for t, k in zip(back, idx):
        x, h = raw[want[k]]
        c.check('samples of the row', np.array_equal(t.data, x))
        c.check('header of the trace', all(
            t.stats[q] == h[q] for q in COMMON + ROW + ('channel',)
            if q in h), (dict(t.stats), h))
    # one row, or some
    k = c.int('item', 0, gen=(0, 9)) % len(want)
    t = cb[k]
    x, h = raw[want[k]]
    c.check('single row', np.array_equal(t.data, x) and all(
        t.stats[q] == h[q] for q in COMMON + ROW + ('channel',)
        if q in h), (dict(t.stats), h))
    j = k + c.int('more', 1, gen=(1, 4))
    how = c.choice('index', ['slice', 'list', 'mask', 'step'])
    pos = list(range(len(want)))
    item = {'slice': slice(k, j), 'list': [k, 0], 'mask': np.array(
        [q % 2 == k % 2 for q in pos]), 'step': slice(None, None, 2)}[how]
    sub = cb[item]
    pos = np.array(pos)[item].tolist()
    c.check('some rows of the matrix', np.array_equal(sub.data, np.array(
        [raw[want[q]][0] for q in pos])))
    for key in row:
        c.check('header of some rows', list(sub.stats[key]) == [
            raw[want[q]][1][key] for q in pos], (key, sub.stats[key]))
    c.check('number of some rows', sub.stats.ntrcs == len(pos))
    c.check('matrix as it was', np.array_equal(
        cb.data, np.array([raw[i][0] for i in want])) and cb.stats[
            'corr_start'] == [raw[i][1]['corr_start'] for i in want])


@contract('C19', 'matrix for plots', [CS + '_to_matrix'], proof=False,
          cases=200, thorough=2000, bound='up to 7 correlations')
def matrix(c):
    import numpy as np
    st, trs = stream(c)
    net = c.choice('network', [None, 'A-B'])
    A, stats = st._to_matrix(network=net) if any(
        fits(t.stats.network, net) for t in trs) else (None, [])
    want = [t for t in trs if fits(t.stats.network, net)]
    want.sort(key=lambda t: t.stats.corr_start)
    c.check('headers', [id(x) for x in stats] == [id(t.stats) for t in want])
    if want:
        c.check('rows', np.array_equal(A, np.array([t.data for t in want])))


@contract('C19', 'matrix of headers', [S + 'convert_statlist_to_bulk_stats'],
          note='three headers with arbitrary times, lags and distances')
def heads(c):
    Stats = c.fn('seismic.correlate.stats:CorrStats')
    L = []
    n = c.dim('npts', 1, gen=(1, 5))
    for i in range(3):
        h = dict(sampling_rate=c.real('sr%d' % i, positive=True, den=1,
                                      gen=(1, 2)), npts=n,
                 start_lag=c.real('lag%d' % i, den=1, gen=(0, 1)),
                 dist=c.real('dist%d' % i, den=1, gen=(0, 1)),
                 network='A-B', station='S-T', channel='Z-Z',
                 corr_start=c.time('s%d' % i), corr_end=c.time('e%d' % i))
        L.append(Stats(h))
    same = c.and_(*[c.eq(L[0][k], L[i][k]) for i in (1, 2)
                    for k in ('sampling_rate', 'start_lag', 'dist')])

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return c.fn(S + 'convert_statlist_to_bulk_stats')(L)
    if not c.case(same):
        c.expect_raises(ValueError, go, 'differing headers')
        return
    st = go()
    for k in ('corr_start', 'corr_end', 'location'):
        c.check('one value per row', len(st[k]) == 3)
        for i in range(3):
            c.check('value of the row', c.eq(st[k][i], L[i][k]) if
                    k != 'location' else st[k][i] == L[i][k])
    for k in ('sampling_rate', 'start_lag', 'dist', 'end_lag'):
        c.check('common value', c.eq(st[k], L[0][k]))
    c.check('number of rows', st['ntrcs'] == 3)
