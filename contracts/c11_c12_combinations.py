"""C11 exactly the requested combinations are correlated; C12 pairs have one
canonical order."""
import fnmatch
import warnings

from .common import contract
from .mpi import Comm, Group, correlator

CC = 'seismic.correlate.correlate:'
CALC = CC + 'calc_cross_combis'
COMP = CC + 'compute_network_station_combinations'
SORT = CC + 'sort_comb_name_alphabetically'
METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']
NETS = ['A', 'AB', 'B']
STAS = ['A', 'AB', 'ABA', 'B', 'BA']
CHAS = ['HHE', 'HHZ', 'EHZ', 'HHZB']


def codes(c, n, cha=True):
    return [(c.choice('net%d' % i, NETS), c.choice('sta%d' % i, STAS))
            + ((c.choice('cha%d' % i, CHAS),) if cha else ())
            for i in range(n)]


def wanted(method, a, b, same):
    """is the (unordered) combination of two traces asked for"""
    if method == 'betweenStations':
        return a[:2] != b[:2]
    if method == 'betweenComponents':
        return a[:2] == b[:2] and a[2][-1] != b[2][-1]
    if method == 'autoComponents':
        return same
    return True


def pairname(a, b):
    return '.'.join('%s-%s' % p for p in zip(a, b))


def requested(a, b, combis):
    """by xcombinations: net-net.sta-sta with or without .cha-cha"""
    if combis is None:
        return True
    for x in combis:
        for p in (pairname(a, b), pairname(b, a)):
            if fnmatch.fnmatchcase(
                    '.'.join(p.split('.')[:x.count('.') + 1]), x):
                return True
    return False


def draw_combis(c, ids):
    out = []
    for q in range(c.int('nx', 0, 3)):
        a, b = (ids[c.int('x%d%s' % (q, s), 0, len(ids) - 1)] for s in 'ab')
        x = pairname(a, b)
        if c.flag('station level %d' % q):
            x = '.'.join(x.split('.')[:2])
        out.append(x)
    return out


@contract('C11', 'combinations of the traces of a window',
          [CALC, CC + 'is_in_xcombis', CC + '_compare_existing_data', SORT],
          proof=False, cases=500, thorough=10000, bound='up to 5 traces')
def calc(c):
    from obspy import Stream, Trace, UTCDateTime
    n = c.int('n', 1, 5)
    ids = codes(c, n)
    t0 = UTCDateTime(2015, 1, 1)
    st = Stream([Trace(header=dict(
        network=a[0], station=a[1], channel=a[2],
        starttime=t0 + c.int('t%d' % i, 0, 1))) for i, a in enumerate(ids)])
    method = c.choice('method', METHODS)
    combis = draw_combis(c, ids) if c.flag('xcombis') else None
    ex, known = {}, set()
    for q in range(c.int('existing', 0, 4)):
        a, b = sorted(ids[c.int('e%d%s' % (q, s), 0, n - 1)] for s in 'ab')
        t = t0 + c.int('et%d' % q, 0, 1)
        known.add((a, b, str(t)))
        ex.setdefault('.'.join(a[:2]), {}).setdefault(
            '.'.join(b[:2]), {}).setdefault('%s-%s' % (a[2], b[2]), []
                                            ).append(t.format_fissures())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = c.fn(CALC)(st, ex, method, combis)
    k = [(t.stats.network, t.stats.station, t.stats.channel) for t in st]
    c.check('sorted stream with the same traces', k == sorted(k) and
            k == sorted(ids))
    want = set()
    for i in range(n):
        for j in range(n):
            if j < i and method != 'allCombinations':
                continue
            if method in METHODS[:2] and i == j:
                continue
            a, b = k[i], k[j]
            t = max(st[i].stats.starttime, st[j].stats.starttime)
            if not wanted(method, a, b, i == j):
                continue
            if (min(a, b), max(a, b), str(t)) in known:
                continue
            if method == METHODS[0] and not requested(a, b, combis):
                continue
            want.add((i, j))
    got = [tuple(int(x) for x in g) for g in got]
    c.check('nothing twice', len(set(got)) == len(got))
    c.check('all that was asked for', not want - set(got),
            (k, sorted(want - set(got))))
    c.check('nothing else', not set(got) - want,
            (k, sorted(set(got) - want)))


@contract('C11', 'station combinations', [COMP, SORT], proof=False,
          cases=400, thorough=5000, bound='up to 5 stations')
def comp(c):
    ids = codes(c, c.int('n', 1, 5), False)
    method = c.choice('method', METHODS)
    combis = draw_combis(c, ids) if c.flag('xcombis') else None
    nets, stas = c.fn(COMP)([a[0] for a in ids], [a[1] for a in ids],
                            method, combis)
    got = list(zip(nets, stas))
    n = len(ids)
    want = []
    for i in range(n):
        for j in range(n):
            if j < i and method != METHODS[4]:
                continue
            a, b = sorted((ids[i], ids[j]))
            if method == METHODS[0] and (a == b or i == j or not requested(
                    a, b, combis)):
                continue
            if method in METHODS[1:3] and i != j:
                continue
            want.append(tuple(pairname(a, b).split('.')))
    c.check('every pair in its canonical order', sorted(got) == sorted(
        want), (got, want))
    try:
        c.fn(COMP)(['A'], ['B'], 'nonsense')
        c.check('unknown methods are refused', False)
    except ValueError:
        pass


@contract('C11', 'stations outside the requested combinations',
          [CC + 'Correlator._filter_by_rcombis'], proof=False, cases=300,
          bound='up to 5 stations')
def filt(c):
    ids = codes(c, c.int('n', 1, 5))
    combis = draw_combis(c, ids)
    x = correlator(c, Comm(Group(1), 0), dict(
        combination_method='betweenStations'), 1.)
    x.rcombis = list(combis)
    x.station = [list(a[:2]) for a in ids]
    x.avail_raw_data = [list(a) for a in ids]
    x._filter_by_rcombis()
    left = [tuple(a) for a in x.avail_raw_data]
    need = set(a for a in ids for b in ids if a[:2] != b[:2] and requested(
        a[:2], b[:2], ['.'.join(q.split('.')[:2]) for q in combis]))
    c.check('no requested data is lost', need <= set(left))
    c.check('stations agree', set(a[:2] for a in left) == set(
        tuple(s) for s in x.station))
    names = set(s for q in combis for s in zip(
        *[p.split('-') for p in q.split('.')[:2]]))
    c.check('stations nobody asked for are not read',
            set(tuple(s) for s in x.station) <= names)


@contract('C12', 'order of a pair of codes', [SORT], cases=500)
def order(c):
    a, b = ([c.code(k + str(i)) for k in ('net', 'sta', 'cha')]
            for i in (1, 2))
    f = c.fn(SORT)
    out = f(a[0], a[1], b[0], b[1], a[2], b[2])
    back = f(b[0], b[1], a[0], a[1], b[2], a[2])

    def less(x, y):
        """x before y in the order of network, station, component"""
        return c.or_(x[0] < y[0], c.and_(x[0] == y[0], c.or_(
            x[1] < y[1], c.and_(x[1] == y[1], x[2] <= y[2]))))
    first, second = ([x[i] for x in out] for i in (0, 1))

    def are(x, y):
        return c.and_(*[p == q for p, q in zip(x, y)])
    c.check('a pair', c.and_(*[len(x) == 2 for x in out]))
    c.check('codes stay together', c.or_(
        c.and_(are(first, a), are(second, b)),
        c.and_(are(first, b), are(second, a))))
    c.check('alphabetical code by code', less(first, second))
    c.check('independent of the order of the arguments', c.and_(
        *[are(x, y) for x, y in zip(out, back)]))
    again = f(out[0][0], out[1][0], out[0][1], out[1][1], out[2][0],
              out[2][1])
    c.check('stable', c.and_(*[are(x, y) for x, y in zip(out, again)]))
    # the components never change the order of different stations
    short = f(a[0], a[1], b[0], b[1])
    c.check('order of stations', c.or_(
        c.and_(a[0] == b[0], a[1] == b[1]),
        c.and_(are(short[0], out[0]), are(short[1], out[1]))))
    for bad in ((None, a[1], b[0], b[1]), (a[0], 3, b[0], b[1])):
        c.expect_raises(TypeError, lambda: f(*bad),
                        'codes have to be strings')


STR = 'seismic.correlate.stream:'


class Head(object):
    """the codes of a header"""

    def __init__(self, c, i):
        self.network, self.station, self.channel = (
            c.code(k + str(i)) for k in ('net', 'sta', 'cha'))

    def codes(self):
        return self.network, self.station, self.channel


@contract('C12', 'data and lags turn round with the pair',
          [STR + 'alphabetical_correlation'])
def turn(c):
    h1, h2 = Head(c, 1), Head(c, 2)
    n = c.dim('npts', 1, gen=(1, 9))
    data = c.array('data', (n,))
    old = data.copy()
    start, end = c.real('start_lag'), c.real('end_lag')
    calls = []

    def combine(a, b, lag, inv=None):
        calls.append((a, b, lag, inv))
        return 'header'
    c.patch(STR + 'combine_stats', combine)
    head, out = c.fn(STR + 'alphabetical_correlation')(
        h1, h2, start, end, data, 'inventory')
    c.check('combined once', len(calls) == 1 and head == 'header')
    a, b, lag, inv = calls[0]
    c.check('of both headers', (a is h1 and b is h2) or (
        a is h2 and b is h1))
    c.check('inventory passed on', inv == 'inventory')
    i, = c.exists_index('i', [n])
    x, y = a.codes(), b.codes()
    c.check('alphabetical code by code', c.or_(
        x[0] < y[0], c.and_(x[0] == y[0], c.or_(
            x[1] < y[1], c.and_(x[1] == y[1], x[2] <= y[2])))))
    c.check('length', out.shape[0] == n)
    if a is h1:
        c.check('lag of the first sample', c.eq(lag, start))
        c.check('samples as they were', c.eq(c.at(out, i), c.at(old, i)))
    else:
        c.check('lag of the first sample', c.eq(lag, -end))
        c.check('samples reversed', c.eq(
            c.at(out, i), c.at(old, n - 1 - i)))


@contract('C12', 'correlations are stored in canonical order',
          [STR + 'alphabetical_correlation', STR + 'combine_stats',
           STR + 'CorrTrace.__init__', SORT], proof=False,
          cases=300, thorough=3000, bound='9 samples')
def flip(c):
    import numpy as np
    from obspy.core import Stats
    from obspy import UTCDateTime
    ids = codes(c, 2)
    t = [UTCDateTime(100 + c.int('t%d' % i, 0, 9)) for i in (0, 1)]
    coords = c.choice('coordinates', ['none', 'stats', 'sac', 'inventory'])
    H, where = [], {}
    for i, a in enumerate(ids):
        h = dict(network=a[0], station=a[1], channel=a[2],
                 location=c.choice('loc%d' % i, ['', '00']),
                 starttime=t[i], npts=50 + i, sampling_rate=2.)
        place = where.setdefault(a[:2], dict(
            stla=c.real('la%d' % i, -60, 60),
            stlo=c.real('lo%d' % i, -90, 90), stel=10. * i))
        if coords == 'stats':
            h.update(place)
        elif coords == 'sac':
            h['sac'] = c.ext('obspy.core', 'AttribDict')(place)
        if c.flag('asdf%d' % i):
            h['asdf'] = dict(event=3)
        H.append(Stats(h))
    inv = None
    if coords == 'inventory':
        from obspy.core.inventory import Inventory, Network, Station
        inv = Inventory([Network(n, [Station(
            s, p['stla'], p['stlo'], p['stel'])])
            for (n, s), p in where.items()], source='')
    n = c.int('n', 2, 9)
    data = np.arange(n) + 1.
    lag = c.real('lag', -20, 20)
    Tr = c.fn(STR + 'CorrTrace')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = Tr(data.copy(), H[0], H[1], start_lag=lag,
               end_lag=lag + (n - 1) / 2., inv=inv)
        b = Tr(data[::-1].copy(), H[1], H[0],
               start_lag=-(lag + (n - 1) / 2.), end_lag=-lag,
               inv=inv)
    names = [(x.stats.network, x.stats.station, x.stats.channel)
             for x in (a, b)]
    s = a.stats
    c.check('same name for both orders', names[0] == names[1])
    nc, sc, cc = c.fn(SORT)(ids[0][0], ids[0][1], ids[1][0], ids[1][1],
                            ids[0][2], ids[1][2])
    c.check('canonical name', names[0] == tuple(
        '-'.join(x) for x in (nc, sc, cc)))
    flipped = tuple(zip(nc, sc, cc))[0] != ids[0]
    if ids[0] != ids[1]:
        c.check('same data for both orders', np.array_equal(a.data, b.data))
        c.check('same lags for both orders', abs(
            s.start_lag - b.stats.start_lag) < 1e-9)
    c.check('data reversed with the pair', np.array_equal(
        a.data, data[::-1] if flipped else data))
    c.check('lags reversed with the pair', abs(s.start_lag - (
        -(lag + (n - 1) / 2.) if flipped else lag)) < 1e-9)
    c.check('lag axis', abs(s.end_lag - s.start_lag - (n - 1) / 2.) < 1e-9)
    c.check('common window', s.corr_start == max(t) and s.corr_end == min(
        h.endtime for h in H))
    p, q = (H[1], H[0]) if flipped else (H[0], H[1])
    c.check('locations follow', s.location == p.location + '-' + q.location)
    if coords != 'none':
        p, q = (where[h.network, h.station] for h in (p, q))
        c.check('coordinates follow', (
            s.stla, s.stlo, s.stel, s.evla, s.evlo, s.evel) == (
                p['stla'], p['stlo'], p['stel'], q['stla'], q['stlo'],
                q['stel']))
        c.check('same distance for both orders', abs(
            s.dist - b.stats.dist) < 1e-6 * (1 + s.dist))
        from obspy.geodetics import gps2dist_azimuth
        dist, az, baz = gps2dist_azimuth(p['stla'], p['stlo'], q['stla'],
                                         q['stlo'])
        c.check('distance in km', abs(s.dist - dist / 1000) < 1e-9)
        c.check('azimuth and back azimuth', (s.az, s.baz) == (az, baz))
    else:
        c.check('no coordinates', 'dist' not in s and 'stla' not in s)
    c.check('header of one trace only is left out', 'asdf' not in s and
            'sac' not in s)
    lone = Tr(data.copy(), start_lag=lag)
    c.check('first lag without headers', lone.stats.start_lag == lag)
