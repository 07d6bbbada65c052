"""C31 preparation of the data and the run."""
from copy import deepcopy
import logging
import os
import warnings

from .common import contract

CC = 'seismic.correlate.correlate:'
MU = 'seismic.utils.miic_utils:'
MM = 'seismic.monitor.monitor:'


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


class Store:
    """store client with an inventory, and a record of what is asked for"""

    def __init__(self, inv=None, missing=()):
        self.inventory = inv if inv is not None else []
        self.missing = set(missing)
        self.asked, self.written = [], []
        self.rclient = self

    def get_stations(self, **k):
        self.asked.append((k['network'], k['station']))
        return [(k['network'], k['station'])]

    def _write_inventory(self, inv):
        self.written.append(inv)


class Orientation(list):
    """inventory that knows the dips"""

    def __init__(self, dips):
        list.__init__(self, ['something'])
        self.dips, self.asked = dips, []

    def get_orientation(self, seed, datetime=None):
        self.asked.append((seed, datetime))
        return dict(azimuth=0., dip=self.dips[seed])


def record(c, sr, t0, length, code, tag=''):
    """pieces of a record with gaps"""
    import numpy as np
    Trace = c.ext('obspy', 'Trace')
    rng = np.random.RandomState(c.int('seed' + tag, 0, gen=(0, 10**6)))
    out, a = [], c.int('a' + tag, 0, gen=(0, 60))
    for k in range(c.int('pieces' + tag, 1, gen=(1, 3))):
        b = a + c.int('l%d' % k + tag, 1, gen=(5, 400))
        b = min(b, length)
        if b - a < 2:
            break
        h = dict(zip(('network', 'station', 'location', 'channel'), code),
                 sampling_rate=sr, starttime=t0 + a)
        out.append(Trace(rng.randn(int((b - a) * sr)) + 3, header=h))
        a = b + c.int('g%d' % k + tag, 0, gen=(1, 60))
        if a >= length:
            break
    return out


def masked(tr):
    """{sample number: value} of the samples with data"""
    import numpy as np
    m = np.ma.getmaskarray(tr.data)
    first = round(tr.stats.starttime.timestamp * tr.stats.sampling_rate)
    return {first + i: float(x) for i, x in enumerate(
        np.ma.getdata(tr.data)) if not m[i]}


CALLS = []


def step(st, factor=1, **k):
    """a processing function of the user"""
    CALLS.append((factor, k, len(st)))
    for tr in st:
        tr.data = tr.data * factor
    return st


@contract('C31', 'stream preprocessing', [
    CC + 'preprocess_stream', MU + 'gap_handler', MU + 'correct_polarity',
    'seismic.utils.fetch_func_from_str:func_from_str'],
    proof=False, cases=60, thorough=500,
    bound='up to 3 channels of up to 3 pieces within 600 s')
def preprocess(c):
    import numpy as np
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    sr, t0, length = float(c.choice('sr', [2, 5])), UTC(2015, 3, 1), 600
    codes = [('AA', 'S1', '00', 'HHZ'), ('AA', 'S1', '00', 'HHN'),
             ('AB', 'S2', '', 'BHZ')][:c.int('channels', 1, gen=(1, 3))]
    st = Stream()
    for i, code in enumerate(codes):
        for tr in record(c, sr, t0, length, code, str(i)):
            st.append(tr)
    c.assume(len(st) > 0)
    before = {}
    for tr in st:
        before.setdefault(tr.id, set()).update(masked(tr))
    dips = {'.'.join(code): c.choice('dip%d' % i, [-90, 90, 0, 45])
            for i, code in enumerate(codes)}
    corr_len = c.choice('corr_len', [30, 100, 2400])
    taper = c.choice('taper', [2, 10])
    f = c.fn(CC + 'preprocess_stream')
    me = __name__ + '.step'
    steps = [dict(function=me, args=dict(factor=c.choice('f%d' % k, [2., .5]),
                                         x=k))
             for k in range(c.int('steps', 0, gen=(0, 3)))]
    old = [dict(function='seismic.correlate.preprocessing_stream.'
                + c.choice('old', ['detrend_st', 'cos_taper_st']),
                args=dict(x='never'))] if c.flag('deprecated') else []
    start, end = t0 + c.choice('s', [0, 20, -30]), t0 + c.choice(
        'e', [600, 570, 640])
    kw = dict(startt=start, endt=end, taper_len=taper,
              remove_response=False, subdivision=dict(corr_len=corr_len),
              sampling_rate=sr)
    plain = quiet(lambda: f(st.copy(), store_client=Store(), preProcessing=c.
                            choice('none', [None, []]), **kw))
    CALLS.clear()
    pol = Orientation(dips)
    out = quiet(lambda: f(st.copy(), store_client=Store(pol),
                          preProcessing=old + steps, **kw))
    # the steps in their order with their arguments
    c.check('steps', [(a, b) for a, b, _ in CALLS] == (
        [(s['args']['factor'], dict(x=s['args']['x'])) for s in steps]
        if CALLS else []), CALLS)
    fac = float(np.prod([s['args']['factor'] for s in steps]))
    c.check('channels', sorted(t.id for t in plain) == sorted(
        t.id for t in out))
    c.check('one trace per channel', len({t.id for t in plain}) == len(plain))
    c.check('steps called', not len(out) or len(CALLS) == len(steps))
    byid = {t.id: t for t in plain}
    for tr in out:
        sign = -1 if tr.id[-1] == 'Z' and dips[tr.id] > 0 else 1
        a, b = masked(byid[tr.id]), masked(tr)
        c.check('samples with data', set(a) == set(b))
        c.check('polarity and steps', np.allclose(
            [b[k] for k in b], [a[k] * sign * fac for k in b]), (tr.id, dips))
    for seed, when in pol.asked:
        c.check('orientation asked for', seed in dips and seed[-1] == 'Z')
    for tr in plain:
        c.check('covers the request', abs(
            tr.stats.starttime - start) < .5 / sr and abs(
                tr.stats.endtime - end) < .5 / sr, tr)
        m = masked(tr)
        lo = min(before[tr.id])
        # longest pieces first: a piece of more than 4 taper lengths stays,
        # gaps of one sample are interpolated
        runs, cur = [], []
        for k in range(lo, max(before[tr.id]) + 1):
            if k in before[tr.id] or (k - 1 in before[tr.id] and
                                      k + 1 in before[tr.id]):
                cur.append(k)
            elif cur:
                runs.append(cur)
                cur = []
        runs.append(cur)
        short = max(4 * taper, corr_len / 20)
        s0, s1 = round(start.timestamp * sr), round(end.timestamp * sr)
        good = {k for r in runs for k in r if len(r) / sr > short and
                s0 <= k <= s1}
        c.check('long pieces stay, short ones and gaps do not',
                set(m) == good, (tr.id, len(m), len(good)))
        # the ends of the pieces are tapered, the trend removed
        for r in runs:
            if len(r) / sr > short:
                c.check('tapered', all(
                    abs(m[k]) < 1e-9 for k in (r[0], r[-1]) if k in m))
    want = set()
    for i in before:
        pass
    # a straight line in the data has no influence, if there is no gap
    if all(len([t for t in st if t.id == i]) == 1 for i in before):
        tilt = st.copy()
        for tr in tilt:
            tr.data = tr.data + 2 - .01 * np.arange(tr.stats.npts)
        again = quiet(lambda: f(tilt, store_client=Store(), **kw))
        for tr in again:
            a, b = masked(byid[tr.id]), masked(tr)
            c.check('trend', set(a) == set(b) and np.allclose(
                [a[k] for k in a], [b[k] for k in a], atol=1e-6))
    c.check('empty', len(f(Stream(), store_client=None, **kw)) == 0)


@contract('C31', 'responses', [CC + 'preprocess_stream'], proof=False,
          cases=40, thorough=300, note='obspy remove_response as a contract',
          bound='up to 4 stations of up to 2 pieces')
def responses(c):
    """every response is removed exactly once, with an inventory of its own
    station"""
    import numpy as np
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    Trace = c.ext('obspy', 'Trace')
    sr, t0 = 2., UTC(2015, 3, 1)
    st, known = Stream(), []
    names = [('AA', 'S%d' % i) for i in range(c.int('n', 1, gen=(1, 4)))]
    for i, (n, s) in enumerate(names):
        if c.flag('known%d' % i):
            known.append((n, s))
        for k in range(c.int('p%d' % i, 1, gen=(1, 2))):
            st.append(Trace(np.random.RandomState(i).randn(400) + 3, header=dict(
                network=n, station=s, channel='HHN', sampling_rate=sr,
                starttime=t0 + 250 * k)))
    removed = []

    def remove(tr, *a, **k):
        inv = k.get('inventory')
        if a:
            inv = a[0]
        if (tr.stats.network, tr.stats.station) not in list(inv):
            raise ValueError('No matching response information found.')
        c.check('no taper', k.get('taper') is False)
        removed.append((tr.stats.station, tr.stats.starttime))
        tr.data = tr.data * 7
        return tr
    store = Store(list(known))
    kw = dict(startt=t0, endt=t0 + 450, taper_len=5,
              subdivision=dict(corr_len=30))
    f = c.fn(CC + 'preprocess_stream')
    ref = quiet(lambda: f(st.copy(), store_client=Store(),
                          remove_response=False, **kw))
    old = Trace.remove_response
    Trace.remove_response = remove
    try:
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            out = quiet(lambda: f(st.copy(), store_client=store,
                                  remove_response=True, **kw))
    finally:
        Trace.remove_response = old
    c.check('once each', sorted(removed) == sorted(
        (tr.stats.station, tr.stats.starttime) for tr in st), removed)
    miss = [x for x in names if x not in known]
    c.check('asked for what is missing', set(store.asked) == set(miss) and
            len(store.written) >= len(miss), store.asked)
    by = {t.id: masked(t) for t in ref}
    for tr in out:
        a, b = by[tr.id], masked(tr)
        c.check('data', set(a) == set(b) and np.allclose(
            [b[k] for k in b], [7 * a[k] for k in b]))
    c.check('traces', len(out) == len(ref))


@contract('C31', 'subdivision into windows', [CC + 'generate_corr_inc'],
          proof=False, cases=80, thorough=800,
          bound='up to 3 traces of 300 s')
def windows(c):
    import numpy as np
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    Trace = c.ext('obspy', 'Trace')
    sr, t0 = float(c.choice('sr', [1, 4])), UTC(2015, 3, 1)
    sub = dict(corr_inc=c.choice('inc', [20, 30, 60]),
               corr_len=c.choice('len', [20, 30, 60]))
    rl = c.choice('read', [100, 120, 300])
    gen = c.fn(CC + 'generate_corr_inc')
    if c.flag('empty'):
        w = list(gen(Stream(), sub, rl))
        c.check('empty windows', len(w) == -(-rl // sub['corr_inc']) and
                not any(len(x) for x in w))
        return
    st = Stream()
    n = int(rl * sr) + 1
    for i in range(c.int('n', 1, gen=(1, 3))):
        d = np.arange(n) + 1000. * i
        if c.flag('gap%d' % i):
            a = c.int('ga%d' % i, 0, gen=(0, n - 2))
            b = c.int('gb%d' % i, 1, gen=(a + 1, n))
            c.assume(a < b)
            d = np.ma.masked_array(d, mask=np.zeros(n, bool))
            d[a:b] = np.ma.masked
        st.append(Trace(d, header=dict(station='S%d' % i, sampling_rate=sr,
                                       starttime=t0)))
    keep = st.copy()
    out = list(gen(st, sub, rl))
    c.check('number of windows', len(out) == -(-rl // sub['corr_inc']),
            len(out))
    m = int(sub['corr_len'] * sr)
    for k, w in enumerate(out):
        o = int(k * sub['corr_inc'] * sr)
        want = {}
        for tr in keep:
            x = {i: v for i, v in zip(
                range(n), np.ma.asarray(tr.data).tolist())
                if v is not None and o <= i < o + m}
            if x:
                want[tr.id] = x
        c.check('traces', sorted(t.id for t in w) == sorted(want),
                (k, [t.id for t in w], sorted(want)))
        for tr in w:
            c.check('window', abs(tr.stats.starttime - (
                t0 + k * sub['corr_inc'])) < 1e-6 and tr.stats.npts == m,
                tr)
            got = {o + i: v for i, v in enumerate(np.ma.asarray(
                tr.data).tolist()) if v is not None}
            c.check('samples', got == want[tr.id])
    c.check('stream unchanged', all(
        np.ma.allequal(a.data, b.data) and a.stats.npts == b.stats.npts
        for a, b in zip(st, keep)))


class Archive:
    """store client that knows what there is"""

    def __init__(self, have):
        self.have = have

    def get_available_stations(self, net=None):
        import fnmatch
        return [list(x) for x in sorted({
            (n, s) for n, s, _ in self.have
            if fnmatch.fnmatch(n, net or '*')})]

    def _translate_wildcards(self, net, sta, comp='?'):
        import fnmatch
        return [[n, s, ch] for n, s, ch in self.have + self.have
                if fnmatch.fnmatch(n, net) and fnmatch.fnmatch(s, sta) and
                fnmatch.fnmatch(ch, '??' + comp)]


def close_logs():
    for name in list(logging.root.manager.loggerDict):
        if name.startswith(('seismic', 'py.warnings')):
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                h.close()
                lg.removeHandler(h)
    logging.captureWarnings(False)


def with_times(c, opt):
    """functions with times among the options"""
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    if c.flag('ends') and opt['co'].get('preProcessing'):
        opt['co']['preProcessing'][0]['args']['ends'] = [UTC(100)]
    opt.setdefault('dv', {})
    if c.flag('pop'):
        opt['dv']['preprocessing'] = [dict(function='pop_at_utcs', args=dict(
            utcs=np.array([UTC(0), UTC(10)])))]


def same_times(a, b):
    return str(a) == str(b)


def logged(d):
    """the options are in the log folder"""
    import glob
    import json
    f, = glob.glob(os.path.join(d, 'log', 'params*'))
    with open(f) as x:
        return set(json.load(x)) >= {'co', 'dv', 'net', 'proj_dir'}


@contract('C31', 'stations of a run', [
    CC + 'Correlator.__init__', CC + 'Correlator._filter_by_rcombis'],
    proof=False, cases=60, thorough=500,
    bound='up to 8 channels of 3 networks')
def stations(c):
    """all ways to name the stations select the same channels, the options
    of the user stay as they are"""
    import fnmatch
    import sys
    have = sorted({(c.choice('n%d' % i, ['AA', 'AB', 'C']),
                    c.choice('s%d' % i, ['S1', 'S2', 'T']),
                    c.choice('c%d' % i, ['HHZ', 'HHN', 'BHZ']))
                   for i in range(c.int('n', 1, gen=(1, 8)))})
    net, sta = c.choice('request', [
        ('*', '*'), ('AA', '*'), ('AA', 'S1'), ('A?', 'S*'),
        (['AA', 'AB'], '*'), (['AA', 'C'], ['S1', 'T']),
        ('AA', ['S1', 'S2']), (['AA'], ['S2']), (['AB'], '*'),
        ('*', 'S1'), ('*', ['S1']), (['AA', 'AB'], ['S1']), (['AA', 'AB'], 'S1')])
    comp = c.choice('comp', ['?', 'Z', '[ZN]'])
    d = c.tmpdir()
    method = c.choice('method', ['betweenStations', 'autoComponents'])
    opt = dict(proj_dir=d, log_subdir='log', log_level='WARNING', net=dict(
        network=net, station=sta, component=comp), co=dict(
            subdir='corr', sampling_rate=25, combination_method=method))
    pre = c.choice('pre', [None, [], [dict(
        function='x.stream_mask_at_utc', args=dict(
            starts=[c.ext('obspy', 'UTCDateTime')(0)]))], 'missing'])
    if pre != 'missing':
        opt['co']['preProcessing'] = pre
    with_times(c, opt)
    rc = c.choice('xcombinations', [None, 'None', ['AA-AB.S1-S2'],
                                    ['AA-AA.S1-S2.HHZ-HHZ', 'AB-C.*-*']])
    if rc is not None or c.flag('given'):
        opt['co']['xcombinations'] = rc
    sep = c.choice('separately', [None, True, False])
    if sep is not None:
        opt['save_comps_separately'] = sep
    differ = c.choice('different parameters', [None, True, True, False])
    if differ is not None:
        opt['co']['allow_different_params'] = differ
    file = c.flag('options in a file') and (pre == 'missing' or not pre)
    refused = (net == '*' and sta in ('S1', ['S1'])) or (
        isinstance(net, list) and len(net) == 2 and (
            sta == ['S1'] or sta == 'S1'))
    K = c.fn(CC + 'Correlator')
    keep = deepcopy(opt)
    given = deepcopy(opt)

    keep_dv = given.pop('dv')
    keep.pop('dv')

    def make():
        given['dv'] = keep_dv
        use = given
        if file:
            import yaml
            use = os.path.join(d, 'params.yaml')
            with open(use, 'w') as f:
                yaml.dump(dict(given, dv={}), f)
        err, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try:
            return quiet(lambda: K(Archive(have), use))
        finally:
            sys.stderr.close()
            sys.stderr = err
            close_logs()
    if refused:
        c.expect_raises(ValueError, make, 'station list refused')
        return
    nets = net if isinstance(net, list) else [net]
    stas = sta if isinstance(sta, list) else [sta]
    if len(stas) == 1:
        stas = stas * len(nets)
    if len(nets) == 1:
        nets = nets * len(stas)
    want = [list(x) for x in have if any(
        fnmatch.fnmatch(x[0], n) and fnmatch.fnmatch(x[1], s)
        for n, s in zip(nets, stas)) and fnmatch.fnmatch(x[2], '??' + comp)]
    c.assume(len(want) > 0)
    two = make()
    if rc not in (None, 'None') and method == 'betweenStations':
        def used(n, s):
            for r in rc:
                a, b = r.split('.')[:2]
                for q in (0, 1):
                    if fnmatch.fnmatch(a.split('-')[q], n) and fnmatch.\
                            fnmatch(s, b.split('-')[q]) and fnmatch.fnmatch(
                                n, a.split('-')[q]):
                        return True
            return False
        allowed = [w for w in want if used(w[0], w[1])]
        # the combination has to name the station
        if not any('*' in r for r in rc):
            c.check('channels of the combinations',
                    two.avail_raw_data == allowed,
                    (two.avail_raw_data, allowed))
        for w in allowed:
            c.check('named stations are there', w in two.avail_raw_data or
                    '*' in str(rc))
    else:
        c.check('channels', two.avail_raw_data == want,
                (two.avail_raw_data, want))
        c.check('stations', two.station == [list(x) for x in sorted({
            (n, s) for n, s, _ in want})], two.station)
    c.check('dv as before', same_times(given.pop('dv'), opt['dv']))
    c.check('options as before', given == keep, (given, keep))
    c.check('log of the options', logged(d))
    c.check('folder', two.corr_dir == os.path.join(d, 'corr') and
            os.path.isdir(two.corr_dir) and os.path.isdir(
                os.path.join(d, 'log')))
    c.check('settings', two.save_comps_separately == bool(sep) and
            two._allow_different_params == bool(differ) and two.sampling_rate == 25
            and two.rcombis == (None if rc == 'None' else rc))


@contract('C31', 'distance filter', [
    CC + 'Correlator.find_interstat_dist', MU + 'filter_stat_dist',
    MU + 'inv_calc_az_baz_dist', MU + 'trace_calc_az_baz_dist'],
    proof=False, cases=40, thorough=400, bound='up to 5 stations')
def distances(c):
    """exactly the pairs not further apart than the distance"""
    Inventory = c.ext('obspy', 'Inventory')
    from obspy.core.inventory import Network, Station
    from obspy.core import AttribDict
    import math
    n = c.int('n', 1, gen=(1, 5))
    pos = {('N%d' % (i % 2), 'S%d' % i): (
        c.real('la%d' % i, gen=(-80, 80)), c.real('lo%d' % i, gen=(-170, 170))
        if c.flag('far%d' % i) else c.real('ln%d' % i, gen=(0, 1)))
        for i in range(n)}
    pos = {k: (max(-89, min(89, a)), max(-179, min(179, b)))
           for k, (a, b) in pos.items()}

    def inv(k):
        return Inventory([Network(k[0], [Station(k[1], *pos[k], 0)])])

    class Client:
        def __init__(self):
            self.read = 0

        def read_inventory(self):
            self.read += 1

        def select_inventory_or_load_remote(self, net, sta):
            return inv((net, sta))
    K = c.fn(CC + 'Correlator')
    x = K.__new__(K)
    x.options = dict(combination_method='betweenStations')
    x.store_client, x.rcombis = Client(), None
    x.station = [list(k) for k in pos]

    def dist(a, b):
        """on a sphere, metres"""
        p, q = math.radians(a[0]), math.radians(b[0])
        dl = math.radians(b[1] - a[1])
        h = math.sin((q - p) / 2)**2 + math.cos(p) * math.cos(
            q) * math.sin(dl / 2)**2
        return 2 * 6371e3 * math.asin(min(1, math.sqrt(h)))
    thres = c.choice('thres', [1e3, 1e5, 1e6, 5e6, 2.1e7])
    x.find_interstat_dist(thres)
    ks = list(pos)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            d = dist(pos[a], pos[b])
            name = '%s-%s.%s-%s' % (a[0], b[0], a[1], b[1])
            if d < .99 * thres:
                c.check('near pair', name in x.rcombis, (name, d))
            elif d > 1.01 * thres:
                c.check('far pair', name not in x.rcombis, (name, d))
            az, baz, dd = c.fn(MU + 'inv_calc_az_baz_dist')(inv(a), inv(b))
            s = [AttribDict(stla=pos[k][0], stlo=pos[k][1]) for k in (a, b)]
            c.check('same from headers', c.fn(
                MU + 'trace_calc_az_baz_dist')(*s) == (az, baz, dd))
            c.check('distance', abs(dd - d) <= .01 * d + 1)
            back = c.fn(MU + 'inv_calc_az_baz_dist')(inv(b), inv(a))
            c.check('azimuths from either side', abs(
                back[0] - baz) % 360 < 1e-6 and abs(
                    back[1] - az) % 360 < 1e-6 and abs(
                        back[2] - dd) < 1e-3 + 1e-9 * dd
                    or dd < 1 or dd > 1.9e7, (az, baz, dd, back))
            if dd > 1e4 and dd < 1e6 and abs(pos[a][0]) < 70:
                # direction on the map
                dx = (pos[b][1] - pos[a][1]) * math.cos(math.radians(
                    (pos[a][0] + pos[b][0]) / 2))
                dy = pos[b][0] - pos[a][0]
                w = math.degrees(math.atan2(dx, dy)) % 360
                diff = abs((az - w + 180) % 360 - 180)
                c.check('azimuth', diff < 20, (az, w))
    for other in x.rcombis:
        a, b = [k for k in zip(other.split('.')[0].split('-'),
                               other.split('.')[1].split('-'))]
        c.check('pair of stations', a in pos and b in pos)
    c.expect_raises(ValueError, lambda: x.find_interstat_dist(1.),
                    'combinations given')
    y = K.__new__(K)
    y.options, y.rcombis = dict(combination_method='autoComponents'), None
    c.expect_raises(ValueError, lambda: y.find_interstat_dist(1.),
                    'other methods')
    for f in ('inv_calc_az_baz_dist', 'trace_calc_az_baz_dist'):
        c.expect_raises(TypeError, lambda: c.fn(MU + f)(1, 2), 'types')


@contract('C31', 'monitoring run', [
    MM + 'Monitor.__init__', MM + 'Monitor._starttimes_list',
    MM + 'Monitor._find_available_corrs'], proof=False, cases=20,
    thorough=100, bound='a few time lists')
def monitor(c):
    import sys
    d = c.tmpdir()
    inc = c.choice('inc', [1800, 3600, 86400])
    win = c.choice('win', [1800, 7200, 86400])
    dv = dict(subdir='vel', start_date='2015-05-01 00:00:00.0',
              end_date=c.choice('end', ['2015-05-01 12:00:00.0',
                                        '2015-05-03 00:00:00.0']),
              date_inc=inc, win_len=win)
    opt = dict(proj_dir=d, log_subdir='log', log_level='WARNING',
               net=dict(network='*', station='*', component='*'),
               co=dict(subdir='corr', combination_method='autoComponents'),
               dv=dv)
    if c.flag('pre'):
        opt['co']['preProcessing'] = c.choice('empty', [None, [], [dict(
            function='x.stream_mask_at_utc', args=dict(starts=[
                c.ext('obspy', 'UTCDateTime')(0)]))]])
    with_times(c, opt)
    sep = c.choice('separately', [None, True, False])
    if sep is not None:
        opt['save_comps_separately'] = sep
    keep = deepcopy(opt)
    use = opt
    if c.flag('options in a file') and not opt['co'].get(
            'preProcessing') and 'preprocessing' not in dv:
        import yaml
        use = os.path.join(d, 'params.yaml')
        with open(use, 'w') as f:
            yaml.dump(opt, f)
    asked = []
    c.patch(MM + 'corr_find_filter', lambda *a, **k: asked.append((a, k)) or (
        ['n'], ['s'], ['f']))
    err, sys.stderr = sys.stderr, open(os.devnull, 'w')
    try:
        m = quiet(lambda: c.fn(MM + 'Monitor')(use))
    finally:
        sys.stderr.close()
        sys.stderr = err
        close_logs()
    UTC = c.ext('obspy', 'UTCDateTime')
    a, e = UTC(dv['start_date']), UTC(dv['end_date'])
    k, want = 0, []
    while a + k * inc < e and a + k * inc + win <= e + inc:
        want.append(a + k * inc)
        k += 1
    c.check('windows', list(m.starttimes[:1]) == [a] and all(
        y - x == inc for x, y in zip(m.starttimes, m.starttimes[1:])) and
        all(y - x == win for x, y in zip(m.starttimes, m.endtimes)) and
        len(m.starttimes) == len(m.endtimes))
    c.check('range', max(m.starttimes) < e and max(m.starttimes) + inc >= min(
        e, max(m.starttimes) + inc))
    c.check('folders', m.outdir == os.path.join(d, 'vel') and m.indir ==
            os.path.join(d, 'corr') and os.path.isdir(m.outdir))
    c.check('log of the options', logged(d))
    c.check('files of single components', m.save_comps_separately ==
            bool(sep))
    c.check('dv as before', same_times(opt['dv'], keep['dv']))
    for o in (opt, keep, asked[0][1]):
        o['dv'] = None
    c.check('correlations', asked[0][0] == (m.indir,) and asked[0][1] == keep
            and m.netlist == ['n'] and m.statlist == ['s'] and m.infiles
            == ['f'], asked)
    c.check('options as before', opt == keep)


@contract('C31', 'small tools', [
    'seismic.utils.fetch_func_from_str:func_from_str',
    MU + 'trim_stream_delta', MU + 'trim_trace_delta',
    MU + 'stream_require_dtype', MU + 'correct_polarity'],
    proof=False, cases=40, thorough=300, bound='two traces of 50 samples')
def tools(c):
    import numpy as np
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    Trace = c.ext('obspy', 'Trace')
    fn = c.fn('seismic.utils.fetch_func_from_str:func_from_str')
    name = c.choice('name', ['obspy.core.util.AttribDict', 'os.path.join',
                             'numpy.fft.rfft'])
    mod, _, attr = name.rpartition('.')
    import importlib
    c.check('function', fn(name) is getattr(importlib.import_module(mod),
                                            attr))
    c.expect_raises(TypeError, lambda: fn(3), 'no string')
    st = Stream([Trace(np.arange(50.) * (i + 1), header=dict(
        station='S%d' % i, channel='HH' + 'ZN'[i], sampling_rate=2,
        starttime=UTC(2015, 1, 1) + 3 * i)) for i in range(2)])
    a, b = c.int('a', 0, gen=(0, 9)), c.int('b', 0, gen=(0, 9))
    out = c.fn(MU + 'trim_stream_delta')(st.copy(), a, b)
    for x, y in zip(st, out):
        c.check('trimmed', y.stats.starttime == x.stats.starttime + a and
                y.stats.endtime == x.stats.endtime - b and np.array_equal(
                    y.data, x.data[2 * a:50 - 2 * b]))
    s2 = st.copy()
    t = c.choice('dtype', [np.float32, np.int32])
    c.fn(MU + 'stream_require_dtype')(s2, t)
    c.check('type', all(x.data.dtype == t and np.allclose(
        x.data, y.data) for x, y in zip(s2, st)))
    s3 = st.copy()
    dip = c.choice('dip', [-90, 90, 10, 0])
    c.fn(MU + 'correct_polarity')(s3, Orientation({s3[0].id: dip}))
    c.check('polarity', np.array_equal(s3[0].data, st[0].data * (
        -1 if dip > 0 else 1)) and np.array_equal(s3[1].data, st[1].data))
    # sensors that have been changed
    I = 'obspy.core.inventory'  # noqa
    turn = st[0].stats.starttime + c.choice('changed', [-1e5, 1e5, 3e5])
    dips = c.choice('dips', [(-90., 90.), (90., -90.), (90., 90.)])
    inv = c.ext(I, 'Inventory')(networks=[c.ext(I, 'Network')(
        st[0].stats.network, stations=[c.ext(I, 'Station')(
            'S0', 0, 0, 0, channels=[c.ext(I, 'Channel')(
                'HHZ', '', 0, 0, 0, 0, azimuth=0., dip=d, start_date=a,
                end_date=b) for d, a, b in zip(
                    dips, (turn - 1e7, turn), (turn, turn + 1e7))])])])
    s4 = Stream([st[0].copy() for _ in range(3)])
    for i, k in enumerate((0, 2e5, 4e5)):
        s4[i].stats.starttime += k
    c.fn(MU + 'correct_polarity')(s4, inv)
    for tr in s4:
        c.check('polarity of the time', np.array_equal(
            tr.data, st[0].data * (-1 if dips[
                int(tr.stats.starttime > turn)] > 0 else 1)))


@contract('C31', 'windows of a run', [
    CC + 'Correlator._generate_data'], proof=False, cases=60, thorough=500,
    note='preprocess_stream, find_existing_times as contracts',
    bound='up to 4 traces of 240 s, up to 4 processes')
def run_windows(c):
    """every process gets the same windows: those of the prepared data of
    all stations, read once each, with the pairs that have to be computed"""
    import numpy as np
    from .mpi import run_ranks, correlator
    from .c30_mpi import make_data, pipe_options, Client
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    raw_sr = c.choice('raw rate', [5., 10., 100.])
    sr = 5.
    t0, st, raw = make_data(c, np, raw_sr)
    c.assume(len(st) > 0)
    sub = c.flag('subdiv')
    opt = pipe_options(c, t0, sr, 240, sub)
    opt['read_inc'] = c.choice('read inc', [opt['read_len'], 240, 60])
    opt['extra'] = 'something of the user'
    ex = {}
    if c.flag('existing'):
        ids = [st[c.int('e%d' % k, 0, gen=(0, 9)) % len(st)].stats
               for k in range(2)]
        ids.sort(key=lambda s: (s.network, s.station, s.channel))
        ex = {'%s.%s' % (ids[0].network, ids[0].station): {
            '%s.%s' % (ids[1].network, ids[1].station): {
                '%s-%s' % (ids[0].channel, ids[1].channel): [
                    (t0 + opt['subdivision']['corr_inc'] * k
                     ).format_fissures() for k in range(8)
                    if c.flag('done%d' % k)]}}}
    asked, prepared = [], []
    first = {}
    tl = threading_local()

    class Client_(Client):
        def _load_local(self, *a):
            asked.append(a)
            return Client._load_local(self, *a)

    def prepare(st, client, a, b, taper, **k):
        prepared.append((tl.rank, sorted(tr.id for tr in st), a, b, taper,
                         k.get('extra'), client))
        for tr in st:
            c.check('type and rate', tr.data.dtype == np.float32 and
                    tr.stats.sampling_rate == sr)
            first.setdefault(tr.id, {}).update(masked(tr))
        if a.timestamp in bad and len(st):
            raise ValueError('cannot be prepared')
        if a.timestamp in empty:
            return Stream()
        st = st.copy()
        st.merge()
        st.trim(a, b, pad=True)
        for tr in st:
            tr.data = tr.data * 2
        return st
    bad = [(t0 + 30. * k).timestamp for k in range(8)
           if not c.int('bad%d' % k, 0, gen=(0, 6))]
    empty = [(t0 + 30. * k).timestamp for k in range(8)
             if not c.int('empty%d' % k, 0, gen=(0, 6))]
    rcombis = None
    if opt['combination_method'] == 'betweenStations' and c.flag(
            'certain pairs'):
        q = sorted({tuple(r[:2]) for r in raw})
        rcombis = ['%s-%s.%s-%s' % (x[0], y[0], x[1], y[1])
                   for i, x in enumerate(q) for y in q[i + 1:]
                   if c.flag('pair%s.%s-%s.%s' % (x + y))]
    c.patch(CC + 'preprocess_stream', prepare)
    c.patch(CC + 'Correlator.find_existing_times',
            lambda self, tag, *a: deepcopy(ex) if tag == 'subdivision'
            else None)
    c.patch(CC + 'tqdm', lambda x: x)
    client = Client_(st)

    def run(comm):
        tl.rank = comm.Get_rank()
        x = correlator(c, comm, deepcopy(opt), sr, store_client=client,
                       avail_raw_data=[list(r) for r in raw], rcombis=rcombis)
        out = []
        for w, flag in x._generate_data():
            out.append(([(t.id, t.stats.starttime, t.stats.npts, masked(t))
                         for t in w], flag,
                        [tuple(int(i) for i in p)
                         for p in x.options['combinations']]))
        return out
    P = c.int('processes', 1, gen=(1, 4))
    outs = quiet(lambda: run_ranks(P, run))
    out = outs[0]
    for o in outs[1:]:
        c.check('same windows on all processes', o == out)
    reads = [UTC(t) for t in np.arange(
        t0.timestamp, t0.timestamp + 240, opt['read_inc'])]
    c.check('every channel is read once per time', sorted(
        (a[0], a[1], a[2], a[3], a[4].timestamp, a[5].timestamp)
        for a in asked) == sorted(
            (r[0], r[1], '*', r[2], t.timestamp,
             t.timestamp + opt['read_len']) for r in raw for t in reads),
        asked)
    inc, ln = (opt['subdivision'][k] for k in ('corr_inc', 'corr_len'))
    after = bool(sub and ex)
    c.check('preparation', all(
        p[4] == 20 and p[5] == 'something of the user' and p[6] is client
        and (p[3] - p[2] == (ln if after else opt['read_len']))
        for p in prepared))
    calc = c.fn(CC + 'calc_cross_combis')
    f = c.fn(MU + 'resample_or_decimate')
    want = []
    for t in reads:
        if not after and t.timestamp in bad + empty:
            continue
        x = st.slice(t, t + opt['read_len']).copy()
        have = {}
        for tr in x:
            tr = f(tr, sr)
            tr.data = tr.data.astype(np.float32)
            have.setdefault(tr.id, {}).update(masked(tr))
        flag = True
        for k in range(-(-opt['read_len'] // inc)):
            a = t + k * inc
            i0 = round(a.timestamp * sr)
            w = []
            for code in sorted(have, key=lambda i: i.split('.')):
                d = {i: v for i, v in have[code].items()
                     if i0 <= i < i0 + ln * sr}
                if d:
                    w.append((code, d))
            fake = Stream([c.ext('obspy', 'Trace')(header=dict(zip(
                ('network', 'station', 'location', 'channel'),
                code.split('.')), starttime=a)) for code, d in w])
            comb = calc(fake, ex, opt['combination_method'],
                        rcombis=rcombis)
            used = sorted({i for p in comb for i in p})
            if not used:
                continue
            if after and a.timestamp in bad + empty:
                continue
            comb = [tuple(used.index(i) for i in p) for p in comb]
            want.append((a, [w[i] for i in used], flag, comb))
            flag = False
    c.check('windows', [o[0][0][1] for o in out] == [w[0] for w in want],
            ([o[0][0][1] for o in out], [w[0] for w in want]))
    for (tr, flag, comb), (a, w, flag2, comb2) in zip(out, want):
        c.check('first window of a read', flag is flag2)
        c.check('pairs', comb == comb2, (comb, comb2))
        c.check('traces', [t[0] for t in tr] == [code for code, d in w])
        c.check('time and length', all(
            t[1] == a and t[2] == tr[0][2] for t in tr))
        for t, (code, d) in zip(tr, w):
            c.check('samples', t[3].keys() == d.keys() and np.allclose(
                [t[3][i] for i in d], [2 * d[i] for i in d], rtol=1e-4,
                atol=1e-4), (code, a))


def threading_local():
    import threading
    return threading.local()
