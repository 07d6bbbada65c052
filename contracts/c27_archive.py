"""C27 the waveform archive returns what was put into it."""
import datetime
import os
import warnings

from .common import contract

W = 'seismic.trace_data.waveform:'
SC = W + 'Store_Client.'
DAY = 86400


class Remote:
    """remote data centre: a list of traces, and a record of the requests"""

    def __init__(self, traces, none):
        self.traces, self.none, self.calls = traces, none, []
        self.inv = 0

    def get_waveforms(self, *a, **k):
        self.calls.append((a, k))
        net, sta, loc, cha, start, end = a[:6]
        from obspy import Stream
        st = Stream([t.copy() for t in self.traces]).select(
            network=net, station=sta, location=loc, channel=cha)
        st.trim(start, end)
        if not len(st):
            raise self.none('no data')
        return st

    def get_stations(self, *a, **k):
        self.inv += 1
        return inventory()


def inventory(cha='HHZ'):
    from obspy import Inventory, UTCDateTime as UTC
    from obspy.core.inventory import Network, Station, Channel
    from obspy.core.inventory.response import Response
    return Inventory([Network('AA', [Station('S1', 1, 2, 3, channels=[
        Channel(cha, '00', 1, 2, 3, 0, start_date=UTC(2000, 1, 1),
                response=Response())])])], source='x')


def samples(st, off=0):
    """{channel: {time in units of the sampling interval: value}}"""
    import numpy as np
    out = {}
    for tr in st:
        d = out.setdefault(tr.id, {})
        data = np.ma.asarray(tr.data)
        for i in range(tr.stats.npts):
            if np.ma.getmaskarray(data)[i]:
                continue
            d[round((tr.stats.starttime.timestamp - off) / tr.stats.delta)
              + i] = int(data[i])
    return {k: v for k, v in out.items() if v}


def recorded(c, delta, t0, code=('AA', 'S1', '00', 'HHZ'), n=4, span=3,
             off=0):
    """pieces of a record: the sample values depend on the time only"""
    import numpy as np
    Trace, UTC = c.ext('obspy', 'Trace'), c.ext('obspy', 'UTCDateTime')
    days = span * DAY // delta
    first = round(t0.timestamp / delta)
    out = []
    for k in range(c.int('pieces', 1, gen=(1, n))):
        a = c.int('a%d' % k, 0, gen=(0, days))
        m = c.int('m%d' % k, 2, gen=(2, days // 2))
        if c.flag('midnight%d' % k):
            a = a // (DAY // delta) * (DAY // delta)
        tr = Trace(((first + a + np.arange(m)) % 9973).astype(np.int32),
                   header=dict(zip(('network', 'station', 'location',
                                    'channel'), code),
                               delta=float(delta),
                               starttime=UTC((first + a) * float(delta) + off)))
        out.append(tr)
    return out


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def start(c):
    UTC = c.ext('obspy', 'UTCDateTime')
    return c.choice('t0', [UTC(2015, 12, 30), UTC(2016, 2, 28),
                           UTC(2015, 2, 27), UTC(2017, 12, 31),
                           UTC(2016, 5, 5)])


def store(c, client=None, **k):
    return c.fn(W + 'Store_Client')(client, c.tmpdir(), **k)


@contract('C27', 'archive holds every sample written', [
    SC + '_write_local_data', SC + '_sds_write', SC + '_load_local',
    SC + 'get_waveforms', SC + '_generate_time_windows', SC + '_get_times',
    W + 'get_day_in_folder', SC + '__init__'],
    proof=False, cases=30, thorough=400,
    bound='record of up to 4 pieces of up to 36 h with gaps, overlaps and '
          'day and year borders, written in up to 4 calls')
def archive(c):
    import glob
    import numpy as np
    Stream = c.ext('obspy', 'Stream')
    read = c.ext('obspy', 'read')
    sc = store(c)
    delta = c.choice('delta', [60, 600, 1200])
    t0 = start(c)
    # the samples need not be at full minutes
    off = c.choice('off', [0, 0, delta // 4, delta * 3 // 4])
    pieces = recorded(c, delta, t0, off=off)
    want = samples(pieces, off)
    given = [p.copy() for p in pieces]
    if c.flag('one call'):
        quiet(lambda: sc._write_local_data(Stream(pieces)))
    else:
        for p in pieces:
            quiet(lambda: sc._write_local_data(Stream([p])))
    c.check('traces as before', all(
        a.stats == b.stats and np.array_equal(a.data, b.data)
        for a, b in zip(given, pieces)))
    code = ('AA', 'S1', '00', 'HHZ')
    got = quiet(lambda: sc.get_waveforms(
        *code, t0 - DAY, t0 + 6 * DAY, _check_times=False))
    c.check('all samples', samples(got, off) == want)
    first = t0 + off + c.int('from', 0, gen=(
        0, 3 * DAY // delta)) * delta
    last = first + c.int('length', 0, gen=(1, 3 * DAY // delta)) * delta
    got = samples(quiet(lambda: sc.get_waveforms(
        *code, first, last, _check_times=False)), off)
    part = {t: v for t, v in want['AA.S1.00.HHZ'].items()
            if round((first - off).timestamp / delta) <= t <= round(
                (last - off).timestamp / delta)}
    c.check('samples of the request', got.get('AA.S1.00.HHZ', {}) == part,
            (first, last, sorted(part)[:3], sorted(got.get(
                'AA.S1.00.HHZ', {}))[:3]))
    # placement: one file per day
    files = glob.glob(os.path.join(sc.sds_root, '*', '*', '*', '*', '*'))
    UTC = c.ext('obspy', 'UTCDateTime')
    perday = DAY // delta
    for f in files:
        year, _, _, _, name = f.split(os.sep)[-5:]
        c.check('file name', name.startswith('AA.S1.00.HHZ.D.%s.' % year),
                name)
        d0 = round(UTC(year=int(year), julday=int(
            name.split('.')[-1])).timestamp / delta)
        st = read(f)
        for ts in samples(st, off).values():
            c.check('day of the file', all(
                d0 <= t + off / delta <= d0 + perday for t in ts), f)
            c.check('every sample once', len(ts) == sum(
                x.stats.npts for x in st), f)
    # first and last day
    begin, end = quiet(lambda: sc._get_times('AA', 'S1'))
    ts = sorted(want['AA.S1.00.HHZ'])
    d = ts[0] // perday * perday * delta
    c.check('first day', begin.timestamp == d, (begin, d))
    # a sample at midnight sits in both day files
    d1 = ((ts[-1] // perday) + 1) * perday * delta
    d2 = (((ts[-1] - (off == 0)) // perday) + 1) * perday * delta
    c.check('last day', d2 <= end.timestamp <= d1, (end, d1))
    # time windows
    inc = c.choice('inc', [DAY, DAY // 2, 7200])
    t0 = t0 + off
    stop = t0 + c.int('hours', 1, gen=(1, 70)) * 3600
    wins = list(quiet(lambda: list(sc._generate_time_windows(
        'AA', 'S1', 'HHZ', t0, stop, inc))))
    c.check('number of windows', len(wins) == -(-round(stop - t0) // inc),
            (len(wins), stop - t0, inc))
    for k, st in enumerate(wins):
        a = round((t0 - off + k * inc).timestamp / delta)
        b = round((t0 - off + (k + 1) * inc).timestamp / delta)
        c.check('samples of a window', samples(st, off).get(
            'AA.S1.00.HHZ', {}) == {
                t: v for t, v in want['AA.S1.00.HHZ'].items()
                if a <= t <= b}, (k, inc))


@contract('C27', 'request', [SC + 'get_waveforms', SC + '_load_remote',
                             SC + '_load_local'],
          proof=False, cases=30, thorough=400,
          bound='gapless local and remote records of up to 3 days')
def request(c):
    Stream = c.ext('obspy', 'Stream')
    none = c.ext('seismic.trace_data.waveform', 'FDSNNoDataException')
    delta, t0 = 600, start(c)
    span = 3 * DAY // delta
    code = ('AA', 'S1', c.choice('loc', ['00', '']), 'HHZ')
    name = '.'.join(code)
    full = recorded(c, delta, t0, code, 1)
    tr = full[0]
    n = tr.stats.npts
    import numpy as np
    # several channels remotely
    others = []
    for ch in ['HHN', 'HHE']:
        o = tr.copy()
        o.stats.channel = ch
        o.data = o.data + 1
        others.append(o)
    remote = Remote([tr] + others, none)
    readonly = c.flag('read only')
    root = c.tmpdir()
    sc = c.fn(W + 'Store_Client')(remote, root)
    local = c.choice('local', ['none', 'all', 'part'])
    a0, a1 = 0, n
    if local == 'part':
        a0 = c.int('a0', 0, gen=(0, n - 2))
        a1 = c.int('a1', 0, gen=(a0 + 2, n))
    if local != 'none':
        cut = tr.copy()
        cut.data = cut.data[a0:a1]
        cut.stats.starttime = tr.stats.starttime + a0 * delta
        quiet(lambda: sc._write_local_data(Stream([cut])))
    else:
        a1 = 0
    sc = c.fn(W + 'Store_Client')(remote, root, read_only=readonly)
    i = c.int('i', 0, gen=(0, n - 2))
    j = c.int('j', 0, gen=(i + 1, n - 1))
    if local == 'part':
        # just beyond one of the ends
        i = c.choice('first', [i, max(0, a0 - 2), max(0, a0 - 1), a0])
        j = max(i + 1, c.choice('last', [j, min(n - 1, a1 + 1), a1 - 1]))
    s, e = tr.stats.starttime + i * delta, tr.stats.starttime + j * delta
    before = sorted(os.listdir(sc.sds_root))
    resp = c.flag('response')
    got = quiet(lambda: sc.get_waveforms(*code, s, e, resp))
    # the request is served locally if the local data cover it (up to one
    # sample at either end)
    there = local != 'none' and a1 > a0 and i >= a0 - 1 and j <= a1
    inside = there and i >= a0 and j <= a1 - 1
    if inside:
        c.check('served locally', remote.calls == [] and remote.inv == 0,
                remote.calls)
    if not there:
        c.check('asked remotely', len(remote.calls) == 1 and tuple(
            remote.calls[0][0][:4]) == code and tuple(
                remote.calls[0][0][4:6]) == (s, e), remote.calls)
    if inside or not there:
        first = round(tr.stats.starttime.timestamp / delta)
        want = {first + k: int(tr.data[k]) for k in range(i, j + 1)}
        have = samples(got)
        c.check('samples', have == {name: want}, (have.keys()))
        if not there:
            again = samples(quiet(lambda: sc._load_local(
                *code, s, e, False, False)))
            if readonly:
                c.check('read only', sorted(os.listdir(
                    sc.sds_root)) == before)
            else:
                c.check('kept locally', all(
                    again[name].get(t) == v for t, v in want.items()))
    # nothing anywhere
    remote.calls.clear()
    far = tr.stats.starttime + 400 * DAY
    got = quiet(lambda: sc.get_waveforms(*code, far, far + DAY))
    c.check('no data', len(got) == 0 and len(remote.calls) == 1)
    # one channel at a time
    k = c.choice('wild at', [0, 1, 2, 3])
    wild = list(code)
    wild[k] = c.choice('wild', ['*', '?', 'H*', 'A?'])
    c.expect_raises(AssertionError, lambda: quiet(
        lambda: sc.get_waveforms(*wild, s, e)), 'wildcard request')


@contract('C27', 'request without local response', [
    SC + '_load_remote', SC + '_write_inventory', SC + '__init__',
    SC + '_load_local', SC + 'select_inventory_or_load_remote'],
          proof=False, cases=6, thorough=20, bound='one channel')
def response(c):
    """remote data come with the inventory, which is kept"""
    none = c.ext('seismic.trace_data.waveform', 'FDSNNoDataException')
    t0 = start(c)
    tr = recorded(c, 600, t0, n=1)[0]
    remote = Remote([tr], none)
    asked = []
    ninv = inventory()

    def stations(**k):
        asked.append(k)
        return ninv
    remote.get_stations = stations
    sc = store(c, remote)
    att = c.flag('attach')
    got = quiet(lambda: sc.get_waveforms(
        'AA', 'S1', '00', 'HHZ', tr.stats.starttime, tr.stats.endtime, att))
    c.check('one inventory request', len(asked) == 1 and
            asked[0]['network'] == 'AA' and asked[0]['station'] == 'S1' and
            asked[0]['channel'] == 'HHZ' and asked[0][
                'starttime'] == tr.stats.starttime and asked[0][
                    'endtime'] == tr.stats.endtime, asked)
    c.check('response attached', not att or 'response' in got[0].stats)
    c.check('inventory kept', os.listdir(sc.inv_dir) == ['AA.S1.xml'])
    # another channel of the station
    other = tr.copy()
    other.stats.channel = 'HHN'
    remote.traces.append(other)
    ninv = inventory('HHN')
    quiet(lambda: sc.get_waveforms(
        'AA', 'S1', '00', 'HHN', tr.stats.starttime, tr.stats.endtime, att))
    c.check('second inventory request', len(asked) == 2 and asked[1][
        'channel'] == 'HHN', asked)
    asked.pop()
    again = c.fn(W + 'Store_Client')(remote, os.path.dirname(sc.sds_root))
    c.check('inventory read', {x.code for x in again.inventory} == {
        'AA'} and {ch.code for x in again.inventory for y in x for ch in y}
        == {'HHZ', 'HHN'}, again.inventory)
    n = len(remote.calls)
    loc = quiet(lambda: again.get_waveforms(
        'AA', 'S1', '00', 'HHZ', tr.stats.starttime, tr.stats.endtime, att))
    c.check('response of local data', len(remote.calls) == n and all(
        ('response' in t.stats) == att for t in loc), (att, loc))
    sel = again.select_inventory_or_load_remote('AA', 'S1')
    c.check('inventory found', len(sel) > 0 and len(asked) == 1)
    again.select_inventory_or_load_remote('AA', 'S9')
    c.check('inventory asked for', len(asked) == 2)


@contract('C27', 'what the archive offers', [
    SC + 'get_available_stations', SC + '_translate_wildcards',
    SC + '_get_times', W + 'get_day_in_folder', SC + '_get_mseed_storage'],
    proof=False, cases=40, thorough=400,
    bound='up to 3 networks, 3 stations, 3 channels, 3 years')
def offers(c):
    import fnmatch
    UTC = c.ext('obspy', 'UTCDateTime')
    sc = store(c)
    have = set()
    for k in range(c.int('files', 0, gen=(0, 8))):
        have.add((c.choice('y%d' % k, [1999, 2015, 2016]),
                  c.choice('n%d' % k, ['AA', 'AB', 'B1']),
                  c.choice('s%d' % k, ['S1', 'S2', 'T']),
                  c.choice('c%d' % k, ['HHZ', 'HHN', 'BHZ']),
                  c.choice('d%d' % k, [1, 9, 10, 99, 100, 200, 365])))
    for y, n, s, ch, d in have:
        out = sc._get_mseed_storage(n, s, '00', ch, UTC(
            year=y, julday=d) + 5, UTC(year=y, julday=d) + c.choice(
                'until', [50, DAY]))
        want = os.path.join(sc.sds_root, str(y), n, s, ch + '.D',
                            '%s.%s.00.%s.D.%d.%03d' % (n, s, ch, y, d))
        c.check('file of a day', out == want, (out, want))
        os.makedirs(os.path.dirname(want), exist_ok=True)
        open(want, 'w').close()
        c.check('file there', sc._get_mseed_storage(
            n, s, '00', ch, UTC(year=y, julday=d), UTC(
                year=y, julday=d)) is True)
    if c.flag('other folders'):
        for x in ('info', 'a000', 'zzzz', '20_5'):
            os.makedirs(os.path.join(sc.sds_root, x, 'AA', 'S1', 'x'))
    if c.flag('empty folders'):
        for y in (1998, 2017):
            os.makedirs(os.path.join(sc.sds_root, str(y), 'AA', 'E1',
                                     'HHZ.D'))
        for _, n, s, ch, _ in sorted(have):
            for y in (1997, 2017):
                os.makedirs(os.path.join(sc.sds_root, str(y), n, s,
                                         ch + '.D'), exist_ok=True)
    empty = {('AA', 'E1')} if os.path.isdir(os.path.join(
        sc.sds_root, '1998')) else set()
    net = c.choice('net', [None, '*', 'A*', 'AA', 'B?', 'ZZ'])
    want = {(n, s) for _, n, s, _, _ in have} | empty
    want = {p for p in want if fnmatch.fnmatch(p[0], net or '*')}
    if want:
        got = sc.get_available_stations(net)
        c.check('stations', sorted(map(tuple, got)) == sorted(want),
                (got, want))
    else:
        c.expect_raises(FileNotFoundError, lambda:
                        sc.get_available_stations(net), 'no stations')
    sta = c.choice('sta', ['*', 'S?', 'T', 'Q'])
    comp = c.choice('comp', ['?', 'Z', 'N'])
    got = sc._translate_wildcards(net or '*', sta, comp)
    want = {(n, s, ch) for _, n, s, ch, _ in have
            if fnmatch.fnmatch(n, net or '*') and fnmatch.fnmatch(s, sta)
            and ch.endswith(comp.replace('?', ''))}
    if comp != 'N' and fnmatch.fnmatch('AA', net or '*') and fnmatch.fnmatch(
            'E1', sta):
        want |= {('AA', 'E1', 'HHZ')} if empty else set()
    c.check('channels', set(map(tuple, got)) == want, (got, want))
    # times
    n, s = c.choice('n', ['AA', 'AB', 'B1']), c.choice(
        's', ['S1', 'S2', 'E1', 'Q'])
    days = sorted((y, d) for y, a, b, _, d in have if (a, b) == (n, s))
    got = quiet(lambda: sc._get_times(n, s))
    if not days:
        c.check('no times', tuple(got) == (None, None), got)
    else:
        c.check('times', got[0] == UTC(
            year=days[0][0], julday=days[0][1]) and got[1] == UTC(
                year=days[-1][0], julday=days[-1][1]) + DAY, (got, days))


STRUCTURES = [
    (lambda r: r, None, 'day'),
    (lambda r: [r, '%Y', '%m', ['%NET', '.', '%sta', '-', '%d']],
     lambda t: (t.strftime('%Y'), t.strftime('%m'),
                'AA.s1-' + t.strftime('%d')), 'day'),
    (lambda r: [r, ['%NET', '_', '%STA'], ["%CHA('HH','')", '.', '%Y',
                                           '-', '%b']],
     lambda t: ('AA_S1', 'Z.' + t.strftime('%Y-%b')), 'month'),
    (lambda r: [r, '%net', ['%STA', '.', '%Y', '.mseed']],
     lambda t: ('aa', 'S1.' + t.strftime('%Y') + '.mseed'), 'year'),
    (lambda r: [r, '%Y', '%j', ['%CHA', '.', '%LOC', '.', '%H']],
     lambda t: (t.strftime('%Y'), t.strftime('%j'),
                'HHZ.00.' + t.strftime('%H')), 'hour'),
    (lambda r: [r, ['%STA', '.', '%cha']],
     lambda t: ('S1.hhz',), 'all'),
    (lambda r: [r, '%Y', '%STA', ["%CHA('Z','')", '-', '%W']],
     lambda t: (t.strftime('%Y'), 'S1', t.strftime('HH-%W')), 'week'),
    (lambda r: [r, ['%Y', '%STA', '.', '%LOC', ], ['%U', '.', '%cha']],
     lambda t: (t.strftime('%YS1.00'), t.strftime('%U.hhz')), 'week'),
    (lambda r: [r, ['%NET', '.', '%y', '%m', '%d'], ['%CHA', '%p']],
     lambda t: (t.strftime('AA.%y%m%d'), t.strftime('HHZ%p')), 'half'),
    (lambda r: [r, '%Y', ['%STA', '.*.', '%CHA']],
     lambda t: (t.strftime('%Y'), t.strftime('S1.%j.HHZ')), 'week'),
    (lambda r: [r, ['%y', '%j'], ['%p', '.', '%net', '%I']],
     lambda t: (t.strftime('%y%j'), t.strftime('%p.aa%I')), 'hour'),
]


@contract('C27', 'file system client', [
    W + 'FS_Client.get_waveforms', W + 'read_from_filesystem',
    W + '_read_filepattern', W + '_adjacent_filepattern',
    W + '_current_filepattern', W + '_fs_translate', W + '_shift_months'],
    proof=False, cases=60, thorough=600,
    bound='eleven file structures (SDS, day, month, year, week, hour, half '
          'day, one file) and a gapless record of a few files')
def filesystem(c):
    import numpy as np
    Trace, UTC = c.ext('obspy', 'Trace'), c.ext('obspy', 'UTCDateTime')
    root = c.tmpdir()
    k = c.choice('structure', list(range(len(STRUCTURES))))
    fs, path, unit = STRUCTURES[k]
    if path is None:
        path = lambda t: (t.strftime('%Y'), 'AA', 'S1', 'HHZ.D',
                          t.strftime('AA.S1.00.HHZ.D.%Y.%j'))
    t0 = c.choice('t0', [UTC(2015, 12, 30, 22), UTC(2016, 2, 28),
                         UTC(2015, 1, 28), UTC(2016, 5, 30),
                         UTC(2017, 3, 31), UTC(2015, 12, 25),
                         UTC(2016, 12, 24)])
    delta = {'day': 600, 'month': 43200, 'year': 43200, 'hour': 60,
             'all': 600, 'week': 7200, 'half': 900}[unit]
    n = c.int('n', 10, gen=(100, 400)) if unit != 'year' else c.int(
        'n', 10, gen=(800, 1600))
    first = round(t0.timestamp / delta)
    # a file may start a little after the border of its day (hour, ...)
    late = c.int('late', 0, gen=(0, 3))
    files = {}
    for i in range(n):
        t = UTC((first + i - late) * float(delta))
        files.setdefault(path(t), []).append(first + i)
    for name, ts in files.items():
        f = os.path.join(root, *name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        Trace((np.array(ts) % 9973).astype(np.int32), header=dict(
            network='AA', station='S1', location='00', channel='HHZ',
            delta=float(delta), starttime=UTC(ts[0] * float(delta)))).write(
                f, format='MSEED')
    i = c.int('i', 0, gen=(0, n - 2))
    if c.flag('starts with a file'):
        i = min(n - 2, c.choice('file', [
            ts[0] - first for ts in files.values()]))
    j = c.int('j', 0, gen=(i + 1, n - 1))
    s, e = UTC((first + i) * float(delta)), UTC((first + j) * float(delta))
    cl = c.fn(W + 'FS_Client')(fs(root))
    trim = c.flag('trim')
    st = quiet(lambda: cl.get_waveforms('AA', 'S1', '00', 'HHZ', s, e,
                                        **({} if trim and c.flag('default')
                                           else dict(trim=trim))))
    got = samples(st).get('AA.S1.00.HHZ', {})
    want = {first + x: (first + x) % 9973 for x in range(i, j + 1)}
    c.check('one trace', len(st) == 1, len(st))
    if trim:
        c.check('samples of the request', got == want, (
            s, e, len(got), len(want)))
    else:
        # whole files, but no file beyond the request
        most = {t for ts in files.values() if ts[0] <= first + j and
                ts[-1] >= first + i for t in ts}
        c.check('samples of the request', all(
            got.get(t) == v for t, v in want.items()) and all(
                v == t % 9973 for t, v in got.items()), (s, e, len(got)))
        c.check('files of the request', set(got) <= most)
        c.check('whole files', set(got) == most)


@contract('C27', 'read-only archive', [SC + '__init__', SC + '_load_remote',
                                       SC + '_write_inventory'],
          proof=False, cases=6, thorough=20, bound='one channel')
def readonly(c):
    none = c.ext('seismic.trace_data.waveform', 'FDSNNoDataException')
    tr = recorded(c, 600, start(c), n=1)[0]
    root = c.tmpdir()
    os.makedirs(os.path.join(root, 'mseed'))
    if c.flag('with inventory'):
        os.makedirs(os.path.join(root, 'inventory'))
    before = sorted(os.walk(root))
    sc = c.fn(W + 'Store_Client')(Remote([tr], none), root, read_only=True)
    got = quiet(lambda: sc.get_waveforms(
        'AA', 'S1', '00', 'HHZ', tr.stats.starttime, tr.stats.endtime))
    c.check('samples', samples(got) == samples([tr]))
    c.check('nothing written', sorted(os.walk(root)) == before)
