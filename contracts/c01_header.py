"""C01 correlation headers keep a consistent time axis."""
from .common import contract, corr_header, STATS

CS = [STATS + ':CorrStats']
CT = 'seismic.correlate.stream:CorrTrace'
CB = 'seismic.correlate.stream:CorrBulk'
KEYS = ['delta', 'sampling_rate', 'npts', 'start_lag', 'corr_start',
        'corr_end', 'station', 'calib']


def draw(c, key, name):
    if key == 'npts':
        return c.int(name, 0, gen=(0, 12))
    if key in ('delta', 'sampling_rate'):
        return c.real(name, 0, gen=(0, 8), den=8)
    if key in ('corr_start', 'corr_end'):
        return c.time(name)
    if key == 'station':
        return 'AB-CD'
    return c.real(name)


def state(c):
    """a header in an arbitrary reachable state"""
    h = {}
    for k in ('sampling_rate', 'npts', 'start_lag', 'corr_start',
              'corr_end'):
        h[k] = draw(c, k, k + '_0')
    return c.fn(STATS + ':CorrStats')(h), h


def invariant(c, s, tag=''):
    sr = s['sampling_rate']
    c.check(tag + 'interval is the reciprocal of the rate', c.and_(
        c.implies(sr == 0, c.eq(s['delta'], 0)),
        c.implies(sr > 0, c.eq(s['delta'] * sr, 1))))
    n = s['npts']
    c.check(tag + 'last lag', c.eq(s['end_lag'], s['start_lag'] + c.ite(
        n == 0, 0, n - 1) * s['delta']))
    c.check(tag + 'start mirrors corr_start', c.eq(
        s['starttime'] - s['corr_start'], 0))
    c.check(tag + 'end mirrors corr_end', c.eq(
        s['endtime'] - s['corr_end'], 0))
    c.check(tag + 'attribute and item access agree', c.and_(
        c.eq(s.end_lag, s['end_lag']), c.eq(s.npts, s['npts']),
        c.eq(s.delta, s['delta'])))


def value_after(c, key, v, s):
    if key == 'delta':
        c.check('delta stored', c.and_(
            c.implies(v == 0, c.eq(s['sampling_rate'], 0)),
            c.implies(v > 0, c.and_(c.eq(s['sampling_rate'] * v, 1),
                                    c.eq(s['delta'], v)))))
    elif key in ('corr_start', 'corr_end'):
        c.check('value stored', c.eq(s[key] - v, 0))
    elif key == 'station':
        c.check('value stored', s[key] == v)
    else:
        c.check('value stored', c.eq(s[key], v))


@contract('C01', 'a new header is consistent', CS)
def new(c):
    s, h = state(c)
    invariant(c, s)
    for k in h:
        value_after(c, k, h[k], s)
    invariant(c, c.fn(STATS + ':CorrStats')(), 'empty header: ')


@contract('C01', 'every assignment keeps the header consistent', CS)
def assign(c):
    s, h = state(c)
    key = c.choice('key', KEYS)
    v = draw(c, key, 'value')
    how = c.choice('how', ['item', 'attribute', 'update'])
    if how == 'item':
        s[key] = v
    elif how == 'attribute':
        setattr(s, key, v)
    else:
        s.update({key: v})
    invariant(c, s)
    value_after(c, key, v, s)
    # frame: nothing else moved
    for k in ('npts', 'start_lag', 'sampling_rate'):
        if k != key and not (k == 'sampling_rate' and key == 'delta'):
            c.check('other entries unchanged', c.eq(s[k], h[k]))
    for k in ('corr_start', 'corr_end'):
        if k != key:
            c.check('other times unchanged', c.eq(s[k] - h[k], 0))


@contract('C01', 'sequences of assignments', CS, proof=False, cases=300,
          bound='up to 12 assignments')
def history(c):
    s, h = state(c)
    for i in range(c.int('n', 1, gen=(1, 12))):
        key = c.choice('key%d' % i, KEYS)
        v = draw(c, key, 'v%d' % i)
        if c.flag('attr%d' % i):
            setattr(s, key, v)
        else:
            s[key] = v
        invariant(c, s)
        value_after(c, key, v, s)
    import copy
    invariant(c, copy.deepcopy(s), 'copy: ')
    c.check('copy equal', dict(copy.deepcopy(s)) == dict(s))


@contract('C01', 'derived entries are read only', CS)
def readonly(c):
    s, h = state(c)
    key = c.choice('key', ['end_lag', 'endtime', 'starttime'])
    v = c.real('value') if key == 'end_lag' else c.time('value')
    how = c.choice('how', ['item', 'attribute'])

    def put():
        if how == 'item':
            s[key] = v
        else:
            setattr(s, key, v)
    c.expect_raises(AttributeError, put, 'derived entry refused')
    invariant(c, s)


@contract('C01', 'setting the component only changes the last letters', CS,
          cases=100)
def component(c):
    s, h = state(c)
    cha = c.choice('cha', ['HHZ-HHZ', 'BHE-SHN', 'HZ-HHE', 'E-Z', 'HHZ-LE'])
    comp = c.choice('comp', ['E-Z', 'N-N', 'T-R', 'Z-Z'])
    s['channel'] = cha
    if c.flag('attr'):
        s.component = comp
    else:
        s['component'] = comp
    a, b = cha.split('-')
    x, y = comp.split('-')
    c.check('channel', s['channel'] == a[:-1] + x + '-' + b[:-1] + y)
    c.check('component', s['component'] == comp and s.component == comp)
    c.check('identifier', s['id'] == '..' + s['channel'])
    invariant(c, s)
    c.expect_raises(ValueError, lambda: s.__setitem__('component', 'Z'),
                    'needs two components')


@contract('C01', 'a correlation trace agrees with its data',
          CS + [CT, CT + '.times'])
def trace(c):
    h0 = c.int('npts_wrong', 0, gen=(0, 9))
    n = c.dim('npts', 1)
    sr = c.real('sampling_rate', positive=True, gen=(0, 8))
    lag = c.real('start_lag')
    data = c.array('data', (n,))
    tr = c.fn(CT)(data, _header=dict(
        sampling_rate=sr, start_lag=lag, npts=h0, station='A-B'))
    c.check('sample count', c.eq(tr.stats.npts, n))
    invariant(c, tr.stats)
    t = tr.times()
    c.check('lag vector length', c.eq(t.shape[0], n))
    c.forall('lag of every sample', [n], lambda j: c.eq(
        (t[j] - lag) * sr, j))
    c.check('last lag', c.eq(c.at(t, n - 1), tr.stats.end_lag))
    c.forall('data', [n], lambda j: c.eq(tr.data[j], c.at(data, j)))


@contract('C01', 'assigning data updates the header', CS + [CT],
          proof=False, bound='traces up to 12 samples')
def trace_data(c):
    import numpy as np
    n, m = c.dim('n', 1), c.dim('m', 1)
    tr = c.fn(CT)(c.array('a', (n,)), _header=dict(
        sampling_rate=c.int('sr', 1), start_lag=c.real('lag'),
        station='A-B'))
    tr.data = c.array('b', (m,))
    c.check('sample count', tr.stats.npts == m and len(tr.times()) == m)
    invariant(c, tr.stats)
    tr.stats.start_lag = 3.
    c.check('lags', np.allclose(tr.times(), 3 + np.arange(
        m) / tr.stats.sampling_rate))
    lag = c.choice('lag without header', [-2., 0., 3.5])
    e = c.fn(CT)(c.array('d', (m,)), start_lag=lag)
    c.check('lag of headerless trace', e.stats.start_lag == lag and
            e.stats.npts == m)
    invariant(c, e.stats)


@contract('C01', 'headers of bulks are consistent', CS + [
    'seismic.correlate.stream:convert_statlist_to_bulk_stats', CB],
    proof=False, bound='up to 5 correlations of 12 samples')
def bulk(c):
    k, n = c.dim('k', 1, gen=(1, 5)), c.dim('n', 1)
    sr, lag = c.int('sr', 1), c.real('lag')
    heads = []
    for i in range(k):
        s = corr_header(c, n, sr, lag, network='N-N', station='A-B',
                        channel='HHZ-HHZ', location='-')
        s['corr_start'] = c.time('t%d' % i)
        s['corr_end'] = s['corr_start'] + 1 + i
        heads.append(s)
    A = c.array('A', (k, n))
    cb = c.fn(CB)(A, statlist=heads)
    s = cb.stats
    c.check('rows', s.ntrcs == k and s.npts == n)
    c.check('interval is the reciprocal of the rate',
            c.eq(s.delta, 1 / s.sampling_rate))
    c.check('last lag', c.eq(s.end_lag, lag + (n - 1) / sr))
    c.check('first lag', c.eq(s.start_lag, lag))
    # a later assignment keeps it consistent as well
    s['npts'] = n + 3
    c.check('last lag after assignment', c.eq(s.end_lag, lag + (n + 2) / sr))
    s['start_lag'] = lag - 1
    c.check('last lag after second assignment',
            c.eq(s.end_lag, lag - 1 + (n + 2) / sr))
    e = c.fn(CB)(A)
    c.check('bulk without header', e.stats.ntrcs == k and
            e.stats.npts == n and c.eq(e.stats.end_lag, n - 1))
