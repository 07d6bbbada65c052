"""C21 what is written to a file is read back."""
import os
import warnings

from .common import contract, corr_header

DVM = 'seismic.monitor.dv:'
WF = 'seismic.monitor.wfc:'
S = 'seismic.correlate.stream:'
MU = 'seismic.utils.miic_utils:'


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def header(c, rows, npts, location='-'):
    """a header as the pipeline makes it"""
    UTC = c.ext('obspy', 'UTCDateTime')
    h = dict(network=c.choice('net', ['A-A', 'A-B']), station='S-T',
             channel=c.choice('cha', ['HHZ-HHN', 'av', 'HHZ-HHZ']),
             location=location, ntrcs=rows, _format='hdf5')
    if c.flag('coordinates'):
        h.update({k: float(i) + .25 for i, k in enumerate(
            ['stla', 'stlo', 'stel', 'evla', 'evlo', 'evel', 'dist', 'az',
             'baz'])})
    t0 = UTC(2015 + c.int('year', 0, gen=(0, 9)), 2, 27)
    t = [t0 + 3600 * c.int('t%d' % i, 0, gen=(0, 100)) + c.choice(
        'f%d' % i, [0, 0, .25]) for i in range(rows)]
    h.update(corr_start=t, corr_end=[x + 1800 for x in t])
    return corr_header(c, npts, sr=float(c.choice('sr', [1, 2.5, 25])),
                       start_lag=-float(c.int('lag', 0, gen=(0, 9))), **h)


def same(a, b):
    import numpy as np
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(
            b, (list, tuple, np.ndarray)):
        a, b = list(np.atleast_1d(np.asarray(a, object))), list(
            np.atleast_1d(np.asarray(b, object)))
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'timestamp'):
        return abs(a.timestamp - b.timestamp) < 1e-5
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def equal(c, x, y, name):
    """arrays are equal in shape and value"""
    import numpy as np
    if x is None:
        c.check(name + ': absent', y is None)
        return
    x, y = np.asarray(x), np.asarray(y)
    c.check(name, x.shape == y.shape and x.dtype == y.dtype and
            np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'), (x, y))


def headers(c, a, b):
    a, b = dict(a), dict(b)
    c.check('header entries', set(a) == set(b), (sorted(set(a) ^ set(b))))
    for k in a:
        if k in b:
            c.check('header: ' + k, same(a[k], b[k]), (k, a[k], b[k]))


def several(c, st, key):
    """bounds of a time list stay a list, whatever its length"""
    import numpy as np
    c.check('list of times', isinstance(st[key], (list, np.ndarray)),
            st[key])


@contract('C21', 'velocity change', [DVM + 'DV.save', DVM + 'read_dv',
                                     MU + 'save_header_to_np_array',
                                     MU + 'load_header_from_np_array'],
          proof=False, cases=200, thorough=3000, bound='up to 6 rows')
def dv(c):
    import numpy as np
    m, k = c.int('rows', 1, gen=(1, 6)), c.int('values', 1, gen=(1, 5))
    n = c.int('npts', 1, gen=(1, 50))
    h = header(c, m, n, location=c.choice('loc', ['-', '00-10', 'list']))
    if h['location'] == 'list':
        h['location'] = ['00-1%d' % i for i in range(m)]
    if c.flag('processed'):
        h['processing_bulk'] = ['Filtered', 'Trimmed: 3'][:c.int(
            'steps', 0, gen=(0, 2))]
    proc = {}
    if c.flag('processing'):
        proc = dict(freq_min=c.choice('fmin', [.1, 1, 2]), freq_max=4.,
                    tw_start=c.choice('tws', [0, 2.5]),
                    tw_len=c.choice('twl', [10, 2.5, None]))
        if c.flag('more'):
            proc.update(sides=c.choice('sides', ['both', 'left', 'right']),
                        aligned=c.choice('al', [False, True]))
    opt = {}
    for key, shape in (('stretches', (m, 3)), ('corrs', (m, 3)),
                       ('n_stat', (m,))):
        if c.flag('with ' + key):
            opt[key] = np.asarray(c.array(key, shape, nan=True))
    x = c.fn(DVM + 'DV')(
        c.array('corr', (m,), nan=True), c.array('value', (m,), nan=True),
        c.choice('vt', ['stretch', 'shift']),
        c.array('sim', (m, k), nan=True) if c.flag('sim mat')
        else np.array([]), c.array('axis', (k,)),
        c.choice('method', ['single_ref', 'multi_ref', 'time_shift']),
        stats=h, dv_processing=dict(proc), **opt)
    d = c.tmpdir()
    name = os.path.join(d, c.choice('name', ['DV-A', 'DV-A.B.HHZ-HHZ.npz']))
    x.save(name)
    name += '' if name.endswith('.npz') else '.npz'
    read = c.fn(DVM + 'read_dv')
    how = c.choice('how', ['path', 'pattern', 'one character'])
    if how == 'path':
        y = read(name)
    else:
        c.expect_raises(FileNotFoundError, lambda: read(
            os.path.join(d, 'X*')), 'no file')
        with open(os.path.join(d, 'DV-Z.npz'), 'wb') as f:
            f.write(b'PK\x03\x04 broken')
        y = quiet(lambda: read(os.path.join(d, 'DV-*') if how == 'pattern'
                               else os.path.join(d, '?' + os.path.basename(
                                   name)[1:])))
        c.check('all files that can be read', len(y) == 1, len(y))
        y = y[0]
    for key in ('corr', 'value', 'sim_mat', 'second_axis', 'stretches',
                'corrs', 'n_stat', 'avail'):
        equal(c, getattr(x, key), getattr(y, key), key)
    c.check('kind of value', y.value_type == x.value_type and
            y.method == x.method)
    headers(c, x.stats, y.stats)
    several(c, y.stats, 'corr_start')
    got = dict(y.dv_processing)
    if proc:
        proc.setdefault('sides', 'unknown')
        proc.setdefault('aligned', False)
    c.check('processing', set(got) == set(proc) and all(
        got[q] == proc[q] for q in proc), (got, proc))
    c.check('not aligned', (got.get('aligned', False) is False) == (
        proc.get('aligned', False) is False))


@contract('C21', 'correlation matrix', [
    S + 'CorrBulk.save', S + 'read_corr_bulk', S + 'CorrBulk.__init__'],
    proof=False, cases=200, thorough=3000, bound='up to 6 rows')
def bulk(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    m, n = c.int('rows', 1, gen=(1, 6)), c.int('npts', 8, gen=(8, 20))
    Tr = c.fn(S + 'CorrTrace')
    trs = []
    h = header(c, 1, n)
    for i in range(m):
        q = h.copy()
        q.pop('ntrcs')
        q['corr_start'] = UTC(2015, 1, 1) + 900 * i
        q['corr_end'] = q['corr_start'] + 1800
        q['location'] = c.choice('loc%d' % i, ['-', '00-10'])
        trs.append(Tr(np.asarray(c.array('x%d' % i, (n,))), _header=q))
    x = quiet(lambda: c.fn(S + 'CorrStream')(trs).create_corr_bulk(
        inplace=c.flag('in place')))
    for i in range(c.int('steps', 0, gen=(0, 3))):
        x = quiet(lambda: getattr(x, ['envelope', 'mirror', 'envelope'][i])())
    name = os.path.join(c.tmpdir(), 'cb')
    x.save(name)
    y = c.fn(S + 'read_corr_bulk')(name + '.npz')
    equal(c, x.data, y.data, 'data')
    headers(c, x.stats, y.stats)
    several(c, y.stats, 'corr_start')
    c.check('list of processing steps', isinstance(
        y.stats.processing_bulk, list))
    y.envelope()
    c.check('processing goes on', len(y.stats.processing_bulk) == 1 + len(
        x.stats.processing_bulk))


@contract('C21', 'waveform coherence', [
    WF + 'WFC.save', WF + 'read_wfc', WF + 'WFC.compute_average'],
    proof=False, cases=200, thorough=3000, bound='up to 3 references')
def wfc(c):
    import numpy as np
    m = c.int('rows', 1, gen=(1, 6))
    h = header(c, m, 20)
    d = {}
    for i in range(c.int('references', 1, gen=(1, 3))):
        d['reftr_%d' % i] = np.asarray(c.array('r%d' % i, (m,), nan=True))
    proc = dict(freq_min=c.choice('fmin', [.1, 1]), freq_max=4.,
                tw_start=c.choice('tws', [0, 2.5]),
                tw_len=c.choice('twl', [10, 2.5]))
    x = c.fn(WF + 'WFC')(d, h, dict(proc))
    av = c.flag('average')
    if av:
        quiet(x.compute_average)
    folder = c.tmpdir()
    x.save(os.path.join(folder, 'WFC-A.B'))
    read = c.fn(WF + 'read_wfc')
    if c.flag('pattern'):
        y = read(os.path.join(folder, 'WFC*'))
        c.check('all files', len(y) == 1)
        y = y[0]
    else:
        y = read(os.path.join(folder, 'WFC-A.B.npz'))
    c.check('references', set(y) == set(d), (list(y), list(d)))
    for k in d:
        equal(c, d[k], y[k], 'coherence')
    c.check('averages', set(y.av) == set(x.av))
    for k in x.av:
        equal(c, x.av[k], y.av[k], 'average')
    equal(c, x.mean, y.mean, 'mean')
    headers(c, x.stats, y.stats)
    c.check('processing', dict(y.wfc_processing) == proc,
            (y.wfc_processing, proc))
    if av:
        B = c.fn(WF + 'WFCBulk')
        a, b = B([x]), B([y])
        equal(c, a.wfc, b.wfc, 'same picture')
