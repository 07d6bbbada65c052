"""C30 results do not depend on the number of MPI processes."""
from copy import deepcopy
import os

from .common import contract
from .mpi import run_ranks, correlator, ranks, Alone
from .c10_correlation import options, draw, starts, NETS, STATS_

CC = 'seismic.correlate.correlate:'
K = CC + 'Correlator.'
TD = 'seismic.correlate.preprocessing_td.'
FD = 'seismic.correlate.preprocessing_fd.'

TDP = [dict(function=TD + 'signBitNormalization', args={}),
       dict(function=TD + 'clip', args=dict(std_factor=1.5)),
       dict(function=TD + 'detrend', args=dict(type='linear')),
       dict(function=TD + 'normalizeStandardDeviation', args={})]
FDP = [dict(function=FD + 'spectralWhitening', args=dict(joint_norm=False)),
       dict(function=FD + 'FDsignBitNormalization', args={})]


@contract('C30', 'correlations of a window', [K + '_pxcorr_matrix'],
          proof=False, cases=250, thorough=3000,
          bound='up to 5 traces of 40 samples, up to 7 processes')
def matrix(c):
    import numpy as np
    n, sr, k, A, lts = draw(c, np, 5)
    A = np.random.default_rng(c.int('seed', 0, 10 ** 6)).normal(
        size=A.shape)
    comb = [(i, j) for i in range(k) for j in range(i, k)
            if c.int('use%d-%d' % (i, j), 0, 3) or not i]
    td = [d for q, d in enumerate(TDP) if not c.int('td%d' % q, 0, 3)][:1]
    fd = [d for q, d in enumerate(FDP) if not c.int('fd%d' % q, 0, 2)]
    c.assume(n > 6)
    opt = options(c, lts, comb, c.flag('center'), c.flag('norm'), td, fd)
    opt['starttime'] = starts(c, k, sr)
    if c.flag('far apart'):
        opt['starttime'] = [t + 30 * c.int('far%d' % i, 0, 2)
                            for i, t in enumerate(opt['starttime'])]
    A = A.astype(np.float32)

    def run(comm):
        x = correlator(c, comm, deepcopy(opt), sr)
        return x._pxcorr_matrix(A.copy())
    (C, lags), = run_ranks(1, run)
    P = c.int('processes', 2, 7)
    for C2, lags2 in run_ranks(P, run):
        c.check('shape', C2.shape == C.shape)
        c.check('same correlations on every process', np.allclose(
            C2, C, rtol=1e-4, atol=1e-5 * (1 + np.abs(C).max())))
        c.check('same lags on every process', np.allclose(lags2, lags))


@contract('C30', 'distribution of traces and pairs', [K + '_pxcorr_matrix'],
          cases=100, note='for 3 traces, 4 pairs and up to 5 processes; any '
          'data, length, rate, lag and start times; the Fourier transform as '
          'an uninterpreted function, Allreduce as the sum over the '
          'processes')
def distribution(c):
    n = c.dim('npts', 2, gen=(2, 30))
    sr = c.real('sr', positive=True, gen=(1, 20), den=2)
    lts = c.real('lag', positive=True, gen=(0, 4), den=8)
    A = c.array('A', (3, n))
    c.assume(lts * sr <= n)
    td = [dict(function=TD + 'signBitNormalization', args={})
          ] if c.flag('preprocessing') else []
    comb = [(0, 1), (0, 2), (1, 2), (1, 1)]
    opt = options(c, lts, comb, c.flag('center'), False, td, [])
    t0 = c.time('t0')
    opt['starttime'] = [t0, t0 + c.real('later', -99, 99, gen=(-30, 30),
                                        den=8), t0]
    P = c.choice('processes', [2, 3, 4, 5])

    def run(comm):
        x = correlator(c, comm, deepcopy(opt), sr)
        return x._pxcorr_matrix(A.copy())
    C, lags = run(Alone())
    s = -c.floor(-(lts * sr))
    for C2, lags2 in ranks(c, P, run):
        c.check('shape', c.and_(C2.shape[0] == 4, C2.shape[1] == 2 * s + 1))
        for q in range(4):
            c.check('same lags', c.eq(lags[q], lags2[q], tol=1e-4))
        c.forall('same correlations', [4, 2 * s + 1], lambda q, k: c.eq(
            c.at(C, q, k), c.at(C2, q, k), tol=1e-3))


class Db(object):
    """records what is written where"""
    def __init__(self, store, path):
        self.store, self.path = store, path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def add_correlation(self, st, tag):
        self.store.append((os.path.basename(self.path), tag, [
            (tr.stats.network, tr.stats.station, tr.stats.channel,
             str(tr.stats.corr_start)) for tr in st]))


@contract('C30', 'every correlation is written once', [K + '_write'],
          proof=False, cases=200, bound='up to 8 traces, 5 processes')
def write(c):
    import numpy as np
    from obspy import UTCDateTime
    Tr = c.fn('seismic.correlate.stream:CorrTrace')
    CS = c.fn('seismic.correlate.stream:CorrStream')
    trs, keys = [], []
    for i in range(c.int('n', 1, 8)):
        t = UTCDateTime(c.int('t%d' % i, 0, 2) * 100)
        h = dict(network='-'.join([c.choice('n%d' % i, NETS)] * 2),
                 station='%s-%s' % (c.choice('s%d' % i, STATS_),
                                    c.choice('z%d' % i, STATS_)),
                 channel=c.choice('c%d' % i, ['HHZ-HHZ', 'HHZ-HHN']),
                 corr_start=t, corr_end=t + 50, start_lag=-1.,
                 sampling_rate=1.)
        key = (h['network'], h['station'], h['channel'], str(t))
        if key in keys:
            continue
        keys.append(key)
        trs.append(Tr(np.zeros(3, 'f4') + i, _header=h))
    sep, rec = c.flag('separate'), c.flag('recombine')
    dele = c.flag('delete')
    opt = dict(read_len=100, subdivision=dict(
        recombine_subdivision=rec, delete_subdivision=dele, corr_len=50))
    store = []
    M = c.mod('seismic.correlate.correlate')
    old = M.CorrelationDataBase
    M.CorrelationDataBase = lambda path, **kw: Db(store, path)
    P = c.int('processes', 1, 5)
    try:
        def run(comm):
            x = correlator(c, comm, deepcopy(opt), 1., corr_dir='/nowhere',
                           save_comps_separately=sep)
            return x._write(CS([t.copy() for t in trs]))
        run_ranks(P, run)
    finally:
        M.CorrelationDataBase = old
    sub = [(f, k) for f, tag, ks in store if tag == 'subdivision'
           for k in ks]
    c.check('each subdivision exactly once unless deleted', sorted(
        k for f, k in sub) == ([] if dele else sorted(keys)))
    for f, k in sub:
        c.check('file of its pair', f == '.'.join(
            k[:3 if sep else 2]) + '.h5')
    for f in set(f for f, k in sub):
        c.check('one process per file', len(
            [1 for g, tag, ks in store if g == f and tag == 'subdivision'])
            == 1)
    st = [k[:3] for f, tag, ks in store if tag == 'stack_100' for k in ks]
    c.check('one stack per pair and components', sorted(st) == (sorted(set(
        k[:3] for k in keys)) if rec else []))


class Client(object):
    """a store with the given traces"""
    inventory = None

    def __init__(self, st):
        self.st = st

    def read_inventory(self):
        return None

    def _load_local(self, net, stat, loc, cha, t0, t1, *a):
        return self.st.select(network=net, station=stat, channel=cha).slice(
            t0, t1).copy()


METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']


def make_data(c, np, sr=5., length=240):
    from obspy import Stream, Trace, UTCDateTime
    t0 = UTCDateTime(2015, 3, 1)
    rng = np.random.default_rng(c.int('seed', 0, 10 ** 6))
    st, raw = Stream(), []
    for i in range(c.int('traces', 1, 4)):
        h = dict(network=c.choice('net%d' % i, NETS),
                 station=c.choice('sta%d' % i, STATS_),
                 channel=c.choice('cha%d' % i, ['HHZ', 'HHN']))
        key = [h['network'], h['station'], h['channel']]
        if key in raw:
            continue
        raw.append(key)
        a = c.int('from%d' % i, 0, 2) * 40
        b = length - c.int('to%d' % i, 0, 2) * 40
        gap = c.int('gap%d' % i, 0, 4) * 40
        for x, y in ((a, gap), (max(a, gap + 40), b)) if gap else ((a, b),):
            if y - x > 5:
                st.append(Trace(rng.normal(size=int((y - x) * sr)).astype(
                    'f4'), header=dict(h, sampling_rate=sr,
                                       starttime=t0 + x)))
    return t0, st, sorted(raw)


def pipe_options(c, t0, sr, length, sub):
    inc = c.choice('inc', [30, 40, 60])
    ln = c.choice('len', [30, 40, 60])
    rl = c.choice('read', [60, 120, 240])
    return dict(
        subdir='c', sampling_rate=sr, read_start=str(t0), read_end=str(
            t0 + length), read_len=rl, read_inc=rl, remove_response=False,
        preProcessing=[], preprocess_subdiv=sub, combination_method=c.choice(
            'method', METHODS), subdivision=dict(
            corr_inc=inc, corr_len=ln, recombine_subdivision=False,
            delete_subdivision=False), corr_args=dict(
                TDpreProcessing=[], FDpreProcessing=[], lengthToSave=4,
                center_correlation=True, normalize_correlation=True,
                combinations=[]))


def read_all(d):
    """all correlations below directory d"""
    import h5py
    import numpy as np
    out, dup = {}, []
    for f in sorted(os.listdir(d)):
        with h5py.File(os.path.join(d, f), 'r') as h:
            def visit(name, x):
                if isinstance(x, h5py.Dataset) and name != 'co':
                    if name in out:
                        dup.append(name)
                    out[name] = (np.array(x), dict(x.attrs))
            h.visititems(visit)
    return out, dup


def pipeline(c, P, opt, st, raw, d, sr, **kw):
    import warnings
    os.makedirs(d, exist_ok=True)
    import tqdm  # noqa: F401
    M = c.mod('seismic.correlate.correlate')
    old, M.tqdm = M.tqdm, lambda x: x
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')

            def run(comm):
                o = deepcopy(opt)
                x = correlator(
                    c, comm, o, sr, corr_dir=d, store_client=Client(st),
                    avail_raw_data=[list(r) for r in raw], station=[
                        list(s) for s in sorted(set(
                            (r[0], r[1]) for r in raw))], **kw)
                return x.pxcorr()
            run_ranks(P, run)
    finally:
        M.tqdm = old
    return read_all(d)


@contract('C30', 'whole correlation run',
          [K + 'pxcorr', K + '_generate_data', K + '_pxcorr_inner',
           K + '_pxcorr_matrix', K + '_write', K + 'find_existing_times'],
          proof=False, cases=40, thorough=500,
          bound='up to 4 traces of 240 s, up to 4 processes')
def whole(c):
    import numpy as np
    sr = 5.
    t0, st, raw = make_data(c, np, sr)
    opt = pipe_options(c, t0, sr, 240, c.flag('subdiv'))
    sep = c.flag('separate')
    d = c.tmpdir()
    one, dup1 = pipeline(c, 1, opt, st, raw, d + '/a', sr,
                         save_comps_separately=sep)
    P = c.int('processes', 2, 4)
    more, dup2 = pipeline(c, P, opt, st, raw, d + '/b', sr,
                          save_comps_separately=sep)
    c.check('nothing twice', not dup1 and not dup2)
    c.check('same correlations', sorted(one) == sorted(more))
    for k in one:
        c.check('same samples', np.allclose(
            one[k][0], more[k][0], atol=1e-4))
        for a, b in one[k][1].items():
            c.check('same header', np.array_equal(
                np.asarray(b), np.asarray(more[k][1][a])))


class World(object):
    """stands for mpi4py.MPI: every rank has its own communicator"""
    def __init__(self):
        import threading
        self.here = threading.local()

    @property
    def COMM_WORLD(self):
        return self.here.comm


@contract('C30', 'set-up on several processes', [
    K + '__init__', 'seismic.monitor.monitor:Monitor.__init__'],
    proof=False, cases=40, thorough=400,
    bound='up to 8 channels, up to 4 processes')
def set_up(c):
    """all processes know the same channels, stations and correlations, the
    folders are there"""
    import sys
    from .c31_prepare import Archive, close_logs, quiet
    have = sorted({(c.choice('n%d' % i, ['AA', 'AB', 'C']),
                    c.choice('s%d' % i, ['S1', 'S2', 'T']),
                    c.choice('c%d' % i, ['HHZ', 'HHN', 'BHZ']))
                   for i in range(c.int('n', 1, gen=(1, 8)))})
    net, sta = c.choice('request', [
        ('*', '*'), ('A?', '*'), (['AA', 'AB'], '*'), (['AA', 'C'], '*'),
        ('AA', ['S1', 'S2']), (['AA', 'AB'], ['S1', 'S2'])])
    import fnmatch
    nets, stas = (x if isinstance(x, list) else [x] for x in (net, sta))
    n = max(len(nets), len(stas))
    nets, stas = (x * n if len(x) == 1 else x for x in (nets, stas))
    want = [list(x) for x in have if any(
        fnmatch.fnmatch(x[0], a) and fnmatch.fnmatch(x[1], b)
        for a, b in zip(nets, stas))]
    c.assume(len(want) > 0)
    d = c.tmpdir()
    rc = c.choice('xcombinations', [None, ['AA-AB.S1-S2', 'AA-AA.S1-S2']])
    opt = dict(proj_dir=d, log_subdir='log', log_level='WARNING', net=dict(
        network=net, station=sta, component='?'), co=dict(
            subdir='corr', sampling_rate=25, xcombinations=rc,
            combination_method='betweenStations'), dv=dict(
                subdir='vel', start_date='2015-05-01 00:00:00.0',
                end_date='2015-05-02 00:00:00.0', date_inc=3600,
                win_len=3600))
    world = World()
    c.patch(CC + 'MPI', world)
    c.patch('seismic.monitor.monitor:MPI', world)
    c.patch('seismic.monitor.monitor:corr_find_filter',
            lambda *a, **k: (['n'], ['s'], ['f']))
    mon = c.flag('monitor')

    def run(comm):
        world.here.comm = comm
        if mon:
            m = c.fn('seismic.monitor.monitor:Monitor')(deepcopy(opt))
            return (m.rank, m.psize, m.netlist, m.statlist, m.infiles,
                    [str(t) for t in m.starttimes])
        x = c.fn(CC + 'Correlator')(Archive(have), deepcopy(opt))
        return x.rank, x.psize, x.avail_raw_data, x.station
    err, sys.stderr = sys.stderr, open(os.devnull, 'w')
    P = c.int('processes', 2, gen=(2, 4))
    again = c.flag('folders are there')
    try:
        one, = quiet(lambda: run_ranks(1, run))
        if not again:
            import shutil
            for x in os.listdir(d):
                shutil.rmtree(os.path.join(d, x))
        out = quiet(lambda: run_ranks(P, run))
    finally:
        sys.stderr.close()
        sys.stderr = err
        close_logs()
    c.check('ranks', [o[0] for o in out] == list(range(P)) and all(
        o[1] == P for o in out))
    for o in out:
        c.check('the same on every process', o[2:] == one[2:], (o, one))
    if not mon and rc is None:
        c.check('channels', one[2] == want, (one[2], want))
    c.check('folders', all(os.path.isdir(os.path.join(d, x)) for x in (
        'log', 'vel' if mon else 'corr')))
