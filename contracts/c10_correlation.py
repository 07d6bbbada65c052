"""C10 cross-correlations hold the right samples at the right lags."""
from copy import deepcopy

from .common import contract
from .mpi import run_ranks, correlator, Alone

CC = 'seismic.correlate.correlate:'
MAT = CC + 'Correlator._pxcorr_matrix'
INNER = CC + 'Correlator._pxcorr_inner'


def options(c, lts, comb, center, norm, td=(), fd=()):
    return dict(combinations=comb, starttime=None, corr_args=dict(
        TDpreProcessing=list(td), FDpreProcessing=list(fd), lengthToSave=lts,
        center_correlation=center, normalize_correlation=norm))


def interp(b, x, np):
    """trigonometric interpolation of the periodic samples b at x"""
    N = len(b)
    k = np.fft.fftfreq(N) * N
    F = np.fft.fft(b)
    E = np.exp(2j * np.pi * np.outer(x, k) / N)
    if N % 2 == 0:
        E[:, N // 2] = np.cos(np.pi * np.asarray(x))
    return (E @ F).real / N


def oracle(a, b, sr, lts, offset, center, np):
    """lags and correlation from the definition in the time domain:
    C(L) = sum over t of a(t) b(t + L), with b zero outside its window"""
    from scipy.fftpack import next_fast_len
    n = len(a)
    s = int(np.ceil(lts * sr))
    N = next_fast_len(int(n + sr * lts))
    whole = 0. if center else np.fix(offset * sr)
    rest = offset * sr - whole
    k = np.arange(-s, s + 1)
    bp = np.concatenate((b, np.zeros(N - n)))
    C = np.array([np.dot(a, interp(bp, np.arange(n) + q + rest, np))
                  for q in k])
    # samples that wrap around the padding are not a correlation
    ok = (k + np.abs(rest) + n - 1 < N) & (k - np.abs(rest) > -(N - n + 1))
    return k / sr - whole / sr, C, ok


def draw(c, np, maxtr=3):
    n = c.int('npts', 4, 40)
    sr = float(c.choice('sr', [1, 2, 2.5, 4, 5, 10, 25]))
    k = c.int('traces', 1, maxtr)
    A = np.round(c.array('A', (k, n)), 3)
    lts = c.int('lag', 1, max(1, n // 2)) / sr
    if c.flag('off grid'):
        lts *= .93
    return n, sr, k, A, lts


def starts(c, k, sr):
    from obspy import UTCDateTime
    t0 = UTCDateTime(2015, 3, 1)
    whole = [c.int('start%d' % i, -3, 3) for i in range(k)]
    frac = [c.int('frac%d' % i, 0, 3) * .25 if c.flag('sub%d' % i) else 0
            for i in range(k)]
    return [t0 + (w + f) / sr for w, f in zip(whole, frac)]


@contract('C10', 'samples and lags of cross-correlations', [MAT],
          proof=False, cases=400, thorough=4000,
          bound='up to 3 traces of 40 samples, offsets up to 4 samples')
def matrix(c):
    import numpy as np
    n, sr, k, A, lts = draw(c, np)
    comb = [(i, j) for i in range(k) for j in range(k)]
    center = c.flag('center')
    opt = options(c, lts, comb, center, False)
    opt['starttime'] = starts(c, k, sr)
    A0 = A.astype(np.float32)
    x, = run_ranks(1, lambda comm: correlator(c, comm, opt, sr))
    C, lags = x._pxcorr_matrix(A0.copy())
    s = int(np.ceil(lts * sr))
    c.check('shape', C.shape == (len(comb), 2 * s + 1))
    for q, (i, j) in enumerate(comb):
        off = opt['starttime'][i] - opt['starttime'][j]
        lag, want, ok = oracle(A0[i].astype(float), A0[j].astype(float), sr,
                               lts, off, center, np)
        c.check('label of the first sample', abs(lags[q] - lag[0]) < 1e-4)
        sc = 1e-4 * (1 + np.linalg.norm(A0[i]) * np.linalg.norm(A0[j]))
        c.check('sum of the products of shifted samples',
                np.abs(C[q] - want)[ok].max() < sc if ok.any() else True,
                detail=None)


@contract('C10', 'plain correlation of two traces', [MAT],
          proof=False, cases=200, bound='traces of up to 40 samples')
def plain(c):
    """without the Fourier transform as an oracle"""
    import numpy as np
    n, sr, k, A, lts = draw(c, np, 2)
    opt = options(c, lts, [(0, k - 1)], c.flag('center'), False)
    opt['starttime'] = starts(c, 1, sr) * k
    A0 = A.astype(np.float32)
    x, = run_ranks(1, lambda comm: correlator(c, comm, opt, sr))
    C, lags = x._pxcorr_matrix(A0.copy())
    s = int(np.ceil(lts * sr))
    a, b = A0[0].astype(float), A0[k - 1].astype(float)
    off = 0 if int(lts * sr) == s else 1   # the last lag may wrap
    for q in range(2 * s + 1 - off):
        lag = q - s
        if off and q == 0:
            continue
        w = sum(a[t] * b[t + lag] for t in range(n) if 0 <= t + lag < n)
        c.check('C(lag) = sum a(t) b(t + lag)', abs(w - C[0, q]) < 1e-4 * (
            1 + np.linalg.norm(a) * np.linalg.norm(b)))
        c.check('lag of the sample', abs(lags[0] + q / sr - lag / sr) < 1e-4)


@contract('C10', 'normalised correlations', [MAT],
          proof=False, cases=200, bound='up to 3 traces of 40 samples')
def norm(c):
    import numpy as np
    n, sr, k, A, lts = draw(c, np)
    A = A + np.arange(n) % 3 + np.arange(k)[:, None]
    comb = [(i, j) for i in range(k) for j in range(i, k)]
    opt = options(c, lts, comb, c.flag('center'), True)
    opt['starttime'] = starts(c, k, sr)
    sc = np.array([c.real('scale%d' % i, .25, 16) for i in range(k)])
    A0 = A.astype(np.float32)
    c.assume((np.abs(A0).max(1) > .1).all())
    x, = run_ranks(1, lambda comm: correlator(c, comm, opt, sr))
    C, lags = x._pxcorr_matrix(A0.copy())
    o2 = deepcopy(opt)
    y, = run_ranks(1, lambda comm: correlator(c, comm, o2, sr))
    C2, _ = y._pxcorr_matrix((A0 * sc[:, None]).astype(np.float32))
    c.check('at most one', np.abs(C).max() <= 1 + 1e-4)
    c.check('amplitudes do not matter', np.abs(C - C2).max() < 1e-3)
    o3 = deepcopy(opt)
    o3['corr_args']['normalize_correlation'] = False
    z, = run_ranks(1, lambda comm: correlator(c, comm, o3, sr))
    C3, _ = z._pxcorr_matrix(A0.copy())
    for q in range(len(comb)):
        f = np.dot(C[q], C3[q]) / np.dot(C3[q], C3[q])
        c.check('a multiple of the plain correlation', np.abs(
            f * C3[q] - C[q]).max() < 1e-3)
        c.check('of the same sign', f > 0)


NETS = ['A', 'AB', 'B', 'XX']
STATS_ = ['A', 'AB', 'ABA', 'B', 'BA', 'C1']
CHA = ['HHE', 'HHN', 'HHZ', 'EHZ']


@contract('C10', 'correlation traces are labelled with true lags',
          [INNER, MAT, CC + 'st_to_np_array',
           'seismic.correlate.stream:CorrTrace.__init__',
           'seismic.correlate.stream:alphabetical_correlation',
           'seismic.correlate.stream:combine_stats'],
          proof=False, cases=300, thorough=3000,
          bound='up to 3 traces of 40 samples, offsets up to 4 samples')
def inner(c):
    import numpy as np
    from obspy import Stream, Trace
    n, sr, k, A, lts = draw(c, np)
    center = c.flag('center')
    t0 = starts(c, k, sr)
    ids = []
    st = Stream()
    for i in range(k):
        h = dict(network=c.choice('net%d' % i, NETS),
                 station=c.choice('sta%d' % i, STATS_),
                 channel=c.choice('cha%d' % i, CHA), sampling_rate=sr,
                 starttime=t0[i])
        ids.append(h)
        m = n - c.int('short%d' % i, 0, 2)
        d = A[i, :m].astype(np.float32)
        A[i, m:] = 0
        st.append(Trace(d, header=h))
    comb = [(i, j) for i in range(k) for j in range(i, k)]
    c.assume(len(set((h['network'], h['station'], h['channel'])
                     for h in ids)) == k)
    opt = options(c, lts, comb, center, False)
    x, = run_ranks(1, lambda comm: correlator(c, comm, opt, sr))
    import warnings
    ends = [tr.stats.endtime for tr in st]
    nmax = max(len(tr) for tr in st)
    A = A[:, :nmax]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cst = x._pxcorr_inner(st, None)
    c.check('one correlation per combination', len(cst) == len(comb))
    A = A.astype(np.float32).astype(float)
    for tr, (i, j) in zip(cst, comb):
        s = tr.stats
        key = [(h['network'], h['station'], h['channel'])
               for h in (ids[i], ids[j])]
        name = (s.network, s.station, s.channel)
        fwd = tuple('-'.join(p) for p in zip(*key))
        bwd = tuple('-'.join(p) for p in zip(*key[::-1]))
        c.check('named after its traces', name in (fwd, bwd))
        p, q = (i, j) if name == fwd else (j, i)
        # lag L: a(t) of the first with b(t + L) of the second trace
        off = t0[i] - t0[j]
        lag, want, ok = oracle(A[i], A[j], sr, lts, off, center, np)
        if name != fwd:
            lag, want, ok = -lag[::-1], want[::-1], ok[::-1]
        elif name == bwd and fwd == bwd:
            pass
        c.check('first lag', abs(s.start_lag - lag[0]) < 1e-4)
        c.check('last lag', abs(s.end_lag - lag[-1]) < 1e-4)
        c.check('sample count', s.npts == len(want) == len(tr.data))
        c.check('lag vector', np.abs(tr.times() - lag).max() < 1e-4)
        sc = 1e-4 * (1 + np.linalg.norm(A[i]) * np.linalg.norm(A[j]))
        c.check('value at each lag',
                np.abs(tr.data - want)[ok].max() < sc if ok.any() else True)
        c.check('window is the common time', s.corr_start == max(
            t0[i], t0[j]) and s.corr_end == min(ends[i], ends[j]))
        c.check('rate', abs(s.sampling_rate - sr) < 1e-9)


@contract('C10', 'order of a pair only reverses the lag axis', [MAT],
          proof=False, cases=150, bound='2 traces of up to 40 samples')
def symmetry(c):
    import numpy as np
    n, sr, k, A, lts = draw(c, np, 2)
    opt = options(c, lts, [(0, k - 1), (k - 1, 0)], c.flag('center'),
                  c.flag('norm'))
    opt['starttime'] = starts(c, k, sr)
    A = A + np.arange(n) % 3 + 1
    x, = run_ranks(1, lambda comm: correlator(c, comm, opt, sr))
    C, lags = x._pxcorr_matrix(A.astype(np.float32))
    m = C.shape[1]
    c.check('lags reversed', abs(
        lags[0] + (lags[1] + (m - 1) / sr)) < 1e-4)
    c.check('samples reversed', np.abs(C[0] - C[1][::-1]).max()
            < 1e-4 * (1 + np.linalg.norm(A) ** 2))


@contract('C10', 'streams become matrices', [CC + 'st_to_np_array'],
          proof=False, cases=100, bound='up to 4 traces of 12 samples')
def matrix_of_stream(c):
    import numpy as np
    from obspy import Stream, Trace
    k = c.int('traces', 1, 4)
    tr = [c.array('t%d' % i, (c.int('n%d' % i, 1, 12),)).astype(np.float32)
          for i in range(k)]
    st = Stream([Trace(t.copy()) for t in tr])
    n = max(len(t) for t in tr) + c.int('more', 0, 3)
    A, out = c.fn(CC + 'st_to_np_array')(st, n)
    c.check('shape', A.shape == (k, n))
    for i in range(k):
        c.check('row', np.array_equal(A[i, :len(tr[i])], tr[i]))
        c.check('zero beyond the trace', not A[i, len(tr[i]):].any())


@contract('C10', 'correlation in terms of the Fourier transform', [MAT],
          cases=200, note='numpy.fft.rfft/irfft, np.exp of complex numbers '
          'as uninterpreted functions; one process, pairs of two traces; '
          'that this product of spectra is the correlation is checked by '
          'the bounded contracts')
def dft(c):
    n = c.dim('npts', 2, gen=(2, 30))
    sr = c.real('sr', positive=True, gen=(1, 20), den=2)
    lts = c.real('lag', positive=True, gen=(0, 4), den=8)
    A = c.array('A', (2, n))
    c.assume(lts * sr <= n)
    comb = [c.choice('pair', [(0, 1), (1, 0), (0, 0)]), (1, 1)]
    center = c.flag('center')
    opt = options(c, lts, comb, center, False)
    t0 = c.time('t0')
    t = [t0, t0 + c.real('later', -99, 99, gen=(-3, 3), den=8)]
    opt['starttime'] = t
    np = c.np()
    x = correlator(c, Alone(), opt, sr)
    C, lags = x._pxcorr_matrix(A.copy())
    s = -c.floor(-(lts * sr))
    c.check('shape', c.and_(C.shape[0] == 2, C.shape[1] == 2 * s + 1))
    N = c.fn('seismic.correlate.preprocessing_td:zeroPadding')(
        A, {'type': 'avoidWrapFastLen'}, dict(
            sampling_rate=sr, lengthToSave=lts)).shape[1]
    Z = np.concatenate((A, np.zeros((2, N - n))), axis=1)
    B = np.fft.rfft(Z, axis=1)
    f = np.fft.rfftfreq(N, 1. / sr)
    for q, (i, j) in enumerate(comb):
        off = t[i] - t[j]
        whole = 0. if center else np.fix(off * sr) / sr
        P = np.fft.irfft(B[i].conj() * B[j] * np.exp(
            1j * f * (off - whole) * 2 * np.pi), n=N).real
        c.check('label of the first sample', c.eq(
            lags[q], -s / sr - whole, tol=1e-4))

        def el(k):
            p = k - s
            # (the code works in single precision)
            return c.eq(C[q, k], c.ite(
                p < 0, lambda: c.at(P, p + N), lambda: c.at(P, p)),
                tol=1e-3)
        c.forall('sample k is the cyclic correlation at lag k - s',
                 [2 * s + 1], el)


@contract('C10', 'correlations of a run', [CC + 'Correlator.pxcorr',
                                             INNER],
          proof=False, cases=80, thorough=800,
          note='_generate_data, _pxcorr_matrix, _write as contracts',
          bound='up to 5 windows of 4 traces, up to 3 processes')
def run_of(c):
    """each pair of each window becomes one correlation with the data and
    the header of its two traces, and is written once"""
    import logging
    import warnings
    import numpy as np
    from copy import deepcopy
    from obspy import Inventory, Stream, Trace, UTCDateTime as UTC
    from obspy.core.inventory import Network, Station
    from .mpi import run_ranks, correlator
    sr, n = 4., c.int('npts', 5, gen=(5, 30))
    nl = c.int('lags', 3, gen=(3, 9))
    t0 = UTC(2020, 1, 1)
    rng = np.random.default_rng(c.int('seed', 0, gen=(0, 10 ** 6)))
    codes = [('N', s, z) for s in 'AB' for z in ('HHN', 'HHZ')][
        :c.int('traces', 1, gen=(1, 4))]
    wins = []
    for k in range(c.int('windows', 0, gen=(0, 5))):
        comb = [(i, j) for i in range(len(codes))
                for j in range(i, len(codes))
                if c.flag('pair%d-%d-%d' % (k, i, j))]
        wins.append((t0 + k * 60, rng.normal(size=(len(codes), n)), comb,
                     not k or c.flag('first of a read%d' % k)))
    place = {'A': (10., 20., 300.), 'B': (11., 21., 400.)}
    inv = Inventory([Network('N', [Station(s, *p) for s, p in sorted(
        place.items())])])
    have = c.choice('inventory', ['there', 'there', 'none', 'not found'])
    response = c.flag('response removed')

    class Client_(object):
        def read_inventory(self):
            if have == 'not found':
                raise FileNotFoundError('no inventory')
            return inv if have == 'there' else None

    def generate(self):
        for k, (t, A, comb, flag) in enumerate(wins):
            now[self.rank] = k
            if self.rank == 0:
                # all that was finished with an earlier read is written
                done.append((k, sum(len(w) for w in written[0])))
            self.options['combinations'] = list(comb)
            yield Stream([Trace(A[i].astype('f4'), dict(zip(
                ('network', 'station', 'channel'), code), sampling_rate=sr,
                starttime=t)) for i, code in enumerate(codes)]), flag

    def matrix(self, A):
        k = now[self.rank]
        comb = self.options['combinations']
        c.check('data of the window', np.allclose(
            A, wins[k][1], atol=1e-5) and A.shape == (len(codes), n))
        c.check('start times', list(self.options['starttime']) == [
            wins[k][0]] * len(codes))
        if not comb:
            return None, None
        return (np.array([results[k][p] for p in comb]),
                np.array([start[k][p] for p in comb]))
    results = [{p: rng.normal(size=nl) for p in w[2]} for w in wins]
    start = [{p: float(rng.integers(-8, 8)) / sr for p in w[2]}
             for w in wins]
    P = c.int('processes', 1, gen=(1, 3))
    now, done, written = {}, [], [[] for _ in range(P)]
    c.patch(CC + 'Correlator._generate_data', generate)
    c.patch(CC + 'Correlator._pxcorr_matrix', matrix)
    c.patch(CC + 'Correlator._write', lambda self, cst: written[self.rank].append(
        [tr.copy() for tr in cst]))

    def run(comm):
        x = correlator(c, comm, deepcopy(dict(
            combinations=[], remove_response=response)), sr,
            store_client=Client_())
        x.pxcorr()

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            old = logging.root.manager.disable
            logging.disable(logging.CRITICAL)
            try:
                run_ranks(P, run)
            finally:
                logging.disable(old)
    if have == 'not found' and response:
        P = 1
        c.expect_raises(FileNotFoundError, go, 'response is needed')
        return
    go()
    want = [(k, p) for k, w in enumerate(wins) for p in w[2]]
    for per in written:
        got = [tr for part in per for tr in part]
        c.check('each pair of each window once', len(got) == len(want),
                (len(got), len(want)))
        for tr, (k, p) in zip(got, want):
            s, (a, b) = tr.stats, (codes[p[0]], codes[p[1]])
            c.check('of its pair', (s.network, s.station, s.channel) ==
                    tuple(x + '-' + y for x, y in zip(a, b)))
            c.check('of its window', abs(s.corr_start - wins[k][0]) < 1e-6
                    and abs(s.corr_end - wins[k][0] - (n - 1) / sr) < 1e-6)
            c.check('its samples', len(tr.data) == nl == s.npts and
                    np.allclose(tr.data, results[k][p]))
            c.check('its lags', abs(s.start_lag - start[k][p]) < 1e-9 and
                    s.sampling_rate == sr and abs(
                        s.end_lag - start[k][p] - (nl - 1) / sr) < 1e-9)
            if have == 'there':
                c.check('its coordinates', tuple(s.get(x) for x in (
                    'stla', 'stlo', 'stel', 'evla', 'evlo', 'evel')) ==
                    place[a[1]] + place[b[1]] and (s.dist > 100) == (
                        a[1] != b[1]))
            else:
                c.check('no coordinates', 'stla' not in s)
    # a run that is interrupted has lost no more than one read
    for k, m in done:
        last = max([i for i in range(k) if wins[i][3]], default=-1)
        c.check('earlier reads are written', m >= sum(
            len(wins[i][2]) for i in range(last + 1)), (k, m))
