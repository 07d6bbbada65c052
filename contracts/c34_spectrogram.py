"""C34 the spectral time series of a record."""
import threading
import warnings

from .common import contract
from .mpi import run_ranks
from .c31_prepare import record, quiet

RA = 'seismic.utils.raw_analysis:'
SC = 'seismic.trace_data.waveform:Store_Client.'


def prepared(tr, rate, respond):
    """a contiguous piece after preprocessing, None if it has to be
    refused"""
    import numpy as np
    tr = tr.copy()
    sr = tr.stats.sampling_rate
    if rate > sr:
        return None
    if rate < sr:
        f = sr / rate
        tr.filter('lowpass_cheby_2', freq=rate * (.5 if f <= 16 else .45),
                  maxorder=12)
        if f == int(f):
            tr.decimate(int(f), no_filter=True)
        else:
            tr.resample(rate)
    if respond:
        tr.data = tr.data * 3
    x, n = tr.data, tr.stats.npts
    if n > 1:
        i = np.arange(n)
        p = np.polyfit(i, x, 1) if n > 2 else None
        tr.data = x - (np.polyval(p, i) if p is not None else x)
    tr.filter('highpass', freq=0.01)
    return tr


def spectrum(x, fs):
    """power spectral density: mean of half overlapping Hann windows"""
    import numpy as np
    n = min(256, len(x))
    w = .5 - .5 * np.cos(2 * np.pi * np.arange(n) / n)
    parts, a = [], 0
    while a + n <= len(x):
        y = x[a:a + n]
        parts.append(np.abs(np.fft.rfft((y - y.mean()) * w))**2)
        a += n - n // 2
    S = np.mean(parts, 0) / fs / (w**2).sum()
    S[1:(len(S) if n % 2 else -1)] *= 2
    return np.arange(len(S)) * fs / n, S


def expected(c, streams, win, rate, respond):
    import numpy as np
    Stream = c.ext('obspy', 'Stream')
    from scipy.interpolate import PchipInterpolator
    out = []
    for st in streams:
        parts = [prepared(tr, rate, respond) for tr in st]
        if not parts or None in parts:
            continue
        tr = Stream(parts).merge()[0]
        m = np.ma.getmaskarray(tr.data)
        x = np.ma.getdata(tr.data)
        step = int(win * rate)
        for k in range(0, len(x) - step, step):
            if m[k:k + step + 1].any():
                continue
            f, S = spectrum(x[k:k + step + 1], rate)
            f2 = 10**np.linspace(-3, np.log10(f[-1]), 512)
            out.append((tr.stats.starttime + k / rate, f2,
                        PchipInterpolator(f, S)(f2)))
    return sorted(out, key=lambda o: o[0])


def close(x, y):
    import numpy as np
    return x.shape == y.shape and np.allclose(
        x, y, rtol=1e-6, atol=1e-6 * (1e-30 + np.abs(y).max()))


def compare(c, want, out):
    import numpy as np
    f, t, S = out
    c.check('times', list(t) == [w[0] for w in want], (t, want))
    c.check('frequencies', np.allclose(f, want[0][1]))
    c.check('one spectrum per time', S.shape == (512, len(want)))
    for k, w in enumerate(want):
        c.check('spectrum', close(S[:, k], w[2]), k)


class World:
    """the communicator of the process that asks"""

    def __init__(self):
        self.local = threading.local()

    def __getattr__(self, name):
        return getattr(self.local.comm, name)


def communicate(c, P, f):
    world = World()

    class MPI:
        COMM_WORLD = world
    c.patch(RA + 'MPI', MPI)

    def go(comm):
        world.local.comm = comm
        return f(comm.Get_rank())
    return run_ranks(P, go)


@contract('C34', 'spectral time series', [
    RA + 'spct_series_welch', RA + 'preprocess'], proof=False, cases=60,
    thorough=600, bound='up to 4 streams of up to 600 s, up to 4 processes')
def series(c):
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    c.mod('seismic.utils.raw_analysis')
    sr, t0 = float(c.choice('sr', [2, 4, 5])), UTC(2015, 3, 1)
    rate = c.choice('rate', [2, 2, 4, 1])
    win = c.choice('win', [20, 50, 140])
    respond = c.flag('response')
    c.patch('obspy:Trace.remove_response',
            lambda tr: setattr(tr, 'data', tr.data * 3))
    streams = []
    for i in range(c.int('streams', 1, gen=(1, 4))):
        code = ('AA', 'S1', '00', 'HHZ')
        st = Stream([] if not c.int('empty%d' % i, 0, gen=(0, 3)) else
                    record(c, sr, t0 + 600 * i, 600, code, str(i)))
        # very short pieces do not survive the filters
        for tr in st.traces[:]:
            if tr.stats.npts < 40:
                st.remove(tr)
        streams.append(st)
    if c.flag('backwards'):
        streams = streams[::-1]
    want = expected(c, streams, win, rate, respond)
    given = [st.copy().merge() if c.flag('merged') else st.copy()
             for st in streams]

    def go(rank):
        return c.fn(RA + 'spct_series_welch')(
            iter([s.copy() for s in given]), win, rate / 2, respond)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not want:
            c.expect_raises(ValueError, lambda: communicate(c, 1, go),
                            'nothing to compute')
            return
        compare(c, want, communicate(c, 1, go)[0])
        out = communicate(c, c.int('processes', 2, gen=(2, 4)), go)
    compare(c, want, out[0])
    c.check('others have nothing', all(
        o == (None, None, None) for o in out[1:]))


@contract('C34', 'spectrogram of a channel', [
    SC + 'compute_spectrogram', SC + '_generate_time_windows'],
    proof=False, cases=25, thorough=200,
    bound='up to one hour of a record at 1 or 2 Hz')
def channel(c):
    import numpy as np
    Stream, UTC = c.ext('obspy', 'Stream'), c.ext('obspy', 'UTCDateTime')
    Trace = c.ext('obspy', 'Trace')
    c.mod('seismic.utils.raw_analysis')
    t0, sr = UTC(2015, 12, 31, 23, 30), float(c.choice('sr', [1, 2]))
    d = c.tmpdir()
    sc = c.fn('seismic.trace_data.waveform:Store_Client')(None, d)
    rng = np.random.RandomState(c.int('seed', 0, gen=(0, 10**6)))
    x = rng.randn(int(3600 * sr))
    asked = []

    def load(*a, **k):
        asked.append((a, k))
        a, b = a[4:6]
        st = Stream([Trace(x.copy(), header=dict(
            network='AA', station='S1', location='00', channel='HHZ',
            sampling_rate=sr, starttime=t0))])
        st.trim(a, b)
        return st
    sc._load_local = load
    win = c.choice('win', [60, 90])
    inc = win * c.int('increment', 1, gen=(1, 20))
    a, b = t0 + c.choice('from', [0, 30, 600, 12.5]), t0 + c.choice(
        'to', [1000, 1800, 3590])
    c.expect_raises(ValueError, lambda: sc.compute_spectrogram(
        'AA', 'S1', 'HHZ', a, b, win, sr / 2, win - 1), 'short increment')
    call = lambda rank: sc.compute_spectrogram(
        'AA', 'S1', 'HHZ', a, b, win, sr / 2, inc, False)
    n = int(np.ceil((b - a) / inc))
    streams = [load('AA', 'S1', '*', 'HHZ', a + inc * i, a + inc * (i + 1))
               for i in range(n)]
    asked.clear()
    want = expected(c, streams, win, sr, False)
    if want:
        out = quiet(lambda: communicate(c, 1, call)[0])
    else:
        # no piece holds both ends of a window
        c.expect_raises(ValueError, lambda: quiet(
            lambda: communicate(c, 1, call)), 'nothing to compute')
    c.check('requests', [q[0] for q in asked] == [
        ('AA', 'S1', '*', 'HHZ', a + inc * i, a + inc * (i + 1))
        for i in range(n)], asked)
    c.check('with response', all(q[1]['attach_response'] for q in asked))
    if want:
        compare(c, want, out)
