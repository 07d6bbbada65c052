"""C25 waveform coherence."""
import os
import warnings

from .common import contract, corr_header, dv_header
from .c07_stretch_estimate import SIDES, in_window, similarity, window

SM = 'seismic.monitor.stretch_mod:'
MO = 'seismic.monitor.monitor:'
WF = 'seismic.monitor.wfc:'
S = 'seismic.correlate.stream:'
PCP = 'seismic.monitor.post_corr_process:'
PROC = ('tw_start', 'tw_len', 'freq_min', 'freq_max')


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


@contract('C25', 'coherence with the reference', [SM + 'compute_wfc'],
          timeout=40)
def coherence(c):
    sides = c.choice('sides', SIDES)
    n = c.dim('npts', 1, gen=(1, 11))
    m = c.dim('rows', 2, gen=(2, 5))
    clean = c.flag('remove nans')
    mat = c.array('mat', (m, n), nan=True)
    ref = c.array('ref', (n,))
    tw, a, b = window(c, n, sides)
    old = mat.copy()
    r = c.fn(SM + 'compute_wfc')(mat, [tw], ref, sides, clean)
    i, = c.exists_index('i', [m])
    k, = c.exists_index('k', [n])
    c.check('one row per window', c.and_(r.shape[0] == 1, r.shape[1] == m))
    gap = c.and_(not clean, c.any([n], lambda q: c.isnan(c.at(mat, i, q))))
    x = lambda q: c.ite(c.isnan(c.at(mat, i, q)), 0.,  # noqa
                        lambda: c.at(mat, i, q)) if clean else c.at(mat, i, q)
    y = lambda q: c.at(ref, q)  # noqa
    w = lambda q: in_window(c, q, n, a, b, sides)  # noqa
    d, nn = similarity(c, n, x, y, w)
    c.check('normalised scalar product in the window', c.implies(
        c.and_(nn > 0, c.not_(gap)),
        lambda: c.eq(c.at(r, 0, i) * c.sqrt(nn), d)))
    c.check('missing with missing data', c.implies(
        gap, lambda: c.isnan(c.at(r, 0, i))))
    c.check('input untouched', c.eq(c.at(mat, i, k), c.at(old, i, k)))


@contract('C25', 'several windows and references',
          [SM + 'compute_wfc', SM + 'wfc_multi_reftr'], timeout=40)
def several(c):
    sides = c.choice('sides', ['both', 'single'])
    n = c.dim('npts', 3, gen=(3, 11))
    m = c.dim('rows', 2, gen=(2, 4))
    nref = c.choice('references', [1, 2, 3])
    one = c.flag('vector') if nref == 1 else False
    mat = c.array('mat', (m, n), nan=True)
    np = c.np()
    refs = [c.array('ref%d' % q, (n,), nan=True) for q in range(nref)]
    tws = [window(c, n, sides, str(q))[0] for q in range(2)]
    clean = c.flag('remove nans')
    R = refs[0] if one else np.vstack(refs)
    out = c.fn(SM + 'wfc_multi_reftr')(mat, R, tws, sides, clean)
    c.check('one result per reference', set(out) == {
        'reftr_%d' % q for q in range(nref)})
    i, = c.exists_index('i', [m])
    for q in range(nref):
        r = out['reftr_%d' % q]
        c.check('shape', c.and_(r.shape[0] == 2, r.shape[1] == m))
        for t in range(2):
            y = np.nan_to_num(refs[q]) if clean else refs[q]
            want = c.fn(SM + 'compute_wfc')(mat, [tws[t]], y, sides, clean)
            c.check('coherence of the window with the reference', c.eq(
                c.at(r, t, i), c.at(want, 0, i)))


def results(c, k, m, keys, proc=None):
    W = c.fn(WF + 'WFC')
    return [W({key: c.array('%s_%d' % (key, q), (1, m), nan=True)
               for key in keys}, dv_header(c, 2, channel='HHZ-HH%d' % q),
              dict(proc[q] if proc else dict.fromkeys(PROC, 1.)))
            for q in range(k)]


@contract('C25', 'average of components',
          [MO + 'average_components_wfc'])
def components(c):
    k = c.choice('components', [1, 2, 3])
    m = c.dim('rows', 1, gen=(1, 5))
    proc = [{key: c.choice('%s%d' % (key, q), [1., 2.] if q == k - 1 else
                           [1.]) for key in PROC} for q in range(k)]
    keys = ['reftr_0', 'reftr_1'][:c.choice('references', [1, 2])]
    ws = results(c, k, m, keys, proc)
    f = c.fn(MO + 'average_components_wfc')
    if any(p != proc[0] for p in proc):
        c.expect_raises(ValueError, lambda: f(ws), 'different windows')
        return
    out = quiet(lambda: f(ws))
    c.check('references', set(out) == set(keys))
    i, = c.exists_index('i', [m])
    for key in keys:
        v = [c.at(w[key], 0, i) for w in ws]
        cnt = sum([c.ite(c.isnan(x), 0., 1.) for x in v], 0.)
        tot = sum([c.ite(c.isnan(x), 0., lambda x=x: x) for x in v], 0.)
        r = c.at(out[key], 0, i)
        c.check('missing only if missing everywhere', c.eq(
            c.isnan(r), cnt == 0))
        c.check('mean of the available', c.implies(
            cnt > 0, lambda: c.eq(r * cnt, tot)))
    c.check('header', out.stats.channel == 'av' and out.stats.station ==
            ws[0].stats.station and dict(out.wfc_processing) == proc[0])
    c.check('input untouched', ws[0].stats.channel == 'HHZ-HH0')


@contract('C25', 'average over time', [WF + 'WFC.compute_average'],
          proof=False, cases=200, thorough=3000, bound='up to 6 rows')
def over_time(c):
    import numpy as np
    m = c.int('rows', 1, gen=(1, 6))
    keys = ['reftr_%d' % q for q in range(c.int('references', 1, gen=(1, 3)))]
    w = results(c, 1, m, keys)[0]
    quiet(w.compute_average)
    A = []
    for k in keys:
        v = [x for x in np.asarray(w[k])[0] if x == x]
        A.append(sum(v) / len(v) if v else np.nan)
    c.check('average of every reference', set(w.av) == {
        k + '_av' for k in keys} and all(np.isclose(
            w.av[k + '_av'], a, equal_nan=True) for k, a in zip(keys, A)),
        (w.av, A))
    A = [a for a in A if a == a]
    c.check('mean of the references', np.isclose(
        w.mean, sum(A) / len(A) if A else np.nan, equal_nan=True))


@contract('C25', 'table of bands and windows', [WF + 'WFCBulk.__init__'],
          proof=False, cases=200, thorough=3000,
          bound='up to 4 bands and 4 windows')
def table(c):
    import numpy as np
    W = c.fn(WF + 'WFC')
    ws = []
    val = {}
    for i in range(c.int('bands', 1, gen=(1, 4))):
        for j in range(c.int('windows%d' % i, 1, gen=(1, 4))):
            f0, t0 = 2. ** ((3 * i) % 4), [4., 0., 9., 2.][j]
            d = np.array([[c.real('v%d%d' % (i, j), gen=(-1, 1))]])
            ws.append(W({'reftr_0': d}, None, dict(
                freq_min=f0, freq_max=2 * f0, tw_start=t0, tw_len=5.)))
            if c.flag('averaged'):
                ws[-1].compute_average()
            val[1.5 * f0, t0 + 2.5] = d[0, 0]
    if c.flag('reversed'):
        ws = ws[::-1]
    B = c.fn(WF + 'WFCBulk')(ws)
    F, T = sorted({k[0] for k in val}), sorted({k[1] for k in val})
    c.check('frequencies', list(B.cfreq) == F, B.cfreq)
    c.check('lapse times', list(B.lw) == T, B.lw)
    want = np.array([[val.get((f, t), np.nan) for t in T] for f in F])
    c.check('values', B.wfc.shape == want.shape and np.array_equal(
        B.wfc, want, equal_nan=True), (B.wfc, want))


@contract('C25', 'references of successive times',
          [S + 'CorrBulk.extract_multi_trace'], proof=False, cases=250,
          thorough=3000, bound='up to 8 correlations')
def references(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    m, n = c.int('rows', 1, gen=(1, 8)), 4
    data = np.asarray(c.array('data', (m, n)))
    day = 86400
    t0 = UTC(2020, 1, 1)
    hours = [c.int('t%d' % i, 0, gen=(0, 20)) * 12 for i in range(m)]
    ln = c.choice('length', [6, 12, 24])
    st = corr_header(c, n, sr=2., start_lag=-1., network='A-B', station='S-T',
                     channel='Z-Z', location='-')
    st['corr_start'] = [t0 + 3600 * h for h in hours]
    st['corr_end'] = [t0 + 3600 * (h + ln) for h in hours]
    cb = c.fn(S + 'CorrBulk')(data.copy(), stats=st)
    kind = c.choice('kind', ['zero', 'regular', 'list'])
    method = c.choice('method', ['mean', 'median'])
    if kind == 'zero':
        inc = 0
        wins = None
    else:
        lo, hi = min(hours), max(hours) + ln
        if kind == 'regular':
            inc = c.choice('inc', [1, 2, 5])
            incs = [inc] * int(np.ceil((hi - lo) / (24. * inc)))
        else:
            inc = [c.choice('inc%d' % i, [1, 2, 5]) for i in range(
                c.int('number', 1, gen=(1, 3)))]
            incs = inc
        wins, a = [], lo
        for x in incs:
            wins.append((a - 12 * x, a + 36 * x))
            a += 24 * x
    out = quiet(lambda: cb.extract_multi_trace(inc, method))
    f = np.median if method == 'median' else np.mean
    if wins is None:
        want = f(data, axis=0)
    else:
        want = np.full((len(wins), n), np.nan)
        for k, (a, b) in enumerate(wins):
            ii = [i for i, h in enumerate(hours) if h <= b and h + ln >= a]
            if ii:
                want[k] = f(data[ii], axis=0)
    c.check('references', np.shape(out) == want.shape and np.allclose(
        out, want, equal_nan=True), (out, want))
    c.check('kept', cb.ref_trc is out)
    c.check('data untouched', np.array_equal(cb.data, data))


@contract('C25', 'coherence of a network', [
    MO + 'Monitor.compute_waveform_coherence',
    MO + 'Monitor.compute_waveform_coherence_bulk',
    S + 'CorrBulk.wfc'], proof=False, cases=20, thorough=200,
    bound='2 stations, 2 components, up to 3 processes')
def network(c):
    import logging
    from .mpi import run_ranks
    np = c.np()
    UTC = c.ext('obspy', 'UTCDateTime')
    Stats = c.fn('seismic.correlate.stats:CorrStats')
    Tr, St = c.fn(S + 'CorrTrace'), c.fn(S + 'CorrStream')
    sr, L = 8., 20.
    nlag = int(2 * L * sr) + 1
    t0, inc = UTC(2020, 1, 1), 3600.
    nwin = c.int('windows', 2, gen=(2, 4))
    rng = np.random.default_rng(c.int('seed', 0, gen=(0, 10 ** 6)))
    stations = ['A-A', 'A-B'][:c.int('stations', 1, gen=(1, 2))]
    comps = ['HHZ-HHZ', 'HHN-HHZ'][:c.int('components', 1, gen=(1, 2))]
    d = c.tmpdir()
    co = {'corr_args': {'lengthToSave': L}, 'subdivision': {},
          'preProcessing': []}
    raw, files = {}, []
    for s in stations:
        trs = []
        for ch in comps:
            base = rng.normal(size=nlag)
            for k in range(nwin):
                if k and c.flag('no data %s%s%d' % (s, ch, k)):
                    continue
                trs.append(Tr(base * 3 + rng.normal(size=nlag), _header=Stats(
                    dict(sampling_rate=sr, start_lag=-L, npts=nlag,
                         network='N-N', station=s, channel=ch, location='-',
                         corr_start=t0 + k * inc,
                         corr_end=t0 + k * inc + 1800))))
            raw[s, ch] = [t.copy() for t in trs if t.stats.channel == ch]
        f = os.path.join(d, 'N-N.%s.h5' % s)
        with c.fn('seismic.db.corr_hdf5:CorrelationDataBase')(
                f, corr_options=co) as db:
            db.add_correlation(St(trs))
        files.append(f)
    bands = [(.5, 1.5), (1., 3.), (.8, 2.)]
    nb = c.int('bands', 1, gen=(1, 3))
    wins = c.choice('lapse time windows', [
        [(2., 6.)], [(2., 6.), (5., 8.)], [(2., 6.), (0., .625), (5., 8.)],
        [(0., 1.25)], [(0., .625), (2., 6.)],
        [(2., 6.), (5., 6.)], [(1., 5.), (0., 5.), (6., 5.)]])
    one_length = len({x[1] for x in wins}) == 1
    oneb = nb == 1 and c.flag('number')
    onel = len(wins) == 1 and c.flag('one number')
    pre = [dict(function='envelope', args={})] if c.flag(
        'envelope') else []
    hours = c.choice('hours', [None, (0, 2), (1, 4)])
    gone = c.flag('without the second window')
    if hours:
        pre.insert(c.choice('position', [0, len(pre)]), dict(
            function='select_time', args=dict(
                start=(hours[0], 0, 0), end=(hours[1], 0, 0))))
    if gone:
        pre.append(dict(function='pop_at_utcs', args=dict(
            utcs=np.array([t0 + inc + 60]))))
    env = any(x['function'] == 'envelope' for x in pre)

    def used(tr):
        h = tr.stats.corr_start.hour
        return not (hours and not hours[0] <= h < hours[1] or gone
                    and h == 1)
    for k in raw:
        raw[k] = [t for t in raw[k] if used(t)]
    c.assume(all(raw.values()))
    wrong = c.choice('impossible band', [None, None, None, None, 0., .25])
    if wrong is not None:
        bands[nb - 1] = bands[nb - 1][0], bands[nb - 1][0] - wrong
    busy = c.flag('files open for reading elsewhere')
    opt = dict(
        subdir='wfc', start_date=str(t0), end_date=str(t0 + nwin * inc),
        date_inc=inc, win_len=inc, preprocessing=pre,
        freq_min=bands[0][0] if oneb else [x[0] for x in bands[:nb]],
        freq_max=bands[0][1] if oneb else [x[1] for x in bands[:nb]],
        tw_start=wins[0][0] if onel else [x[0] for x in wins],
        tw_len=wins[0][1] if onel or one_length else [
            x[1] for x in wins],
        dt_ref={'win_inc': 0, 'method': 'mean', 'percentile': 50},
        save_comps=c.flag('components saved'))
    if not pre and c.flag('no preprocessing given'):
        del opt['preprocessing']
    Mon = c.fn(MO + 'Monitor')

    def rank(comm, r, p):
        import copy
        m = Mon.__new__(Mon)
        m.logger = logging.getLogger('pyvc.silent')
        m.logger.disabled = True
        m.comm, m.rank, m.psize = comm, r, p
        m.infiles, m.netlist, m.statlist = files, ['N-N'] * len(
            files), list(stations)
        m.options = {'proj_dir': d, 'wfc': copy.deepcopy(opt)}
        return quiet(m.compute_waveform_coherence_bulk)
    p = c.choice('processes', [1, 2, 3])
    M = c.mod(MO[:-1])
    old, M.tqdm = M.tqdm, lambda x: x
    import h5py
    held = [h5py.File(f, 'r') for f in files] if busy else []
    try:
        if wrong is not None:
            c.expect_raises(ValueError, lambda: run_ranks(
                1, lambda comm: rank(comm, 0, 1)),
                'impossible band is refused')
            return
        run_ranks(p, lambda comm: rank(comm, comm.Get_rank(), p))
    finally:
        M.tqdm = old
        for f in held:
            f.close()
    read = c.fn(WF + 'read_wfc')
    want = {}
    starts = [float((t0 + k * inc).timestamp) for k in range(nwin)]
    for s in stations:
        for fmin, fmax in bands[:nb]:
            for a, ln in wins:
                if ln < 1:
                    continue
                per = []
                for ch in comps:
                    r = alone(c, np, raw[s, ch], starts, inc, fmin, fmax, a,
                              ln, sr, env)
                    per.append(r)
                    if opt['save_comps']:
                        want['WFC-N-N.%s.%s.f%a-%a.tw%a-%a.npz' % (
                            s, ch, fmin, fmax, a, ln)] = r
                want['WFC-N-N.%s.av.f%a-%a.tw%a-%a.npz' % (
                    s, fmin, fmax, a, ln)] = quiet(
                    lambda: np.nanmean(per, axis=0))
    got = set(os.listdir(os.path.join(d, 'wfc')))
    c.check('one file per station, band and window', got == set(want),
            sorted(got ^ set(want)))
    for f in sorted(got & set(want)):
        w = read(os.path.join(d, 'wfc', f))
        c.check('coherence', np.allclose(w['reftr_0'], want[f], atol=1e-5,
                                         equal_nan=True),
                (f, w['reftr_0'], want[f]))


def alone(c, np, trs, starts, inc, fmin, fmax, a, ln, sr, env):
    """coherence from the definition, without bulk processing"""
    A = np.array([t.data / np.max(np.abs(t.data)) for t in trs])
    B = np.full((len(starts), A.shape[1]), np.nan)
    for t, x in zip(trs, A):
        B[int(round((t.stats.corr_start.timestamp - starts[0]) / inc))] = x
    B = c.fn(PCP + 'corr_mat_filter')(B, trs[0].stats, (fmin, fmax), 3)
    if env:
        from scipy.signal import hilbert
        B = np.abs(hilbert(B, axis=1))
    ctr = (B.shape[1] - 1) // 2
    k = np.arange(B.shape[1]) - ctr
    keep = ~np.isnan(B).any(axis=1)
    ref = B[keep].mean(axis=0)
    w = (np.abs(k) >= a * sr) & (np.abs(k) < (a + ln) * sr)
    r = np.full(len(starts), np.nan)
    for i in np.nonzero(keep)[0]:
        x, y = B[i][w], ref[w]
        r[i] = (x @ y) / np.sqrt((x @ x) * (y @ y))
    return r[None]
