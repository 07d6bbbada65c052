"""C17 time windows of the monitoring and the estimate computed in them."""
from copy import deepcopy
import os
import warnings

from .common import contract

MON = 'seismic.monitor.monitor:'
MTL = MON + 'make_time_list'
CVC = MON + 'Monitor.compute_velocity_change'


@contract('C17', 'list of time windows', [MTL])
def times(c):
    a = c.time('start')
    b = a + c.real('span', gen=(-20, 500))
    inc = c.real('increment', gen=(-2, 40))
    win = c.real('length', gen=(-2, 60))
    bad = c.or_(inc <= 0, win <= 0, a >= b)
    if c.case(bad):
        c.expect_raises(ValueError, lambda: c.fn(MTL)(a, b, inc, win),
                        'refused')
        return
    s, e = c.fn(MTL)(a, b, inc, win)
    n = s.shape[0]
    i, = c.exists_index('i', [n])
    c.check('one end per start', c.eq(e.shape[0], n))
    c.check('regular starts', c.eq(c.at(s, i), a.timestamp + i * inc))
    c.check('length of the windows', c.eq(c.at(e, i), c.at(s, i) + win))
    c.check('within the time span', c.at(s, i) < b.timestamp)
    c.check('complete', a.timestamp + n * inc >= b.timestamp)


def wave(np, t):
    """a coda-like signal within the band 0.5 - 2 Hz"""
    return (np.cos(2 * np.pi * 1.1 * t) + np.cos(2 * np.pi * .83 * t + 1.)
            + np.cos(2 * np.pi * 1.37 * t + 2.)) * np.exp(-np.abs(t) / 30.)


def stretched(np, t, eps):
    return wave(np, t * np.exp(-eps))


@contract('C17', 'velocity change of the lapse time window', [CVC],
          proof=False, cases=40, thorough=400,
          bound='up to 6 windows, lags up to 30 s')
def pipeline(c):
    import logging
    np = c.np()
    UTC = c.ext('obspy', 'UTCDateTime')
    S = 'seismic.correlate.stream:'
    Stats = c.fn('seismic.correlate.stats:CorrStats')
    sr, L = 8., 30.
    nlag = int(2 * L * sr) + 1
    t = np.arange(nlag) / sr - L
    tws = c.choice('tw_start', [2, 3, 5, 7, 9, 4, 6, 8, 20])
    twl = c.int('tw_len', 8, gen=(8, 12))
    sides = c.choice('sides', ['both', 'left', 'right'])
    tt, dist = 0, None
    compute = c.flag('travel time')
    if c.flag('distance known'):
        dist = c.real('dist', gen=(0, 12))
        el, el2 = (c.choice('elevation%d' % i, [0., 1500., 3000., -400.])
                   for i in range(2))
        if compute:
            tt = round(np.sqrt(dist ** 2 + ((el - el2) / 1000.) ** 2) / 2., 0)
    if c.flag('fits exactly'):
        twl = L - tws - tt + c.choice('over', [0, 0, .5])
        c.assume(twl > 6)
    a, b = tws + tt, tws + tt + twl
    full = c.choice('window to the end', [False, False, True])
    if full:
        b = L
    fits = b <= L
    nwin = c.int('windows', 2, gen=(2, 6))
    inc, win = 3600., c.choice('win_len', [3600., 7200.])
    step = 0.004
    t0 = UTC(2020, 1, 1)
    have = [c.flag('data%d' % k) or k == 0 for k in range(nwin)]
    given = c.flag('reference given')
    mirrored = not given and c.flag('mirrored')
    if mirrored:
        sides = 'single'
    # the mean of the correlations is only a reference if they are in phase
    big = 5 if given else 1 if b > 20 else 2
    eps = [step * c.int('eps%d' % k, -big, gen=(-big, big))
           for k in range(nwin)]
    if win > inc:
        eps = [eps[0]] * nwin
    other = -0.02 if eps[0] > 0 else 0.02
    sgn = {'both': np.abs(t), 'single': np.abs(t), 'left': -t, 'right': t}[sides]
    inside = (sgn > a - 1.5) & (sgn < b + 1.5)
    trs = []
    Tr, St = c.fn(S + 'CorrTrace'), c.fn(S + 'CorrStream')
    amp = [c.real('amp%d' % k, gen=(1, 50)) for k in range(nwin)]
    for k in range(nwin):
        if not have[k]:
            continue
        x = np.where(inside, stretched(np, t, eps[k]),
                     stretched(np, t, other)) * amp[k]
        h = dict(sampling_rate=sr, start_lag=-L, npts=nlag,
                 network='N-N', station='A-B', channel='HHZ-HHZ',
                 location='-', corr_start=t0 + k * inc,
                 corr_end=t0 + (k + 1) * inc)
        if dist is not None:
            h.update(dist=dist, stel=el, evel=el2)
        trs.append(Tr(x, _header=Stats(h)))
    d = c.tmpdir()
    co = {'corr_args': {'lengthToSave': L}, 'subdivision': {},
          'preProcessing': []}
    with c.fn('seismic.db.corr_hdf5:CorrelationDataBase')(
            d + '/x.h5', corr_options=co) as db:
        db.add_correlation(St(trs))
    start, end = c.fn(MTL)(t0, t0 + nwin * inc, inc, win)
    Mon = c.fn(MON + 'Monitor')
    m = Mon.__new__(Mon)
    m.logger = logging.getLogger('pyvc.silent')
    m.logger.disabled = True
    m.outdir, m.starttimes, m.endtimes = d, start, end
    m.options = {'dv': dict(
        tw_start=tws, tw_len=None if full else twl, compute_tt=compute,
        rayleigh_wave_velocity=2., freq_min=.5, freq_max=2.,
        dt_ref={'win_inc': 0, 'method': 'mean', 'percentile': 50},
        stretch_steps=21, stretch_range=.04, sides=sides,
        return_sim_mat=True, plot_vel_change=False)}
    dvo = m.options['dv']
    dvo['return_sim_mat'] = c.flag('matrix')
    dvo['plot_vel_change'] = c.flag('plot')
    m.options.update(proj_dir=d, fig_subdir='fig')
    post, plots, used = [], [], []
    Dv, Bulk = c.fn('seismic.monitor.dv:DV'), c.fn(S + 'CorrBulk')

    def posterior(self, **k):
        post.append(k)
        out = deepcopy(self)
        out.value = out.value + 1
        return out
    c.patch('seismic.monitor.dv:DV.smooth_sim_mat', posterior)
    c.patch('seismic.monitor.dv:DV.plot', lambda self, *a, **k:
            plots.append((a, k)))
    clip = Bulk.clip
    c.patch(S + 'CorrBulk.clip', lambda self, *a, **k: (
        used.append((a, k)), clip(self, *a, **k))[1])
    resample = Bulk.resample

    def average(self, *a, **k):
        c.check('correlations are normalised before they are averaged',
                np.allclose(np.nanmax(np.abs(self.data), axis=1), 1))
        return resample(self, *a, **k)
    c.patch(S + 'CorrBulk.resample', average)
    popped = None
    if c.flag('preprocessing'):
        dvo['preprocessing'] = [dict(function='clip', args=dict(thres=1000))]
        if sum(have) > 2 and win == inc and c.flag('without one'):
            popped = c.int('popped', 0, gen=(1, nwin - 1))
            dvo['preprocessing'].insert(c.int('where', 0, gen=(0, 1)), dict(
                function='pop_at_utcs', args=dict(utcs=np.array([
                    t0 + popped * inc + 1800]))))
    if mirrored:
        dvo['preprocessing'] = dvo.get('preprocessing', []) + [dict(
            function='mirror', args={})]
    if c.flag('postprocessing'):
        dvo['postprocessing'] = [dict(function='smooth_sim_mat', args=dict(
            win_len=7))]
    ref = c.fn('seismic.monitor.post_corr_process:corr_mat_filter')(
        np.array([wave(np, t)]), trs[0].stats, (.5, 2.), 3)
    if len(ref.shape) > 1:
        ref = ref[0]

    import h5py
    busy = c.flag('file open for reading elsewhere')

    def go():
        held = h5py.File(d + '/x.h5', 'r') if busy else None
        try:
            run()
        finally:
            if held:
                held.close()

    def run():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.compute_velocity_change(
                d + '/x.h5', 'subdivision', 'N-N', 'A-B', 'HHZ-HHZ',
                ref_trcs=ref if given else None)
    if not fits:
        c.expect_raises(ValueError, go, 'window beyond the correlation')
        c.check('nothing written', not [f for f in os.listdir(d)
                                        if f.startswith('DV')])
        return
    go()
    dv = c.fn('seismic.monitor.dv:read_dv')(d + '/DV-N-N.A-B.HHZ-HHZ.npz')
    c.check('one value per window', len(dv.value) == nwin)
    if popped is not None:
        have[popped] = False
    c.check('preprocessing functions of the options', len(used) == sum(
        f['function'] == 'clip' for f in dvo.get('preprocessing', [])) and all(
            u == ((), dict(thres=1000)) for u in used), used)
    c.check('postprocessing functions of the options', post == (
        [dict(win_len=7)] if 'postprocessing' in dvo else []), post)
    if post:
        dv.value = dv.value - 1
    c.check('plot if asked for', len(plots) == dvo['plot_vel_change'])
    if dvo['return_sim_mat']:
        c.check('similarity matrix', dv.sim_mat.shape == (nwin, 21))
    else:
        c.check('no similarity matrix', not np.size(dv.sim_mat))
    ok = np.array([have[k] or (win > inc and k + 1 < nwin and have[k + 1])
                   for k in range(nwin)])
    c.check('missing without data', np.array_equal(np.isnan(dv.value), ~ok),
            (dv.value, ok))
    diff = (dv.value - eps)[ok]
    if not given:       # relative to the mean of the correlations
        diff = diff - diff[0]
    c.check('stretch of the window', np.all(
        np.abs(diff) <= step * 1.01), (dv.value, eps))
    c.check('similar', np.all(dv.corr[ok] > .9), dv.corr)
    c.check('candidates', np.allclose(dv.second_axis,
                                      np.linspace(-.04, .04, 21)))
    c.check('times of the windows', all(
        abs(q.timestamp - s) < 1e-3 for q, s in zip(dv.stats.corr_start,
                                                    start)))
    c.check('codes', (dv.stats.network, dv.stats.station, dv.stats.channel)
            == ('N-N', 'A-B', 'HHZ-HHZ'))
    c.check('processing parameters', dv.dv_processing['freq_min'] == .5
            and dv.dv_processing['freq_max'] == 2.)
