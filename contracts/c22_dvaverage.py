"""C22 averages of velocity change estimates."""
import os
import warnings

from .common import contract, dv_header as header

MON = 'seismic.monitor.monitor:'
DVM = 'seismic.monitor.dv:DV'
AC, ACM = MON + 'average_components', MON + 'average_components_mem_save'


def nan_at(c, corr, val):
    """value that is missing exactly where corr is"""
    np = c.np()
    return np.where(np.isnan(corr), np.nan, np.nan_to_num(val))


@contract('C22', 'average of the similarities', [AC, ACM], timeout=30)
def average(c):
    n = c.choice('dvs', [1, 2, 3])
    nt = c.dim('times', 1, gen=(1, 5))
    ns = c.dim('candidates', 1, gen=(1, 5))
    lazy = c.choice('function', ['list', 'generator'])
    scatter = c.flag('scatter')
    np = c.np()
    axis = c.array('axis', (ns,))
    differ = c.choice('differing', ['none', 'channel', 'network'])
    sims, dvs, corrs, vals = [], [], [], []
    for k in range(n):
        s = c.array('sim%d' % k, (nt, ns), nan=True)
        co = c.array('corr%d' % k, (nt,), nan=True)
        va = nan_at(c, co, c.array('value%d' % k, (nt,), nan=True))
        ch = 'HHZ-HHZ' if differ != 'channel' or k == 0 else 'HHN-HHN'
        net = 'N-N' if differ != 'network' or k == 0 else 'M-M'
        sims.append(s.copy())
        corrs.append(co.copy())
        vals.append(va.copy())
        dvs.append(c.fn(DVM)(co, va, 'stretch', s, axis.copy(), 'stretch',
                             header(c, channel=ch, network=net)))
    if lazy == 'list':
        out = c.fn(AC)(dvs, scatter)
    else:
        out = c.fn(ACM)((d for d in dvs), scatter)
    i, j = c.exists_index('ij', [nt, ns])
    cnt, tot = 0, 0.
    for k in range(n):
        x = c.at(sims[k], i, j)
        cnt = cnt + c.ite(c.isnan(x), 0, 1)
        tot = tot + c.ite(c.isnan(x), 0., x)
    r = c.at(out.sim_mat, i, j)
    c.check('missing only if missing in all',
            c.eq(c.isnan(r), cnt == 0))
    c.check('mean of the available similarities', c.implies(
        cnt > 0, lambda: c.eq(r * cnt, tot)))
    corr, val = c.at(out.corr, i), c.at(out.value, i)
    ok = c.not_(c.isnan(corr))
    c.check('missing together', c.eq(c.isnan(val), c.isnan(corr)))
    c.check('no similarity is larger', c.implies(
        c.not_(c.isnan(r)), lambda: c.and_(ok, r <= corr)))
    best = c.at(c.np().argmax(np.nan_to_num(out.sim_mat, nan=-np.inf),
                              axis=1), i)
    c.check('similarity reached', c.implies(
        ok, lambda: c.eq(c.at(out.sim_mat, i, best), corr)))
    c.check('value belongs to the largest similarity', c.implies(
        ok, lambda: c.eq(c.at(axis, best), val)))
    c.check('available', c.eq(c.at(out.avail, i), ok))
    st = 0
    for k in range(n):
        st = st + c.ite(c.isnan(c.at(corrs[k], i)), 0, 1)
    c.check('number of estimates', c.eq(c.at(out.n_stat, i), st))
    if scatter:
        for k in range(n):
            c.check('single estimates', c.and_(
                c.eq(c.at(out.corrs, k, i), c.at(corrs[k], i)),
                c.eq(c.at(out.stretches, k, i), c.at(vals[k], i))))
    else:
        c.check('no single estimates',
                out.corrs is None and out.stretches is None)
    for k in range(n):
        c.check('inputs untouched', c.and_(
            c.eq(c.at(dvs[k].sim_mat, i, j), c.at(sims[k], i, j)),
            c.eq(c.at(dvs[k].corr, i), c.at(corrs[k], i)),
            c.eq(c.at(dvs[k].value, i), c.at(vals[k], i)),
            c.eq(c.at(dvs[k].second_axis, j), c.at(axis, j))))
    c.check('codes', (out.stats.network, out.stats.station, out.stats.channel)
            == ('av' if n > 1 and differ == 'network' else 'N-N', 'STA-STA',
                'av' if n > 1 and differ == 'channel' else 'HHZ-HHZ'))
    c.check('codes of the inputs', all(
        d.stats.channel in ('HHZ-HHZ', 'HHN-HHN') for d in dvs))


def peaks(np, nt, ns, pos, rng=None):
    """similarity matrix with a bump of width one at pos"""
    m = np.full((nt, ns), np.nan)
    for i, p in enumerate(pos):
        if p is not None:
            m[i] = np.exp(-(np.arange(ns) - p) ** 2 / 8.)
    return m


def concrete_dv(c, m, axis, t0=0, **kw):
    np = c.np()
    some = ~np.all(np.isnan(m), axis=1)
    corr = np.full(len(m), np.nan)
    val = np.full(len(m), np.nan)
    corr[some] = np.nanmax(m[some], axis=1)
    val[some] = axis[np.nanargmax(m[some], axis=1)]
    st = kw.pop('stats', None)
    if st is None:
        st = header(c, t=len(m), **kw)
    return c.fn(DVM)(corr, val, 'stretch', m, axis, 'stretch', st)


@contract('C22', 'what enters the average', [AC, ACM], proof=False,
          cases=200, bound='up to 4 estimates, 4 times, 4 candidates')
def entering(c):
    np = c.np()
    lazy = c.flag('generator')
    n = c.int('n', 1, gen=(1, 4))
    dvs, use = [], []
    kinds = []
    low = c.flag('negative similarities')
    hole = c.int('candidate without data', 0, gen=(0, 3))
    quantity = c.choice('quantity', ['stretch', 'shift'])
    for k in range(n):
        kind = 'good' if k == 0 else c.choice('kind%d' % k, [
            'good', 'good', 'averaged', 'times', 'candidates', 'axis',
            'avsta'])
        nt = 3 if kind == 'times' else 2
        ns = 3 if kind == 'candidates' else 4
        axis = np.arange(ns) * (2. if kind == 'axis' else 1.)
        m = c.array('m%d' % k, (nt, ns), nan=True)
        if low:
            m = -abs(m) - 1
            m[:, min(hole, ns - 1)] = np.nan
        dv = concrete_dv(c, m, axis, channel='av' if kind == 'averaged'
                         else 'HHZ-HHZ', station='av' if kind == 'avsta'
                         else 'S%d-S%d' % (k, k))
        dv.dv_processing = {'freq_min': 1., 'freq_max': 2.}
        dv.value_type, dv.method = quantity, quantity
        dvs.append(dv)
        kinds.append(kind)
        if kind == 'good':
            use.append(m.copy())
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f = c.fn(ACM)((d for d in dvs), True) if lazy else \
            c.fn(AC)(dvs, True)
        told = sum('kipp' in str(x.message) for x in w)
        warnings.simplefilter('ignore')
        want = np.nanmean(use, axis=0)
    c.check('average of the usable estimates only',
            np.allclose(f.sim_mat, want, equal_nan=True))
    some = ~np.all(np.isnan(want), axis=1)
    c.check('value of the most similar candidate', np.array_equal(
        np.isnan(f.value), ~some) and np.array_equal(
            f.value[some], np.arange(4.)[np.nanargmax(want[some], axis=1)]))
    c.check('single estimates of the usable ones',
            len(f.corrs) == len(use) and len(f.stretches) == len(use))
    c.check('quantity and processing', f.value_type == f.method == quantity
            and f.dv_processing == {'freq_min': 1., 'freq_max': 2.})
    c.check('user is told', told == n - len(use))
    c.check('station code', f.stats.station == (
        'S0-S0' if len(use) == 1 else 'av'))
    c.check('number of estimates', np.all(f.n_stat == np.sum(
        [~np.all(np.isnan(u), axis=1) for u in use], axis=0)))


@contract('C22', 'estimates of different methods', [AC, ACM], proof=False,
          cases=30, bound='2 estimates')
def methods(c):
    np = c.np()
    lazy = c.flag('generator')
    a = concrete_dv(c, np.ones((2, 3)), np.arange(3.))
    b = concrete_dv(c, np.ones((2, 3)), np.arange(3.))
    b.method = 'wavelet'
    if c.flag('swap'):
        a, b = b, a
    c.expect_raises(TypeError, lambda: (
        c.fn(ACM)(d for d in (a, b)) if lazy else c.fn(AC)([a, b])),
        'refused')


CDS = MON + 'correct_dv_shift'


@contract('C22', 'shift between reference periods', [CDS], proof=False,
          cases=300, bound='up to 7 times, 41 candidates')
def shifts(c):
    np = c.np()
    nt, ns = c.int('times', 3, gen=(3, 7)), 41
    axis = (np.arange(ns) - 20) * c.choice('step', [0.01, 0.5, 1.])
    off = c.int('offset', -6, gen=(-6, 6))
    true = [c.int('v%d' % i, 14, gen=(14, 26)) for i in range(nt)]
    a0 = [c.flag('gap0%d' % i) and i > 0 for i in range(nt)]
    a1 = [c.flag('gap1%d' % i) and i > 0 for i in range(nt)]
    method = c.choice('method', ['mean', 'median'])
    if any(x != y for x, y in zip(a0, a1)):
        # estimates over different windows differ by more than the offset
        true = [20] * nt
    c.assume(any(not x and not y for x, y in zip(a0, a1)))
    s0 = peaks(np, nt, ns, [None if g else v + off
                            for g, v in zip(a0, true)])
    s1 = peaks(np, nt, ns, [None if g else v for g, v in zip(a1, true)])
    if c.flag('negative similarities'):
        # only the order of the similarities matters for the position
        s0, s1 = s0 - 2., s1 - 2.
    d0, d1 = concrete_dv(c, s0.copy(), axis), concrete_dv(c, s1.copy(), axis)
    r0, r1 = c.fn(CDS)(d0, d1, method)
    c.check('same objects', r0 is d0 and r1 is d1)
    want = np.array([np.nan if g else axis[v] for g, v in zip(a0, true)])
    c.check('values agree with the other estimate',
            np.allclose(d0.value, want, equal_nan=True))
    j = np.arange(8, ns - 8)
    c.check('similarities move along', np.allclose(
        d0.sim_mat[:, j], s0[:, j + off], equal_nan=True))
    c.check('other estimate untouched', np.array_equal(
        d1.sim_mat, s1, equal_nan=True) and np.allclose(
            d1.value, [np.nan if g else axis[v] for g, v in zip(a1, true)],
            equal_nan=True))


@contract('C22', 'measured shift between reference periods', [CDS],
          proof=False, cases=300, bound='up to 7 times, 41 candidates')
def measured(c):
    """the offset of the means (weighted by the similarity) or medians of the
    common period and n_overlap times around it"""
    np = c.np()
    nt, ns = c.int('times', 3, gen=(3, 9)), 41
    axis = (np.arange(ns) - 20) * c.choice('step', [0.01, 0.5, 1.])
    sims, vals, corrs = [], [], []
    for k in range(2):
        pos = [None if c.flag('gap%d%d' % (k, i)) else c.int(
            'v%d%d' % (k, i), 14, gen=(14, 26)) for i in range(nt)]
        amp = np.array([c.choice('amp%d%d' % (k, i), [.1, .3, .6, 1.])
                        for i in range(nt)])
        sims.append(peaks(np, nt, ns, pos) * amp[:, None])
        corrs.append(np.array([np.nan if p is None else a
                               for p, a in zip(pos, amp)]))
        vals.append(np.array([np.nan if p is None else axis[p]
                              for p in pos]))
    both = ~np.isnan(vals[0] + vals[1])
    c.assume(both.any())
    n = c.int('overlap', 0, gen=(0, 3))
    a = max(np.where(both)[0].min() - n, 0)
    b = np.where(both)[0].max() + n + 1
    m = []
    method = c.choice('method', ['mean', 'median'])
    for v, w in zip(vals, corrs):
        v, w = v[a:b], w[a:b]
        v, w = v[~np.isnan(v)], w[~np.isnan(v)]
        m.append(np.sum(v * w) / np.sum(w) if method == 'mean'
                 else np.median(v))
    roll = (m[1] - m[0]) / (axis[1] - axis[0])
    c.assume(abs(abs(roll - np.floor(roll)) - .5) > 1e-6)
    roll = int(round(roll))
    c.assume(abs(roll) <= 6)
    d0 = concrete_dv(c, sims[0].copy(), axis)
    d1 = concrete_dv(c, sims[1].copy(), axis)
    c.fn(CDS)(d0, d1, method, n) if n or c.flag('default') else \
        c.fn(CDS)(d0, d1, method)
    step = axis[1] - axis[0]
    c.check('moved by the offset of the two', np.allclose(
        d0.value, vals[0] + roll * step, equal_nan=True), (roll, d0.value))
    c.check('other estimate untouched', np.array_equal(
        d1.sim_mat, sims[1], equal_nan=True) and np.allclose(
            d1.value, vals[1], equal_nan=True))
    if c.flag('unknown method'):
        c.expect_raises(ValueError, lambda: c.fn(CDS)(d0, d1, 'mode'),
                        'refused')


@contract('C22', 'average of successive periods', [
    AC, MON + 'correct_time_shift_several', CDS], proof=False, cases=200,
    bound='up to 4 periods')
def stitched(c):
    """estimates with their own references become one curve"""
    np = c.np()
    n = c.int('periods', 1, gen=(1, 4))
    axis = np.arange(41) - 20.
    ov = c.int('overlap', 0, gen=(0, 2))
    a, parts = 0, []
    for k in range(n):
        ln = c.int('length%d' % k, 3, gen=(3, 6))
        parts.append((a, a + ln))
        # the next one starts within this one, or soon after its end
        a = a + ln + c.int('gap%d' % k, -2, gen=(-2, ov - 1))
    nt = parts[-1][1]
    off = [c.int('offset%d' % k, -4, gen=(-4, 4)) for k in range(n)]
    order = list(range(n))
    if c.flag('reversed'):
        order = order[::-1]
    method = c.choice('method', ['mean', 'median'])
    sims = []
    for (x, y), o in zip(parts, off):
        sims.append(peaks(np, nt, 41, [20 + o if x <= i < y else None
                                       for i in range(nt)]))
    dvs = [concrete_dv(c, sims[k].copy(), axis) for k in order]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = c.fn(AC)(dvs, False, correct_shift=True,
                       correct_shift_method=method,
                       correct_shift_overlap=ov)
    here = np.array([any(x <= i < y for x, y in parts) for i in range(nt)])
    c.check('missing between the periods', np.array_equal(
        ~np.isnan(out.value), here))
    c.check('one curve', np.allclose(out.value[here], off[0]),
            (out.value, off, parts))
    c.check('number of estimates', np.array_equal(out.n_stat, [
        sum(x <= i < y for x, y in parts) for i in range(nt)]))


@contract('C22', 'estimates too far apart are not aligned', [CDS],
          proof=False, cases=100, bound='6 times')
def apart(c):
    np = c.np()
    axis = np.arange(21) - 10.
    k = c.int('last of the first', 0, gen=(0, 3))
    m = c.int('first of the second', 1, gen=(1, 5))
    c.assume(k < m)
    ov = c.int('overlap', 0, gen=(0, 4))
    s0 = peaks(np, 6, 21, [10 if i <= k else None for i in range(6)])
    s1 = peaks(np, 6, 21, [12 if i >= m else None for i in range(6)])
    d0, d1 = concrete_dv(c, s0, axis), concrete_dv(c, s1, axis)
    if c.flag('swap'):
        d0, d1 = d1, d0
    if m - k > ov:
        c.expect_raises(ValueError, lambda: c.fn(CDS)(d0, d1, 'mean', ov),
                        'refused')
    else:
        c.fn(CDS)(d0, d1, 'mean', ov)
        c.check('aligned', np.allclose(
            np.nanmean(d0.value), np.nanmean(d1.value)))


ADC = MON + 'average_dvs_by_coords'


@contract('C22', 'average over an area', [ADC, AC], proof=False, cases=200,
          bound='up to 4 estimates')
def area(c):
    np = c.np()
    n = c.int('n', 1, gen=(1, 4))
    lim = {k: tuple(sorted(c.int(k + str(i), 0, gen=(0, 4))
                           for i in (0, 1))) for k in ('lat', 'lon', 'el')}
    useel = c.flag('elevation')
    dvs, use = [], []
    for k in range(n):
        co = {x: c.int(x + str(k), 0, gen=(0, 4)) for x in (
            'stla', 'evla', 'stlo', 'evlo', 'stel', 'evel')}
        m = c.array('m%d' % k, (2, 3))
        av = c.flag('averaged%d' % k)
        dvs.append(concrete_dv(c, m, np.arange(3.), channel='av' if av
                               else 'HHZ-HHZ', **co))
        inside = all(lim[q][0] <= co[p + s] <= lim[q][1] for q, s in (
            ('lat', 'la'), ('lon', 'lo'), ('el', 'el')) for p in ('st', 'ev')
            if q != 'el' or useel)
        if inside and not av:
            use.append(m.copy())
    kw = dict(el=lim['el']) if useel else {}
    def go():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return c.fn(ADC)(dvs, lim['lat'], lim['lon'], **kw)
    if not use:
        c.expect_raises(ValueError, go, 'nothing inside')
        return
    out = go()
    c.check('average of the estimates inside',
            np.allclose(out.sim_mat, np.mean(use, axis=0)))
    c.check('area', tuple(out.stats.stla) == lim['lat']
            and tuple(out.stats.evlo) == lim['lon'])
    c.check('name', out.stats.station == 'geoav')


CCA = MON + 'Monitor.compute_components_average'


@contract('C22', 'files averaged', [CCA, AC], proof=False, cases=300,
          bound='up to 8 files')
def files(c):
    import logging

    def tag(m):
        return {'autocomponents': 'av-auto', 'crosscomponents': 'av-xc',
                'betweencomponents': 'av-xc'}.get(m.lower(), 'av')
    plots = []
    c.patch(DVM + '.plot', lambda self, **k: plots.append((
        self.stats.station, k['save_dir'], k['figure_file_name'])))
    plot = c.flag('plot')
    np = c.np()
    Mon = c.fn(MON + 'Monitor')
    method = c.choice('method', ['AutoComponents', 'CrossComponents',
                                 'StationWide', 'CrossStations',
                                 'betweencomponents', 'betweenstations'])
    sub = c.choice('directory', ['dv', 'save.d', 'a.v'])
    n = c.int('files', 1, gen=(2, 9))
    got = {}
    d = c.tmpdir()
    out = os.path.join(d, sub)
    os.makedirs(out)
    one = c.choice('one pair', ['', 'A-A', 'A-AB'])
    for k in range(n):
        net = c.choice('net%d' % k, ['N-N', 'NA-NA'])
        sta = c.choice('sta%d' % k, ['A-A', 'A-AB', 'AB-AB'])
        if one:
            net, sta = 'N-N', one
        ch = '%s-%s' % (c.choice('c0%d' % k, ['HHZ', 'HHN', 'HHE']),
                        c.choice('c1%d' % k, ['HHZ', 'HHN', 'HHE']))
        m = c.array('m%d' % k, (2, 3))
        dv = concrete_dv(c, m, np.arange(3.), network=net, station=sta,
                         channel=ch)
        dv.save(os.path.join(out, 'DV-%s.%s.%s' % (net, sta, ch)))
        got[net, sta, ch] = m.copy()
    bad = set()
    if c.flag('unreadable file'):
        # does not keep the others from being averaged
        k = sorted(got)[c.int('which', 0, gen=(0, len(got) - 1))]
        with open(os.path.join(out, 'DV-%s.%s.%s.npz' % k), 'w') as fh:
            fh.write('no data')
        bad.add(k)
    mon = Mon.__new__(Mon)
    mon.outdir = out
    mon.logger = logging.getLogger('pyvc.silent')
    mon.logger.disabled = True
    mon.options = {'dv': {'plot_vel_change': plot}, 'proj_dir': d,
                   'fig_subdir': 'fig'}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        other = c.choice('averaged before', [
            None, 'AutoComponents', 'StationWide', 'CrossComponents'])
        if other is not None and tag(other) != tag(method):
            # averages of other methods are not averaged again
            mon.compute_components_average(other)
            plots.clear()
        first = set(os.listdir(out))
        mon.compute_components_average(method)
        before = set(os.listdir(out))
        mon.compute_components_average(method)
    c.check('a second run adds nothing', set(os.listdir(out)) == before)
    groups = {}
    for (net, sta, ch), m in got.items():
        s, h = sta.split('-'), ch.split('-')
        same = s[0] == s[1]
        ok = {'autocomponents': same and h[0] == h[1],
              'crosscomponents': same and h[0] != h[1],
              'betweencomponents': same and h[0] != h[1],
              'stationwide': same, 'crossstations': not same,
              'betweenstations': not same}[method.lower()]
        if ok and (net, sta, ch) not in bad:
            groups.setdefault((net, sta), []).append(m)
    want = {'DV-%s.%s.%s.npz' % (k[0], k[1], tag(method)): v
            for k, v in groups.items() if len(v) > 1}
    new = before - first
    c.check('one average per station pair', new == set(want))
    c.check('plotted if asked for', sorted(plots) == sorted(
        (k[1], os.path.join(d, 'fig'), '%s_%s_%s' % (k[0], k[1], tag(method)))
        for k, v in groups.items() if len(v) > 1) if plot else not plots,
        plots)
    for f, v in want.items():
        if f in new:
            dv = c.fn('seismic.monitor.dv:read_dv')(os.path.join(out, f))
            c.check('average', np.allclose(dv.sim_mat,
                                           np.mean(v, axis=0)))
