"""C26 velocity changes in space."""
import math
import warnings

from .common import contract, dv_header

SP = 'seismic.monitor.spatial:'
G = SP + 'DVGrid.'


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


@contract('C26', 'model covariance', [SP + 'compute_cm'])
def covariance(c):
    n = c.dim('points', 1, gen=(1, 5))
    d = c.array('dist', (n, n))
    sc = c.real('scale', positive=True, gen=(1, 4))
    ln = c.real('length', positive=True, gen=(1, 9))
    sd = c.real('std', positive=True, gen=(1, 4))
    i, j = c.exists_index('ij', [n, n])
    C = c.fn(SP + 'compute_cm')(sc, ln, sd, d)
    q = sd * sc / ln
    c.check('covariance decays exponentially', c.eq(
        c.at(C, i, j), q * q * c.np().exp(-c.at(d, i, j) / ln)))


@contract('C26', 'data variance', [SP + 'data_variance'])
def variance(c):
    n = c.dim('values', 1, gen=(1, 5))
    corr = c.array('corr', (n,))
    if not c.symbolic:      # values that meet the assumption below
        corr = abs(corr) % .9 + .05
    b = c.real('bandwidth', gen=(-1, 4))
    t1, t2 = c.real('t1', gen=(-1, 9)), c.real('t2', gen=(-1, 19))
    f = c.real('frequency', gen=(-1, 4))
    c.assume(c.all([n], lambda k: c.and_(c.at(corr, k) > 0,
                                         c.at(corr, k) < 1)))
    bad = c.or_(b <= 0, f <= 0, t1 < 0, t2 < 0, t1 >= t2)
    go = lambda: c.fn(SP + 'data_variance')(corr, b, (t1, t2), f)  # noqa
    if c.case(bad):
        c.expect_raises(ValueError, go, 'impossible band or window')
        return
    i, = c.exists_index('i', [n])
    v, r = c.at(go(), i), c.at(corr, i)
    np = c.np()
    w = 2 * np.pi * f
    c.check('positive', v > 0)
    # v^2 = (1-r^2)/(4 r^2) * 6 sqrt(pi/2) / (b w^2 (t2^3-t1^3))
    p1 = c.sqrt(1 - r * r) / (2 * r)
    p2 = c.sqrt((6 * c.sqrt(np.pi / 2) * (1 / b)) / (
        w ** 2 * (t2 ** 3 - t1 ** 3)))
    c.check('standard deviation of the estimate', c.eq(v, p1 * p2))


@contract('C26', 'distances on the grid', [SP + 'compute_grid_dist'])
def grid_dist(c):
    n, m = c.dim('nx', 1, gen=(1, 5)), c.dim('ny', 1, gen=(1, 5))
    x, y = c.array('x', (n,)), c.array('y', (m,))
    x0, y0 = c.real('x0'), c.real('y0')
    d = c.fn(SP + 'compute_grid_dist')(x, y, x0, y0)
    i, j = c.exists_index('ij', [m, n])
    dx, dy = c.at(x, j) - x0, c.at(y, i) - y0
    r = c.at(d, i, j)
    c.check('rows are y and columns x', c.and_(d.shape[0] == m,
                                               d.shape[1] == n))
    c.check('Euclidean', c.and_(r >= 0, c.eq(r * r, dx * dx + dy * dy)))


@contract('C26', 'intensity', [SP + 'probability'])
def intensity(c):
    n, m = c.dim('rows', 1, gen=(1, 3)), c.dim('columns', 1, gen=(1, 3))
    d = c.array('dist', (m, n))
    t = c.real('t', gen=(-1, 9))
    v = c.real('velocity', positive=True, gen=(1, 4))
    ell = c.real('mean free path', positive=True, gen=(1, 9))
    tol = c.real('tolerance', positive=True, gen=(1, 2), den=16)
    i, j = c.exists_index('ij', [m, n])
    f = lambda: quiet(lambda: c.fn(SP + 'probability')(  # noqa
        d, t, v, ell, tol))
    neg = c.any([m, n], lambda a, b: c.at(d, a, b) < 0)
    if c.case(c.or_(neg, t * v < -tol)):
        c.expect_raises(ValueError, f, 'negative distance or time')
        return
    p = c.at(f(), i, j)
    r, vt = c.at(d, i, j), v * t
    np = c.np()
    far = r - vt > tol + 1e-5 * c.ite(vt < 0, lambda: -vt, lambda: vt)
    c.check('nothing before the direct wave', c.implies(far, lambda: p == 0))
    c.check('never negative', p >= 0)
    behind = vt - r > tol + 1e-5 * c.ite(vt < 0, lambda: -vt, lambda: vt)

    def coda():
        s = c.sqrt(vt * vt - r * r)
        a = 2 * np.pi * ell * vt * c.sqrt(1 - r ** 2 / vt ** 2)
        return c.eq(p * a, np.exp((s - vt) / ell))
    c.check('scattered energy behind it', c.implies(
        c.and_(behind, vt > 0), coda))

    def front():
        return c.eq(p * (2 * np.pi * r), np.exp(-vt / ell))
    c.check('direct wave', c.implies(c.and_(
        r > 0, r - vt < tol, vt - r <= tol), front))


@contract('C26', 'distance of all points of a grid',
          [G + '_compute_dist_matrix', G + '__init__'], proof=False,
          cases=100, thorough=2000, bound='up to 7 by 7 points')
def distances(c):
    import numpy as np
    res = c.choice('res', [1, .5, .1, 2])
    nx, ny = c.int('nx', 1, gen=(1, 6)), c.int('ny', 1, gen=(1, 6))
    g = c.fn(SP + 'DVGrid')(0., 0., res, res * nx, res * ny, .1, 1., 1.)
    c.check('grid covers the area', g.xaxis[0] == g.yaxis[0] == 0 and
            g.xaxis[-1] > res * (nx - .01) and g.yaxis[-1] > res * (
            ny - .01) and len(g.xaxis) <= nx + 2)
    c.check('spacing', np.allclose(np.diff(g.xaxis), res) and np.allclose(
        np.diff(g.yaxis), res))
    D = g._compute_dist_matrix()
    P = [(x, y) for y in g.yaxis for x in g.xaxis]
    c.check('distances', D.shape == (len(P),) * 2 and np.allclose(
        D, [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in P] for a in P]))


def curve(c, n, tag='', start=None):
    """a velocity change with one value per hour"""
    UTC = c.ext('obspy', 'UTCDateTime')
    import numpy as np
    t0 = start if start is not None else UTC(2020, 1, 1)
    h = dv_header(c)
    h['corr_start'] = [t0 + 3600 * k for k in range(n)]
    h['corr_end'] = [t0 + 3600 * (k + 1) for k in range(n)]
    corr = np.asarray(c.array('corr' + tag, (n,)))
    corr = np.round(.02 + .97 * np.abs(corr) / (1 + np.abs(corr)), 4)
    val = np.asarray(c.array('value' + tag, (n,))) / 100.
    for k in range(n):
        if c.choice('gap%s%d' % (tag, k), [0, 0, 0, 1]):
            corr[k] = val[k] = np.nan
    return c.fn('seismic.monitor.dv:DV')(
        corr, val, 'stretch', np.array([]), np.array([0.]), 'single_ref', h)


@contract('C26', 'aligned curves', [SP + 'align_dv_curves',
                                    SP + 'dv_starts'],
          proof=False, cases=400, thorough=4000, bound='up to 15 values')
def align(c):
    import numpy as np
    n = c.int('values', 1, gen=(1, 15))
    dv = curve(c, n)
    t0 = dv.stats.corr_start[0]
    pos = c.int('at', -3, gen=(-3, 2 * n + 3))
    utc = t0 + 1800 * pos + c.choice('late', [0, 100, -100])
    off = (utc - t0) / 3600.
    thr = c.choice('threshold', [.1, .5])
    ii = min(range(n), key=lambda k: abs(k - off))
    ok = np.sum(~np.isnan(dv.corr)) >= 6 and 0 <= off <= n and \
        dv.corr[ii] >= thr
    c.check('has started', c.fn(SP + 'dv_starts')(dv, utc, thr) == ok, ok)
    steps = c.int('steps', 0, gen=(0, 5))
    val = c.choice('aligned to', [0., .01])
    old, cc = dv.value.copy(), dv.corr.copy()
    f = lambda: c.fn(SP + 'align_dv_curves')(dv, utc, steps, val)  # noqa
    if old[ii] != old[ii]:
        c.expect_raises(ValueError, f, 'no value at the time')
        return
    f()
    a, b = max(0, ii - steps), ii + steps + 1
    mean = np.nansum(old[a:b] * cc[a:b]) / np.nansum(cc[a:b])
    c.check('weighted mean around the time is the given value', np.allclose(
        dv.value, old - mean + val, equal_nan=True), (dv.value, old))
    c.check('marked', dv.dv_processing['aligned'] == val)
    c.check('correlation kept', np.array_equal(dv.corr, cc, equal_nan=True))
    other = curve(c, n, 'b')
    c.check('other curves are not marked', not other.dv_processing.get(
        'aligned', False))


def grid(c, res=1., nx=None):
    nx = nx or c.int('nx', 2, gen=(2, 5))
    ny = c.int('ny', 2, gen=(2, 5))
    return c.fn(SP + 'DVGrid')(
        c.choice('lat0', [0., 40., -30.]), c.choice('lon0', [10., -20.]),
        res, nx * res, ny * res, c.choice('dt', [.1, .25]),
        c.choice('vel', [1., 2.]), c.choice('mfp', [2., 10.]))


def station(c, g, tag, inside=True):
    """coordinates of a station, and its position in km"""
    x = c.int('x' + tag, 0, gen=(0, 8)) / 8. * g.xaxis[-1]
    y = c.int('y' + tag, 0, gen=(0, 8)) / 8. * g.yaxis[-1]
    return place(g, x, y)


def place(g, x, y):
    R = 6371.
    lat = g.lat0 + math.degrees(y / R)
    k = math.cos(math.radians(g.lat0))
    # the distance is a great circle through two points at lat0
    lon = g.lon0 + math.degrees(2 * math.asin(math.sin(x / R / 2) / k))
    return (lat, lon), (x, y)


@contract('C26', 'position on the grid', [SP + 'geo2cart', G + '_find_coord',
                                          G + '_add_stations'],
          proof=False, cases=200, thorough=3000, bound='up to 6 by 6 points')
def position(c):
    import numpy as np
    g = grid(c, c.choice('res', [1., .5, 4.]))
    (lat, lon), (x, y) = station(c, g, '')
    X, Y = c.fn(SP + 'geo2cart')(lat, lon, g.lat0, g.lon0)
    c.check('kilometres', abs(X - x) < 1e-3 * (1 + x) and abs(
        Y - y) < 1e-3 * (1 + y), (X, x, Y, y))
    c.expect_raises(ValueError, lambda: c.fn(SP + 'geo2cart')(
        g.lat0 - .1, lon, g.lat0, g.lon0), 'south of the grid')
    c.expect_raises(ValueError, lambda: c.fn(SP + 'geo2cart')(
        lat, g.lon0 - .1, g.lat0, g.lon0), 'west of the grid')
    out = place(g, x + c.choice('outside', [2, 3]) * g.xaxis[-1], y)[0]
    out2 = place(g, x, y + 3 * g.yaxis[-1])[0]
    out3 = place(g, x + 3 * g.xaxis[-1], y + 3 * g.yaxis[-1])[0]
    one = c.flag('single')
    if one:
        k = g._find_coord(lat, lon)
        c.check('nearest point', near(np, g, k, X, Y))
        for o in (out, out2, out3):
            c.expect_raises(ValueError, lambda: g._find_coord(*o),
                            'outside')
    else:
        S = [station(c, g, str(q)) for q in range(3)]
        k = g._find_coord(np.array([s[0][0] for s in S]),
                          np.array([s[0][1] for s in S]))
        c.check('nearest points', len(k) == 3 and all(near(
            np, g, a, *s[1]) for a, s in zip(k, S)), (k, S))
        for o in (out, out2, out3):
            c.expect_raises(ValueError, lambda: g._find_coord(
                np.array([s[0][0] for s in S] + [o[0]]),
                np.array([s[0][1] for s in S] + [o[1]])), 'one is outside')
    ll = [(lat, lon)] + [station(c, g, 'a%d' % q)[0] for q in range(3)]
    for part in (ll[:2], ll[1:], ll):
        g._add_stations(*np.array(part).T)
    want = sorted({tuple(np.round(p, 9)) for p in ll})
    c.check('every station once', sorted(
        tuple(np.round(p, 9)) for p in zip(g.statlat, g.statlon)) == want
        and len(g.statx) == len(g.staty) == len(want),
        (want, g.statlat, g.statlon))


def near(np, g, k, x, y):
    d = np.hypot(g.xf - x, g.yf - y)
    return d[k] <= d.min() + 1e-4


def kernel(np, s1, s2, g, t):
    """space time kernel from its definition"""
    def p(r, t):
        vt = g.vel * t
        tol = g.vel * g.dt / 2
        if t < 0:
            return 1. if abs(r - vt) <= tol and r == 0 else front(r, vt, tol)
        out = front(r, vt, tol)
        if vt - r > tol:
            out += math.exp((math.sqrt(vt ** 2 - r ** 2) - vt) / g.mf_path) / (
                2 * math.pi * g.mf_path * vt * math.sqrt(
                    1 - r ** 2 / vt ** 2))
        return out

    def front(r, vt, tol):
        if abs(r - vt) > tol + 1e-5 * abs(vt):
            return 0.
        return math.exp(-vt / g.mf_path) / (2 * math.pi * r) if r else 1.
    den = p(math.dist(s1, s2), t)
    K = np.zeros((len(g.yaxis), len(g.xaxis)))
    if not den:
        return K
    T = [k * g.dt for k in range(int(math.floor(t / g.dt + .5)) + 1)
         if k * g.dt <= t + g.dt * .499]
    for i, y in enumerate(g.yaxis):
        for j, x in enumerate(g.xaxis):
            v = [p(math.dist(s1, (x, y)), q) * p(math.dist(s2, (x, y)), t - q)
                 for q in T]
            K[i, j] = (sum(v) - (v[0] + v[-1]) / 2.) * g.dt / den
    return K


@contract('C26', 'sensitivity kernel', [SP + 'sensitivity_kernel',
                                        SP + 'probability'],
          proof=False, cases=60, thorough=600, bound='up to 6 by 6 points')
def sensitivity(c):
    import numpy as np
    g = grid(c, c.choice('res', [1., .5, .1]))
    s1 = station(c, g, '1')[1]
    s2 = s1 if c.flag('same') else station(c, g, '2')[1]
    t = c.choice('t', [2., 2.5, 3.1, 4.07])
    K = quiet(lambda: c.fn(SP + 'sensitivity_kernel')(
        np.array(s1), np.array(s2), g.xaxis, g.yaxis, t, g.dt, g.vel,
        g.mf_path))
    edge = [math.dist(s, (x, y)) for s in (s1, s2) for x in g.xaxis
            for y in g.yaxis] + [math.dist(s1, s2)]
    want = kernel(np, s1, s2, g, t)
    # points at the edge of the wave front depend on rounding
    h = g.vel * g.dt / 2
    c.assume(not any(abs((r / h + k) % 1 - .5) > .4999 and r for r in edge
                     for k in (0, t / g.dt % 1)))
    c.check('kernel', K.shape == want.shape and np.allclose(K, want),
            (K, want))
    c.check('not negative', np.all(K >= 0))


def network(c, g, n, proc=True):
    from numpy import round as rnd
    UTC = c.ext('obspy', 'UTCDateTime')
    dvs = []
    for k in range(n):
        dv = curve(c, 4, str(k), UTC(2020, 1, 1) + 3600 * c.int(
            'start%d' % k, 0, gen=(0, 2)))
        (a, b), (d, e) = station(c, g, 'p%d' % k)[0], station(
            c, g, 'q%d' % k)[0]
        dv.stats.update(dict(stla=rnd(a, 9), stlo=rnd(b, 9), evla=rnd(d, 9),
                             evlo=rnd(e, 9), station='S%d-S' % k))
        if proc:
            dv.dv_processing = dict(tw_start=3., tw_len=2., freq_min=.5,
                                    freq_max=1.5)
        dvs.append(dv)
    return dvs


def available(dvs, utc):
    """(curve, value, similarity) of the curves with a value at the time"""
    out = []
    for dv in dvs:
        off = (utc - dv.stats.corr_start[0]) / 3600.
        if off < 0 or utc > dv.stats.corr_end[-1]:
            continue
        k = min(range(len(dv.value)), key=lambda q: abs(q - off))
        if dv.value[k] == dv.value[k] and .001 < dv.corr[k] < 1:
            out.append((dv, dv.value[k], dv.corr[k]))
    return out


@contract('C26', 'inversion', [
    G + 'compute_dv_grid', G + 'forward_model', G + 'compute_resolution',
    G + 'compute_posterior_covariance', G + 'compute_dv_tsvd',
    G + '_compute_sensitivity_kernels', G + '_extract_info_dvs',
    G + '_compute_cd', G + 'align_dvs_to_grid'], proof=False, cases=60,
    thorough=600, bound='up to 6 by 6 points and 5 curves')
def inversion(c):
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    g = grid(c)
    proc = c.flag('processing known')
    dvs = network(c, g, c.int('curves', 1, gen=(1, 5)), proc)
    if c.flag('perfect'):
        # infinite weight: such values are not used, nor those without any
        dvs[0].corr[:2] = 1.
        dvs[-1].corr[2:] = .001
    utc = UTC(2020, 1, 1) + 900 * c.int('utc', 0, gen=(0, 20))
    have = available(dvs, utc)
    sc, ln, sd = 1., c.choice('length', [1., 3.]), c.choice('std', [.01, .1])
    kw = {} if proc else dict(tw=(3., 5.), freq0=.5, freq1=1.5)
    prior = (sc, ln, sd)
    if not have:
        c.expect_raises(IndexError, lambda: g.compute_dv_grid(
            dvs, utc, *prior, **kw), 'no data')
        return
    if not proc and c.flag('forgotten'):
        kw.pop(c.choice('which', ['tw', 'freq0', 'freq1']))
        c.expect_raises(AttributeError, lambda: g.compute_dv_grid(
            dvs, utc, *prior, **kw), 'unknown band or window')
        c.expect_raises(AttributeError, lambda: g.
                        compute_posterior_covariance(dvs, utc, *prior, **kw),
                        'unknown band or window')
        return
    cart = c.fn(SP + 'geo2cart')
    K, t = [], 4.
    for dv, _, _ in have:
        s = dv.stats
        x0, y0 = cart(s.stla, s.stlo, g.lat0, g.lon0)
        x1, y1 = cart(s.evla, s.evlo, g.lat0, g.lon0)
        K.append(g.res ** 2 / t * quiet(lambda: c.fn(
            SP + 'sensitivity_kernel')(
            np.array([x0, y0]), np.array([x1, y1]), g.xaxis, g.yaxis, t,
            g.dt, g.vel, g.mf_path)).flatten())
    K = np.array(K)
    d = np.array([h[1] for h in have])
    cor = np.array([h[2] for h in have])
    P = [(x, y) for y in g.yaxis for x in g.xaxis]
    D = np.array([[math.dist(a, b) for b in P] for a in P])
    Cm = (sd * sc / ln) ** 2 * np.exp(-D / ln)
    sig = np.sqrt(1 - cor ** 2) / (2 * cor) * np.sqrt(
        6 * np.sqrt(np.pi / 2) / (2 * np.pi) ** 2 / (5 ** 3 - 3 ** 3))
    Cd = np.diag(sig ** 2)
    # no statement on problems that cannot be solved in double precision
    c.assume(np.linalg.cond(K @ Cm @ K.T + Cd) < 1e6 and
             np.linalg.cond(Cm) < 1e6)
    gain = np.linalg.solve(K @ Cm @ K.T + Cd, K @ Cm).T
    m = gain @ d
    for again in range(2):
        # the second time, kernels are known
        v = quiet(lambda: g.compute_dv_grid(dvs, utc, *prior, **kw))
        c.check('shape', v.shape == g.xgrid.shape)
        c.check('least squares solution', np.allclose(
            v.flatten(), m, rtol=1e-6, atol=1e-9 * (1 + abs(m).max())),
            (v.flatten(), m))
    want = (gain @ K).sum(axis=-1)
    if c.flag('resolution on the way'):
        quiet(lambda: g.compute_dv_grid(
            dvs, utc, *prior, compute_resolution=True, **kw))
        c.check('resolution kept', np.allclose(
            g.resolution.flatten(), want, rtol=1e-6, atol=1e-7))
    R = quiet(lambda: g.compute_resolution(dvs, utc, *prior, **kw))
    c.check('resolution', np.allclose(R.flatten(), want, rtol=1e-6,
                                      atol=1e-7))
    c.check('stations', sorted(zip(g.statlat, g.statlon)) == sorted({
        p for h in have for p in (
            (h[0].stats.stla, h[0].stats.stlo),
            (h[0].stats.evla, h[0].stats.evlo))}) and len(g.statx) == len(
        g.staty))
    c.expect_raises(TypeError, lambda: g.forward_model(
        np.zeros(g.xgrid.shape), utc=utc), 'no stations')
    pc = quiet(lambda: g.compute_posterior_covariance(
        dvs, utc, *prior, **kw))
    # no statement if the inverse is lost in rounding
    lost = np.linalg.cond((K.T / np.diag(Cd)) @ K + np.linalg.inv(Cm)) > 1e9
    c.check('posterior covariance', pc.shape == Cm.shape and (
        lost or np.allclose(pc, Cm - gain @ K @ Cm, rtol=1e-4,
                            atol=1e-6 * Cm[0, 0])))
    x = np.asarray(c.array('model', g.xgrid.shape))
    c.check('forward model', np.allclose(quiet(lambda: g.forward_model(
        x, dvs, utc, tw=kw.get('tw'))), K @ x.flatten()))
    st0 = [(h[0].stats.stla, h[0].stats.stlo) for h in have]
    st1 = [(h[0].stats.evla, h[0].stats.evlo) for h in have]
    c.check('forward model of stations', np.allclose(quiet(
        lambda: g.forward_model(x, tw=(3., 5.), stat0=st0, stat1=st1)),
        K @ x.flatten()))
    c.expect_raises(ValueError, lambda: g.forward_model(
        x[1:], dvs, utc), 'wrong grid')
    sv = quiet(lambda: g.compute_dv_tsvd(dvs, utc, cutoff=.1, **kw))
    c.check('truncated inverse', np.allclose(sv.flatten(), np.linalg.pinv(
        K, rcond=.1) @ d, atol=1e-9))


@contract('C26', 'curves aligned to the map', [G + 'align_dvs_to_grid'],
          proof=False, cases=60, thorough=600, bound='up to 5 curves')
def to_grid(c):
    import os
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    g = grid(c)
    dvs = []
    for k in range(c.int('curves', 1, gen=(1, 5))):
        dv = curve(c, 9, str(k), UTC(2020, 1, 1) + 3600 * c.int(
            'start%d' % k, 0, gen=(0, 2)))
        (a, b), (d, e) = station(c, g, 'p%d' % k)[0], station(
            c, g, 'q%d' % k)[0]
        dv.stats.update(dict(stla=a, stlo=b, evla=d, evlo=e,
                             station='S%d-S' % k))
        dv.dv_processing = dict(tw_start=3., tw_len=2., freq_min=.5,
                                freq_max=1.5)
        state = c.choice('aligned%d' % k, ['unknown', False, 0., .01])
        if state != 'unknown':
            dv.dv_processing['aligned'] = state
        dvs.append(dv)
    d = c.tmpdir()
    if c.flag('from files'):
        # aligned or not is known after reading, too
        for k, dv in enumerate(dvs):
            dv.save(os.path.join(d, 'x%d.npz' % k))
        dvs = [c.fn('seismic.monitor.dv:read_dv')(
            os.path.join(d, 'x%d.npz' % k)) for k in range(len(dvs))]
        for k in range(len(dvs)):
            os.remove(os.path.join(d, 'x%d.npz' % k))
    utc = UTC(2020, 1, 1) + 900 * c.int('utc', 0, gen=(0, 40))
    steps = c.int('steps', 0, gen=(0, 2))
    want = [dv for dv in dvs if dv.dv_processing.get('aligned', False) is
            False and c.fn(SP + 'dv_starts')(dv, utc, .3)]
    old = {id(dv): (dv.value.copy(), dict(dv.dv_processing)) for dv in dvs}
    shift = np.zeros(len(want))
    if c.flag('map known'):
        g.vel_change = np.asarray(c.array('map', g.xgrid.shape)) / 100.
        if want:
            shift = quiet(lambda: g.forward_model(g.vel_change, want, utc))
        if want and c.flag('map with gaps'):
            g.vel_change[:] = np.nan
            c.expect_raises(ValueError, lambda: quiet(
                lambda: g.align_dvs_to_grid(dvs, utc, steps, .3)),
                'nothing to align to')
            c.check('curves untouched', all(np.array_equal(
                dv.value, old[id(dv)][0], equal_nan=True) and
                dv.dv_processing == old[id(dv)][1] for dv in dvs))
            return
    save = c.flag('save')
    out = quiet(lambda: g.align_dvs_to_grid(dvs, utc, steps, .3,
                                            d if save else False))
    c.check('curves that have started and are not aligned', len(out) == len(
        want) and all(a is b for a, b in zip(out, want)))
    for dv in dvs:
        v, p = old[id(dv)]
        k = [i for i, x in enumerate(want) if x is dv]
        if not k:
            c.check('others untouched', np.array_equal(
                v, dv.value, equal_nan=True) and dv.dv_processing == p)
            continue
        s = shift[k[0]]
        off = (utc - dv.stats.corr_start[0]) / 3600.
        ii = min(range(9), key=lambda q: abs(q - off))
        a, b = max(0, ii - steps), ii + steps + 1
        w = dv.corr[a:b]
        m = np.nansum(v[a:b] * w) / np.nansum(w)
        c.check('aligned to the modelled value', np.allclose(
            dv.value, v - m + s, equal_nan=True), (dv.value, v, m, s))
        c.check('marked as aligned', dv.dv_processing['aligned'] is not False
                and abs(dv.dv_processing['aligned'] - s) < 1e-12)
    c.check('files', sorted(os.listdir(d)) == sorted(
        'DV-%s.npz' % dv.stats.id for dv in want if save))


@contract('C26', 'mean around a time', [SP + 'align_dv_curves'], timeout=40)
def around(c):
    n = c.dim('values', 1, gen=(1, 9))
    steps = c.int('steps', 0, gen=(0, 4))
    cor, val = c.array('corr', (n,), nan=True), c.array('value', (n,),
                                                        nan=True)
    c.assume(c.all([n], lambda k: c.eq(c.isnan(c.at(cor, k)),
                                       c.isnan(c.at(val, k)))))
    h = dv_header(c)
    h['corr_start'] = c.times('start', n)
    dv = c.fn('seismic.monitor.dv:DV')(
        cor, val, 'stretch', None, None, 'm', h)
    utc = c.time('utc')
    to = c.real('to')
    old = val.copy()
    np = c.np()
    ii = np.argmin(abs(np.array(h['corr_start']) - utc))
    f = lambda: c.fn(SP + 'align_dv_curves')(dv, utc, steps, to)  # noqa
    if c.case(c.isnan(c.at(val, ii))):
        c.expect_raises(ValueError, f, 'no value at the time')
        return
    f()
    first = c.imax(0, ii - steps)
    many = c.imin(n, ii + steps + 1) - first
    x = lambda q, k: c.ite(c.isnan(c.at(q, first + k)), 0.,  # noqa
                           lambda: c.at(q, first + k))
    w = c.sum([many], lambda k: x(cor, k))
    s = c.sum([many], lambda k: x(cor, k) * x(old, k))
    i, = c.exists_index('i', [n])
    r, o = c.at(dv.value, i), c.at(old, i)
    c.check('missing stay missing', c.implies(w > 0, lambda: c.eq(
        c.isnan(r), c.isnan(o))))
    c.check('weighted mean around the time is moved to the value', c.implies(
        c.and_(w > 0, c.not_(c.isnan(o))),
        lambda: c.eq((r - o - to) * w, -s)))
    c.check('marked', c.eq(dv.dv_processing['aligned'], to))


@contract('C26', 'curves that have started', [SP + 'dv_starts'])
def started(c):
    n = c.dim('values', 1, gen=(1, 12))
    cor = c.array('corr', (n,), nan=True)
    a, b = c.times('start', n), c.times('end', n)
    h = dv_header(c)
    h['corr_start'], h['corr_end'] = a, b
    dv = c.fn('seismic.monitor.dv:DV')(
        cor, cor.copy(), 'stretch', None, None, 'm', h)
    utc, thr = c.time('utc'), c.real('threshold', gen=(0, 1))
    np = c.np()
    ii = np.argmin(abs(np.array(a) - utc))
    have = c.count(n, lambda k: c.not_(c.isnan(c.at(cor, k))))
    x = c.at(cor, ii)
    c.check('enough values, within the curve, similar enough', c.eq(
        c.fn(SP + 'dv_starts')(dv, utc, thr), c.and_(
            have >= 6, utc >= a[0], utc <= b[n - 1], c.not_(c.isnan(x)),
            x >= thr)))


@contract('C26', 'grids and steps of a kernel', [SP + 'sensitivity_kernel',
                                                 G + '__init__'],
          proof=False, cases=60, bound='up to 6 by 6 points')
def kernel_refused(c):
    """increments must be equal, the time step positive; a step that is too
    large for the grid is announced"""
    import numpy as np
    lat, lon = c.real('lat', gen=(-60, 60)), c.real('lon', gen=(-170, 170))
    res = c.choice('res', [1., .5, .1])
    dt, vel = c.choice('dt', [.1, .25]), c.choice('vel', [1., 2.])
    mfp = c.choice('mfp', [2., 10.])
    g = c.fn(SP + 'DVGrid')(lat, lon, res, 3 * res, 4 * res, dt, vel, mfp)
    c.check('description', (g.lat0, g.lon0, g.res, g.dt, g.vel, g.mf_path)
            == (lat, lon, res, dt, vel, mfp) and not g.skernels)
    f = c.fn(SP + 'sensitivity_kernel')
    s1, s2 = np.array([0., 0.]), np.array([res, 2 * res])
    x, y = g.xaxis, g.yaxis

    def run(x=x, y=y, dt=dt):
        return quiet(lambda: f(s1, s2, x, y, 2., dt, vel, mfp))
    run()
    for bad in (0., -dt):
        c.expect_raises(ValueError, lambda: run(dt=bad), 'time step')
    k = c.int('point', 1, gen=(1, 3))
    for ax in 'xy':
        u = (x if ax == 'x' else y).copy()
        u[k] += res * c.choice('off', [.1, -.2, 1e-3])
        c.expect_raises(ValueError, lambda: run(**{ax: u}), 'increments')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f(s1, s2, x, y, 2., dt, vel, mfp)
    coarse = any('too large' in str(q.message) for q in w)
    d = x[1] - x[0] - 2 * vel * dt
    c.check('coarse step announced', abs(d) < 1e-9 or coarse == (d < 0))


@contract('C26', 'maps one after another', [
    G + 'compute_dv_grid', G + 'forward_model', G + 'compute_resolution',
    G + 'compute_posterior_covariance', G + 'compute_dv_tsvd',
    G + '_compute_sensitivity_kernels', G + '_extract_info_dvs',
    G + '_compute_cd'], proof=False, cases=60, thorough=600,
    bound='up to 5 computations on one grid, 6 by 6 points and 5 curves')
def history(c):
    """what was computed before with other windows, times, curves, bands or
    parameters has no influence, and given windows and bands are used instead
    of those the curves were made with"""
    import numpy as np
    UTC = c.ext('obspy', 'UTCDateTime')
    g = grid(c)
    dvs = network(c, g, c.int('curves', 2, gen=(2, 5)), c.flag('known'))
    used = c.fn(SP + 'DVGrid')(g.lat0, g.lon0, g.res, g.xaxis[-1] - g.res / 2,
                               g.yaxis[-1] - g.res / 2, g.dt, g.vel,
                               g.mf_path)
    c.check('same grid', used.xgrid.shape == g.xgrid.shape)
    if c.flag('similar'):
        dvs[0].corr[:3], dvs[-1].corr[2:] = .995, .002
    wins = [(3., 5.), (3., 5.5), (2., 6.5), (3.5, 4.5), (1., 2.)]
    st = [(s.stla, s.stlo) for s in (dv.stats for dv in dvs)]
    ev = [(s.evla, s.evlo) for s in (dv.stats for dv in dvs)]
    for q in range(c.int('steps', 2, gen=(2, 5))):
        tw = wins[c.int('window%d' % q, 0, gen=(0, 4))]
        utc = UTC(2020, 1, 1) + 900 * c.int('utc%d' % q, 0, gen=(0, 20))
        first = c.int('first%d' % q, 0, gen=(0, 1))
        use = dvs[first:]
        kw = dict(tw=tw, freq0=c.choice('f0%d' % q, [.25, .5]),
                  freq1=c.choice('f1%d' % q, [1.5, 2.]))
        prior = (1., c.choice('length%d' % q, [1., 3.]),
                 c.choice('std%d' % q, [.01, .1]))
        x = np.asarray(c.array('model%d' % q, g.xgrid.shape))
        cut = c.choice('cut%d' % q, [.1, .2, .4])
        what = c.choice('what%d' % q, ['map', 'model', 'model of stations',
                                       'tsvd', 'resolution', 'covariance'])

        def run(o):
            try:
                return quiet(lambda: {
                    'map': lambda: o.compute_dv_grid(use, utc, *prior, **kw),
                    'resolution': lambda: o.compute_resolution(
                        use, utc, *prior, **kw),
                    'covariance': lambda: o.compute_posterior_covariance(
                        use, utc, *prior, **kw),
                    'tsvd': lambda: o.compute_dv_tsvd(
                        use, utc, cutoff=cut, **kw),
                    'model': lambda: o.forward_model(x, use, utc, tw=tw),
                    'model of stations': lambda: o.forward_model(
                        x, tw=tw, stat0=st[first:], stat1=ev[first:])
                }[what]())
            except (IndexError, np.linalg.LinAlgError) as e:
                return type(e).__name__
        a = run(used)
        b = run(c.fn(SP + 'DVGrid')(
            g.lat0, g.lon0, g.res, g.xaxis[-1] - g.res / 2,
            g.yaxis[-1] - g.res / 2, g.dt, g.vel, g.mf_path))
        c.check('as on a new grid', np.array_equal(a, b) if isinstance(
            b, str) or isinstance(a, str) else np.array_equal(
                a, b, equal_nan=True), (what, tw, a, b))
        if what in ('tsvd', 'model', 'model of stations') and not isinstance(
                b, str):
            cart, t = c.fn(SP + 'geo2cart'), sum(tw) / 2
            sel = [(s, e) for s, e in zip(st[first:], ev[first:])] \
                if what == 'model of stations' else [
                ((h[0].stats.stla, h[0].stats.stlo),
                 (h[0].stats.evla, h[0].stats.evlo))
                for h in available(use, utc)]
            K = np.array([g.res ** 2 / t * quiet(lambda: c.fn(
                SP + 'sensitivity_kernel')(
                np.array(cart(*s, g.lat0, g.lon0)),
                np.array(cart(*e, g.lat0, g.lon0)), g.xaxis, g.yaxis, t,
                g.dt, g.vel, g.mf_path)).flatten() for s, e in sel])
            w = np.linalg.pinv(K, rcond=cut) @ np.array(
                [h[1] for h in available(use, utc)]) if what == 'tsvd' \
                else K @ x.flatten()
            c.check('in the given window', np.allclose(
                np.ravel(a), w, rtol=1e-6, atol=1e-9 * (
                    1 + abs(K).max(initial=0))), (what, tw, a, w))


@contract('C26', 'distances between all points', [G + '_compute_dist_matrix'])
def dist_matrix(c):
    n = c.dim('points', 1, gen=(1, 7))
    cls = c.fn(SP + 'DVGrid')
    g = cls.__new__(cls)
    x, y = c.array('x', (n,)), c.array('y', (n,))
    g.xf, g.yf, g.dist = x, y, None
    d = g._compute_dist_matrix()
    c.check('square', c.and_(d.shape[0] == n, d.shape[1] == n))
    i, j = c.exists_index('i', [n]) + c.exists_index('j', [n])
    dx, dy = c.at(x, i) - c.at(x, j), c.at(y, i) - c.at(y, j)
    c.check('distance', c.eq(c.at(d, i, j), c.sqrt(dx * dx + dy * dy)))
    e = g._compute_dist_matrix()
    c.check('the same again', c.eq(c.at(e, i, j), c.at(d, i, j)))


@contract('C26', 'covariance of the data', [G + '_compute_cd'])
def data_cov(c):
    n, m = c.dim('values', 1, gen=(1, 5)), c.dim('points', 1, gen=(1, 6))
    cls = c.fn(SP + 'DVGrid')
    g = cls.__new__(cls)
    K, corr = c.array('K', (n, m)), c.array('corr', (n,))
    if not c.symbolic:
        corr = abs(corr) % .9 + .05
    c.assume(c.all([n], lambda k: c.and_(
        c.at(corr, k) > .001, c.at(corr, k) < 1)))
    f0, bw = c.real('f0', 0, 4, den=16), c.real('bw', 0, 4, den=16)
    t0, tl = c.real('start', 0, 9, den=16), c.real('len', 0, 9, den=16)
    c.assume(c.and_(f0 > 0, bw > 0, tl > 0))
    cd = g._compute_cd(K, f0, f0 + bw, (t0, t0 + tl), corr)
    i, j = c.exists_index('i', [n]) + c.exists_index('j', [n])
    one = c.fn(SP + 'data_variance')(
        c.at(corr, i), bw, (t0, t0 + tl), f0 + bw / 2)
    c.check('square', c.and_(cd.shape[0] == n, cd.shape[1] == n))
    c.check('values are independent', c.implies(
        c.not_(c.eq(i, j)), lambda: c.at(cd, i, j) == 0))
    c.check('squared standard deviation', c.eq(c.at(cd, i, i), one * one))
