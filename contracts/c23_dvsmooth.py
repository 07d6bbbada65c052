"""C23 smoothing of similarity matrices."""
from .common import contract, dv_header as header

NMA = 'seismic.utils.miic_utils:nan_moving_av'
DVM = 'seismic.monitor.dv:DV'
SSM = DVM + '.smooth_sim_mat'


def window_mean(c, i, n, w, x, r, name):
    """r is the mean of the available x(k), |k - i| <= w"""
    first = c.imax(0, i - w)
    many = c.imin(n, i + w + 1) - first
    y = lambda k: x(first + k)  # noqa
    cnt = c.count(many, lambda k: c.not_(c.isnan(y(k))))
    tot = c.sum([many], lambda k: c.ite(c.isnan(y(k)), 0., lambda: y(k)))
    c.check(name + ': missing without data', c.eq(c.isnan(r), cnt == 0))
    c.check(name, c.implies(cnt > 0, lambda: c.eq(r, tot / cnt)))


@contract('C23', 'moving average', [NMA], timeout=40)
def average(c):
    n = c.dim('rows', 1, gen=(1, 8))
    m = c.dim('columns', 1, gen=(1, 4))
    axis = c.choice('axis', [0, 1, -1, -2])
    w = c.int('half length', 0, gen=(0, 4))
    a = c.array('data', (n, m), nan=True)
    old = a.copy()
    r = c.fn(NMA)(a, w, axis) if axis != -1 else c.fn(NMA)(a, w)
    i, j = c.exists_index('ij', [n, m])
    c.check('shape', c.and_(r.shape[0] == n, r.shape[1] == m))
    if axis in (0, -2):
        window_mean(c, i, n, w, lambda k: c.at(old, k, j), c.at(r, i, j),
                    'mean of the samples within the window')
    else:
        window_mean(c, j, m, w, lambda k: c.at(old, i, k), c.at(r, i, j),
                    'mean of the samples within the window')
    c.check('input untouched', c.eq(c.at(a, i, j), c.at(old, i, j)))


@contract('C23', 'moving average of a vector', [NMA], timeout=40)
def vector(c):
    n = c.dim('samples', 1, gen=(1, 10))
    w = c.int('half length', 0, gen=(0, 5))
    a = c.array('data', (n,), nan=True)
    old = a.copy()
    r = c.fn(NMA)(a, w)
    i, = c.exists_index('i', [n])
    window_mean(c, i, n, w, lambda k: c.at(old, k), c.at(r, i),
                'mean of the samples within the window')
    c.check('input untouched', c.eq(c.at(a, i), c.at(old, i)))


@contract('C23', 'smoothed estimate', [SSM, NMA], timeout=40)
def smooth(c):
    nt = c.dim('times', 1, gen=(1, 6))
    ns = c.dim('candidates', 1, gen=(1, 5))
    np = c.np()
    win = c.int('window', 0, gen=(0, 6))
    limited = c.flag('limited')
    sim = c.array('sim', (nt, ns), nan=True)
    old = sim.copy()
    axis = c.array('axis', (ns,))
    oldax = axis.copy()
    corr, val = c.array('corr', (nt,), nan=True), c.array('v', (nt,),
                                                          nan=True)
    dv = c.fn(DVM)(corr, val, 'stretch', sim, axis, 'stretch', header(c))
    if limited:
        low = c.real('lowest', gen=(-2, 2))
        r = dv.smooth_sim_mat(win, low)
        lowered = lambda x: c.ite(x < low, float('nan'), x)  # noqa
        x = lambda k: c.ite(c.isnan(c.at(old, k, j)), float('nan'),  # noqa
                            lambda: lowered(c.at(old, k, j)))
    else:
        r = dv.smooth_sim_mat(win)
        x = lambda k: c.at(old, k, j)  # noqa
    i, j = c.exists_index('ij', [nt, ns])
    c.check('the same estimate', r is dv)
    s = c.at(dv.sim_mat, i, j)
    window_mean(c, i, nt, win // 2, x, s, 'similarity')
    co, va = c.at(dv.corr, i), c.at(dv.value, i)
    ok = c.not_(c.isnan(co))
    c.check('missing together', c.eq(c.isnan(va), c.isnan(co)))
    c.check('available', c.eq(c.at(dv.avail, i), ok))
    c.check('no similarity is larger', c.implies(
        c.not_(c.isnan(s)), lambda: c.and_(ok, s <= co)))
    best = c.at(np.argmax(np.nan_to_num(dv.sim_mat, nan=-np.inf), axis=1), i)
    c.check('similarity reached', c.implies(
        ok, lambda: c.eq(c.at(dv.sim_mat, i, best), co)))
    c.check('value belongs to the largest similarity', c.implies(
        ok, lambda: c.eq(c.at(oldax, best), va)))
    c.check('axis untouched', c.eq(c.at(dv.second_axis, j), c.at(oldax, j)))
