"""C28 several references combine into one curve."""
import warnings

from .common import contract

SM = 'seismic.monitor.stretch_mod:'


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


@contract('C28', 'lapse time windows', [SM + 'time_windows_creation'])
def windows(c):
    """[a, a + length) in steps of one sample"""
    m = c.int('windows', 1, gen=(1, 4)) if not c.symbolic else c.choice(
        'windows', [1, 2, 3])
    starts = [c.int('start%d' % i, 0, gen=(0, 9)) for i in range(m)]
    same = c.flag('one length')
    w = [c.int('len%d' % i, 1, gen=(1, 9)) for i in range(m)]
    scalar = m == 1 and c.flag('scalar')
    out = c.fn(SM + 'time_windows_creation')(
        starts[0] if scalar else starts,
        w[0] if same else w)
    c.check('number of windows', len(out) == m)
    for i in range(m):
        n = w[0] if same else w[i]
        c.check('length', c.eq(out[i].shape[0], n))
        j, = c.exists_index('j%d' % i, [n])
        c.check('samples', c.eq(c.at(out[i], j), starts[i] + j))


@contract('C28', 'window lengths must be positive and as many as windows',
          [SM + 'time_windows_creation'], proof=False, cases=20,
          bound='two windows')
def windows_refused(c):
    f = c.fn(SM + 'time_windows_creation')
    c.expect_raises(ValueError, lambda: f([0, 1], [1, 2, 3]), 'lengths')
    c.expect_raises(ValueError, lambda: f(
        [0, 1], [3, -c.int('w', 0, gen=(0, 3))]), 'not positive')


@contract('C28', 'differences of all pairs', [SM + '_create_G'],
          proof=False, cases=10, thorough=20, bound='up to 13 references')
def pairs(c):
    """row of the pair (i, j): shift of j minus shift of i, where the first
    reference does not move"""
    import numpy as np
    n = c.int('n', 2, gen=(2, 13))
    G = c.fn(SM + '_create_G')(n)
    m = np.array([0] + [c.real('m%d' % i) for i in range(1, n)])
    want = [m[j] - m[i] for i in range(n) for j in range(n) if j != i]
    c.check('pairs', np.allclose(G @ m[1:], want))


@contract('C28', 'difference of two curves', [SM + 'est_shift_from_dt_corr'],
          proof=False, cases=60, thorough=600, bound='up to 8 values')
def difference(c):
    """mean difference and correlation weighted by the inverse variance
    (1 - c**2) / (4 c**2), over the values both curves have"""
    import numpy as np
    n = c.int('n', 1, gen=(1, 8))
    d1, d2 = c.array('d1', (n,), nan=True), c.array('d2', (n,), nan=True)
    c1 = c.array('c1', (n,), nan=True)
    c2 = c.array('c2', (n,), nan=True)
    c1, c2 = c1 / 20, c2 / 20
    if c.flag('extremes'):
        c1[0] = c.choice('e1', [0, 1, np.nan])
        c2[-1] = c.choice('e2', [0, 1, np.nan])
    given = [x.copy() for x in (d1, d2, c1, c2)]
    corr, shift = quiet(lambda: c.fn(SM + 'est_shift_from_dt_corr')(
        d1, d2, c1, c2))
    c.check('input unchanged', all(np.array_equal(a, b, equal_nan=True)
                                   for a, b in zip(given, (d1, d2, c1, c2))))
    ws, cs, ds = 0., 0., 0.
    whole = True
    for a, b, x, y in zip(d1, d2, c1, c2):
        if x != x or y != y or x == 0 or y == 0:
            continue
        v = (1 - x**2) / (4 * x**2) + (1 - y**2) / (4 * y**2)
        if v == 0:
            continue
        if a != a or b != b:
            # correlation without value
            whole = False
            continue
        ws, cs, ds = ws + 1 / v, cs + (x + y) / v, ds + (a - b) / v
    if not whole:
        return
    if ws == 0:
        c.check('no difference', shift != shift and corr != corr)
    else:
        c.check('difference', np.isclose(shift, ds / ws), (shift, ds / ws))
        c.check('correlation', np.isclose(corr, cs / ws), (corr, cs / ws))


def peaks(c, n, vec):
    """measurement: best stretch for each trace and its correlation"""
    import numpy as np
    pos = np.array([c.int('p%d' % i, 0, gen=(6, len(vec) - 7))
                    for i in range(n)])
    hgt = np.array([c.real('h%d' % i, gen=(1, 9)) for i in range(n)])
    return pos, np.abs(hgt) % 9 / 10 + .1


def similarity(pos, hgt, k):
    import numpy as np
    x = np.arange(k)[None, :] - pos[:, None]
    return hgt[:, None] * np.exp(-x**2 / 8.)


@contract('C28', 'consistent shifts', [
    SM + 'estimate_reftr_shifts_from_dt_corr', SM + '_create_G',
    SM + 'est_shift_from_dt_corr'], proof=False, cases=40, thorough=400,
    bound='up to 12 references, 6 traces, 41 stretches')
def consistent(c):
    """references that differ by a constant shift: one curve, at the mean of
    the curves; traces without correlation have no value"""
    import numpy as np
    n = c.int('traces', 1, gen=(1, 6))
    r = c.int('references', 2, gen=(2, 4)) if not c.flag('many') else 12
    vec = np.linspace(-.2, .2, 41)
    pos, hgt = peaks(c, n, vec)
    off = [c.int('o%d' % i, -4, gen=(-4, 4)) for i in range(r)]
    # whole mean
    off[-1] -= int(np.sum(off) % r)
    off = np.clip(off, -6, 6)
    mean = np.mean(off)
    c.assume(mean == round(mean))
    gone = [c.flag('gap%d' % i) and c.flag('really%d' % i)
            for i in range(n)]
    panel = {}
    for i in range(r):
        sim = similarity(pos + off[i], hgt, len(vec))
        corr, val = sim.max(axis=1), vec[sim.argmax(axis=1)]
        for j in range(n):
            if gone[j]:
                sim[j], corr[j], val[j] = np.nan, np.nan, np.nan
        panel['reftr_%d' % i] = dict(
            corr=np.squeeze(corr), value=np.squeeze(val),
            sim_mat=np.squeeze(sim), second_axis=vec, value_type='stretch',
            method='single_ref')
    keep = {k: {a: np.copy(b) for a, b in v.items()}
            for k, v in panel.items()}
    ret = c.flag('sim')
    dv = quiet(lambda: c.fn(SM + 'estimate_reftr_shifts_from_dt_corr')(
        panel, return_sim_mat=ret))
    c.check('panel unchanged', all(np.array_equal(
        np.copy(panel[k][a]), keep[k][a], equal_nan=a in (
            'corr', 'value', 'sim_mat')) for k in panel for a in panel[k]))
    c.check('number of values', np.shape(dv['value']) == (n,) and np.shape(
        dv['corr']) == (n,))
    for j in range(n):
        if gone[j] or all(gone):
            c.check('gap', np.isnan(dv['corr'][j]) and np.isnan(
                dv['value'][j]), (dv['corr'][j], dv['value'][j]))
            continue
        c.check('value', np.isclose(dv['value'][j], vec[
            pos[j] + round(mean)]), (dv['value'][j], pos[j], off))
        c.check('correlation', np.isclose(dv['corr'][j], hgt[j]),
                (dv['corr'][j], hgt[j]))
    c.check('axis', np.array_equal(dv['second_axis'], vec))
    c.check('method', dv['method'] == 'multi_ref' and dv[
        'value_type'] == 'stretch')
    c.check('similarity on request', ('sim_mat' in dv) == ret)
    if ret:
        s = dv['sim_mat']
        c.check('similarity', s.shape == (n, len(vec)))
        # best match of the matrix is the value
        for j in range(n):
            if not gone[j]:
                c.check('best match', np.isclose(vec[np.nanargmax(s[j])],
                                                 dv['value'][j]))
        # no similarity enters at the other end
        full = similarity(pos + round(mean), hgt, len(vec))
        ok = ~np.isnan(s)
        c.check('similarities', np.allclose(s[ok], full[ok]))


@contract('C28', 'one reference at a time', [SM + 'multi_ref_vchange'],
          cases=30, note='stretch estimate as a contract; 1 to 3 references '
          'and 12, any data')
def panel(c):
    """reference i gives entry i, the options reach the estimate"""
    r = c.choice('references', [1, 2, 3, 12])
    m, n = c.dim('traces', 1, gen=(1, 3)), c.dim('npts', 2, gen=(2, 6))
    data = c.array('data', (m, n), nan=True)
    refs = c.array('refs', (r, n), nan=True)
    calls = []

    def tse(mat, ref_trc=None, **k):
        calls.append((mat, ref_trc, k))
        return 'out%d' % (len(calls) - 1)
    c.patch(SM + 'time_stretch_estimate', tse)
    nans = c.flag('remove_nans')
    opts = dict(tw='tw', stretch_range='range', stretch_steps='steps',
                sides='sides', ref_tr_trim='trim', ref_tr_stats='stats')
    c.assume(n > 1)
    out = c.fn(SM + 'multi_ref_vchange')(data, refs, remove_nans=nans,
                                         **opts)
    c.check('entries', sorted(out) == sorted(
        'reftr_%d' % i for i in range(r)), sorted(out))
    c.check('as many estimates', len(calls) == r)
    i, j = c.exists_index('ij', [m, n])
    for q, (mat, ref, k) in enumerate(calls):
        c.check('entry', out['reftr_%d' % q] == 'out%d' % q)
        c.check('options', all(k[o] == opts[o] for o in opts) and
                k['remove_nans'] == nans)
        x, y = c.at(data, i, j), c.at(refs, q, j)
        c.check('reference length', c.eq(ref.shape[0], n))
        a, b = c.at(mat, i, j), c.at(ref, j)
        if nans:
            c.check('data', c.eq(a, c.ite(c.isnan(x), 0., lambda: x)))
            c.check('reference', c.eq(b, c.ite(c.isnan(y), 0., lambda: y)))
        else:
            c.check('data', c.ite(c.isnan(x), lambda: c.isnan(a),
                                  lambda: c.eq(a, x)))
            c.check('reference', c.ite(c.isnan(y), lambda: c.isnan(b),
                                       lambda: c.eq(b, y)))


@contract('C28', 'combination', [SM + 'multi_ref_vchange_and_align',
                                 SM + 'multi_ref_vchange',
                                 SM + 'estimate_reftr_shifts_from_dt_corr'],
          proof=False, cases=15, thorough=150,
          bound='up to 5 traces of 41 samples and 11 references')
def combination(c):
    """the same reference several times: the curve of the single reference;
    the order of the references does not matter; only the first window is
    used"""
    import numpy as np
    f = c.fn(SM + 'multi_ref_vchange_and_align')
    one = c.fn(SM + 'time_stretch_estimate')
    n, m = 41, c.int('traces', 1, gen=(1, 5))
    rng = np.random.RandomState(c.int('seed', 0, gen=(0, 10**6)))
    from scipy.ndimage import gaussian_filter1d
    ref = gaussian_filter1d(rng.randn(n), 2)
    data = np.array([np.interp(
        (np.arange(n) - 20) * np.exp(.004 * c.int('s%d' % i, -10, gen=(
            -10, 10))), np.arange(n) - 20, ref) for i in range(m)])
    gap = c.flag('gap') and m > 1
    if gap:
        data[0] = np.nan
    opts = dict(stretch_range=.08, stretch_steps=c.choice('steps', [17, 21]),
                sides=c.choice('sides', ['both', 'left', 'right', 'single']))
    if c.flag('tw'):
        opts['tw'] = [np.arange(2, 18), np.arange(1, 4)]
    r = c.choice('references', [1, 2, 3, 11])
    keep = data.copy()
    dv = quiet(lambda: f(data, np.array([ref] * r), **opts))
    c.check('data unchanged', np.array_equal(data, keep, equal_nan=True))
    if 'tw' in opts:
        opts['tw'] = opts['tw'][:1]
    single = quiet(lambda: one(data, ref_trc=ref, **opts))
    for k in ('value', 'corr', 'second_axis'):
        c.check('as the single reference: ' + k, np.allclose(
            np.atleast_1d(dv[k]), np.atleast_1d(single[k]), equal_nan=True),
            (dv[k], single[k]))
    # other references
    refs = np.array([np.interp((np.arange(n) - 20) * np.exp(
        .008 * (i - 1)), np.arange(n) - 20, ref) for i in range(3)])
    a = quiet(lambda: f(data, refs, **opts))
    b = quiet(lambda: f(data, refs[[2, 0, 1]], **opts))
    c.check('order of references', np.allclose(
        a['corr'], b['corr'], equal_nan=True, atol=1e-6) and np.allclose(
            a['value'], b['value'], equal_nan=True), (a['value'],
                                                      b['value']))


@contract('C28', 'options of the combination',
          [SM + 'multi_ref_vchange_and_align'],
          note='estimate and alignment as contracts; 1, 2 and 12 references, '
          'any data')
def combination_options(c):
    """options reach the estimates; several references are aligned, a single
    one is returned as it is; only the first window is used"""
    r = c.choice('references', [1, 2, 12])
    m, n = c.dim('traces', 1, gen=(1, 3)), c.dim('npts', 2, gen=(2, 6))
    data = c.array('data', (m, n), nan=True)
    refs = c.array('refs', (r, n), nan=True)
    seen = {}

    def estimates(mat, ref, **k):
        seen['estimate'] = (mat, ref, k)
        seen['panel'] = {'reftr_%d' % i: 'dv%d' % i for i in range(r)}
        return seen['panel']

    def align(panel, return_sim_mat=False):
        seen['align'] = (panel, return_sim_mat)
        return 'aligned'
    c.patch(SM + 'multi_ref_vchange', estimates)
    c.patch(SM + 'estimate_reftr_shifts_from_dt_corr', align)
    nans, sim = c.flag('remove_nans'), c.flag('return_sim_mat')
    w = c.int('windows', 0, gen=(0, 3)) if not c.symbolic else c.choice(
        'windows', [0, 1, 3])
    tw = ['w%d' % i for i in range(w)] or None
    opts = dict(stretch_range='range', stretch_steps='steps', sides='sides',
                ref_tr_trim='trim', ref_tr_stats='stats')
    out = c.fn(SM + 'multi_ref_vchange_and_align')(
        data, refs, tw=tw, remove_nans=nans, return_sim_mat=sim, **opts)
    mat, ref, k = seen['estimate']
    c.check('options', all(k[o] == opts[o] for o in opts) and
            k['remove_nans'] == nans)
    c.check('window', k['tw'] == (tw and tw[:1]))
    i, j = c.exists_index('ij', [m, n])
    for a, b in ((c.at(mat, i, j), c.at(data, i, j)),) + tuple(
            (c.at(ref, q, j), c.at(refs, q, j)) for q in range(r)):
        if nans:
            c.check('no gaps', c.eq(a, c.ite(c.isnan(b), 0., lambda: b)))
        else:
            c.check('data', c.ite(c.isnan(b), lambda: c.isnan(a),
                                  lambda: c.eq(a, b)))
    if r == 1:
        c.check('single reference', out == 'dv0' and 'align' not in seen)
    else:
        c.check('aligned', out == 'aligned' and
                seen['align'][0] is seen['panel'] and
                seen['align'][1] == sim)
