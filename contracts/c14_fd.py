"""C14 frequency-domain preprocessing."""
from .common import contract

FD = 'seismic.correlate.preprocessing_fd:'


def spectra(c, rows=(1, 4), bins=(1, 12), mult=1):
    if mult > 1:
        m = 3 * c.int('groups', 1, gen=(1, 2))
    else:
        m = c.dim('rows', 1, gen=rows)
    n = c.dim('bins', 1, gen=bins)
    B = c.array('B', (m, n), kind='c')
    return m, n, B, B.copy()


def re(x):
    return x.real


def im(x):
    return x.imag


@contract('C14', 'whitening of every trace', [FD + 'spectralWhitening'])
def whiten(c):
    m, n, B, old = spectra(c)
    args = {'joint_norm': False} if c.flag('option given') else {}
    out = c.fn(FD + 'spectralWhitening')(B, args, {})
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n))

    def el(i, j):
        x, y = out[i, j], c.at(old, i, j)
        zero = c.and_(re(y) == 0, im(y) == 0)
        a = c.sqrt(re(y) * re(y) + im(y) * im(y))
        z = c.or_(zero, j == 0)
        return (c.eq(re(x), c.ite(z, 0., re(y) / c.ite(zero, 1., a))),
                c.eq(im(x), c.ite(z, 0., im(y) / c.ite(zero, 1., a))))
    c.forall('phase kept and amplitude one, nothing where there is no '
             'energy', [m, n], el)


@contract('C14', 'joint whitening of three components',
          [FD + 'spectralWhitening'], proof=False, cases=200,
          bound='up to 6 x 12')
def joint(c):
    import numpy as np
    m, n, B, old = spectra(c, mult=3)
    out = c.fn(FD + 'spectralWhitening')(B, {'joint_norm': True}, {})
    want = np.zeros_like(old)
    for i in range(m):
        g = i - i % 3
        for j in range(1, n):
            a = np.abs(old[g:g + 3, j]).mean()
            want[i, j] = old[i, j] / a if a else 0
    c.check('relative amplitudes within a group of three kept',
            out.shape == (m, n) and np.allclose(out, want))
    if m > 1:
        k = c.int('k', 1, m - 1)
        if k % 3:
            c.expect_raises(AssertionError, lambda: c.fn(
                FD + 'spectralWhitening')(
                    old[:k].copy(), {'joint_norm': True}, {}),
                'needs groups of three')


@contract('C14', 'frequency-domain filter', [FD + 'FDfilter'], proof=False,
          cases=200, bound='up to 4 x 60, all corner frequencies')
def fdfilter(c):
    import numpy as np
    m = c.int('rows', 1, 4)
    n = c.int('bins', 2, 60)
    B = c.array('B', (m, n), kind='c')
    old = B.copy()
    freqs = np.fft.rfftfreq(2 * (n - 1), .1)
    lim = sorted(freqs[c.int('f%d' % i, 0, n - 1)] for i in range(4))
    c.assume(lim[0] < lim[1] < lim[2] < lim[3])
    args = {'flimit': lim}
    keep = {'flimit': list(lim)}
    out = c.fn(FD + 'FDfilter')(B, args, {'freqs': freqs})
    c.check('arguments untouched', args == keep)
    c.check('shape', out.shape == (m, n))
    w = np.ones(n) * np.nan
    for j in range(n):
        for i in range(m):
            if abs(old[i, j]) > 1e-3:
                q = out[i, j] / old[i, j]
                c.check('real weight in [0, 1]', abs(q.imag) < 1e-9 and
                        -1e-9 < q.real < 1 + 1e-9)
                if not np.isnan(w[j]):
                    c.check('same weight for every trace',
                            abs(w[j] - q.real) < 1e-9)
                w[j] = q.real
            elif old[i, j] == 0:
                c.check('zero stays', out[i, j] == 0)
    for j in range(n):
        if np.isnan(w[j]):
            continue
        if lim[1] <= freqs[j] <= lim[2]:
            c.check('pass band unchanged', abs(w[j] - 1) < 1e-6)
        if freqs[j] < lim[0] or freqs[j] > lim[3]:
            c.check('outside removed', abs(w[j]) < 1e-6)


@contract('C14', 'sign bit of the trace behind a spectrum',
          [FD + 'FDsignBitNormalization'], proof=False, cases=200,
          bound='up to 4 x 61 samples')
def signbit(c):
    import numpy as np
    m = c.int('rows', 1, 4)
    n = c.int('npts', 2, 61)
    sr = c.choice('sr', [1., 4., 25., .2, 100 / 3.])
    A = c.array('A', (m, n))
    # the sign of samples that vanish is decided by rounding
    A = np.where(np.abs(A) < 1e-3, .5, A)
    par = {'freqs': np.fft.rfftfreq(n, 1. / sr), 'sampling_rate': sr}
    out = c.fn(FD + 'FDsignBitNormalization')(np.fft.rfft(A), {}, par)
    c.check('shape', out.shape == (m, n // 2 + 1))
    c.check('spectrum of the signs', np.allclose(
        out, np.fft.rfft(np.sign(A)), atol=1e-6))
    if n % 2 == 0:
        out = c.fn(FD + 'FDsignBitNormalization')(np.fft.rfft(A), {}, {})
        c.check('even number of samples by default', np.allclose(
            out, np.fft.rfft(np.sign(A)), atol=1e-6))


@contract('C14', 'sign bit in terms of the Fourier transform',
          [FD + 'FDsignBitNormalization'], cases=100)
def signbit_def(c):
    m = c.dim('rows', 1, gen=(1, 4))
    n = c.int('npts', 2, dim=True, gen=(2, 40))
    sr = c.real('sr', positive=True, gen=(1, 20), den=4)
    B = c.array('B', (m, n // 2 + 1), kind='c')
    np = c.np()
    want = np.fft.rfft(np.sign(np.fft.irfft(B.copy(), n=n)))
    par = {'freqs': np.fft.rfftfreq(n, 1. / sr), 'sampling_rate': sr}
    out = c.fn(FD + 'FDsignBitNormalization')(B, {}, par)
    c.check('shape', c.and_(out.shape[0] == m, out.shape[1] == n // 2 + 1))
    c.forall('transform of the signs of the inverse transform',
             [m, n // 2 + 1], lambda i, k: (
                 c.eq(out[i, k].real, want[i, k].real),
                 c.eq(out[i, k].imag, want[i, k].imag)))


@contract('C14', 'spectra are processed independently', [
    FD + 'spectralWhitening', FD + 'FDfilter',
    FD + 'FDsignBitNormalization'], proof=False, cases=200,
    bound='up to 4 x 33')
def independent(c):
    import numpy as np
    m, n, B, old = spectra(c, bins=(3, 33))
    freqs = np.fft.rfftfreq(2 * (n - 1), .1)
    par = {'freqs': freqs, 'sampling_rate': 10.}
    f, args = c.choice('step', [
        ('spectralWhitening', {}), ('FDsignBitNormalization', {}),
        ('FDfilter', {'flimit': [.1, 1., 4., 4.9]})])
    full = c.fn(FD + f)(old.copy(), dict(args), dict(par))
    for i in range(m):
        one = c.fn(FD + f)(old[i:i + 1].copy(), dict(args), dict(par))
        c.check('row does not depend on the others', np.allclose(
            one[0], full[i], atol=1e-9))
