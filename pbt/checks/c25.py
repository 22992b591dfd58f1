"""C25: Kasdin power-law noise and its theoretical levels."""
import functools

import numpy as np
import scipy.signal
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen, ref
from ..env import at

QD = [1.0, 1, 2e-20, 1e-32, 5.0, 1e6]


def series_of(nr, qd, b, seed, how='init'):
    np.random.seed(seed)
    if how == 'init':
        o = call(at.Noise, nr, qd, b)
    elif how == 'kw':
        o = call(at.Noise, nr=nr, qd=qd, b=b)
    else:
        o = call(at.Noise, nr=8, qd=3.0, b=-1)
        st0 = np.random.get_state()
        call(o.generateNoise)
        np.random.set_state(st0)
        call(o.set_input, nr=nr, qd=qd, b=b)
    call(o.generateNoise)
    x = as_array(o.time_series, 'time_series')
    require(x.shape == (nr,), 'nr=%d: time_series has shape %s', nr, x.shape)
    return x


def fractional(n, b):
    """impulse response of (1 - z^-1)^(b/2), i.e. PSD ~ f^b."""
    h = np.ones(n, dtype=ref.LD)
    for k in range(1, n):
        h[k] = h[k - 1] * (ref.LD(-b) / 2 + k - 1) / k
    return h


@st.composite
def cases(draw):
    return {'nr': draw(st.one_of(
                st.integers(1, 8).map(lambda k: 2 ** k),
                st.integers(2, 70), st.integers(70, 300))),
            'qd': draw(st.sampled_from(QD)),
            'b': draw(st.one_of(st.sampled_from([0, -1, -2, -3, -4]),
                                st.sampled_from([0.5, -0.5, -1.5, -2.0,
                                                 2, 1, -3.7]))),
            's': draw(gen.seeds),
            'how': draw(st.sampled_from(['init', 'kw', 'set']))}


@sub('C25', 'filter', cases(), 3000, shards=3,
     rule='same seed: the series for exponent b is the b=0 series convolved '
          'with the binomial series of (1-1/z)^(b/2) (direct convolution), '
          'scales as sqrt(qd), has length nr also after set_input and '
          're-generation; non-trivial = nr>=8, b!=0')
def _filter(c, ev):
    nr, b, s = c['nr'], c['b'], c['s']
    w = series_of(nr, 1.0, 0, s)
    x = series_of(nr, c['qd'], b, s, c['how'])
    h = fractional(nr, b)
    want = np.array([np.sum(h[:k + 1][::-1] * w[:k + 1]) for k in range(nr)])
    want = want * np.sqrt(ref.LD(c['qd']))
    top = np.sum(np.abs(h)) * np.max(np.abs(w)) * np.sqrt(c['qd'])
    require(np.all(np.abs(x - want) <= 1e-12 * nr ** 0.5 * top),
            'nr=%d qd=%r b=%r: series %s, filtered white noise %s', nr,
            c['qd'], b, x[:6], np.array(want[:6], dtype=float))
    ev.nt(nr >= 8 and b != 0)
    ev.label('b=%r' % b)


@st.composite
def longfilters(draw):
    return {'nr': draw(st.one_of(gen.block_lengths(300, 100000),
                                 gen.uni(300, 20000))),
            'qd': draw(st.sampled_from(QD)),
            'b': draw(st.one_of(st.sampled_from([-1, -2, -3, -4]),
                                st.floats(-4, 2).map(lambda v: round(v, 2)))),
            's': draw(gen.seeds), 'how': draw(st.sampled_from(
                ['init', 'kw', 'set']))}


@sub('C25', 'filter-long', longfilters(), 400, shards=4,
     rule='the same on 300-100000 points, exponents -4..2 in steps of 0.01 '
          '(FFT convolution; the last 40 values by direct sums in long '
          'double); non-trivial = b != 0')
def _flong(c, ev):
    nr, b, s = c['nr'], c['b'], c['s']
    w = series_of(nr, 1.0, 0, s)
    x = series_of(nr, c['qd'], b, s, c['how']) / np.sqrt(c['qd'])
    k = np.arange(1, nr)
    h = np.concatenate(([1.0], np.cumprod(
        (ref.LD(-b) / 2 + k - 1) / k))).astype(float)
    top = np.sum(np.abs(h)) * np.max(np.abs(w))
    want = scipy.signal.fftconvolve(w, h)[:nr]
    bad = np.flatnonzero(~(np.abs(x - want) <= 1e-11 * top))
    require(len(bad) == 0, 'nr=%d qd=%r b=%r: value %d is %r, filtered white '
            'noise %r', nr, c['qd'], b, bad[0] if len(bad) else 0,
            x[bad[0]] if len(bad) else 0, want[bad[0]] if len(bad) else 0)
    for i in list(range(min(nr, 5))) + list(range(nr - 40, nr)):
        v = float(np.sum(h[:i + 1][::-1].astype(ref.LD) * w[:i + 1]))
        require(abs(x[i] - v) <= 1e-11 * top, 'nr=%d b=%r: value %d is %r, '
                'direct sum %r', nr, b, i, x[i], v)
    ev.nt(b != 0)
    ev.label('b=%s' % (b if b == int(b) else 'fraction'))


@st.composite
def lv(draw):
    return {'nr': draw(st.one_of(
                st.sampled_from([2048, 4096]), gen.uni(2000, 4200),
                gen.block_lengths(2000, 60000))),
            'qd': draw(st.sampled_from(QD)),
            'b': draw(st.sampled_from([0, -1, -2, -3, -4])),
            's': draw(gen.seeds), 'tau0': draw(st.sampled_from(
                [1.0, 0.1, 10.0, 1, 1e-3]))}


@sub('C25', 'level', lv(), 500, shards=4,
     rule='2000-60000 points: whitened series has variance qd and no lag-1/2 '
          'correlation within 6.5 sigma; ADEV/MDEV of the series within '
          'statistical limits of adev()/mdev() theory at m=8; two '
          'generations differ; non-trivial = always')
def _level(c, ev):
    nr, b = c['nr'], c['b']
    x = series_of(nr, c['qd'], b, c['s'])
    np.random.seed(c['s'])
    o = call(at.Noise, nr, c['qd'], b)
    require(len(o.time_series) == 0, 'time_series before generation: %r',
            o.time_series)
    call(o.generateNoise)
    first = np.array(o.time_series)
    require(np.array_equal(first, x), 'not reproducible from the numpy seed')
    call(o.generateNoise)
    require(not np.array_equal(first, o.time_series), 'second generation '
            'repeats the first')
    # whiten with the inverse filter
    h = fractional(nr, -b).astype(float)
    w = scipy.signal.fftconvolve(x / np.sqrt(c['qd']), h)[:nr] if nr > 5000 \
        else np.convolve(x / np.sqrt(c['qd']), h)[:nr]
    s = np.sqrt(nr)
    require(abs(np.mean(w * w) - 1) <= 6.5 * np.sqrt(2.0) / s and
            abs(np.mean(w)) <= 6.5 / s and
            abs(np.mean(w[1:] * w[:-1])) <= 6.5 / s and
            abs(np.mean(w[2:] * w[:-2])) <= 6.5 / s,
            'b=%r qd=%r: innovations have variance %.3f qd, mean %.3f, '
            'lag-1 %.3f, lag-2 %.3f', b, c['qd'], np.mean(w * w), np.mean(w),
            np.mean(w[1:] * w[:-1]), np.mean(w[2:] * w[:-2]))
    tau0 = float(c['tau0'])
    for fn, meth in (('oadev', o.adev), ('mdev', o.mdev)):
        t, d, e, n = call(getattr(at, fn), first, rate=1 / tau0,
                          taus=[8 * tau0])
        th = float(call(meth, tau0, float(t[0])))
        require(0.6 <= d[0] / th <= 1.6, 'b=%r: %s of the generated series '
                'is %r, its theory method says %r', b, fn, float(d[0]), th)
    ev.nt()
    ev.label('b=%r' % b)


def _kernel(stat, u):
    """squared transfer function at u = pi tau f."""
    s = np.sin(u)
    if stat == 'adev':
        return 2 * s ** 4 / u ** 2
    if stat == 'mdev':
        return 2 * s ** 6 / u ** 4
    if stat == 'hdev':
        return 8.0 / 3 * s ** 6 / u ** 2
    return 9.0 / 2 * (2 * s ** 2 - u * np.sin(2 * u)) ** 2 / u ** 6


@functools.lru_cache(maxsize=None)
def integral(stat, a, top):
    """int_0^top u^a K(u) du, over half periods."""
    n = int(min(top / np.pi + 1e-6, 4000))
    edges = np.pi * np.arange(0, n + 1)
    if n < 4000 and top > edges[-1] * (1 + 1e-9):   # odd half period
        edges = np.append(edges, top)
    xs, ws = np.polynomial.legendre.leggauss(24)
    half = np.diff(edges)[:, None] / 2
    u = edges[:-1][:, None] + (xs + 1) * half
    u = np.maximum(u, 1e-9)
    v = u ** a * _kernel(stat, u)
    if stat == 'pdev':            # cancellation near 0
        small = u < 0.05
        v = np.where(small, u ** a * 9.0 / 2 * (2 * u ** 4 / 3) ** 2 /
                     u ** 6, v)
    tot = float(np.sum(v * ws * half))
    end = edges[-1]
    if top > end * (1 + 1e-9):    # mean of the kernel over half periods
        for c, e in {'adev': [(.75, -2)], 'mdev': [(.625, -4)],
                     'pdev': [(2.25, -4), (6.75, -6)],
                     'hdev': [(5 / 6., -2)]}[stat]:
            p = a + e + 1
            tot += c * (np.log(top / end) if p == 0 else
                        (top ** p - end ** p) / p)
    return tot


def theory(stat, b, tau0, tau, qd):
    """deviation for S_y = h f^(b+2) up to f_h = 1/(2 tau0), by quadrature."""
    a = b + 2
    h = 2 * qd * (2 * np.pi) ** a * tau0 ** (a - 1)
    m = int(round(tau / tau0))
    # u = pi tau f ; S_y df = h (u/(pi tau))^a du/(pi tau)
    val = integral(stat, a, np.pi * m / 2.0)
    return np.sqrt(h * (np.pi * tau) ** (-a - 1) * val)


@st.composite
def th(draw):
    return {'b': draw(st.sampled_from([0, -1, -2, -3, -4])),
            'qd': draw(st.sampled_from(QD)),
            'tau0': draw(st.sampled_from([1.0, 0.1, 10.0, 2, 1e-3, 1e-6,
                                          1e-9, 86400.0, 1e6])),
            'm': draw(st.sampled_from([400, 1000, 2000, 3000, 4000, 10 ** 4,
                                       3 * 10 ** 5, 10 ** 7, 10 ** 9])),
            'bf': draw(st.floats(-4, 2).map(lambda v: round(v, 2))),
            'm2': draw(st.sampled_from([2.0, 10.0, 64.0, 1e-6, 1e9]))}


@sub('C25', 'theory', th(), 600, shards=2,
     rule='adev()/mdev()/adev_from_qd/mdev_from_qd/pdev_from_qd against '
          'numerical integration of the PSD with each kernel (upper cut-off '
          '1/(2 tau0), tau0 1e-9..1e6, tau 400..1e9 tau0; 5e-5, or what the asymptotic '
          'formula leaves out), PSD levels against '
          '2 qd (2 pi)^b tau0^(b+1); scaling with qd and tau; non-trivial = '
          'always')
def _theory(c, ev):
    b, qd, tau0 = c['b'], c['qd'], float(c['tau0'])
    tau = c['m'] * tau0
    o = call(at.Noise, nr=16, qd=qd, b=b)
    got = call(o.phase_psd_from_qd, tau0)
    want = 2.0 * qd * (2 * np.pi) ** b * tau0 ** (b + 1)
    require(abs(got - want) <= 1e-9 * want, 'phase_psd_from_qd(%r), b=%d: %r, '
            'expected %r', tau0, b, got, want)
    got = call(o.frequency_psd_from_qd, tau0)
    want = want * (2 * np.pi) ** 2
    require(abs(got - want) <= 1e-9 * want, 'frequency_psd_from_qd(%r), '
            'b=%d: %r, expected %r', tau0, b, got, want)
    o3, bf = call(at.Noise, nr=16, qd=qd, b=c.get('bf', -1.5)), c.get('bf', -1.5)
    want = 2.0 * qd * (2 * np.pi) ** bf * tau0 ** (bf + 1)
    for fn, w in ((o3.phase_psd_from_qd, want),
                  (o3.frequency_psd_from_qd, want * (2 * np.pi) ** 2)):
        got = call(fn, tau0)
        require(abs(got - w) <= 1e-9 * w, '%s(%r), b=%r: %r, expected %r',
                fn.__name__, tau0, bf, got, w)
    cA = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1}[b]
    cM = {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}[b]
    require(call(o.c_avar) == cA and call(o.c_mvar) == cM, 'b=%d: c_avar %r '
            'c_mvar %r', b, o.c_avar(), o.c_mvar())
    # what the asymptotic formulas leave out at m >= 400
    loose = {(0, 'mdev'): 0.3 / c['m'], (0, 'pdev'): 0.3 / c['m'],
             (-2, 'adev'): 0.3 / c['m'], (-3, 'mdev'): 5e-4}

    def tol_of(stat):
        return loose.get((b, stat), 5e-5)

    for stat, get, pre in (('adev', o.adev, o.adev_from_qd),
                           ('mdev', o.mdev, o.mdev_from_qd)):
        want = theory(stat, b, tau0, tau, float(qd))
        got = float(call(get, tau0, tau))
        require(abs(got / want - 1) <= tol_of(stat), '%s(tau0=%r, tau=%r) b=%d qd=%r: '
                '%r, numerical integral %r', stat, tau0, tau, b, qd, got,
                want)
        exp = cA if stat == 'adev' else cM
        p = float(call(pre, tau0, tau)) * tau ** (exp / 2.0)
        require(abs(p - got) <= 1e-9 * got, '%s_from_qd * tau^(c/2) = %r, '
                '%s() = %r', stat, p, stat, got)
    want = theory('pdev', b, tau0, tau, float(qd))
    got = float(call(o.pdev_from_qd, tau0, tau)) * tau ** (cM / 2.0)
    require(abs(got / want - 1) <= tol_of('pdev'), 'pdev_from_qd(tau0=%r, tau=%r) b=%d: '
            '%r, numerical integral %r', tau0, tau, b, got, want)
    k = c['m2']
    o2 = call(at.Noise, nr=16, qd=qd * k, b=b)
    for m_ in ('adev', 'mdev'):
        r = float(call(getattr(o2, m_), tau0, tau)) / \
            float(call(getattr(o, m_), tau0, tau))
        require(abs(r - k ** 0.5) <= 1e-9 * r, '%s scales by %r when qd '
                'scales by %r', m_, r, k)
    ev.nt()
    ev.label('b=%d' % b)
