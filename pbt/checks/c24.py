"""C24: coloured-noise generators hit the requested PSD; PSD estimator."""
import numpy as np
import scipy.signal
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..env import at

N = at.noise
TWO_PI = 2 * np.pi
FS = [1.0, 1, 2.0, 0.1, 10.0, 1e3, 0.5, 3, 1e-3, 44100.0, 1e-5, 1e-4, 1e7]
LEVEL = [1.0, 1, 1e-20, 4.2e-26, 1e6, 0.25, 3, 1e-35, 1e9]


def seeded(fn, seed, *a, **k):
    np.random.seed(seed)
    return as_array(call(fn, *a, **k), getattr(fn, '__name__', 'noise'))


@st.composite
def cases(draw):
    return {'n': draw(st.one_of(st.integers(1, 40), st.integers(40, 1500),
                               gen.uni(1, 100000))),
            's': draw(gen.seeds), 'fs': draw(st.sampled_from(FS)),
            'b': draw(st.one_of(st.sampled_from(LEVEL),
                                st.floats(1e-12, 1e6))),
            'pos': draw(st.booleans())}


def kw(c, name):
    return {name: c['b'], 'fs': c['fs']}


def gen3(c, colour, seed=None):
    fn, name = {'white': (N.white, 'b0'), 'brown': (N.brown, 'b_minus2'),
                'violet': (N.violet, 'b2')}[colour]
    s = c['s'] if seed is None else seed
    if c['pos']:
        return seeded(fn, s, c['n'], c['b'], c['fs'])
    return seeded(fn, s, num_points=c['n'], **kw(c, name))


@sub('C24', 'exact-relations', cases(), 4000, shards=3,
     rule='same seed: white scales as sqrt(b0 fs/2); brown is the running '
          'sum /fs of white of level b(2pi)^2; violet the difference *fs of '
          'white of level b/(2pi)^2; exactly num_points values; global seed '
          'reproduces, another seed differs; non-trivial = n>=4')
def _rel(c, ev):
    n, fs, b = c['n'], float(c['fs']), float(c['b'])
    unit = seeded(N.white, c['s'], n, 2.0, 1.0)
    unit1 = seeded(N.white, c['s'], n + 1, 2.0, 1.0)

    def same(got, want, what):
        require(got.shape == (n,), '%s returned shape %s for num_points=%d',
                what, got.shape, n)
        top = np.max(np.abs(want))
        require(np.all(np.abs(got - want) <= 1e-10 * top), '%s(n=%d, b=%r, '
                'fs=%r): %s, expected %s', what, n, c['b'], c['fs'], got[:5],
                want[:5])
    same(gen3(c, 'white'), unit * np.sqrt(b * fs / 2), 'white')
    lvl = np.sqrt(b * TWO_PI ** 2 * fs / 2)
    same(gen3(c, 'brown'), np.cumsum(unit) * lvl / fs, 'brown')
    lvl = np.sqrt(b / TWO_PI ** 2 * fs / 2)
    same(gen3(c, 'violet'), np.diff(unit1) * lvl * fs, 'violet')
    for col in ('white', 'brown', 'violet'):
        require(np.array_equal(gen3(c, col), gen3(c, col)), '%s is not '
                'reproducible under numpy.random.seed', col)
        require(not np.array_equal(gen3(c, col),
                                   gen3(c, col, (c['s'] + 1) % 2 ** 32)),
                '%s ignores the numpy seed', col)
        np.random.seed(c['s'])
        a, b2 = gen_again(c, col), gen_again(c, col)
        require(n < 2 or not np.array_equal(a, b2), '%s repeats itself', col)
    ev.nt(n >= 4)


def gen_again(c, col):
    fn = {'white': N.white, 'brown': N.brown, 'violet': N.violet}[col]
    return as_array(call(fn, c['n'], c['b'], c['fs']), col)


@st.composite
def levels(draw):
    return {'n': draw(st.one_of(
        gen.uni(4000, 6000), gen.uni(4000, 6000),
        gen.block_lengths(4000, 200000))), 's': draw(gen.seeds),
            'fs': draw(st.sampled_from(FS)),
            'b': draw(st.sampled_from(LEVEL)), 'pos': draw(st.booleans()),
            'col': draw(st.sampled_from(['white', 'brown', 'violet']))}


@sub('C24', 'level', levels(), 600, shards=4,
     rule='4000-200000 points: periodogram divided by the requested PSD (exact '
          'discrete transfer function) averages to 1 within 6 sigma, in the '
          'whole band and in each half; values uncorrelated and unit-normal '
          '(kurtosis); non-trivial = always')
def _lvl(c, ev):
    x = gen3(c, c['col'])
    n, fs, b = c['n'], float(c['fs']), float(c['b'])
    # undo the colour: white of one-sided level w0
    if c['col'] == 'white':
        w, w0 = x, b
    elif c['col'] == 'brown':
        w, w0 = np.diff(np.concatenate(([0.0], x))) * fs, b * TWO_PI ** 2
    else:
        # sum of differences = w_k - w_0; w_0 is unknown: remove the mean
        w, w0 = np.cumsum(x) / fs, b / TWO_PI ** 2
        w = w - np.mean(w)
    f = np.fft.rfftfreq(n, 1 / fs)
    p = 2 / (n * fs) * np.abs(np.fft.rfft(w)) ** 2 / w0
    p = p[1:(n - 1) // 2]
    h = len(p) // 2
    for part, nm in ((p, 'band'), (p[:h], 'lower half'), (p[h:], 'upper half')):
        lim = 6.5 / np.sqrt(len(part))
        require(abs(np.mean(part) - 1) <= lim, '%s, b=%r fs=%r n=%d: %s of '
                'PSD is %.3f of the requested level', c['col'], c['b'],
                c['fs'], n, nm, np.mean(part))
    require(abs(np.mean(p > np.log(2)) - 0.5) <= 3.5 / np.sqrt(len(p)),
            '%s: PSD values are not exponentially distributed (median)',
            c['col'])
    z = w / np.std(w)
    require(abs(np.mean(z ** 4) - 3) <= 7 * np.sqrt(24.0 / n) + 0.05,
            '%s: kurtosis %r', c['col'], float(np.mean(z ** 4)))
    ev.nt()
    ev.label(c['col'])


@st.composite
def pinks(draw):
    return {'s': draw(gen.seeds), 'depth': draw(st.sampled_from(
        [None, 20, 40, 80, 80, 128, 300])), 'n': draw(gen.uni(1, 300))}


@sub('C24', 'pink', pinks(), 200, shards=4,
     rule='pink noise: exactly num_points values, reproducible from the '
          'numpy seed, log-log PSD slope over the octaves above 1/depth '
          'between -1.4 and -0.75; non-trivial = slope evaluated')
def _pink(c, ev):
    k = {} if c['depth'] is None else {'depth': c['depth']}
    a = seeded(N.pink, c['s'], c['n'], **k)
    require(a.shape == (c['n'],), 'pink(%d) returned %s', c['n'], a.shape)
    require(np.array_equal(a, seeded(N.pink, c['s'], c['n'], **k)),
            'pink is not reproducible')
    depth = c['depth'] or 80
    np.random.seed(c['s'])
    P = 0.0
    for _ in range(8):
        x = as_array(call(N.pink, 1024, **k), 'pink')
        P = P + np.abs(np.fft.rfft(x - np.mean(x))) ** 2
    f = np.fft.rfftfreq(1024)
    edges = 2.0 ** -np.arange(7, 0, -1)
    edges = edges[edges >= 1.0 / depth]
    pts = [(0.5 * np.log(u * v), np.log(np.mean(P[(f >= u) & (f < v)])))
           for u, v in zip(edges[:-1], edges[1:])]
    slope = np.polyfit([p[0] for p in pts], [p[1] for p in pts], 1)[0]
    require(-1.4 <= slope <= -0.75, 'pink(depth=%s): PSD slope %.3f',
            c['depth'], slope)
    ev.nt()


@st.composite
def pinkvar(draw):
    return {'s': draw(gen.seeds), 'depth': draw(st.one_of(
        st.sampled_from([None, 1, 2, 3, 5, 8]), gen.uni(1, 200))),
        'n': draw(st.one_of(st.integers(1, 12), st.integers(1, 400)))}


@sub('C24', 'pink-variance', pinkvar(), 60, shards=4,
     rule='depth 1..200: over 800 runs the last sample of a pink series of '
          '1-400 points has mean 0 and the variance of a sum of depth unit '
          'white samples (0.7 depth .. 1.35 (depth+1)); non-trivial = always')
def _pinkvar(c, ev):
    k = {} if c['depth'] is None else {'depth': c['depth']}
    d = c['depth'] or 80
    n = c['n']
    np.random.seed(c['s'])
    v = []
    for i in range(800 if n <= 60 else 400):
        x = as_array(call(N.pink, n, **k), 'pink')
        require(x.shape == (n,), 'pink(%d) returned %s', n, x.shape)
        v.append(x[-1])
    var, lim = np.var(v), 1.0 if n <= 60 else 1.4
    lo, hi = 0.7 ** lim * d, 1.35 ** lim * (d + 1)
    require(lo <= var <= hi, 'pink(%d, depth=%s): variance of the last '
            'sample %.3g, expected about %d', n, c['depth'], var, d)
    require(abs(np.mean(v)) <= 6.5 * np.sqrt(hi / len(v)), 'pink(%d, '
            'depth=%s): mean of the last sample %r', n, c['depth'],
            float(np.mean(v)))
    ev.nt()


@st.composite
def pinklong(draw):
    return {'s': draw(gen.seeds),
            'depth': draw(st.sampled_from([10, 16, 25, 64, 80, 100])),
            'k': draw(gen.uni(150, 250))}


@sub('C24', 'pink-no-period', pinklong(), 60, shards=4,
     rule='pink series of 150-250 times the depth: no spectral lines at the '
          'multiples of 1/depth (mean power there below 6 times that of the '
          'neighbouring bins), equal power in every quarter of the record '
          'above the lowest octaves; non-trivial = always')
def _pinklong(c, ev):
    d, k = c['depth'], c['k']
    x = seeded(N.pink, c['s'], d * k, depth=d)
    require(x.shape == (d * k,), 'pink(%d) returned %s', d * k, x.shape)
    P = np.abs(np.fft.rfft(np.diff(x, append=x[-1]))) ** 2
    i = np.arange(1, (d + 1) // 2) * k
    near = np.mean([P[i + j] for j in range(-12, 13) if abs(j) > 1])
    lines = np.mean(P[i])
    require(lines < 6 * near, 'pink(depth=%d): lines at multiples of '
            '1/depth, %.1f times the neighbouring power', d, lines / near)
    q = [np.var(np.diff(p)) for p in np.array_split(x, 4)]
    require(max(q) < 2 * min(q), 'pink(depth=%d): variance of the steps in '
            'the quarters of the record %s', d, q)
    ev.nt()


@st.composite
def psds(draw):
    return {'x': draw(gen.series(2, 300, draw(st.sampled_from(
        [600, 3000, 20000, 120000])), slopes=[0.0])),
            'fs': draw(st.sampled_from(FS)), 'seg': draw(
                st.sampled_from([1, 2, 3, 4, 8, 16, 25, 64, None])),
            'form': draw(st.sampled_from(['array', 'list'])),
            'k': draw(gen.uni(0, 200))}


@sub('C24', 'psd-estimator', psds(), 4000, shards=3,
     rule='numpy_psd against the textbook one-sided periodogram (DFT at '
          'k fs/N, all interior bins; direct summation at one bin), axis '
          '0..fs/2, Parseval for interior bins; scipy_psd = Welch with '
          'len/nr_segments points per segment; non-trivial = >=4 bins')
def _psd(c, ev):
    x, fs = gen.expand(c['x']), float(c['fs'])
    n = len(x)
    arg = list(x) if c['form'] == 'list' else x
    r = call(N.numpy_psd, arg, c['fs'])
    f, p = as_array(r[0], 'axis'), as_array(r[1], 'psd')
    nb = n // 2 + 1
    require(f.shape == p.shape == (nb,), '%d points: axis %s, PSD %s', n,
            f.shape, p.shape)
    want = np.arange(nb) * fs / n
    require(np.allclose(f, want, rtol=1e-12, atol=0), 'axis %s, expected %s',
            f[:4], want[:4])
    top = 2.0 / (n * fs) * np.sum(np.abs(x)) ** 2 + 1e-300
    fr, pr = scipy.signal.periodogram(x, fs, window='boxcar', detrend=False,
                                      scaling='density')
    inner = np.arange(1, (n + 1) // 2)
    require(np.all(np.abs(p[inner] - pr[inner]) <= 1e-8 * pr[inner] +
                   1e-13 * top), 'PSD %s, periodogram %s', p[:5], pr[:5])
    if len(inner):
        k = int(inner[c['k'] % len(inner)])
        ph = 2 * np.pi * k * np.arange(n) / n
        d = 2.0 / (n * fs) * (np.sum(x * np.cos(ph)) ** 2 +
                              np.sum(x * np.sin(ph)) ** 2)
        require(abs(p[k] - d) <= 1e-7 * d + 1e-12 * top, 'bin %d: %r, direct '
                'sum %r', k, p[k], d)
    for k in (0,) + ((n // 2,) if n % 2 == 0 else ()):
        d = 1.0 / (n * fs) * abs(np.sum(x * np.exp(
            -2j * np.pi * k * np.arange(n) / n))) ** 2
        require(min(abs(p[k] - d), abs(p[k] - 2 * d)) <= 1e-7 * d +
                1e-12 * top, 'edge bin %d: %r, |X|^2/(N fs) %r', k, p[k], d)
    ev.nt(len(inner) >= 4)
    if n >= max(16, 2 * (c['seg'] or 4)):
        kws = {} if c['seg'] is None else {'nr_segments': c['seg']}
        r = call(N.scipy_psd, x, c['fs'], **kws)
        fw, pw = scipy.signal.welch(x, fs, nperseg=n / (c['seg'] or 4))
        require(np.allclose(r[0], fw, rtol=1e-12) and np.allclose(
            r[1], pw, rtol=1e-9, atol=1e-14 * top), 'scipy_psd differs from '
            'Welch with %s segments', c['seg'])
