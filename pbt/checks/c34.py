"""C34: simulated noise shows the deviation its spectrum predicts."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen, ref
from ..env import at
from .c25 import integral

from allantools import noise

FAMILY = {'adev': 'adev', 'oadev': 'adev', 'totdev': 'adev',
          'gradev': 'adev', 'mdev': 'mdev', 'tdev': 'mdev', 'pdev': 'pdev',
          'hdev': 'hdev', 'ohdev': 'hdev'}


def predicted(stat, h, a, tau, fh):
    """sqrt of int_0^fh h f^a |H|^2 df, by quadrature."""
    val = integral(stat, a, np.pi * tau * fh)
    return np.sqrt(h * (np.pi * tau) ** (-a - 1) * val)


# generator -> (exponent of S_y, data type, S_y level for level v, rate fs)
COLOURS = {
    'white-freq': (0, 'freq', lambda v, n, fs: noise.white(n, v, fs),
                   lambda v, fs: v),
    'white-phase': (2, 'phase', lambda v, n, fs: noise.white(n, v, fs),
                    lambda v, fs: v * 4 * np.pi ** 2),
    'brown-phase': (0, 'phase', lambda v, n, fs: noise.brown(n, v, fs),
                    lambda v, fs: v * 4 * np.pi ** 2),
    'brown-freq': (-2, 'freq', lambda v, n, fs: noise.brown(n, v, fs),
                   lambda v, fs: v),
    'violet-freq': (2, 'freq', lambda v, n, fs: noise.violet(n, v, fs),
                    lambda v, fs: v),
}


def compare(c, records, dtype, fs, m, h, a, ev, what):
    """ensemble mean square of a deviation against the prediction."""
    dev, tau = c['dev'], m / fs
    sq = []
    for x in records:
        t, d, e, n = call(getattr(at, dev), x, rate=fs, data_type=dtype,
                          taus=[tau])
        require(len(d) == 1, '%s: no row for m=%d of %d points', dev, m,
                len(x))
        sq.append(float(d[0]) ** 2)
    got = np.sqrt(np.mean(sq))
    fam = FAMILY[dev]
    want = predicted(fam, h, a, tau, fs / 2.0)
    if dev == 'tdev':
        want *= tau / np.sqrt(3.0)
    dof = 0.6 * len(records[0]) / m * len(records)
    tol = 6 * np.sqrt(0.5 / dof) + 0.04
    require(abs(got / want - 1) <= tol, '%s, %s at m=%d, rate %r: root mean '
            'square over %d records %r, the spectrum predicts %r', what, dev,
            m, fs, len(records), float(got), float(want))
    ev.nt()
    ev.label(dev, 'alpha=%d' % a)
    return got, tol


def library(got, tol, dev, tau, pred, what):
    """the library's own prediction against the simulated records."""
    if dev == 'tdev':
        pred = pred * tau / np.sqrt(3.0)
    require(abs(got / pred - 1) <= tol + 0.01, '%s: simulated %s is %r, '
            'predicted %r', what, dev, float(got), float(pred))


DEVS = ['adev', 'oadev', 'mdev', 'tdev', 'pdev', 'hdev', 'ohdev', 'totdev',
        'gradev']


@st.composite
def kasdin(draw):
    return {'b': draw(st.sampled_from([0, -1, -2, -3, -4])),
            'dev': draw(st.sampled_from(DEVS)),
            'm': draw(st.sampled_from([16, 20, 25, 32])),
            'n': draw(st.sampled_from([1024, 1000, 1500])),
            'qd': draw(st.sampled_from([1.0, 2e-20, 5.0, 1e6])),
            'tau0': draw(st.sampled_from([1.0, 0.1, 10.0, 1e-3, 3.0])),
            'runs': draw(st.sampled_from([60, 60, 250])),
            's': draw(gen.seeds)}


@sub('C34', 'kasdin', kasdin(), 400, shards=4,
     rule='60 or 250 series of Noise(nr, qd, b) as phase: the mean square of 9 '
          'deviations against the integral of its PSD and the adev(), '
          'mdev(), *_from_qd predictions (6 sigma + 4 %); non-trivial = '
          'compared')
def _kasdin(c, ev):
    n, b, tau0, m = c['n'], c['b'], c['tau0'], c['m']
    np.random.seed(c['s'])
    o = call(at.Noise, n, c['qd'], b)
    xs = []
    for _ in range(c['runs']):
        call(o.generateNoise)
        xs.append(np.array(o.time_series))
    a = b + 2
    h = float(call(o.frequency_psd_from_qd, tau0))
    got, tol = compare(c, xs, 'phase', 1.0 / tau0, m, h, a, ev,
                       'Noise(b=%d, qd=%r)' % (b, c['qd']))
    tau, fam = m * tau0, FAMILY[c['dev']]
    if fam in ('adev', 'mdev'):
        p = float(call(getattr(o, fam), tau0, tau))
    elif fam == 'pdev':
        p = float(call(o.pdev_from_qd, tau0, tau)) * tau ** (
            call(o.c_mvar) / 2.0)
    else:
        return
    library(got, tol, c['dev'], tau, p, 'Noise(b=%d).%s' % (b, fam))


@st.composite
def colours(draw):
    return {'kind': draw(st.sampled_from(sorted(COLOURS))),
            'dev': draw(st.sampled_from(DEVS)),
            'm': draw(st.sampled_from([16, 20, 25, 32])),
            'n': draw(st.sampled_from([1024, 1001, 1500])),
            'v': draw(st.sampled_from([1.0, 3e-20, 250.0])),
            'fs': draw(st.sampled_from([1.0, 0.1, 10.0, 1e3])),
            'runs': draw(st.sampled_from([60, 60, 250])),
            's': draw(gen.seeds)}


@sub('C34', 'colours', colours(), 240, shards=4,
     rule='60 or 250 records of white, brown or violet noise taken as phase or '
          'frequency: the mean square of 9 deviations against the integral '
          'of the PSD and psd2allan of the sampled PSD (6 sigma + 4 %); '
          'non-trivial = compared')
def _colours(c, ev):
    a, dtype, make, level = COLOURS[c['kind']]
    n, fs, m = c['n'], c['fs'], c['m']
    np.random.seed(c['s'])
    xs = [as_array(call(make, c['v'], n, fs), c['kind']) for _ in range(c['runs'])]
    h = level(c['v'], fs)
    got, tol = compare(c, xs, dtype, fs, m, h, a, ev, c['kind'])
    fam = FAMILY[c['dev']]
    if fam in ('adev', 'mdev') and m % 2 == 0:   # its taus are 2k/fs
        k = 2048
        f = np.linspace(0, fs / 2.0, k + 1)
        with np.errstate(all='ignore'):
            sy = h * f ** float(a)
        sy[0] = 0.0
        t, d = call(at.psd2allan, sy, f, kind=fam, base=1)
        i = int(np.argmin(np.abs(t - m / fs)))
        require(abs(t[i] * fs / m - 1) <= 1e-6, 'psd2allan has no tau %r: %s',
                m / fs, t[:40])
        library(got, tol, c['dev'], m / fs, float(d[i]), c['kind'] +
                ' psd2allan')


@st.composite
def timmer(draw):
    return {'al': draw(st.sampled_from([2, 1, 0, -1])),
            'dev': draw(st.sampled_from(DEVS)),
            'm': draw(st.sampled_from([8, 10, 12])),
            # the documented grid is one bin off the DFT frequencies: long
            'n': draw(st.sampled_from([4096, 4001])),
            'h': draw(st.sampled_from([1.0, 3e-20, 250.0])),
            'dt': draw(st.sampled_from([1.0, 0.1, 10.0, 1e-3])),
            'split': draw(st.booleans()),
            'out': draw(st.sampled_from(['phase', 'freq'])),
            'runs': draw(st.sampled_from([60, 60, 150])),
            's': draw(gen.seeds)}


@sub('C34', 'synthesised', timmer(), 160, shards=4,
     rule='60 or 250 records of timmer_koenig_from_psd (one power law, or split '
          'at a node) in phase and frequency output: the mean square of 9 '
          'deviations against the integral of the PSD and '
          'psd_piecewise_to_adev (6 sigma + 4 %); '
          'non-trivial = compared')
def _timmer(c, ev):
    a, n, dt, m = c['al'], c['n'], c['dt'], c['m']
    f, h, al = [], [c['h']], [a]
    if c['split']:
        f, h, al = [0.02 / dt], h * 2, al * 2
    xs = [as_array(call(at.timmer_koenig_from_psd, f, h, al, (n + 0.5) * dt,
                        dt, output=c['out'], seed=c['s'] % 10 ** 6 + i),
                   'series') for i in range(c['runs'])]
    got, tol = compare(c, xs, c['out'], 1.0 / dt, m, c['h'], a, ev,
                       'timmer_koenig')
    if FAMILY[c['dev']] == 'adev' and a <= 0:
        p = as_array(call(at.psd_piecewise_to_adev, h, al, f, [m * dt]),
                     'psd_piecewise_to_adev')
        library(got, tol, c['dev'], m * dt, float(p[0]),
                'psd_piecewise_to_adev')


# --------------------------------------------------- short records, exactly
QUADRATIC = ['adev', 'oadev', 'mdev', 'tdev', 'pdev', 'hdev', 'ohdev',
             'totdev', 'gradev', 'theo1', 'tierms', 'mtotdev', 'htotdev',
             'ttotdev']
SLOW_ONES = ('mtotdev', 'htotdev', 'ttotdev', 'theo1')


def columns(c):
    """x = sum of independent unit normals times these columns; the second
    list holds what a real coefficient at Nyquist may add."""
    n, fs, v, kind = c['n'], float(c['fs']), c['v'], c['kind']
    if kind == 'kasdin':
        h = np.ones(n)
        for k in range(1, n):
            h[k] = h[k - 1] * (-c['b'] / 2.0 + k - 1) / k
        h = h * np.sqrt(v)
        return [np.concatenate((np.zeros(j), h[:n - j]))
                for j in range(n)], []
    if kind == 'white':
        return list(np.eye(n) * np.sqrt(v * fs / 2)), []
    if kind == 'brown':
        return list(np.cumsum(np.eye(n), axis=1) * np.sqrt(
            v * 4 * np.pi ** 2 * fs / 2) / fs), []
    if kind == 'violet':
        return list(np.diff(np.eye(n + 1), axis=1) * np.sqrt(
            v / (4 * np.pi ** 2) * fs / 2) * fs), []
    dt = 1.0 / fs
    g = np.linspace(1.0 / ((n - 1) * dt), 1.0 / (2 * dt), n // 2 + 1)
    sx = v * g ** c['b'] / (2 * np.pi * g) ** 2
    amp = np.sqrt((n - 1) / dt) * np.sqrt(sx) / 2
    t = np.arange(n)
    out, edge = [], []
    for k in range(1, n // 2 + 1):
        ph = 2 * np.pi * k * t / n
        if 2 * k == n:        # real by itself: half or all of its power
            col = amp[k] * np.cos(ph) / n
            out.append(col)
            edge.append(col)
        else:
            out += [2 * amp[k] * np.cos(ph) / n, 2 * amp[k] * np.sin(ph) / n]
    return out, edge


def quadratic(dev, x, m, fs):
    """square of a deviation of one record, in units of phase."""
    if dev == 'htotdev':
        if m == 1:
            return float(ref.ohdev(x, 1)[0]) ** 2
        return float(ref.htotdev(np.diff(x), m)[0]) ** 2 * m ** 2
    fn = {'tdev': 'mdev', 'ttotdev': 'mtotdev', 'gradev': 'oadev'}.get(
        dev, dev)
    v = float(getattr(ref, fn)(x, m)[0]) ** 2
    return v / 3 if dev in ('tdev', 'ttotdev') else v


def generate(c, count):
    n, fs, v, kind = c['n'], float(c['fs']), c['v'], c['kind']
    if kind == 'timmer':
        for i in range(count):
            yield call(at.timmer_koenig_from_psd, [], [v], [c['b']],
                       (n + 0.5) / fs, 1.0 / fs, seed=c['s'] % 10 ** 8 + i)
        return
    np.random.seed(c['s'])
    if kind == 'kasdin':
        o = call(at.Noise, n, v, c['b'])
        for _ in range(count):
            call(o.generateNoise)
            yield np.array(o.time_series)
        return
    fn = getattr(noise, kind)
    for _ in range(count):
        yield call(fn, n, v, fs)


@st.composite
def shorts(draw):
    kind = draw(st.sampled_from(['kasdin', 'kasdin', 'white', 'brown',
                                 'violet', 'timmer', 'timmer']))
    dev = draw(st.sampled_from(QUADRATIC))
    b = 0
    if kind == 'kasdin':
        b = draw(st.sampled_from([0, -1, -2, -3, -4]))
    elif kind == 'timmer':
        b = draw(st.sampled_from([2, 1, 0, -1, -2]))
    m = draw(st.sampled_from([1, 2, 2, 3, 4]))
    if dev == 'theo1':
        m = 2 * max(1, m // 2)
    n = draw(gen.uni(4, 9 if dev in SLOW_ONES else 20))
    n += (4 if dev == 'hdev' else 3) * m
    return {'kind': kind, 'dev': dev, 'b': b, 'm': m, 'n': n,
            'freq': draw(st.booleans()) and dev != 'htotdev',
            'v': draw(st.sampled_from([1.0, 3e-20, 250.0])),
            'fs': draw(st.sampled_from([1.0, 0.1, 8.0, 1e3])),
            's': draw(gen.seeds)}


@sub('C34', 'short-records', shorts(), 160, shards=8,
     rule='800-2500 records of 7-32 points from every generator, as phase or '
          'frequency: the mean square of 14 deviations against its exact '
          'expectation (sum over the independent normals of the reference '
          'deviation of each contribution), 6.5 standard errors; '
          'non-trivial = compared')
def _short(c, ev):
    dev, m, fs, n = c['dev'], c['m'], float(c['fs']), c['n']
    tau = m / fs
    dtype = 'freq' if c['freq'] else 'phase'

    def expect(cols):
        if c['freq']:
            cols = [ref.phase_from_freq(x, fs) for x in cols]
        return sum(quadratic(dev, x, m, fs) for x in cols)
    cols, edge = columns(c)
    lo = hi = expect(cols)
    if edge:
        hi = lo + expect(edge)
    scale = 1.0 if dev in ('tdev', 'ttotdev', 'tierms') else tau
    sq = []
    for x in generate(c, 800 if dev in SLOW_ONES + ('pdev',) else 2500):
        x = as_array(x, c['kind'])
        require(x.shape == (n,), '%s: %s values, expected %d', c['kind'],
                x.shape, n)
        r = call(getattr(at, dev), x, rate=c['fs'], data_type=dtype,
                 taus=[tau])
        require(len(r[1]) == 1, '%s: no row for m=%d of %d points', dev, m, n)
        sq.append((float(r[1][0]) * scale) ** 2)
    got, se = np.mean(sq), np.std(sq) / np.sqrt(len(sq))
    require(lo - 6.5 * se <= got <= hi + 6.5 * se, '%s(n=%d, level %r, '
            'exponent %r) as %s, %s at m=%d, rate %r: mean square over %d '
            'records %r +- %r, expected %r', c['kind'], n, c['v'], c['b'],
            dtype, dev, m, c['fs'], len(sq), got, se, lo)
    ev.nt()
    ev.label(c['kind'], dev)
