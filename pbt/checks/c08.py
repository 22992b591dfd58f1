"""C08: phase and frequency input are equivalent; conversions round-trip."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen, ref
from ..devs import (run_dev, rounding, ALL, max_len, in_phase_units)
from ..env import at

EPS = 2.3e-16


@st.composite
def freq_cases(draw, fns=tuple(ALL), big=None):
    fn = draw(st.sampled_from(list(fns)))
    hi = max_len(fn)
    x = draw(gen.series(6, hi, big, kinds=gen.KINDS[:-2] + ['lit']))
    n = gen.spec_len(x) + 1
    c = {'fn': fn, 'y': x, 'rate': draw(gen.rates),
         'pre': draw(st.sampled_from([0, 0, 0, 1, 3])),
         'post': draw(st.sampled_from([0, 0, 0, 1, 2]))}
    if draw(st.integers(0, 3)) == 0:
        c['kw'] = draw(st.sampled_from(['octave', 'decade', None]))
    else:
        c['m'] = draw(gen.ms(n, mmax=max(1, n // 2)))
    return c


def nanpad(y, c):
    return np.concatenate((np.full(c['pre'], np.nan), y,
                           np.full(c['post'], np.nan)))


@sub('C08', 'freq-equals-phase', freq_cases(), 6000, shards=6,
     rule='every deviation on frequency data (with NaN padding at the edges) '
          'against the same deviation on the independently integrated, '
          'mean-removed phase; non-trivial = non-zero deviation')
def _fp(c, ev):
    y = gen.expand(c['y'])
    rate = float(c['rate'])
    fn = c['fn']
    x = np.asarray(ref.phase_from_freq(y, rate), dtype=float)
    taus = c['kw'] if 'kw' in c else gen.taus_of(c['m'], rate)
    a = run_dev(fn, nanpad(y, c), rate=c['rate'], data_type='freq',
                taus=taus)
    b = run_dev(fn, x, rate=c['rate'], data_type='phase', taus=taus)
    require((a is None) == (b is None), '%s: freq %r phase %r', fn, a, b)
    if a is None:
        return
    require(np.array_equal(a[3], b[3]) and len(a[0]) == len(b[0]) and
            np.allclose(a[0], b[0], rtol=1e-12),
            '%s: rows from freq %s n=%s, from phase %s n=%s', fn, a[0], a[3],
            b[0], b[3])
    n = len(y)
    ymax = np.max(np.abs(y))
    fl = rounding(x, 256) + 64 * EPS * ymax / rate * (4 + n)
    u, v = in_phase_units(fn, a), in_phase_units(fn, b)
    m = np.round(a[0] * rate)
    lim = 1e-8 * v + fl * (1 + m)
    require(np.all(np.abs(u - v) <= lim), '%s rate=%r: from freq %s, from '
            'phase %s', fn, c['rate'], a[1], b[1])
    if fn != 'gradev':
        require(np.all(np.abs(a[2] - b[2]) * np.sqrt(a[3]) *
                       (a[0] if fn not in ('tdev', 'ttotdev', 'mtie',
                                           'tierms') else 1) <=
                       lim * (1 + np.sqrt(a[3]))),
                '%s: error columns %s %s', fn, a[2], b[2])
    ev.nt(np.any(v > 100 * lim))
    ev.label(fn)
    if c['pre'] or c['post']:
        ev.label('nan-edges')


@st.composite
def offs(draw):
    return {'y': draw(gen.series(1000, 3000, 30000, kinds=['white', 'rw'],
                                 amps=[1.0], offs=[1e6, -1e7, 1e8],
                                 slopes=[0.0])),
            'fn': draw(st.sampled_from(['oadev', 'mdev', 'adev', 'ohdev',
                                        'totdev', 'hdev', 'tdev'])),
            'm': draw(st.lists(gen.uni(1, 300), min_size=1, max_size=3,
                               unique=True)),
            'rate': draw(st.sampled_from([1.0, 10.0, 0.1]))}


@sub('C08', 'large-offset', offs(), 240, shards=3,
     rule='1000-30000 frequency values with an offset 1e6-1e8 times their '
          'scatter: the result must equal the one for exactly integrated, '
          'mean-removed data (integration must not lose precision); '
          'non-trivial = any row reported')
def _off(c, ev):
    y = gen.expand(c['y'])
    rate = c['rate']
    x = ref.phase_from_freq(y, rate)
    x = np.asarray(x - x.mean(), dtype=float)
    taus = gen.taus_of(c['m'], rate)
    a = run_dev(c['fn'], y, rate=rate, data_type='freq', taus=taus)
    b = run_dev(c['fn'], x, rate=rate, taus=taus)
    require((a is None) == (b is None), '%s: declined one of the two', c['fn'])
    if a is None:
        ev.label('declined')
        return
    # measured error of the current code is below 1e-10; naive integration
    # of the offset loses 1e-6 and more
    require(len(a[1]) == len(b[1]) and
            np.all(np.abs(a[1] - b[1]) <= 1e-7 * b[1]),
            '%s: offset frequency data %s, mean-removed %s (rel %s)',
            c['fn'], a[1], b[1], np.abs(a[1] / b[1] - 1))
    ev.nt()


@st.composite
def conv(draw):
    return {'x': draw(gen.series(2, 80, 2000)), 'rate': draw(gen.rates),
            'pre': draw(st.integers(0, 3)), 'post': draw(st.integers(0, 3)),
            'mid': draw(st.booleans()),
            'v0': draw(st.sampled_from([1.0, 1e7, 5e6, 0.5, 9192631770.0]))}


@sub('C08', 'conversions', conv(), 3000, shards=2,
     rule='round trips freq->phase->freq, phase->freq->phase, trim_data, '
          'phase2radians; non-trivial = non-constant series')
def _conv(c, ev):
    check_conv(c, ev)


@st.composite
def convlong(draw):
    n = draw(st.one_of(gen.uni(2000, 300000), st.sampled_from(
        [2 ** k + d for k in range(11, 19) for d in (-1, 0, 1)] +
        [5000, 10000, 50000, 100000, 100001, 250000])))
    return {'x': draw(gen.series(n=n, kinds=['white', 'rw', 'ints', 'sine',
                                             'step'],
                                 slopes=[0.0, 1e-3])),
            'rate': draw(gen.rates),
            'pre': draw(st.integers(0, 3)), 'post': draw(st.integers(0, 3)),
            'mid': False, 'v0': draw(st.sampled_from([1.0, 1e7]))}


@sub('C08', 'conversions-long', convlong(), 80, shards=2,
     rule='the same for records of 2000 to 300000 points, around block '
          'sizes; non-trivial = non-constant series')
def _convlong(c, ev):
    check_conv(c, ev)


def check_conv(c, ev):
    x = gen.expand(c['x'])
    rate = float(c['rate'])
    n = len(x)
    mx = np.max(np.abs(x))
    # frequency -> phase
    p = as_array(call(at.frequency2phase, nanpad(x, c), c['rate']), 'f2p')
    require(p.shape == (n + 1,), 'frequency2phase length %s for %d values',
            p.shape, n)
    want = np.asarray(ref.phase_from_freq(x, rate), dtype=float)
    tol = 64 * EPS * mx / rate * (4 + n) * n + 1e-12 * np.max(np.abs(want))
    require(p[0] == 0 and np.all(np.abs(p - want) <= tol),
            'frequency2phase %s expected %s', p[:5], want[:5])
    # -> frequency again
    y = as_array(call(at.phase2frequency, p, c['rate']), 'p2f')
    require(y.shape == (n,) and
            np.all(np.abs(y - (x - np.mean(x))) <= 128 * EPS * mx * (4 + n)),
            'phase2frequency(frequency2phase(y)) != y - mean')
    # phase -> frequency
    y = as_array(call(at.phase2frequency, x, c['rate']), 'p2f')
    require(y.shape == (n - 1,) and
            np.all(np.abs(y - np.diff(x) * rate) <=
                   8 * EPS * mx * rate),
            'phase2frequency %s expected %s', y[:5], (np.diff(x) * rate)[:5])
    # phase -> frequency -> phase is x minus its end-to-end line
    p = as_array(call(at.frequency2phase, y, c['rate']), 'f2p')
    line = x - x[0] - (x[-1] - x[0]) * np.arange(n) / (n - 1.0)
    require(p.shape == (n,) and
            np.all(np.abs(p - line) <= 128 * EPS * mx * (4 + n) * n),
            'frequency2phase(phase2frequency(x)) %s expected %s', p[:5],
            line[:5])
    # trimming
    z = nanpad(x, c)
    if c['mid'] and n > 4:
        z[c['pre'] + n // 2] = np.nan
    w = as_array(call(at.trim_data, z), 'trim')
    want = z[c['pre']:c['pre'] + n]
    require(w.shape == want.shape and np.array_equal(w, want, equal_nan=True),
            'trim_data %s -> %s', z, w)
    # radians
    f = as_array(call(at.phase2radians, x, c['v0']), 'radians')
    require(f.shape == x.shape and
            np.all(np.abs(f - 2 * np.pi * c['v0'] * x) <=
                   1e-12 * np.abs(f)), 'phase2radians')
    ev.nt(np.ptp(x) > 0)


@st.composite
def frac(draw):
    return {'y': draw(gen.series(2, 60, kinds=gen.GENERIC + ['lit'],
                                 amps=[1.0, 1e-3], offs=[0.0, 1.0],
                                 slopes=[0.0, 0.1])),
            'f0': draw(st.sampled_from([10e6, 1.0, 5e3, 9192631770.0, -7.5])),
            'mean': draw(st.sampled_from([None, 10e6, 3.0, 5e3, 2.0, 1.0,
                                          -2.0]))}


@sub('C08', 'fractional', frac(), 1500,
     rule='frequency2fractional with and without a nominal frequency, and '
          'its inverse; non-trivial = non-constant series')
def _frac(c, ev):
    f = c['f0'] * 1e3 + gen.expand(c['y'])
    if abs(np.mean(f)) < 1:
        return
    y = as_array(call(at.frequency2fractional, f) if c['mean'] is None else
                 call(at.frequency2fractional, f, c['mean']), 'fractional')
    mu = np.mean(f) if c['mean'] is None else c['mean']
    require(y.shape == f.shape, 'frequency2fractional shape')
    tol = 64 * EPS * (np.max(np.abs(f)) / abs(mu)) * (4 + 0.2 * len(f))
    require(np.all(np.abs(y - (f - mu) / mu) <= tol), 'frequency2fractional '
            '%s expected %s', y[:4], ((f - mu) / mu)[:4])
    require(np.all(np.abs((1 + y) * mu - f) <= (tol + 8 * EPS) * abs(mu)),
            'frequency2fractional does not invert')
    ev.nt(np.ptp(f) > 0)


@st.composite
def gco(draw):
    n = draw(st.one_of(gen.lengths(6, 60), gen.lengths(6, 60),
                       gen.block_lengths(60, 30000)))
    k = gen.GENERIC + ['sine', 'step']
    return {'y1': draw(gen.series(n=n, kinds=k, offs=[0.0, 1.0])),
            'y2': draw(gen.series(n=n, kinds=k, offs=[0.0, 1.0])),
            'rate': draw(gen.rates), 'm': draw(gen.ms(n + 1, mmax=n // 2))}


@sub('C08', 'gcodev-freq', gco(), 800,
     rule='gcodev on two frequency records against integrated phase')
def _gco(c, ev):
    y1, y2 = gen.expand(c['y1']), gen.expand(c['y2'])
    rate = float(c['rate'])
    taus = gen.taus_of(c['m'], rate)
    x1, x2 = [np.asarray(ref.phase_from_freq(y, rate), dtype=float)
              for y in (y1, y2)]
    r = []
    for d1, d2, dt in ((y1, y2, 'freq'), (x1, x2, 'phase')):
        def gcodev(d, **kw):
            return at.gcodev(d, d2, **kw)
        r.append(run_dev(gcodev, d1, rate=c['rate'], data_type=dt,
                         taus=taus))
    a, b = r
    require((a is None) == (b is None), 'gcodev freq/phase rows')
    if a is None:
        return
    oa = run_dev('oadev', x1, rate=c['rate'], taus=taus)
    ob = run_dev('oadev', x2, rate=c['rate'], taus=taus)
    require(np.array_equal(a[3], b[3]), 'gcodev n')
    s = oa[1] * ob[1]
    e1, e2 = [rounding(x, 256) + 64 * EPS * np.max(np.abs(y)) / rate *
              (4 + len(y)) for x, y in ((x1, y1), (x2, y2))]
    fl = (e1 * (np.max(np.abs(x2)) + e2) +
          e2 * (np.max(np.abs(x1)) + e1)) / a[0] ** 2
    require(np.all(np.abs(a[1] ** 2 - b[1] ** 2) <= 1e-8 * s + fl),
            'gcodev from freq %s, from phase %s', a[1], b[1])
    ev.nt(np.any(b[1] > 0))


@st.composite
def longs(draw):
    fn = draw(st.sampled_from(ALL))
    n, ms = draw(gen.sizes(fn))
    return {'fn': fn, 'y': draw(gen.series(
        n=n - 1, kinds=gen.LONG_KINDS, amps=[1.0, 1e-9],
        slopes=[0.0, 1e-3])), 'rate': draw(gen.rates), 'm': sorted(ms),
        'pre': draw(st.sampled_from([0, 0, 1, 3])),
        'post': draw(st.sampled_from([0, 0, 1, 2]))}


@sub('C08', 'freq-equals-phase-long', longs(), 700, shards=8,
     rule='the same on records of hundreds to 100000 points and at the '
          'longest averaging times; non-trivial = non-zero deviation')
def _longs(c, ev):
    _fp(c, ev)
