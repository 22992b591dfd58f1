"""C09: invariance to offsets and drifts, drift response, reversal,
parallelogram law (every estimator is a quadratic form)."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require
from .. import gen
from ..devs import run_dev, rounding, ALL, max_len, in_phase_units

EPS = 2.3e-16
OFFSET = list(ALL)
FREQOFF = [f for f in ALL if f not in ('mtie', 'tierms')]
DRIFT = ['hdev', 'ohdev', 'htotdev']
# strided sums, and PDEV's documented N-2m terms, have a direction
REVERSE = [f for f in ALL if f not in ('adev', 'hdev', 'pdev')]
QUADRATIC = [f for f in ALL if f != 'mtie']


@st.composite
def cases(draw, fns):
    fn = draw(st.sampled_from(list(fns)))
    hi = max_len(fn)
    x = draw(gen.series(5, hi, kinds=gen.KINDS[:-1], offs=[0.0, 1.0],
                        slopes=[0.0, 0.1]))
    n = gen.spec_len(x)
    c = {'fn': fn, 'x': x, 'rate': draw(gen.rates),
         'k': draw(st.sampled_from([1.0, -1.0, 0.37, 100.0, -1e4])),
         'dt': draw(st.sampled_from(['phase', 'phase', 'freq']))}
    if draw(st.integers(0, 3)) == 0:
        c['kw'] = draw(st.sampled_from(['octave', 'decade', None]))
    else:
        c['m'] = draw(gen.ms(n, mmax=max(1, n // 2)))
    return c


def run(c, x):
    taus = c['kw'] if 'kw' in c else gen.taus_of(c['m'], c['rate'])
    return run_dev(c['fn'], x, rate=c['rate'], taus=taus,
                   data_type=c['dt'])


def phase_floor(c, *arrs):
    """Rounding allowance in phase units for any of the arrays as input."""
    rate = float(c['rate'])
    out = 0.0
    for x in arrs:
        n = len(x)
        if c['dt'] == 'freq':
            y = x - np.mean(x)
            ph = np.cumsum(y) / rate
            out = max(out, rounding(ph, 256) + 128 * EPS *
                      np.max(np.abs(x)) / rate * (4 + n))
        else:
            out = max(out, rounding(x, 256))
    return out


def same(c, a, b, fl, what, rtol=1e-8):
    fn = c['fn']
    require((a is None) == (b is None), '%s %s: rows appear/disappear', fn,
            what)
    if a is None:
        return None
    require(len(a[0]) == len(b[0]) and np.allclose(a[0], b[0], rtol=1e-12)
            and np.array_equal(a[3], b[3]), '%s %s: tau/n columns change',
            fn, what)
    u, v = in_phase_units(fn, a), in_phase_units(fn, b)
    m = np.round(a[0] * float(c['rate']))
    lim = rtol * u + fl * (1 + m)
    require(np.all(np.abs(u - v) <= lim), '%s (%s data) %s: %s -> %s', fn,
            c['dt'], what, a[1], b[1])
    return u, lim


@sub('C09', 'offset', cases(OFFSET), 4000, shards=3,
     rule='constant added to the data, all 15 deviations, phase and '
          'frequency input; non-trivial = non-zero deviation')
def _offset(c, ev):
    x = gen.expand(c['x'])
    y = x + c['k'] * c['x']['a']
    r = same(c, run(c, x), run(c, y), phase_floor(c, x, y), 'plus constant')
    if r:
        ev.nt(np.any(r[0] > 100 * r[1]))
        ev.label(c['fn'])


@sub('C09', 'frequency-offset', cases(FREQOFF), 4000, shards=3,
     rule='linear phase ramp (for frequency data: constant) added; all but '
          'MTIE/TIE rms; non-trivial = non-zero deviation')
def _ramp(c, ev):
    x = gen.expand(c['x'])
    c['dt'] = 'phase'
    y = x + c['k'] * c['x']['a'] * np.arange(len(x))
    r = same(c, run(c, x), run(c, y), phase_floor(c, x, y), 'plus ramp')
    if r:
        ev.nt(np.any(r[0] > 100 * r[1]))
        ev.label(c['fn'])


@sub('C09', 'drift', cases(DRIFT), 2500, shards=3,
     rule='quadratic phase / linear frequency drift added: Hadamard '
          'deviations do not change; non-trivial = non-zero deviation')
def _drift(c, ev):
    x = gen.expand(c['x'])
    t = np.arange(len(x), dtype=float)
    k = c['k'] * c['x']['a'] * 0.1
    y = x + (k * t if c['dt'] == 'freq' else k * t * t)
    r = same(c, run(c, x), run(c, y), phase_floor(c, x, y), 'plus drift')
    if r:
        ev.nt(np.any(r[0] > 100 * r[1]))
        ev.label(c['fn'], c['dt'])


@st.composite
def drifts(draw):
    fn = draw(st.sampled_from(['adev', 'oadev', 'mdev', 'tdev', 'gradev',
                               'mtie', 'tierms']))
    n = draw(gen.lengths(6, 60, 500))
    return {'fn': fn, 'n': n, 'rate': draw(gen.rates),
            'D': draw(st.sampled_from([1.0, -1e-9, 3e-12, 250.0])),
            'dt': draw(st.sampled_from(['phase', 'freq'])),
            'm': draw(gen.ms(n, mmax=max(1, n // 3)))}


@sub('C09', 'drift-response', drifts(), 2500, shards=2,
     rule='pure linear frequency drift D: ADEV=OADEV=MDEV=D tau/sqrt2, '
          'TDEV=D tau^2/sqrt6; pure frequency offset: MTIE=TIErms=|y0| tau; '
          'non-trivial = always when a row is reported')
def _dresp(c, ev):
    rate = float(c['rate'])
    n = c['n']
    fn = c['fn']
    t = np.arange(n) / rate
    c = dict(c)
    if fn in ('mtie', 'tierms'):
        x = c['D'] * t
        c['dt'] = 'phase'
    elif c['dt'] == 'freq':
        x = c['D'] * t
    else:
        x = 0.5 * c['D'] * t * t
    r = run(c, x)
    if r is None:
        return
    D = abs(c['D'])
    if fn in ('mtie', 'tierms'):
        want = D * r[0]
    elif fn == 'tdev':
        want = D * r[0] ** 2 / np.sqrt(6.0)
    else:
        want = D * r[0] / np.sqrt(2.0)
    u = in_phase_units(fn, r)
    w = in_phase_units(fn, (r[0], want, None, None))
    lim = 1e-8 * w + phase_floor(c, x)
    require(np.all(np.abs(u - w) <= lim),
            '%s of a pure trend: %s, expected %s', fn, r[1], want)
    ev.nt(np.any(w > 100 * lim))
    ev.label(fn)


@sub('C09', 'time-reversal', cases(REVERSE), 4000, shards=3,
     rule='record reversed in time; all overlapping/total statistics; '
          'non-trivial = non-zero deviation')
def _rev(c, ev):
    x = gen.expand(c['x'])
    y = x[::-1].copy()
    r = same(c, run(c, x), run(c, y), phase_floor(c, x, y), 'time-reversed')
    if r:
        ev.nt(np.any(r[0] > 100 * r[1]))
        ev.label(c['fn'])


@st.composite
def two(draw):
    fn = draw(st.sampled_from(QUADRATIC))
    n = draw(gen.lengths(5, max_len(fn)))
    kinds = [k for k in gen.KINDS if k != 'lit']
    return {'fn': fn, 'rate': draw(gen.rates),
            'x': draw(gen.series(n=n, kinds=kinds, amps=[1.0, 0.1],
                                 offs=[0.0, 1.0], slopes=[0.0, 0.3])),
            'y': draw(gen.series(n=n, kinds=kinds, amps=[1.0, 2.0],
                                 offs=[0.0, 1.0], slopes=[0.0, 0.3])),
            'dt': draw(st.sampled_from(['phase', 'phase', 'freq'])),
            'm': draw(gen.ms(n, mmax=max(1, n // 2)))}


@sub('C09', 'parallelogram', two(), 4000, shards=3,
     rule='var(x+y)+var(x-y) = 2var(x)+2var(y) for every deviation except '
          'MTIE; non-trivial = both parts non-zero')
def _par(c, ev):
    x, y = gen.expand(c['x']), gen.expand(c['y'])
    rs = [run(c, z) for z in (x + y, x - y, x, y)]
    require(len({r is None for r in rs}) == 1, '%s: rows differ', c['fn'])
    if rs[0] is None:
        return
    p, q, u, v = [in_phase_units(c['fn'], r) for r in rs]
    fl = phase_floor(c, x + y, x - y, x, y)
    m = np.round(rs[0][0] * float(c['rate']))
    fl = fl * (1 + m)
    rhs = 2 * u ** 2 + 2 * v ** 2
    lim = 1e-8 * rhs + fl * np.sqrt(rhs) + fl ** 2
    require(np.all(np.abs(p ** 2 + q ** 2 - rhs) <= lim),
            '%s: var(x+y)+var(x-y)=%s, 2var(x)+2var(y)=%s', c['fn'],
            p ** 2 + q ** 2, rhs)
    ev.nt(np.any((u > fl) & (v > fl)))
    ev.label(c['fn'])


@st.composite
def bigoff(draw):
    fn = draw(st.sampled_from(OFFSET + ['mdev', 'tdev', 'oadev', 'totdev',
                                        'ohdev']))
    slow = fn in ('mtotdev', 'ttotdev', 'htotdev', 'theo1', 'pdev')
    n = draw(st.integers(20, 60)) if slow else \
        draw(st.one_of(gen.uni(300, 4000), gen.block_lengths(300, 4000)))
    return {'fn': fn, 'n': n, 's': draw(gen.seeds),
            'rate': draw(gen.rates),
            'dt': draw(st.sampled_from(['phase', 'phase', 'freq'])),
            'k': draw(st.sampled_from([2 ** 30, -2 ** 30, 3 * 2 ** 28])),
            'm': draw(st.lists(gen.uni(1, 6 if slow else 25), min_size=1,
                               max_size=3, unique=True))}


@sub('C09', 'exact-offset', bigoff(), 1200, shards=4,
     rule='300-4000 samples of size 2^-8 on a 2^-22 grid (20-60 for the slow '
          'estimators) with a constant of 2^30 added, which the samples hold '
          'exactly: the deviations agree to 1e-4 (an accumulated sum of the '
          'raw samples loses more); non-trivial = non-zero deviation')
def _bigoff(c, ev):
    rs = np.random.RandomState(c['s'])
    x = np.round(rs.randn(c['n']) * 2 ** 14)
    x = x / 2.0 ** 22
    y = x + c['k']
    require(np.array_equal(y - c['k'], x), 'harness: offset is not exact')
    a, b = run(c, x), run(c, y)
    require((a is None) == (b is None), '%s: rows appear/disappear', c['fn'])
    if a is None:
        return
    require(len(a[0]) == len(b[0]) and np.array_equal(a[3], b[3]),
            '%s: rows change with a constant added', c['fn'])
    u, v = in_phase_units(c['fn'], a), in_phase_units(c['fn'], b)
    fl = 0.0
    if c['dt'] == 'freq':
        # the subtracted mean frequency is rounded to 2^-22
        rate = float(c['rate'])
        fl = (1e-6 * np.round(a[0] * rate) if c['fn'] in ('mtie', 'tierms')
              else 2e-7) / rate
    if c['fn'] in ('mtotdev', 'ttotdev', 'htotdev', 'theo1', 'pdev'):
        fl += 1e-6 / (float(c['rate']) if c['dt'] == 'freq' else 1.0)
    require(np.all(np.abs(u - v) <= 1e-4 * u + fl),
            '%s (%s data) with the constant %d added: %s -> %s (relative '
            'change %s)', c['fn'], c['dt'], c['k'], a[1], b[1], v / u - 1)
    ev.nt(np.any(u > 0))
    ev.label(c['fn'])


@st.composite
def longs(draw):
    fn = draw(st.sampled_from(ALL))
    n, ms = draw(gen.sizes(fn))
    kind = draw(st.sampled_from(
        ['offset'] + (['ramp'] if fn in FREQOFF else []) +
        (['drift'] * 2 if fn in DRIFT else [])))
    return {'fn': fn, 'rate': draw(gen.rates), 'm': sorted(ms), 'what': kind,
            'x': draw(gen.series(n=n, kinds=gen.LONG_KINDS, amps=[1.0, 1e-9],
                                 offs=[0.0, 1.0], slopes=[0.0, 1e-3])),
            'k': draw(st.sampled_from([1.0, -1.0, 0.37, 100.0])),
            'dt': draw(st.sampled_from(['phase', 'phase', 'freq']))}


@sub('C09', 'long', longs(), 900, shards=8,
     rule='constant, ramp or drift (at most 100 times the noise over the '
          'record) added to records of hundreds to 100000 points and at the '
          'longest averaging times; non-trivial = non-zero deviation')
def _longs(c, ev):
    x = gen.expand(c['x'])
    t = np.arange(len(x)) / float(len(x))
    k = c['k'] * c['x']['a']
    if c['what'] == 'ramp':
        c['dt'] = 'phase'
    add = {'offset': k + 0 * t, 'ramp': k * t,
           'drift': k * t if c['dt'] == 'freq' else k * t * t}[c['what']]
    y = x + add
    r = same(c, run(c, x), run(c, y), phase_floor(c, x, y), c['what'])
    if r:
        ev.nt(np.any(r[0] > 100 * r[1]))
        ev.label(c['fn'], c['what'])
