"""C10: amplitude and rate equivariance (units)."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require
from .. import gen
from ..devs import run_dev, rounding, ALL, TIME_TYPE, max_len, errs

SCALES = [2.0 ** k for k in (-100, -60, -40, -30, -12, -1, 1, 3, 20, 60,
                             100)] + [-1.0, -2.0 ** -50]


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(ALL))
    x = draw(gen.series(5, max_len(fn), kinds=gen.KINDS, amps=[1.0],
                        offs=[0.0, 1.0], slopes=[0.0, 0.1]))
    n = gen.spec_len(x)
    c = {'fn': fn, 'x': x, 'rate': draw(gen.rates),
         'k': draw(st.sampled_from(SCALES)),
         'dt': draw(st.sampled_from(['phase', 'freq']))}
    c['m'] = draw(gen.ms(n, mmax=max(1, n // 2)))
    return c


def compare(c, a, b, fk, what, rtol, floor=0.0):
    """b's deviations must be fk times a's."""
    fn = c['fn']
    require((a is None) == (b is None), '%s %s: rows appear/disappear', fn,
            what)
    if a is None:
        return False
    require(len(a[1]) == len(b[1]) and np.array_equal(a[3], b[3]),
            '%s %s: n %s -> %s', fn, what, a[3], b[3])
    scale = np.max(np.abs(a[1])) * fk
    floor = floor / (1.0 if c['fn'] in TIME_TYPE else b[0])
    require(np.all(np.abs(b[1] - fk * a[1]) <= rtol * fk * a[1] +
                   1e-13 * scale + floor),
            '%s %s: %s, expected %s', fn, what, b[1], fk * a[1])
    for p, q in zip(errs(fn, a), errs(fn, b)):
        ok = np.isclose(q, fk * p, rtol=max(rtol, 1e-9) * 10,
                        atol=1e-9 * scale + np.max(floor) * 10,
                        equal_nan=True)
        require(np.all(ok), '%s %s: errors %s, expected %s', fn, what, q,
                fk * p)
    return True


@sub('C10', 'amplitude', cases(), 7000, shards=7,
     rule='data times k (|k| from 2^-100 to 2^100, both signs): deviations '
          'and errors times |k|, counts and taus unchanged; non-trivial = '
          'non-zero deviation')
def _amp(c, ev):
    x = gen.expand(c['x'])
    taus = gen.taus_of(c['m'], c['rate'])
    a = run_dev(c['fn'], x, rate=c['rate'], taus=taus, data_type=c['dt'])
    b = run_dev(c['fn'], x * c['k'], rate=c['rate'], taus=taus,
                data_type=c['dt'])
    if compare(c, a, b, abs(c['k']), 'data*%g' % c['k'], 1e-11):
        require(np.array_equal(a[0], b[0]), 'taus change')
        ev.nt(np.any(a[1] > 0))
        ev.label(c['fn'], c['dt'])


@st.composite
def rcases(draw):
    c = draw(cases())
    c['k'] = draw(st.sampled_from([2.0 ** 40, 2.0 ** -40, 2.0, 0.5, 1024.0,
                                   10.0, 0.1, 3.0, 86400.0]))
    c['via'] = draw(st.sampled_from(['m', 'octave', 'decade', None]))
    return c


@sub('C10', 'rate', rcases(), 7000, shards=7,
     rule='same samples declared at k times the rate: taus/k; frequency-type '
          'deviations of phase data times k, time-type unchanged; for '
          'frequency data unchanged resp. divided by k; non-trivial = '
          'non-zero deviation')
def _rate(c, ev):
    x = gen.expand(c['x'])
    r1 = float(c['rate'])
    r2 = r1 * c['k']
    out = []
    for r in (r1, r2):
        taus = gen.taus_of(c['m'], r) if c['via'] == 'm' else c['via']
        out.append(run_dev(c['fn'], x, rate=r, taus=taus,
                           data_type=c['dt']))
    a, b = out
    time = c['fn'] in TIME_TYPE
    if c['dt'] == 'phase':
        fk = 1.0 if time else c['k']
    else:
        fk = 1.0 / c['k'] if time else 1.0
    pow2 = np.log2(c['k']) % 1 == 0
    fl = 0.0
    if not pow2:
        n = len(x)
        if c['dt'] == 'phase':
            fl = rounding(x, 512)
        else:
            fl = (rounding(np.cumsum(x - np.mean(x)), 512) + 512 * 2.3e-16 *
                  np.max(np.abs(x)) * (4 + n)) / r2
        fl *= 1 + np.max(c['m'])
    if compare(c, a, b, fk, 'rate %r -> %r' % (r1, r2), 1e-9, fl):
        require(np.allclose(a[0], b[0] * c['k'], rtol=1e-12, atol=0),
                '%s: taus %s -> %s', c['fn'], a[0], b[0])
        ev.nt(np.any(a[1] > 0))
        ev.label(c['fn'], c['dt'], 'pow2' if pow2 else 'other')


@st.composite
def longs(draw):
    fn = draw(st.sampled_from(ALL))
    n, ms = draw(gen.sizes(fn))
    return {'fn': fn, 'x': draw(gen.series(
        n=n, kinds=gen.LONG_KINDS, amps=[1.0], offs=[0.0, 1.0],
        slopes=[0.0, 1e-3])), 'm': sorted(ms), 'rate': draw(gen.rates),
        'dt': draw(st.sampled_from(['phase', 'freq'])),
        'k': draw(st.sampled_from(SCALES)), 'r': draw(st.sampled_from(
            [1.0, 2.0 ** 40, 2.0 ** -40, 2.0, 0.5, 1024.0]))}


@sub('C10', 'long', longs(), 800, shards=8,
     rule='data times k at r times the rate (powers of two) for records of '
          'hundreds to 100000 points and at the longest averaging times; '
          'non-trivial = non-zero deviation')
def _long(c, ev):
    x = gen.expand(c['x'])
    r1 = float(c['rate'])
    r2 = r1 * c['r']
    a = run_dev(c['fn'], x, rate=r1, taus=gen.taus_of(c['m'], r1),
                data_type=c['dt'])
    b = run_dev(c['fn'], x * c['k'], rate=r2, taus=gen.taus_of(c['m'], r2),
                data_type=c['dt'])
    fk = abs(c['k'])
    if c['dt'] == 'phase':
        fk *= 1.0 if c['fn'] in TIME_TYPE else c['r']
    elif c['fn'] in TIME_TYPE:
        fk /= c['r']
    if compare(c, a, b, fk, 'data*%g at %g times the rate' % (
            c['k'], c['r']), 1e-10):
        require(np.allclose(a[0], b[0] * c['r'], rtol=1e-12, atol=0),
                '%s: taus %s -> %s', c['fn'], a[0], b[0])
        ev.nt(np.any(a[1] > 0))
        ev.label(c['fn'], c['dt'])
