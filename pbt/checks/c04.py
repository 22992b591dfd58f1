"""C04: Theo1 equals its published definition (even averaging factors)."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require
from .. import gen, ref
from ..devs import run_dev, check_rows, rounding
from .c01 import resolve
from .c03 import cases

RULE = ('records of 13 kinds x amplitudes x offsets x slopes; odd and even '
        'averaging factors (odd ones must be left out) or keywords; '
        'non-trivial = a reported row with m>=4 and non-zero deviation')


@sub('C04', 'definition', cases('theo1', 4, 60, 6, ('octave', None, 'decade',
                                                    'all'), big=140),
     3500, shards=7, rule=RULE)
def _definition(c, ev):
    x = gen.expand(c['x'])
    n = len(x)
    if c.get('kw') == 'all' and n > 110:
        c['kw'] = 'octave'
    mlist, taus = resolve(c, n)
    rows = [(m,) + tuple(ref.theo1(x, m)) for m in mlist if m % 2 == 0]
    got = run_dev('theo1', x, rate=c['rate'], taus=taus)
    rows = [r for r in rows if r[2] > 1]
    check_rows('theo1', got, rows, c['rate'], rounding(x, 256),
               err_n=lambda m, k: n - m)
    ev.nt(any(r[0] >= 4 and r[1] > 0 for r in rows))
    ev.label(*['odd-m-dropped' for m in mlist if m % 2][:1])
    ev.label(*['m=N-1' for r in rows if r[0] == n - 1][:1])


@sub('C04', 'definition-long', cases('theo1', 140, 220, 3, ('octave', None,
                                                            'decade'),
                                     big=420), 240, shards=4,
     rule=RULE + '; records of 140-420 points')
def _long(c, ev):
    _definition(c, ev)


@sub('C04', 'extremes', gen.extremes(1, 6, (300, 4000), (60, 800), step=2,
                                     extra=9), 300, shards=4,
     rule=RULE + '; either 300-4000 points and m up to 12, or m of 120-1600 '
                 'on a record of m to m+9 points')
def _extremes(c, ev):
    _definition(c, ev)


@st.composite
def small(draw):
    return {'x': draw(gen.series(4, 40)), 'rate': draw(gen.rates)}


@sub('C04', 'm2-and-reversal', small(), 900,
     rule='at m=2 every term is a second difference at stride 1: '
          'Theo1(2)^2 = AVAR-type mean of the same differences / 0.75 tau^2; '
          'time reversal leaves Theo1 unchanged')
def _m2(c, ev):
    x, rate = gen.expand(c['x']), c['rate']
    n = len(x)
    t = np.array([2.0 / rate])
    g = run_dev('theo1', x, rate=rate, taus=t)
    o = run_dev('oadev', x, rate=rate, taus=[1.0 / rate])
    if g is None or o is None:
        require(n <= 4, 'theo1 declined m=2 for N=%d', n)
        return
    # sum over N-2 terms of (x[i]-x[i+1]+x[i+2]-x[i+1])^2 / (.75 (N-2) 4 tau0^2)
    want = np.sqrt(2.0 / 3.0) * o[1][0]
    require(abs(g[1][0] - want) <= 1e-8 * want + rounding(x) * rate,
            'theo1(m=2)=%r, from second differences %r', g[1][0], want)
    ev.nt(want > 0)
    a = run_dev('theo1', x, rate=rate, taus='octave')
    b = run_dev('theo1', x[::-1].copy(), rate=rate, taus='octave')
    require((a is None) == (b is None), 'theo1 reversal rows')
    if a is not None:
        require(np.all(np.abs(a[1] - b[1]) * a[0] <=
                       1e-8 * a[1] * a[0] + rounding(x)),
                'theo1 changes under time reversal %s %s', a[1], b[1])
