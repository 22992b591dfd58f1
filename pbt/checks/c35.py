"""C35: reversal, decimation and superposition relations."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call
from .. import gen, devs
from ..env import at

SYM = ['oadev', 'ohdev', 'mdev', 'tdev', 'pdev', 'totdev', 'mtotdev',
       'ttotdev', 'htotdev', 'theo1', 'gradev', 'mtie', 'tierms', 'adev',
       'hdev']
QUAD = ['adev', 'oadev', 'hdev', 'ohdev', 'mdev', 'tdev', 'pdev', 'totdev',
        'mtotdev', 'ttotdev', 'htotdev', 'theo1', 'gradev', 'tierms']


def rows_of(fn, x, rate, ms, kind='phase'):
    r = devs.run_dev(fn, x, rate=rate, data_type=kind,
                     taus=gen.taus_of(ms, rate))
    if r is None:
        return {}
    t, d, e, n = r
    return {int(round(tt * rate)): (float(dd) * (
        1.0 if fn in devs.TIME_TYPE else tt), float(nn))
        for tt, dd, nn in zip(t, d, n)}


def flt(x, kind, rate):
    """phase-unit size of the record, for the rounding allowance."""
    if kind == 'freq':
        x = np.cumsum(x) / rate
    return devs.rounding(x) * 4


@st.composite
def rev(draw):
    fn = draw(st.sampled_from(SYM))
    big = 260 if fn in ('oadev', 'ohdev', 'mdev', 'tdev', 'totdev', 'adev',
                        'hdev', 'mtie', 'tierms', 'gradev') else None
    sp = draw(gen.series(lo=6, hi=devs.max_len(fn), big=big,
                         amps=[1.0, 1e-9, 1e3]))
    n = gen.spec_len(sp)
    return {'fn': fn, 'x': sp, 'ms': draw(gen.ms(n)),
            'rate': draw(gen.rates), 'neg': draw(st.booleans()),
            'kind': draw(st.sampled_from(['phase', 'phase', 'freq']))}


@sub('C35', 'reversal', rev(), 4000, shards=4,
     rule='15 deviations of the record read backwards, or backwards and '
          'negated, equal those of the record, row by row (non-overlapping '
          'ones where m divides the record); non-trivial = a row with '
          'non-zero deviation compared')
def _rev(c, ev):
    fn, rate, kind = c['fn'], c['rate'], c['kind']
    x = gen.expand(c['x'])
    y = -x[::-1] if c['neg'] else x[::-1]
    if fn == 'pdev':        # its N-2m windows of 2m points leave out the
        kind = 'phase'      # last point of the record
        y = np.append(y[1:], 0.5)
    a = rows_of(fn, x, rate, c['ms'], kind)
    b = rows_of(fn, y, rate, c['ms'], kind)
    span = len(x) - 1 if kind == 'phase' else len(x)
    floor = flt(x, kind, rate)
    require(sorted(a) == sorted(b), '%s: rows %s, of the reversed record %s',
            fn, sorted(a), sorted(b))
    for m in a:
        if fn in ('adev', 'hdev') and span % m or fn == 'pdev' and m == 1:
            continue
        require(a[m][1] == b[m][1] and abs(a[m][0] - b[m][0]) <=
                1e-8 * abs(a[m][0]) + floor,
                '%s m=%d: %r, of the reversed record %r (tau*dev, count)',
                fn, m, a[m], b[m])
        if a[m][0] > floor:
            ev.nt()
            ev.label(fn)


@st.composite
def deci(draw):
    sp = draw(gen.series(lo=12, hi=90, big=300, amps=[1.0, 1e-9, 1e3]))
    n = gen.spec_len(sp)
    return {'x': sp, 'm': draw(gen.uni(1, max(1, n // 4))),
            'k': draw(st.integers(1, 6)), 'rate': draw(gen.rates)}


@sub('C35', 'decimation', deci(), 3000, shards=3,
     rule='adev and hdev at m equal those at 1 of every m-th point, oadev, '
          'ohdev and tierms the count-weighted root mean square over the m '
          'decimated records (also at k*m), mdev and tdev the oadev of the '
          'm-point moving average; non-trivial = m >= 2, non-zero deviation')
def _deci(c, ev):
    x, m, rate = gen.expand(c['x']), c['m'], float(c['rate'])
    n, k = len(x), c['k']
    floor = devs.rounding(x) * 4
    for fn, d in (('adev', 2), ('hdev', 3)):
        if n <= (d + 1) * m * k:
            continue
        a = rows_of(fn, x, rate, [k * m]).get(k * m)
        b = rows_of(fn, x[::m], rate / m, [k]).get(k)
        require((a is None) == (b is None), '%s m=%d: %r, decimated %r', fn,
                k * m, a, b)
        if a is not None:
            require(a[1] == b[1] and abs(a[0] - b[0]) <= 1e-8 * abs(a[0]) +
                    floor, '%s m=%d: %r, every %d-th point at m=%d: %r', fn,
                    k * m, a, m, k, b)
            ev.nt(m >= 2 and a[0] > floor)
    for fn, d in (('oadev', 2), ('ohdev', 3), ('tierms', 1)):
        if (n - m + 1) // m < d * k + 3:
            continue
        a = rows_of(fn, x, rate, [k * m])[k * m]
        b = [rows_of(fn, x[o::m], rate / m, [k])[k] for o in range(m)]
        cnt = sum(v[1] for v in b)
        rms = np.sqrt(sum(v[1] * v[0] ** 2 for v in b) / cnt)
        require(cnt == a[1] and abs(rms - a[0]) <= 1e-8 * rms + floor,
                '%s m=%d: %r (tau*dev, count); over the %d decimated records '
                '%r, %r', fn, k * m, a, m, float(rms), cnt)
        ev.nt(m >= 2 and a[0] > floor)
    if n >= 3 * m + 2:
        z = np.convolve(x, np.ones(m) / m, 'valid')
        a = rows_of('oadev', z, rate, [m])[m]
        b = rows_of('mdev', x, rate, [m])[m]
        t = rows_of('tdev', x, rate, [m])[m]
        require(a[1] == b[1] == t[1] and abs(a[0] - b[0]) <= 1e-8 * a[0] +
                floor and abs(t[0] * np.sqrt(3.0) - a[0]) <= 1e-8 * a[0] +
                floor, 'm=%d: mdev %r, tdev %r, oadev of the moving average '
                '%r', m, b, t, a)


@st.composite
def par(draw):
    fn = draw(st.sampled_from(QUAD))
    n = draw(gen.lengths(6, devs.max_len(fn)))
    return {'fn': fn, 'x': draw(gen.series(n=n, amps=[1.0])),
            'y': draw(gen.series(n=n, amps=[1.0, 0.01, 30.0])),
            'ms': draw(gen.ms(n)), 'rate': draw(gen.rates)}


@sub('C35', 'superposition', par(), 3000, shards=3,
     rule='14 deviations are quadratic: dev^2(x+y) + dev^2(x-y) = '
          '2 dev^2(x) + 2 dev^2(y) row by row, and a quarter of the '
          'difference is the GCODEV squared for OADEV; non-trivial = both '
          'parts contribute')
def _par(c, ev):
    fn, rate, ms = c['fn'], c['rate'], c['ms']
    x, y = gen.expand(c['x']), gen.expand(c['y'])
    p, q, a, b = [rows_of(fn, v, rate, ms) for v in (x + y, x - y, x, y)]
    require(sorted(p) == sorted(q) == sorted(a) == sorted(b),
            '%s: rows %s %s %s %s', fn, sorted(p), sorted(q), sorted(a),
            sorted(b))
    size = np.max(np.abs(x)) + np.max(np.abs(y))
    for m in p:
        left = p[m][0] ** 2 + q[m][0] ** 2
        right = 2 * (a[m][0] ** 2 + b[m][0] ** 2)
        top = max(left, right, 1e-300)
        tol = 1e-8 * top + 8 * devs.rounding(np.array([size] * len(x))) * (
            np.sqrt(top) + devs.rounding(np.array([size] * len(x))))
        require(abs(left - right) <= tol, '%s m=%d: dev^2 of sum and '
                'difference add to %r, twice those of the parts to %r', fn,
                m, left, right)
        ev.nt(min(a[m][0], b[m][0]) > 1e-6 * size)
        if fn == 'oadev':
            r = call(at.gcodev, x, y, rate=rate, taus=[m / float(rate)])
            g = float(r[1][0]) * m / float(rate)
            want = abs(p[m][0] ** 2 - q[m][0] ** 2) / 4.0
            require(abs(g * g - want) <= tol, 'gcodev m=%d: %r squared, a '
                    'quarter of the difference %r', m, g, want)
    ev.label(fn)


@st.composite
def longrev(draw):
    fn = draw(st.sampled_from(SYM))
    n, ms = draw(gen.sizes(fn))
    return {'fn': fn, 'x': draw(gen.series(n=n, kinds=gen.LONG_KINDS,
                                           amps=[1.0, 1e-9])),
            'ms': sorted(ms), 'rate': draw(gen.rates),
            'neg': draw(st.booleans()),
            'kind': draw(st.sampled_from(['phase', 'phase', 'freq']))}


@sub('C35', 'reversal-long', longrev(), 900, shards=8,
     rule='the same on records of hundreds to 100000 points and for the '
          'longest averaging times; non-trivial = as above')
def _longrev(c, ev):
    if c['fn'] in ('adev', 'hdev'):      # m divides the record
        m = c['ms'][0]
        n = gen.spec_len(c['x'])
        c = dict(c, ms=[m], x=dict(c['x'], n=(n - 1) // m * m + (
            0 if c['kind'] == 'freq' else 1)))
    _rev(c, ev)


@st.composite
def longpar(draw):
    fn = draw(st.sampled_from(QUAD))
    n, ms = draw(gen.sizes(fn))
    return {'fn': fn, 'x': draw(gen.series(n=n, kinds=gen.LONG_KINDS,
                                           amps=[1.0])),
            'y': draw(gen.series(n=n, kinds=gen.LONG_KINDS,
                                 amps=[1.0, 0.01, 30.0])),
            'ms': sorted(ms), 'rate': draw(gen.rates)}


@sub('C35', 'superposition-long', longpar(), 500, shards=6,
     rule='the same on records of hundreds to 100000 points and for the '
          'longest averaging times; non-trivial = as above')
def _longpar(c, ev):
    _par(c, ev)


@st.composite
def longdeci(draw):
    n = draw(st.one_of(gen.block_lengths(1000, 100000),
                       gen.uni(300, 20000)))
    m = draw(st.one_of(st.integers(1, 30), st.integers(1, n // 4)))
    return {'x': draw(gen.series(n=n, kinds=gen.LONG_KINDS, amps=[1.0, 1e-9])),
            'm': min(m, 300), 'k': draw(gen.uni(1, max(1, min(
                60, n // (5 * m))))), 'rate': draw(gen.rates)}


@sub('C35', 'decimation-long', longdeci(), 300, shards=4,
     rule='the same on records of hundreds to 100000 points; non-trivial = '
          'as above')
def _longdeci(c, ev):
    _deci(c, ev)
