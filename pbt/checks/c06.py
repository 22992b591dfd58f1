"""C06: GRADEV averages the valid second differences of a gappy record."""
import numpy as np
import scipy.stats
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen, ref
from ..devs import run_dev, rounding
from ..env import at
from .c01 import resolve, HUGE_RULE

ALPHA = {'wp': 2, 'fp': 1, 'wf': 0, 'ff': -1, 'rf': -2}
NOISES = list(ALPHA) + ['zz', '', 'WP?']


@st.composite
def cases(draw, gaps=True, lo=5, hi=60, big=400, kinds=None):
    x = draw(gen.series(lo, hi, big, **({'kinds': kinds} if kinds else {})))
    n = gen.spec_len(x)
    c = {'x': x, 'rate': draw(gen.rates),
         'ci': draw(st.one_of(st.sampled_from(
             [0.9, 0.68, 0.95, 0.5, 0.99, 0.75]), st.floats(0.5, 0.9999))),
         'noise': draw(st.sampled_from(NOISES))}
    if draw(st.integers(0, 3)) == 0:
        c['kw'] = draw(st.sampled_from(['octave', 'decade', None] +
                                       ['all'] * (n < 120)))
    else:
        c['m'] = draw(gen.ms(n))
    g = []
    if gaps:
        for _ in range(draw(st.integers(0, 4))):
            a = draw(gen.uni(0, n - 1))
            g.append([a, draw(gen.uni(1, max(1, n // 4)))])
    c['gaps'] = g
    if g and 'm' in c and draw(st.booleans()):
        # as many valid points as an averaging factor
        good = n - len(set(j for a, w in g for j in range(a, min(n, a + w))))
        if 1 <= good < n / 2:
            c['m'] = sorted(set(c['m'] + [good]))
    return c


def punch(x, gaps):
    x = x.copy()
    for a, w in gaps:
        x[a:a + w] = np.nan
    return x


def chi2_bounds(dev, edf, ci):
    lo = dev * np.sqrt(edf / scipy.stats.chi2.isf((1 - ci) / 2, edf))
    hi = dev * np.sqrt(edf / scipy.stats.chi2.ppf((1 - ci) / 2, edf))
    return lo, hi


def errpair(e, what):
    require(isinstance(e, (list, tuple)) and len(e) == 2,
            '%s: error column is not a (low, high) pair: %r', what, e)
    return as_array(e[0], what), as_array(e[1], what)


@sub('C06', 'valid-triples', cases(), 6000, shards=6,
     rule='records with 0-4 NaN gaps (also at the edges), all noise types, '
          'confidence levels; deviation and count from exactly the second '
          'differences without a NaN, bounds from chi-squared; non-trivial = '
          'a gap removes some terms and a row with non-zero deviation is left')
def _valid(c, ev):
    x = punch(gen.expand(c['x']), c['gaps'])
    n, rate = len(x), float(c['rate'])
    good = int(np.sum(~np.isnan(x)))
    mlist, taus = resolve(c, n)
    xl = ref.ld(x)
    rows = []
    for m in mlist:
        v = ref.diff2(xl, m, ref.starts(n, 2 * m, 1))
        v = v[~np.isnan(v)]
        if len(v) > 1:
            rows.append((m, float(np.sqrt(np.sum(v * v) / (2 * len(v)))),
                         len(v)))
    got = run_dev('gradev', x, rate=c['rate'], taus=taus, ci=c['ci'],
                  noisetype=c['noise'])
    if not rows:
        require(got is None, 'gradev reported rows with <2 valid terms')
        ev.label('nothing-left')
        return
    require(got is not None, 'gradev declined, valid counts %s', rows)
    t, d, e, ns = got
    lo, hi = errpair(e, 'gradev')
    require(len(t) == len(rows) == len(lo) == len(hi) and
            np.allclose(t * rate, [r[0] for r in rows], rtol=1e-9),
            'gradev taus %s, expected m=%s', t.tolist(),
            [r[0] for r in rows])
    fin = x[~np.isnan(x)]
    fl = rounding(fin)
    for i, (m, v, k) in enumerate(rows):
        tau = m / rate
        require(ns[i] == k, 'gradev m=%d n=%r, %d valid triples', m, ns[i], k)
        require(abs(d[i] * tau - v) <= 1e-8 * v + fl,
                'gradev m=%d: %r, valid second differences give %r', m,
                d[i], v / tau)
        if v <= 1e3 * fl:
            continue
        al = ALPHA.get(c['noise'])
        edf = float(ref.edf_simple(good, m, al))
        if not (np.isfinite(edf) and edf > 0.5) or good <= 2 * m:
            ev.label('edf-undefined')
            continue
        wl, wh = chi2_bounds(d[i], edf, c['ci'])
        require(np.isfinite(lo[i]) and np.isfinite(hi[i]),
                'gradev m=%d: bounds (%r, %r) are not finite (edf=%r)', m,
                lo[i], hi[i], edf)
        require(abs(lo[i] - (d[i] - wl)) <= 1e-6 * d[i] and
                abs(hi[i] - (wh - d[i])) <= 1e-6 * (d[i] + wh),
                'gradev m=%d noise=%r ci=%r: distances (%r, %r), chi-squared '
                'with edf %.6g gives (%r, %r)', m, c['noise'], c['ci'],
                lo[i], hi[i], edf, d[i] - wl, wh - d[i])
        ev.label('bounds-checked')
        if k < n - 2 * m:
            ev.nt()
            ev.label('gap-removed-terms')
    ev.label('noise=' + c['noise'])


@sub('C06', 'no-gap-is-oadev', cases(gaps=False), 1500, shards=2,
     rule='without gaps GRADEV reports the OADEV rows; non-trivial = '
          'non-zero deviation')
def _nogap(c, ev):
    x = gen.expand(c['x'])
    mlist, taus = resolve(c, len(x))
    g = run_dev('gradev', x, rate=c['rate'], taus=taus, ci=c['ci'],
                noisetype=c['noise'])
    o = run_dev('oadev', x, rate=c['rate'], taus=taus)
    require((g is None) == (o is None), 'gradev/oadev rows differ')
    if g is None:
        return
    require(np.array_equal(g[3], o[3]) and np.allclose(g[0], o[0]),
            'gradev rows %s %s, oadev %s %s', g[0], g[3], o[0], o[3])
    require(np.all(np.abs(g[1] - o[1]) * o[0] <= 1e-9 * o[1] * o[0]
                   + rounding(x)), 'gradev %s oadev %s', g[1], o[1])
    ev.nt(np.any(o[1] > 0))


@st.composite
def edge(draw):
    x = draw(gen.series(6, 40, kinds=gen.GENERIC))
    n = gen.spec_len(x)
    return {'x': x, 'pre': draw(st.integers(0, 6)),
            'post': draw(st.integers(0, 6)),
            'm': draw(gen.ms(n, mmax=max(1, n // 3))),
            'noise': draw(st.sampled_from(NOISES)),
            'rate': draw(gen.rates)}


@sub('C06', 'edge-nans', edge(), 800,
     rule='padding a record with NaNs before/after changes nothing at a '
          'given tau; non-trivial = at least one NaN added')
def _edge(c, ev):
    x = gen.expand(c['x'])
    p = np.concatenate((np.full(c['pre'], np.nan), x,
                        np.full(c['post'], np.nan)))
    taus = gen.taus_of(c['m'], c['rate'])
    a = run_dev('gradev', x, rate=c['rate'], taus=taus,
                noisetype=c['noise'])
    b = run_dev('gradev', p, rate=c['rate'], taus=taus,
                noisetype=c['noise'])
    require((a is None) == (b is None), 'gradev rows change with NaN padding')
    if a is None:
        return
    require(np.array_equal(a[3], b[3]), 'n %s -> %s', a[3], b[3])
    fl = rounding(x)
    require(np.all(np.abs(a[1] - b[1]) * a[0] <= 1e-9 * a[1] * a[0] + fl),
            'dev %s -> %s', a[1], b[1])
    for u, v in zip(errpair(a[2], 'gradev'), errpair(b[2], 'gradev')):
        ok = np.isclose(u, v, rtol=1e-6, atol=1e-9 * np.max(np.abs(a[1])) +
                        fl, equal_nan=True)
        require(np.all(ok), 'bounds %s -> %s', u, v)
    ev.nt(c['pre'] + c['post'] > 0)


LONG = dict(lo=500, hi=3000, big=120000, kinds=gen.GENERIC)


@sub('C06', 'valid-long', cases(**LONG), 200, shards=4,
     rule='the same on records of 500 to 120000 points')
def _vlong(c, ev):
    _valid(c, ev)


@st.composite
def sparse(draw):
    c = draw(gen.huge_sparse())
    n = c['x']['n']
    c.update(ci=0.9, noise=draw(st.sampled_from(NOISES)),
             gaps=[[draw(gen.uni(0, n - 1)), draw(gen.uni(1, 400))]
                   for _ in range(draw(st.integers(0, 2)))])
    return c


@sub('C06', 'sparse-huge', sparse(), 120, shards=3, rule=HUGE_RULE)
def _sparse(c, ev):
    _valid(c, ev)
    ev.nt()


@st.composite
def freqgaps(draw):
    y = draw(gen.series(6, 60, 400, kinds=gen.GENERIC))
    n = gen.spec_len(y)
    return {'x': y, 'gap': draw(gen.uni(3, n - 2)),
            'more': [[draw(st.integers(0, n - 1)), draw(st.integers(1, 4))]
                     for _ in range(draw(st.integers(0, 2)))],
            'pre': draw(st.integers(0, 3)), 'post': draw(st.integers(0, 3)),
            'm': draw(gen.ms(n, mmax=max(1, n // 3))),
            'noise': draw(st.sampled_from(NOISES)),
            'rate': draw(gen.rates)}


@sub('C06', 'freq-gaps', freqgaps(), 1500, shards=2,
     rule='frequency data with a gap inside: the phase is known up to the gap '
          'only, and so GRADEV equals GRADEV of that phase followed by '
          'NaNs; non-trivial = at least 4 terms before the gap')
def _fgap(c, ev):
    y = gen.expand(c['x'])
    n = len(y)
    for a, w in [[c['gap'], 1]] + c['more']:
        a = max(a, c['gap'])
        y[a:min(a + w, n - 1)] = np.nan
    g = int(np.argmax(np.isnan(y)))
    x = np.full(n + 1, np.nan)
    x[:g + 1] = np.concatenate(([0.0], np.cumsum(
        (ref.ld(y[:g]) - np.mean(ref.ld(y[:g]))) / ref.ld(c['rate']))))
    data = np.concatenate((np.full(c['pre'], np.nan), y,
                           np.full(c['post'], np.nan)))
    taus = gen.taus_of(c['m'], c['rate'])
    a = run_dev('gradev', data, rate=c['rate'], data_type='freq', taus=taus,
                noisetype=c['noise'])
    b = run_dev('gradev', x, rate=c['rate'], taus=taus,
                noisetype=c['noise'])
    require((a is None) == (b is None), 'gradev of gappy frequency: %s, of '
            'its phase: %s', a, b)
    if a is None:
        return
    require(np.array_equal(a[0], b[0]) and np.array_equal(a[3], b[3]),
            'gappy frequency: tau %s n %s, its phase: tau %s n %s', a[0],
            a[3], b[0], b[3])
    fin = y[~np.isnan(y)]
    fl = rounding(np.cumsum(np.abs(fin)) / c['rate']) * 8
    require(np.all(np.abs(a[1] - b[1]) * a[0] <= 1e-8 * b[1] * b[0] + fl),
            'gappy frequency: %s, its phase: %s', a[1], b[1])
    ev.nt(np.max(a[3]) >= 4)
