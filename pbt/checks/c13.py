"""C13: every finite record gives well-formed rows or a clean refusal."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..devs import run_dev, ALL, max_len, expected_rows, errs, n_terms
from .c11 import tau_requests, build

KINDS = ['const', 'const', 'impulse', 'plateau', 'alt', 'step', 'ramp',
         'ints', 'lit', 'white', 'rw', 'heavy', 'sine']


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(ALL))
    lo = 2
    x = draw(gen.series(lo, max_len(fn), kinds=KINDS,
                        amps=gen.AMPS + [1e-100, 1e100, 0.0]))
    n = gen.spec_len(x)
    rate = draw(gen.rates)
    c = {'fn': fn, 'x': x, 'rate': rate,
         'dt': draw(st.sampled_from(['phase', 'freq']))}
    if draw(st.integers(0, 2)) == 0:
        c['kw'] = draw(st.sampled_from([None, 'octave', 'decade', 'all']))
        if c['kw'] == 'all' and n > 20 and 'tot' in fn:
            c['kw'] = 'octave'
    else:
        c['req'] = draw(tau_requests(n, rate, 5))
        c['as'] = draw(st.sampled_from(['list', 'array']))
    if fn == 'gradev':
        c['noise'] = draw(st.sampled_from(['wp', 'wf', 'fp', 'ff', 'rf',
                                           'other']))
    return c


@sub('C13', 'well-formed', cases(), 9000, shards=7,
     rule='records of >= 2 points incl. constant, all-zero, two-valued, '
          'tiny and huge amplitudes; tau requests incl. zero/negative/NaN/'
          'inf/too large; result = equal-length columns, ascending positive '
          'taus, finite deviations >= 0, finite errors >= 0, integer n >= 2, '
          'or UserWarning exactly when no tau has two terms; non-trivial = '
          'at least one row')
def _wf(c, ev):
    fn = c['fn']
    x = gen.expand(c['x'])
    nph = len(x) + (1 if c['dt'] == 'freq' else 0)
    if 'kw' in c:
        taus = c['kw']
        nk = nph - 1 if fn == 'htotdev' else nph
        if nk < 1:
            return
        want = gen.keyword_ms(taus, nk)
    else:
        vals, want = build(c['req'], c['rate'])
        taus = np.array(vals) if c['as'] == 'array' else vals
    if nph < 3:
        ev.label('tiny')
    judge(c, ev, x, taus, want)


def judge(c, ev, x, taus, want):
    fn = c['fn']
    nph = len(x) + (1 if c['dt'] == 'freq' else 0)
    kw = {'noisetype': c['noise']} if 'noise' in c else {}
    got = run_dev(fn, x, rate=c['rate'], data_type=c['dt'], taus=taus, **kw)
    rows = expected_rows(fn, nph, want)
    if not rows:
        require(got is None, '%s: rows %s where none is computable', fn, got)
        ev.label('refused')
        return
    require(got is not None, '%s(N=%d) refused although m=%s have terms', fn,
            nph, rows)
    t, d, e, n = got
    require(len(t) == len(rows), '%s: %d rows, %d computable', fn, len(t),
            len(rows))
    require(np.all(np.diff(t) > 0) and np.all(t > 0) and
            np.all(np.isfinite(t)), '%s: taus %s', fn, t)
    require(np.all(np.isfinite(d)) and np.all(d >= 0),
            '%s: deviations %s for %s', fn, d, c['x'])
    require(np.all(n >= 2) and np.all(n == np.round(n)), '%s: n=%s', fn, n)
    for a in errs(fn, got):
        require(a.shape == t.shape, '%s: error column shape', fn)
        if fn == 'gradev':
            # bounds are undefined where the EDF formula is not positive
            m = t * float(c['rate'])
            a = a[m < nph / 3.0] if nph > 8 else a[:0]
        require(np.all(np.isfinite(a)) and np.all(a >= -1e-12 * np.max(d)),
                '%s: errors %s (dev %s)', fn, a, d)
    if c['x']['k'] == 'const' and c['x']['sl'] == 0 and c['x']['o'] == 0:
        require(np.all(d == 0), '%s of a constant zero record: %s', fn, d)
    ev.nt()
    ev.label(fn, c['dt'])


@st.composite
def badtype(draw):
    return {'fn': draw(st.sampled_from(ALL)),
            'n': draw(st.integers(4, 20)),
            'dt': draw(st.sampled_from(['', 'Phase', 'frequency', 'phas',
                                        'FREQ', 'time', 'none', 'freq ',
                                        'y', 'phase1', ' phase', 'phase ', ' freq',
                                        'freq\n', 'PHASE', 'Freq', 'fre',
                                        'ph', 'p', 'f', 'freqs', 'phasefreq',
                                        'phase-freq', 'frac', 'fractional',
                                        'x', 'tie', 'phase_freq', 'hz', 's',
                                        'radians', 'None', 'phases']))}


@sub('C13', 'bad-data-type', badtype(), 1500,
     rule='an unknown data_type is refused with an exception (never taken '
          'for phase or frequency); non-trivial = always')
def _bt(c, ev):
    from ..env import at
    x = np.arange(c['n'], dtype=float) ** 2
    r = call(getattr(at, c['fn']), x, data_type=c['dt'],
             allow=(Exception,))
    require(isinstance(r, Exception) and not isinstance(r, UserWarning),
            '%s accepts data_type=%r', c['fn'], c['dt'])
    ev.nt()


@st.composite
def boundary(draw):
    fn = draw(st.sampled_from(ALL))
    n = draw(gen.uni(3, max_len(fn, 40)))
    return {'fn': fn, 'n': n, 's': draw(gen.seeds),
            'd': draw(st.integers(-2, 2)), 'rate': draw(gen.rates)}


@sub('C13', 'last-tau', boundary(), 2500, shards=2,
     rule='the single largest computable averaging factor of each estimator, '
          'and its neighbours; it is reported with n>=2, the next is refused; '
          'non-trivial = accepted')
def _last(c, ev):
    fn, n = c['fn'], c['n']
    top = max([m for m in range(1, n) if expected_rows(fn, n, [m])] or [1])
    m = top + c['d']
    if m < 1:
        return
    x = gen.expand({'k': 'white', 'n': n, 's': c['s']})
    got = run_dev(fn, x, rate=c['rate'], taus=[m / float(c['rate'])])
    want = expected_rows(fn, n, [m])
    require((got is not None) == bool(want), '%s: N=%d m=%d gives %s, '
            'expected rows %s', fn, n, m, got, want)
    if want:
        require(got[3][0] == want[0][1] and np.isfinite(got[1][0]),
                '%s: N=%d m=%d n=%r expected %d', fn, n, m, got[3][0],
                want[0][1])
        ev.nt()
    ev.label('accepted' if want else 'refused')


@st.composite
def longs(draw):
    fn = draw(st.sampled_from(ALL))
    n, ms = draw(gen.sizes(fn))
    rate = draw(gen.rates)
    c = {'fn': fn, 'x': draw(gen.series(
        n=n, kinds=['const', 'impulse', 'plateau', 'alt', 'step', 'ramp',
                    'white', 'rw', 'heavy', 'end', 'start'],
        amps=gen.AMPS + [1e-100, 1e100, 0.0])), 'rate': rate,
        'dt': draw(st.sampled_from(['phase', 'freq'])), 'm': sorted(ms)}
    if fn == 'gradev':
        c['noise'] = draw(st.sampled_from(['wp', 'wf', 'fp', 'ff', 'rf',
                                           'other']))
    return c


@sub('C13', 'long', longs(), 800, shards=8,
     rule='records of hundreds to 100000 points and the longest averaging '
          'times; non-trivial = at least one row')
def _long(c, ev):
    judge(c, ev, gen.expand(c['x']), gen.taus_of(c['m'], c['rate']), c['m'])
