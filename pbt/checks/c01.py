"""C01: ADEV, OADEV, HDEV, OHDEV equal their published definitions."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, call, require
from .. import gen, ref
from ..devs import run_dev, check_rows, rounding
from ..env import at

FNS = {'adev': ref.adev, 'oadev': ref.oadev, 'hdev': ref.hdev,
       'ohdev': ref.ohdev}


@st.composite
def cases(draw, lo, hi, big=None, fns=tuple(FNS), kinds=None, max_m=6):
    x = draw(gen.series(lo, hi, big, kinds=kinds))
    n = gen.spec_len(x)
    c = {'fn': draw(st.sampled_from(list(fns))), 'x': x,
         'rate': draw(gen.rates)}
    kw = draw(st.sampled_from([None, 'all', 'octave', 'decade', 0, 0, 0, 0]))
    if kw == 'all' and n > 200:
        kw = 0
    if kw == 0:
        c['m'] = draw(gen.ms(n, max_size=max_m))
    else:
        c['kw'] = kw
    return c


def resolve(c, n):
    """-> (sorted averaging factors to expect, taus argument)"""
    if 'm' in c:
        m = sorted(set(c['m']))
        return [k for k in m if k < n], gen.taus_of(c['m'], c['rate'])
    return gen.keyword_ms(c['kw'], n), c['kw']


def definition(c, ev, table, floor, scale=1.0):
    x = gen.expand(c['x'])
    n = len(x)
    mlist, taus = resolve(c, n)
    rows = []
    for m in mlist:
        v, cnt = table[c['fn']](x, m)
        rows.append((m, v, cnt))
    got = run_dev(c['fn'], x, rate=c['rate'], taus=taus)
    check_rows(c['fn'], got, rows, c['rate'], floor(x), scale=scale,
               err_n=lambda m, k: k)
    live = [r for r in rows if r[2] > 1]
    ev.nt(any(r[1] > 0 for r in live))
    ev.label(c['fn'], 'rows=%d' % min(4, len(live)))
    if not live:
        ev.label('nothing-left')
    if any(r[0] > 1 for r in live):
        ev.label('m>1')
    if any(r[2] <= 1 for r in rows):
        ev.label('row-dropped')
    return rows, got


RULE = ('series of 13 kinds x amplitudes 1e-15..1e6 x offsets x slopes, rates '
        '1e-3..1e6, boundary-biased averaging factors or a keyword; '
        'non-trivial = some reported row with a non-zero deviation')


@sub('C01', 'definition', cases(3, 60), 9000, shards=4, rule=RULE)
def _definition(c, ev):
    definition(c, ev, FNS, rounding)


@sub('C01', 'definition-long', cases(200, 600, 5000, kinds=gen.GENERIC),
     1600, shards=2, rule=RULE + '; records of 200-5000 points')
def _long(c, ev):
    definition(c, ev, FNS, rounding)


@sub('C01', 'definition-huge', cases(8000, 20000, 300000,
                                     kinds=['white', 'rw', 'end'],
                                     max_m=4), 480,
     shards=4, rule=RULE + '; records of 8000-300000 points')
def _huge(c, ev):
    definition(c, ev, FNS, rounding)


HUGE_RULE = ('records of 10^5-10^6 points, silent but for a few events at the '
             'ends or next to a round sample number; non-trivial = a non-zero '
             'deviation')


@sub('C01', 'sparse-huge', gen.huge_sparse().flatmap(
    lambda c: st.sampled_from(list(FNS)).map(lambda f: dict(c, fn=f))), 500,
     shards=4, rule=HUGE_RULE)
def _sparse(c, ev):
    definition(c, ev, FNS, rounding)


@st.composite
def impulses(draw):
    n = draw(st.integers(5, 40))
    return {'n': n, 'at': draw(gen.uni(0, n - 1)),
            'fn': draw(st.sampled_from(list(FNS))),
            'm': draw(gen.uni(1, max(1, n // 3))),
            'rate': draw(gen.rates)}


@sub('C01', 'impulse-weights', impulses(), 2500,
     rule='unit impulse at a chosen sample: squared deviation must count the '
          'stencil weights (1,2,1 or 1,3,3,1) that touch that sample; '
          'non-trivial = impulse touched by at least one term')
def _impulse(c, ev):
    n, p, m = c['n'], c['at'], c['m']
    x = np.zeros(n)
    x[p] = 1.0
    had = 'hdev' in c['fn']
    w = [1, 3, 3, 1] if had else [1, 2, 1]
    span = (len(w) - 1) * m
    stride = 1 if c['fn'][0] == 'o' else m
    terms = list(range(0, n - span, stride))
    acc = 0
    for i in terms:
        if p >= i and (p - i) % m == 0 and (p - i) // m < len(w):
            acc += w[(p - i) // m] ** 2
    got = run_dev(c['fn'], x, rate=c['rate'], taus=[m / float(c['rate'])])
    k = len(terms)
    val = np.sqrt(acc / ((6.0 if had else 2.0) * k)) if k else 0
    check_rows(c['fn'], got, [(m, val, k)], c['rate'], 1e-14,
               err_n=lambda m, k: k)
    ev.nt(acc > 0 and k > 1)
    ev.label(c['fn'])


@st.composite
def helper_cases(draw):
    x = draw(gen.series(5, 60))
    n = gen.spec_len(x)
    m = draw(gen.uni(1, max(1, (n - 1) // 3)))
    return {'x': x, 'm': m, 'rate': draw(gen.rates),
            'stride': draw(st.sampled_from([1, m, 2]))}


@sub('C01', 'exported-helper', helper_cases(), 1200,
     rule='calc_hdev_phase(phase, rate, m, stride) against the strided '
          'third-difference definition')
def _helper(c, ev):
    x = gen.expand(c['x'])
    m = c['m']
    r = call(at.calc_hdev_phase, x, c['rate'], m, c['stride'])
    require(isinstance(r, tuple) and len(r) == 3, 'calc_hdev_phase -> %r', r)
    s = ref.starts(len(x), 3 * m, c['stride'])
    if len(s) == 0:
        return
    v, n = ref._rms(ref.diff3(ref.ld(x), m, s), 6)
    h, e, cnt = r
    tol = 1e-8 * float(v) + rounding(x)
    require(cnt == n, 'calc_hdev_phase n=%r, expected %d', cnt, n)
    require(abs(h * m / float(c['rate']) - float(v)) <= tol,
            'calc_hdev_phase %r, expected %r', h, float(v) / m * c['rate'])
    require(abs(e - h / np.sqrt(n)) <= 1e-9 * abs(h), 'calc_hdev_phase error')
    ev.nt(v > 0)
