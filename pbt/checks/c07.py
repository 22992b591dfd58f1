"""C07: GCODEV is the Allan covariance; three-cornered hat identities."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array, Violation
from .. import gen, ref
from ..devs import run_dev, check_rows, rounding
from ..env import at
from .c01 import resolve, HUGE_RULE


@st.composite
def pairs(draw, lo=4, hi=60, big=500, kinds=tuple(gen.KINDS[:-1])):
    n = draw(gen.lengths(lo, hi, big))
    c = {'x': draw(gen.series(n=n, kinds=list(kinds))),
         'y': draw(gen.series(n=n, kinds=list(kinds))),
         'rate': draw(gen.rates)}
    # comparable magnitudes half of the time
    if draw(st.booleans()):
        c['y']['a'] = c['x']['a']
    if draw(st.integers(0, 3)) == 0:
        c['kw'] = draw(st.sampled_from(['octave', 'decade', None] +
                                       ['all'] * (n < 120)))
    else:
        c['m'] = draw(gen.ms(n))
    return c


def gco(x, y, c, taus):
    name = 'gcodev'

    def gcodev(d, **kw):
        return at.gcodev(d, y, **kw)
    return run_dev(gcodev, x, rate=c['rate'], taus=taus)


def floor2(x, y):
    """Rounding allowance for sqrt|mean(dx*dy)|: errors in dx scale dy."""
    return np.sqrt(rounding(x) * rounding(y)) + np.sqrt(
        rounding(x) * np.max(np.abs(y)) + rounding(y) * np.max(np.abs(x)))


@sub('C07', 'covariance', pairs(), 5000, shards=4,
     rule='two records of 12 kinds; GCODEV^2*tau^2 = |sum dx*dy|/(2n); '
          'non-trivial = non-zero covariance')
def _cov(c, ev):
    x, y = gen.expand(c['x']), gen.expand(c['y'])
    n = len(x)
    mlist, taus = resolve(c, n)
    got = gco(x, y, c, taus)
    xl, yl = ref.ld(x), ref.ld(y)
    rows = []
    tols = []
    for m in mlist:
        s = ref.starts(n, 2 * m, 1)
        if len(s) < 2:
            continue
        dx, dy = ref.diff2(xl, m, s), ref.diff2(yl, m, s)
        rows.append((m, float(np.sum(dx * dy) / (2 * len(s))), len(s)))
        # rounding of each difference times the other's magnitude
        tols.append(float(1e-10 * np.mean(np.abs(dx * dy)) +
                          rounding(x) * np.mean(np.abs(dy)) +
                          rounding(y) * np.mean(np.abs(dx)) +
                          rounding(x) * rounding(y)))
    if not rows:
        require(got is None, 'gcodev reported rows with <2 terms')
        return
    require(got is not None, 'gcodev declined m=%s', [r[0] for r in rows])
    t, d, e, ns = got
    require(len(t) == len(rows) and
            np.allclose(t, [r[0] / float(c['rate']) for r in rows],
                        rtol=1e-9, atol=0), 'gcodev taus %s', t)
    for i, (m, cov, k) in enumerate(rows):
        tau = m / float(c['rate'])
        require(ns[i] == k, 'gcodev n=%r expected %d', ns[i], k)
        have = (d[i] * tau) ** 2
        require(d[i] >= 0 and abs(have - abs(cov)) <= 1e-8 * abs(cov)
                + tols[i], 'gcodev m=%d: dev^2 tau^2 = %r, |covariance| = %r',
                m, have, abs(cov))
        require(abs(e[i] - d[i] / np.sqrt(k)) <= 1e-9 * d[i],
                'gcodev error column')
        ev.nt(abs(cov) > 100 * tols[i])
        ev.label('cov<0' if cov < 0 else 'cov>=0')


@sub('C07', 'covariance-long', pairs(500, 3000, 120000, ('white', 'rw',
                                                         'end', 'start')),
     400, shards=3, rule='the same on records of 500-120000 points')
def _covlong(c, ev):
    _cov(c, ev)


@sub('C07', 'sparse-huge', gen.huge_sparse().flatmap(
    lambda c: st.tuples(st.integers(-3, 3), gen.seeds).map(lambda t: dict(
        c, y=dict(c['x'], s=t[1], p=[v + t[0] for v in c['x']['p']])))), 120,
     shards=3, rule=HUGE_RULE)
def _sparse(c, ev):
    _cov(c, ev)
    ev.nt()


@sub('C07', 'algebra', pairs(lo=6), 1500, shards=2,
     rule='gcodev(x,x)=OADEV(x); symmetric; scales as sqrt|ab|; '
          'Cauchy-Schwarz; polarisation identity with OADEV of x+y and x-y; '
          'non-trivial = both records have non-zero OADEV')
def _alg(c, ev):
    x, y = gen.expand(c['x']), gen.expand(c['y'])
    # comparable magnitudes, so that x+-y keep both
    x, y = x / c['x']['a'], y / c['y']['a']
    mlist, taus = resolve(c, len(x))
    ox = run_dev('oadev', x, rate=c['rate'], taus=taus)
    gxx = gco(x, x, c, taus)
    require((ox is None) == (gxx is None), 'gcodev(x,x) rows')
    if ox is None:
        return
    oy = run_dev('oadev', y, rate=c['rate'], taus=taus)
    gxy, gyx = gco(x, y, c, taus), gco(y, x, c, taus)
    for r in (gxy, gyx, oy):
        require(r is not None and len(r[0]) == len(ox[0]), 'rows differ')
    tau = ox[0]
    mx = max(np.max(np.abs(x)), np.max(np.abs(y)))
    fl = 1e-13 * mx * (10 + len(x))
    require(np.all(np.abs(gxx[1] - ox[1]) * tau <= 1e-9 * ox[1] * tau + fl),
            'gcodev(x,x)=%s oadev=%s', gxx[1], ox[1])
    v = lambda r: (r[1] * tau) ** 2
    tol = 1e-9 * (v(ox) + v(oy)) + fl * (np.sqrt(v(ox)) + np.sqrt(v(oy))
                                         + fl)
    require(np.all(np.abs(v(gxy) - v(gyx)) <= tol), 'gcodev not symmetric')
    require(np.all(v(gxy) <= np.sqrt(v(ox) * v(oy)) + tol),
            'gcodev^2 %s exceeds oadev(x)*oadev(y) %s', v(gxy),
            np.sqrt(v(ox) * v(oy)))
    p = run_dev('oadev', x + y, rate=c['rate'], taus=taus)
    q = run_dev('oadev', x - y, rate=c['rate'], taus=taus)
    require(np.all(np.abs(np.abs(v(p) - v(q)) / 4 - v(gxy)) <= 8 * tol),
            'polarisation: |AVAR(x+y)-AVAR(x-y)|/4 = %s, gcodev^2 = %s',
            np.abs(v(p) - v(q)) / 4, v(gxy))
    s = gco(-4.0 * x, 2.0 * y, c, taus)
    require(np.all(np.abs(v(s) - 8 * v(gxy)) <= 16 * tol),
            'gcodev(-4x,2y)^2 != 8 gcodev(x,y)^2')
    ev.nt(np.any(ox[1] > 0) and np.any(oy[1] > 0))


HAT = ['adev', 'oadev', 'mdev', 'hdev', 'ohdev', 'tdev', 'totdev']


@st.composite
def hats(draw):
    n = draw(gen.lengths(8, 60, 200))
    kinds = ['white', 'rw', 'rr', 'ints', 'sine', 'heavy', 'const']
    return {'a': draw(gen.series(n=n, kinds=kinds, amps=[1.0, 3.0, 1e-2])),
            'b': draw(gen.series(n=n, kinds=kinds, amps=[1.0, 3.0, 1e-2])),
            'c': draw(gen.series(n=n, kinds=kinds, amps=[1.0, 3.0, 1e-2])),
            'mode': draw(st.sampled_from(['clocks', 'independent'])),
            'unit': draw(st.sampled_from([1.0, 1e-9, 1e-12])),
            'fn': draw(st.sampled_from(HAT)), 'rate': draw(gen.rates),
            'm': draw(gen.ms(n, mmax=max(1, n // 4)))}


def hat(ab, bc, ca, c, taus):
    r = call(at.three_cornered_hat_phase, ab, bc, ca, c['rate'], taus,
             getattr(at, c['fn']), what='three_cornered_hat_phase',
             allow=(UserWarning,))
    if isinstance(r, UserWarning):
        return None
    require(isinstance(r, tuple) and len(r) == 4, 'hat returned %r', r)
    return [as_array(z, 'hat') for z in r]


@sub('C07', 'three-cornered-hat', hats(), 2500, shards=3,
     rule='pairwise records from three simulated clocks (or unrelated '
          'records), 7 deviations; var_a = (ab+ca-bc)/2 clipped at zero; '
          'non-trivial = some positive unclipped estimate')
def _hat(c, ev):
    a, b, d = [gen.expand(c[k]) * c['unit'] for k in 'abc']
    if c['mode'] == 'clocks':
        ab, bc, ca = a - b, b - d, d - a
    else:
        ab, bc, ca = a, b, d
    taus = gen.taus_of(c['m'], c['rate'])
    fn = c['fn']
    parts = [run_dev(fn, z, rate=c['rate'], taus=taus) for z in (ab, bc, ca)]
    h = hat(ab, bc, ca, c, taus)
    if any(p is None for p in parts):
        require(h is None, 'hat returned rows where %s declines', fn)
        return
    require(h is not None, 'hat declined where %s reports rows', fn)
    va, vb, vc = [p[1] ** 2 for p in parts]
    raw = 0.5 * (va + vc - vb)
    tol = 1e-9 * (va + vb + vc)
    want = np.maximum(raw, 0)
    require(np.allclose(h[0], parts[0][0], rtol=1e-12) and
            np.array_equal(h[3], parts[0][3]), 'hat tau/n columns')
    require(h[1].shape == raw.shape and np.all(h[1] >= 0) and
            np.all(np.abs(h[1] ** 2 - want) <= tol),
            'hat variance %s, (ab+ca-bc)/2 = %s', h[1] ** 2, raw)
    require(h[2].shape == h[1].shape and
            np.all(np.abs(h[2] - h[1] / np.sqrt(h[3])) <= 1e-9 * h[1]),
            'hat error column %s', h[2])
    # sum rule: var_a + var_b = var_ab where nothing was clipped
    hb = hat(bc, ca, ab, c, taus)
    require(hb is not None, 'hat declined the cyclic permutation')
    ok = (raw > tol) & (0.5 * (va + vb - vc) > tol)
    require(np.all(np.abs(h[1] ** 2 + hb[1] ** 2 - va)[ok] <= 4 * tol[ok]),
            'var_a + var_b != var_ab')
    ev.nt(np.any(raw > tol))
    ev.label(*(['clipped'] if np.any(raw < -tol) else []))
    ev.label(fn)
