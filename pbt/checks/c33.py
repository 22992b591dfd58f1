"""C33: degrees of freedom are those of the estimator; intervals cover."""
import functools

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..env import at

from allantools import ci

SHAPE = {'adev': (2, False, False), 'oadev': (2, True, False),
         'mdev': (2, True, True), 'tdev': (2, True, True),
         'hdev': (3, False, False), 'ohdev': (3, True, False)}
ALPHAS = [2, 1, 0, -1, -2, -3, -4]


def impulse(alpha, n):
    """impulse response of the fractional-difference filter, S_x ~ f^(a-2)"""
    k = np.arange(1, n)
    return np.append(1.0, np.cumprod(((2 - alpha) / 2.0 + k - 1) / k))


@functools.lru_cache(maxsize=64)
def mixing(alpha, n):
    """x = M w: n phase samples after a warm-up of 4n, w white."""
    length = 5 * n
    h = impulse(alpha, length)
    mat = np.zeros((n, length))
    for i in range(n):
        t = 4 * n + i
        mat[i, :t + 1] = h[:t + 1][::-1]
    return mat


def mtot_window(w, m):
    """6m averaged second differences of one detrended, reflected window."""
    k = len(w)
    gap = 0.5 * k if k % 2 == 0 else 0.5 * (k - 1) + 1
    slope = (w[(k + 1) // 2:].mean(0) - w[:k // 2].mean(0)) / gap
    w = w - np.arange(k)[:, None] * slope
    cs = np.cumsum(np.vstack([0 * w[:1], w[::-1], w, w[::-1]]), axis=0)
    a = (cs[m:] - cs[:-m]) / m
    i = np.arange(6 * m)
    return a[i] - 2 * a[i + m] + a[i + 2 * m]


@functools.lru_cache(maxsize=256)
def diffs(dev, n, m):
    """rows: the differences the estimator squares and averages."""
    if dev == 'totdev':
        eye = np.eye(n)
        left = 2 * eye[0] - eye[1:n - 1][::-1]
        right = 2 * eye[n - 1] - eye[1:n - 1][::-1]
        ext = np.vstack([left, eye, right])
        i = np.arange(1, n - 1) + n - 2
        return ext[i - m] - 2 * ext[i] + ext[i + m]
    if dev == 'mtotdev':
        return np.vstack([mtot_window(np.eye(n)[i:i + 3 * m], m)
                          for i in range(n - 3 * m + 1)])
    d = SHAPE[dev][0]
    f = np.zeros(d * m + 1)
    f[::m] = {2: [1, -2, 1], 3: [1, -3, 3, -1]}[d]
    if SHAPE[dev][2]:
        f = np.convolve(f, np.ones(m)) / m
    step = 1 if SHAPE[dev][1] else m
    out = []
    for s in range(0, n - len(f) + 1, step):
        r = np.zeros(n)
        r[s:s + len(f)] = f
        out.append(r)
    return np.array(out)


@functools.lru_cache(maxsize=512)
def moments(dev, alpha, n, m):
    """(mean square of the differences, exact degrees of freedom)"""
    b = diffs(dev, n, m).dot(mixing(alpha, n))
    c = b.dot(b.T) if b.shape[0] < b.shape[1] else b.T.dot(b)
    tr = np.trace(c)
    return tr / len(b), tr * tr / np.sum(c * c)


def fits(dev, n, m):
    if dev == 'totdev':
        return m <= n - 2
    d, over, mod = SHAPE[dev]
    return d * m + (m if mod else 1) <= n


@st.composite
def dof(draw):
    n = draw(st.one_of(st.integers(8, 40), st.integers(40, 160),
                       gen.uni(160, 260)))
    alpha = draw(st.sampled_from(ALPHAS))
    m = draw(st.one_of(st.integers(1, 6), st.integers(1, n // 3)))
    return {'dev': draw(st.sampled_from(['adev', 'oadev', 'mdev', 'hdev',
                                         'ohdev', 'totdev', 'mtotdev',
                                         'simple'])),
            'n': n, 'm': m, 'alpha': alpha}


@sub('C33', 'dof', dof(), 3000, shards=4,
     rule='edf_greenhall, edf_totdev, edf_mtotdev, edf_simple against the exact '
          '2 mean^2/variance of the squared differences (covariance matrix '
          'of the estimator for filtered power-law noise), within the '
          'accuracy of the formulas; non-trivial = at least 3 differences, '
          'm >= 2')
def _dof(c, ev):
    dev, n, m, alpha = c['dev'], c['n'], c['m'], c['alpha']
    if dev == 'totdev':
        alpha = alpha if alpha in (0, -1, -2) else -1
        if m > n // 2 or n < 16:
            return
        got = call(ci.edf_totdev, n, m, alpha)
        lo, hi = (0.86, 1.22) if m >= 3 else (0.85, 3.0)
        if n < 30:
            hi = max(hi, 1.35)
        ref = 'totdev'
    elif dev == 'mtotdev':
        alpha = max(alpha, -2)
        if m < 2 or m > n // 3 or n < 24 or n > 130:
            return
        got = call(ci.edf_mtotdev, n, m, alpha)
        lo, hi = (0.7, 1.85) if m > 3 else (0.65, 1.85)
        ref = 'mtotdev'
    elif dev == 'simple':
        alpha = max(alpha, -2)
        if m > n // 5 or n < 30:
            return
        got = call(ci.edf_simple, n, m, alpha)
        lo, hi = (0.77, 1.12)
        ref = 'oadev'
    else:
        d, over, mod = SHAPE[dev]
        if alpha + 2 * d <= 1 or not fits(dev, n, m):
            return
        got = call(ci.edf_greenhall, alpha, d, m, n, over, mod)
        if alpha == 2:
            lo, hi = 0.997, 1.003
        elif m < 8:
            lo, hi = 0.64, 1.28
        elif not over:
            lo, hi = 0.985, 1.02
        elif mod:
            lo, hi = 0.975, 1.015
        else:
            lo, hi = {1: (0.80, 1.01), 0: (0.89, 1.015)}.get(
                alpha, (0.96, 1.015))
        ref = dev
    want = moments(ref, alpha, n, m)[1]
    require(lo <= got / want <= hi, '%s alpha=%d N=%d m=%d: %r degrees of '
            'freedom, the estimator has %r', dev, alpha, n, m, float(got),
            float(want))
    ev.nt(m >= 2 and len(diffs(ref, n, m)) >= 3)
    ev.label(dev, 'alpha=%d' % alpha)


@st.composite
def cover(draw):
    dev = draw(st.sampled_from(['adev', 'oadev', 'mdev', 'tdev', 'hdev',
                                'ohdev', 'totdev']))
    route = draw(st.sampled_from(['edf', 'edf', 'id']))
    n = draw(gen.uni(40, 160))
    if dev == 'totdev':
        route = 'edf'
        alpha = draw(st.sampled_from([0, -1, -2]))
        m = draw(gen.uni(3, n // 2))
    else:
        alpha = draw(st.sampled_from([2, 1, 0, -1, -2]))
        m = draw(st.one_of(gen.uni(1, n // 5), gen.uni(n // 8,
                                                               n // 5)))
    if route == 'id':
        m = draw(st.sampled_from([1, 2, 3]))
        n = draw(gen.uni(60 * m, 64 * m))
    return {'dev': dev, 'route': route, 'n': n, 'm': m, 'alpha': alpha,
            'ci': draw(st.sampled_from([0.5, 0.6827, 0.9, 0.95])),
            'rate': draw(st.sampled_from([1.0, 0.1, 8.0])),
            'amp': draw(st.sampled_from([1.0, 1e-9, 300.0])),
            'freq': draw(st.booleans()), 's': draw(gen.seeds)}


@sub('C33', 'coverage', cover(), 160, shards=4,
     rule='500 records of filtered power-law noise: the library deviation '
          'has the exact mean square (5.5 sigma), and the interval from the '
          'noise type or from noise identification contains the exact '
          'deviation at the stated rate (0.12 + 4.5 sigma); non-trivial = '
          'm >= 2')
def _coverage(c, ev):
    dev, n, m, alpha, p = c['dev'], c['n'], c['m'], c['alpha'], c['ci']
    rate, amp = c['rate'], c['amp']
    runs = 500 if c['route'] == 'edf' else 250
    rs = np.random.RandomState(c['s'])
    w = rs.standard_normal((runs, 5 * n))
    xs = amp * w.dot(mixing(alpha, n).T)
    ms, dof_ = moments(dev, alpha, n, m)
    tau = m / rate
    d = 2 if dev == 'totdev' else SHAPE[dev][0]
    true = amp * np.sqrt(ms / {2: 2.0, 3: 6.0}[d]) / tau
    if dev == 'tdev':
        true *= tau / np.sqrt(3.0)
    freq = c['freq']
    fn = getattr(at, dev)
    edf = None
    if c['route'] == 'edf':
        if dev == 'totdev':
            edf = call(ci.edf_totdev, n, m, alpha)
        else:
            edf = call(ci.edf_greenhall, alpha, SHAPE[dev][0], m, n,
                       SHAPE[dev][1], SHAPE[dev][2])
    vals, hits = [], 0
    for x in xs:
        data = np.diff(x) * rate if freq else x
        kind = 'freq' if freq else 'phase'
        t, dv, e, nn = call(fn, data, rate=rate, data_type=kind, taus=[tau])
        require(len(dv) == 1, '%s: no row at m=%d of %d points', dev, m, n)
        v = float(dv[0])
        vals.append(v)
        if edf is not None:
            lo, hi = call(ci.confidence_interval, v, edf, p)
        else:
            lo, hi = call(ci.confidence_interval_noiseID, data, v, m, dev,
                          kind, p)
        hits += bool(lo <= true <= hi)
    got = float(np.mean(np.square(vals)))
    require(abs(got / true ** 2 - 1) <= 5.5 * np.sqrt(2.0 / dof_ / runs)
            + 3.0 / dof_ / runs,
            '%s alpha=%d n=%d m=%d rate=%r: root mean square of %d records '
            '%r, expected %r', dev, alpha, n, m, rate, runs,
            float(np.sqrt(got)), float(true))
    cov = hits / float(runs)
    tol = 0.12 + 4.5 * np.sqrt(p * (1 - p) / runs)
    require(abs(cov - p) <= tol, '%s alpha=%d n=%d m=%d (%s): %.3f of the '
            'intervals of level %r contain the true deviation', dev, alpha,
            n, m, c['route'], cov, p)
    ev.nt(m >= 2)
    ev.label(dev, c['route'], 'alpha=%d' % alpha)


@st.composite
def grad(draw):
    n = draw(gen.uni(40, 160))
    return {'n': n, 'm': draw(gen.uni(1, n // 5)),
            'type': draw(st.sampled_from(['wp', 'fp', 'wf', 'ff', 'rf'])),
            'ci': draw(st.sampled_from([0.5, 0.6827, 0.9, 0.95])),
            's': draw(gen.seeds), 'rate': draw(st.sampled_from([1.0, 4.0])),
            'gap': draw(st.sampled_from([0, 0, 1, 3]))}


@sub('C33', 'gradev', grad(), 80, shards=2,
     rule='400 records (with up to 3 missing points): the bounds reported '
          'by gradev for the noise type contain the exact deviation at the '
          'stated rate (0.13 + 4.5 sigma); non-trivial = m >= 2')
def _gradev(c, ev):
    n, m, p, rate = c['n'], c['m'], c['ci'], c['rate']
    alpha = {'wp': 2, 'fp': 1, 'wf': 0, 'ff': -1, 'rf': -2}[c['type']]
    rs = np.random.RandomState(c['s'])
    runs = 400
    xs = rs.standard_normal((runs, 5 * n)).dot(mixing(alpha, n).T)
    true = np.sqrt(moments('oadev', alpha, n, m)[0] / 2) / (m / rate)
    gaps = rs.choice(np.arange(5, n - 5), c['gap'], replace=False)
    hits = 0
    for x in xs:
        x[gaps] = np.nan
        t, dv, e, nn = call(at.gradev, x, rate=rate, taus=[m / rate], ci=p,
                            noisetype=c['type'])
        require(len(dv) == 1, 'gradev: no row at m=%d', m)
        e = as_array(e, 'errors')
        require(e.shape == (2, 1), 'gradev errors have shape %s', e.shape)
        hits += bool(dv[0] - e[0, 0] <= true <= dv[0] + e[1, 0])
    cov = hits / float(runs)
    require(abs(cov - p) <= 0.13 + 4.5 * np.sqrt(p * (1 - p) / runs),
            'gradev %s n=%d m=%d: %.3f of the bounds of level %r contain the '
            'true deviation', c['type'], n, m, cov, p)
    ev.nt(m >= 2)
    ev.label(c['type'])
