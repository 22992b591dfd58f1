"""C28: deviation curve <-> piecewise power-law PSD."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen, ref_psd
from ..env import at

GRID = {'adev': [-1.5, -1, -0.5, 0, 0.5, 1, 1.5, -1.9, 1.9],
        'hdev': [-1.5, -1, 0, 0.5, 1, 2, 3, 3.5, -1.9, 3.9]}
KINDS = {'adev': ['adev', 'ADEV', 'Adev', None], 'hdev': ['hdev', 'HDEV']}


@st.composite
def curves(draw, maxseg=5, kinds=('adev', 'hdev')):
    k = draw(gen.uni(1, maxseg))
    kind = draw(st.sampled_from(list(kinds)))
    top = 1.98 if kind == 'adev' else 3.95
    mu = [draw(st.one_of(st.sampled_from(GRID[kind]), st.floats(-1.98, top)))
          for _ in range(k)]
    for i in range(1, k):
        if abs(mu[i] - mu[i - 1]) < 0.02:
            mu[i] = mu[i - 1] + (0.3 if mu[i - 1] < 0 else -0.3)
    return {'kind': kind, 'arg': draw(st.sampled_from(KINDS[kind])),
            'mu': [float(m) for m in mu],
            't0': draw(st.sampled_from([1.0, 1e-3, 10.0, 0.7, 100.0, 1e3,
                                        1e-9, 1e6])),
            'r': [draw(st.sampled_from([2.0, 10.0, 1.5, 100.0, 1.1, 1e3]))
                  for _ in range(k)],
            'a': draw(st.sampled_from([1.0, 1e-12, 3e-9, 20.0, 1e-15, 1e-21,
                                       1e5])),
            'lst': draw(st.booleans())}


def curve(c):
    t = c['t0'] * np.concatenate(([1.0], np.cumprod(c['r'])))
    var = [2 * np.log(c['a'])]
    for m, r in zip(c['mu'], c['r']):
        var.append(var[-1] + m * np.log(r))
    return np.exp(0.5 * np.array(var)), t


def invert(c, a, t, **kw):
    if c['lst']:
        a, t = list(a), list(t)
    if c['arg'] is not None:
        kw['vartype'] = c['arg']
    r = call(at.adev2psd_piecewise_approx, a, t, what='adev2psd', **kw)
    require(len(r) == 4, 'adev2psd returns %d values', len(r))
    f, s, h, al = [as_array(v, w) for v, w in zip(r, ('f_nodes', 'Sy_nodes',
                                                      'h', 'alpha'))]
    require(f.ndim == 1 and f.shape == s.shape and h.shape == al.shape,
            'shapes %s %s %s %s', f.shape, s.shape, h.shape, al.shape)
    return f, s, h, al


@sub('C28', 'inverse', curves(), 1500, shards=8,
     rule='piecewise power-law ADEV / HDEV of 1-5 segments: exponents '
          'alpha=-mu-1 and closed-form coefficients in frequency order, PSD '
          'continuous at nodes; non-trivial = >=2 segments')
def _inv(c, ev):
    a, t = curve(c)
    k = len(c['mu'])
    f, s, h, al = invert(c, a, t)
    mu = np.array(c['mu'])
    require(len(h) == k, '%d segments given, %d found', k, len(h))
    require(np.allclose(al, (-mu - 1)[::-1], atol=1e-7), 'slopes %s give '
            'exponents %s', mu, al)
    J = np.array([ref_psd.closed(3 + m, c['kind']) for m in mu])
    B = a[:-1] ** 2 * t[:-1] ** -mu
    want = (B / (2 * J * np.pi ** mu))[::-1]
    require(np.allclose(h, want, rtol=1e-4, atol=0), 'h=%s, closed form %s '
            '(%s)', h, want, c['kind'])
    if k == 1:
        require(np.allclose(f, 1 / t[::-1], rtol=1e-12), 'f_nodes %s for '
                'taus %s', f, t)
    else:
        require(len(f) == k - 1, '%d nodes for %d segments', len(f), k)
        fw = (1 / (np.pi * t[1:-1]) *
              (J[:-1] / J[1:]) ** (1 / np.diff(mu)))[::-1]
        tol = (1e-5 / np.abs(np.diff(mu)) + 1e-6)[::-1]
        require(np.all(np.abs(np.log(f / fw)) <= tol), 'nodes %s, expected '
                '%s', f, fw)
        left = h[:-1] * f ** al[:-1]
        right = h[1:] * f ** al[1:]
        require(np.allclose(left, right, rtol=1e-5), 'PSD jumps at the '
                'nodes: %s %s', left, right)
    hn, an = (h[:-1], al[:-1]) if k > 1 else (h, al)
    require(np.allclose(s, hn * f ** an, rtol=1e-9, atol=0),
            'Sy_nodes %s is not S_y at %s', s, f)
    ev.nt(k >= 2)
    ev.label(c['kind'], 'segments=%d' % k)


@st.composite
def related(draw):
    c = draw(curves(4))
    c['k'] = draw(st.sampled_from([2.0, 0.1, 1e6, 3.7]))
    c['ct'] = draw(st.sampled_from([2.0, 0.125, 10.0, 1e-3]))
    c['split'] = [draw(st.integers(0, 3)) for _ in c['mu']]
    c['d'] = draw(st.sampled_from([3e-3, 1e-4, 0.05, 0.5]))
    c['up'] = draw(st.booleans())
    return c


@sub('C28', 'relations', related(), 1200, shards=4,
     rule='deviation*k scales h by k^2, tau*c rescales the PSD, interior '
          'points on a segment change nothing, slopes closer than mu_tol '
          'merge and others do not; non-trivial = >=2 segments')
def _rel(c, ev):
    a, t = curve(c)
    f, s, h, al = invert(c, a, t)
    f2, s2, h2, al2 = invert(c, a * c['k'], t)
    require(np.allclose(f2, f, rtol=1e-6) and np.allclose(al2, al, atol=1e-7)
            and np.allclose(h2, h * c['k'] ** 2, rtol=1e-6, atol=0) and
            np.allclose(s2, s * c['k'] ** 2, rtol=1e-5, atol=0),
            'deviation * %r: h %s -> %s', c['k'], h, h2)
    f3, s3, h3, al3 = invert(c, a, t * c['ct'])
    require(np.allclose(f3 * c['ct'], f, rtol=1e-6) and
            np.allclose(al3, al, atol=1e-7) and
            np.allclose(h3, h * c['ct'] ** (1 + al), rtol=1e-6, atol=0),
            'tau * %r: h %s -> %s, nodes %s -> %s', c['ct'], h, h3, f, f3)
    if len(h) > 1:
        la, lt = np.log(a), np.log(t)
        na, nt = [a[0]], [t[0]]
        for i, n in enumerate(c['split']):
            for j in range(1, n + 2):
                w = j / (n + 1.0)
                na.append(np.exp(la[i] + w * (la[i + 1] - la[i])))
                nt.append(np.exp(lt[i] + w * (lt[i + 1] - lt[i])))
        f4, s4, h4, al4 = invert(c, np.array(na), np.array(nt))
        require(len(h4) == len(h), '%d segments, %d after adding collinear '
                'points', len(h), len(h4))
        require(np.allclose(f4, f, rtol=1e-5) and
                np.allclose(al4, al, atol=1e-6) and
                np.allclose(h4, h, rtol=1e-4, atol=0), 'collinear points '
                'change h %s -> %s, nodes %s -> %s', h, h4, f, f4)
        near = 0.5 * np.min(np.abs(np.diff(c['mu'])))
        f6, s6, h6, al6 = invert(c, a, t, mu_tol=near)
        require(len(h6) == len(h) and np.allclose(f6, f, rtol=1e-5) and
                np.allclose(al6, al, atol=1e-6) and
                np.allclose(h6, h, rtol=1e-4, atol=0), 'mu_tol=%r changes '
                'h %s -> %s, nodes %s -> %s', near, h, h6, f, f6)
    # merging threshold
    m0 = c['mu'][0]
    m1 = m0 + (c['d'] if m0 < 0 else -c['d'])
    t5 = c['t0'] * np.array([1.0, 10.0, 100.0])
    a5 = c['a'] * 10 ** (0.5 * np.array([0, m0, m0 + m1]))
    tol = c['d'] * (2.0 if c['up'] else 0.5)
    h5 = invert(c, a5, t5, mu_tol=tol)[2]
    require(len(h5) == (1 if c['up'] else 2), 'slopes %r apart, mu_tol %r: '
            '%d segments', c['d'], tol, len(h5))
    ev.nt(len(h) >= 2)


@st.composite
def refused(draw):
    c = draw(curves(3))
    c['bad'] = draw(st.sampled_from(
        ['size', 'short', 'empty', 'zero-adev', 'neg-adev', 'zero-tau',
         'equal', 'decreasing', 'vartype', 'steep', 'shallow', '2d']))
    c['i'] = draw(st.integers(0, 9))
    c['x'] = draw(st.sampled_from([1e-3, 0.1, 1.0, 3.0]))
    return c


@sub('C28', 'refusals', refused(), 1500,
     rule='unusable curves raise ValueError; non-trivial = slope outside the '
          'convergent range or unordered taus')
def _ref(c, ev):
    a, t = curve(c)
    i = c['i'] % len(a)
    kw = {'vartype': c['kind']}
    b = c['bad']
    if b == 'size':
        a = a[:-1] if c['i'] % 2 else np.append(a, a[-1])
    elif b == 'short':
        a, t = a[:1], t[:1]
    elif b == 'empty':
        a, t = a[:0], t[:0]
    elif b == '2d':
        a, t = a[None, :], t[None, :]
    elif b == 'zero-adev':
        a[i] = 0
    elif b == 'neg-adev':
        a[i] = -a[i]
    elif b == 'zero-tau':
        t[0] = 0
    elif b == 'equal':
        j = i % (len(t) - 1)
        t[j + 1] = t[j]
    elif b == 'decreasing':
        t = t[::-1].copy() if c['i'] % 2 else t
        if not c['i'] % 2:
            j = i % (len(t) - 1)
            t[j], t[j + 1] = t[j + 1], t[j]
    elif b == 'vartype':
        kw['vartype'] = ['mdev', 'tdev', 'oadev', '', 'adevs'][c['i'] % 5]
    else:
        lim = {'adev': (-2, 2), 'hdev': (-2, 4)}[c['kind']]
        m = lim[1] + c['x'] if b == 'steep' else lim[0] - c['x']
        j = i % (len(c['mu']))
        c2 = dict(c, mu=list(c['mu']))
        c2['mu'][j] = m
        if j and abs(c2['mu'][j - 1] - m) < 1e-4:
            c2['mu'][j - 1] = 0.0
        a, t = curve(c2)
    r = call(at.adev2psd_piecewise_approx, a, t, allow=(ValueError,),
             what='adev2psd', **kw)
    require(isinstance(r, ValueError), '%s: accepted adev=%s taus=%s %s', b,
            a, t, kw)
    ev.nt(b in ('steep', 'shallow', 'equal', 'decreasing'))
    ev.label(b)


@st.composite
def psds(draw):
    k = draw(st.one_of(st.integers(1, 4), st.integers(1, 4),
                       st.integers(1, 4), st.integers(5, 9)))
    al = [draw(st.one_of(st.sampled_from([0, -1, -2, 0.5, -2.5, -1.5]),
                         st.floats(-2.9, 0.9))) for _ in range(k)]
    for i in range(1, k - 1):
        if draw(st.integers(0, 3)) == 0:
            al[i] = draw(st.sampled_from([1, 2, 1.5, -3, -4, 3]))
    return {'al': al, 'cont': draw(st.booleans()),
            'h': [draw(st.sampled_from([1.0, 1e-3, 50.0, 0.2]))
                  for _ in range(k)],
            'scale': draw(st.sampled_from([1.0, 1e-24, 1e5])),
            'f': draw(st.lists(st.floats(-4, 3), min_size=k - 1,
                               max_size=k - 1)),
            't': draw(st.one_of(
                st.lists(st.floats(-3, 5), min_size=1, max_size=4),
                st.lists(st.floats(-3, 5), min_size=1, max_size=4),
                st.lists(st.floats(-3, 5), min_size=1, max_size=4),
                st.lists(st.floats(-3, 5), min_size=20, max_size=30))),
            'unit': draw(st.sampled_from([1.0, 1.0, 1e-7, 1e6])),
            'lst': draw(st.booleans()), 'k': draw(st.sampled_from(
                [4.0, 0.01, 1e10])), 'ct': draw(st.sampled_from([10.0, .5]))}


def forward(c, h, al, f, t):
    if c['lst']:
        h, al, f, t = list(h), list(al), list(f), list(t)
    r = as_array(call(at.psd_piecewise_to_adev, h, al, f, t), 'adev')
    require(r.shape == (len(t),), '%d taus, result shape %s', len(t), r.shape)
    return r


def psd_of(c):
    f = np.array(sorted(10.0 ** v for v in c['f'])) / c.get('unit', 1.0)
    al = np.array(c['al'], float)
    h = [c['h'][0] * c['scale']]
    for i in range(1, len(al)):
        if c['cont']:
            h.append(h[-1] * f[i - 1] ** (al[i - 1] - al[i]))
        else:
            h.append(c['h'][i] * h[0] * f[i - 1] ** (al[i - 1] - al[i]))
    return np.array(h), al, f, c.get('unit', 1.0) * np.array([10.0 ** v for v in c['t']])


def expected(h, al, f, t):
    e = np.concatenate(([0.0], f, [np.inf]))
    return np.array([np.sqrt(2 * sum(
        h[i] * (np.pi * x) ** (-al[i] - 1) *
        ref_psd.segment(np.pi * x * e[i], np.pi * x * e[i + 1], 2 - al[i])
        for i in range(len(h)))) for x in t])


@sub('C28', 'forward', psds(), 900, shards=8,
     rule='Allan deviation of 1-9 segment PSDs over wide frequency and tau '
          'ranges equals the Allan integral (Gauss-Legendre cells plus '
          'asymptotic tail) within 1e-4; linear in the PSD, scales with '
          'time, unaffected by splitting a segment; non-trivial = >=2 '
          'segments')
def _fwd(c, ev):
    h, al, f, t = psd_of(c)
    a = forward(c, h, al, f, t)
    want = expected(h, al, f, t)
    require(np.allclose(a, want, rtol=1e-4, atol=0), 'alpha=%s h=%s '
            'f_nodes=%s taus=%s: %s, integral %s', al, h, f, t, a, want)
    b = forward(c, h * c['k'], al, f, t)
    require(np.allclose(b, a * np.sqrt(c['k']), rtol=1e-6, atol=0),
            'PSD*%r: %s -> %s', c['k'], a, b)
    ct = c['ct']
    b = forward(c, h * ct ** (1 + al), al, f / ct, t * ct)
    require(np.allclose(b, a, rtol=1e-5, atol=0), 'time axis * %r: %s -> %s',
            ct, a, b)
    # split the last segment
    fs = (f[-1] if len(f) else 0.01) * 7.0
    b = forward(c, np.append(h, h[-1]), np.append(al, al[-1]),
                np.append(f, fs), t)
    require(np.allclose(b, a, rtol=1e-4, atol=0), 'splitting the last '
            'segment at %r: %s -> %s', fs, a, b)
    ev.nt(len(h) >= 2)
    ev.label('segments=%d' % len(h))


@sub('C28', 'round-trip', curves(1, kinds=('adev',)), 700, shards=2,
     rule='a single power law comes back from adev -> PSD -> adev at any '
          'tau within 1e-4; non-trivial = slope not 0')
def _rt(c, ev):
    a, t = curve(c)
    f, s, h, al = invert(c, a, t)
    tt = c['t0'] * np.array([1e-3, 0.5, 1.0, 40.0, 1e5])
    b = as_array(call(at.psd_piecewise_to_adev, h, al, [], tt), 'adev')
    want = a[0] * (tt / t[0]) ** (c['mu'][0] / 2)
    require(np.allclose(b, want, rtol=1e-4, atol=0), 'tau^%r: %s -> h=%s '
            'alpha=%s -> %s', c['mu'][0] / 2, want, h, al, b)
    ev.nt(c['mu'][0] != 0)
