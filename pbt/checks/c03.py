"""C03: total deviations TOTDEV, MTOTDEV, TTOTDEV, HTOTDEV."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call
from .. import gen, ref
from ..devs import run_dev, check_rows, rounding
from ..env import at
from .c01 import resolve, HUGE_RULE

RULE = ('records of 13 kinds, amplitudes, offsets, slopes; boundary-biased '
        'averaging factors (3m=N, N/2, N-1..) or keywords; non-trivial = a '
        'reported row with m>=2 and non-zero deviation')


def floor(x):
    return rounding(x, 512.0)


@st.composite
def cases(draw, fn, lo, hi, max_m=3, kws=('octave', None, 'decade'),
          kinds=None, big=None):
    x = draw(gen.series(lo, hi, big, kinds=kinds))
    n = gen.spec_len(x)
    c = {'fn': fn, 'x': x, 'rate': draw(gen.rates)}
    if draw(st.integers(0, 4)) == 0:
        c['kw'] = draw(st.sampled_from(kws))
    else:
        c['m'] = draw(gen.ms(n, max_size=max_m))
    return c


@sub('C03', 'totdev', cases('totdev', 4, 80, 6, ('all', 'octave', None), big=400),
     4000, shards=3, rule=RULE)
def _totdev(c, ev):
    x = gen.expand(c['x'])
    n = len(x)
    mlist, taus = resolve(c, n)
    rows = [(m,) + tuple(ref.totdev(x, m)) for m in mlist if m <= n - 1]
    # terms are the N-2 interior points, whatever m
    got = run_dev('totdev', x, rate=c['rate'], taus=taus)
    check_rows('totdev', got, rows, c['rate'], floor(x),
               err_n=lambda m, k: n - 2)
    ev.nt(any(r[0] > 1 and r[1] > 0 for r in rows))
    ev.label(*['m>N/2' for r in rows if r[0] > n / 2.0][:1])


@sub('C03', 'mtotdev', cases('mtotdev', 4, 34, big=90), 2600, shards=6, rule=RULE)
def _mtotdev(c, ev):
    x = gen.expand(c['x'])
    n = len(x)
    mlist, taus = resolve(c, n)
    rows = [(m,) + tuple(ref.mtotdev(x, m)) for m in mlist if 3 * m <= n]
    got = run_dev('mtotdev', x, rate=c['rate'], taus=taus)
    check_rows('mtotdev', got, rows, c['rate'], floor(x),
               err_n=lambda m, k: k)
    live = [r for r in rows if r[2] > 1]
    ev.nt(any(r[0] > 1 and r[1] > 0 for r in live))
    ev.label(*['3m==N' for r in rows if 3 * r[0] == n][:1])
    ev.label(*['odd-m' for r in live if r[0] % 2][:1])
    ev.label(*['even-m' for r in live if r[0] % 2 == 0][:1])
    # TTOTDEV: same rows, in seconds
    tt = run_dev('ttotdev', x, rate=c['rate'], taus=taus)
    require((tt is None) == (got is None), 'ttotdev/mtotdev rows differ')
    if tt is not None:
        require(len(tt[0]) == len(got[0]) and np.allclose(tt[0], got[0]),
                'ttotdev taus %s, mtotdev %s', tt[0], got[0])
        want = got[0] * got[1] / np.sqrt(3.0)
        require(np.all(np.abs(tt[1] - want) <= 1e-9 * np.abs(want)),
                'ttotdev %s != tau*mtotdev/sqrt(3) %s', tt[1], want)
        require(np.array_equal(tt[3], got[3]), 'ttotdev n')
        require(np.all(np.abs(tt[2] - want / np.sqrt(got[3]))
                       <= 1e-9 * np.abs(want)), 'ttotdev error column')


@sub('C03', 'htotdev', cases('htotdev', 5, 34, big=90), 2600, shards=6, rule=RULE)
def _htotdev(c, ev):
    x = gen.expand(c['x'])
    rate = float(c['rate'])
    n = len(x)
    nf = n - 1
    y = np.diff(x) * rate
    c2 = dict(c)
    mlist, taus = resolve(c2, nf if 'kw' in c else n)
    rows = []
    for m in mlist:
        if 3 * m > nf or m >= nf:
            continue
        if m == 1:
            v, k = ref.ohdev(x, 1)
        else:
            v, k = ref.htotdev(y, m)
            v = v * m / rate
        rows.append((m, v, k))
    got = run_dev('htotdev', x, rate=c['rate'], taus=taus)
    fl = floor(x)
    check_rows('htotdev', got, rows, c['rate'], lambda m: fl * (1 + m),
               err_n=lambda m, k: k)
    live = [r for r in rows if r[2] > 1]
    ev.nt(any(r[0] > 1 and r[1] > 0 for r in live))
    ev.label(*['m==1' for r in live if r[0] == 1])
    ev.label(*['3m==Nf' for r in rows if 3 * r[0] == nf][:1])


@sub('C03', 'mtotdev-long', cases('mtotdev', 90, 160, 2, big=300), 100,
     shards=4, rule=RULE + '; records of 90-300 points')
def _mtotlong(c, ev):
    _mtotdev(c, ev)


@sub('C03', 'htotdev-long', cases('htotdev', 90, 160, 2, big=300), 100,
     shards=4, rule=RULE + '; records of 90-300 points')
def _htotlong(c, ev):
    _htotdev(c, ev)


@sub('C03', 'many-rows', st.builds(
    lambda fn, x, rate: {'fn': fn, 'x': x, 'rate': rate, 'kw': 'all'},
    st.sampled_from(['mtotdev', 'htotdev']),
    gen.series(78, 96, kinds=gen.GENERIC), gen.rates), 30, shards=6,
     rule=RULE + '; every averaging factor of a 78-96 point record')
def _manyrows(c, ev):
    {'mtotdev': _mtotdev, 'htotdev': _htotdev}[c['fn']](c, ev)


EXT = ('; either 200-2500 points and m up to 5, or m of 30-400 on a record of '
       '3m to 3m+8 points')


@sub('C03', 'mtotdev-extremes', gen.extremes(3, 5, (200, 2500), (30, 400)),
     160, shards=4, rule=RULE + EXT)
def _mtotext(c, ev):
    _mtotdev(c, ev)


@sub('C03', 'htotdev-extremes', gen.extremes(3, 5, (200, 2500), (30, 400)),
     160, shards=4, rule=RULE + EXT)
def _htotext(c, ev):
    _htotdev(c, ev)


@sub('C03', 'totdev-sparse-huge', gen.huge_sparse(), 40, shards=4,
     rule=HUGE_RULE)
def _sparse(c, ev):
    _totdev(c, ev)
    ev.nt()


@sub('C03', 'totdev-long', cases('totdev', 400, 2000, 4, big=200000,
                                 kinds=['white', 'rw', 'heavy', 'end',
                                        'start']), 600,
     shards=4, rule=RULE + '; records of 400-200000 points against a '
                           'vectorised reflection')
def _totlong(c, ev):
    x = ref.ld(gen.expand(c['x']))
    n = len(x)
    mlist, taus = resolve(c, n)
    e = np.concatenate((2 * x[0] - x[:0:-1], x, 2 * x[-1] - x[-2::-1]))
    i = np.arange(1, n - 1) + (n - 1)
    rows = []
    for m in mlist:
        v = e[i - m] - 2 * e[i] + e[i + m]
        rows.append((m, np.sqrt(np.mean(v * v) / 2), n - 2))
    got = run_dev('totdev', np.array(x, dtype=float), rate=c['rate'],
                  taus=taus)
    check_rows('totdev', got, rows, c['rate'],
               floor(np.array(x, dtype=float)), err_n=lambda m, k: n - 2)
    ev.nt(any(r[0] > 1 and r[1] > 0 for r in rows))


@st.composite
def helper(draw):
    x = draw(gen.series(6, 36))
    n = gen.spec_len(x)
    return {'x': x, 'm': draw(gen.uni(2, max(2, n // 3))),
            'rate': draw(gen.rates)}


@sub('C03', 'exported-helpers', helper(), 1500, shards=4,
     rule='calc_mtotdev_phase / calc_htotdev_freq called directly')
def _helpers(c, ev):
    x, m, rate = gen.expand(c['x']), c['m'], float(c['rate'])
    v, k = ref.mtotdev(x, m)
    w, _ = ref.htotdev(x, m)
    if k < 1:
        return
    r = call(at.calc_mtotdev_phase, x, c['rate'], m)
    require(isinstance(r, tuple) and len(r) == 3, 'calc_mtotdev_phase %r', r)
    require(r[2] == k, 'calc_mtotdev_phase n=%r expected %d', r[2], k)
    require(abs(r[0] * m / rate - float(v)) <= 1e-8 * float(v) + floor(x),
            'calc_mtotdev_phase m=%d: %r expected %r', m, r[0],
            float(v) / m * rate)
    require(abs(r[1] - r[0] / np.sqrt(k)) <= 1e-9 * r[0], 'error column')
    r = call(at.calc_htotdev_freq, x, m)
    require(isinstance(r, tuple) and len(r) == 3, 'calc_htotdev_freq %r', r)
    require(r[2] == k, 'calc_htotdev_freq n=%r expected %d', r[2], k)
    require(abs(r[0] - float(w)) <= 1e-8 * float(w) + floor(x),
            'calc_htotdev_freq m=%d: %r expected %r', m, r[0], float(w))
    require(abs(r[1] - r[0] / np.sqrt(k)) <= 1e-9 * r[0], 'error column')
    ev.nt(v > 0)
    ev.label('odd' if m % 2 else 'even')


@st.composite
def tdm(draw):
    x = draw(gen.series(6, 60))
    return {'x': x, 'rate': draw(gen.rates)}


@sub('C03', 'totdev-interior', tdm(), 1000,
     rule='at m=1 TOTDEV uses no reflected point: it equals OADEV; TOTDEV is '
          'unchanged by time reversal')
def _interior(c, ev):
    x, rate = gen.expand(c['x']), c['rate']
    t = [1.0 / rate]
    a = run_dev('totdev', x, rate=rate, taus=t)
    b = run_dev('oadev', x, rate=rate, taus=t)
    require((a is None) == (b is None), 'totdev/oadev rows')
    if a is not None:
        require(abs(a[1][0] - b[1][0]) <= 1e-8 * b[1][0] + floor(x) * rate,
                'totdev %r oadev %r at tau0', a[1][0], b[1][0])
        ev.nt(b[1][0] > 0)
    f = run_dev('totdev', x, rate=rate, taus='all')
    g = run_dev('totdev', x[::-1].copy(), rate=rate, taus='all')
    require((f is None) == (g is None), 'totdev reversal rows')
    if f is not None:
        require(np.all(np.abs(f[1] - g[1]) * f[0]
                       <= 1e-8 * f[1] * f[0] + floor(x)),
                'totdev changes under time reversal: %s %s', f[1], g[1])
