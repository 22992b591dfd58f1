"""C05: MTIE and TIE rms are exact; MTIE grows with tau and bounds TIE rms."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call
from .. import gen, ref
from ..devs import run_dev, check_rows, rounding
from ..env import at
from .c01 import cases, resolve, HUGE_RULE

RULE = ('records with ties, plateaus, steps, impulses, ramps and noise; '
        'boundary-biased averaging factors or keywords; non-trivial = '
        'non-zero MTIE at some m>=2')
WIN_KINDS = ['plateau', 'lit', 'ints', 'step', 'impulse', 'ramp', 'white',
             'rw', 'heavy', 'sine', 'alt', 'const', 'end', 'start', 'tiled']


@sub('C05', 'mtie', cases(3, 60, 300, fns=('mtie',), kinds=WIN_KINDS), 5000,
     shards=4, rule=RULE)
def _mtie(c, ev):
    x = gen.expand(c['x'])
    mlist, taus = resolve(c, len(x))
    rows = [(m,) + tuple(ref.mtie(x, m)) for m in mlist]
    got = run_dev('mtie', x, rate=c['rate'], taus=taus)
    # exact: max - min of stored values; the statistic is in phase units
    _rows_phase('mtie', got, rows, c['rate'], 1e-13, rounding(x, 4),
                err=True)
    ev.nt(any(r[0] > 1 and r[1] > 0 and r[2] > 1 for r in rows))
    ev.label(*['m=N-2' for r in rows if r[2] == 2][:1])


def _rows_phase(name, got, rows, rate, rtol, floor, err):
    rows = [r for r in rows if r[2] > 1]
    if not rows:
        require(got is None, '%s reported rows where none has two terms',
                name)
        return
    require(got is not None, '%s declined m=%s', name, [r[0] for r in rows])
    t, d, e, n = got
    want = [r[0] / float(rate) for r in rows]
    require(len(t) == len(rows) and np.allclose(t, want, rtol=1e-9, atol=0),
            '%s taus %s expected %s', name, t.tolist(), want)
    for i, (m, v, k) in enumerate(rows):
        v = float(v)
        require(n[i] == k, '%s m=%d n=%r expected %d', name, m, n[i], k)
        require(abs(d[i] - v) <= rtol * v + floor,
                '%s m=%d: %r, definition gives %r', name, m, float(d[i]), v)
        if err:
            require(abs(e[i] - d[i] / np.sqrt(k)) <= 1e-9 * d[i],
                    '%s m=%d error %r expected dev/sqrt(%d)', name, m,
                    float(e[i]), k)


@sub('C05', 'tierms', cases(3, 60, 300, fns=('tierms',), kinds=WIN_KINDS),
     4000, shards=3, rule=RULE)
def _tierms(c, ev):
    x = gen.expand(c['x'])
    mlist, taus = resolve(c, len(x))
    rows = [(m,) + tuple(ref.tierms(x, m)) for m in mlist]
    got = run_dev('tierms', x, rate=c['rate'], taus=taus)
    _rows_phase('tierms', got, rows, c['rate'], 1e-9, rounding(x, 4),
                err=False)
    ev.nt(any(r[0] > 1 and r[1] > 0 and r[2] > 1 for r in rows))


@sub('C05', 'sparse-huge', gen.huge_sparse(), 40, shards=4, rule=HUGE_RULE)
def _sparse(c, ev):
    c['m'] = [min(m, 9) for m in c['m']]
    _mtie(c, ev)
    _tierms(c, ev)
    ev.nt()


@st.composite
def mono(draw):
    return {'x': draw(gen.series(4, 120, 1500, kinds=WIN_KINDS)),
            'rate': draw(gen.rates)}


@sub('C05', 'order-relations', mono(), 1200, shards=2,
     rule='all averaging factors at once: MTIE non-decreasing, TIE rms <= '
          'MTIE, MTIE <= peak-to-peak, both unchanged by sign and time '
          'reversal; non-trivial = non-constant record')
def _mono(c, ev):
    x, rate = gen.expand(c['x']), c['rate']
    n = len(x)
    kw = 'all' if n <= 130 else 'octave'
    a = run_dev('mtie', x, rate=rate, taus=kw)
    b = run_dev('tierms', x, rate=rate, taus=kw)
    require(a is not None and b is not None, 'declined N=%d', n)
    require(len(a[0]) == len(b[0]), 'mtie and tierms rows differ')
    if kw == 'all':
        require(len(a[0]) == n - 2, 'mtie: %d rows for N=%d', len(a[0]), n)
    fl = rounding(x, 8)
    require(np.all(np.diff(a[1]) >= -fl), 'MTIE decreases: %s', a[1])
    require(np.all(b[1] <= a[1] * (1 + 1e-9) + fl), 'TIErms %s > MTIE %s',
            b[1], a[1])
    pp = np.max(x) - np.min(x)
    require(np.all(a[1] <= pp + fl), 'MTIE exceeds peak-to-peak')
    for y in (-x, x[::-1].copy()):
        p = run_dev('mtie', y, rate=rate, taus=kw)
        q = run_dev('tierms', y, rate=rate, taus=kw)
        require(p is not None and q is not None, 'declined transformed data')
        require(np.all(np.abs(p[1] - a[1]) <= fl), 'mtie changed: %s %s',
                p[1], a[1])
        require(np.all(np.abs(q[1] - b[1]) <= 1e-9 * b[1] + fl),
                'tierms changed: %s %s', q[1], b[1])
    ev.nt(pp > 0)
    ev.label(kw)


@sub('C05', 'long', cases(400, 2000, 20000, fns=('mtie', 'tierms'),
                          kinds=['rw', 'white', 'plateau', 'sine', 'end',
                                 'start', 'end'], max_m=3),
     1500, shards=6, rule='records of 400-20000 points against a sparse-table '
                         'window maximum')
def _long(c, ev):
    x = gen.expand(c['x'])
    if c.get('kw') == 'all':
        c['kw'] = 'octave'
    mlist, taus = resolve(c, len(x))
    if len(x) > 3000 and 'm' in c:
        # the library materialises (N-m) windows lazily; keep m moderate
        c['m'] = [1 + m % 200 for m in c['m']]
        mlist, taus = resolve(c, len(x))
    elif len(x) > 3000:
        mlist = [m for m in mlist if m <= 256]
        taus = gen.taus_of(mlist, c['rate'])
    rows = []
    for m in mlist:
        if c['fn'] == 'tierms':
            rows.append((m,) + tuple(ref.tierms(x, m)))
        else:
            hi, lo, w = x, x, 1
            while w < m + 1:
                s = min(w, m + 1 - w)
                hi = np.maximum(hi[:len(hi) - s], hi[s:])
                lo = np.minimum(lo[:len(lo) - s], lo[s:])
                w += s
            rows.append((m, float(np.max(hi - lo)), len(x) - m))
    got = run_dev(c['fn'], x, rate=c['rate'], taus=taus)
    _rows_phase(c['fn'], got, rows, c['rate'], 1e-9, rounding(x, 4),
                err=(c['fn'] == 'mtie'))
    ev.nt(any(r[1] > 0 for r in rows))


def window_extent(x, w):
    """largest and smallest value of every window of w points."""
    hi, lo, k = x, x, 1
    while k < w:
        s = min(k, w - k)
        hi = np.maximum(hi[:len(hi) - s], hi[s:])
        lo = np.minimum(lo[:len(lo) - s], lo[s:])
        k += s
    return hi, lo


@st.composite
def wides(draw):
    n = draw(st.one_of(gen.block_lengths(3000, 150000),
                       gen.uni(3000, 30000)))
    top = max(1, min(n - 2, 120000000 // n))
    near = [k for k in (100, 128, 256, 400, 500, 512, 800, 1000, 1024, 2048,
                        4096, 8192) if k < top]
    m = draw(st.lists(st.one_of(
        gen.uni(1, top), gen.uni(max(1, n - 60), n - 2),
        st.builds(lambda k, d: k + d, st.sampled_from(near or [1]),
                  st.integers(0, 3))), min_size=1, max_size=2, unique=True))
    return {'x': draw(gen.series(n=n, kinds=['rw', 'white', 'plateau', 'sine',
                                             'end', 'start', 'impulse',
                                             'tiled'])),
            'm': m, 'fn': draw(st.sampled_from(['mtie', 'mtie', 'tierms'])),
            'rate': draw(gen.rates)}


@sub('C05', 'wide', wides(), 250, shards=6,
     rule='3000-150000 points and windows of up to tens of thousands of '
          'points, or nearly the whole record; non-trivial = non-zero row')
def _wide(c, ev):
    x = gen.expand(c['x'])
    n = len(x)
    rows = []
    for m in sorted(c['m']):
        if c['fn'] == 'tierms':
            rows.append((m,) + tuple(ref.tierms(x, m)))
        else:
            hi, lo = window_extent(x, m + 1)
            rows.append((m, float(np.max(hi - lo)), n - m))
    got = run_dev(c['fn'], x, rate=c['rate'],
                  taus=gen.taus_of(sorted(c['m']), c['rate']))
    _rows_phase(c['fn'], got, rows, c['rate'], 1e-9, rounding(x, 4),
                err=(c['fn'] == 'mtie'))
    ev.nt(any(r[1] > 0 for r in rows))
    ev.label(c['fn'])


@st.composite
def binaries(draw):
    n = draw(st.one_of(gen.lengths(4, 80, 700),
                       st.builds(lambda k, d: 2 ** k + d, st.integers(2, 10),
                                 st.integers(0, 2))))
    return {'x': draw(gen.series(n=n, kinds=WIN_KINDS)),
            'form': draw(st.sampled_from(['array', 'list']))}


@sub('C05', 'binary', binaries(), 1000, shards=2,
     rule='mtie_phase_fast: row k is the largest peak-to-peak over the '
          'windows of 2^(k+1) points of the first 2^floor(log2 N) points, '
          'with their number; non-trivial = a non-zero row of k>=1')
def _binary(c, ev):
    x = gen.expand(c['x'])
    arg = x.tolist() if c['form'] == 'list' else x
    t, d, e, n = call(at.mtie_phase_fast, arg)
    size = 2 ** int(np.log2(len(x)))
    y = x[:size]
    want = []
    for w in [2 ** k for k in range(1, 40) if 2 ** k < size]:
        hi, lo = window_extent(y, w)
        want.append((w, float(np.max(hi - lo)), size - w + 1))
    require(len(t) == len(d) == len(n) == len(want), '%d points: %d rows, '
            'expected %d', len(x), len(d), len(want))
    for i, (w, v, k) in enumerate(want):
        require(n[i] == k and abs(d[i] - v) <= 1e-9 * v + rounding(y, 4),
                'window of %d points: %r over %r windows, expected %r over '
                '%d', w, float(d[i]), n[i], v, k)
    ev.nt(len(want) > 1 and want[1][1] > 0)
