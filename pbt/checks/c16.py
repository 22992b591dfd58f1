"""C16: real-time auto-AF mode."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..devs import rounding
from ..env import at
from .c15 import CLASSES, TAU0, Feeder, check_state, make


def af_sequence(ppd, n):
    """The documented grid: ppd log-spaced AFs per decade, rounded."""
    out, d = [], 0
    while True:
        for k in range(ppd):
            af = int(np.round(10.0 ** d * 10.0 ** (float(k) / ppd)))
            if 2 * af + 1 > n and af > 1:
                return out
            if af not in out:       # dense grids repeat small AFs
                out.append(af)
        d += 1


def active(obj, tau0):
    """AFs in use, read off the reported taus."""
    r = as_array(call(obj.taus), 'taus()') / float(tau0)
    require(np.all(np.abs(r - np.round(r)) <= 1e-9 * r),
            'taus() %s are not multiples of tau0=%r', obj.taus(), tau0)
    return [int(v) for v in np.round(r)]


@st.composite
def cases(draw):
    x = draw(gen.series(3, 60, 320, kinds=['white', 'rw', 'rr', 'sine',
                                           'ints', 'step', 'impulse',
                                           'plateau', 'heavy', 'lit']))
    n = gen.spec_len(x)
    return {'kind': draw(st.sampled_from(sorted(CLASSES))), 'x': x,
            'tau0': draw(st.sampled_from(TAU0)),
            'ppd': draw(st.sampled_from([None, 1, 2, 3, 4, 4, 5, 6, 7, 8, 10,
                                         12, 20, 37, 100])),
            'afs': draw(st.sampled_from([None, None, [1], [3], [1, 2, 4],
                                         [7, 2], []])),
            'feed': draw(st.sampled_from(['phase', 'freq', 'mixed'])),
            'split': draw(gen.uni(0, n))}


@sub('C16', 'auto-af', cases(), 2600, shards=7,
     rule='records fed one point at a time in auto-AF mode, ppd 1-100 or '
          'default, any afs argument (ignored); at prefixes around every '
          'AF activation the AF list equals the log grid of AFs with '
          '2*AF+1 <= points and every deviation equals the definition; '
          'non-trivial = >=3 AFs active at the end')
def _auto(c, ev):
    x = gen.expand(c['x'])
    kind, tau0 = c['kind'], c['tau0']
    kw = {'tau0': tau0, 'auto_afs': True}
    if c['afs'] is not None:
        kw['afs'] = list(c['afs'])
    if c['ppd'] is not None:
        kw['pts_per_decade'] = c['ppd']
    ppd = c['ppd'] or 4
    obj = make(kind, **kw)
    f = Feeder(obj, tau0)
    n = len(x)
    full = af_sequence(ppd, n + 2)
    marks = {k * m + j for m in full for k in (2, 3) for j in (0, 1, 2)}
    marks |= {1, 2, 3, n, n // 2}
    if n <= 24:
        marks |= set(range(n + 1))
    for i, v in enumerate(x):
        if c['feed'] == 'phase' or (c['feed'] == 'mixed' and i >= c['split']):
            f.phase(float(v))
        else:
            f.freq(float(v))
        if i + 1 not in marks and i + 1 != n:
            continue
        want = af_sequence(ppd, len(f.x))
        afs = active(obj, tau0)
        require(afs == want, 'after %d points with %d per decade: AFs %s, '
                'expected %s', len(f.x), ppd, afs, want)
        check_state(kind, obj, np.array(f.x), afs, tau0,
                    'auto-AF after %d points' % len(f.x))
    ev.nt(len(want) >= 3)
    ev.label(kind, 'ppd=%s' % c['ppd'])
    if c['afs'] is not None:
        ev.label('afs-given')


@sub('C16', 'auto-equals-fixed', cases(), 500, shards=2,
     rule='an auto-AF object against a fixed-AF object constructed with the '
          'final AF list and fed the same points: same taus and deviations; '
          'non-trivial = >=3 AFs')
def _same(c, ev):
    x = gen.expand(c['x'])
    kind, tau0 = c['kind'], c['tau0']
    a = make(kind, tau0=tau0, auto_afs=True, pts_per_decade=c['ppd'] or 4)
    for v in x:
        call(a.add_phase, float(v))
    afs = active(a, tau0)
    b = make(kind, tau0=tau0, afs=afs)
    for v in x:
        call(b.add_phase, float(v))
    u, w = as_array(a.devs(), 'devs'), as_array(b.devs(), 'devs')
    scale = 1.0 if kind == 'tdev' else as_array(a.taus(), 'taus')
    require(np.array_equal(a.taus(), b.taus()) and np.all(
        np.abs(u - w) * scale <= 1e-9 * w * scale + rounding(x, 64)),
        'auto-AF %s, fixed AFs %s (afs=%s)', u, w, afs)
    ev.nt(len(afs) >= 3)


@st.composite
def long_runs(draw):
    n = draw(st.one_of(gen.block_lengths(500, 20000),
                       gen.uni(400, 5000), gen.uni(5000, 30000)))
    return {'kind': draw(st.sampled_from(sorted(CLASSES))),
            'x': {'k': draw(st.sampled_from(['white', 'rw'])), 'n': n,
                  's': draw(gen.seeds), 'a': 1.0, 'o': 0.0, 'sl': 0.0},
            'tau0': draw(st.sampled_from(TAU0)),
            'ppd': draw(st.sampled_from([None, 1, 2, 4, 4, 5, 7, 10])),
            'marks': draw(st.lists(gen.uni(1, n), max_size=3))}


@sub('C16', 'long-auto', long_runs(), 120, shards=6,
     rule='400-30000 points fed one at a time in auto-AF mode: AF list and '
          'definition at up to 3 random prefixes and at the end; non-trivial '
          '= an averaging factor above 160 is active')
def _long(c, ev):
    x = gen.expand(c['x'])
    kind, tau0, ppd = c['kind'], c['tau0'], c['ppd'] or 4
    kw = {} if c['ppd'] is None else {'pts_per_decade': ppd}
    obj = make(kind, tau0=tau0, auto_afs=True, **kw)
    f = Feeder(obj, tau0)
    marks = set(c['marks']) | {len(x)}
    for i, v in enumerate(x):
        f.phase(float(v))
        if i + 1 in marks:
            want, afs = af_sequence(ppd, i + 1), active(obj, tau0)
            require(afs == want, 'after %d points with %d per decade: AFs '
                    '%s, expected %s', i + 1, ppd, afs, want)
            check_state(kind, obj, np.array(f.x), afs, tau0,
                        'auto-AF after %d points' % (i + 1))
    ev.nt(want[-1] > 160)
    ev.label(kind, 'ppd=%d' % ppd)
