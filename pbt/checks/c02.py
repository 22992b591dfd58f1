"""C02: MDEV, TDEV and PDEV equal their published definitions."""
import numpy as np

from ..core import sub, require
from .. import gen, ref
from ..devs import run_dev, rounding
from .c01 import cases, definition, RULE, HUGE_RULE

SQ3 = 3.0 ** 0.5


def tdev(x, m):
    v, n = ref.mdev(x, m)
    return v / np.sqrt(ref.LD(3)), n


FNS = {'mdev': ref.mdev, 'pdev': ref.pdev}


def floor(x):
    return rounding(x, 256.0)


@sub('C02', 'mdev-pdev', cases(3, 48, fns=('mdev', 'pdev')), 8000, shards=4,
     rule=RULE)
def _mp(c, ev):
    definition(c, ev, FNS, floor)


@sub('C02', 'mdev-long', cases(200, 500, 3000, fns=('mdev',),
                               kinds=gen.GENERIC), 1500, shards=3,
     rule=RULE + '; records of 200-3000 points')
def _long(c, ev):
    definition(c, ev, FNS, floor)


@sub('C02', 'mdev-huge', cases(8000, 20000, 250000, fns=('mdev',),
                               kinds=['white', 'rw', 'end'], max_m=4), 200,
     shards=4, rule=RULE + '; records of 8000-250000 points')
def _huge(c, ev):
    definition(c, ev, FNS, rounding)


@sub('C02', 'pdev-long', cases(60, 200, fns=('pdev',), max_m=3,
                               kinds=gen.GENERIC), 400, shards=2,
     rule=RULE + '; records of 60-200 points')
def _plong(c, ev):
    if c.get('kw') == 'all' and gen.spec_len(c['x']) > 110:
        c['kw'] = 'octave'
    definition(c, ev, FNS, floor)


@sub('C02', 'pdev-large-m', cases(300, 700, 1200, fns=('pdev',), max_m=2,
                                  kinds=gen.GENERIC), 160, shards=4,
     rule=RULE + '; records of 300-1200 points, averaging factors to N/2')
def _plarge(c, ev):
    if 'kw' in c:
        c['kw'] = 'decade'
    definition(c, ev, FNS, floor)


@sub('C02', 'pdev-extremes', gen.extremes(2, 6, (1000, 8000), (300, 3000)),
     240, shards=4, rule=RULE + '; either 1000-8000 points and m up to 6, or m '
                                'of 300-3000 on a record of 2m to 2m+8 points')
def _pext(c, ev):
    c['fn'] = 'pdev'
    definition(c, ev, FNS, floor)


@sub('C02', 'sparse-huge', gen.huge_sparse(), 150, shards=4, rule=HUGE_RULE)
def _sparse(c, ev):
    c['fn'] = 'mdev'
    definition(c, ev, FNS, rounding)


@sub('C02', 'tdev-long', cases(400, 3000, 70000, fns=('tdev',),
                               kinds=['white', 'rw', 'end'], max_m=4), 300,
     shards=3, rule=RULE + '; TDEV on records of 400-70000 points')
def _tlong(c, ev):
    _tdev(c, ev)


@sub('C02', 'tdev', cases(4, 48, 400, fns=('tdev',)), 4000, shards=2,
     rule=RULE + '; TDEV = tau*MDEV/sqrt(3), in seconds, error dev/sqrt(n)')
def _tdev(c, ev):
    # TDEV*tau is not a phase: compare in units of TDEV itself
    x = gen.expand(c['x'])
    rows, got = None, run_dev('tdev', x, rate=c['rate'], taus=_taus(c))
    mgot = run_dev('mdev', x, rate=c['rate'], taus=_taus(c))
    from .c01 import resolve
    mlist, _ = resolve(c, len(x))
    rows = [(m,) + tuple(tdev(x, m)) for m in mlist]
    rows = [r for r in rows if r[2] > 1]
    if not rows:
        require(got is None, 'tdev reported rows where none has two terms')
        return
    require(got is not None, 'tdev declined, m=%s', [r[0] for r in rows])
    t, d, e, n = got
    require(len(t) == len(rows), 'tdev: %d rows, expected %d', len(t),
            len(rows))
    for i, (m, v, k) in enumerate(rows):
        v = float(v)
        require(abs(t[i] * c['rate'] - m) < 1e-6 * m, 'tdev tau %r for m=%d',
                t[i], m)
        require(n[i] == k, 'tdev m=%d n=%r expected %d', m, n[i], k)
        require(abs(d[i] - v) <= 1e-8 * v + floor(x),
                'tdev m=%d rate=%r: %r, tau*mdev/sqrt(3)=%r', m, c['rate'],
                d[i], v)
        require(abs(e[i] - d[i] / np.sqrt(k)) <= 1e-9 * d[i],
                'tdev m=%d error %r', m, e[i])
        ev.nt(v > 0)
    if mgot is not None:
        require(np.allclose(d, t * mgot[1] / SQ3, rtol=1e-9, atol=floor(x)),
                'tdev is not tau*mdev/sqrt(3)')


def _taus(c):
    from .c01 import resolve
    return resolve(c, gen.spec_len(c['x']))[1]


@sub('C02', 'm1-coincides', cases(4, 60, 300, fns=('oadev',)), 1000,
     rule='at tau0 MDEV = OADEV = PDEV; same record, same tau')
def _m1(c, ev):
    x = gen.expand(c['x'])
    taus = [1.0 / c['rate']]
    a = run_dev('oadev', x, rate=c['rate'], taus=taus)
    for f in ('mdev', 'pdev'):
        b = run_dev(f, x, rate=c['rate'], taus=taus)
        require((a is None) == (b is None), 'oadev/%s disagree on rows', f)
        if a is None:
            continue
        tol = 1e-8 * a[1] + floor(x) * c['rate']
        require(np.all(np.abs(a[1] - b[1]) <= tol), 'm=1: oadev %r %s %r',
                a[1], f, b[1])
        ev.nt(a[1][0] > 0)
