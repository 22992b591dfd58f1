"""C12: a reported row depends on the data and that tau alone."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require
from .. import gen
from ..devs import (run_dev, rounding, ALL, max_len, errs, TIME_TYPE)
from ..env import at


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(ALL + ['gcodev']))
    x = draw(gen.series(8, max_len(fn), kinds=gen.KINDS[:-1]))
    n = gen.spec_len(x)
    mmax = max(2, n // 2)
    lst = draw(gen.ms(n, mmax=mmax, min_size=2, max_size=6))
    extra = draw(st.lists(gen.uni(1, n + 3), max_size=4))
    return {'fn': fn, 'x': x, 'rate': draw(gen.rates), 'm': lst,
            'perm': draw(st.permutations(lst + extra)),
            'pick': draw(gen.uni(0, len(lst) - 1)),
            'dt': draw(st.sampled_from(['phase', 'freq'])),
            'as': draw(st.sampled_from(['list', 'array']))}


def runner(c, x):
    def go(mlist):
        taus = gen.taus_of(mlist, c['rate'])
        if c['as'] == 'list':
            taus = list(taus)
        if c['fn'] == 'gcodev':
            def gcodev(d, **kw):
                return at.gcodev(d, x[::-1].copy(), **kw)
            return run_dev(gcodev, x, rate=c['rate'], data_type=c['dt'],
                           taus=taus)
        return run_dev(c['fn'], x, rate=c['rate'], data_type=c['dt'],
                       taus=taus)
    return go


def rows_of(c, r):
    if r is None:
        return {}
    out = {}
    e = errs(c['fn'], r)
    for i in range(len(r[0])):
        m = int(round(r[0][i] * float(c['rate'])))
        require(m not in out, '%s: tau %r reported twice', c['fn'], r[0][i])
        out[m] = (r[0][i], r[1][i], r[3][i]) + tuple(a[i] for a in e)
    return out


@sub('C12', 'per-tau', cases(), 7000, shards=7,
     rule='all 16 deviations: rows from a permuted list with duplicates and '
          'extra taus, and from a single tau, equal the rows from the plain '
          'list; non-trivial = at least two rows with non-zero deviation')
def _per(c, ev):
    x = gen.expand(c['x'])
    go = runner(c, x)
    base = rows_of(c, go(c['m']))
    perm = rows_of(c, go(list(c['perm']) + c['m'][:1]))
    one = rows_of(c, go([c['m'][c['pick']]]))
    rate = float(c['rate'])
    if c['dt'] == 'phase':
        fl = rounding(x, 16)
    else:
        p = np.cumsum(x - np.mean(x)) / rate
        fl = rounding(p, 16)
    want = set(c['m'])
    require({m for m in perm if m in want} == set(base),
            '%s: rows %s alone but %s in a longer list', c['fn'],
            sorted(base), sorted(perm))
    p = c['m'][c['pick']]
    require((p in one) == (p in base) and len(one) <= 1,
            '%s: m=%d alone gives %s, in a list %s', c['fn'], p,
            sorted(one), sorted(base))
    for other in (perm, one):
        for m, row in other.items():
            if m not in base:
                continue
            ref = base[m]
            f = fl if c['fn'] in TIME_TYPE else fl / ref[0]
            for j, (u, v) in enumerate(zip(row, ref)):
                require(u == v or (np.isnan(u) and np.isnan(v)) or
                        abs(u - v) <= 1e-10 * abs(v) + f,
                        '%s: row m=%d differs with the tau list: %s vs %s',
                        c['fn'], m, row, ref)
    ev.nt(sum(1 for r in base.values() if r[1] > 0) >= 2)
    ev.label(c['fn'])


@st.composite
def subsets(draw):
    fn = draw(st.sampled_from(ALL + ['gcodev', 'mtie', 'mtie', 'tierms',
                                     'oadev', 'mdev', 'totdev']))
    x = draw(gen.series(5, min(18, max_len(fn)),
                        kinds=['white', 'white', 'rw', 'ints', 'plateau',
                               'heavy', 'impulse', 'start', 'end']))
    return {'fn': fn, 'x': x, 'rate': draw(gen.rates),
            'dt': draw(st.sampled_from(['phase', 'phase', 'freq'])),
            'as': draw(st.sampled_from(['list', 'array'])),
            'seed': draw(gen.seeds)}


@sub('C12', 'subsets', subsets(), 2400, shards=6,
     rule='records of 5-18 points: the rows of every averaging factor asked '
          'for alone, against 10 random sub-lists of all factors (each row '
          'with different neighbours); non-trivial = at least two rows with '
          'non-zero deviation')
def _subsets(c, ev):
    x = gen.expand(c['x'])
    n = len(x)
    go = runner(c, x)
    alone = {}
    for m in range(1, n + 1):
        alone.update(rows_of(c, go([m])))
    p = x if c['dt'] == 'phase' else \
        np.cumsum(x - np.mean(x)) / float(c['rate'])
    fl = rounding(p, 16)
    rs = np.random.RandomState(c['seed'])
    for _ in range(10):
        k = rs.randint(2, 5)
        lst = [int(v) for v in rs.choice(np.arange(1, n + 1), min(k, n),
                                         replace=False)]
        rows = rows_of(c, go(lst))
        require(set(rows) == set(alone) & set(lst), '%s: m=%s gives rows %s, '
                'alone %s are computable', c['fn'], lst, sorted(rows),
                sorted(alone))
        for m, row in rows.items():
            f = fl if c['fn'] in TIME_TYPE else fl / row[0]
            for u, v in zip(row, alone[m]):
                require(u == v or (np.isnan(u) and np.isnan(v)) or
                        abs(u - v) <= 1e-10 * abs(v) + f,
                        '%s: row m=%d in the request %s is %s, alone %s',
                        c['fn'], m, lst, row, alone[m])
    ev.nt(sum(1 for r in alone.values() if r[1] > 0) >= 2)
    ev.label(c['fn'])


@st.composite
def longs(draw):
    fn = draw(st.sampled_from(ALL + ['gcodev']))
    n, ms = draw(gen.sizes(fn))
    near = [v for m in ms for v in (m - 1, m + 1, 2 * m, m // 2) if v > 0]
    if fn in gen.SLOW_DEVS and n > 400 or fn == 'pdev':
        near = [v for v in near if v <= max(ms)]
    if fn == 'mtie':
        near = [v for v in near if v * n <= 3 * 10 ** 7]
    extra = draw(st.lists(st.sampled_from(near or ms), max_size=2,
                          unique=True))
    lst = ms + [v for v in extra if v not in ms]
    return {'fn': fn, 'x': draw(gen.series(n=n, kinds=gen.LONG_KINDS)),
            'rate': draw(gen.rates), 'm': lst,
            'perm': draw(st.permutations(lst)),
            'pick': draw(gen.uni(0, len(lst) - 1)),
            'dt': draw(st.sampled_from(['phase', 'freq'])),
            'as': draw(st.sampled_from(['list', 'array']))}


@sub('C12', 'long', longs(), 700, shards=8,
     rule='per-tau on records of hundreds to 100000 points and at the '
          'longest averaging times; non-trivial = as there')
def _long(c, ev):
    _per(c, ev)
