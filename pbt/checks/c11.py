"""C11: selection of averaging times."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..devs import run_dev, ALL, max_len, expected_rows, n_terms
from ..env import at

JUNK = [0.0, -1.0, -3.7, float('nan'), float('inf'), -float('inf'), 1e300,
        1e-300, -0.0]


@st.composite
def tau_requests(draw, n, rate, max_size=10):
    """-> list of [kind, m, delta]; delta within the rounding basin of m."""
    out = []
    for _ in range(draw(gen.uni(1, max_size))):
        k = draw(st.integers(0, 9))
        if k == 0:
            out.append(['junk', draw(gen.uni(0, len(JUNK) - 1)), 0.0])
        elif k == 1:
            out.append(['m', draw(gen.uni(n, 3 * n)), 0.0])
        elif k == 2:
            out.append(['m', 0, draw(st.sampled_from([0.1, 0.4, -0.3]))])
        else:
            d = draw(st.sampled_from([0.0, 0.0, 0.0, 0.3, -0.3, 0.45,
                                      -0.45, 1e-9, -1e-9]))
            out.append(['m', draw(st.one_of(
                gen.uni(1, max(1, n // 3)), gen.uni(1, n + 1))), d])
    return out


def build(req, rate):
    vals, mset = [], set()
    for kind, m, d in req:
        if kind == 'junk':
            vals.append(JUNK[m])
        else:
            vals.append((m + d) / float(rate))
            mset.add(m)
    return vals, sorted(mset)


@st.composite
def gcases(draw):
    n = draw(gen.lengths(2, 60, 3000))
    rate = draw(gen.rates)
    return {'n': n, 'rate': rate, 'req': draw(tau_requests(n, rate)),
            'as': draw(st.sampled_from(['list', 'array', 'keyword'])),
            'kw': draw(st.sampled_from([None, 'all', 'octave', 'decade',
                                        'empty', 'log10'])),
            'even': draw(st.booleans()),
            'maxm': draw(st.sampled_from([None, None, 'third', 'half',
                                          'one'])),
            'arr': draw(st.booleans()), 'v': draw(st.booleans())}


def gen_call(c, data, taus):
    kw = {}
    n = c['n']
    if c['even']:
        kw['even'] = True
    if c['maxm'] == 'third':
        kw['maximum_m'] = n / 3.0
    elif c['maxm'] == 'half':
        kw['maximum_m'] = n // 2
    elif c['maxm'] == 'one':
        kw['maximum_m'] = 1
    if c.get('v'):
        kw['v'] = True
    r = call(at.tau_generator, data, c['rate'], taus, **kw)
    require(isinstance(r, tuple) and len(r) == 3, 'tau_generator -> %r', r)
    return r, kw.get('maximum_m', n)


@sub('C11', 'tau-generator', gcases(), 9000, shards=4,
     rule='tau requests as list, array or keyword with duplicates, disorder, '
          'off-grid values, zero/negative/NaN/inf/too-large values; returned '
          'averaging factors = sorted unique round(tau*rate) in (0,N) within '
          'the limits, verbose or not; non-trivial = at least two factors survive')
def _gen(c, ev):
    n, rate = c['n'], float(c['rate'])
    data = np.arange(n, dtype=float) ** 2
    if c['as'] == 'keyword':
        taus = [] if c['kw'] == 'empty' else c['kw']
        kw = None if c['kw'] == 'empty' else c['kw']
        if kw == 'log10':
            top = math.log10(n)
            k = int(10 * top)
            want = None
        else:
            want = gen.keyword_ms(kw, n)
    else:
        vals, want = build(c['req'], c['rate'])
        taus = np.array(vals) if c['as'] == 'array' else vals
    (d, m, t), lim = gen_call(c, data if c['arr'] else list(data), taus)
    d, m, t = as_array(d, 'data'), as_array(m, 'm'), as_array(t, 'taus')
    require(np.array_equal(d, data), 'tau_generator changed the data')
    if want is None:
        _log10(c, m, t, rate, n, lim, k, ev)
        return
    want = [k for k in want if 0 < k < n and k <= lim and
            not (c['even'] and k % 2)]
    require(m.tolist() == want, 'tau_generator(N=%d, rate=%r, taus=%r, '
            'even=%s, limit=%s): m=%s, expected %s', n, c['rate'], taus,
            c['even'], lim, m.tolist(), want)
    require(t.shape == m.shape and np.allclose(t * rate, m, rtol=1e-12,
                                               atol=0),
            'taus %s are not m/rate', t.tolist())
    ev.nt(len(want) >= 2)
    ev.label(c['as'] if c['as'] != 'keyword' else 'kw=%s' % c['kw'])
    if not want:
        ev.label('empty')


def _log10(c, m, t, rate, n, lim, k, ev):
    """'approx. 10 points per decade', m=1 first."""
    ev.label('kw=log10')
    require(np.all(np.diff(m) > 0) and np.all((m > 0) & (m < n)) and
            np.all(m <= lim) and np.all(m == np.round(m)) and
            (not c['even'] or np.all(m % 2 == 0)), 'log10: m=%s', m)
    require(t.shape == m.shape and np.allclose(t * rate, m, rtol=1e-12,
                                               atol=0), 'taus != m/rate')
    if c['even'] or lim < n or n < 20:
        return
    require(m[0] == 1 and m[-1] >= 0.6 * n, 'log10 does not span 1..N: %s',
            m)
    big = m[m >= 10]
    if len(big) > 2:
        r = big[1:] / big[:-1]
        # 10..~12 points a decade, wider only by rounding to integers
        require(np.all(r < 1.45), 'log10 leaves holes: %s', m)
    for lo in (10, 100):
        if n > 11 * lo:
            cnt = np.sum((m >= lo) & (m < 10 * lo))
            require(7 <= cnt <= 13, 'log10: %d points in decade %d', cnt, lo)
    ev.nt(len(m) >= 5)


@st.composite
def many(draw):
    n = draw(st.one_of(gen.uni(50, 1200), gen.block_lengths(50, 6000)))
    return {'n': n, 'rate': draw(gen.rates), 's': draw(gen.seeds),
            'count': draw(gen.uni(20, 1500)),
            'top': draw(st.sampled_from([0.1, 0.5, 1.0, 1.5])),
            'order': draw(st.sampled_from(['random', 'descending', 'blocks',
                                           'ascending'])),
            'as': draw(st.sampled_from(['list', 'array']))}


@sub('C11', 'many-requests', many(), 900,
     rule='20-1500 requested averaging times at once, ordered, shuffled, '
          'descending or in repeated blocks, with duplicates: the sorted '
          'unique factors below N; also through OADEV (below N/2); '
          'non-trivial = a duplicate and a disorder in the request')
def _many(c, ev):
    r = np.random.RandomState(c['s'])
    n, rate = c['n'], float(c['rate'])
    req = r.randint(1, max(2, int(c['top'] * n)), c['count'])
    if c['order'] == 'descending':
        req = np.sort(req)[::-1]
    elif c['order'] == 'ascending':
        req = np.sort(req)
    elif c['order'] == 'blocks':
        req = np.resize(req[:max(2, len(req) // 7)], len(req))
    taus = req / rate
    if c['as'] == 'list':
        taus = [float(t) for t in taus]
    got = call(at.tau_generator, np.zeros(n), c['rate'], taus)
    require(isinstance(got, tuple) and len(got) == 3, 'tau_generator -> %r',
            got)
    m, t = as_array(got[1], 'm'), as_array(got[2], 'taus')
    want = sorted({int(k) for k in req if 0 < k < n})
    require(m.tolist() == want, 'tau_generator(N=%d, %d requests, %s): m=%s, '
            'expected %s', n, len(req), c['order'], m.tolist()[:60],
            want[:60])
    require(np.allclose(t * rate, m, rtol=1e-12, atol=0), 'taus != m/rate')
    x = r.randn(n)
    rows = expected_rows('oadev', n, want)
    res = run_dev('oadev', x, rate=c['rate'], taus=taus)
    if not rows:
        require(res is None, 'oadev reports %r', res)
        return
    require(res is not None and len(res[0]) == len(rows) and np.allclose(
        res[0] * rate, [k[0] for k in rows], rtol=1e-9, atol=0) and
        res[3].tolist() == [k[1] for k in rows],
        'oadev(N=%d, %d requests, %s): rows differ from the requested '
        'factors', n, len(req), c['order'])
    ev.nt(len(set(req.tolist())) < len(req) and c['order'] != 'ascending')
    ev.label(c['order'])


@st.composite
def fcases(draw):
    fn = draw(st.sampled_from(ALL + ['gcodev']))
    n = draw(gen.lengths(5, max_len(fn)))
    rate = draw(gen.rates)
    return {'fn': fn, 'n': n, 'rate': rate, 's': draw(gen.seeds),
            'dt': draw(st.sampled_from(['phase', 'freq'])),
            'req': draw(tau_requests(n, rate, 6)),
            'as': draw(st.sampled_from(['list', 'array', 'keyword'])),
            'kw': draw(st.sampled_from([None, 'all', 'octave', 'decade',
                                        'empty']))}


@sub('C11', 'all-functions', fcases(), 6000, shards=6,
     rule='the same requests through all 16 deviations, phase and frequency '
          'data: exactly the taus m/rate of the requested, computable '
          'averaging factors, ascending, with the definitional n; '
          'non-trivial = at least two rows')
def _fn(c, ev):
    fn = c['fn']
    x = gen.expand({'k': 'white', 'n': c['n'], 's': c['s']})
    n = c['n'] + (1 if c['dt'] == 'freq' else 0)     # phase points
    if c['as'] == 'keyword':
        taus = [] if c['kw'] == 'empty' else c['kw']
        if taus == 'all' and fn in ('mtotdev', 'ttotdev', 'htotdev'):
            taus = 'octave'
        nk = n - 1 if fn == 'htotdev' else n
        want = gen.keyword_ms(None if taus == [] else taus, nk)
    else:
        vals, want = build(c['req'], c['rate'])
        taus = np.array(vals) if c['as'] == 'array' else vals
    judge(c, ev, fn, x, n, taus, want)


def judge(c, ev, fn, x, n, taus, want):
    rows = expected_rows(fn, n, want)
    if fn == 'gcodev':
        def gcodev(d, **kw):
            return at.gcodev(d, d[::-1].copy(), **kw)
        got = run_dev(gcodev, x, rate=c['rate'], data_type=c['dt'],
                      taus=taus)
    else:
        got = run_dev(fn, x, rate=c['rate'], data_type=c['dt'], taus=taus)
    if not rows:
        require(got is None, '%s(N=%d) reports %s although no requested '
                'averaging factor (%s) has two terms', fn, n, got, want)
        ev.label('nothing-left')
        return
    require(got is not None, '%s(N=%d, taus=%r) declined, expected m=%s', fn,
            n, taus, [r[0] for r in rows])
    m = got[0] * float(c['rate'])
    require(len(m) == len(rows) and np.allclose(m, [r[0] for r in rows],
                                                rtol=1e-9, atol=0),
            '%s(N=%d, rate=%r, taus=%r, %s): tau*rate = %s, expected %s', fn,
            n, c['rate'], taus, c['dt'], m.tolist(), [r[0] for r in rows])
    require(got[3].tolist() == [r[1] for r in rows],
            '%s(N=%d): n=%s, expected %s', fn, n, got[3].tolist(), rows)
    ev.nt(len(rows) >= 2)
    ev.label(fn)


LIMIT = {'totdev': 1, 'theo1': 1, 'mtie': 1, 'tierms': 1, 'adev': 2,
         'oadev': 2, 'gradev': 2, 'pdev': 2, 'gcodev': 2}      # others: 3


@st.composite
def limits(draw):
    fn = draw(st.sampled_from(ALL + ['gcodev']))
    slow = fn in gen.SLOW_DEVS + ('theo1', 'pdev')
    n = draw(st.one_of(gen.uni(60, 1500), gen.block_lengths(
        90, 3000 if slow else 100000)))
    top = n // LIMIT.get(fn, 3)
    m = draw(st.lists(st.integers(-4, 5), min_size=1, max_size=4,
                      unique=True))
    req = [max(1, top + d) for d in m]
    if not slow or n < 400:
        req.append(draw(st.integers(1, 4)))
    if draw(st.booleans()):
        req.reverse()
    return {'fn': fn, 'n': n, 'rate': draw(gen.rates), 's': draw(gen.seeds),
            'dt': draw(st.sampled_from(['phase', 'freq'])), 'm': req}


@sub('C11', 'limits-long', limits(), 900, shards=4,
     rule='every deviation on records of 60-100000 points, asked for '
          'averaging factors within 5 of the largest computable one on either '
          'side: exactly the computable ones are reported; non-trivial = the '
          'request straddles the limit')
def _limits(c, ev):
    fn, n = c['fn'], c['n'] + (1 if c['dt'] == 'freq' else 0)
    x = gen.expand({'k': 'white', 'n': c['n'], 's': c['s']})
    judge(c, ev, fn, x, n, gen.taus_of(c['m'], c['rate']), c['m'])
    rows = expected_rows(fn, n, c['m'])
    ev.nt(bool(rows) and max(r[0] for r in rows) < max(c['m']))


@st.composite
def counts(draw):
    fn = draw(st.sampled_from([f for f in ALL if f not in gen.SLOW_DEVS and
                               f not in ('theo1', 'pdev')] + ['gcodev']))
    big = draw(st.sampled_from([2 ** 7, 2 ** 8, 2 ** 12, 2 ** 15, 2 ** 16,
                                2 ** 16, 2 ** 17, 10 ** 4, 10 ** 5]))
    ms = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3,
                       unique=True))
    cnt = big + draw(st.integers(-1, 3))
    k = LIMIT.get(fn, 3)
    return {'fn': fn, 'n': cnt * (ms[0] if fn in ('adev', 'hdev') and
                                  big < 2 ** 17 else 1) +
            k * ms[0] - (1 if fn in ('mdev', 'tdev') else 0),
            'm': ms, 'rate': draw(gen.rates), 's': draw(gen.seeds),
            'dt': 'phase', 'cnt': cnt}


@sub('C11', 'counts-long', counts(), 500, shards=4,
     rule='records of up to 400000 points whose number of terms is next to a '
          'power of two or ten: the row is there with exactly that count; '
          'non-trivial = the aimed-at count is reported')
def _counts(c, ev):
    fn, n = c['fn'], c['n']
    x = gen.expand({'k': 'white', 'n': n, 's': c['s']})
    judge(c, ev, fn, x, n, gen.taus_of(c['m'], c['rate']), c['m'])
    ev.nt(any(abs(r[1] - c['cnt']) <= 2 for r in expected_rows(fn, n,
                                                               c['m'])))


@st.composite
def red(draw):
    top = draw(gen.uni(2, 5000))
    return {'mul': draw(st.sampled_from([1, 1, 1, 7, 1000, 2 ** 24 + 1,
                                         3 * 2 ** 30 + 1])),
            'top': top, 'per': draw(st.integers(1, 60)),
            'rate': draw(gen.rates),
            'skip': draw(st.lists(gen.uni(0, top - 1), max_size=5)),
            'type': draw(st.sampled_from(['float', 'int']))}


@sub('C11', 'tau-reduction', red(), 2500,
     rule='tau_reduction on "all" lists (some entries removed): an ascending '
          'subset with taus=m/rate, at most n_per_decade (+1 at the decade '
          'boundary) per decade and no empty 1/n-decade bin except the last; '
          'non-trivial = something removed and something kept')
def _red(c, ev):
    full = [m for m in range(1, c['top'] + 1)
            if (m - 1) not in set(c['skip'])]
    if len(full) < 2:
        return
    full = [m * c.get('mul', 1) for m in full]
    ms = np.array(full, dtype=float if c['type'] == 'float' else np.int64)
    r = call(at.tau_reduction, ms.copy(), c['rate'], c['per'])
    require(isinstance(r, tuple) and len(r) == 2, 'tau_reduction -> %r', r)
    m, t = as_array(r[0], 'm'), as_array(r[1], 'taus')
    require(t.shape == m.shape and np.allclose(t * float(c['rate']), m,
                                               rtol=1e-12), 'taus != m/rate')
    require(np.all(np.diff(m) > 0) and set(m.tolist()) <= set(
        ms.astype(float).tolist()), 'tau_reduction: %s not an ascending '
        'subset', m)
    per = c['per']
    lm = np.log10(m) if len(m) else m
    for lo in range(0, 14):
        k = np.sum((lm >= lo) & (lm < lo + 1))
        require(k <= per + 1, 'tau_reduction kept %d in decade %d, n=%d', k,
                lo, per)
    # coverage: every bin (but the last) that contains a candidate keeps one
    bins = lambda a: np.rint(per * np.log10(a))
    safe = np.abs(per * np.log10(ms) % 1 - 0.5) > 1e-9
    have = set(bins(m).tolist()) if len(m) else set()
    need = set(bins(ms)[safe].tolist()) - {bins(ms)[-1]}
    require(need <= have, 'tau_reduction leaves empty bins (n=%d, top=%d): '
            'kept %s', per, c['top'], m.tolist()[:40])
    ev.nt(0 < len(m) < len(ms))


@st.composite
def bad(draw):
    return {'fn': draw(st.sampled_from(['tau_generator'] + ALL)),
            'n': draw(st.integers(4, 20))}


@sub('C11', 'zero-rate', bad(), 200,
     rule='rate 0 is refused with an exception by tau_generator and every '
          'deviation; non-trivial = always')
def _zero(c, ev):
    x = np.arange(c['n'], dtype=float) ** 2
    if c['fn'] == 'tau_generator':
        r = call(at.tau_generator, x, 0, allow=(RuntimeError,))
        require(isinstance(r, RuntimeError), 'tau_generator accepts rate=0')
    else:
        r = call(getattr(at, c['fn']), x, rate=0,
                 allow=(RuntimeError, ZeroDivisionError, ValueError))
        require(isinstance(r, Exception), '%s accepts rate=0', c['fn'])
    ev.nt()


@sub('C11', 'unknown-keyword', st.fixed_dictionaries(
        {'fn': st.sampled_from(ALL), 'n': st.integers(20, 60),
         'kw': st.one_of(st.sampled_from(
             ['octaves', 'oct', 'al', 'every', 'decades', 'dec', 'log2',
              'log', 'linear', 'none', 'default', 'all,octave', 'many']),
             st.text('abcdelortv', min_size=1, max_size=7))}), 500,
     rule='a tau keyword that does not exist is refused, never taken for '
          'another one; non-trivial = always')
def _unknown(c, ev):
    if c['kw'] in ('all', 'octave', 'decade', 'log10'):
        return
    x = np.arange(float(c['n'])) ** 2
    r = call(getattr(at, c['fn']), x, taus=c['kw'], allow=(Exception,))
    require(isinstance(r, Exception), '%s accepts taus=%r', c['fn'], c['kw'])
    ev.nt()
