"""Generators. A case holds specs (plain JSON); expand_* turn them into arrays.

Series spec: {"k": kind, "n": length, "s": seed, "a": amplitude,
              "o": offset in units of a, "sl": slope in units of a per sample,
              "v": literal values (kind "lit")}
"""
import numpy as np
from hypothesis import strategies as st

KINDS = ['white', 'ints', 'rw', 'rr', 'impulse', 'step', 'plateau', 'ramp',
         'sine', 'alt', 'heavy', 'end', 'start', 'tiled', 'const', 'lit']
GENERIC = ['white', 'rw', 'rr', 'heavy', 'ints']
AMPS = [1.0, 1.0, 1.0, 1e-9, 2.5e-7, 1e-12, 1e-15, 1e3, 1e6, 3.0, 1e-24,
        1e-30, 1e12]
OFFS = [0.0, 0.0, 0.0, 1.0, -1.0, 10.0, -1e3, 1e5]
SLOPES = [0.0, 0.0, 0.0, 0.1, -1.0, 30.0]
RATES = [1.0, 1, 2, 0.5, 10.0, 3.0, 7, 0.1, 0.3, 1e-3, 86400.0, 1e6, 12.5,
         1.0 / 3.0, 1e3, 999.0, 1.0 / 30.0, 2048]

seeds = st.integers(0, 2 ** 32 - 1)


def uni(lo, hi):
    """Integers lo..hi spread evenly. st.integers alone keeps returning the
    bounds and their neighbours when only a few dozen cases are drawn."""
    span = hi - lo + 1
    if span <= 24:
        return st.integers(lo, hi)
    even = st.integers(0, 2 ** 64 - 1).map(
        lambda v: lo + (((v + 1) * 0x9E3779B97F4A7C15 % 2 ** 64) * span >> 64))
    return st.one_of(even, even, even, even, st.integers(lo, hi))
rates = st.one_of(st.sampled_from(RATES), st.sampled_from(RATES),
                  st.floats(1e-3, 1e4, allow_nan=False, allow_infinity=False),
                  st.sampled_from([1.0 / 86400, 1e-6, 2.5e8, 1e9, 1e10, 3e-5]))


def expand(spec):
    """Series spec -> float64 array. Pure function of the spec."""
    k = spec['k']
    if k == 'lit':
        x = np.array(spec['v'], dtype=float)
        n = len(x)
    else:
        n = int(spec['n'])
        r = np.random.RandomState(spec['s'] % (2 ** 32))
        t = np.arange(n, dtype=float)
        if k == 'white':
            x = r.randn(n)
        elif k == 'ints':
            x = r.randint(-9, 10, n).astype(float)
        elif k == 'rw':
            x = np.cumsum(r.randn(n))
        elif k == 'rr':
            x = np.cumsum(np.cumsum(r.randn(n)))
        elif k == 'impulse':
            x = np.zeros(n)
            x[r.randint(0, n)] = 1.0
        elif k == 'step':
            x = np.zeros(n)
            x[r.randint(0, n):] = 1.0
        elif k == 'plateau':
            x = np.repeat(r.randint(-3, 4, n), r.randint(1, 5))[:n] * 1.0
        elif k == 'ramp':
            x = t * float(r.randint(-4, 5))
        elif k == 'sine':
            x = np.sin(t * r.uniform(0.01, 3.1) + r.uniform(0, 6))
        elif k == 'alt':
            x = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
        elif k == 'heavy':
            x = r.randn(n) * 10.0 ** r.randint(-2, 3, n)
        elif k == 'const':
            x = np.zeros(n)
        elif k == 'end':            # everything happens at the last samples
            x = r.randn(n) * 1e-3
            x[-1 - r.randint(0, min(3, n)):] += 7.0 * r.choice([-1, 1])
        elif k == 'start':
            x = r.randn(n) * 1e-3
            x[:1 + r.randint(0, min(3, n))] += 7.0 * r.choice([-1, 1])
        elif k == 'sparse':         # silent but for a few samples at 'p'
            x = np.zeros(n)
            x[np.clip(spec['p'], 0, n - 1)] = r.choice(
                [-2.0, -1.0, 1.0, 3.0], len(spec['p']))
        elif k == 'tiled':          # exactly periodic: some rows vanish
            p = r.randint(-3, 4, r.randint(2, 9)).astype(float)
            x = np.tile(p, n // len(p) + 1)[:n]
        else:
            raise ValueError(k)
    t = np.arange(n, dtype=float)
    a = spec.get('a', 1.0)
    return (x + spec.get('o', 0.0) + spec.get('sl', 0.0) * t) * a


BLOCKS = [100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 700, 750, 800,
          900, 1000, 1024, 1500, 2000, 2048, 2500, 3000, 4000, 4096, 5000,
          6000, 7500, 8000, 8192, 10000, 12000, 15000, 16000, 16384, 20000,
          25000, 30000, 32768, 40000, 50000, 60000, 65536, 75000, 80000,
          90000, 100000, 131072]


def block_lengths(lo, hi):
    """Lengths next to the round numbers at which code may change course."""
    b = [v for v in BLOCKS if lo <= v - 2 and v + 5 <= hi]
    if not b:
        return uni(lo, hi)
    return st.builds(lambda v, d: v + d, st.sampled_from(b),
                     st.integers(-2, 5))


def lengths(lo, hi, big=None):
    """Small lengths mostly, with lo/hi boundaries; optionally a big tail."""
    mid = min(hi, lo + 8)
    opts = [st.integers(lo, min(hi, lo + 12)), uni(mid, hi),
            uni(mid, hi)]
    if big:
        opts.append(uni(hi, big))
        opts.append(block_lengths(lo, big))
    return st.one_of(*opts)


@st.composite
def series(draw, lo=3, hi=60, big=None, kinds=None, amps=None, offs=None,
           slopes=None, n=None):
    kinds = kinds or KINDS
    k = draw(st.sampled_from(kinds))
    spec = {'k': k}
    if k == 'lit':
        m = n if n is not None else None
        spec['v'] = draw(st.lists(st.integers(-20, 20),
                                  min_size=m or lo,
                                  max_size=m or min(hi, max(lo, 24))))
    else:
        spec['n'] = n if n is not None else draw(lengths(lo, hi, big))
        spec['s'] = draw(seeds)
    spec['a'] = draw(st.sampled_from(amps or AMPS))
    spec['o'] = draw(st.sampled_from(offs or OFFS))
    spec['sl'] = draw(st.sampled_from(slopes or SLOPES))
    return spec


def spec_len(spec):
    return len(spec['v']) if spec['k'] == 'lit' else spec['n']


@st.composite
def ms(draw, n, mmax=None, min_size=1, max_size=6):
    """Averaging factors, biased to the boundaries of a length-n record."""
    mmax = max(1, min(mmax or n, n))
    edge = sorted({m for m in [1, 2, 3, n // 4, n // 3 - 1, n // 3,
                               n // 3 + 1, (n - 1) // 3, n // 2 - 1, n // 2,
                               (n - 1) // 2, n // 2 + 1, n - 3, n - 2, n - 1]
                   if 1 <= m <= mmax})
    third = max(1, min(mmax, n // 3))
    low = [m for m in edge if m <= third] or [1]
    return draw(st.lists(st.one_of(uni(1, third),
                                   st.sampled_from(low),
                                   st.sampled_from(edge),
                                   uni(1, mmax)),
                         min_size=min_size, max_size=max_size, unique=True))


@st.composite
def extremes(draw, ratio, small, long, wide, step=1, extra=8):
    """A long record with short averaging times, or one hardly longer than
    the ratio*m points its longest averaging time takes."""
    if draw(st.booleans()):
        n = draw(uni(*long))
        m = draw(st.lists(uni(1, small), min_size=1, max_size=2,
                          unique=True))
        m = [v * step for v in m]
    else:
        v = draw(uni(*wide)) * step
        m = [v]
        n = ratio * v + draw(uni(0, extra))
        if draw(st.integers(0, 3)) == 0 and v > step:
            m.append(v - step)
    x = draw(series(n=n, kinds=GENERIC + ['end', 'start', 'sine', 'tiled']))
    return {'x': x, 'rate': draw(rates), 'm': m}


HUGE = [150000, 200000, 250000, 262144, 300000, 400000, 500000, 524288,
        600000, 750000, 900000, 1000000]


@st.composite
def huge_sparse(draw):
    """A record of 10^5 points and more whose few events sit at its ends or
    next to a round sample number: every one of them must be counted."""
    b = draw(st.sampled_from(HUGE))
    n = draw(st.one_of(uni(b - 3, b + 3), uni(b, b + 1000),
                       uni(100000, 1000000)))
    spots = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.integers(0, 4))
        where = draw(st.sampled_from(['end', 'end', 'start', 'block']))
        if where == 'end':
            spots.append(n - 1 - d)
        elif where == 'start':
            spots.append(d)
        else:
            k = draw(st.sampled_from([v for v in BLOCKS + HUGE
                                      if v >= 4096 and v < n - 10]))
            spots.append(k * draw(uni(1, (n - 6) // k)) + d - 2)
    x = {'k': 'sparse', 'n': n, 's': draw(seeds), 'p': spots,
         'a': draw(st.sampled_from([1.0, 1e-9, 2.5e-7, 1e3]))}
    m = draw(st.lists(st.one_of(st.integers(1, 6), st.integers(1, 3000)),
                      min_size=1, max_size=2, unique=True))
    return {'x': x, 'rate': draw(rates), 'm': m}


SLOW_DEVS = ('mtotdev', 'ttotdev', 'htotdev')


@st.composite
def sizes(draw, fn):
    """a long record, or an averaging time near the longest one."""
    if fn in SLOW_DEVS:
        if draw(st.booleans()):
            m = draw(uni(10, 150))
            return 3 * m + draw(st.integers(3, 9)), [m]
        return draw(uni(200, 900)), draw(st.lists(
            st.integers(1, 5), min_size=1, max_size=2, unique=True))
    if fn == 'theo1':
        n = draw(uni(100, 400))
        return n, [2 * v for v in draw(st.lists(st.one_of(
            st.integers(1, 8), st.integers(n // 2 - 15, n // 2 - 2)),
            min_size=1, max_size=2, unique=True))]
    if fn == 'pdev':
        n = draw(uni(200, 5000))
        top = max(1, min(n // 2 - 2, 2 * 10 ** 5 // n))
        return n, draw(st.lists(st.one_of(
            uni(2, max(2, top)), uni(n // 2 - 20, n // 2 - 3)),
            min_size=1, max_size=2, unique=True))
    n = draw(st.one_of(block_lengths(1000, 100000),
                       uni(300, 20000)))
    top = {'hdev': n // 4, 'ohdev': n // 3 - 1, 'mdev': n // 3 - 1,
           'tdev': n // 3 - 1, 'adev': n // 3,
           'mtie': min(n - 3, 3 * 10 ** 7 // n)}.get(fn, n // 2 - 2)
    if fn in ('totdev', 'tierms'):
        top = n - 3
    return n, draw(st.lists(st.one_of(
        st.integers(1, top), st.integers(1, 40), st.integers(
            max(1, top - 20), top)), min_size=1, max_size=3, unique=True))


LONG_KINDS = ['white', 'rw', 'rr', 'heavy', 'impulse', 'step', 'end', 'start',
              'plateau', 'sine']


def taus_of(mlist, rate):
    return np.array([m / float(rate) for m in mlist])


def keyword_ms(kw, n):
    """Averaging factors a keyword stands for, on an n-point record."""
    if kw in (None, 'octave', []):
        out, m = [], 1
        while m <= n:
            out.append(m)
            m *= 2
    elif kw == 'all':
        out = list(range(1, n + 1))
    elif kw == 'decade':
        out, d = [], 1
        while d <= n:
            out += [d, 2 * d, 4 * d]
            d *= 10
    else:
        raise ValueError(kw)
    return sorted(m for m in set(out) if 0 < m < n)
