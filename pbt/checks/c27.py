"""C27: psd2allan is the Allan integral of the PSD."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..env import at

XS, WS = np.polynomial.legendre.leggauss(16)
DF = [1.0, 1, 0.1, 2, 0.01, 10.0, 1e-3, 7.3, 1e3, 1.0 / 3, 1e-7, 1e6]


@st.composite
def cases(draw, lo=5, hi=150):
    n = draw(st.one_of(gen.uni(lo, 16), gen.uni(lo, hi)))
    return {'n': n, 'df': draw(st.one_of(st.sampled_from(DF),
                                         st.floats(1e-3, 1e3))),
            's': draw(gen.seeds), 's2': draw(gen.seeds),
            'base': draw(st.sampled_from([None, 2, 1, 10, 3, 1.5, 0.5, 1.1])),
            'kind': draw(st.sampled_from([None, 'adev', 'mdev', 'Adev',
                                          'MDEV'])),
            'vec': draw(st.booleans()),
            'a': draw(st.sampled_from([1.0, 1e-24, 1e6, 0.3]))}


def convert(c, S, df=None, vec=None, kind=0):
    df = c['df'] if df is None else df
    vec = c['vec'] if vec is None else vec
    f = np.arange(len(S)) * float(df) if vec else df
    kw = {}
    if c['base'] is not None:
        kw['base'] = c['base']
    k = c['kind'] if kind == 0 else kind
    if k is not None:
        kw['kind'] = k
    r = call(at.psd2allan, S, f, what='psd2allan', **kw)
    t, a = as_array(r[0], 'taus'), as_array(r[1], 'ad')
    require(t.ndim == 1 and t.shape == a.shape and len(t), 'shapes %s %s',
            t.shape, a.shape)
    return t, a


def poly(c):
    """non-negative cubic PSD coefficients (of f/fmax)."""
    r = np.random.RandomState(c['s'])
    p = r.uniform(0, 1, 4) * r.randint(0, 2, 4)
    if not p.any():
        p[r.randint(4)] = 1.0
    return p * c['a']


def random_psd(c, key):
    return c['a'] * np.random.RandomState(c[key]).exponential(1.0, c['n'])


def is_mod(c):
    return c['kind'] is not None and c['kind'][0].lower() == 'm'


@sub('C27', 'integral', cases(), 1500, shards=6,
     rule='cubic PSDs, 5-150 points, any frequency step: every value equals '
          'the Allan / modified Allan integral up to fmax (Gauss-Legendre) '
          'within 0.5 %; taus are distinct multiples of 1/fmax up to 1/(2 '
          'df), on the requested spacing; non-trivial = >=3 taus')
def _int(c, ev):
    n, df = c['n'], float(c['df'])
    p = poly(c)
    fm = (n - 1) * df
    f = np.arange(n) * df

    def S(f):
        z = f / fm
        return p[0] + p[1] * z + p[2] * z ** 2 + p[3] * z ** 3
    t, a = convert(c, S(f))
    m = t * fm
    require(np.all(np.diff(t) > 0) and np.all(t > 0) and
            np.all(np.abs(m - np.round(m)) <= 1e-6 * m),
            'taus*fmax = %s are not increasing integers', m)
    top = (n - 1) / 2.0
    m = np.round(m)
    base = 2 if c['base'] is None else c['base']
    require(m[0] == 1 or base >= top * 0.999, 'n=%d base=%r: tau factors %s', n, base,
            m)
    require(m[-1] <= top + 0.5, 'n=%d: tau factors %s', n, m)
    if base <= 1:
        want = np.arange(1, np.round(m[-1]) + 1)
        require(np.array_equal(m, want) and m[-1] >= top - 1.01,
                'base=%r: tau factors %s', base, m)
    else:
        pw = base ** np.arange(0, 60.0)
        k = np.round(pw)
        allowed = set(k[k <= top + 0.5]) | {np.floor(top), np.ceil(top)}
        require(set(m) <= allowed and m[-1] >= np.round(top) - 1,
                'base=%r n=%d: tau factors %s', base, n, m)
        need = set(k[pw * base <= top * 0.999])
        require(need <= set(m), 'base=%r n=%d: tau factors %s lack %s', base,
                n, m, sorted(need - set(m)))
    kk = 2 if is_mod(c) else 1
    for tau, got in zip(t, a):
        cells = int(np.ceil(2 * tau * fm)) + 1
        e = np.linspace(0, fm, cells + 1)
        q = e[:-1][:, None] + (XS + 1) * (e[1] - e[0]) / 2
        u = np.pi * q * tau
        v = S(q) * np.sin(u) ** (2 * kk + 2) / u ** (2 * kk)
        want = np.sqrt(2 * np.sum(v * WS) * (e[1] - e[0]) / 2)
        require(abs(got - want) <= 5e-3 * want, 'n=%d df=%r kind=%r tau=%r: '
                '%r, integral %r', n, c['df'], c['kind'], tau, got, want)
    ev.nt(len(t) >= 3)
    ev.label('mod' if kk == 2 else 'adev', 'base=%r' % c['base'])


@st.composite
def longs(draw):
    c = draw(cases())
    c['n'] = draw(st.one_of(gen.uni(150, 4500),
                            gen.block_lengths(150, 5000)))
    if c['base'] is not None and c['base'] < 1.5:
        c['base'] = 2
    return c


@sub('C27', 'integral-long', longs(), 160, shards=4,
     rule='the same with PSDs of 150-5000 points')
def _intlong(c, ev):
    _int(c, ev)


@sub('C27', 'linearity', cases(), 2500, shards=4,
     rule='arbitrary random PSDs: variances add, k*S scales the deviation by '
          'sqrt(k), rescaling the frequency axis by c scales taus by 1/c and '
          'deviations by sqrt(c), axis as vector or step, zero PSD gives 0; '
          'mdev <= adev on smooth PSDs; non-trivial = >=3 taus')
def _lin(c, ev):
    S1, S2 = random_psd(c, 's'), random_psd(c, 's2')
    t1, a1 = convert(c, S1)
    t2, a2 = convert(c, S2)
    t3, a3 = convert(c, S1 + S2)
    require(np.array_equal(t1, t2) and np.array_equal(t1, t3),
            'taus depend on the PSD values')
    top = np.nanmax(np.concatenate((a1, a2, a3))) ** 2
    good = np.isfinite(a1) & np.isfinite(a2) & np.isfinite(a3)
    d = (a3 ** 2 - a1 ** 2 - a2 ** 2)[good]
    require(np.all(np.abs(d) <= 1e-9 * top), 'variances of S1, S2 and S1+S2: '
            '%s %s %s', a1 ** 2, a2 ** 2, a3 ** 2)
    _, a4 = convert(c, 49.0 * S1)
    require(np.allclose(a4, 7 * a1, rtol=1e-9, equal_nan=True),
            '49*S scales by %s', a4 / a1)
    t5, a5 = convert(c, S1, df=float(c['df']) * 16.0)
    require(np.allclose(t5, t1 / 16, rtol=1e-9) and
            np.allclose(a5, 4 * a1, rtol=1e-7, atol=1e-9 * np.sqrt(top),
                        equal_nan=True),
            'axis*16: taus %s -> %s, deviations %s -> %s', t1, t5, a1, a5)
    t6, a6 = convert(c, S1, vec=not c['vec'])
    require(len(t6) == len(t1) and np.allclose(t6, t1, rtol=1e-9) and
            np.allclose(a6, a1, rtol=1e-6, atol=1e-8 * np.sqrt(top),
                        equal_nan=True),
            'frequency vector and step disagree: %s %s', a1, a6)
    _, a7 = convert(c, np.zeros(c['n']))
    require(np.all(a7 == 0), 'zero PSD gives %s', a7)
    f = np.arange(c['n']) / float(c['n'])
    sm = c['a'] * (0.1 + f + 2 * (1 - f) ** 2)
    _, ad = convert(c, sm, kind='adev')
    _, md = convert(c, sm, kind='mdev')
    require(np.all(md <= ad * (1 + 1e-9)) and np.all(md > 0),
            'mdev %s exceeds adev %s', md, ad)
    ev.nt(len(t1) >= 3)
