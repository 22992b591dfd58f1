"""C23: B1 and R(n) noise-identification ratios and their theory."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call
from .. import gen, ref
from ..devs import rounding
from ..env import at

ci = at.ci


@st.composite
def cases(draw):
    n = draw(st.one_of(gen.lengths(8, 80, 600), gen.lengths(8, 80, 600),
                       gen.block_lengths(600, 20000)))
    af = draw(st.one_of(gen.uni(1, max(1, (n - 2) // 3)),
                        gen.uni(1, max(1, (n - 2) // 4))))
    return {'x': draw(gen.series(n=n, kinds=['white', 'rw', 'rr', 'heavy',
                                             'ints', 'sine', 'alt'],
                                 offs=[0.0, 1.0, -10.0],
                                 slopes=[0.0, 0.1, -1.0])),
            'af': af, 'rate': draw(gen.rates), 'rate2': draw(gen.rates),
            'k': draw(st.sampled_from([2.0, -1.0, 1e-3, 1e6]))}


def b1_ref(x, m):
    x = ref.ld(x)
    k = (len(x) - 1) // m
    y = (x[m * np.arange(1, k + 1)] - x[m * np.arange(k)])
    var = np.sum((y - np.mean(y)) ** 2) / (k - 1)
    s, n = ref.adev(x, m)
    return var, s ** 2, n


@sub('C23', 'definition', cases(), 5000, shards=4,
     rule='records x af 1..N/3 x rates: b1 = sample variance of the '
          'af-averaged frequencies / ADEV^2, rn = MDEV^2/ADEV^2 (reference '
          'models), independent of rate and amplitude; non-trivial = af>=2')
def _def(c, ev):
    x, m = gen.expand(c['x']), c['af']
    var, av, n = b1_ref(x, m)
    mv, mn = ref.mdev(x, m)
    fl = rounding(x, 64)
    if n < 2 or float(np.sqrt(av)) < 1e4 * fl:
        return
    tol = 1e-8 + 8 * fl / float(np.sqrt(av))
    for rate, data in ((c['rate'], x), (c['rate2'], x * c['k'])):
        got = call(ci.b1, data, m, rate, what='b1')
        want = float(var / av)
        sens = 1 + 4 * fl / max(float(np.sqrt(var)), 1e-300)
        require(abs(got - want) <= 4 * tol * want * sens + tol * tol,
                'b1(af=%d, rate=%r) = %r, definition %r', m, rate, got, want)
        if mn >= 2:
            got = call(ci.rn, data, m, rate, what='rn')
            want = float((mv ** 2) / av)
            require(abs(got - want) <= 4 * tol * want +
                    4 * tol * np.sqrt(want) + tol * tol,
                    'rn(af=%d, rate=%r) = %r, definition %r', m, rate, got,
                    want)
    ev.nt(m >= 2)


@st.composite
def theory(draw):
    return {'N': draw(st.one_of(st.integers(2, 40), st.integers(40, 10 ** 5),
                                gen.uni(10 ** 5, 10 ** 9))),
            'af': draw(st.one_of(st.integers(1, 30), st.integers(30, 10 ** 5),
                                 gen.uni(10 ** 5, 10 ** 9))),
            'mu': draw(st.one_of(st.sampled_from([-4, -3, -2, -1, 0, 1, 2, 3,
                                                  4]), st.floats(-4, 4))),
            'b': draw(st.integers(-4, 0)), 'bl': draw(st.integers(-5, 0)),
            'form': draw(st.sampled_from(['int', 'float']))}


def b1_formula(N, mu):
    """Barnes 1974; continuous in mu (limit at 0)."""
    N, mu = ref.LD(N), ref.LD(mu)
    if abs(mu) < 1e-9:
        return N * np.log(N) / (2 * (N - 1) * np.log(ref.LD(2)))
    return N * -np.expm1(mu * np.log(N)) / (
        2 * (N - 1) * -np.expm1(mu * np.log(ref.LD(2))))


MU = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1, -5: 2, -6: 3}


@sub('C23', 'theory', theory(), 4000, shards=2,
     rule='b1_theory equals the general bias formula at integer and real mu '
          '(limits at the special cases); rn_theory equals MVAR/AVAR of the '
          'IEEE1139 expressions; boundaries are the geometric mean of the '
          'two neighbours; b_to_mu table; non-trivial = always')
def _theory(c, ev):
    N = c['N'] if c['form'] == 'int' else float(c['N'])
    mu, af = c['mu'], c['af']
    if abs(mu) > 1e-4 or mu == 0:
        got, want = call(ci.b1_theory, N, mu), float(b1_formula(N, mu))
        require(abs(got - want) <= 1e-9 * abs(want), 'b1_theory(%r, %r) = '
                '%r, formula %r', N, mu, got, want)
    for b, m in MU.items():
        require(call(ci.b_to_mu, b) == m, 'b_to_mu(%d)', b)

    def rnt(b):
        if b == 0:
            return 1.0 / af
        if b == -1:
            return 3 * np.log(256 / 27.) / 2 / (1.038 + 3 * np.log(
                np.pi * af))
        return 1.0
    b = c['b']
    got = call(ci.rn_theory, float(af) if c['form'] == 'float' else af, b) \
        if not (b == 0 and c['form'] == 'int') else \
        call(ci.rn_theory, float(af), b)
    require(abs(got - rnt(b)) <= 1e-9 * rnt(b), 'rn_theory(%r, %r) = %r, '
            'expected %r', af, b, got, rnt(b))
    if b > -4:
        got = call(ci.rn_boundary, float(af), b)
        want = np.sqrt(rnt(b) * rnt(b - 1))
        require(abs(got - want) <= 1e-9 * want, 'rn_boundary(%r, %r) = %r, '
                'expected %r', af, b, got, want)
    bl = c['bl']
    got = call(ci.b1_boundary, bl, N)
    lo, hi = (float(b1_formula(N, MU[v])) for v in (bl - 1, bl))
    want = np.sqrt(lo * hi)
    require(abs(got - want) <= 1e-9 * want and min(lo, hi) * (1 - 1e-9) <=
            got <= max(lo, hi) * (1 + 1e-9), 'b1_boundary(%d, %r) = %r, '
            'expected %r', bl, N, got, want)
    ev.nt()


@st.composite
def drifts(draw):
    af = draw(st.integers(1, 8))
    k = draw(st.integers(3, 40))
    return {'af': af, 'n': k * af + 1 + draw(gen.uni(0, af - 1)),
            'rate': draw(gen.rates), 'c': draw(st.sampled_from([1, -3, 7]))}


@sub('C23', 'pure-drift', drifts(), 800,
     rule='a pure frequency drift has B1 = b1_theory(number of averages, '
          'mu=2) and R(n) = 1, tying the estimator to the theory; '
          'non-trivial = af>=2')
def _drift(c, ev):
    m, n = c['af'], c['n']
    x = c['c'] * np.arange(n, dtype=float) ** 2 / 2
    k = (n - 1) // m
    if ref.adev(x, m)[1] < 2:
        return
    got = call(ci.b1, x, m, c['rate'])
    want = call(ci.b1_theory, k, 2)
    require(abs(got - want) <= 1e-7 * want, 'drift: b1(af=%d) of %d points '
            'is %r, theory %r', m, n, got, want)
    if n - 3 * m + 1 >= 2:
        got = call(ci.rn, x, m, c['rate'])
        require(abs(got - 1) <= 1e-7, 'drift: rn(af=%d) = %r', m, got)
    ev.nt(m >= 2)
