"""C21: edf_simple, edf_totdev, edf_mtotdev against the NIST SP1065 tables."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import sub, require, call
from .. import ref, ref_edf
from ..env import at

T7 = {0: (1.50, 0.0), -1: (1.17, 0.22), -2: (0.93, 0.36)}
T8 = {2: (1.90, 2.10), 1: (1.20, 1.40), 0: (1.10, 1.20), -1: (0.85, 0.50),
      -2: (0.75, 0.31)}


@st.composite
def cases(draw):
    N = draw(st.one_of(st.integers(4, 8), st.integers(8, 60), st.integers(60, 5000),
                       gen.uni(5000, 10 ** 6),
                       gen.uni(10 ** 6, 10 ** 9)))
    m = draw(st.one_of(gen.uni(1, min(4, (N - 1) // 2)),
                       gen.uni(1, max(1, N // 4)),
                       gen.uni(1, (N - 1) // 2)))
    return {'N': N, 'm': m, 'alpha': draw(st.sampled_from([2, 1, 0, -1, -2])),
            'odd': draw(st.sampled_from([3, -3, 5, 7])),
            'form': draw(st.sampled_from(['int', 'float', 'np', 'i4', 'u4',
                                          'f8', 'mixed']))}


def conv(c):
    if c['form'] == 'mixed':
        return np.int32(c['N']), float(c['m'])
    f = {'int': int, 'float': float, 'np': np.int64, 'i4': np.int32,
         'u4': np.uint32, 'f8': np.float64}[c['form']]
    return f(c['N']), f(c['m'])


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * abs(float(b)) + 1e-12


@sub('C21', 'tables', cases(), 6000, shards=2,
     rule='N 4..1e9, m 1..(N-1)/2, alpha 2..-2, int/float/numpy arguments: '
          'edf_simple = SP1065 table 5, edf_totdev = table 7 (PM noise falls '
          'back to edf_simple), edf_mtotdev = table 8; other alpha give N-1; '
          'non-trivial = m>=2')
def _tab(c, ev):
    N, m, a = c['N'], c['m'], c['alpha']
    aN, am = conv(c)
    got = call(at.edf_simple, aN, am, a)
    want = ref.edf_simple(N, m, a)
    require(close(got, want), 'edf_simple(%r, %r, %r) = %r, table 5 gives '
            '%r', aN, am, a, got, float(want))
    require(close(call(at.edf_simple, aN, am, c['odd']), N - 1),
            'edf_simple(%r, %r, %r) is not N-1', aN, am, c['odd'])
    got = call(at.edf_totdev, aN, am, a)
    if a in T7:
        b, k = T7[a]
        want = b * N / float(m) - k
    require(close(got, want), 'edf_totdev(%r, %r, %r) = %r, expected %r', aN,
            am, a, got, float(want))
    b, k = T8[a]
    want = b * N / float(m) - k
    got = call(at.edf_mtotdev, aN, am, a)
    require(close(got, want), 'edf_mtotdev(%r, %r, %r) = %r, table 8 gives '
            '%r', aN, am, a, got, want)
    ev.nt(m >= 2)
    ev.label('alpha=%d' % a)


@st.composite
def acc(draw):
    N = draw(gen.uni(30, 2500))
    return {'N': N, 'm': draw(gen.uni(1, N // 3)),
            'alpha': draw(st.sampled_from([2, 0, -1, -2]))}


@sub('C21', 'accuracy', acc(), 600, shards=2,
     rule='edf_simple within -30/+40 % of the untruncated covariance sum for '
          'the overlapping Allan variance (independent of the table), N '
          '30..2500, m<=N/3, all but flicker PM; non-trivial = m>=2')
def _acc(c, ev):
    full = float(ref_edf.full_sum(c['alpha'], 2, c['m'], c['N'], True, False))
    got = float(call(at.edf_simple, c['N'], c['m'], c['alpha']))
    require(0.7 <= got / full <= 1.4, 'edf_simple(%d, %d, %d) = %r, '
            'covariance sum %r', c['N'], c['m'], c['alpha'], got, full)
    ev.nt(c['m'] >= 2)
