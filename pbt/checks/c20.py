"""C20: equivalent degrees of freedom (Greenhall & Riley 2003)."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import sub, require, call
from .. import ref_edf
from ..env import at

VALID = [(a, d) for a in range(-4, 3) for d in (1, 2, 3) if a + 2 * d > 1]


@st.composite
def cases(draw):
    a, d = draw(st.sampled_from(VALID))
    m = draw(st.one_of(st.integers(1, 12), st.integers(10, 60),
                       st.sampled_from([24, 25, 26, 32, 33, 34, 35, 48, 49,
                                        50, 51, 52, 100, 128, 250, 1000]),
                       gen.uni(60, 400)))
    span = draw(st.sampled_from([1, d, d + 1, d + 2, 2 * d + 3, 12, 60, 99,
                                 101, 200]))
    lo = (d + 1) * m + 2
    n = lo + draw(st.one_of(st.integers(0, 20),
                            gen.uni(0, span * m + 20),
                            gen.uni(span * m, span * m + 3)))
    return {'alpha': a, 'd': d, 'm': m, 'N': n, 'ov': draw(st.booleans()),
            'mod': draw(st.booleans())}


def edf(alpha, d, m, N, ov, mod, form=int):
    return float(call(at.edf_greenhall, alpha, d, form(m), N, overlapping=ov,
                      modified=mod, what='edf_greenhall'))


@sub('C20', 'formula-and-definition', cases(), 4000, shards=7,
     rule='all valid (alpha -4..2, d 1..3) x m 1..1000 x N from the shortest '
          'record up x overlapping x modified: the value equals the published '
          'case formula to 1e-6 and the untruncated covariance sum to 5 %; '
          'nothing is refused; non-trivial = EDF compared')
def _def(c, ev):
    a, d, m, N, ov, mod = (c['alpha'], c['d'], c['m'], c['N'], c['ov'],
                           c['mod'])
    F, S, M = ref_edf.layout(d, m, N, ov, mod)
    if M < 1:
        return
    got = edf(a, d, m, N, ov, mod)
    want = ref_edf.greenhall(a, d, m, N, ov, mod)
    if want is None:      # white PM, few differences: the sum is finite
        want = [ref_edf.full_sum(a, d, m, N, ov, mod)]
    tol = 1e-6
    require(np.isfinite(got), 'alpha=%d d=%d m=%d N=%d '
            'overlapping=%s modified=%s: %r', a, d, m, N, ov, mod, got)
    require(min(abs(got - float(w)) / float(w) for w in want) <= tol,
            'alpha=%d d=%d m=%d N=%d overlapping=%s modified=%s: EDF %r, '
            'Greenhall-Riley %s', a, d, m, N, ov, mod, got,
            [float(w) for w in want])
    full = float(ref_edf.full_sum(a, d, m, N, ov, mod))
    require(abs(got / full - 1) <= 0.05, 'alpha=%d d=%d m=%d N=%d '
            'overlapping=%s modified=%s: EDF %r, covariance sum %r', a, d, m,
            N, ov, mod, got, full)
    require(got <= M * (1 + 1e-9), 'EDF %r exceeds the %d terms', got, M)
    ev.nt()
    ev.label('alpha=%d' % a, 'd=%d' % d,
             ('modified' if mod else 'unmodified') + (
                 '-overlapping' if ov else ''),
             'J>100' if min(M, (d + 1) * S) > 100 else 'J<=100')


@sub('C20', 'relations', cases(), 1500, shards=3,
     rule='m=1: overlapping and modified make no difference (beyond 5 %); '
          'EDF does not '
          'shrink (beyond 5 %) when the record doubles; float m equals int '
          'm; non-trivial = a relation was evaluated')
def _rel(c, ev):
    a, d, m, N = c['alpha'], c['d'], c['m'], c['N']
    base = edf(a, d, m, N, c['ov'], c['mod'])
    f = edf(a, d, m, N, c['ov'], c['mod'], form=float)
    require(abs(f - base) <= 1e-12 * base,
            'm=%d gives %r, m=%r gives %r', m, base, float(m), f)
    big = edf(a, d, m, 2 * N, c['ov'], c['mod'])
    require(big >= 0.95 * base,
            'alpha=%d d=%d m=%d overlapping=%s modified=%s: N=%d gives %r, '
            'N=%d gives %r', a, d, m, c['ov'], c['mod'], N, base, 2 * N, big)
    n1 = max(d + 3, N // m)
    one = [edf(a, d, 1, n1, v, w) for v in (False, True)
           for w in (False, True)]
    require(max(one) <= 1.05 * min(one), 'alpha=%d d=%d m=1 N=%d: '
            'EDFs %s', a, d, n1, one)
    ev.nt()


@st.composite
def large(draw):
    a, d = draw(st.sampled_from(VALID))
    m = draw(st.one_of(st.integers(1, 30), st.integers(1000, 20000),
                       st.sampled_from([1024, 2000, 4096, 8192, 10000])))
    lo = (d + 1) * m + 2
    n = draw(st.one_of(gen.uni(lo, 4 * lo), gen.uni(lo, 60 * lo),
                       gen.uni(10 ** 6, 10 ** 8)))
    return {'alpha': a, 'd': d, 'm': m, 'N': max(lo, n),
            'ov': draw(st.booleans()), 'mod': draw(st.booleans())}


@sub('C20', 'large', large(), 350, shards=4,
     rule='averaging factors to 20000 and records to 1e8 points, N/m from '
          'd+1 to 1e8: as formula-and-definition; non-trivial = as there')
def _large(c, ev):
    _def(c, ev)


@st.composite
def grids(draw):
    d = draw(st.sampled_from([1, 2, 3]))
    S = draw(st.sampled_from(['few', 'long', 'short']))
    m = draw(st.one_of(st.integers(2, 40), st.integers(101, 600)))
    if S == 'long':                       # r > d+1
        n = (2 * d + 2) * m + draw(gen.uni(m, 60 * m))
    elif S == 'short':                    # r <= d+1
        n = (d + 1) * m + 2 + draw(gen.uni(0, d * m))
    else:
        n = (d + 1) * m + 2 + draw(st.integers(0, 6))
    return {'d': d, 'm': m, 'N': n}


@sub('C20', 'all-noises', grids(), 250, shards=6,
     rule='one (m, N, d) with every noise type, overlapping or not, modified '
          'or not: as formula-and-definition, so that every cell of tables '
          '1-3 is read; non-trivial = as there')
def _all(c, ev):
    for a in range(-4, 3):
        if a + 2 * c['d'] > 1:
            for ov in (False, True):
                for mod in (False, True):
                    _def(dict(c, alpha=a, ov=ov, mod=mod), ev)


@st.composite
def simple(draw):
    a, d = draw(st.sampled_from(VALID))
    m = draw(gen.uni(1, 100 // (d + 1)))
    return {'alpha': a, 'd': d, 'm': m, 'ov': draw(st.booleans()),
            'mod': draw(st.booleans()),
            'N': (d + 1) * m + draw(gen.uni(2, 400))}


@sub('C20', 'simple-form', simple(), 1500,
     rule='edf_greenhall_simple (the truncated sum without shortcuts) equals '
          'the published sum to 1e-6; non-trivial = M>=2')
def _simple(c, ev):
    a, d, m, N = c['alpha'], c['d'], c['m'], c['N']
    F, S, M = ref_edf.layout(d, m, N, c['ov'], c['mod'])
    if M < 1:
        return
    J = min(M, (d + 1) * S)
    want = float(ref_edf.sz([0], F, a, d)[0] ** 2 * M /
                 ref_edf.basic_sum(J, M, S, F, a, d))
    got = float(call(at.ci.edf_greenhall_simple, a, d, m, S, F, N))
    require(abs(got / want - 1) <= 1e-6, 'edf_greenhall_simple(alpha=%d, '
            'd=%d, m=%d, S=%d, F=%d, N=%d) = %r, the sum is %r', a, d, m, S,
            F, N, got, want)
    ev.nt(M >= 2)
