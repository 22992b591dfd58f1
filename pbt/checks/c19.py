"""C19: confidence intervals are the chi-square intervals they claim."""
import math

import numpy as np
import scipy.special as sp
from hypothesis import strategies as st

from .. import gen
from ..core import sub, require, call, Violation
from ..env import at

ONE_SIGMA = math.erf(1 / math.sqrt(2))
edfs = st.one_of(gen.uni(1, 400), st.floats(0.5, 5.0),
                 st.floats(1.0, 300.0), st.floats(300.0, 1e5),
                 st.one_of(st.floats(0.05, 0.5), st.floats(1e5, 1e9),
                           gen.uni(10 ** 5, 10 ** 9)))
cis = st.one_of(st.sampled_from([ONE_SIGMA, 0.5, 0.9, 0.95, 0.99, 0.6827,
                                 0.999]), st.floats(0.5, 0.9999),
                st.sampled_from([0.9999366575163338, 0.99999, 0.999999,
                                 0.9999994266968563, 1 - 1e-8]))
devs = st.one_of(st.sampled_from([1.0, 1e-15, 3e-9, 1e6, 1e-100, 2]),
                 st.floats(1e-20, 1e9))


def interval(dev, edf, ci=None):
    kw = {} if ci is None else {'ci': ci}
    r = call(at.confidence_interval, dev, edf, **kw)
    try:
        lo, hi = r
        return float(lo), float(hi)
    except (TypeError, ValueError):
        raise Violation('confidence_interval returned %r' % (r,))


@st.composite
def cases(draw):
    return {'dev': draw(devs), 'edf': draw(edfs),
            'ci': draw(st.one_of(st.none(), cis)), 'ci2': draw(cis),
            'edf2': draw(edfs), 'np': draw(st.booleans())}


@sub('C19', 'chi-square', cases(), 6000, shards=4,
     rule='deviations 1e-100..1e9, EDF 0.05..1e9 (int and real), confidence '
          '0.5..1-1e-8 or default: both tail probabilities of edf*dev^2/b^2 '
          'equal (1-ci)/2, i.e. coverage is exactly ci; bounds bracket dev '
          'for edf>=1; non-trivial = always')
def _chi(c, ev):
    dev, edf, ci = c['dev'], c['edf'], c['ci']
    if c['np']:
        dev, edf = np.float64(dev), np.float64(edf)
    lo, hi = interval(dev, edf, ci)
    p = (1 - (ONE_SIGMA if ci is None else ci)) / 2
    if p ** (2 / edf) < 1e-150:     # the upper bound leaves double range
        return
    require(np.isfinite(lo) and np.isfinite(hi) and 0 <= lo < hi,
            'interval (%r, %r)', lo, hi)
    h = edf / 2.0
    # upper tail at the lower bound, lower tail at the upper bound
    up = float(sp.gammaincc(h, h * (float(dev) / lo) ** 2))
    down = float(sp.gammainc(h, h * (float(dev) / hi) ** 2))
    # (for huge EDF the tail functions themselves lose digits)
    tol = (1e-7 * (1 + h ** 0.5) if h <= 5e4 else 0.2) * p + 1e-12
    require(abs(up - p) <= tol and abs(down - p) <= tol,
            'dev=%r edf=%r ci=%r: (%r, %r) has tail probabilities %r and %r '
            'instead of %r', dev, edf, ci, lo, hi, down, up, p)
    if edf >= 1:
        require(lo < dev < hi, 'interval (%r, %r) excludes dev %r (edf %r, '
                'ci %r)', lo, hi, dev, edf, ci)
    ev.nt()
    ev.label('default-ci' if ci is None else 'ci')


@sub('C19', 'relations', cases(), 3000, shards=2,
     rule='two confidences and two EDFs: the interval nests with ci, scales '
          'with dev exactly as a multiple, tightens with EDF (ratio hi/lo '
          'decreasing), tends to dev as EDF grows; non-trivial = distinct '
          'confidences and EDFs')
def _rel(c, ev):
    dev, edf = c['dev'], c['edf']
    a = c['ci'] or ONE_SIGMA
    b = c['ci2']
    if (1 - max(a, b)) ** (2 / min(edf, c['edf2'])) < 1e-150:
        return
    lo, hi = interval(dev, edf, a)
    lo2, hi2 = interval(dev, edf, b)
    if abs(a - b) > 1e-6 * (1 - min(a, b)) + 1e-12:
        if a < b:
            require(lo2 < lo and hi < hi2, 'ci=%r gives (%r,%r), wider '
                    'ci=%r gives (%r,%r)', a, lo, hi, b, lo2, hi2)
        else:
            require(lo < lo2 and hi2 < hi, 'ci=%r gives (%r,%r), narrower '
                    'ci=%r gives (%r,%r)', a, lo, hi, b, lo2, hi2)
    lo3, hi3 = interval(dev * 8.0, edf, a)
    require(abs(lo3 - 8 * lo) <= 1e-12 * lo3 and
            abs(hi3 - 8 * hi) <= 1e-12 * hi3,
            'interval of 8*dev is (%r,%r), of dev (%r,%r)', lo3, hi3, lo, hi)
    e2 = c['edf2']
    lo4, hi4 = interval(dev, e2, a)
    if abs(e2 - edf) > 1e-3 * edf:
        wide, narrow = (hi / lo, hi4 / lo4) if edf < e2 else (
            hi4 / lo4, hi / lo)
        require(wide > narrow, 'hi/lo grows with EDF: edf %r -> %r, edf %r '
                '-> %r', edf, hi / lo, e2, hi4 / lo4)
        ev.nt(abs(a - b) > 1e-9)
    lo5, hi5 = interval(dev, 1e7, a)
    require(abs(lo5 / dev - 1) < 0.01 and abs(hi5 / dev - 1) < 0.01,
            'edf=1e7: (%r, %r) for dev %r', lo5, hi5, dev)
