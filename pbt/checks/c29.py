"""C29: ITU clock masks against the recommendations' tables."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import sub, require, call
from ..env import at

# segments (upper limit of tau in s, a, b): a*tau + b nanoseconds
TABLES = {
    # G.811 (1997) Amd 1
    'prc_tdev': [(100, 0, 3), (1000, 0.03, 0), (np.inf, 0, 30)],
    'prc_mtie': [(1000, 0.275, 25), (np.inf, 0.01, 290)],
    # G.8272.1 (2016) Amd 1
    'eprtc_tdev': [(3e4, 0, 1), (3e5, 3.33333e-5, 0), (np.inf, 0, 10)],
    'eprtc_mtie': [(1, 0, 4), (100, 0.11114, 3.89), (4e5, 3.75e-5, 15),
                   (np.inf, 0, 30)],
    # G.8272 (2018)
    'prtcA_tdev': [(100, 0, 3), (1000, 0.03, 0), (np.inf, 0, 30)],
    'prtcB_tdev': [(100, 0, 1), (500, 0.01, 0), (np.inf, 0, 5)],
    'prtcA_mtie': [(273, 0.275, 25), (np.inf, 0, 100)],
    'prtcB_mtie': [(54.5, 0.275, 25), (np.inf, 0, 40)],
}
ORDER = [('prtcB_tdev', 'prtcA_tdev'), ('prtcA_tdev', 'prc_tdev'),
         ('prtcB_mtie', 'prtcA_mtie'), ('prtcA_mtie', 'prc_mtie'),
         ('eprtc_tdev', 'prtcA_tdev'), ('eprtc_mtie', 'prtcB_mtie')]
BREAKS = sorted({s[0] for t in TABLES.values() for s in t
                 if np.isfinite(s[0])})
STEP = 2e-3        # the published segments meet within 0.08 %

tau = st.one_of(
    st.floats(-6, 12).map(lambda v: float(10 ** v)),
    gen.uni(1, 10 ** 6),
    st.sampled_from(BREAKS),
    st.tuples(st.sampled_from(BREAKS), st.sampled_from([-1.0, -0.5, 0.5, 1.0]))
    .map(sum),
    st.tuples(st.sampled_from(BREAKS), st.sampled_from(
        [1 - 1e-12, 1 + 1e-12, 1 - 1e-3, 1 + 1e-3, 0.9, 1.1]))
    .map(lambda p: float(p[0] * p[1])))


def value(name, t, wrap=None):
    v = {'np': np.float64, None: lambda u: u}[wrap](t)
    r = call(getattr(at.mask, name), v, what=name)
    try:
        r = float(r)
    except (TypeError, ValueError):
        require(False, '%s(%r) returned %r', name, t, r)
    return r


def table(name, t):
    for hi, a, b in TABLES[name]:
        if t <= hi:
            return (a * t + b) * 1e-9


@sub('C29', 'tables', st.fixed_dictionaries(
    {'name': st.sampled_from(sorted(TABLES)),
     't': st.lists(tau, min_size=2, max_size=6),
     'wrap': st.sampled_from([None, 'np'])}), 6000, shards=4,
     rule='every mask at any averaging time equals the recommendation\'s '
          'segment formula (either one at a breakpoint) and never decreases '
          'beyond the published 0.1 %; non-trivial = taus in >=2 segments')
def _tab(c, ev):
    ts = sorted(c['t'])
    prev = 0.0
    segs = set()
    for t in ts:
        got = value(c['name'], t, c['wrap'])
        want = [table(c['name'], t)]
        for hi, a, b in TABLES[c['name']]:
            segs.update([hi] if t <= hi else [])
            if np.isfinite(hi) and abs(t - hi) <= 1e-9 * hi:
                want.append(table(c['name'], hi * (1 + 1e-6)))
        require(any(abs(got - w) <= 1e-5 * w for w in want),
                '%s(%r) = %r s, the recommendation has %s', c['name'], t,
                got, want)
        require(got >= prev * (1 - STEP), '%s decreases from %r to %r at '
                'tau=%r', c['name'], prev, got, t)
        prev = got
    first = [next(h for h, _, _ in TABLES[c['name']] if t <= h) for t in ts]
    ev.nt(len(set(first)) >= 2)
    ev.label(c['name'])


@sub('C29', 'ordering', st.fixed_dictionaries(
    {'pair': gen.uni(0, len(ORDER) - 1), 't': tau}), 3000,
     rule='a better clock class never has a looser mask; non-trivial = the '
          'two differ')
def _ord(c, ev):
    a, b = ORDER[c['pair']]
    va, vb = value(a, c['t']), value(b, c['t'])
    require(va <= vb * (1 + STEP), 'tau=%r: %s = %r exceeds %s = %r', c['t'],
            a, va, b, vb)
    ev.nt(va < vb * 0.99)
