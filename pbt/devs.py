"""Calling the deviation functions and comparing them with reference rows."""
import numpy as np

from .env import at
from .core import call, Violation, require, as_array

EPS = 2.3e-16


def unpack4(r, what):
    try:
        t, d, e, n = r
    except (TypeError, ValueError):
        raise Violation('%s did not return a 4-tuple: %r' % (what, r))
    return t, d, e, n


def run_dev(fn, data, **kw):
    """-> (taus, devs, errs, ns) float arrays, or None if it declined with
    UserWarning (nothing left to report)."""
    if isinstance(fn, str):
        fn = getattr(at, fn)
    name = fn.__name__
    r = call(fn, data, allow=(UserWarning,), what=name, **kw)
    if isinstance(r, UserWarning):
        return None
    t, d, e, n = unpack4(r, name)
    t, d, n = (as_array(a, name) for a in (t, d, n))
    if name != 'gradev':
        e = as_array(e, name)
        require(e.shape == t.shape, '%s: error column has shape %s, taus %s',
                name, e.shape, t.shape)
    require(t.ndim == 1 and t.shape == d.shape == n.shape,
            '%s: columns of unequal shape %s %s %s', name, t.shape, d.shape,
            n.shape)
    return t, d, e, n


def check_rows(name, got, rows, rate, floor, rtol=1e-8, err_n=None,
               scale=1.0):
    """rows: list of (m, tau*dev*scale reference, n) that must be reported.

    floor: absolute rounding allowance, in units of tau*dev.
    scale: multiply (dev*tau) by this to get the reference's units.
    err_n: function (m, n) -> count in the dev/sqrt(count) error column, or
           None to skip the error column.
    """
    rows = [r for r in rows if r[2] > 1]
    if not rows:
        require(got is None, '%s: reported %r although no tau has two terms',
                name, got)
        return
    require(got is not None, '%s: declined although m=%s have >= 2 terms',
            name, [r[0] for r in rows])
    t, d, e, n = got
    want_t = np.array([r[0] for r in rows]) / float(rate)
    require(len(t) == len(want_t) and np.allclose(t, want_t, rtol=1e-9,
                                                  atol=0),
            '%s: taus %s, expected %s (m=%s, rate=%r)', name, t.tolist(),
            want_t.tolist(), [r[0] for r in rows], rate)
    for i, (m, ref, cnt) in enumerate(rows):
        require(n[i] == cnt, '%s: m=%d reports n=%r, definition has %d terms',
                name, m, n[i], cnt)
        tau = m / float(rate)
        val = float(d[i]) * tau * scale
        ref = float(ref)
        fl = floor(m) if callable(floor) else floor
        tol = rtol * abs(ref) + fl
        require(np.isfinite(val) and abs(val - ref) <= tol,
                '%s: m=%d rate=%r: deviation %r, definition gives %r '
                '(difference %.3g, tolerance %.3g, in tau*dev)', name, m,
                rate, float(d[i]), ref / tau / scale, abs(val - ref), tol)
        if err_n is not None:
            want = float(d[i]) / np.sqrt(err_n(m, cnt))
            require(abs(e[i] - want) <= 1e-9 * abs(want),
                    '%s: m=%d error %r, expected dev/sqrt(%r)=%r', name, m,
                    float(e[i]), err_n(m, cnt), want)


def rounding(x, mult=64.0):
    """Absolute rounding allowance for phase sums over record x."""
    mx = float(np.max(np.abs(x))) if len(x) else 0.0
    return mult * EPS * mx * (1.0 + 0.2 * len(x))


# ---------------------------------------------------------- function families
FREQ_TYPE = ['adev', 'oadev', 'hdev', 'ohdev', 'mdev', 'pdev', 'totdev',
             'mtotdev', 'htotdev', 'theo1', 'gradev']      # ~ frequency units
TIME_TYPE = ['tdev', 'ttotdev', 'mtie', 'tierms']          # ~ phase units
ALL = FREQ_TYPE + TIME_TYPE
SLOW = {'mtotdev': 26, 'ttotdev': 26, 'htotdev': 26, 'theo1': 40, 'pdev': 50}
SPAN = {'adev': 2, 'oadev': 2, 'totdev': 1, 'theo1': 1, 'mtie': 1,
        'tierms': 1, 'gradev': 2}


def max_len(fn, usual=60):
    return min(usual, SLOW.get(fn, usual))


def in_phase_units(fn, r):
    """Deviation column in units of the phase data."""
    t, d, e, n = r
    return d if fn in TIME_TYPE else d * t


def errs(fn, r):
    """Error column(s) as a list of arrays."""
    if fn == 'gradev':
        return [as_array(r[2][0], fn), as_array(r[2][1], fn)]
    return [as_array(r[2], fn)]


def n_terms(fn, n, m):
    """Number of terms of estimator fn on an n-point phase record."""
    if fn == 'adev':
        return len(range(0, n - 2 * m, m))
    if fn == 'hdev':
        return len(range(0, n - 3 * m, m))
    if fn in ('oadev', 'gcodev', 'gradev', 'pdev'):
        return n - 2 * m
    if fn == 'ohdev':
        return n - 3 * m
    if fn in ('mdev', 'tdev', 'mtotdev', 'ttotdev'):
        return n - 3 * m + 1
    if fn == 'totdev':
        return n - 2
    if fn == 'htotdev':
        return n - 3 if m == 1 and n >= 4 else n - 1 - 3 * m + 1
    if fn == 'theo1':
        return (n - m) * m // 2 if m % 2 == 0 else 0
    if fn in ('mtie', 'tierms'):
        return n - m
    raise ValueError(fn)


def expected_rows(fn, n, mlist):
    """[(m, n_terms)] that must be reported for averaging factors mlist."""
    top = n - 1 if fn == 'htotdev' else n
    out = []
    for m in sorted(set(mlist)):
        if not 0 < m < top:
            continue
        if fn in ('mtotdev', 'ttotdev', 'htotdev') and 3 * m > top:
            continue
        k = n_terms(fn, n, m)
        if k > 1:
            out.append((m, k))
    return out
