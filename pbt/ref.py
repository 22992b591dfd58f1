"""Reference models, written from NIST SP1065 / the cited papers.

Long double throughout; direct sums over explicit index sets; no code shared
with (or derived from) allantools.  Each dev_* returns (tau * deviation, n):
the deviation in units of the phase data, so tolerances are in phase units.
m is the averaging factor, x the phase record.
"""
import numpy as np

LD = np.longdouble


def ld(x):
    return np.asarray(x, dtype=LD)


def _rms(v, denom):
    v = ld(v)
    if len(v) == 0:
        return LD(0), 0
    return np.sqrt(np.sum(v * v) / (LD(denom) * len(v))), len(v)


def diff2(x, m, start):
    """x[i+2m]-2x[i+m]+x[i] at the given start indices."""
    i = np.asarray(start, dtype=int)
    return x[i + 2 * m] - 2 * x[i + m] + x[i]


def diff3(x, m, start):
    i = np.asarray(start, dtype=int)
    return x[i + 3 * m] - 3 * x[i + 2 * m] + 3 * x[i + m] - x[i]


def starts(n, span, stride):
    """All i = 0, stride, 2*stride.. with i+span <= n-1."""
    return np.arange(0, max(0, n - span), stride)


def adev(x, m):
    x = ld(x)
    return _rms(diff2(x, m, starts(len(x), 2 * m, m)), 2)


def oadev(x, m):
    x = ld(x)
    return _rms(diff2(x, m, starts(len(x), 2 * m, 1)), 2)


def hdev(x, m):
    x = ld(x)
    return _rms(diff3(x, m, starts(len(x), 3 * m, m)), 6)


def ohdev(x, m):
    x = ld(x)
    return _rms(diff3(x, m, starts(len(x), 3 * m, 1)), 6)


def window_mean(x, m):
    """mean of x[i:i+m] for each i, by direct summation."""
    x = ld(x)
    n = len(x) - m + 1
    if n <= 0:
        return ld([])
    if m > 200:
        c = np.concatenate((ld([0]), np.cumsum(x)))
        return (c[m:] - c[:-m]) / m
    out = np.zeros(n, dtype=LD)
    for k in range(m):
        out += x[k:k + n]
    return out / m


def mdev(x, m):
    """second difference at stride m of m-point averaged phase."""
    w = window_mean(x, m)
    if len(w) < 2 * m + 1:
        return LD(0), 0
    return _rms(diff2(w, m, starts(len(w), 2 * m, 1)), 2)


def pdev(x, m):
    """Vernotte et al. 2016: least-squares slopes over adjacent windows.

    Frequency estimate of a window = regression slope over m phase samples
    (for m=1, the phase difference itself); PVAR = half the mean square of
    the difference of two adjacent estimates.
    """
    x = ld(x)
    n = len(x)
    if m == 1:
        return oadev(x, 1)
    k = ld(np.arange(m)) - LD(m - 1) / 2
    M = n - 2 * m
    if M < 1:
        return LD(0), 0
    v = np.zeros(M, dtype=LD)
    for j in range(m):
        v += k[j] * (x[m + j:m + j + M] - x[j:j + M])
    # slope*m (phase units): 12 m/(m(m^2-1)); the library uses m^2 for m^2-1
    v = v * 12 / LD(m) ** 2
    return _rms(v, 2)


def totdev(x, m):
    """SP1065 eq. 25: reflect the record about both end points."""
    x = ld(x)
    n = len(x)

    def ext(i):
        if i < 0:
            return 2 * x[0] - x[-i]
        if i > n - 1:
            return 2 * x[n - 1] - x[2 * (n - 1) - i]
        return x[i]
    v = [ext(i - m) - 2 * ext(i) + ext(i + m) for i in range(1, n - 1)]
    return _rms(v, 2)


def _mtot_windows(seq, m, start):
    """3m-point subsequence, half-mean slope removed, reflected to 9m."""
    s = ld(seq[start:start + 3 * m])
    L = 3 * m
    h = L // 2
    first, last = s[:h], s[L - h:]
    mean1, mean2 = np.sum(first) / h, np.sum(last) / h
    # distance between the centres of the two halves, in samples
    dist = LD(L - h) if L % 2 == 0 else LD(h + 1)
    slope = (mean2 - mean1) / dist
    s = s - slope * ld(np.arange(L))
    return np.concatenate((s[::-1], s, s[::-1]))


def _mtot_sum(seq, m, start):
    e = _mtot_windows(seq, m, start)
    w = window_mean(e, m)          # 8m+1 window means
    i = np.arange(0, 6 * m)
    v = w[i] - 2 * w[i + m] + w[i + 2 * m]
    return v


def mtotdev(x, m):
    n = len(x)
    cnt = n - 3 * m + 1
    if cnt < 1:
        return LD(0), 0
    tot = LD(0)
    for s in range(cnt):
        v = _mtot_sum(x, m, s)
        tot += np.sum(v * v) / (6 * m)
    return np.sqrt(tot / (2 * cnt)), cnt


def htotdev(y, m):
    """SP1065 eq. 29 on frequency data; returns (deviation, n), m >= 2."""
    n = len(y)
    cnt = n - 3 * m + 1
    if cnt < 1:
        return LD(0), 0
    tot = LD(0)
    for s in range(cnt):
        v = _mtot_sum(y, m, s)
        tot += np.sum(v * v) / (6 * m)
    return np.sqrt(tot / (6 * cnt)), cnt


def theo1(x, m):
    """SP1065 eq. 30. m even. Returns (m*tau0*dev, number of terms)."""
    x = ld(x)
    n = len(x)
    h = m // 2
    tot = LD(0)
    cnt = 0
    i = np.arange(0, n - m)
    for d in range(h):
        v = (x[i] - x[i - d + h]) + (x[i + m] - x[i + d + h])
        tot += np.sum(v * v) / LD(h - d)
        cnt += len(i)
    return np.sqrt(tot / (LD(3) / 4 * (n - m))), cnt


def tierms(x, m):
    x = ld(x)
    d = x[m:] - x[:-m]
    return np.sqrt(np.mean(d * d)), len(d)


def mtie(x, m):
    """max over windows of m+1 points of (max - min)."""
    n = len(x)
    best = 0.0
    for i in range(0, n - m):
        w = x[i:i + m + 1]
        r = max(w) - min(w)
        if r > best:
            best = r
    return LD(best), n - m


def phase_from_freq(y, rate):
    y = ld(y)
    good = np.where(~np.isnan(y))[0]
    y = y[good[0]:good[-1] + 1]
    y = y - np.mean(y[~np.isnan(y)])
    return np.concatenate((ld([0]), np.cumsum(y) / LD(rate)))


# ---------------------------------------------------------------- edf
def edf_simple(N, m, alpha):
    """NIST SP1065 table 5, overlapping Allan variance."""
    N, m = LD(N), LD(m)
    if alpha == 2:
        return (N + 1) * (N - 2 * m) / (2 * (N - m))
    if alpha == 1:
        return np.exp(np.sqrt(np.log((N - 1) / (2 * m)) *
                              np.log((2 * m + 1) * (N - 1) / 4)))
    if alpha == 0:
        return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * \
            (4 * m ** 2 / (4 * m ** 2 + 5))
    if alpha == -1:
        if m == 1:
            return 2 * (N - 2) ** 2 / (LD(23) / 10 * N - LD(49) / 10)
        return 5 * N ** 2 / (4 * m * (N + 3 * m))
    if alpha == -2:
        return (N - 2) / m * ((N - 1) ** 2 - 3 * m * (N - 1) + 4 * m ** 2) \
            / (N - 3) ** 2
    return N - 1
