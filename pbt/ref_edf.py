"""Equivalent degrees of freedom, after Greenhall & Riley, "Uncertainty of
stability variances based on finite differences" (PTTI 2003), reproduced in
NIST SP1065 section 5.4.1.  Long double; written from the paper's formulas."""
from math import comb

import numpy as np

LD = np.longdouble
INF = float('inf')
JMAX = 100

# Table 1 (modified), Table 2 (unmodified, alpha<=0), Table 3 (alpha=1)
T1 = {(2, 1): (2 / 3., 1 / 3.), (2, 2): (7 / 9., 1 / 2.),
      (2, 3): (22 / 25., 2 / 3.),
      (1, 1): (.840, .345), (1, 2): (.997, .616), (1, 3): (1.141, .843),
      (0, 1): (1.079, .368), (0, 2): (1.033, .607), (0, 3): (1.184, .848),
      (-1, 2): (1.048, .534), (-1, 3): (1.180, .816),
      (-2, 2): (1.302, .535), (-2, 3): (1.175, .777),
      (-3, 3): (1.194, .703), (-4, 3): (1.489, .702)}
T2 = {(2, 1): (3 / 2., 1 / 2.), (2, 2): (35 / 18., 1.),
      (2, 3): (231 / 100., 3 / 2.),
      (1, 1): (78.6, 25.2), (1, 2): (790., 410.), (1, 3): (9950., 6520.),
      (0, 1): (2 / 3., 1 / 6.), (0, 2): (2 / 3., 1 / 3.),
      (0, 3): (7 / 9., 1 / 2.),
      (-1, 2): (.852, .375), (-1, 3): (.997, .617),
      (-2, 2): (1.079, .368), (-2, 3): (1.033, .607),
      (-3, 3): (1.053, .553), (-4, 3): (1.302, .535)}
T3 = {1: (6., 4.), 2: (15.23, 12.), 3: (47.8, 40.)}


def sw(t, alpha):
    """generalised autocovariance of the random function, up to sign."""
    t = np.abs(np.asarray(t, dtype=LD))
    if alpha % 2 == 0:
        v = t ** (3 - alpha) if alpha <= 0 else t
        return v if alpha != 2 else t
    p = 3 - alpha                                    # 2, 4, 6
    out = np.zeros_like(t)
    nz = t > 0
    out[nz] = t[nz] ** p * np.log(t[nz])
    return out


def sx(t, F, alpha):
    t = np.asarray(t, dtype=LD)
    if F == INF:
        return sw(t, alpha + 2)
    h = 1 / LD(F)
    return LD(F) ** 2 * (2 * sw(t, alpha) - sw(t - h, alpha)
                         - sw(t + h, alpha))


def sz(t, F, alpha, d):
    t = np.asarray(t, dtype=LD)
    out = np.zeros_like(t)
    for k in range(-d, d + 1):
        out += (-1) ** k * comb(2 * d, d + k) * sx(t + k, F, alpha)
    return out


def basic_sum(J, M, S, F, alpha, d):
    J = LD(J)
    j = np.arange(1, int(J)).astype(LD)
    z0 = sz([0], F, alpha, d)[0]
    zJ = sz([J / LD(S)], F, alpha, d)[0]
    zj = sz(j / LD(S), F, alpha, d)
    return z0 ** 2 + (1 - J / LD(M)) * zJ ** 2 + \
        2 * np.sum((1 - j / LD(M)) * zj ** 2)


def layout(d, m, N, overlapping, modified):
    F = 1 if modified else m
    S = m if overlapping else 1
    num = S * (N * F - m - m * d * F)      # S (N-L)/m with L = m/F + m d
    M = 1 + num // (m * F)
    return F, S, M


def greenhall(alpha, d, m, N, overlapping, modified):
    """list of admissible values (two at the r = d+1 tie); None where the
    library states it has no formula (alpha=2, K<=d)."""
    F, S, M = layout(d, m, N, overlapping, modified)
    J = min(M, (d + 1) * S)
    r = LD(M) / LD(S)

    def z0(f):
        return sz([0], f, alpha, d)[0]

    def tied(above, below):
        if M == (d + 1) * S:
            return [above(), below()]
        return [above()] if M > (d + 1) * S else [below()]

    if modified:
        if J <= JMAX:
            return [z0(1) ** 2 * M / basic_sum(J, M, S, 1, alpha, d)]
        a0, a1 = T1[(alpha, d)]
        return tied(lambda: r / (a0 - a1 / r),
                    lambda: z0(1) ** 2 * JMAX / basic_sum(
                        JMAX, JMAX, JMAX / r, 1, alpha, d))
    if alpha <= 0:
        if J <= JMAX:
            f = m if m * (d + 1) <= JMAX else INF
            return [z0(f) ** 2 * M / basic_sum(J, M, S, f, alpha, d)]
        a0, a1 = T2[(alpha, d)]
        return tied(lambda: r / (a0 - a1 / r),
                    lambda: z0(INF) ** 2 * JMAX / basic_sum(
                        JMAX, JMAX, JMAX / r, INF, alpha, d))
    if alpha == 1:
        if J <= JMAX:
            return [z0(m) ** 2 * M / basic_sum(J, M, S, m, 1, d)]
        a0, a1 = T2[(1, d)]
        b0, b1 = T3[d]
        q = (b0 + b1 * np.log(LD(m))) ** 2
        return tied(lambda: q * r / (a0 - a1 / r),
                    lambda: q * JMAX / basic_sum(JMAX, JMAX, JMAX / r,
                                                 JMAX / r, 1, d))
    K = int(np.ceil(r))
    if K <= d:
        return None
    a0 = LD(comb(4 * d, 2 * d)) / LD(comb(2 * d, d)) ** 2
    return [M / (a0 - LD(d) / 2 / r)]


def full_sum(alpha, d, m, N, overlapping, modified):
    """EDF with no truncation and no approximation: 2 E^2/Var of the
    estimator for Gaussian noise with the generalised autocovariance."""
    F, S, M = layout(d, m, N, overlapping, modified)
    top = min(M - 1, 24 * S)            # covariance negligible beyond
    j = np.arange(1, top + 1).astype(LD)
    z0 = sz([0], F, alpha, d)[0]
    zj = sz(j / LD(S), F, alpha, d)
    return z0 ** 2 * M / (z0 ** 2 + 2 * np.sum((1 - j / LD(M)) * zj ** 2))
