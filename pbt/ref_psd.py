"""Reference integrals of sin^4(z) z^-p (Allan) and 4/3 sin^6(z) z^-p
(Hadamard): closed form over (0, inf), and cell-wise Gauss-Legendre plus an
asymptotic tail over any interval.  Nothing here calls scipy.integrate."""
import numpy as np
from scipy.special import gamma

X, W = np.polynomial.legendre.leggauss(20)
X, W = (X + 1) / 2, W / 2
Z = 30 * np.pi
FOURIER = {'adev': np.array([3., -4., 1.]) / 8,
           'hdev': np.array([10., -15., 6., -1.]) / 24}


def closed(p, kind='adev'):
    """integral over (0, inf); removable poles at integer p are averaged."""
    p = float(p)
    if abs(p - round(p)) < 1e-3:
        r = float(round(p))
        # even-order Richardson around the pole, then linear in p
        d = 2e-3
        lo, hi = closed(r - d, kind), closed(r + d, kind)
        lo2, hi2 = closed(r - 2 * d, kind), closed(r + 2 * d, kind)
        mid = (4 * (lo + hi) / 2 - (lo2 + hi2) / 2) / 3
        return mid + (p - r) * (hi - lo) / (2 * d)
    g = gamma(1 - p) * np.sin(np.pi * p / 2)
    if kind == 'adev':
        return g * (-0.5 * 2 ** (p - 1) + 4 ** (p - 1) / 8)
    return g * (4. / 3) * (-15 * 2 ** (p - 1) + 6 * 4 ** (p - 1) -
                           6 ** (p - 1)) / 32


def transfer(z, kind):
    return np.sin(z) ** 4 if kind == 'adev' else 4 / 3. * np.sin(z) ** 6


def cells(edges, p, kind):
    w = np.diff(edges)
    z = edges[:-1][:, None] + X * w[:, None]
    return np.sum(transfer(z, kind) * z ** -p * W * w[:, None])


def segment(a, b, p, kind='adev'):
    """integral over (a, b); 0 <= a <= b <= inf, p < 5 (7 for hdev)."""
    tot = 0.0
    hi = min(b, max(a, Z))
    if a < min(hi, 0.5):
        top = min(hi, 0.5)
        if a == 0:
            # transfer = z^n (1 - ...): z = top * u^(1/s) removes the power
            n = 4 if kind == 'adev' else 6
            s = n + 1 - p
            e = top * 2.0 ** -np.arange(30.0, -1, -1)
            tot += cells(e, p, kind)
            tot += (1 if n == 4 else 4 / 3.) * e[0] ** s / s
        else:
            k = int(np.ceil(np.log2(top / a))) + 1
            tot += cells(np.geomspace(a, top, k + 1), p, kind)
        a = top
    if a < hi:
        tot += cells(np.linspace(a, hi, int((hi - a) / 0.7) + 2), p, kind)
        a = hi
    if a < b:
        c = FOURIER[kind]
        q = 1 - p
        if q == 0:
            tot += c[0] * np.log(b / a)
        else:
            tot += c[0] * ((0 if np.isinf(b) else b ** q) - a ** q) / q

        def osc(k, x):
            if np.isinf(x):
                return 0.0
            # repeated integration by parts of exp(ikz) z^-p
            t = np.exp(1j * k * x) * x ** -p / (1j * k)
            out = t
            for j in range(8):
                t = t * (p + j) / (1j * k * x)
                out = out + t
            return out.real
        for j in range(1, len(c)):
            tot += c[j] * (osc(2 * j, b) - osc(2 * j, a))
    return tot
