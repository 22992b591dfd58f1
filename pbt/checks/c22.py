"""C22: lag-1 autocorrelation noise identification and the intervals on it."""
import numpy as np
import scipy.signal
from hypothesis import strategies as st

from ..core import sub, require, call, as_array, Violation
from .. import gen
from ..env import at

LD = np.longdouble


def noise_id(x, af, **kw):
    """None if it refuses (too short)."""
    r = call(at.autocorr_noise_id, x, af, allow=(NotImplementedError,),
             what='autocorr_noise_id', **kw)
    if isinstance(r, NotImplementedError):
        return None
    try:
        a, alpha, d, rho = r
    except (TypeError, ValueError):
        raise Violation('autocorr_noise_id returned %r' % (r,))
    require(float(a) == int(a) and float(d) == int(d), 'alpha_int %r, d %r',
            a, d)
    return int(a), float(alpha), int(d), float(rho)


def reduce_data(x, af, data_type):
    if data_type == 'phase':
        return np.array(x[::af], dtype=float)
    k = len(x) // af
    return np.array([np.sum(x[i * af:(i + 1) * af]) / af for i in range(k)])


def detrended(x, deg):
    """least-squares polynomial removed, via an orthonormal basis."""
    t = np.linspace(-1, 1, len(x))
    q, _ = np.linalg.qr(np.vander(t, deg + 1))
    x = np.asarray(x, dtype=LD)
    q = q.astype(LD)
    for _ in range(2):
        x = x - q @ (q.T @ x)
    return x


def reference(x, data_type, dmin, dmax):
    """Riley 2004 -> (alpha, d, rho, margin); margin = distance to the
    nearest decision boundary crossed on the way."""
    z = detrended(x, 2 if data_type == 'phase' else 1)
    d, margin = 0, 1.0
    top = np.max(np.abs(x))
    while True:
        c = z - np.mean(z)
        if np.std(z) < 1e-7 * top:          # nothing but rounding left
            return np.nan, d, np.nan, 0.0
        r1 = np.sum(c[:-1] * c[1:]) / np.sum(c * c)
        rho = float(r1 / (1 + r1))
        if d >= dmin and d < dmax:
            margin = min(margin, abs(rho - 0.25))
        if d >= dmin and (rho < 0.25 or d >= dmax):
            alpha = -2 * (rho + d) + (2 if data_type == 'phase' else 0)
            f = abs(2 * rho - np.floor(2 * rho) - 0.5)
            return alpha, d, rho, min(margin, f)
        z = np.diff(z)
        d += 1


def integrate(x, times):
    for _ in range(times):
        x = np.cumsum(x - np.mean(x))
    return x


@st.composite
def cases(draw):
    af = draw(st.one_of(st.sampled_from([1, 1, 1, 2, 3, 5, 8]),
                        gen.uni(1, 120)))
    n = draw(st.one_of(gen.uni(30 * af - 8, 30 * af + 3),
                       gen.uni(30 * af, 60 * af),
                       gen.uni(31 * af, 200 + 31 * af)))
    if af <= 3 and draw(st.booleans()):
        n = draw(gen.block_lengths(200, 40000))
    x = draw(gen.series(n=max(4, n), kinds=['white', 'rw', 'rr', 'heavy',
                                            'sine', 'ints', 'alt', 'step'],
                        amps=[1.0, 1e-9, 1e6, 1e-18, 1e-60, 1e40],
                        offs=[0.0, 1.0, -10.0, 1e4],
                        slopes=[0.0, 0.1, -1.0]))
    dmin = draw(st.sampled_from([0, 0, 0, 1, 2]))
    return {'x': x, 'af': af, 'dt': draw(st.sampled_from(['phase', 'freq'])),
            'cum': draw(st.sampled_from([0, 0, 0, 1, 2])),
            'dmin': dmin, 'dmax': draw(st.sampled_from([2, 2, 3, 4])),
            'defaults': draw(st.booleans())}


@sub('C22', 'definition', cases(), 3500, shards=6,
     rule='series of 8 kinds, to 40000 points, amplitudes 1e-60..1e40, af '
          '1..120, phase/freq, dmin/dmax: refusal iff '
          'fewer than 30 points remain; rho, alpha and d equal the reference '
          'algorithm, alpha_int is alpha rounded, d within dmin..dmax; '
          'non-trivial = identified, away from decision boundaries')
def _def(c, ev):
    x = integrate(gen.expand(c['x']), c['cum'])
    af, dt = c['af'], c['dt']
    dmin, dmax = (0, 2) if c['defaults'] else (c['dmin'], c['dmax'])
    kw = {} if c['defaults'] else {'dmin': dmin, 'dmax': dmax}
    if not (c['defaults'] and dt == 'phase'):
        kw['data_type'] = dt
    z = reduce_data(x, af, dt)
    if len(z) >= 30 and np.std(detrended(z, 2).astype(float)) <= \
            1e-9 * np.max(np.abs(z)):
        return                      # nothing left but rounding noise
    got = noise_id(x, af, **kw)
    if len(z) < 30:
        require(got is None, '%d points left, but identified %r', len(z), got)
        ev.label('refused')
        return
    require(got is not None, 'refused with %d points', len(z))
    alpha, d, rho, margin = reference(z, dt, dmin, dmax)
    if margin < 1e-6 or not np.isfinite(rho):
        return
    a_int, a, gd, grho = got
    require(dmin <= gd <= dmax, 'd=%d outside %d..%d', gd, dmin, dmax)
    require(gd == d and abs(grho - rho) <= 1e-6 * (1 + abs(rho)) and
            abs(a - alpha) <= 1e-5 * (1 + abs(alpha)),
            'af=%d %s dmin=%d dmax=%d: (alpha %r, d %d, rho %r), reference '
            '(%r, %d, %r)', af, dt, dmin, dmax, a, gd, grho, alpha, d, rho)
    require(a_int == int(np.round(a)), 'alpha_int %d, alpha %r', a_int, a)
    ev.nt()
    ev.label('d=%d' % d, dt, 'af>1' if af > 1 else 'af=1')


@st.composite
def trends(draw):
    af = draw(st.one_of(st.sampled_from([1, 1, 2, 4]),
                        st.integers(1, 60)))
    return {'x': draw(gen.series(n=draw(gen.uni(31 * af, 60 * af)),
                                 kinds=['white', 'rw', 'rr', 'heavy'],
                                 offs=[0.0], slopes=[0.0], amps=[1.0])),
            'af': af, 'dt': draw(st.sampled_from(['phase', 'freq'])),
            'c': [draw(st.integers(-20, 20)) for _ in range(3)],
            'k': draw(st.sampled_from([2.0 ** -40, 1e-9, -1.0, 3.0, 1e6])),
            'dmax': draw(st.sampled_from([2, 3]))}


@sub('C22', 'invariance', trends(), 1500, shards=3,
     rule='scaling the data and adding constant/linear (and, for phase, '
          'quadratic) terms leaves alpha, d and rho unchanged; non-trivial = '
          'some trend or scale')
def _inv(c, ev):
    x = gen.expand(c['x'])
    t = np.arange(len(x)) / float(len(x))
    tr = c['c'][0] + c['c'][1] * t
    if c['dt'] == 'phase':
        tr = tr + c['c'][2] * t * t
    y = c['k'] * (x + tr * np.std(x))
    kw = {'data_type': c['dt'], 'dmax': c['dmax']}
    u, v = noise_id(x, c['af'], **kw), noise_id(y, c['af'], **kw)
    require(u is not None and v is not None, 'refused: %r %r', u, v)
    m = reference(reduce_data(x, c['af'], c['dt']), c['dt'], 0,
                  c['dmax'])[3]
    if m < 1e-6:
        return
    require(u[0] == v[0] and u[2] == v[2] and abs(u[3] - v[3]) <= 1e-6 *
            (1 + abs(u[3])), '%s af=%d: %r for x, %r for %r*(x+trend %r)',
            c['dt'], c['af'], u, v, c['k'], c['c'])
    ev.nt()


def power_law(n, delta, seed):
    """white noise filtered by (1-z^-1)^-delta: PSD ~ f^(-2 delta)."""
    k = np.arange(1, n)
    h = np.concatenate(([1.0], np.cumprod((k - 1 + delta) / k)))
    w = np.random.RandomState(seed).randn(n)
    return scipy.signal.fftconvolve(w, h)[:n]


@st.composite
def noises(draw):
    dt = draw(st.sampled_from(['phase', 'freq']))
    alpha = draw(st.integers(-2, 2))
    return {'dt': dt, 'alpha': alpha,
            'af': draw(st.sampled_from([1, 2, 4])) if
            (dt == 'phase' and alpha in (2, 0)) or
            (dt == 'freq' and alpha == 0) else 1,
            'n': draw(st.one_of(gen.uni(2000, 3000),
                                gen.uni(2000, 40000))), 's': draw(gen.seeds),
            'dmax': draw(st.sampled_from([2, 3]))}


@sub('C22', 'recovery', noises(), 500, shards=4,
     rule='power-law noise alpha=2..-2 made by an independent fractional '
          'filter, as phase or frequency, 2000-40000 points: alpha_int is the '
          'true exponent; non-trivial = always')
def _rec(c, ev):
    n = c['n'] * c['af']
    delta = (2 - c['alpha']) / 2.0 if c['dt'] == 'phase' else \
        -c['alpha'] / 2.0
    x = power_law(n, delta, c['s'])
    got = noise_id(x, c['af'], data_type=c['dt'], dmax=c['dmax'])
    require(got is not None and got[0] == c['alpha'], '%s data with '
            'alpha=%d, af=%d: identified %r', c['dt'], c['alpha'], c['af'],
            got)
    ev.nt()
    ev.label('alpha=%d' % c['alpha'], c['dt'])


DEVS = {'adev': (2, False, False), 'oadev': (2, True, False),
        'mdev': (2, True, True), 'tdev': (2, True, True),
        'hdev': (3, False, False), 'ohdev': (3, True, False)}


@st.composite
def composed(draw):
    af = draw(st.one_of(st.sampled_from([1, 1, 2, 3, 5, 9]),
                        st.integers(1, 80)))
    return {'x': draw(gen.series(n=draw(st.one_of(gen.uni(30 * af - 4, 45 * af),
                                              gen.uni(32 * af, 45 * af),
                                              gen.uni(40 * af, 70 * af))),
                                 kinds=['white', 'rw', 'rr'],
                                 amps=[1.0, 1e-9], offs=[0.0],
                                 slopes=[0.0])),
            'af': af, 'type': draw(st.one_of(st.sampled_from(sorted(DEVS)),
                                     st.sampled_from(sorted(DEVS) + [
                                         'totdev', 'mtie', 'nosuch']))),
            'cum': draw(st.sampled_from([0, 0, 1, 2])),
            'dt': draw(st.sampled_from([None, 'phase', 'freq'])),
            'dev': draw(st.sampled_from([1.0, 1e-12, 3.3])),
            'ci': draw(st.sampled_from([None, 0.5, 0.9, 0.95, 0.999]))}


@sub('C22', 'interval-composition', composed(), 2500, shards=4,
     rule='confidence_interval_noiseID for 6 deviations = noise ID (dmax 3 '
          'for Hadamard) -> Greenhall EDF (d, overlapping, modified of that '
          'deviation) -> chi-square interval; unsupported names and short '
          'data refuse; non-trivial = interval compared')
def _comp(c, ev):
    x = integrate(gen.expand(c['x']), c['cum'])
    kw = {'dev_type': c['type']}
    if c['dt']:
        kw['data_type'] = c['dt']
    if c['ci']:
        kw['ci'] = c['ci']
    got = call(at.confidence_interval_noiseID, x, c['dev'], c['af'],
               allow=(NotImplementedError, AssertionError), **kw)
    if c['type'] not in DEVS:
        require(isinstance(got, NotImplementedError), 'dev_type=%r gives %r',
                c['type'], got)
        ev.label('unsupported')
        return
    d, ov, mod = DEVS[c['type']]
    nid = noise_id(x, c['af'], data_type=c['dt'] or 'phase',
                   dmax=3 if d == 3 else 2)
    if nid is None:
        require(isinstance(got, NotImplementedError), 'short data: %r', got)
        ev.label('short')
        return
    # the estimate scatters beyond the range the EDF is defined on
    alpha = max(min(nid[0], 2), -2 if d == 2 else -4)
    require(not isinstance(got, Exception), '%s refused, identified '
            'exponent %d', c['type'], nid[0])
    want = []
    for N in ([len(x)] if c['dt'] != 'freq' else [len(x), len(x) + 1]):
        e = call(at.edf_greenhall, alpha=alpha, d=d, m=c['af'], N=N,
                 overlapping=ov, modified=mod)
        want.append(call(at.confidence_interval, c['dev'], e,
                         **({'ci': c['ci']} if c['ci'] else {})))
    g = as_array(got, 'interval')
    require(g.shape == (2,) and any(
        np.allclose(g, w, rtol=1e-9, atol=0)
        for w in want), '%s af=%d alpha=%d: interval %s, expected %s',
        c['type'], c['af'], nid[0], g, want)
    ev.nt()
    ev.label(c['type'], 'clamped' if alpha != nid[0] else 'in-range')
