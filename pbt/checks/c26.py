"""C26: Timmer-Koenig synthesis from a piecewise power-law PSD."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..env import at

DT = [1.0, 1, 0.1, 0.01, 10.0, 0.5, 2, 3.0, 1e-3, 1e-6, 3600, 86400.0]


@st.composite
def psds(draw, maxseg=4):
    k = draw(gen.uni(1, maxseg))
    return {'h': [draw(st.sampled_from([1.0, 1e-24, 3e-20, 1e3, 2, 0.25]))
                  for _ in range(k)],
            'al': [draw(st.sampled_from([0, 1, 2, -1, -2, -3, 0.5, -1.5, -4, 3]))
                   for _ in range(k)],
            'nodes': sorted(draw(st.lists(st.integers(1, 99), min_size=k - 1,
                                          max_size=k - 1, unique=True)))}


@st.composite
def cases(draw):
    c = draw(psds(draw(st.sampled_from([4, 4, 9]))))
    c['n'] = draw(st.one_of(st.integers(4, 40), st.integers(40, 400),
                            gen.uni(4, 8000)))
    c['dt'] = draw(st.sampled_from(DT))
    c['s'] = draw(gen.seeds)
    c['grid'] = draw(st.booleans())
    return c


def grid(n, dt):
    """documented frequency grid."""
    return np.linspace(1.0 / ((n - 1) * dt), 1.0 / (2 * dt), n // 2 + 1)


def nodes_of(c):
    """node frequencies inside the band; on grid points if asked."""
    n, dt = c['n'], float(c['dt'])
    g = grid(n, dt)
    if c['grid']:
        f = sorted({g[int(round(v * (len(g) - 1) / 100.0))]
                    for v in c['nodes']})
        if len(f) < len(c['nodes']):
            f = [g[0] * (g[-1] / g[0]) ** (v / 100.0) for v in c['nodes']]
    else:
        f = [g[0] * (g[-1] / g[0]) ** (v / 100.0) for v in c['nodes']]
    return np.array(f)


def synth(f, h, al, n, dt, seed, **kw):
    """duration chosen so that int(duration/dt) is n beyond doubt."""
    x = as_array(call(at.timmer_koenig_from_psd, f, h, al, (n + 0.5) * dt,
                      dt, seed=seed, **kw), 'timmer_koenig_from_psd')
    require(x.shape == (n,), '%d samples requested, shape %s', n, x.shape)
    require(np.all(np.isfinite(x)), 'non-finite values')
    return x


def pieces(f, h, al, g):
    """allowed S_y at each grid frequency: one value, two at a node."""
    lo = np.searchsorted(f, g * (1 - 1e-12), side='right')
    hi = np.searchsorted(f, g * (1 + 1e-12), side='right')
    h, al = np.array(h, dtype=float), np.array(al, dtype=float)
    return h[lo] * g ** al[lo], h[hi] * g ** al[hi], lo != hi


@sub('C26', 'spectrum-shape', cases(), 4000, shards=4,
     rule='same seed, requested PSD (1-9 segments, nodes on or off the '
          'grid) against a flat-phase reference: every DFT bin is in the '
          'ratio sqrt(S_x/S_ref) at the documented grid frequency, zero '
          'mean; even and odd lengths; non-trivial = n>=8')
def _shape(c, ev):
    n, dt = c['n'], float(c['dt'])
    f = nodes_of(c)
    x = synth(f, c['h'], c['al'], n, c['dt'], c['s'] % 2 ** 31)
    r = synth([], [1.0], [2.0], n, c['dt'], c['s'] % 2 ** 31)
    X, Rf = np.fft.rfft(x), np.fft.rfft(r)
    g = grid(n, dt)
    a, b, tie = pieces(f, c['h'], c['al'], g)
    ref = g ** 2
    nb = n // 2 + 1
    top = np.max(np.abs(X))
    require(abs(X[0]) <= 1e-9 * top, 'mean is not zero: %r', X[0] / n)
    for k in range(1, nb):
        ok = False
        for v in {a[k], b[k]} if tie[k] else {a[k]}:
            want = Rf[k] * np.sqrt(v / ref[k])
            ok |= abs(X[k] - want) <= 1e-7 * abs(want) + 1e-11 * top
        require(ok, 'n=%d dt=%r nodes=%s h=%s alpha=%s: bin %d (f=%r) has '
                'S_y %r, requested %r', n, c['dt'], f, c['h'], c['al'], k,
                g[k], float(abs(X[k] / Rf[k]) ** 2 * ref[k]), a[k])
    ev.nt(n >= 8)
    ev.label('segments=%d' % len(c['h']), 'odd' if n % 2 else 'even')


@st.composite
def lengths(draw):
    n = draw(gen.uni(4, 3000))
    kind = draw(st.sampled_from(['product', 'product', 'decimal', 'free']))
    dt = draw(st.one_of(
        st.sampled_from([0.1, 0.7, 1e-3, 1e-9, 1 / 3., 0.3, 86400.0, 1e6]),
        st.floats(1e-9, 1e9), gen.uni(1, 700).map(lambda k: k / 7.0)))
    if kind == 'decimal':
        dt = draw(st.integers(1, 99)) * 10.0 ** draw(st.integers(-6, 2))
        dur = float('%.9g' % (n * dt))
    elif kind == 'product':
        dur = n * dt
    else:
        dur = draw(st.floats(4.01, 3000)) * dt
    return {'dur': dur, 'dt': dt, 'kind': kind,
            'out': draw(st.sampled_from(['phase', 'freq']))}


@sub('C26', 'length', lengths(), 3000,
     rule='any duration and timestep, products and decimals that do not '
          'divide evenly in binary included: int(duration/timestep) samples; '
          'non-trivial = duration/timestep within 1e-9 of an integer')
def _length(c, ev):
    n = int(c['dur'] / c['dt'])
    if n < 4:
        return
    x = as_array(call(at.timmer_koenig_from_psd, [], [1.0], [0.0], c['dur'],
                      c['dt'], seed=1, output=c['out']),
                 'timmer_koenig_from_psd')
    require(len(x) == n, 'duration %r, timestep %r: %d samples, '
            'int(duration/timestep)=%d', c['dur'], c['dt'], len(x), n)
    q = c['dur'] / c['dt']
    ev.nt(abs(q - round(q)) < 1e-9 * q)
    ev.label(c['kind'])


@st.composite
def levels(draw):
    c = draw(psds(3))
    c['n'] = draw(st.one_of(
        st.sampled_from([2000, 2001, 3000, 4096, 4097]),
        gen.block_lengths(2000, 40000)))
    c['dt'] = draw(st.sampled_from(DT))
    c['s'] = draw(gen.seeds)
    c['grid'] = False
    return c


@st.composite
def ensembles(draw):
    c = draw(psds(2))
    c['n'] = draw(st.one_of(st.integers(4, 16), st.integers(4, 64)))
    c['dt'] = draw(st.sampled_from(DT))
    c['s'] = draw(gen.seeds)
    c['grid'] = False
    return c


@sub('C26', 'ensemble', ensembles(), 60, shards=6,
     rule='4-64 points, ensemble of seeds (12000 DFT values): mean power '
          'of the bins below Nyquist is (n-1)/dt S_x/2, as documented, '
          'within 6.5 sigma; real and imaginary parts share it evenly and '
          'do not correlate; non-trivial = always')
def _ensemble(c, ev):
    n, dt = c['n'], float(c['dt'])
    f = nodes_of(c)
    g = grid(n, dt)
    a, _, tie = pieces(f, c['h'], c['al'], g)
    k = np.arange(1, (n + 1) // 2)
    if np.any(tie[k]):
        return
    want = np.sqrt((n - 1) / dt * a[k] / (2 * np.pi * g[k]) ** 2 / 4)
    reps = -(-12000 // len(k))
    z = np.array([np.fft.rfft(synth(f, c['h'], c['al'], n, c['dt'],
                                    (c['s'] + i) % 2 ** 31))[k] / want
                  for i in range(reps)])
    top = np.sqrt(a[k]) / g[k]
    z = z[:, top > 1e-9 * np.max(top)]
    s = np.sqrt(z.size)
    re, im = np.mean(z.real ** 2), np.mean(z.imag ** 2)
    who = 'n=%d dt=%r nodes=%s h=%s alpha=%s: ' % (n, c['dt'], f, c['h'],
                                                   c['al'])
    require(abs(re - 1) <= 6.5 * 2 ** 0.5 / s and
            abs(im - 1) <= 6.5 * 2 ** 0.5 / s, '%sreal parts have %.4f, '
            'imaginary parts %.4f of the documented power', who, re, im)
    require(abs(np.mean(z.real * z.imag)) <= 6.5 / s and
            abs(np.mean(z.real)) <= 6.5 / s and
            abs(np.mean(z.imag)) <= 6.5 / s, '%scoefficients are biased or '
            'correlated: %r %r %r', who, np.mean(z.real), np.mean(z.imag),
            np.mean(z.real * z.imag))
    ev.nt()


@st.composite
def longs(draw):
    c = draw(psds(2))
    c['n'] = draw(st.sampled_from([100000, 131072, 150001, 200000]))
    c['dt'] = draw(st.sampled_from(DT))
    c['s'] = draw(gen.seeds)
    c['grid'] = False
    return c


@sub('C26', 'level-long', longs(), 12, shards=6,
     rule='the same on 100000-200000 points; non-trivial = always')
def _llong(c, ev):
    _level(c, ev)


@sub('C26', 'absolute-level', levels(), 400, shards=4,
     rule='2000-40000 points: one-sided periodogram over the requested S_x '
          'averages to 1 within 6.5 sigma (whole band, both halves), '
          'exponential distribution; non-trivial = always')
def _level(c, ev):
    n, dt = c['n'], float(c['dt'])
    f = nodes_of(c)
    x = synth(f, c['h'], c['al'], n, c['dt'], c['s'] % 2 ** 31)
    g = grid(n, dt)
    a, _, _ = pieces(f, c['h'], c['al'], g)
    p = 2 * dt / n * np.abs(np.fft.rfft(x)) ** 2 / (a / (2 * np.pi * g) ** 2)
    lead = p[1:(n - 1) // 2]
    # bins many orders below the strongest one drown in FFT rounding
    strong = a / g ** 2
    keep = strong[1:(n - 1) // 2] > 1e-18 * np.max(strong[1:])
    lead = lead[keep]
    h = len(lead) // 2
    if h < 100:
        return
    for part, nm in ((lead, 'band'), (lead[:h], 'lower half'),
                     (lead[h:], 'upper half')):
        require(abs(np.mean(part) - 1) <= 6.5 / np.sqrt(len(part)) + 2.0 / n,
                'n=%d dt=%r nodes=%s h=%s alpha=%s: %s at %.3f of the '
                'requested PSD', n, c['dt'], f, c['h'], c['al'], nm,
                np.mean(part))
    require(abs(np.mean(lead > np.log(2)) - 0.5) <= 3.5 / np.sqrt(len(lead)),
            'PSD bins are not exponentially distributed')
    ev.nt()


@sub('C26', 'seed-and-output', cases(), 1500, shards=2,
     rule='equal seeds equal output, different seeds differ, seed=None '
          'follows the global state; freq output = diff(phase)/dt with a '
          'leading 0; scaling h by k scales x by sqrt(k); a node between '
          'identical segments changes nothing; non-trivial = n>=8')
def _seed(c, ev):
    n, dt = c['n'], c['dt']
    f, h, al = nodes_of(c), c['h'], c['al']
    s = c['s'] % 2 ** 31
    x = synth(f, h, al, n, dt, s)
    require(np.array_equal(x, synth(f, h, al, n, dt, s)),
            'same seed, different output')
    require(np.array_equal(x, synth(list(f), list(h), tuple(al), n, dt, s,
                                    output='phase')),
            'list arguments / explicit phase output differ')
    require(not np.array_equal(x, synth(f, h, al, n, dt, (s + 1) % 2 ** 31)),
            'different seeds, same output')
    np.random.seed(s)
    a = synth(f, h, al, n, dt, None)
    b = synth(f, h, al, n, dt, None)
    np.random.seed(s)
    require(np.array_equal(a, synth(f, h, al, n, dt, None)),
            'seed=None ignores the global state')
    require(not np.array_equal(a, b), 'seed=None repeats itself')
    y = synth(f, h, al, n, dt, s, output='freq')
    top = np.max(np.abs(x)) / float(dt)
    require(y[0] == 0 and np.all(np.abs(y[1:] - np.diff(x) / float(dt)) <=
                                 1e-12 * top),
            'freq output %s, diff(phase)/dt %s', y[:4],
            np.diff(x)[:3] / float(dt))
    k = synth(f, np.array(h) * 9.0, al, n, dt, s)
    require(np.all(np.abs(k - 3 * x) <= 1e-9 * np.max(np.abs(k))),
            '9*h does not scale x by 3')
    g = grid(n, float(dt))
    mid = np.sqrt(g[0] * g[-1])
    u = synth([], h[:1], al[:1], n, dt, s)
    v = synth([mid], [h[0], h[0]], [al[0], al[0]], n, dt, s)
    require(np.all(np.abs(u - v) <= 1e-9 * np.max(np.abs(u))),
            'splitting a segment at %r changed the series', mid)
    ev.nt(n >= 8)


@st.composite
def bad(draw):
    return {'kind': draw(st.sampled_from(['dur0', 'dur-', 'dt0', 'dt-', 'ha',
                                          'nodes', 'short', 'output'])),
            'n': draw(st.integers(4, 50)), 'dt': draw(st.sampled_from(DT))}


@sub('C26', 'refusals', bad(), 300,
     rule='non-positive duration/timestep, mismatched h/alpha/nodes, fewer '
          'than 4 samples, unknown output: ValueError; non-trivial = always')
def _bad(c, ev):
    dt, k = float(c['dt']), c['kind']
    dur = (c['n'] + 0.5) * dt
    f, h, al, kw = [0.1 / dt], [1.0, 2.0], [0.0, -1.0], {}
    if k == 'dur0':
        dur = 0.0
    elif k == 'dur-':
        dur = -dur
    elif k == 'dt0':
        dt = 0.0
    elif k == 'dt-':
        dt, dur = -dt, dur
    elif k == 'ha':
        al = [0.0]
    elif k == 'nodes':
        f = [0.1 / dt, 0.2 / dt]
    elif k == 'short':
        dur = 3.5 * dt
    else:
        kw = {'output': 'phases'}
    r = call(at.timmer_koenig_from_psd, f, h, al, dur, dt, seed=1,
             allow=(ValueError,), **kw)
    require(isinstance(r, ValueError), '%s accepted: %r', k, r)
    ev.nt()
