"""C31: results depend on the numbers given, not on how they are stored."""
import array

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..devs import run_dev, ALL, max_len, errs, rounding
from ..env import at

FNS = ALL + ['gcodev']
INTS = {'i1': 100, 'u1': 200, 'i2': 3e4, 'u2': 6e4, 'i4': 2e9, 'u4': 4e9,
        'i8': 2.0 ** 51, 'u8': 2.0 ** 51, '>i4': 2e9, '>i8': 2.0 ** 51,
        'bool': 1}
FLOATS = {'f2': 2 ** 10, 'f4': 2 ** 22, '>f4': 2 ** 22, '>f8': 2.0 ** 40}
BOXES = ['list', 'tuple', 'intlist', 'scalars', 'array.array', 'memoryview',
         'strided', 'negative', 'column', 'readonly', 'subclass', 'wide']


class Sub(np.ndarray):
    pass


@st.composite
def values(draw, lo, hi):
    """Integer-valued numbers and a way to store them."""
    form = draw(st.sampled_from(sorted(INTS) * 2 + sorted(FLOATS) + BOXES))
    top = INTS.get(form) or FLOATS.get(form) or 2.0 ** 40
    return {'form': form, 'n': draw(gen.uni(lo, hi)),
            's': draw(gen.seeds),
            'kind': draw(st.sampled_from(['uniform', 'walk', 'ramp',
                                          'extreme', 'small'])),
            'top': draw(st.sampled_from([1.0, 1.0, 0.5, 1e-3])) * top,
            'signed': draw(st.booleans())}


def numbers(c):
    rs = np.random.RandomState(c['s'])
    n, top = c['n'], max(1.0, c['top'])
    if c['kind'] == 'uniform':
        x = rs.rand(n) * top
    elif c['kind'] == 'walk':
        x = np.cumsum(rs.randn(n))
        x = (x - x.min()) / max(np.ptp(x), 1e-9) * top
    elif c['kind'] == 'ramp':
        x = np.arange(n) * (top / n) + rs.rand(n) * min(5.0, top / n)
    elif c['kind'] == 'extreme':
        x = np.where(rs.rand(n) < 0.5, 0.0, top)
    else:
        x = rs.rand(n) * min(top, 9.0)
    x = np.floor(x)
    signed = c['signed'] and c['form'] not in ('u1', 'u2', 'u4', 'u8', 'bool')
    if signed:
        x = x - np.floor(top / 2)
    if c['form'] in ('f2', 'f4', '>f4') and c['kind'] == 'small':
        x = x / 8.0
    return x


def store(x, form):
    if form in INTS or form in FLOATS:
        y = x.astype(np.dtype(form))
        assert np.array_equal(y.astype(float), x), form
        return y
    if form == 'list':
        return [float(v) for v in x]
    if form == 'tuple':
        return tuple(float(v) for v in x)
    if form == 'intlist':
        return [int(v) for v in x]
    if form == 'scalars':
        return [np.int64(v) for v in x]
    if form == 'array.array':
        return array.array('q', [int(v) for v in x])
    if form == 'memoryview':
        return memoryview(x.copy())
    if form == 'strided':
        b = np.full(3 * len(x), 777, dtype=np.int64)
        b[::3] = x
        return b[::3]
    if form == 'negative':
        return x[::-1].astype(np.int64)[::-1]
    if form == 'column':
        b = np.full((len(x), 2), 55.0, order='C')
        b[:, 1] = x
        return b[:, 1]
    if form == 'readonly':
        y = x.astype(np.int64)
        y.setflags(write=False)
        return y
    if form == 'subclass':
        return x.copy().view(Sub)
    if form == 'wide':
        return np.array([[v] * 2 for v in x]).T[0]
    raise AssertionError(form)


def close(a, b, fl, what, form):
    a, b = as_array(a, what), as_array(b, what)
    require(a.shape == b.shape and
            np.all((np.abs(a - b) <= 1e-9 * np.abs(a) + fl) |
                   (np.isnan(a) & np.isnan(b)) | (a == b)),
            '%s: %s for float64 numbers, %s for the same numbers stored as '
            '%s', what, a, b, form)


@st.composite
def devcases(draw):
    fn = draw(st.sampled_from(FNS))
    v = draw(values(6, max_len(fn, 40)))
    return {'fn': fn, 'v': v, 'rate': draw(gen.rates),
            'dt': draw(st.sampled_from(['phase', 'phase', 'freq'])),
            'm': draw(gen.ms(v['n'], mmax=max(1, v['n'] // 2)))}


@sub('C31', 'deviations', devcases(), 6000, shards=6,
     rule='all 16 deviations, phase and frequency data of 6-40 whole numbers '
          'spanning up to the full range of the type: (u)int8-64, bool, '
          'float16/32, both byte orders, lists, tuples, '
          'array.array, memoryview, strided, reversed, read-only and '
          'subclass arrays give the rows of the float64 array; non-trivial = '
          'a non-zero deviation')
def _dev(c, ev):
    x = numbers(c['v'])
    form, fn = c['v']['form'], c['fn']
    taus = gen.taus_of(c['m'], c['rate'])

    def go(d):
        if fn == 'gcodev':
            e = x[::-1].copy()
            if d is not x:
                e = store(e, form)

            def gcodev(d, **kw):
                return at.gcodev(d, e, **kw)
            return run_dev(gcodev, d, rate=c['rate'], data_type=c['dt'],
                           taus=taus)
        return run_dev(fn, d, rate=c['rate'], data_type=c['dt'], taus=taus)
    a, b = go(x), go(store(x, form))
    require((a is None) == (b is None), '%s: rows appear or disappear for '
            'data stored as %s', fn, form)
    ev.label(form)
    if a is None:
        return
    p = x if c['dt'] == 'phase' else np.cumsum(x - x.mean())
    fl = (rounding(p, 64) + 1e-14 * np.max(np.abs(x))) * max(1.0, float(c['rate'])) ** 2 / np.min(a[0])
    for u, v in zip([a[0], a[1], a[3]] + errs(fn, a),
                    [b[0], b[1], b[3]] + errs(fn, b)):
        close(u, v, fl, '%s (%s data)' % (fn, c['dt']), form)
    ev.nt(np.any(a[1] > 1e3 * fl))
    ev.label(fn)


@st.composite
def helpers(draw):
    fn = draw(st.sampled_from(['phase2frequency', 'frequency2phase',
                               'phase2radians', 'frequency2fractional',
                               'three_cornered_hat', 'noise_id', 'rn', 'b1',
                               'numpy_psd', 'scipy_psd', 'tau_generator',
                               'psd2allan']))
    lo = {'noise_id': 60, 'psd2allan': 8}.get(fn, 12)
    return {'fn': fn, 'v': draw(values(lo, lo + 60)),
            'af': draw(st.integers(1, 3)), 'rate': draw(gen.rates),
            'dt': draw(st.sampled_from(['phase', 'freq']))}


def outputs(c, d, e, f):
    """Named results of helper c['fn'] on data d (e, f: two more records)."""
    fn, rate, af = c['fn'], c['rate'], c['af']
    if fn == 'phase2frequency':
        return [at.phase2frequency(d, rate)]
    if fn == 'frequency2phase':
        return [at.frequency2phase(d, rate)]
    if fn == 'phase2radians':
        return [at.phase2radians(d, 10.0)]
    if fn == 'frequency2fractional':
        return [at.frequency2fractional(d, mean_frequency=7.0)]
    if fn == 'three_cornered_hat':
        r = at.three_cornered_hat_phase(d, e, f, rate, [af / float(rate)],
                                        at.oadev)
        return [r[0], r[1], r[2]]
    if fn == 'noise_id':
        return list(at.ci.autocorr_noise_id(d, 1, data_type=c['dt']))
    if fn == 'rn':
        return [at.ci.rn(d, af, rate)]
    if fn == 'b1':
        return [at.ci.b1(d, af, rate)]
    if fn == 'numpy_psd':
        return list(at.noise.numpy_psd(d, rate))
    if fn == 'scipy_psd':
        return list(at.noise.scipy_psd(d, rate, nr_segments=2))
    if fn == 'tau_generator':
        return list(at.allantools.tau_generator(d, rate, 'octave'))
    return list(at.psd2allan(d, 0.5))


@sub('C31', 'helpers', helpers(), 2500, shards=3,
     rule='conversions, three-cornered hat, noise identification (lag-1 ACF, '
          'R(n), B1), PSD estimators, tau_generator and psd2allan on the '
          'same stored forms (psd2allan: arrays only); non-trivial = values '
          'compared for a form other than float64')
def _helper(c, ev):
    x = numbers(c['v'])
    form, fn = c['v']['form'], c['fn']
    if np.ptp(x) == 0:
        return
    if fn in ('rn', 'b1', 'noise_id', 'scipy_psd') and form in BOXES:
        form = 'i8'
    if fn == 'psd2allan':
        if form in BOXES:
            form = 'i4' if np.max(np.abs(x)) < 2e9 else 'i8'
        x = np.abs(x)
    if form in ('f2', 'f4', '>f4') and fn not in (
            'phase2frequency', 'frequency2phase', 'three_cornered_hat',
            'tau_generator', 'rn', 'b1'):
        # these work in the precision of the data
        form = 'i8' if np.all(x == np.round(x)) else '>f8'
    ev.label(fn, form)
    rs = np.random.RandomState(c['v']['s'])
    o = [rs.permutation(x) for _ in range(2)]
    a = call(outputs, c, x, o[0], o[1], what=fn, allow=(
        UserWarning, NotImplementedError, IndexError))
    b = call(outputs, c, store(x, form), store(o[0], form),
             store(o[1], form), what=fn, allow=(
                 UserWarning, NotImplementedError, IndexError))
    if isinstance(a, Exception) or isinstance(b, Exception):
        require(type(a) is type(b), '%s: %r for float64, %r for %s', fn, a,
                b, form)
        return
    for i, (u, v) in enumerate(zip(a, b)):
        u = as_array(u, fn)
        scale = np.max(np.abs(u[np.isfinite(u)])) if np.any(np.isfinite(u)) \
            else 0.0
        # scipy.signal computes in single precision for narrow types
        close(u, v, (1e-5 if fn == 'scipy_psd' else 1e-9) * scale, fn, form)
    ev.nt()


@st.composite
def feeds(draw):
    return {'v': draw(values(8, 60)), 'kind': draw(st.sampled_from(
        ['oadev_realtime', 'ohdev_realtime', 'tdev_realtime'])),
            'freq': draw(st.booleans()), 'auto': draw(st.booleans()),
            'afs': draw(st.lists(st.integers(1, 4), min_size=1, max_size=3,
                                 unique=True)),
            'tau0': draw(st.sampled_from([1.0, 1, 0.25, 3]))}


@sub('C31', 'real-time', feeds(), 1500, shards=2,
     rule='real-time objects fed with numpy scalars of each type, Python '
          'ints and floats: same results; non-trivial = a non-zero deviation')
def _feed(c, ev):
    x = numbers(c['v'])
    form = c['v']['form']
    kw = {'tau0': c['tau0']}
    if c['auto']:
        kw['auto_afs'] = True
    else:
        kw['afs'] = c['afs']
    objs = []
    for d in ([float(v) for v in x], store(x, form)):
        o = call(getattr(at, c['kind']), what=c['kind'], **kw)
        for v in d:
            call(o.add_frequency if c['freq'] else o.add_phase, v,
                 what='add')
        objs.append(o)
    a, b = (as_array(o.devs(), 'devs') for o in objs)
    p = np.cumsum(x) * float(c['tau0']) if c['freq'] else x
    close(objs[0].taus(), objs[1].taus(), 0, 'taus()', form)
    close(a, b, rounding(p, 64) / min(1.0, float(c['tau0'])), 'devs() of ' +
          c['kind'], form)
    ev.nt(np.any(a > 0))
    ev.label(form)


TAUFORMS = ['list', 'tuple', 'ints', 'i4', 'i8', 'u2', 'f4', '>f8',
            'strided', 'readonly']


@st.composite
def requests(draw):
    fn = draw(st.sampled_from(ALL))
    x = draw(gen.series(8, max_len(fn, 40), kinds=['white', 'rw']))
    n = gen.spec_len(x)
    return {'fn': fn, 'x': x, 'form': draw(st.sampled_from(TAUFORMS)),
            'rate': draw(st.sampled_from([1, 2, 4, 1.0, 0.5, 10])),
            'rform': draw(st.sampled_from(['float', 'int', 'i4', 'i8', 'u1',
                                           'f8'])),
            'm': draw(gen.ms(n, mmax=max(1, n // 2)))}


@sub('C31', 'requests', requests(), 2000, shards=3,
     rule='the averaging times as list, tuple, Python ints, int/uint/float '
          'arrays of several widths, strided or read-only arrays, and the '
          'rate as Python or numpy int/float, give the rows of the plain '
          'float64 request; non-trivial = rows reported')
def _req(c, ev):
    x = gen.expand(c['x'])
    rate = c['rate']
    if c['rform'] != 'float' and rate == int(rate):
        r2 = {'int': int, 'i4': np.int32, 'i8': np.int64, 'u1': np.uint8,
              'f8': np.float64}[c['rform']](rate)
    else:
        r2 = np.float64(rate)
    taus = np.array([m / float(rate) for m in c['m']])
    f = c['form']
    if f in ('ints', 'i4', 'i8', 'u2'):
        taus = taus[taus == np.round(taus)]
        if not len(taus):
            return
        t2 = [int(t) for t in taus] if f == 'ints' else taus.astype(f)
    elif f == 'f4':
        t2 = taus.astype('f4')
        taus = t2.astype(float)
    elif f == 'list':
        t2 = [float(t) for t in taus]
    elif f == 'tuple':
        t2 = tuple(float(t) for t in taus)
    elif f == 'strided':
        t2 = np.repeat(taus, 2)[::2]
    else:
        t2 = taus.astype('>f8' if f == '>f8' else 'f8')
        t2.setflags(write=f != 'readonly')
    a = run_dev(c['fn'], x, rate=float(rate), taus=taus)
    b = run_dev(c['fn'], x, rate=r2, taus=t2)
    require((a is None) == (b is None), '%s: rows appear or disappear for '
            'taus as %s, rate %r', c['fn'], f, r2)
    ev.label(f, c['rform'])
    if a is None:
        return
    for u, v in zip([a[0], a[1], a[3]] + errs(c['fn'], a),
                    [b[0], b[1], b[3]] + errs(c['fn'], b)):
        close(u, v, 0, '%s, taus as %s, rate %r' % (c['fn'], f, r2),
              'taus ' + f)
    ev.nt()


# --- numbers given to the scalar helpers ------------------------------------
def _seeded(f):
    def g(*a):
        np.random.seed(11)
        return f(*a)
    return g


def _noise(nr, qd, b, tau0, tau):
    np.random.seed(11)
    n = at.Noise(nr=nr, qd=qd, b=b)
    n.generateNoise()
    return np.concatenate((n.time_series, [
        n.phase_psd_from_qd(tau0), n.frequency_psd_from_qd(tau0),
        n.adev_from_qd(tau0, tau), n.mdev_from_qd(tau0, tau),
        n.pdev_from_qd(tau0, tau), n.adev(tau0, tau), n.mdev(tau0, tau)]))


def _walk(n=300):
    return np.cumsum(np.random.RandomState(5).randn(n))


def _auto(ppd):
    o = at.oadev_realtime(auto_afs=True, pts_per_decade=ppd)
    for v in _walk(120):
        o.add_phase(v)
    return np.concatenate((o.taus(), o.devs()))


def _feedfix(kind, af, tau0):
    o = getattr(at, kind)(afs=[af], tau0=tau0)
    for v in _walk(120):
        o.add_phase(v)
    return np.concatenate((o.taus(), o.devs()))


# name -> (function, ranges); c = a count or index (integer types only),
# s = a signed count, r = a whole real number (float types too)
SCALARS = {
    'rn_theory': (lambda a, b: at.ci.rn_theory(a, b),
                  [('c', 1, 60000), ('s', -2, 0)]),
    'rn_boundary': (lambda a, b: at.ci.rn_boundary(a, b),
                    [('c', 1, 60000), ('s', -1, 0)]),
    'b1_theory': (lambda n, mu: at.ci.b1_theory(n, mu),
                  [('c', 2, 60000), ('s', -2, 4)]),
    'b1_boundary': (lambda b, n: at.ci.b1_boundary(b, n),
                    [('s', -3, 0), ('c', 2, 60000)]),
    'b_to_mu': (lambda b: at.ci.b_to_mu(b), [('s', -6, 0)]),
    'edf_simple': (lambda n, m, a: at.ci.edf_simple(n, m, a),
                   [('c', 3000, 60000), ('c', 1, 900), ('s', -2, 2)]),
    'edf_totdev': (lambda n, m, a: at.ci.edf_totdev(n, m, a),
                   [('c', 3000, 60000), ('c', 1, 900), ('s', -2, 2)]),
    'edf_mtotdev': (lambda n, m, a: at.ci.edf_mtotdev(n, m, a),
                    [('c', 3000, 60000), ('c', 1, 900), ('s', -2, 2)]),
    'edf_greenhall': (
        lambda a, d, m, n, o, q: at.ci.edf_greenhall(a, d, m, n, bool(o),
                                                     bool(q)),
        [('s', -2, 2), ('c', 2, 3), ('c', 1, 3000), ('c', 3000, 60000),
         ('c', 0, 1), ('c', 0, 1)]),
    'rn': (lambda af, r: at.ci.rn(_walk(), af, r),
           [('c', 1, 20), ('r', 1, 1000)]),
    'b1': (lambda af, r: at.ci.b1(_walk(), af, r),
           [('c', 1, 20), ('r', 1, 1000)]),
    'autocorr_noise_id': (
        lambda af, lo, hi, f: at.ci.autocorr_noise_id(
            _walk(), af, data_type='freq' if f else 'phase', dmin=lo,
            dmax=hi),
        [('c', 1, 8), ('c', 0, 1), ('c', 1, 3), ('c', 0, 1)]),
    'confidence_interval_noiseID': (
        lambda dev, af: at.ci.confidence_interval_noiseID(
            _walk(), dev, af, dev_type='oadev'),
        [('r', 1, 60000), ('c', 1, 8)]),
    'confidence_interval': (
        lambda dev, edf: at.ci.confidence_interval(dev, edf),
        [('r', 1, 60000), ('r', 1, 60000)]),
    'detrend': (lambda k: at.ci.detrend(_walk(40), deg=k), [('c', 0, 3)]),
    'mtie_rolling_window': (
        lambda w: at.allantools.mtie_rolling_window(_walk(30), w),
        [('c', 1, 30)]),
    'tau_reduction': (
        lambda r, k: np.concatenate(at.allantools.tau_reduction(
            np.arange(1, 200), r, k)), [('r', 1, 60000), ('c', 1, 9)]),
    'phase2radians': (lambda v: at.phase2radians(_walk(30), v),
                      [('r', 1, 4000000)]),
    'frequency2fractional': (
        lambda v: at.frequency2fractional(_walk(30), mean_frequency=v),
        [('r', 1, 10000000)]),
    'phase2frequency': (lambda r: at.phase2frequency(_walk(30), r),
                        [('r', 1, 60000)]),
    'frequency2phase': (lambda r: at.frequency2phase(_walk(30), r),
                        [('r', 1, 60000)]),
    'white': (_seeded(lambda n, b, fs: at.noise.white(n, b, fs)),
              [('c', 1, 50), ('r', 1, 60000), ('r', 1, 60000)]),
    'brown': (_seeded(lambda n, b, fs: at.noise.brown(n, b, fs)),
              [('c', 1, 50), ('r', 1, 60000), ('r', 1, 60000)]),
    'violet': (_seeded(lambda n, b, fs: at.noise.violet(n, b, fs)),
               [('c', 1, 50), ('r', 1, 60000), ('r', 1, 60000)]),
    'pink': (_seeded(lambda n, k: at.noise.pink(n, k)),
             [('c', 1, 50), ('c', 2, 50)]),
    'numpy_psd': (lambda r: np.concatenate(at.noise.numpy_psd(_walk(), r)),
                  [('r', 1, 10000000)]),
    'scipy_psd': (lambda r, k: np.concatenate(at.noise.scipy_psd(
        _walk(), r, k)), [('r', 1, 10000000), ('c', 1, 4)]),
    'timmer_koenig': (
        lambda h, a, t, dt, s: at.noise.timmer_koenig_from_psd(
            [], [h], [a], t * 4 * dt, dt, seed=s),
        [('r', 1, 60000), ('s', -2, 2), ('c', 2, 20), ('r', 1, 3000),
         ('c', 0, 100000)]),
    'Noise': (_noise, [('c', 2, 40), ('r', 1, 60000), ('s', -4, 0),
                       ('r', 1, 3000), ('r', 1, 60000)]),
    'psd2allan': (lambda f, b: np.concatenate(at.psd2allan(
        np.ones(20), f, base=b)), [('r', 1, 1000), ('c', 1, 4)]),
    'psd_piecewise_to_adev': (
        lambda h, a, t: at.psd_piecewise_to_adev([h], [a], [], [t]),
        [('r', 1, 60000), ('s', -2, 0), ('r', 1, 60000)]),
    'adev2psd': (
        lambda a, b, t: np.concatenate(at.adev2psd_piecewise_approx(
            [a, b], [t, 3 * t])),
        [('r', 4, 8), ('r', 4, 8), ('r', 1, 60000)]),
    'oadev_realtime': (lambda af, t: _feedfix('oadev_realtime', af, t),
                       [('c', 1, 30), ('r', 1, 3000)]),
    'ohdev_realtime': (lambda af, t: _feedfix('ohdev_realtime', af, t),
                       [('c', 1, 30), ('r', 1, 3000)]),
    'tdev_realtime': (lambda af, t: _feedfix('tdev_realtime', af, t),
                      [('c', 1, 30), ('r', 1, 3000)]),
    'auto': (_auto, [('c', 1, 12)]),
    'gradev': (lambda r, m: np.concatenate(
        [np.ravel(v) for v in at.gradev(_walk(40), rate=r, taus=[m])]),
        [('r', 1, 1), ('r', 1, 9)]),
}
for _n in ('prc_tdev', 'prc_mtie', 'eprtc_tdev', 'eprtc_mtie', 'prtcA_tdev',
           'prtcB_tdev', 'prtcA_mtie', 'prtcB_mtie'):
    SCALARS[_n] = ((lambda f: lambda t: f(t))(getattr(at.mask, _n)),
                   [('r', 1, 4000000)])
CTYPES = ['int', 'i4', 'i8']
STYPES = CTYPES
RTYPES = CTYPES + ['float', 'f8']


@st.composite
def scalar_calls(draw):
    fn = draw(st.sampled_from(sorted(SCALARS)))
    vals = []
    for kind, lo, hi in SCALARS[fn][1]:
        types = {'c': CTYPES, 's': STYPES, 'r': RTYPES}[kind]
        v = draw(st.one_of(gen.uni(lo, min(hi, lo + 20)),
                           gen.uni(lo, hi)))
        vals.append([v, draw(st.sampled_from(types))])
    return {'fn': fn, 'v': vals}


@sub('C31', 'scalars', scalar_calls(), 8000, shards=4,
     rule='42 functions of plain numbers (noise identification, EDF, bias '
          'functions, masks, noise generators, conversions, real-time '
          'parameters): each argument as Python int, 32- or 64-bit numpy '
          'integer or float gives the result for Python ints; non-trivial = '
          'at least one numpy or float argument and a result')
def _scalars(c, ev):
    f = SCALARS[c['fn']][0]
    allow = (NotImplementedError, AssertionError, ValueError, UserWarning,
             ZeroDivisionError)
    plain = [v for v, _ in c['v']]
    typed = [int(v) if t == 'int' else float(v) if t == 'float' else
             np.dtype(t).type(v) for v, t in c['v']]
    a = call(f, *plain, what=c['fn'], allow=allow)
    b = call(f, *typed, what=c['fn'], allow=allow)
    ev.label(c['fn'])
    if isinstance(a, Exception) or isinstance(b, Exception):
        require(type(a) is type(b), '%s%r gives %r, the same numbers as %s '
                'give %r', c['fn'], tuple(plain), a, [t for _, t in c['v']],
                b)
        return
    a, b = as_array(a, c['fn']), as_array(b, c['fn'])
    big = np.max(np.abs(a[np.isfinite(a)]), initial=0.0)
    close(a, b, 1e-12 * big, '%s%r' % (c['fn'], tuple(plain)),
          [t for _, t in c['v']])
    ev.nt(any(t != 'int' for _, t in c['v']))


@st.composite
def longcases(draw):
    fn = draw(st.sampled_from(FNS))
    n, ms = draw(gen.sizes(fn))
    v = dict(draw(values(6, 7)), n=n)
    if v['form'] in ('wide', 'scalars', 'intlist') and n > 5000:
        v['form'] = 'strided'
    return {'fn': fn, 'v': v, 'rate': draw(gen.rates),
            'dt': draw(st.sampled_from(['phase', 'phase', 'freq'])),
            'm': sorted(ms)}


@sub('C31', 'deviations-long', longcases(), 600, shards=8,
     rule='the same on records of hundreds to 100000 points and at the '
          'longest averaging times; non-trivial = a non-zero deviation')
def _longdev(c, ev):
    _dev(c, ev)
