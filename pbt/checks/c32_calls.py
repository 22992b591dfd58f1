"""C32, methods and constructors too: omitted arguments mean their documented
defaults; arguments may be given by position or by name."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call
from ..devs import ALL, max_len
from ..env import at
from .. import gen

CI1 = 0.6826894921370859      # erf(1/sqrt(2)), the documented one sigma


def _x(rs, n):
    return np.cumsum(rs.randn(n)) + 3.0 * rs.randn(n)


def _rate(rs):
    return float(rs.choice([1.0, 0.5, 10.0, 3.0]))


def _taus(rs):
    return rs.choice(['octave', 'all', 'decade'])


def dev_args(name):
    def make(rs):
        n = int(rs.randint(12, min(40, max_len(name, 40)) + 1))
        first = 'phase' if name == 'mtie_phase_fast' else 'data'
        a = [(first, _x(rs, n) + 2.0, None)]
        if name == 'mtie_phase_fast':
            a = [(first, _x(rs, 64), None)]
        a += [('rate', _rate(rs), 1.0),
              ('data_type', 'freq', 'phase'),
              ('taus', _taus(rs), 'NONE')]
        if name == 'gradev':
            a[0][1][rs.randint(n)] = np.nan
            a[2] = ('data_type', 'phase', 'phase')
            a += [('ci', 0.7, 0.9), ('noisetype', 'wf', 'wp')]
        return a
    return make


def gcodev_args(rs):
    n = int(rs.randint(12, 40))
    return [('data_1', _x(rs, n), None), ('data_2', _x(rs, n), None),
            ('rate', _rate(rs), 1.0), ('data_type', 'freq', 'phase'),
            ('taus', _taus(rs), 'NONE')]


def seeded(f):
    def g(*a, **k):
        np.random.seed(5)
        return f(*a, **k)
    g.__name__ = getattr(f, '__name__', 'call')
    return g


def _dataset(*a, **k):
    d = at.Dataset(*a, **k)
    d.compute('oadev')
    return [d.out['taus'], d.out['stat'], d.out['stat_n'],
            d.inp['rate'], str(d.inp['data_type'])]


def _set_input(*a, **k):
    d = at.Dataset(np.ones(5), rate=7.0, data_type='freq', taus=[1.0])
    d.set_input(*a, **k)
    d.compute('oadev')
    return [d.out['taus'], d.out['stat'], d.out['stat_n'],
            d.inp['rate'], str(d.inp['data_type'])]


def _write(data, *a, **k):
    d = at.Dataset(data, rate=2.0)
    d.compute('adev')
    with tempfile.TemporaryDirectory(prefix='verif_pbt_') as t:
        f = os.path.join(t, 'r.dat')
        k = {n if n != 'filename' else n: v for n, v in k.items()}
        d.write_results(f, *a, **k)
        with open(f) as fh:
            return [ln for ln in fh.read().splitlines()
                    if not ln.startswith('# Results generated')
                    and 'date' not in ln.lower()]


def _noise_state(o):
    np.random.seed(5)
    o.generateNoise()
    return [o.time_series, o.phase_psd_from_qd(2.0), o.b, o.nr, o.qd]


def _noise(*a, **k):
    return _noise_state(at.Noise(*a, **k))


def _noise_set(*a, **k):
    o = at.Noise(nr=16, qd=7.0, b=-3)
    o.set_input(*a, **k)
    return _noise_state(o)


def _noise_fn(meth):
    def f(b, *a, **k):
        o = at.Noise(nr=8, qd=2.5, b=b)
        return getattr(o, meth)(*a, **k)
    return f


def _feed(kind):
    def f(data, *a, **k):
        o = getattr(at, kind)(*a, **k)
        for v in data:
            o.add_phase(v)
        r = [o.taus(), o.devs(), np.array(o.afs)]
        if kind == 'tdev_realtime':
            r.append(o.mdev())
        return r
    return f


def rt_args(rs):
    return [('data', _x(rs, int(rs.randint(20, 90))), None),
            ('afs', [1, 2, int(rs.randint(3, 6))], [1]),
            ('tau0', float(rs.choice([0.5, 2.0, 10.0])), 1.0),
            ('auto_afs', True, False),
            ('pts_per_decade', int(rs.randint(1, 9)), 4)]


def _psd_seg(rs):
    return [np.array([1.0, 0.5]), np.array([0.0, -1.0]), np.array([0.1])]


# name -> (function, maker of [(argument, another value, documented default
# or None if it is required)]); leading arguments of the wrappers that are
# not arguments of the library function are in SKIP.
FUN = {n: (lambda n: (lambda *a, **k: getattr(at, n)(*a, **k),
                      dev_args(n)))(n) for n in ALL}
FUN['gcodev'] = (lambda *a, **k: at.gcodev(*a, **k), gcodev_args)
FUN['tau_generator'] = (
    lambda *a, **k: at.tau_generator(*a, **k),
    lambda rs: [('data', _x(rs, 50), None), ('rate', _rate(rs), None),
                ('taus', _taus(rs), 'NONE'), ('v', True, False),
                ('even', True, False), ('maximum_m', int(rs.randint(4, 20)),
                                        -1)])
FUN['tau_reduction'] = (
    lambda *a, **k: at.tau_reduction(*a, **k),
    lambda rs: [('ms', np.arange(1, 200), None), ('rate', _rate(rs), None),
                ('n_per_decade', int(rs.randint(1, 9)), None)])
FUN['edf_greenhall'] = (
    lambda *a, **k: at.edf_greenhall(*a, **k),
    lambda rs: [('alpha', int(rs.randint(-2, 3)), None), ('d', 2, None),
                ('m', int(rs.randint(2, 9)), None),
                ('N', int(rs.randint(60, 300)), None),
                ('overlapping', True, False), ('modified', True, False),
                ('verbose', True, False)])
for _n in ('edf_simple', 'edf_totdev', 'edf_mtotdev'):
    FUN[_n] = ((lambda n: lambda *a, **k: getattr(at, n)(*a, **k))(_n),
               lambda rs: [('N', int(rs.randint(60, 300)), None),
                           ('m', int(rs.randint(1, 9)), None),
                           ('alpha', int(rs.randint(-2, 1)), None)])
FUN['confidence_interval'] = (
    lambda *a, **k: at.confidence_interval(*a, **k),
    lambda rs: [('dev', float(rs.rand() + 0.1), None),
                ('edf', float(1 + 50 * rs.rand()), None), ('ci', 0.9, CI1)])
FUN['confidence_interval_noiseID'] = (
    lambda *a, **k: at.confidence_interval_noiseID(*a, **k),
    lambda rs: [('x', _x(rs, 200), None), ('dev', float(rs.rand() + 0.1),
                                           None),
                ('af', int(rs.randint(1, 6)), None),
                ('dev_type', str(rs.choice(['oadev', 'mdev', 'ohdev'])),
                 'adev'),
                ('data_type', 'freq', 'phase'), ('ci', 0.9, CI1)])
FUN['autocorr_noise_id'] = (
    lambda *a, **k: at.autocorr_noise_id(*a, **k),
    lambda rs: [('x', _x(rs, 200), None), ('af', int(rs.randint(1, 6)),
                                           None),
                ('data_type', 'freq', 'phase'),
                ('dmin', int(rs.randint(0, 2)), 0),
                ('dmax', int(rs.randint(1, 4)), 2)])
FUN['lag1_acf'] = (
    lambda *a, **k: at.ci.lag1_acf(*a, **k),
    lambda rs: [('x', _x(rs, 60), None),
                ('detrend_deg', int(rs.choice([0, 2])), 1)])
FUN['detrend'] = (
    lambda *a, **k: at.ci.detrend(*a, **k),
    lambda rs: [('x', _x(rs, 60), None),
                ('deg', int(rs.choice([0, 2, 3])), 1)])
FUN['frequency2fractional'] = (
    lambda *a, **k: at.frequency2fractional(*a, **k),
    lambda rs: [('frequency', 1e7 + rs.randn(20), None),
                ('mean_frequency', 1e7, -1)])
FUN['frequency2phase'] = (
    lambda *a, **k: at.frequency2phase(*a, **k),
    lambda rs: [('freqdata', rs.randn(20), None), ('rate', _rate(rs),
                                                   None)])
FUN['phase2frequency'] = (
    lambda *a, **k: at.phase2frequency(*a, **k),
    lambda rs: [('phase', rs.randn(20), None), ('rate', _rate(rs), None)])
FUN['phase2radians'] = (
    lambda *a, **k: at.phase2radians(*a, **k),
    lambda rs: [('phasedata', rs.randn(20), None), ('v0', 1e6, None)])
FUN['trim_data'] = (lambda *a, **k: at.trim_data(*a, **k),
                    lambda rs: [('x', _x(rs, 20), None)])
FUN['calc_hdev_phase'] = (
    lambda *a, **k: at.calc_hdev_phase(*a, **k),
    lambda rs: [('phase', _x(rs, 30), None), ('rate', _rate(rs), None),
                ('mj', int(rs.randint(1, 6)), None),
                ('stride', int(rs.randint(1, 4)), None)])
FUN['calc_mtotdev_phase'] = (
    lambda *a, **k: at.calc_mtotdev_phase(*a, **k),
    lambda rs: [('phase', _x(rs, 24), None), ('rate', _rate(rs), None),
                ('m', int(rs.randint(1, 6)), None)])
FUN['calc_htotdev_freq'] = (
    lambda *a, **k: at.calc_htotdev_freq(*a, **k),
    lambda rs: [('freq', rs.randn(24), None),
                ('m', int(rs.randint(1, 6)), None)])
FUN['three_cornered_hat_phase'] = (
    lambda *a, **k: at.three_cornered_hat_phase(*a, **k),
    lambda rs: [('phasedata_ab', _x(rs, 30), None),
                ('phasedata_bc', _x(rs, 30), None),
                ('phasedata_ca', _x(rs, 30), None),
                ('rate', _rate(rs), None), ('taus', [1.0, 2.0], None),
                ('function', at.oadev, None)])
FUN['psd2allan'] = (
    lambda *a, **k: at.psd2allan(*a, **k),
    lambda rs: [('S_y', rs.rand(40) + 0.5, None),
                ('f', float(rs.choice([0.5, 2.0])), 1.0),
                ('kind', str(rs.choice(['mdev', 'm'])), 'adev'),
                ('base', float(rs.choice([1, 1.5, 3])), 2)])
FUN['psd_piecewise_to_adev'] = (
    lambda *a, **k: at.psd_piecewise_to_adev(*a, **k),
    lambda rs: list(zip(('h', 'alpha', 'f_nodes', 'taus'),
                        _psd_seg(rs) + [np.array([1.0, 30.0])],
                        (None,) * 4)))
FUN['adev2psd_piecewise_approx'] = (
    lambda *a, **k: at.adev2psd_piecewise_approx(*a, **k),
    lambda rs: [('adev', np.array([4.0, 2.0, 1.0, 1.0 + 1e-3, 2.0]) *
                 (rs.rand() + 0.5), None),
                ('taus', np.array([1.0, 4.0, 16.0, 32.0, 64.0]), None),
                ('vartype', 'hdev', 'adev'),
                ('mu_tol', 0.3, 1e-5)])
FUN['timmer_koenig_from_psd'] = (
    seeded(lambda *a, **k: at.timmer_koenig_from_psd(*a, **k)),
    lambda rs: [('f_nodes', [0.1], None), ('h', [1.0, 0.5], None),
                ('alpha', [0.0, -1.0], None),
                ('duration', 40.5, None), ('timestep', 1.0, None),
                ('output', 'freq', 'phase'),
                ('seed', int(rs.randint(100, 999)), 'NONE')])
for _n, _o in (('white', [('b0', 2.5, 1.0), ('fs', 8.0, 1.0)]),
               ('brown', [('b_minus2', 2.5, 1.0), ('fs', 8.0, 1.0)]),
               ('violet', [('b2', 2.5, 1), ('fs', 8.0, 1)]),
               ('pink', [('depth', 12, 80)])):
    FUN[_n] = (seeded((lambda n: lambda *a, **k:
                       getattr(at.noise, n)(*a, **k))(_n)),
               (lambda o: lambda rs: [('num_points',
                                       int(rs.randint(5, 90)), 1024)] + o)(
                                           _o))


def _iter(*a, **k):
    g = at.noise.iterpink(*a, **k)
    return np.array([next(g) for _ in range(60)])


FUN['iterpink'] = (seeded(_iter),
                   lambda rs: [('depth', int(rs.randint(2, 19)), 20)])
FUN['numpy_psd'] = (lambda *a, **k: at.noise.numpy_psd(*a, **k),
                    lambda rs: [('x', rs.randn(100), None),
                                ('f_sample', _rate(rs) * 3, 1.0)])
FUN['scipy_psd'] = (lambda *a, **k: at.noise.scipy_psd(*a, **k),
                    lambda rs: [('x', rs.randn(100), None),
                                ('f_sample', _rate(rs) * 3, 1.0),
                                ('nr_segments', int(rs.choice([1, 2, 7])),
                                 4)])
FUN['Noise'] = (_noise, lambda rs: [('nr', int(rs.randint(3, 60)), 2),
                                    ('qd', float(rs.rand() + 1.5), 1),
                                    ('b', int(rs.randint(-4, 0)), 0)])
FUN['Noise.set_input'] = (_noise_set, FUN['Noise'][1])
for _n in ('phase_psd_from_qd', 'frequency_psd_from_qd'):
    FUN['Noise.' + _n] = (_noise_fn(_n), lambda rs: [
        ('b', int(rs.randint(-4, 1)), None),
        ('tau0', float(rs.choice([0.5, 4.0])), 1.0)])
for _n in ('adev_from_qd', 'mdev_from_qd', 'pdev_from_qd'):
    FUN['Noise.' + _n] = (_noise_fn(_n), lambda rs: [
        ('b', int(rs.randint(-4, 1)), None),
        ('tau0', float(rs.choice([0.5, 4.0])), 1.0),
        ('tau', float(rs.choice([0.5, 30.0])), 1.0)])
for _n in ('adev', 'mdev'):
    FUN['Noise.' + _n] = (_noise_fn(_n), lambda rs: [
        ('b', int(rs.randint(-4, 1)), None),
        ('tau0', float(rs.choice([0.5, 4.0])), None),
        ('tau', float(rs.choice([0.5, 30.0])), None)])
FUN['Dataset'] = (_dataset, lambda rs: [
    ('data', _x(rs, 40), None), ('rate', _rate(rs), 1.0),
    ('data_type', 'freq', 'phase'), ('taus', _taus(rs), 'NONE')])
FUN['Dataset.set_input'] = (_set_input, FUN['Dataset'][1])
FUN['Dataset.write_results'] = (_write, lambda rs: [
    ('data', _x(rs, 40), None), ('digits', int(rs.choice([3, 4, 6, 9])), 5),
    ('header_params', {'k': 'v1'}, {})])
for _n in ('oadev_realtime', 'ohdev_realtime', 'tdev_realtime'):
    FUN[_n] = (_feed(_n), rt_args)
# first argument of the wrapper is not the library's
SKIP = {n for n in FUN if n.startswith('Noise.') and n != 'Noise.set_input'}
SKIP |= {'Dataset.write_results', 'oadev_realtime', 'ohdev_realtime',
         'tdev_realtime'}


OPTIONAL = [n for n in sorted(FUN) if any(
    d is not None for _, _, d in FUN[n][1](np.random.RandomState(0)))]


def flat(r, what):
    """a result as a list of comparable pieces."""
    if isinstance(r, (tuple, list)) and not all(
            isinstance(v, (int, float)) for v in r):
        out = []
        for v in r:
            out += flat(v, what)
        return out
    if isinstance(r, (str, bool)) or r is None:
        return [r]
    return [np.asarray(r, dtype=float)]


def same(a, b, what):
    a, b = flat(a, what), flat(b, what)
    require(len(a) == len(b), '%s: results of different shape', what)
    for u, v in zip(a, b):
        if isinstance(u, np.ndarray) and isinstance(v, np.ndarray):
            require(u.shape == v.shape and np.allclose(
                u, v, rtol=1e-12, atol=0, equal_nan=True),
                '%s: %s and %s', what, u, v)
        else:
            require(type(u) is type(v) and u == v, '%s: %r and %r', what, u,
                    v)


@st.composite
def cases(draw, names):
    fn = draw(st.sampled_from(names))
    spec = FUN[fn][1](np.random.RandomState(0))
    k = len(spec)
    opt = [i for i in range(k) if spec[i][2] is not None]
    return {'fn': fn, 's': draw(gen.seeds),
            'omit': draw(st.lists(st.sampled_from(opt), min_size=1,
                                  max_size=len(opt),
                                  unique=True)) if opt else [],
            'order': draw(st.permutations(range(k))),
            'npos': draw(gen.uni(0, k))}


def default(v):
    if isinstance(v, str) and v == 'NONE':
        return None
    return list(v) if isinstance(v, list) else (
        dict(v) if isinstance(v, dict) else v)


def copy(v):
    return v.copy() if isinstance(v, np.ndarray) else (
        list(v) if isinstance(v, list) else v)


def _go(c, args, kw):
    # a refusal is a result too: the same one is expected either way
    r = call(FUN[c['fn']][0], *args, what=c['fn'],
             allow=(UserWarning, NotImplementedError, ValueError,
                    AssertionError), **kw)
    if isinstance(r, BaseException):
        return [type(r).__name__]
    return r


@sub('C32', 'omitted', cases(OPTIONAL), 4000, shards=3,
     rule='47 public functions, constructors and methods with optional arguments: leaving out any '
          'subset of the optional arguments gives the result of passing the '
          'documented defaults; non-trivial = at least one argument left '
          'out and a result')
def _defaults(c, ev):
    spec = FUN[c['fn']][1](np.random.RandomState(c['s']))
    skip = c['fn'] in SKIP
    full = [copy(v) if i not in c['omit'] else default(d)
            for i, (_, v, d) in enumerate(spec)]
    lead, kw = [], {}
    for i, (name, v, d) in enumerate(spec):
        if d is None:
            lead.append(copy(v))
        elif i not in c['omit']:
            kw[name] = copy(v)
    a = _go(c, full, {})
    b = _go(c, lead, kw)
    left = [spec[i][0] for i in sorted(c['omit'])]
    what = '%s%s with %s left out, against the documented defaults' % (
        c['fn'], '' if not skip else ' (after its data)', left)
    same(a, b, what)
    # an object or call built from the defaults leaves them unchanged
    same(b, _go(c, [copy(v) for (_, v, d) in spec if d is None], dict(kw)),
         '%s called twice with %s left out' % (c['fn'], left))
    ev.label(c['fn'], *['omit ' + n for n in left])
    ev.nt(bool(left) and not (isinstance(a, list) and len(a) == 1 and
                              isinstance(a[0], str)))


@sub('C32', 'by-name', cases(sorted(FUN)), 3000, shards=3,
     rule='62 public functions, constructors and methods with any number of leading arguments given by '
          'position and the others by name in any order; non-trivial = two '
          'or more arguments by name')
def _names(c, ev):
    spec = FUN[c['fn']][1](np.random.RandomState(c['s']))
    npos = max(c['npos'], 1) if c['fn'] in SKIP else c['npos']
    a = _go(c, [copy(v) for _, v, _ in spec], {})
    kw = {}
    for i in c['order']:
        if i >= npos:
            kw[spec[i][0]] = copy(spec[i][1])
    b = _go(c, [copy(v) for _, v, _ in spec[:npos]], kw)
    same(a, b, '%s with arguments by position, against %s by name' %
         (c['fn'], list(kw)))
    ev.label(c['fn'])
    ev.nt(len(kw) > 1)
