"""C32: documented defaults and argument order of the public interface."""
import os

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call
from .. import gen
from ..devs import ALL
from ..env import at, SCRATCH
from . import c32_calls  # noqa: F401  further checks of C32

SIGMA = 0.6826894921370859
NOVAL = object()          # parameter without a default
DEV = [('data', NOVAL), ('rate', 1.0), ('data_type', 'phase'),
       ('taus', None)]

# name -> documented parameters in order, with their defaults
API = {fn: DEV for fn in ALL if fn != 'gradev'}
API.update({
    'gradev': DEV + [('ci', 0.9), ('noisetype', 'wp')],
    'gcodev': [('data_1', NOVAL), ('data_2', NOVAL)] + DEV[1:],
    'three_cornered_hat_phase': [(k, NOVAL) for k in (
        'phasedata_ab', 'phasedata_bc', 'phasedata_ca', 'rate', 'taus',
        'function')],
    'frequency2phase': [('freqdata', NOVAL), ('rate', NOVAL)],
    'phase2frequency': [('phase', NOVAL), ('rate', NOVAL)],
    'phase2radians': [('phasedata', NOVAL), ('v0', NOVAL)],
    'frequency2fractional': [('frequency', NOVAL), ('mean_frequency', -1)],
    'tau_generator': [('data', NOVAL), ('rate', NOVAL), ('taus', None),
                      ('v', False), ('even', False), ('maximum_m', -1)],
    'tau_reduction': [('ms', NOVAL), ('rate', NOVAL),
                      ('n_per_decade', NOVAL)],
    'psd2allan': [('S_y', NOVAL), ('f', 1.0), ('kind', 'adev'), ('base', 2)],
    'adev2psd_piecewise_approx': [('adev', NOVAL), ('taus', NOVAL),
                                  ('vartype', 'adev'), ('mu_tol', 1e-5)],
    'psd_piecewise_to_adev': [(k, NOVAL) for k in (
        'h', 'alpha', 'f_nodes', 'taus')],
    'edf_simple': [(k, NOVAL) for k in ('N', 'm', 'alpha')],
    'edf_totdev': [(k, NOVAL) for k in ('N', 'm', 'alpha')],
    'edf_mtotdev': [(k, NOVAL) for k in ('N', 'm', 'alpha')],
    'edf_greenhall': [(k, NOVAL) for k in ('alpha', 'd', 'm', 'N')] +
    [('overlapping', False), ('modified', False), ('verbose', False)],
    'confidence_interval': [('dev', NOVAL), ('edf', NOVAL), ('ci', SIGMA)],
    'confidence_interval_noiseID': [
        ('x', NOVAL), ('dev', NOVAL), ('af', NOVAL), ('dev_type', 'adev'),
        ('data_type', 'phase'), ('ci', SIGMA)],
    'autocorr_noise_id': [('x', NOVAL), ('af', NOVAL),
                          ('data_type', 'phase'), ('dmin', 0), ('dmax', 2)],
    'noise.white': [('num_points', 1024), ('b0', 1.0), ('fs', 1.0)],
    'noise.brown': [('num_points', 1024), ('b_minus2', 1.0), ('fs', 1.0)],
    'noise.violet': [('num_points', 1024), ('b2', 1), ('fs', 1)],
    'noise.pink': [('num_points', 1024), ('depth', 80)],
    'noise.numpy_psd': [('x', NOVAL), ('f_sample', 1.0)],
    'noise.scipy_psd': [('x', NOVAL), ('f_sample', 1.0),
                        ('nr_segments', 4)],
    'timmer_koenig_from_psd': [(k, NOVAL) for k in (
        'f_nodes', 'h', 'alpha', 'duration', 'timestep')] +
    [('output', 'phase'), ('seed', None)],
    'Noise': [('nr', 2), ('qd', 1), ('b', 0)],
    'Noise.set_input': [('nr', 2), ('qd', 1), ('b', 0)],
    'noise.iterpink': [('depth', 20)],
    'ci.lag1_acf': [('x', NOVAL), ('detrend_deg', 1)],
    'ci.detrend': [('x', NOVAL), ('deg', 1)],
    'Dataset': [('data', None)] + DEV[1:],
    'set_input': DEV,
    'write_results': [('filename', NOVAL), ('digits', 5),
                      ('header_params', {})],
    'oadev_realtime': [('afs', [1]), ('tau0', 1.0), ('auto_afs', False),
                       ('pts_per_decade', 4)],
})
API['ohdev_realtime'] = API['tdev_realtime'] = API['oadev_realtime']
for _f in ('phase_psd', 'frequency_psd'):
    API['Noise.%s_from_qd' % _f] = [('tau0', 1.0)]
for _f in ('adev', 'mdev', 'pdev'):
    API['Noise.%s_from_qd' % _f] = [('tau0', 1.0), ('tau', 1.0)]
NAMES = sorted(API)


def other(name, k, rs, n):
    """A non-default value for parameter k."""
    pick = lambda *v: v[rs.randint(len(v))]     # noqa: E731
    if k in ('data', 'data_1', 'data_2', 'phase', 'freqdata', 'phasedata',
             'x', 'phasedata_ab', 'phasedata_bc', 'phasedata_ca'):
        return np.cumsum(rs.randn(n))
    if k == 'frequency':
        return 10.0 + rs.randn(n)
    if k == 'rate':
        return pick(2.0, 0.5, 10.0, 3)
    if k == 'data_type':
        return 'freq'
    if k == 'taus':
        if name == 'adev2psd_piecewise_approx':
            return np.array([1.0, 10.0, 100.0])
        if name == 'psd_piecewise_to_adev':
            return np.array([0.5, 3.0])
        if name == 'three_cornered_hat_phase':
            return [1.0, 2.0]
        return pick('all', 'decade', [1.0, 2.0, 4.0], np.array([2.0, 0.5]))
    if k in ('ci',):
        return pick(0.95, 0.5, 0.75)
    if k == 'noisetype':
        return pick('wf', 'fp', 'ff', 'rf')
    if k == 'function':
        return pick(at.oadev, at.mdev)
    table = {
        'v0': 5e6, 'mean_frequency': 10.0, 'v': True, 'even': True,
        'maximum_m': 5, 'ms': np.arange(1, 200), 'n_per_decade': pick(3, 7),
        'S_y': 1.0 + rs.rand(30), 'f': pick(0.25, 2.0),
        'kind': pick('mdev', 'm'), 'base': pick(0, 3, 10),
        'adev': np.array([1.0, 0.3, 0.5]), 'vartype': 'hdev',
        'mu_tol': 10.0, 'h': np.array([1.0, 2.0]),
        'f_nodes': np.array([0.1]), 'N': 64 + int(n), 'm': 2, 'd': 2,
        'overlapping': True, 'modified': True, 'verbose': True, 'dev': 2.5,
        'edf': 7.0, 'af': 1, 'dev_type': pick('oadev', 'mdev', 'ohdev'),
        'dmin': 1, 'dmax': 1, 'detrend_deg': 2, 'deg': pick(0, 2), 'num_points': pick(1, 64, 333),
        'b0': 3.0, 'b_minus2': 0.2, 'b2': 5.0, 'fs': pick(4.0, 0.1),
        'depth': pick(5, 30), 'f_sample': 8.0, 'nr_segments': 2,
        'duration': 64.0, 'timestep': 0.5, 'output': 'freq', 'seed': 5,
        'nr': 64, 'qd': 0.3, 'b': pick(-1, -2, -3),
        'filename': None, 'digits': pick(3, 9),
        'header_params': {'station': 'x', 'n': 3},
        'afs': pick([2], [3, 1]), 'tau0': pick(0.5, 4.0), 'auto_afs': True,
        'pts_per_decade': pick(2, 7), 'tau': pick(3.0, 20.0)}
    if k == 'alpha':
        return pick(0, -1, -2) if name.startswith('edf') else \
            np.array([-1.0, -2.0])
    return table[k]


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    p = API[name]
    return {'name': name, 's': draw(gen.seeds),
            'n': draw(st.integers(8, 24)),
            'set': [draw(st.integers(0, 2)) > 0 for _ in p],
            'pos': draw(gen.uni(0, len(p)))}


class Files(object):
    k = 0


def invoke(c, args, kw):
    """Call the API entry with a fixed random state; result as plain data."""
    name = c['name']
    np.random.seed(c['s'] % 2 ** 32)
    if name == 'set_input':
        d = at.Dataset([1.0, 2.0], 7.0, 'freq', 'all')
        d.set_input(*args, **kw)
        return plain(d.inp)
    if name == 'Dataset':
        return plain(at.Dataset(*args, **kw).inp)
    if name == 'write_results':
        d = at.Dataset(np.random.randn(30), 2.0, 'freq', [1.0, 2.0])
        d.compute('oadev')
        Files.k += 1
        p = os.path.join(SCRATCH, 'c32_%d_%d.txt' % (os.getpid(), Files.k))
        args = tuple(p if a is None else a for a in args)
        kw = {k: p if k == 'filename' else v for k, v in kw.items()}
        try:
            d.write_results(*args, **kw)
            return open(p).read()
        finally:
            if os.path.exists(p):
                os.remove(p)
    if name == 'Noise':
        o = at.Noise(*args, **kw)
        o.generateNoise()
        return plain(o.time_series)
    if name == 'Noise.set_input':
        o = at.Noise(8, 3.0, -1)
        o.set_input(*args, **kw)
        o.generateNoise()
        return plain(o.time_series)
    if name == 'noise.iterpink':
        g = at.noise.iterpink(*args, **kw)
        return plain([next(g) for _ in range(60)])
    if name.startswith('Noise.'):
        o = at.Noise(nr=32, qd=2.0, b=-2)
        o.generateNoise()
        return plain(getattr(o, name[6:])(*args, **kw))
    if name.endswith('_realtime'):
        o = getattr(at, name)(*args, **kw)
        for v in np.cumsum(np.random.randn(70)):
            o.add_phase(v)
        return plain([o.taus(), o.devs()])
    o = at
    for part in name.split('.'):
        o = getattr(o, part)
    return plain(o(*args, **kw))


def plain(v):
    if isinstance(v, dict):
        return {k: plain(u) for k, u in v.items()}
    if isinstance(v, (list, tuple)) and any(np.ndim(u) for u in v):
        return [plain(u) for u in v]
    if v is None or isinstance(v, (str, bool)):
        return v
    return np.array(v)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(
            np.all((a == b) | ((a != a) & (b != b))))
    return a == b


@sub('C32', 'defaults-and-order', cases(), 5000, shards=6,
     rule='%d entries of the public interface (deviations, conversions, EDF '
          'and confidence, noise generators, PSD tools, Dataset, real-time '
          'objects, Kasdin noise): the call with every documented parameter '
          'by keyword, with a prefix given by position, and with '
          'parameters at their documented default left out, give identical '
          'results; non-trivial = at least one default left out or two '
          'arguments by position' % len(NAMES))
def _conv(c, ev):
    name, p = c['name'], API[c['name']]
    rs = np.random.RandomState(c['s'])
    vals, dflt = {}, set()
    for (k, d), chosen in zip(p, c['set']):
        v = other(name, k, rs, 64 + c['n'] if name.startswith(
            ('autocorr', 'confidence_interval_')) else c['n'])
        if d is not NOVAL and not chosen:
            v = d
            dflt.add(k)
        vals[k] = v

    def attempt(args, kw, how):
        r = call(invoke, c, args, kw, what='%s(%s)' % (name, how),
                 allow=(UserWarning, NotImplementedError, AssertionError,
                        ValueError))
        return (type(r).__name__, str(r)) if isinstance(r, Exception) else r

    full = attempt((), dict(vals), 'all by keyword')
    keys = [k for k, _ in p]
    pos = attempt(tuple(vals[k] for k in keys[:c['pos']]),
                  {k: vals[k] for k in keys[c['pos']:]},
                  '%d by position' % c['pos'])
    less = attempt((), {k: v for k, v in vals.items() if k not in dflt},
                   'defaults left out')
    show = {k: v for k, v in vals.items() if np.ndim(v) == 0}
    require(same(full, pos), '%s: %s with the first %d arguments by position '
            'differs from the call by keyword (%s): %s, %s', name, show,
            c['pos'], keys[:c['pos']], pos, full)
    require(same(full, less), '%s: leaving out %s differs from giving the '
            'documented defaults (%s): %s, %s', name, sorted(dflt), show,
            less, full)
    ev.nt(bool(dflt) or c['pos'] > 1)
    ev.label(name, *(['declined'] if isinstance(full, tuple) else []))


@st.composite
def shared(draw):
    return {'kind': draw(st.sampled_from(['oadev_realtime', 'ohdev_realtime',
                                          'tdev_realtime', 'Dataset',
                                          'write'])),
            's': draw(gen.seeds), 'k': draw(st.integers(1, 4)),
            'n': draw(st.integers(5, 40)), 'auto': draw(st.booleans())}


@sub('C32', 'fresh-defaults', shared(), 500,
     rule='objects created with default arguments after other default '
          'objects were used (real-time objects fed, also in auto mode; '
          'datasets computed; files written with header parameters) start '
          'from the documented defaults; non-trivial = always')
def _fresh(c, ev):
    rs = np.random.RandomState(c['s'])
    kind = c['kind']
    ev.label(kind)
    ev.nt()
    for _ in range(c['k']):
        x = np.cumsum(rs.randn(c['n']))
        if kind == 'Dataset':
            d = call(at.Dataset)
            require(d.inp == {'data': None, 'rate': 1.0,
                              'data_type': 'phase', 'taus': None},
                    'a new Dataset() holds %r', d.inp)
            require(all(v is None for v in d.out.values()),
                    'a new Dataset() has results %r', d.out)
            call(d.set_input, x, 3.0, 'freq', [1.0])
            call(d.compute, 'oadev', allow=(UserWarning,))
            continue
        if kind == 'write':
            d = call(at.Dataset, x, 2.0, 'phase', [0.5, 1.0])
            r = call(d.compute, 'oadev', allow=(UserWarning,))
            if isinstance(r, UserWarning):
                continue
            p = os.path.join(SCRATCH, 'c32w_%d.txt' % os.getpid())
            call(d.write_results, p, header_params={'key%d' % _: 'v'})
            call(d.write_results, p)
            with open(p) as fp:
                text = fp.read()
            os.remove(p)
            require('key' not in text, 'header parameters of an earlier call '
                    'in %r', text)
            continue
        o = call(getattr(at, kind), what=kind)
        require(list(o.taus()) == [1.0] and list(o.devs()) == [0.0],
                'a new %s() has taus %s and devs %s', kind, o.taus(),
                o.devs())
        if c['auto']:
            a = call(getattr(at, kind), auto_afs=True, what=kind)
            require(list(a.taus()) == [1.0], 'a new %s(auto_afs=True) has '
                    'taus %s', kind, a.taus())
            for v in x:
                call(a.add_phase, v)
        for v in x:
            call(o.add_phase, v)
        require(list(o.taus()) == [1.0], '%s() after %d points has taus %s',
                kind, len(x), o.taus())


