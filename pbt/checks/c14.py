"""C14: purity - inputs untouched, deterministic, no hidden state."""
import contextlib
import copy
import io
import locale
import os
import pickle
import signal
import sys
import threading
import traceback
import warnings
import zlib

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..devs import run_dev, ALL, max_len, errs, rounding, TIME_TYPE
from ..env import at, SCRATCH

FNS = ALL + ['gcodev']


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(FNS))
    x = draw(gen.series(6, max_len(fn), kinds=['ints', 'lit', 'plateau',
                                               'step', 'white', 'rw'],
                        amps=[1.0, 1.0, 1e-9], offs=[0.0, 5.0, -100.0],
                        slopes=[0.0, 2.0]))
    n = gen.spec_len(x)
    return {'fn': fn, 'x': x, 'rate': draw(gen.rates),
            'dt': draw(st.sampled_from(['phase', 'freq'])),
            'taus': draw(st.sampled_from(['list', 'array', 'keyword'])),
            'm': draw(gen.ms(n, mmax=max(1, n // 2))),
            'nan': draw(st.integers(0, 2)),
            'form': draw(st.sampled_from(['list', 'strided', 'reversed-view',
                                          'readonly', 'int', 'fortran',
                                          'float32ok']))}


def make_form(x, form):
    """The same numbers in another container; None if not representable."""
    if form == 'list':
        return [float(v) for v in x]
    if form == 'strided':
        b = np.full(3 * len(x), 777.0)
        b[::3] = x
        return b[::3]
    if form == 'reversed-view':
        return x[::-1].copy()[::-1]
    if form == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y
    if form == 'int':
        if np.any(x != np.round(x)) or np.max(np.abs(x)) > 1e4:
            return None
        return x.astype(np.int64)
    if form == 'fortran':
        b = np.zeros((len(x), 2), order='C')
        b[:, 1] = x
        return b[:, 1]
    return None


def invoke(c, x, taus):
    if c['fn'] == 'gcodev':
        other = np.array(x, dtype=float)[::-1].copy()

        def gcodev(d, **kw):
            return at.gcodev(d, other, **kw)
        fn = gcodev
    else:
        fn = c['fn']
    return run_dev(fn, x, rate=c['rate'], data_type=c['dt'], taus=taus)


def flat(c, r):
    if r is None:
        return None
    return [r[0], r[1], r[3]] + errs(c['fn'], r)


def identical(a, b):
    if a is None or b is None:
        return a is None and b is None
    return all(np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b))


@sub('C14', 'deviations', cases(), 7000, shards=7,
     rule='all 16 deviations: data and tau arguments bit-identical after the '
          'call, second call (with other calls in between) bit-identical, '
          'global RNG state and numpy error state untouched, other container '
          'types give the same rows, returned arrays independent of the '
          'input; non-trivial = rows returned')
def _dev(c, ev):
    x = gen.expand(c['x'])
    if c['dt'] == 'freq' and c['nan']:
        x = np.concatenate((np.full(c['nan'], np.nan), x, [np.nan]))
    if c['taus'] == 'keyword':
        taus = 'octave'
    else:
        taus = gen.taus_of(c['m'], c['rate'])
        if c['taus'] == 'list':
            taus = list(taus)
    x0, t0 = x.tobytes(), copy.deepcopy(taus)
    rs = np.random.get_state()
    es = np.geterr()
    a = flat(c, invoke(c, x, taus))
    rs2 = np.random.get_state()
    require(x.tobytes() == x0, '%s modified its data argument', c['fn'])
    require(np.array_equal(np.asarray(taus), np.asarray(t0)) and
            type(taus) is type(t0), '%s modified its taus argument: %r -> %r',
            c['fn'], t0, taus)
    require(rs[2] == rs2[2] and np.array_equal(rs[1], rs2[1]),
            '%s consumed global random numbers', c['fn'])
    require(np.geterr() == es, '%s changed the numpy error state', c['fn'])
    saved = None if a is None else [u.copy() for u in a]
    # unrelated calls in between
    other = gen.expand({'k': 'rw', 'n': 17, 's': 5})
    for f in ('oadev', 'totdev', c['fn'] if c['fn'] != 'gcodev' else 'mdev'):
        run_dev(f, other, rate=3.0, taus='octave')
    b = flat(c, invoke(c, x.copy(), copy.deepcopy(t0)))
    require(identical(saved, b), '%s: a second identical call differs: %s '
            'vs %s', c['fn'], saved, b)
    require(identical(a, saved), '%s: later calls changed returned arrays',
            c['fn'])
    if a is not None:
        # writing to the result must not reach the input, nor vice versa
        for u in a:
            if u.flags.writeable:
                u += 1.0
        require(x.tobytes() == x0, '%s returned a view of its input',
                c['fn'])
        ev.nt()
    y = make_form(x, c['form'])
    if y is not None and not (c['form'] == 'int' and np.isnan(x).any()):
        before = np.array(y, dtype=float).tobytes()
        d = flat(c, invoke(c, y, copy.deepcopy(t0)))
        require((d is None) == (saved is None), '%s: rows differ for %s '
                'input', c['fn'], c['form'])
        require(np.array(y, dtype=float).tobytes() == before,
                '%s modified its %s argument', c['fn'], c['form'])
        if d is not None:
            fin = x[~np.isnan(x)]
            if c['dt'] == 'freq':
                ph = np.cumsum(fin - np.mean(fin)) / float(c['rate'])
                fl = rounding(ph, 64) + 64 * 2.3e-16 * np.max(
                    np.abs(fin)) / float(c['rate']) * (4 + len(fin))
            else:
                fl = rounding(fin, 64)
            fl = fl / (1.0 if c['fn'] in TIME_TYPE else saved[0])
            require(len(d[0]) == len(saved[0]) and
                    np.array_equal(d[2], saved[2]) and
                    np.allclose(d[0], saved[0], rtol=1e-12) and
                    np.all(np.abs(d[1] - saved[1]) <=
                           1e-9 * saved[1] + fl *
                           (1 + saved[0] * float(c['rate']))),
                    '%s: %s input gives %s, float64 array gives %s',
                    c['fn'], c['form'], d[1], saved[1])
            ev.label('form=' + c['form'])
    ev.label(c['fn'])


@st.composite
def misc(draw):
    return {'fn': draw(st.sampled_from(sorted(MISC))),
            'x': draw(gen.series(40, 90, kinds=['white', 'rw', 'ints'],
                                 amps=[1.0, 1e-9])),
            'rate': draw(gen.rates)}


def _psd(x, rate):
    S = np.abs(x) + 1e-3
    f = np.arange(len(x)) * float(rate)
    return [S, f], lambda S, f: at.psd2allan(S, f)


def _adev2psd(x, rate):
    t = np.logspace(0, 3, 4)
    a = np.array([1.0, 0.5, 0.6, 1.0])
    return [a, t], lambda a, t: at.adev2psd_piecewise_approx(a, t)


def _psd2adev(x, rate):
    return [np.array([1.0, 2.0]), np.array([-1.0, 0.0]), np.array([0.5]),
            np.array([1.0, 10.0])], lambda h, a, f, t: \
        at.psd_piecewise_to_adev(h, a, f, t)


MISC = {
    'trim_data': lambda x, r: ([np.concatenate(([np.nan], x, [np.nan]))],
                               at.trim_data),
    'frequency2phase': lambda x, r: ([np.concatenate(([np.nan], x))],
                                     lambda y: at.frequency2phase(y, r)),
    'phase2frequency': lambda x, r: ([x], lambda y: at.phase2frequency(y, r)),
    'phase2radians': lambda x, r: ([x], lambda y: at.phase2radians(y, 1e7)),
    'frequency2fractional': lambda x, r: (
        [x + 1e7], lambda y: at.frequency2fractional(y)),
    'autocorr_noise_id': lambda x, r: (
        [x], lambda y: at.autocorr_noise_id(y, 1)),
    'autocorr_noise_id_freq': lambda x, r: (
        [x], lambda y: at.autocorr_noise_id(y, 1, data_type='freq')),
    'confidence_interval_noiseID': lambda x, r: (
        [x], lambda y: at.confidence_interval_noiseID(y, 1.0, 1,
                                                      dev_type='oadev')),
    'tau_generator': lambda x, r: (
        [x, np.array([3.0, 1.0, 1.0, -1.0]) / r],
        lambda y, t: at.tau_generator(y, r, t)),
    'tau_reduction': lambda x, r: (
        [np.arange(1.0, 90.0)], lambda m: at.tau_reduction(m, r, 5)),
    'three_cornered_hat_phase': lambda x, r: (
        [x, x[::-1].copy(), np.cumsum(x)],
        lambda a, b, c: at.three_cornered_hat_phase(
            a, b, c, r, np.array([1.0, 2.0]) / r, at.oadev)),
    'b1': lambda x, r: ([x], lambda y: at.ci.b1(y, 2, r)),
    'rn': lambda x, r: ([x], lambda y: at.ci.rn(y, 2, r)),
    'psd2allan': _psd,
    'adev2psd': _adev2psd,
    'psd2adev': _psd2adev,
    'lag1_acf': lambda x, r: ([x], at.ci.lag1_acf),
    'detrend': lambda x, r: ([x], lambda y: at.ci.detrend(y, deg=2)),
    'mtie_rolling_window': lambda x, r: (
        [x], lambda y: np.array(at.allantools.mtie_rolling_window(y, 5))),
    'scipy_psd': lambda x, r: ([x], lambda y: at.noise.scipy_psd(y, r)),
    'calc_gradev_phase': lambda x, r: (
        [np.where(np.arange(len(x)) % 7 == 3, np.nan, x)],
        lambda y: [np.ravel(u) for u in at.gradev(
            y, rate=r, taus=[1 / r, 2 / r], noisetype='wf')]),
    'dataset': lambda x, r: (
        [x, np.array([3.0, 1.0, -1.0]) / r],
        lambda y, t: [at.Dataset(y, rate=r, taus=t).compute('oadev')[k]
                      for k in ('taus', 'stat', 'stat_err', 'stat_n')]),
    'realtime': lambda x, r: (
        [x, np.array([1, 2, 5])], lambda y, afs: _rt(
            'tdev_realtime', y, r, {'afs': afs})),
    'numpy_psd': lambda x, r: ([x], lambda y: at.noise.numpy_psd(y, r)),
    'timmer_koenig': lambda x, r: (
        [np.array([0.1]), np.array([1.0, 2.0]), np.array([0.0, -1.0])],
        lambda f, h, a: at.timmer_koenig_from_psd(f, h, a, 50.0, 1.0,
                                                  seed=3)),
}


def leaves(r):
    if isinstance(r, (tuple, list)) and not all(
            np.isscalar(v) for v in r):
        out = []
        for v in r:
            out += leaves(v)
        return out
    return [np.array(r, dtype=float)]


@sub('C14', 'helpers', misc(), 1500, shards=2,
     rule='25 conversion/statistics helpers: array arguments bit-identical '
          'after the call, second call bit-identical, RNG untouched (unless '
          'it is a seeded generator); non-trivial = always')
def _misc(c, ev):
    x = gen.expand(c['x'])
    args, fn = MISC[c['fn']](x, float(c['rate']))
    before = [a.tobytes() for a in args]
    rs = np.random.get_state()
    r1 = call(fn, *args, what=c['fn'], allow=(ZeroDivisionError, NotImplementedError))
    if isinstance(r1, Exception):
        return
    require([a.tobytes() for a in args] == before, '%s modified an argument',
            c['fn'])
    if c['fn'] != 'timmer_koenig':
        rs2 = np.random.get_state()
        require(rs[2] == rs2[2] and np.array_equal(rs[1], rs2[1]),
                '%s consumed global random numbers', c['fn'])
    run_dev('oadev', x[::-1].copy(), rate=2.0)
    r2 = call(fn, *args, what=c['fn'])
    u, v = leaves(r1), leaves(r2)
    require(len(u) == len(v) and all(np.array_equal(p, q, equal_nan=True)
                                     for p, q in zip(u, v)),
            '%s: second identical call differs', c['fn'])
    ev.nt()
    ev.label(c['fn'])


# ------------------------------------------------- histories of many calls
def _seeded(gen_fn):
    def f(seed, *a):
        np.random.seed(seed)
        return gen_fn(*a)
    return f


def _rt(cls, x, rate, kw):
    o = getattr(at, cls)(tau0=1.0 / rate, **kw)
    for v in x:
        o.add_phase(float(v))
    r = [np.array(o.taus()), np.array(o.devs())]
    if cls == 'tdev_realtime':
        r.append(np.array(o.mdev()))
    return r


def _written(x, rate, name):
    d = at.Dataset(x, rate=rate)
    d.compute(name)
    path = os.path.join(SCRATCH, 'c14-%d' % os.getpid())
    d.write_results(path)
    with open(path) as fp:
        text = fp.read()
    os.unlink(path)
    return [np.array([float(zlib.crc32(text.encode()))])]


def _kasdin(n, qd, b):
    o = at.Noise(n, qd, b)
    o.generateNoise()
    return o.time_series


OTHER = {
    'white': lambda x, r: _seeded(at.noise.white)(len(x), 50, r, 2.0),
    'brown': lambda x, r: _seeded(at.noise.brown)(len(x), 50, r, 2.0),
    'violet': lambda x, r: _seeded(at.noise.violet)(len(x), 50, r, 2.0),
    'pink': lambda x, r: _seeded(at.noise.pink)(len(x), 50, 8),
    'kasdin': lambda x, r: _seeded(_kasdin)(len(x), 64, r, -1),
    'oadev_rt': lambda x, r: _rt('oadev_realtime', x, r, {}),
    'ohdev_rt': lambda x, r: _rt('ohdev_realtime', x, r,
                                 {'auto_afs': True}),
    'tdev_rt': lambda x, r: _rt('tdev_realtime', x, r, {'afs': [1, 2]}),
    'written': lambda x, r: _written(x, r, 'oadev'),
    'written-mtie': lambda x, r: _written(x, r, 'mtie'),
    'edf': lambda x, r: [at.edf_greenhall(
        a, 2, 1 + len(x) % 9, 200 + len(x), overlapping=True)
        for a in (0, -1, -2)],
}
HIST_FNS = FNS + ['oadev', 'mdev', 'totdev', 'mtie', 'theo1'] + \
    sorted(MISC) + sorted(OTHER)


@st.composite
def histories(draw):
    n = draw(st.integers(12, 26))
    base = draw(gen.series(n=n, kinds=['white', 'rw', 'ints', 'plateau'],
                           amps=[1.0], offs=[0.0, 1.0], slopes=[0.0]))
    focus = draw(st.lists(st.sampled_from(HIST_FNS), min_size=1, max_size=3))
    rates = draw(st.lists(st.sampled_from([1.0, 2.0, 0.5, 3]), min_size=1,
                          max_size=2))
    ops = draw(st.lists(st.fixed_dictionaries({
        'fn': st.integers(0, 2),
        # which record: the base, or a near twin of it
        'v': st.sampled_from(['base', 'base', 'mid', 'first', 'last',
                              'scaled', 'negated', 'reversed', 'shuffled',
                              'shifted', 'longer', 'zero-mean']),
        # fresh array, or one buffer object overwritten in place
        'buf': st.booleans(),
        'rate': st.integers(0, 1),
        'dt': st.sampled_from(['phase', 'phase', 'freq']),
        't': st.sampled_from([None, 'all', 'octave', 'decade', 1, 2, 3])}),
        min_size=2, max_size=6))
    return {'x': base, 'focus': focus, 'rates': rates, 'ops': ops}


def variant(x, v):
    y = x.copy()
    n = len(y)
    if v == 'mid':
        y[n // 2] += 3.0
    elif v == 'first':
        y[0] -= 2.0
    elif v == 'last':
        y[-1] += 4.0
    elif v == 'scaled':
        y *= 2.0
    elif v == 'negated':
        y = -y
    elif v == 'reversed':
        y = y[::-1].copy()
    elif v == 'shuffled':           # same multiset, ends and sum
        y[1:-1] = np.roll(y[1:-1], 3)
    elif v == 'shifted':
        y = y + 5.0
    elif v == 'longer':
        y = np.append(y, [1.0, -2.0])
    elif v == 'zero-mean':
        y = y - np.mean(y)
    return y


def one_op(c, op, bufs):
    """Runs one call; returns a list of arrays or the name of a refusal."""
    x = variant(gen.expand(c['x']), op['v'])
    if op['buf']:
        b = bufs.setdefault(len(x), np.zeros(len(x)))
        b[:] = x
        x = b
    rate = c['rates'][op['rate'] % len(c['rates'])]
    fn = c['focus'][op['fn'] % len(c['focus'])]
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            if fn in MISC:
                args, f = MISC[fn](x, float(rate))
                return leaves(f(*args))
            if fn in OTHER:
                return leaves(list(OTHER[fn](x, float(rate))))
            t = op['t']
            if t == 'all' and fn in ('mtotdev', 'ttotdev', 'htotdev'):
                t = 'octave'
            if isinstance(t, int):
                t = [t / float(rate), 1.0 / rate]
            kw = dict(rate=rate, data_type=op['dt'], taus=t)
            if fn == 'gcodev':
                r = at.gcodev(x, x[::-1].copy(), **kw)
            else:
                r = getattr(at, fn)(x, **kw)
            return leaves(list(r))
        except Exception as exc:
            return type(exc).__name__


def settings():
    """Process-wide state that a computation has no business with."""
    rs = np.random.get_state()
    return {'numpy error state': np.geterr(),
            'print options': repr(np.get_printoptions()),
            'warning filters': [str(f) for f in warnings.filters],
            'working directory': os.getcwd(),
            'locale': locale.setlocale(locale.LC_ALL),
            'environment': dict(os.environ),
            'recursion limit': sys.getrecursionlimit(),
            'random state': (rs[0], rs[1].tobytes(), rs[2:])}


@st.composite
def setcases(draw):
    return {'x': draw(gen.series(20, 60, kinds=['white', 'rw', 'plateau',
                                                'const'], amps=[1.0])),
            'fn': draw(st.sampled_from(sorted(set(HIST_FNS)))),
            'rate': draw(st.sampled_from([1.0, 2.0, 0.5])),
            'nan': draw(st.booleans()),
            't': draw(st.sampled_from([None, 'octave', 1, 2, 3, 500]))}


@sub('C14', 'settings', setcases(), 1500, shards=2,
     rule='every deviation, helper, generator and real-time object: numpy '
          'error state, print options, warning filters, working directory, '
          'locale, environment, recursion limit and (generators apart) the '
          'random state are the same after the call, also after a refusal; '
          'non-trivial = always')
def _settings(c, ev):
    x = gen.expand(c['x'])
    fn, rate = c['fn'], c['rate']
    if c['nan'] and fn == 'gradev':
        x[len(x) // 2] = np.nan
    with warnings.catch_warnings(), np.errstate(all='warn'), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        if fn in MISC:
            args, f = MISC[fn](x, rate)

            def go():
                return f(*args)
        elif fn in OTHER:
            def go():
                return OTHER[fn](x, rate)
        else:
            t = c['t']
            if isinstance(t, int):
                t = [t / rate, 1.0 / rate] if t < 99 else [t]
            kw = dict(rate=rate, taus=t)

            def go():
                if fn == 'gcodev':
                    return at.gcodev(x, x[::-1].copy(), **kw)
                return getattr(at, fn)(x, **kw)
        before = settings()
        try:
            go()
        except Exception:
            ev.label('refused')
        after = settings()
    if fn in OTHER or fn == 'timmer_koenig':
        before.pop('random state')
    for k in before:
        require(before[k] == after[k], '%s changed the %s: %s -> %s', fn, k,
                str(before[k])[:200], str(after[k])[:200])
    ev.label(fn)
    ev.nt()


def in_child(work):
    """work() evaluated in a forked copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(120)
            os.close(r)
            data = pickle.dumps(work())
            with os.fdopen(w, 'wb') as fp:
                fp.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError('child ended with status %d' % status)
    return pickle.loads(data)


def same(u, v):
    if isinstance(u, str) or isinstance(v, str):
        return u == v
    if len(u) != len(v):
        return False
    for a, b in zip(u, v):
        if a.shape != b.shape:
            return False
        if not np.array_equal(a, b, equal_nan=True):
            top = np.max(np.abs(np.append(b[np.isfinite(b)], 0.0)))
            if not np.allclose(a, b, rtol=1e-9, atol=1e-12 * top,
                               equal_nan=True):
                return False
    return True


@sub('C14', 'histories', histories(), 1800, shards=8,
     rule='2-6 calls of up to three functions (17 deviations, 18 helpers, '
          'noise generators, real-time objects, written files) on a record '
          'and near twins of it (one sample changed, reversed, scaled, '
          'shuffled between equal ends, the same array object overwritten in '
          'place): every call gives what it gives as the first call of an '
          'untouched process (forked child); non-trivial = two calls of one '
          'function on different records')
def _hist(c, ev):
    seq = in_child(lambda: (lambda bufs: [one_op(c, op, bufs)
                                          for op in c['ops']])({}))
    seen = set()
    for k, op in enumerate(c['ops']):
        fn = c['focus'][op['fn'] % len(c['focus'])]
        first = in_child(lambda: one_op(c, op, {})) if k else seq[0]
        require(same(seq[k], first), 'call %d of the history (%s on the %s '
                'record) gives %s, as the first call %s', k, fn, op['v'],
                seq[k], first)
        if any(f == fn and v != op['v'] for f, v in seen):
            ev.nt()
        seen.add((fn, op['v']))
        ev.label(fn)


# ------------------------------------------------------------------ threads
THREAD_FNS = FNS + sorted(k for k in MISC if k not in (
    'timmer_koenig', 'scipy_psd')) + ['oadev_rt', 'ohdev_rt', 'tdev_rt',
                                      'edf']


@st.composite
def threaded(draw):
    n = draw(st.integers(12, 26))
    k = draw(st.integers(2, 4))
    fns = draw(st.lists(st.sampled_from(THREAD_FNS), min_size=1, max_size=2))
    return {'tasks': [{
        'fn': draw(st.sampled_from(fns)),
        'x': draw(gen.series(n=n, kinds=['white', 'rw', 'ints'],
                             amps=[1.0, 1e-9], offs=[0.0], slopes=[0.0])),
        'rate': draw(st.sampled_from([1.0, 2.0, 0.5])),
        't': draw(st.sampled_from([None, 'all', 'octave', 2]))}
        for _ in range(k)], 'reps': draw(st.sampled_from([2, 5]))}


def plain(task):
    x, rate, fn = gen.expand(task['x']), task['rate'], task['fn']
    try:
        if fn in MISC:
            args, f = MISC[fn](x, rate)
            return leaves(f(*args))
        if fn in OTHER:
            return leaves(list(OTHER[fn](x, rate)))
        t = task['t']
        if t == 'all' and fn in ('mtotdev', 'ttotdev', 'htotdev'):
            t = 'octave'
        if t == 2:
            t = [1.0 / rate, 2.0 / rate]
        if fn == 'gcodev':
            return leaves(list(at.gcodev(x, x[::-1].copy(), rate=rate,
                                         taus=t)))
        return leaves(list(getattr(at, fn)(x, rate=rate, taus=t)))
    except Exception as exc:
        return type(exc).__name__


@sub('C14', 'threads', threaded(), 1200, shards=4,
     rule='2-4 threads computing at once (17 deviations, helpers, real-time '
          'objects, EDFs; switch interval 5 us): every result is '
          'that of the same call made alone (1e-9); non-trivial = at least two '
          'different tasks')
def _threads(c, ev):
    tasks = c['tasks']
    old = sys.getswitchinterval()
    out = [[] for _ in tasks]
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        alone = [plain(t) for t in tasks]
        gate = threading.Barrier(len(tasks))

        def work(i):
            gate.wait()
            for _ in range(c['reps']):
                out[i].append(plain(tasks[i]))

        pool = [threading.Thread(target=work, args=(i,))
                for i in range(len(tasks))]
        sys.setswitchinterval(5e-6)
        try:
            for p in pool:
                p.start()
            for p in pool:
                p.join()
        finally:
            sys.setswitchinterval(old)
    for t, a, got in zip(tasks, alone, out):
        for g in got:
            require(same(a, g), '%s: %s alone, %s while other threads '
                    'compute', t['fn'], a, g)
        ev.label(t['fn'])
    ev.nt(len({repr(t) for t in tasks}) > 1)


@st.composite
def longs(draw):
    fn = draw(st.sampled_from(FNS))
    n, ms = draw(gen.sizes(fn))
    if fn in gen.SLOW_DEVS:
        ms = ms[:1]
    return {'fn': fn, 'x': draw(gen.series(
        n=n, kinds=['ints', 'plateau', 'step', 'white', 'rw'],
        amps=[1.0, 1e-9], offs=[0.0, 5.0], slopes=[0.0, 1.0])),
        'rate': draw(gen.rates), 'm': ms, 'nan': draw(st.integers(0, 2)),
        'dt': draw(st.sampled_from(['phase', 'freq'])),
        'taus': draw(st.sampled_from(['list', 'array'])),
        'form': draw(st.sampled_from(['list', 'strided', 'reversed-view',
                                      'readonly', 'int', 'fortran']))}


@sub('C14', 'deviations-long', longs(), 500, shards=8,
     rule='the same on records of hundreds to 100000 points and at the '
          'longest averaging times; non-trivial = rows returned')
def _long(c, ev):
    _dev(c, ev)
