"""C17: Dataset.compute is a faithful wrapper over any call history."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array, Violation
from .. import gen
from ..devs import ALL, max_len
from ..env import at

# exported / importable names that are not deviations, and unknown names
NOT_DEV = ['trim_data', 'tau_generator', 'frequency2phase', 'edf_simple',
           'phase2frequency', 'tau_reduction', 'psd2allan', 'numpy_psd_x',
           'three_cornered_hat_phase', 'nosuchdev', 'nosuch', '',
           'OADEV', 'oadev ', ' oadev', 'dev', 'theo', 'mtie_', 'adev.',
           '__name__', 'tie']
KEYS = ['taus', 'stat', 'stat_err', 'stat_n']
INPUT = ['data', 'rate', 'data_type', 'taus']


@st.composite
def inputs(draw, top=60):
    x = draw(gen.series(4, top, kinds=['white', 'rw', 'ints', 'plateau'],
                        amps=[1.0, 1e-9]))
    n = gen.spec_len(x)
    c = {'x': x}
    if draw(st.booleans()):
        c['rate'] = draw(gen.rates)
    if draw(st.booleans()):
        c['data_type'] = draw(st.sampled_from(['phase', 'freq']))
    t = draw(st.sampled_from(['none', 'octave', 'all', 'decade', 'list']))
    if t == 'list':
        c['m'] = draw(gen.ms(n, mmax=max(1, n // 2)))
    elif t != 'none':
        c['taus'] = t
    return c


@st.composite
def histories(draw):
    fns = draw(st.lists(st.sampled_from(ALL), min_size=1, max_size=4,
                        unique=True))
    top = min(max_len(f) for f in fns)
    op = st.one_of(
        st.tuples(st.just('compute'), st.integers(0, 1),
                  st.sampled_from(fns)),
        st.tuples(st.just('compute'), st.integers(0, 1),
                  st.sampled_from(fns)),
        st.tuples(st.just('compute'), st.integers(0, 1),
                  st.sampled_from(fns)),
        st.tuples(st.just('bad'), st.integers(0, 1),
                  st.sampled_from(NOT_DEV)),
        st.tuples(st.just('edit'), st.integers(0, 1),
                  st.sampled_from(KEYS + ['*', '+'])),
        st.tuples(st.just('touch'), st.integers(0, 1),
                  st.sampled_from(['scale', 'point', 'reverse'])),
        st.tuples(st.just('poke'), st.integers(0, 1), inputs(top),),
        st.tuples(st.just('set'), st.integers(0, 1), inputs(top)),
        st.tuples(st.just('new'), st.integers(0, 1), inputs(top)))
    return {'first': draw(inputs(top)), 'second': draw(inputs(top)),
            'how': draw(st.sampled_from(['init', 'set'])),
            'ops': draw(st.lists(op, min_size=2, max_size=12))}


def kwargs(spec):
    kw = {'data': gen.expand(spec['x'])}
    for k in ('rate', 'data_type', 'taus'):
        if k in spec:
            kw[k] = spec[k]
    if 'm' in spec:
        kw['taus'] = gen.taus_of(spec['m'], spec.get('rate', 1.0))
    return kw


def snapshot(v):
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)) and len(v) and \
            np.ndim(v[0]) > 0:
        return ['pair'] + [np.array(u, dtype=float) for u in v]
    if np.ndim(v) == 0:
        return float(v)
    return np.array(v, dtype=float)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and a == b)
    return a == b


def snap_out(d):
    return {k: snapshot(d.out.get(k)) for k in KEYS + ['stat_id']}


def check_input(d, kw, who):
    full = {'rate': 1.0, 'data_type': 'phase', 'taus': None}
    full.update(kw)
    for k in INPUT:
        require(k in d.inp, '%s: inp has no %r', who, k)
        require(same(snapshot(d.inp[k]), snapshot(full[k])),
                '%s: inp[%r] is %r, was given %r', who, k, d.inp[k], full[k])


class Model(object):
    """The Dataset under test with what it was last told and last computed."""

    def __init__(self, kw, how):
        self.kw = kw
        if how == 'init':
            self.d = call(at.Dataset, **kw)
        else:
            self.d = call(at.Dataset)
            call(self.d.set_input, **kw)
        self.out = {k: None for k in KEYS + ['stat_id']}

    def check(self, who):
        check_input(self.d, self.kw, who)
        got = snap_out(self.d)
        for k in KEYS + ['stat_id']:
            require(same(got[k], self.out[k]), '%s: out[%r] is %r, last '
                    'computed %r', who, k, got[k], self.out[k])


@sub('C17', 'histories', histories(), 3500, shards=7,
     rule='two Dataset objects under up to 12 interleaved operations (compute, '
          'set_input, the record or the input dictionary changed in place, '
          'rejected function names, re-construction); after every '
          'operation both objects\' inp and out equal the model, results '
          'equal the direct call bit for bit, returned results never change '
          'and editing a returned dictionary does not reach the object; '
          'non-trivial = >=2 successful computations')
def _hist(c, ev):
    ms = [Model(kwargs(c['first']), c['how']),
          Model(kwargs(c['second']), 'init')]
    returned = []
    last = [None, None]
    done = 0
    for i, (op, w, arg) in enumerate(c['ops']):
        m = ms[w]
        who = 'op %d %s(%s)' % (i, op, arg if op in ('compute', 'bad')
                                else '...')
        if op == 'edit':
            # the caller's dictionary is the caller's
            if last[w] is not None:
                if arg == '*':
                    last[w].clear()
                elif arg == '+':
                    last[w]['note'] = last[w]['stat_id'] = 'mine'
                else:
                    last[w][arg] = None
                ev.label('edited')
                last[w] = None
        elif op == 'new':
            ms[w] = m = Model(kwargs(arg), 'init')
        elif op == 'set':
            m.kw = kwargs(arg)
            call(m.d.set_input, **m.kw)
        elif op == 'touch':
            # the record itself changes between computations
            x = m.kw['data']
            if arg == 'scale':
                x *= 2.0
            elif arg == 'point':
                x[len(x) // 2] += 3.0 * (np.ptp(x) or 1.0)
            else:
                x[:] = x[::-1].copy()
            if m.d.inp['data'] is not x:     # holds a copy of its own
                m.kw['data'] = np.array(m.d.inp['data'])
            ev.label('touched')
        elif op == 'poke':
            # the documented input dictionary, edited in place
            new = kwargs(arg)
            for k in ('rate', 'data_type', 'taus'):
                if k in new:
                    m.kw[k] = m.d.inp[k] = new[k]
            ev.label('poked')
        elif op == 'bad':
            r = call(m.d.compute, arg, allow=(AttributeError, RuntimeError))
            require(isinstance(r, (AttributeError, RuntimeError)),
                    '%s: computed %r instead of refusing', who, r)
            if not hasattr(at.allantools, arg):
                require(isinstance(r, AttributeError), '%s: unknown name '
                        'gives %s', who, type(r).__name__)
            else:
                require(isinstance(r, RuntimeError), '%s: not a deviation '
                        'but gives %s', who, type(r).__name__)
            ev.label('refused')
        else:
            kw = dict(m.kw)
            data = kw.pop('data')
            want = call(getattr(at, arg), data, allow=(UserWarning,), **kw)
            r = call(m.d.compute, arg, allow=(UserWarning,))
            if isinstance(want, UserWarning):
                require(isinstance(r, UserWarning), '%s: direct call '
                        'declines but compute returns %r', who, r)
                ev.label('declined')
            else:
                require(isinstance(r, dict), '%s: compute returned %r', who,
                        r)
                new = {k: snapshot(want[j]) for j, k in enumerate(KEYS)}
                for k in KEYS:
                    require(k in r and same(snapshot(r[k]), new[k]),
                            '%s: result[%r] is %r, the function itself '
                            'returns %r', who, k, r.get(k), new[k])
                if i + 1 < len(c['ops']) and \
                        c['ops'][i + 1][0] == 'edit' and \
                        c['ops'][i + 1][1] == w:
                    last[w] = r
                else:
                    returned.append((who, r,
                                     {k: snapshot(r[k]) for k in KEYS}))
                new['stat_id'] = arg
                m.out = new
                done += 1
                ev.label(arg)
        for j in (0, 1):
            ms[j].check('%s, object %d' % (who, j))
    for who, r, snap in returned:
        require(all(same(snapshot(r[k]), snap[k]) for k in KEYS),
                'the result returned by %s changed later', who)
    ev.nt(done >= 2)
