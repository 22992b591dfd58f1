"""C15: real-time statistics equal the batch definition at every prefix."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen, ref
from ..devs import rounding
from ..env import at

R = at.realtime if hasattr(at, 'realtime') else at
CLASSES = {'oadev': ('oadev_realtime', ref.oadev, 2),
           'ohdev': ('ohdev_realtime', ref.ohdev, 3),
           'tdev': ('tdev_realtime', None, 3)}
SQ3 = 3.0 ** 0.5
TAU0 = [1.0, 1.0, 1, 2, 0.1, 0.25, 10.0, 1e-3, 60.0, 1.0 / 3.0, 1e-6, 1e-9, 7,
        900, 3600.0, 86400.0, 1e6]


def definition(kind, x, m):
    """(deviation * tau0-free scale, terms): tau*dev, or tdev itself."""
    if kind == 'tdev':
        v, n = ref.mdev(x, m)
        return float(v) / SQ3, n
    v, n = CLASSES[kind][1](x, m)
    return float(v), n


def make(kind, **kw):
    return call(getattr(at, CLASSES[kind][0]), what=CLASSES[kind][0], **kw)


def tolerance(x, v):
    return 1e-8 * v + 4 * rounding(x, 64)


def check_state(kind, obj, x, afs, tau0, when):
    taus = as_array(call(obj.taus), 'taus()')
    devs = as_array(call(obj.devs), 'devs()')
    require(taus.shape == devs.shape == (len(afs),),
            '%s: %d AFs but taus() %s and devs() %s', when, len(afs),
            taus.shape, devs.shape)
    md = None
    if kind == 'tdev':
        md = as_array(call(obj.mdev), 'mdev()')
        require(md.shape == devs.shape, '%s: mdev() has shape %s', when,
                md.shape)
    seen = 0
    for i, m in enumerate(afs):
        require(abs(taus[i] - m * tau0) <= 1e-12 * m * tau0,
                '%s: taus()[%d] is %r, AF %d x tau0 %r', when, i, taus[i], m,
                tau0)
        v, n = definition(kind, x, m) if len(x) > 2 * m else (0.0, 0)
        scale = 1.0 if kind == 'tdev' else m * float(tau0)
        got = devs[i] * scale
        if n == 0:
            require(got == 0, '%s: AF %d has no complete term but reads %r',
                    when, m, devs[i])
            continue
        seen += v > 0
        require(np.isfinite(got) and abs(got - v) <= tolerance(x, v),
                '%s: AF %d tau0 %r: real-time %s %r, definition over the %d '
                'points so far %r', when, m, tau0, kind, devs[i], len(x),
                v / scale)
        if md is not None:
            want = devs[i] * SQ3 / (m * float(tau0))
            require(abs(md[i] - want) <= 1e-9 * abs(want),
                    '%s: AF %d: mdev() %r, sqrt(3) TDEV/tau is %r', when, m,
                    md[i], want)
    return seen


class Feeder(object):
    """Feeds a real-time object and keeps the phase record it must see."""

    def __init__(self, obj, tau0):
        self.obj, self.tau0, self.x = obj, tau0, []

    def phase(self, v):
        self.x.append(v)
        call(self.obj.add_phase, v, what='add_phase')

    def freq(self, y):
        if not self.x:
            self.x.append(0.0)
        self.x.append(self.x[-1] + y * self.tau0)
        call(self.obj.add_frequency, y, what='add_frequency')


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(sorted(CLASSES)))
    form = draw(st.sampled_from(['list', 'list', 'array', 'default']))
    ops = draw(st.lists(st.tuples(st.sampled_from('ppf'),
                                  st.integers(-50, 50)),
                        min_size=draw(st.sampled_from([3, 8, 16, 30])),
                        max_size=45))
    top = max(1, len(ops) // 3)
    afs = draw(st.lists(st.one_of(gen.uni(1, min(4, top)),
                                  gen.uni(1, top),
                                  gen.uni(1, max(1, len(ops) // 2))),
                        min_size=1, max_size=4, unique=True))
    mode = draw(st.sampled_from(['mixed', 'mixed', 'p', 'f']))
    if mode != 'mixed':
        ops = [(mode, v) for _, v in ops]
    return {'kind': kind, 'form': form, 'afs': afs, 'ops': ops,
            'a': draw(st.sampled_from([1.0, 1.0, 0.1, 1e-9])),
            'tau0': draw(st.sampled_from(TAU0)),
            'afs2': draw(st.lists(st.integers(1, 6), min_size=1, max_size=3,
                                  unique=True))}


def construct(c):
    if c['form'] == 'default':
        return make(c['kind'], tau0=c['tau0']), [1]
    afs = list(c['afs'])
    if c['form'] == 'array':
        return make(c['kind'], afs=np.array(afs), tau0=c['tau0']), afs
    return make(c['kind'], afs=afs, tau0=c['tau0']), afs


@sub('C15', 'histories', histories(), 4500, shards=6,
     rule='op sequences of up to 45 add_phase/add_frequency calls (mixed, or '
          'one kind), 3 classes, 1-4 unsorted AFs, tau0; after every call '
          'taus()/devs()/mdev() compared with the definition over the points '
          'so far, AFs without a term read 0; non-trivial = some AF>=2 with '
          'a non-zero deviation was compared')
def _hist(c, ev):
    obj, afs = construct(c)
    f = Feeder(obj, c['tau0'])
    seen = 0
    for i, (op, v) in enumerate(c['ops']):
        (f.phase if op == 'p' else f.freq)(v * c['a'])
        seen += check_state(c['kind'], obj, np.array(f.x), afs, c['tau0'],
                            'after call %d' % (i + 1))
    ev.nt(seen and max(afs) > 1)
    ev.label(c['kind'])
    if any(o == 'f' for o, _ in c['ops']):
        ev.label('frequency')


@sub('C15', 'independence', histories(), 700,
     rule='an object read after every call, one read only at the end, and a '
          'second object of other AFs fed alternately: same final results; '
          'the afs argument is not modified; non-trivial = >=5 points')
def _indep(c, ev):
    kind = c['kind']
    arg = np.array(c['afs']) if c['form'] == 'array' else list(c['afs'])
    kw = {} if c['form'] == 'default' else {'afs': arg}
    a = make(kind, tau0=c['tau0'], **kw)
    b = make(kind, tau0=c['tau0'], **kw)
    other = make(kind, afs=list(c['afs2']), tau0=1.0)
    fa, fb, fo = Feeder(a, c['tau0']), Feeder(b, c['tau0']), Feeder(other, 1.)
    for op, v in c['ops']:
        (fa.phase if op == 'p' else fa.freq)(v * c['a'])
        fo.phase(3.0 * v * v)
        (fb.phase if op == 'p' else fb.freq)(v * c['a'])
        for r in (a.taus, a.devs) + ((a.mdev,) if kind == 'tdev' else ()):
            call(r)
    require(np.array_equal(as_array(a.devs(), 'devs'),
                           as_array(b.devs(), 'devs')),
            'reading results between calls changed them: %s vs %s',
            a.devs(), b.devs())
    check_state(kind, other, np.array(fo.x), c['afs2'], 1.0, 'second object')
    if c['form'] != 'default':
        require(list(arg) == list(c['afs']), 'afs argument modified: %r', arg)
    ev.nt(len(c['ops']) >= 5)


@st.composite
def longs(draw):
    x = draw(gen.series(20, 120, 400, kinds=['white', 'rw', 'rr', 'sine',
                                             'step', 'impulse', 'plateau',
                                             'ramp', 'heavy']))
    n = gen.spec_len(x)
    return {'kind': draw(st.sampled_from(sorted(CLASSES))), 'x': x,
            'afs': draw(gen.ms(n, mmax=n // 2, max_size=5)),
            'tau0': draw(st.sampled_from(TAU0)),
            'split': draw(gen.uni(0, n)),
            'feed': draw(st.sampled_from(['phase', 'freq', 'mixed']))}


@sub('C15', 'long-vs-batch', longs(), 900, shards=4,
     rule='records of 20-400 points fed one at a time; definition compared '
          'at ~12 prefixes and the batch function compared at the end; '
          'non-trivial = an AF>=2 with a non-zero deviation')
def _long(c, ev):
    x = gen.expand(c['x'])
    kind, tau0 = c['kind'], c['tau0']
    obj = make(kind, afs=list(c['afs']), tau0=tau0)
    f = Feeder(obj, tau0)
    n = len(x)
    marks = set(np.linspace(1, n, 9).astype(int)) | \
        {k * m + j for m in c['afs'] for k in (2, 3) for j in (0, 1)} | {n}
    seen = 0
    for i, v in enumerate(x):
        if c['feed'] == 'phase' or (c['feed'] == 'mixed' and i >= c['split']):
            f.phase(float(v))
        else:
            f.freq(float(v))
        if i + 1 in marks:
            seen += check_state(kind, obj, np.array(f.x), c['afs'], tau0,
                                'after %d points' % (i + 1))
    ev.nt(seen and max(c['afs']) > 1)
    xs = np.array(f.x)
    for i, m in enumerate(c['afs']):
        r = call(getattr(at, kind), xs, rate=1.0 / float(tau0), taus=[m * float(tau0)],
                 allow=(UserWarning,))
        if isinstance(r, UserWarning):
            continue
        scale = 1.0 if kind == 'tdev' else m * float(tau0)
        a, b = float(obj.devs()[i]) * scale, float(r[1][0]) * scale
        require(abs(a - b) <= tolerance(xs, b), 'AF %d: real-time %s %r, '
                'batch %r', m, kind, a / scale, b / scale)
        ev.label('batch')


@st.composite
def marathons(draw):
    n = draw(st.one_of(gen.block_lengths(500, 12000),
                       gen.uni(500, 6000), gen.uni(500, 6000),
                       gen.uni(6000, 40000)))
    many = n < 6000 and draw(st.integers(0, 3)) == 0
    return {'kind': draw(st.sampled_from(sorted(CLASSES))),
            'x': {'k': draw(st.sampled_from(['white', 'rw'])), 'n': n,
                  's': draw(gen.seeds), 'a': 1.0, 'o': 0.0, 'sl': 0.0},
            'afs': draw(st.lists(st.one_of(st.integers(1, 12),
                                           gen.uni(1, n // 8),
                                           gen.uni(1, n // 3 - 1)),
                                 min_size=13 if many else 1,
                                 max_size=20 if many else 3, unique=True)),
            'tau0': draw(st.sampled_from(TAU0)),
            'freq': draw(st.booleans()),
            'marks': draw(st.lists(gen.uni(1, n), max_size=4))}


@sub('C15', 'long-runs', marathons(), 160, shards=6,
     rule='500-40000 points fed one at a time (phase or frequency), 1-20 '
          'averaging factors up to a third of the run; definition compared '
          'at up to 4 random prefixes and at the end; non-trivial = a '
          'non-zero deviation was compared')
def _marathon(c, ev):
    x = gen.expand(c['x'])
    kind, tau0 = c['kind'], c['tau0']
    obj = make(kind, afs=list(c['afs']), tau0=tau0)
    f = Feeder(obj, tau0)
    marks = set(c['marks']) | {len(x)}
    seen = 0
    for i, v in enumerate(x):
        if c['freq']:
            f.freq(float(v))
        else:
            f.phase(float(v))
        if i + 1 in marks:
            seen += check_state(kind, obj, np.array(f.x), c['afs'], tau0,
                                'after %d points' % (i + 1))
    ev.nt(seen > 0)
    ev.label(kind, 'freq' if c['freq'] else 'phase')
