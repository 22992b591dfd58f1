"""C18: write_results round trip."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..core import sub, require, call, as_array
from .. import gen
from ..devs import ALL, max_len, errs, expected_rows
from ..env import at


@st.composite
def cases(draw):
    fn = draw(st.sampled_from(ALL))
    x = draw(gen.series(4, max_len(fn), kinds=['white', 'rw', 'ints',
                                               'plateau', 'heavy', 'const'],
                        amps=[1.0, 1e-9, 1e-15, 1e6, 1e-110, 1e90],
                        slopes=[0.0]))
    n = gen.spec_len(x)
    c = {'fn': fn, 'x': x, 'rate': draw(gen.rates),
         'digits': draw(st.sampled_from([None, None, 1, 2, 3, 5, 6, 8, 12,
                                         15])),
         'data_type': draw(st.sampled_from(['phase', 'freq'])),
         'header': draw(st.one_of(st.none(), st.dictionaries(
             st.sampled_from(['Location', 'Comment', 'K 1', 'tau', 'AF']),
             st.one_of(st.integers(-5, 5), st.sampled_from(
                 ['lab 3', 'x: y', '1.5', 'a#b', '']),
                 st.floats(-1e3, 1e3)), max_size=3))),
         'old': draw(st.sampled_from([None, 0, 3000])),
         'm': draw(st.one_of(st.none(), gen.ms(n, mmax=max(1, n // 2))))}
    return c


def near(tok, val, digits):
    """tok is val printed with `digits` significant digits."""
    got = float(tok)
    if np.isnan(val):
        return np.isnan(got)
    if not np.isfinite(val):
        return got == val
    lim = 0.5001 * 10.0 ** (1 - digits) * 10.0 ** np.floor(
        np.log10(abs(val))) * (1 + 1e-9) if val else 0.0
    # 9.99.. may round up a decade; the bound above still covers it
    if abs(got - val) > lim + 1e-15 * abs(val):
        return False
    mant = tok.lower().split('e')[0].lstrip('+-').replace('.', '')
    return len(mant) == digits


def parse(text):
    head, table = [], []
    for ln in text.splitlines():
        (head if ln.startswith('#') else table).append(ln)
    return head, table


@sub('C18', 'round-trip', cases(), 3000, shards=6,
     rule='15 deviations x rates x digits 1..15 x header_params x existing '
          'file contents; the parsed file equals the computed rows: AF, tau, '
          'n, min/dev/max to the printed digits, header lines; '
          'non-trivial = >=2 rows')
def _rt(c, ev):
    x = gen.expand(c['x'])
    kw = {'rate': c['rate'], 'data_type': c['data_type']}
    if c['m'] is not None:
        kw['taus'] = gen.taus_of(c['m'], c['rate'])
    d = call(at.Dataset, x, **kw)
    r = call(d.compute, c['fn'], allow=(UserWarning,))
    if isinstance(r, UserWarning):
        return
    tmp = tempfile.mkdtemp(prefix='c18-')
    try:
        path = os.path.join(tmp, 'out.dat')
        if c['old'] is not None:
            with open(path, 'w') as fp:
                fp.write('stale line 1 2 3\n' * c['old'])
        args = {}
        if c['digits'] is not None:
            args['digits'] = c['digits']
        if c['header'] is not None:
            args['header_params'] = dict(c['header'])
        call(d.write_results, path, what='write_results', **args)
        if c['header'] is not None:
            require(args['header_params'] == c['header'],
                    'write_results modified header_params')
        require(os.listdir(tmp) == ['out.dat'], 'extra files: %s',
                os.listdir(tmp))
        text = open(path).read()
    finally:
        shutil.rmtree(tmp)
    digits = c['digits'] or 5
    head, table = parse(text)
    require(any(ln.endswith('data type: ' + c['data_type'])
                for ln in head), 'no data type line in %r', head)
    require(any(ln.endswith('data rate: %s' % c['rate']) for ln in head),
            'no data rate line in %r', head)
    for k, v in (c['header'] or {}).items():
        require(any(ln.strip() == ('# %s: %s' % (k, v)).strip()
                    for ln in head),
                'no header line for %r: %r in %r', k, v, head)
    require(len(head) == 3 + len(c['header'] or {}),
            'header lines: %r', head)
    require(len(table) == 1 + len(r['taus']),
            '%d table lines for %d rows', len(table) - 1, len(r['taus']))
    require(table[0].split() == ['AF', 'Tau', 'N', 'alpha', 'min_' + c['fn'],
                                 c['fn'], 'max_' + c['fn']],
            'column line %r', table[0])
    if c['fn'] == 'gradev':
        lo, hi = errs('gradev', (0, 0, r['stat_err'], 0))
    else:
        lo = hi = as_array(r['stat_err'], 'stat_err') / 2
    n = len(x) + (1 if c['data_type'] == 'freq' else 0)
    mset = c['m'] if c['m'] is not None else gen.keyword_ms('octave', n)
    want_af = [m for m, _ in expected_rows(c['fn'], n, mset)]
    got_af = []
    for i, ln in enumerate(table[1:]):
        f = ln.split()
        require(len(f) == 7, 'row %r', ln)
        got_af.append(int(f[0]))
        require(near(f[1], float(r['taus'][i]), digits), 'row %r: tau is %r',
                ln, r['taus'][i])
        require(int(f[2]) == int(r['stat_n'][i]), 'row %r: n is %r', ln,
                r['stat_n'][i])
        require(f[3] == 'NaN', 'row %r: alpha column', ln)
        s = float(r['stat'][i])
        for tok, v, what in ((f[4], s - lo[i], 'min'), (f[5], s, 'dev'),
                             (f[6], s + hi[i], 'max')):
            require(near(tok, v, digits), 'row %r: %s should be %r', ln, what,
                    v)
    if c['fn'] != 'gradev':
        require(got_af == want_af, '%s: AF column %s, expected %s', c['fn'],
                got_af, want_af)
    else:
        require(set(got_af) <= set(want_af), 'AF column %s, expected %s',
                got_af, want_af)
    ev.nt(len(got_af) >= 2)
    ev.label(c['fn'], 'digits=%s' % c['digits'])


@sub('C18', 'sequence', st.tuples(cases(), cases()), 300,
     rule='header_params of one call must not appear in a later call without '
          'them, two datasets written to two files; non-trivial = always')
def _seq(cs, ev):
    tmp = tempfile.mkdtemp(prefix='c18-')
    try:
        texts = []
        for i, hp in enumerate((cs[0]['header'] or {'Site': 'A'}, None)):
            d = call(at.Dataset, np.arange(12.0) ** 2, rate=cs[i]['rate'])
            call(d.compute, 'oadev')
            p = os.path.join(tmp, 'f%d' % i)
            call(d.write_results, p,
                 **({'header_params': hp} if hp is not None else {}))
            texts.append(open(p).read())
        require(len(parse(texts[1])[0]) == 3,
                'header of the second file: %r', parse(texts[1])[0])
        ev.nt()
    finally:
        shutil.rmtree(tmp)
