"""C30: a Plot shows exactly what the datasets hold."""
import io
import os

os.environ['MPLBACKEND'] = 'Agg'
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from ..core import sub, require, call  # noqa: E402
from .. import gen  # noqa: E402
from ..devs import ALL, max_len  # noqa: E402
from ..env import at  # noqa: E402


@st.composite
def sessions(draw):
    sets = []
    for _ in range(draw(st.integers(1, 3))):
        fn = draw(st.sampled_from(ALL))
        x = draw(gen.series(12, min(60, max_len(fn)), amps=[1.0, 1e-9],
                            kinds=['white', 'rw', 'heavy']))
        sets.append({'fn': fn, 'x': x, 'rate': draw(st.sampled_from(
            [1.0, 10.0, 0.5])), 'type': draw(st.sampled_from(
                ['phase', 'freq']))})
    op = st.fixed_dictionaries(
        {'set': st.integers(0, len(sets) - 1), 'fig': st.integers(0, 1),
         'err': st.sampled_from([None, False, True, True]),
         'grid': st.sampled_from([None, False, True]),
         'kw': st.sampled_from([None, 'label', 'color', 'style'])})
    return {'sets': sets, 'ops': draw(st.lists(op, min_size=1, max_size=4)),
            'save': draw(st.integers(0, 9)) == 0}


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0,
                                              equal_nan=True)


def bars(container, what):
    """-> (lower, upper) ends of the error bars"""
    segs = container.lines[2]
    require(len(segs) == 1, '%s: %d sets of error bars', what, len(segs))
    s = [np.asarray(v, float) for v in segs[0].get_segments()]
    return s


STYLE = {'linestyle': '--', 'marker': 's', 'linewidth': 3.5, 'alpha': 0.25}


def look(line):
    """everything visible about a curve"""
    return (line.get_label(), str(line.get_color()), line.get_linestyle(),
            str(line.get_marker()), line.get_linewidth(), line.get_alpha(),
            line.get_visible(), np.asarray(line.get_xdata()).tobytes(),
            np.asarray(line.get_ydata()).tobytes())


def in_order(ax, names, label):
    """legend entries expected: plain curves first, then error-bar sets"""
    now = ax.get_legend_handles_labels()[1]
    return now if sorted(now) == sorted(names + [label]) else names + [label]


def check_plot(p, d, o):
    ax = p.ax
    lines, conts = list(ax.lines), list(ax.containers)
    state = [look(v) for v in lines]
    names = ax.get_legend_handles_labels()[1]
    kw = {}
    if o['err'] is not None:
        kw['errorbars'] = o['err']
    if o['grid'] is not None:
        kw['grid'] = o['grid']
    if o['kw'] == 'label':
        kw['label'] = 'curve %d' % len(lines)
    elif o['kw'] == 'style':
        kw.update(STYLE)
    elif o['kw'] == 'color':
        kw['color'] = 'red'
    call(p.plot, d, what='Plot.plot', **kw)
    who = '%s errorbars=%r' % (d.out['stat_id'], o['err'])
    new = [v for v in ax.lines if all(v is not w for w in lines)]
    for v in lines:
        require(any(v is w for w in ax.lines), '%s: earlier curve vanished',
                who)
    for v, w in zip(lines, state):
        require(look(v) == w, '%s: an earlier curve changed from %s to %s',
                who, w, look(v))
    newc = [v for v in ax.containers if all(v is not w for w in conts)]
    t = np.asarray(d.out['taus'], float)
    y = np.asarray(d.out['stat'], float)
    if o['err']:
        require(len(newc) == 1, '%s: %d error-bar sets added', who,
                len(newc))
        main = newc[0].lines[0]
        e = d.out['stat_err']
        lo, hi = e if len(np.shape(e)) == 2 or isinstance(e, list) \
            else (e, e)
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        got = bars(newc[0], who)
        require(len(got) == len(t), '%s: %d error bars for %d points', who,
                len(got), len(t))
        for i, s in enumerate(got):
            if not np.all(np.isfinite([lo[i], hi[i], y[i]])):
                continue
            want = np.array([[t[i], y[i] - lo[i]], [t[i], y[i] + hi[i]]])
            require(np.allclose(s, want, rtol=1e-9,
                                atol=1e-12 * abs(y[i])), '%s: error bar %s '
                    'at tau=%r, dataset has %s', who, s, t[i], want)
    else:
        require(not newc and len(new) == 1, '%s: %d curves and %d error '
                'bars added', who, len(new), len(newc))
        main = new[0]
    require(same(main.get_xdata(), t) and same(main.get_ydata(), y),
            '%s: curve %s %s, dataset %s %s', who, main.get_xdata(),
            main.get_ydata(), t, y)
    require(ax.get_xscale() == 'log' and ax.get_yscale() == 'log',
            '%s: axes are %s/%s', who, ax.get_xscale(), ax.get_yscale())
    require(ax.get_ylabel() == d.out['stat_id'], '%s: y label %r', who,
            ax.get_ylabel())
    require('tau' in ax.get_xlabel().lower(), '%s: x label %r', who,
            ax.get_xlabel())
    if o['kw'] == 'label':
        require(ax.get_legend_handles_labels()[1] ==
                in_order(ax, names, kw['label']), '%s: label %r not passed '
                'on, legend entries %s', who, kw['label'],
                ax.get_legend_handles_labels()[1])
    else:
        require(ax.get_legend_handles_labels()[1] == names,
                '%s: legend entries changed from %s to %s', who, names,
                ax.get_legend_handles_labels()[1])
    if o['kw'] == 'style':
        got = (main.get_linestyle(), main.get_marker(), main.get_linewidth(),
               main.get_alpha())
        require(got == ('--', 's', 3.5, 0.25), '%s: style %s drawn as %s',
                who, STYLE, got)
    if o['kw'] == 'color':
        require(main.get_color() == 'red', '%s: color not passed on', who)
    # grid lines show iff requested in the last call
    ticks = ax.xaxis.get_major_ticks() + ax.yaxis.get_major_ticks()
    vis = {v.gridline.get_visible() for v in ticks}
    require(vis <= {bool(o['grid'])}, '%s: grid=%r but gridlines visible=%s',
            who, o['grid'], vis)
    ticks = ax.xaxis.get_minor_ticks() + ax.yaxis.get_minor_ticks()
    vis = {v.gridline.get_visible() for v in ticks}
    require(vis <= {bool(o['grid'])}, '%s: grid=%r but minor gridlines '
            'visible=%s', who, o['grid'], vis)


@sub('C30', 'sessions', sessions(), 240, thorough=4000, shards=8,
     rule='sequences of plot calls on two figures: curve, error bars '
          '(asymmetric for gradev), label, style, log axes and grid mirror the '
          'dataset; datasets untouched; saving writes this figure; '
          'non-trivial = error bars drawn')
def _ses(c, ev):
    data = []
    for s in c['sets']:
        d = call(at.Dataset, gen.expand(s['x']), rate=s['rate'],
                 data_type=s['type'])
        r = call(d.compute, s['fn'], what=s['fn'], allow=(UserWarning,))
        data.append(None if isinstance(r, UserWarning) else d)
    before = [None if d is None else
              {k: np.array(d.out[k], float) for k in
               ('taus', 'stat', 'stat_err', 'stat_n')} for d in data]
    figs = [call(at.Plot, no_display=True) for _ in range(2)]
    try:
        require(figs[0].fig is not figs[1].fig, 'two Plots share a figure')
        counts = [0, 0]
        for o in c['ops']:
            d = data[o['set']]
            if d is None:
                continue
            other = figs[1 - o['fig']]
            n = len(other.ax.lines)
            check_plot(figs[o['fig']], d, o)
            require(len(other.ax.lines) == n, 'plotting on one figure '
                    'changed the other')
            counts[o['fig']] += 1
            ev.nt(bool(o['err']))
            ev.label(d.out['stat_id'])
        for d, b in zip(data, before):
            for k in (b or {}):
                require(same(np.array(d.out[k], float), b[k]),
                        'plotting changed out[%r]', k)
        if c['save'] and counts[0]:
            got, want = io.BytesIO(), io.BytesIO()
            figs[0].fig.set_dpi(30)
            call(figs[0].save, got, what='Plot.save')
            figs[0].fig.savefig(want)
            require(got.getvalue() == want.getvalue(),
                    'save() did not write this figure')
            ev.label('saved')
    finally:
        for p in figs:
            p.plt.close(p.fig)
