"""C27: figures show the data they are given."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vp import gens as g
from vp import ref
from vp.core import Prop, call, ensure

PROP = Prop('C27', 'Figures show exactly the data they are given', [
    'Figures are rendered off screen; the drawn objects are read back from the figure.',
])


def close_all():
    import matplotlib.pyplot as plt
    plt.close('all')


def lines(ax):
    return [(np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel(), ln)
            for ln in ax.get_lines()]


def find(ax, x, y, what, style=None):
    """A line with this data (and 'line' or 'points' style) exists."""
    x, y = np.ravel(x).astype(float), np.ravel(y).astype(float)
    for lx, ly, ln in lines(ax):
        if lx.shape == x.shape and np.allclose(lx, x, rtol=1e-9, atol=1e-12) and \
                np.allclose(ly, y, rtol=1e-9, atol=1e-12 + 1e-9 * np.max(np.abs(y), initial=0)):
            pts = ln.get_linestyle() in ('None', '', ' ')
            if style is None or (style == 'points') == pts:
                return ln
    ensure(False, '%s is not drawn', what)


def band(ax, x, lo, hi, what):
    """A filled band whose outline is (x, lo) and (x, hi)."""
    x, lo, hi = (np.ravel(v).astype(float) for v in (x, lo, hi))
    want = np.vstack([np.stack([x, lo], 1), np.stack([x, hi], 1)])
    tol = 1e-9 * (1 + np.abs(want).max())
    n = 0
    for col in ax.collections:
        n += 1
        V = np.vstack([p.vertices for p in col.get_paths()])
        a = all(np.min(np.max(np.abs(V - w), axis=1)) <= tol for w in want)
        b = all(np.min(np.max(np.abs(want - v), axis=1)) <= tol for v in V)
        if a and b:
            return
    ensure(False, '%s is not drawn (%d filled regions)', what, n)


def limits(ax, lo, hi):
    if hi > lo:
        got = ax.get_xlim()
        ensure(abs(got[0] - lo) <= 1e-9 * (1 + abs(lo)) and abs(got[1] - hi) <= 1e-9 * (1 + abs(hi)),
               'horizontal range %s, expected [%g, %g]', got, lo, hi)


def zero(c, ax):
    at = ax.spines['bottom'].get_position()
    ensure((at == 'zero' or at == ('data', 0)) == bool(c.get('zero')),
           'the horizontal axis is at %r, zero axis requested: %s', at, bool(c.get('zero')))


def colour(c):
    import matplotlib.colors as mc
    return tuple(mc.to_rgba(c))


def labels(ax, x, y):
    if x is not None:
        ensure(ax.get_xlabel() == x, 'horizontal label %r', ax.get_xlabel())
    ensure(ax.get_ylabel() == y, 'vertical label %r', ax.get_ylabel())


def entries(legend):
    """(text, colour, marker) of the entries of a legend."""
    return [(t.get_text(), colour(h.get_color()), h.get_marker())
            for t, h in zip(legend.get_texts(), legend.get_lines())]


class Saved:
    """The figures behind the files that are written, with the legends they had then."""

    def __enter__(self):
        from matplotlib.backend_bases import FigureCanvasBase as Base
        self.files = files = {}
        self.inner = inner = Base.print_figure

        def spy(canvas, filename, *args, **kwargs):
            res = inner(canvas, filename, *args, **kwargs)
            fig = canvas.figure
            files[os.path.basename(str(filename))] = (fig, [entries(q) for q in fig.legends])
            return res
        Base.print_figure = spy
        return self

    def __exit__(self, *exc):
        from matplotlib.backend_bases import FigureCanvasBase as Base
        Base.print_figure = self.inner
        return False


class Figures:
    """Run a plotting call, keep its figures, and check the saved files."""

    def __init__(self, c, prefix, legend=False):
        self.c, self.prefix, self.legend = c, prefix, legend

    def __call__(self, fn, *args, **kw):
        import matplotlib.pyplot as plt
        close_all()
        c = self.c
        kw.update(pause_figure=False)
        if c.get('zero'):
            kw['draw_zero_axis'] = True
        if c.get('colors'):
            kw['colors'] = np.array(c['colors'])
        if c.get('markers'):
            kw['markers'] = np.array(c['markers'])
        for k in ('str_x_axis', 'str_y_axis', 'str_acq_axis', 'range_shade'):
            if c.get(k) is not None:
                kw[k] = c[k]
        path = tempfile.mkdtemp(prefix='vpf_') if c['save'] else None
        try:
            if path:
                kw['path_save'] = path
                if c['save'] == 'both':
                    kw['str_postfix'] = 'post'
            with Saved() as saved:
                res = call(fn, *args, **kw)
            self.saved = saved.files
            ensure(res is None, 'a plotting call returned %r', res)
            if path:
                got = sorted(os.listdir(path))
                want = []
                if c['save'] == 'both':
                    want = [self.prefix + 'post.pdf'] + (['legend_post.pdf'] if self.legend else [])
                ensure(got == sorted(want), 'files written: %s, expected %s', got, sorted(want))
                for f in got:
                    with open(os.path.join(path, f), 'rb') as fh:
                        ensure(fh.read(4) == b'%PDF', '%s is not a PDF file', f)
        finally:
            if path:
                shutil.rmtree(path, ignore_errors=True)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        ensure(len(figs) >= 1, 'no figure was made')
        if self.prefix + 'post.pdf' in self.saved:
            ensure(self.saved[self.prefix + 'post.pdf'][0] is figs[0],
                   'the saved file is not the figure')
        return figs[0]


def common(draw, acq=False):
    c = {'save': g.pick(draw, 'both', 'path') if g.chance(draw, 7) else None,
         'str_x_axis': g.pick(draw, None, 'input', 'x-y'),
         'str_y_axis': g.pick(draw, None, 'output'),
         'range_shade': None}
    if acq:
        c['str_acq_axis'] = g.pick(draw, None, 'score')
    return c


def curve(draw, n, distinct=False):
    r = g.rnd(draw)
    style = draw(st.integers(0, 2))
    if style == 0:
        x = np.linspace(-1, 2, n)
    elif style == 1:
        x = np.sort(r.randn(n)) * 10.0 ** r.randint(-1, 3)
    else:
        x = r.randn(n)
        if n > 2 and r.rand() < 0.3:
            x[1] = x[0]
        if n > 3 and r.rand() < 0.2:
            x = np.floor(x * 2)
    y = np.round(r.randn(n) * 10.0 ** r.randint(-1, 3), 4)
    return [[float(round(v, 6))] for v in x], [[float(v)] for v in y]


@g.strat
def gen_sample(draw):
    n, k = g.size(draw, 12, 60, 200, low=2), g.size(draw, 5, 20, 250)
    c = common(draw)
    c['zero'] = g.chance(draw, 20)
    c['X'], _ = curve(draw, n)
    c['Ys'] = np.round(g.rnd(draw).randn(k, n) * 3, 4).tolist()
    if g.chance(draw, 10):
        c['Ys'][-1] = [0.0] * n
    if g.chance(draw, 20):
        c['colors'] = ['teal', 'navy']
    return c


@PROP.sub(gen_sample, 240, 4000, lambda c: len(c['Ys']) > 1, 'several functions')
def samples(c):
    from bayeso.utils import utils_plotting as up
    X, Ys = g.A(c['X']), g.A(c['Ys'])
    fig = Figures(c, 'gp_sampled_')(up.plot_gp_via_sample, X, Ys)
    try:
        ax, = fig.axes
        ensure(len(lines(ax)) == len(Ys), '%d curves for %d functions', len(lines(ax)), len(Ys))
        for i, y in enumerate(Ys):
            find(ax, X, y, 'function %d' % i, 'line')
        limits(ax, X.min(), X.max())
        labels(ax, c['str_x_axis'] or 'x', c['str_y_axis'] or 'y')
        zero(c, ax)
    finally:
        close_all()


@g.strat
def gen_step(draw):
    c = common(draw, acq=True)
    c['zero'] = g.chance(draw, 20)
    n, m = g.size(draw, 8, 40, 150), g.size(draw, 15, 60, 200, low=2)
    c['X'], c['Y'] = curve(draw, n)
    c['Xs'], c['mean'] = curve(draw, m)
    c['std'] = np.round(np.abs(g.rnd(draw).randn(m, 1)), 4).tolist()
    if g.chance(draw, 15):
        for i in range(0, m, 2):
            c['std'][i] = [0.0]
    c['truth'] = None if g.chance(draw, 25) else np.round(g.rnd(draw).randn(m, 1), 4).tolist()
    c['acq'] = np.round(g.rnd(draw).randn(m, 1), 4).tolist()
    c['num_init'] = g.pick(draw, None, draw(st.integers(0, n)), draw(st.integers(0, n)))
    c['range_shade'] = g.pick(draw, None, 1.0, 3.0)
    c['which'] = g.pick(draw, 'gp', 'step', 'acq')
    return c


@PROP.sub(gen_step, 520, 8000, lambda c: len(c['X']) > 1, 'several training points')
def surrogate(c):
    from bayeso.utils import utils_plotting as up
    X, Y, Xs = g.A(c['X']), g.A(c['Y']), g.A(c['Xs'])
    mean, std, acq = g.A(c['mean']), g.A(c['std']), g.A(c['acq'])
    truth = None if c['truth'] is None else g.A(c['truth'])
    shade = c['range_shade'] or 1.96
    which = c['which']
    if which != 'acq':
        c = dict(c, str_acq_axis=None)
    if which == 'gp':
        fig = Figures(c, 'gp_')(up.plot_gp_via_distribution, X, Y, Xs, mean, std, Y_test=truth)
    else:
        if truth is None:
            truth = mean * 0.5
        if which == 'step':
            fig = Figures(c, 'bo_step_')(up.plot_bo_step, X, Y, Xs, truth, mean, std,
                                         num_init=c['num_init'])
        else:
            fig = Figures(c, 'bo_step_acq_')(up.plot_bo_step_with_acq, X, Y, Xs, truth, mean, std,
                                             acq, num_init=c['num_init'])
    try:
        axes = fig.axes
        ensure(len(axes) == (2 if which == 'acq' else 1), '%d panels', len(axes))
        ax = axes[0]
        if truth is not None:
            find(ax, Xs, truth, 'the true function', 'line')
        find(ax, Xs, mean, 'the predicted mean', 'line')
        band(ax, Xs, mean - shade * std, mean + shade * std, 'the uncertainty band')
        limits(ax, Xs.min(), Xs.max())
        k = c['num_init']
        if which == 'gp' or (k is not None and k >= len(X)):
            groups = [(0, len(X))]
        elif k is None:
            groups = [(0, len(X) - 1), (len(X) - 1, len(X))]
        else:
            groups = [(0, k), (k, len(X) - 1), (len(X) - 1, len(X))]
        marks = []
        for a, b in groups:
            if b > a:
                ln = find(ax, X[a:b], Y[a:b], 'observations %d to %d' % (a, b))
                ensure(ln.get_marker() not in ('None', '', ' ', None),
                       'observations %d to %d have no marker', a, b)
                marks.append((ln.get_marker(), str(ln.get_color())))
        total = sum(len(x) for x, _, ln in lines(ax) if ln.get_marker() not in ('None', '', ' ', None))
        ensure(total == len(X), '%d observations are drawn, %d were given', total, len(X))
        ensure(len(set(marks)) == len(marks), 'initial, later and newest points look the same')
        zero(c, ax)
        y = c['str_y_axis'] or 'y'
        if which == 'acq':
            find(axes[1], Xs, acq, 'the acquisition', 'line')
            limits(axes[1], Xs.min(), Xs.max())
            labels(axes[1], c['str_x_axis'] or 'x', c['str_acq_axis'] or 'acq.')
            labels(ax, None, y)
        else:
            labels(ax, c['str_x_axis'] or 'x', y)
    finally:
        close_all()
    return {'labels': [which]}


@g.strat
def gen_min(draw):
    c = common(draw)
    m, r, n = g.size(draw, 4, 12, 24, p_mid=10), g.size(draw, 4, 20), g.size(draw, 10, 60, low=3)
    M = np.round(g.rnd(draw).randn(m, r, n) * 3, 4)
    if g.chance(draw, 15):
        M = M - np.arange(n) * 5.0
    if g.chance(draw, 10):
        M[0] = 1.5
    c['minima'] = M.tolist()
    if g.chance(draw, 25):
        c['colors'] = g.pick(draw, ['teal', 'navy', 'gold'], ['black'], list('rgbcmyk'))
    if g.chance(draw, 25):
        c['markers'] = g.pick(draw, ['s', 'd'], ['o', '^', 'v', '<', '>'])
    k = draw(st.integers(1, n - 1))
    c['num_init'] = k
    c['times'] = np.round(g.rnd(draw).rand(m, r, n if g.chance(draw, 50) else n - k), 4).tolist() \
        if g.chance(draw, 50) else None
    c['std'] = g.chance(draw, 60)
    c['marker'] = g.chance(draw, 50)
    c['legend'] = g.chance(draw, 40)
    c['first'], c['step'] = draw(st.integers(0, 52)), g.pick(draw, 1, 52, 7, 20)
    c['range_shade'] = g.pick(draw, None, 1.0, 3.0)
    return c


def keyed(got, names, keys, what):
    ensure([e[0] for e in got] == names, '%s: entries %s, expected %s', what,
           [e[0] for e in got], names)
    for e, want in zip(got, keys):
        ensure(e in want, '%s: %s is shown as %s, its curve as %s', what, e[0], e[1:], want)


@PROP.sub(gen_min, 400, 6000, lambda c: len(c['minima']) > 1 and len(c['minima'][0]) > 1,
          'several models and several rounds')
def convergence(c):
    from bayeso.utils import utils_plotting as up
    M = g.A(c['minima'])
    k = c['num_init']
    names = ['model %s' % chr(65 + (i * c['step'] + c['first']) % 53) for i in range(len(M))]
    names = [q + '_' * names[:i].count(q) for i, q in enumerate(names)]
    kw = dict(include_marker=c['marker'], include_legend=c['legend'])
    tail = 'mean_std_' if c['std'] else 'mean_only_'
    shade = c['range_shade'] or 1.96
    if c['times'] is None:
        F = Figures(c, 'minimum_' + tail, True)
        fig = F(up.plot_minimum_vs_iter, M, list(names), k, c['std'], **kw)
    else:
        T = g.A(c['times'])
        F = Figures(c, 'minimum_time_' + tail, True)
        fig = F(up.plot_minimum_vs_time, T, M, list(names), k, c['std'], **kw)
    try:
        ax, = fig.axes
        ensure(len(lines(ax)) == len(M), '%d curves for %d models', len(lines(ax)), len(M))
        xs, keys = [], []
        for i, Y in enumerate(M):
            best = np.minimum.accumulate(Y, axis=1)[:, k - 1:]
            mean = best.mean(axis=0)
            std = best.std(axis=0, ddof=1) if len(Y) > 1 else np.zeros_like(mean)
            if c['times'] is None:
                x = np.arange(len(mean), dtype=float)
            else:
                t = T[i][:, k:] if T.shape[2] == M.shape[2] else T[i]
                x = np.hstack([np.zeros((len(t), 1)), np.cumsum(t, axis=1)]).mean(axis=0)
            ln = find(ax, x, mean, 'the mean of %s' % names[i], 'line')
            cand = [q for lx, ly, q in lines(ax) if np.array_equal(ly, ln.get_ydata()) and
                    np.array_equal(lx, ln.get_xdata())]
            ensure(any(q.get_label() == names[i] for q in cand), 'the curve of %s is labelled %r',
                   names[i], ln.get_label())
            ensure((ln.get_marker() not in ('None', '', ' ', None)) == c['marker'],
                   'markers do not follow the option')
            if c.get('colors'):
                want = colour(c['colors'][i % len(c['colors'])])
                ensure(any(colour(q.get_color()) == want for q in cand),
                       'the curve of %s is not drawn in its colour', names[i])
            if c.get('markers') and c['marker']:
                want = c['markers'][i % len(c['markers'])]
                ensure(any(q.get_marker() == want for q in cand),
                       'the curve of %s does not have its marker', names[i])
            if c['std']:
                band(ax, x, mean - shade * std, mean + shade * std, 'the band of %s' % names[i])
            xs.append(x)
            keys.append([(q.get_label(), colour(q.get_color()), q.get_marker()) for q in cand
                         if q.get_label() == names[i]])
        ensure(c['std'] or not ax.collections, 'a band is drawn although not asked for')
        limits(ax, np.min(xs), np.max(xs))
        labels(ax, c['str_x_axis'] or ('Iteration' if c['times'] is None else 'Time (sec.)'),
               c['str_y_axis'] or 'Minimum function value')
        ensure((ax.get_legend() is not None) == c['legend'], 'the legend does not follow the option')
        if c['legend']:
            ensure([t.get_text() for t in ax.get_legend().get_texts()] == names,
                   'legend entries differ from the given names')
            keyed(entries(ax.get_legend()), names, keys, 'legend')
        if 'legend_post.pdf' in F.saved:
            ensure(len(F.saved['legend_post.pdf'][1]) == 1, 'the legend file has no legend')
            keyed(F.saved['legend_post.pdf'][1][0], names, keys, 'saved legend')
    finally:
        close_all()
    return {'labels': ['iterations' if c['times'] is None else 'times']}
