"""C27: plots of the history and of the tuning window against the recorded data."""
import logging
import os
import time
import warnings

import numpy as np
import pandas as pd

from qv.core import check
from qv import dqd, gen
from qv.checks import c23

PROPERTY = 'C27'
N = dict(quick=110, thorough=4000)
CASE_TIMEOUT = 240.
RULE = ('histories of random tuning problems (linear and simulated double quantum dot, live or loaded from files): plot_tuning with random selections and '
        'modes at random points; a real GUI (offscreen) with several parameter, gradient and real time plot windows opened and closed during the tuning, '
        'random selections; the lines and error bars of every figure are compared with the recorded data; non-trivial: distinct (setup, rows, selections)')
REQUIRED = dict(figures=2., lines=20., errorbars=5., parameter_windows=.3, gradient_windows=.3, realtime_curves=2., realtime_errors=.5,
                deselected=.3, gaps=.5, loaded=.1, updates=1.)
ASSUMPTIONS = ['offscreen Qt platform and Agg backend, IPython magics replaced by stand-ins',
               'the recorded data are read with the accessors of the history, which C17 compares with the tuning']


def worker_init(ctx):
    c23.worker_init(ctx)
    import IPython
    # the stand-in is only needed to import the window; matplotlib must not take it for an interactive shell
    IPython.get_ipython = lambda: None
    warnings.simplefilter('ignore')


def arr(x):
    return np.asarray(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan), dtype=float)


def close_(a, b):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * (np.abs(a) + np.abs(b)) + 1e-300)))


def points(x, y):
    """(index, value) of the visible points; a gap may be drawn as NaN or left out"""
    x, y = arr(x), arr(y)
    ok = ~np.isnan(y)
    return x[ok], y[ok]


def data_lines(ax):
    """lines of the axes which show data"""
    caps = set()
    for c in ax.containers:
        if hasattr(c, 'lines') and len(c.lines) == 3:
            caps.update(id(l) for l in c.lines[1])
    return [l for l in ax.lines if id(l) not in caps]


def bars(ax):
    """list of (x, low, high) arrays per error bar container"""
    out = []
    for c in ax.containers:
        for col in c.lines[2]:
            seg = [arr(s) for s in col.get_segments()]
            seg = [s for s in seg if s.shape == (2, 2) and not np.isnan(s).any()]
            seg.sort(key=lambda s: s[0, 0])
            out.append((np.array([s[0, 0] for s in seg]), np.array([s[:, 1].min() for s in seg]), np.array([s[:, 1].max() for s in seg])))
    return out


def shows(line, series):
    x, y = points(line.get_xdata(), line.get_ydata())
    return len(x) == len(series.dropna()) and close_(x, series.dropna().index.values) and close_(y, series.dropna().values)


def bar_shows(bar, series, std):
    ok = series.notna() & std.notna()
    x, low, high = bar
    s, e = series[ok].values.astype(float), std[ok].values.astype(float)
    scale = 1e-9 * (np.abs(s) + np.abs(e)) + 1e-300
    return (len(x) == ok.sum() and close_(x, series.index.values[ok.values]) and bool(np.all(np.abs(low - (s - e)) <= scale))
            and bool(np.all(np.abs(high - (s + e)) <= scale)))


def match(shown, wanted, fits):
    """one to one assignment of the shown items to the wanted ones; returns the name of a wanted one without partner"""
    rest = list(shown)
    for name, w in wanted:
        hit = [i for i, s in enumerate(rest) if fits(s, w)]
        if not hit:
            return name
        rest.pop(hit[0])
    return '%d additional' % len(rest) if rest else None


def frame(history):
    cols = {('gate', g): history.get_gate_values(g).copy() for g in history.gate_names}
    for p in history.parameter_names:
        cols['value', p] = history.get_parameter_values(p).copy()
        cols['std', p] = history.get_parameter_std(p).copy()
    for p in history.gradient_controlled_parameter_names:
        for g, s in history.get_gradients(p).items():
            cols['gradient', p, g] = s.copy()
        for g, s in history.get_gradient_variances(p).items():
            cols['variance', p, g] = s.copy()
    return cols


def same_frame(a, b):
    return set(a) == set(b) and all(a[k].index.equals(b[k].index) and close_(a[k].values, b[k].values) for k in a)


def label_of(ax):
    return ' '.join([ax.get_ylabel(), ax.get_title()])


def check_parameter_axes(ax, value, std, name, ctx, info, with_bars=True):
    lines = data_lines(ax)
    check(len(lines) == 1 and shows(lines[0], value), 'the plot of a parameter does not show its recorded values', parameter=name,
          shown=[l.get_ydata() for l in lines], recorded=value.values, **info)
    ctx.count('lines')
    if value.isna().any():
        ctx.count('gaps')
    if with_bars:
        b = bars(ax)
        check(len(b) == 1 and bar_shows(b[0], value, std), 'the error bars of a parameter do not show its recorded standard deviation',
              parameter=name, shown=b, value=value.values, std=std.values, **info)
        ctx.count('errorbars', len(b))
    else:
        check(not bars(ax), 'error bars which were not ordered', parameter=name, **info)


def gradient_fit(history, p, with_bars):
    """-> function(axes) -> description of a difference or None"""
    gradient = history.get_gradients(p)
    variances = history.get_gradient_variances(p)

    def fit(ax):
        wanted = [(g, gradient[g]) for g in gradient.columns]
        miss = match(data_lines(ax), wanted, shows)
        if miss:
            return 'gradient of %s' % miss
        if with_bars:
            wanted = [(g, (gradient[g], variances[g] ** .5)) for g in gradient.columns if g in variances and variances[g].notna().any()]
            shown = [b for b in bars(ax) if len(b[0])]
            miss = match(shown, [w for w in wanted if (w[1][0].notna() & w[1][1].notna()).any()], lambda b, w: bar_shows(b, *w))
            if miss:
                return 'error bars of %s' % miss
        elif bars(ax):
            return 'error bars which were not ordered'
    return fit


def plot_tuning(history, rng, ctx, info):
    import matplotlib.pyplot as plt
    from qtune.history import parameter_information
    gates, params = sorted(history.gate_names), sorted(history.parameter_names)
    grads = sorted(history.gradient_controlled_parameter_names)
    sel, mode = {}, []
    chosen = [None, None, None]
    for k, (kw, names, word) in enumerate([('voltage_indices', gates, 'all_voltages'), ('parameter_names', params, 'all_parameters'),
                                           ('gradient_parameter_names', grads, 'all_gradients')]):
        r = rng.random()
        if r < .35 and names:
            mode.append(word)
            chosen[k] = list(names)
        elif r < .8 and names:
            # in random order
            chosen[k] = list(rng.permutation(names)[:int(rng.integers(1, len(names) + 1))])
            sel[kw] = list(chosen[k])
    par_bars, grad_bars = rng.random() < .5, rng.random() < .5
    if par_bars:
        mode.append('with_par_variances')
    if grad_bars:
        mode.append('with_grad_covariances')
    rng.shuffle(mode)
    mode = gen.choice(rng, [mode, ' '.join(mode)])
    info = dict(info, rows=history.number_of_stored_iterations, selection={**sel, 'mode': mode})
    before = frame(history)
    figs, axes = history.plot_tuning(mode=mode, **sel)
    check(same_frame(before, frame(history)), 'plotting changed the history', **info)
    check(len(figs) == len(axes) == 3, 'plot_tuning returns three figures and axes', **info)
    for k, c in enumerate(chosen):
        check((figs[k] is None and axes[k] is None) == (c is None), 'plot_tuning makes exactly the selected figures', figure=k, **info)
    if chosen[0]:
        ax = axes[0]
        lines = data_lines(ax)
        check(len(lines) == len(chosen[0]), 'the plot shows another number of gates', shown=len(lines), **info)
        labels = [t.get_text() for t in ax.get_legend().get_texts()]
        handles = ax.get_legend().get_lines()
        check(sorted(labels) == sorted(chosen[0]), 'legend of the voltages', shown=labels, **info)
        for i, g in enumerate(labels):
            same_style = [l for l in lines if l.get_color() == handles[i].get_color()]
            check(any(shows(l, before['gate', g]) for l in (same_style or lines)), 'the plot of a voltage does not show its recorded values', gate=g,
                  recorded=before['gate', g].values, **info)
            ctx.count('lines')
    if chosen[1]:
        a = list(np.atleast_1d(axes[1]))
        check(len(a) == len(chosen[1]), 'number of the parameter plots', shown=len(a), **info)
        for ax, p in zip(a, chosen[1]):
            check_parameter_axes(ax, before['value', p], before['std', p], p, ctx, info, with_bars=par_bars)
            check(p in parameter_information or p in label_of(ax), 'the plot of a parameter is not labelled with its name', label=label_of(ax), parameter=p, **info)
    if chosen[2]:
        a = list(np.atleast_1d(axes[2]))
        check(len(a) == len(chosen[2]), 'number of the gradient plots', shown=len(a), **info)
        for ax, p in zip(a, chosen[2]):
            diff = gradient_fit(history, p, grad_bars)(ax)
            check(diff is None, 'the plot of a gradient does not show its recorded values', parameter=p, difference=diff, **info)
            check(p in parameter_information or p in label_of(ax), 'the plot of a gradient is not labelled with its parameter', label=label_of(ax), parameter=p, **info)
            ctx.count('lines', len(data_lines(ax)))
            ctx.count('errorbars', len(bars(ax)))
    ctx.count('figures', sum(c is not None for c in chosen))
    for f in figs:
        if f is not None:
            f.canvas.draw()     # the figure can be shown
            plt.close(f)
    plt.close('all')
    return tuple(None if c is None else len(c) for c in chosen) + (par_bars, grad_bars)


def check_parameter_window(window, history, ctx, info):
    axes = window.getFigure().axes
    names = sorted(history.parameter_names)
    check(len(axes) == len(names), 'number of the plots in a parameter window', shown=len(axes), parameters=len(names), **info)

    def fit(ax, p):
        lines, b = data_lines(ax), bars(ax)
        return (len(lines) == 1 and shows(lines[0], history.get_parameter_values(p)) and len(b) == 1
                and bar_shows(b[0], history.get_parameter_values(p), history.get_parameter_std(p)))
    miss = match(axes, [(p, p) for p in names], fit)
    check(miss is None, 'a parameter window does not show the recorded parameters', parameter=miss, **info)
    ctx.count('parameter_windows')


def check_gradient_window(window, history, ctx, info):
    axes = window.getFigure().axes
    names = sorted(history.parameter_names)
    check(len(axes) == len(names), 'number of the plots in a gradient window', shown=len(axes), parameters=len(names), **info)
    miss = match(axes, [(p, gradient_fit(history, p, True)) for p in names], lambda ax, f: f(ax) is None)
    check(miss is None, 'a gradient window does not show the recorded gradients', parameter=miss, **info)
    ctx.count('gradient_windows')


class RealTime:
    """a real time plot window and the selection made in it"""

    def __init__(self, window):
        self.window = window
        self.selection = {}         # kind + name(s) -> value

    def entries(self):
        for group in self.window.parameter.children():
            for child in group.children():
                yield group.name(), child, None
                for sub in child.children():
                    yield group.name(), child, sub

    def select(self, rng, ctx):
        entries = list(self.entries())
        for _ in range(int(rng.integers(1, 7))):
            group, child, sub = entries[int(rng.integers(0, len(entries)))]
            item = child if sub is None else sub
            if group == 'Gradients' and sub is None and rng.random() < .5:
                child.setOpts(expanded=not child.opts['expanded'])
                continue
            if group == 'Gate Voltages':
                value = bool(rng.random() < .7)
            else:
                value = gen.choice(rng, ['plot', 'plot + error', 'plot + error', ''])
            if rng.random() < .1:
                # everything off
                for g, c, s in entries:
                    (c if s is None else s).setValue(False if g == 'Gate Voltages' else '')
                    if s is not None or g != 'Gradients':
                        self.selection[g, c.name(), None if s is None else s.name()] = False
                ctx.count('deselected')
                continue
            unchanged = item.value() == value
            item.setValue(value)
            if group == 'Gradients' and sub is None and unchanged:
                # no order for its gates
                continue
            if not value:
                ctx.count('deselected')
            if group == 'Gradients':
                for s in ([sub] if sub is not None else child.children()):
                    self.selection[group, child.name(), s.name()] = value
            else:
                self.selection[group, child.name(), None] = value

    def values(self):
        """the selection which the window shows"""
        out = {}
        for group, child, sub in self.entries():
            if group == 'Gradients':
                if sub is not None:
                    out[group, child.name(), sub.name()] = sub.value()
            else:
                out[group, child.name(), None] = child.value()
        return out

    def check(self, history, ctx, info):
        import pyqtgraph as pg
        item = self.window.plot.getPlotItem()
        curves = list(item.listDataItems())
        errors = [i for i in item.items if isinstance(i, pg.ErrorBarItem)]
        wanted, wanted_err = {}, []
        shown = self.values()
        for key, value in self.selection.items():
            check(shown[key] == value or (not shown[key] and not value), 'the real time plot lost a selection', entry=key, ordered=value, shown=shown[key], **info)
        for (group, name, gate), value in shown.items():
            if not value:
                continue
            if group == 'Gate Voltages':
                wanted[name] = history.get_gate_values(name)
            elif group == 'Parameters':
                wanted[name] = history.get_parameter_values(name)
                if 'error' in value:
                    wanted_err.append((name, (wanted[name], history.get_parameter_std(name))))
            else:
                series = history.get_gradients(name)[gate]
                wanted[name + '#' + gate] = series
                var = history.get_gradient_variances(name)
                if 'error' in value and gate in var:
                    wanted_err.append((name + '#' + gate, (series, var[gate] ** .5)))
        names = [c.name() for c in curves]
        check(sorted(names) == sorted(wanted), 'the real time plot does not show exactly the selected curves', shown=sorted(names), selected=sorted(wanted), **info)
        labels = [label.text for _, label in item.legend.items]
        check(sorted(labels) == sorted(wanted), 'the legend of the real time plot does not list exactly the selected curves', shown=sorted(labels), selected=sorted(wanted), **info)
        for c in curves:
            x, y = c.getData()
            s = wanted[c.name()]
            check(x is not None and close_(points(x, y)[0], s.dropna().index.values) and close_(points(x, y)[1], s.dropna().values),
                  'a curve of the real time plot does not show the recorded values', curve=c.name(), shown=y, recorded=s.values, **info)

        def fit(e, w):
            s, std = w
            return (close_(e.opts['x'], s.index.values) and close_(e.opts['y'], s.values)
                    and bool(np.all((np.isnan(std.values)) | (np.abs(arr(e.opts['height']) / 2 - std.values) <= 1e-9 * np.abs(std.values)))))
        miss = match(errors, wanted_err, fit)
        check(miss is None, 'the error bars of the real time plot do not show the recorded standard deviations', curve=miss, **info)
        ctx.count('realtime_curves', len(curves))
        ctx.count('realtime_errors', len(errors))
        return tuple(sorted(wanted))


def case(rng, ctx, index):
    import matplotlib.pyplot as plt
    from PyQt5 import QtCore, QtWidgets
    from qtune.history import History
    gui_module = c23.gui_module
    try:
        dot, live = rng.random() < .35, rng.random() < .5
        path = os.path.join(ctx.tmpdir(), 'lib')
        if dot:
            spec = dqd.spec(rng)
            pr = dqd.build(spec)
            setup = 'dot'
        else:
            spec = gen.random_spec(rng, max_tuners=2 if live else 3)
            pr = gen.build(spec, path=path, with_time=False)
            setup = gen.summary(spec)
        info = dict(setup=setup)
        (windows if live else figures)(rng, ctx, pr, dot, path, info, History, gui_module, QtCore, QtWidgets)
    finally:
        plt.close('all')


def iterate(auto):
    try:
        auto.iterate()
    except np.linalg.LinAlgError:
        # diverging tuning
        return False
    return True


def figures(rng, ctx, pr, dot, path, info, History, *_):
    auto = pr.autotuner
    history = History(None)
    if rng.random() < .7:
        history.append_autotuner(auto)
    n = int(rng.integers(1, 40))
    at = set(int(i) for i in rng.integers(0, n, 2)) | {n - 1}
    shapes = []
    for i in range(n):
        if auto.is_tuning_complete() or pr.exp.true_voltages.abs().max() > 1e3:
            break
        if not iterate(auto):
            break
        history.append_autotuner(auto)
        if i in at:
            shapes.append(plot_tuning(history, rng, ctx, info))
    if not history.number_of_stored_iterations:
        history.append_autotuner(auto)
    shapes.append(plot_tuning(history, rng, ctx, info))
    if not dot and rng.random() < .4:
        auto.asynchrone_writer.join()
        if os.path.isdir(path) and os.listdir(path):
            loaded = History(path, experiment=pr.exp)
            ctx.count('loaded')
            shapes.append(plot_tuning(loaded, rng, ctx, dict(info, loaded=True)))
    ctx.distinct(tuple(shapes), history.number_of_stored_iterations, sorted(history.gate_names), index_free(info))


def index_free(info):
    return repr(info.get('setup'))[:200]


def windows(rng, ctx, pr, dot, path, info, History, gui_module, QtCore, QtWidgets):
    auto = pr.autotuner
    history = History(None)
    history.append_autotuner(auto)
    warm = int(rng.integers(0, 12))
    for _ in range(warm):
        # the real time plot offers the gradients known so far
        if not auto.is_tuning_complete() and iterate(auto):
            history.append_autotuner(auto)
    done, begun, ended = [0], [0], [0]
    failed, diverged = [], []
    original = auto.iterate

    def counted():
        begun[0] += 1
        try:
            original()
        except np.linalg.LinAlgError:
            diverged.append(1)
            raise
        except Exception as e:
            failed.append(e)
            raise
        else:
            done[0] += 1
        finally:
            ended[0] += 1
    auto.iterate = counted
    recorded = [0]
    append = history.append_autotuner

    def counted_append(a):
        append(a)
        recorded[0] += 1
    history.append_autotuner = counted_append
    gui = gui_module.GUI(auto, history)
    spawn = dict(parameter=gui.spawn_parameter_window, gradient=gui.spawn_gradient_window, realtime=gui.spawn_plot_window)
    titles = dict(parameter='QTune: Parameter Plot', gradient='QTune: Gradient Plot', realtime='QTune: Real Time Plot')
    opened = []         # (kind, window or RealTime)
    render = rng.random() < .2      # drawing the pixels takes most of the time

    def top(kind):
        return [w for w in QtWidgets.QApplication.topLevelWidgets() if w.windowTitle() == titles[kind] and getattr(w, 'history', None) is history
                and w.isVisible()]

    def open_window(kind):
        before = top(kind)
        spawn[kind]()
        QtCore.QCoreApplication.processEvents()
        new = [w for w in top(kind) if w not in before]
        check(len(new) == 1, 'opening a plot window', kind=kind, new=len(new), **info)
        if kind != 'realtime' and not render:
            new[0].canvas.draw = lambda: None
        opened.append((kind, RealTime(new[0]) if kind == 'realtime' else new[0]))
        if kind == 'realtime' and rng.random() < .8:
            opened[-1][1].select(rng, ctx)

    rows = history.number_of_stored_iterations
    log = []
    try:
        for kind in spawn:
            for _ in range(int(gen.choice(rng, [0, 1, 1, 2]))):
                open_window(kind)
        for _ in range(int(rng.integers(2, 7))):
            op = gen.choice(rng, ['step', 'step', 'run', 'select', 'select', 'open', 'close'])
            complete = diverged or bool(auto.is_tuning_complete()) or pr.exp.true_voltages.abs().max() > 1e3
            if op in ('step', 'run') and not complete:
                ran = done[0]
                if op == 'step':
                    gui.step()
                    k = 1
                else:
                    k = int(rng.integers(1, 4))
                    gui.start()
                t0 = time.monotonic()
                while done[0] - ran < k and time.monotonic() - t0 < 30. and not auto.is_tuning_complete() and not failed and not diverged:
                    QtCore.QCoreApplication.processEvents()
                    time.sleep(.002)
                gui.pause() if op == 'run' else None
                # idle: every executed iteration is recorded, sooner or later
                last, t1, rounds = (done[0], recorded[0]), time.monotonic(), 0
                while (time.monotonic() - t1 < .25 or rounds < 8 or (last[0] != last[1] and time.monotonic() - t1 < 20.) or begun[0] != ended[0]) and time.monotonic() - t0 < 150.:
                    QtCore.QCoreApplication.processEvents()
                    time.sleep(.005)
                    rounds += 1
                    now = (done[0], recorded[0])
                    if now != last:
                        last, t1, rounds = now, time.monotonic(), 0
                check(not failed, 'an iteration fails while plot windows are open', error=repr(failed[:1]), **info)
                if time.monotonic() - t0 >= 150. and time.monotonic() - t1 < 20.:
                    ctx.count('too_slow')
                    break
                check(last[0] == last[1], 'an iteration executed while plot windows are open is not recorded', iterations=last[0], recorded=last[1], **info)
                check(op != 'step' or diverged or done[0] - ran == 1, 'a step ordered while plot windows are open was not executed once', executed=done[0] - ran, **info)
                ctx.count('updates')
            elif op == 'select':
                for kind, w in opened:
                    if kind == 'realtime':
                        w.select(rng, ctx)
            elif op == 'open':
                open_window(gen.choice(rng, list(spawn)))
            elif op == 'close' and opened:
                kind, w = opened.pop(int(rng.integers(0, len(opened))))
                (w.window if kind == 'realtime' else w).close()
                QtCore.QCoreApplication.processEvents()
                QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)
            QtCore.QCoreApplication.processEvents()
            i = dict(info, rows=history.number_of_stored_iterations, actions=list(log) + [op])
            seen = []
            for kind, w in opened:
                if kind == 'parameter':
                    check_parameter_window(w, history, ctx, i)
                elif kind == 'gradient':
                    check_gradient_window(w, history, ctx, i)
                else:
                    seen.append(w.check(history, ctx, i))
            log.append(op)
            ctx.distinct(tuple(log), history.number_of_stored_iterations, tuple(k for k, _ in opened), tuple(seen))
        for kind in spawn:
            mine = [w for k, w in opened if k == kind]
            check(len(top(kind)) == len(mine), 'number of open plot windows', kind=kind, open=len(top(kind)), expected=len(mine), **info)
    finally:
        auto.iterate = original
        gui.close()
        for kind, w in opened:
            (w.window if kind == 'realtime' else w).close()
        gui.deleteLater()
        QtCore.QCoreApplication.processEvents()
        QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.DeferredDelete)
