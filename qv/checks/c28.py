"""C28: plots of the raw data of evaluators against the data which were measured."""
import copy
import os
import warnings

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.evaluator import (AveragingEvaluator, InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan,
                             LeadTunnelTimePrefitVersion, NewLoadTime, SensingDot1D, SensingDot2D,
                             func_lead_times_v1, func_lead_times_v2)
from qtune.experiment import Measurement
from qtune.parameter_tuner import ParameterTuner
from qtune.solver import make_target

from qv.core import check
from qv import dqd, evals, gen
from qv.sim import SimExperiment
from qv.stubs import ScriptedSolver

PROPERTY = 'C28'
N = dict(quick=420, thorough=9000)
CASE_TIMEOUT = 120.
RULE = ('autotuners of one to three tuners which evaluate real evaluators (every kind with its names, also averaged) on a simulated double quantum dot with '
        'data which can not be fitted in between, live or loaded histories; plot_evaluator_data and plot_single_evaluator_data with random rows, selections, '
        'unknown names and caller owned lists during and after the run; points, curves, marks and images of every axes are compared with a log of the measured '
        'data; non-trivial: distinct (evaluators, averaged, rows, selection)')
REQUIRED = dict(plots=2., axes=4., curves=.5, marks=1., images=.1, averaged=.5, old_rows=.5, no_data=.2, unknown=.2, loaded=.1, single=.5, failed_fits=.05)
ASSUMPTIONS = ['Agg backend', 'evaluators carry the names the plot functions are registered for', 'the history is appended after every iteration']


def worker_init(ctx):
    import matplotlib
    matplotlib.use('Agg')
    warnings.simplefilter('ignore')


class Walk(ParameterTuner):
    """evaluates and walks at random"""
    rng = None

    def is_tuned(self, voltages):
        self.seen = voltages
        self.found = self.evaluate()
        return bool(self.rng.random() < .5)

    def get_next_voltages(self, tuned_parameters=None):
        v = self.seen.copy()
        return v + self.rng.normal(size=len(v)) * 5e-5

    seen = found = None

    @property
    def last_voltages(self):
        return super().last_voltages if self.seen is None else self.seen

    @last_voltages.setter
    def last_voltages(self, voltages):
        ParameterTuner.last_voltages.fset(self, voltages)
        self.seen = None if voltages is None or voltages.empty else voltages

    @property
    def last_parameters_and_variances(self):
        return super().last_parameters_and_variances if self.found is None else self.found

    def to_hdf5(self):
        d = super().to_hdf5()
        if self.seen is not None:
            d['last_voltage'] = self.seen
        if self.found is not None:
            d.update(last_parameter_values=self.found[0], last_parameters_variances=self.found[1])
        return d


def arr(x):
    return np.asarray(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan), dtype=float)


def same(a, b):
    a, b = arr(a), arr(b)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (np.abs(a) + np.abs(b)) + 1e-15)))


class Record:
    """one evaluation: the data measured last, the values and fit results of the evaluator which measured"""

    def __init__(self, evaluator, averaged, measured, values):
        self.kind = type(evaluator)
        self.averaged = averaged
        self.measured = measured            # [(options, data)]
        self.values = values
        self.n = len(evaluator.measurements)
        self.fit = getattr(evaluator, 'fit_results', None)
        self.initial = getattr(evaluator, 'initial_fit_arguments', None)
        self.fit = None if self.fit is None else dict(self.fit)
        self.initial = None if self.initial is None else dict(self.initial)
        self.carried = False
        self.failed = bool(values.isna().any())

    def mean(self, y):
        y = np.squeeze(y)
        return y.mean(0) if y.ndim == 2 else y

    def wanted(self):
        """per axes: dict(points=(x, y), curves=[(x, y)], verticals=[x], horizontals=[y], image=None or array)"""
        out = []
        for i, (o, y) in enumerate(self.measured):
            w = dict(points=None, curves=[], verticals=[], horizontals=[], image=None)
            if self.kind is SensingDot2D:
                w['image'] = np.squeeze(y)
                w['horizontals'] = [self.values['position_' + o['gate1']]]
                w['verticals'] = [self.values['position_' + o['gate2']]]
                w['extent'] = [(c - o['range'], c + o['range']) for c in o['center']]
                out.append(w)
                continue
            model = None
            if self.kind is NewLoadTime:
                w['points'] = y[1], y[0]
                model = lambda x, offset, height, curvature: offset + height * np.exp(-x / curvature)
            elif self.kind in (LeadTunnelTimeByLeadScan, LeadTunnelTimePrefitVersion):
                w['points'] = np.arange(y.shape[1]) / 1e8, y[1] - y[0]
                model = func_lead_times_v2 if self.kind is LeadTunnelTimeByLeadScan else func_lead_times_v1
            else:
                w['points'] = dqd.axis(o), self.mean(y)
            if self.kind is InterDotTCByLineScan:
                model = lambda x, offset, slope, height, position, width: offset + slope * x + .5 * height * (1. + np.tanh((x - position) / width))
            if model is not None:
                x = w['points'][0]
                for args in (self.fit, self.initial):
                    if args:
                        w['curves'].append((x, model(x, **{k: float(v) for k, v in args.items()})))
            elif self.kind is SensingDot1D:
                w['verticals'] = [self.values['position_' + o['gate']]]
            else:
                w['verticals'] = [self.values.iloc[i]]
                w['name'] = self.values.index[i]
            out.append(w)
        return out


def segments(ax):
    import matplotlib.collections as mc
    vertical, horizontal = [], []
    for c in ax.collections:
        if isinstance(c, mc.LineCollection):
            for s in c.get_segments():
                (vertical if s[0][0] == s[-1][0] and s[0][1] != s[-1][1] else horizontal).append(s)
    return vertical, horizontal


def images(ax):
    import matplotlib.collections as mc
    return [c for c in ax.collections if isinstance(c, mc.QuadMesh)] + list(ax.images)


def shows(ax, w):
    """-> None or what is different"""
    points = [l for l in ax.lines if l.get_marker() not in (None, 'None', '', ' ')]
    curves = [l for l in ax.lines if l not in points]
    if w is None:
        return 'data' if ax.lines or ax.collections or ax.images else None
    if w['points'] is None:
        if points or curves:
            return 'additional lines'
    else:
        if len(points) != 1:
            return 'number of data lines %d' % len(points)
        if not same(points[0].get_xdata(), w['points'][0]):
            return 'x data'
        if not same(points[0].get_ydata(), w['points'][1]):
            return 'y data'
    rest = list(curves)
    for k, (x, y) in enumerate(w['curves']):
        hit = [l for l in rest if same(l.get_xdata(), x) and same(l.get_ydata(), y)]
        if not hit:
            return ['fit', 'initial guess'][k] + ' (%d of %d curves)' % (len(curves), len(w['curves']))
        rest.remove(hit[0])
    if rest:
        return 'additional curves'
    vertical, horizontal = segments(ax)
    if not same(sorted(s[0][0] for s in vertical), sorted(w['verticals'])):
        return 'marked positions %r instead of %r' % ([s[0][0] for s in vertical], w['verticals'])
    if not same(sorted(s[0][1] for s in horizontal), sorted(w['horizontals'])):
        return 'horizontally marked positions %r instead of %r' % ([s[0][1] for s in horizontal], w['horizontals'])
    shown = images(ax)
    if (w['image'] is None) != (not shown) or len(shown) > 1:
        return 'number of images %d' % len(shown)
    if w['image'] is not None:
        if not same(np.ravel(arr(shown[0].get_array())), np.ravel(w['image'])):
            return 'image'
        c = np.asarray(shown[0].get_coordinates())
        # cells are centered at or start at the voltages
        n1, n2 = w['image'].shape
        for k, (a, b) in enumerate(w['extent']):
            z = c[:, 0, 1] if k == 0 else c[0, :, 0]
            cell = (b - a) / ((n1, n2)[k] - 1)
            if abs(z.min() - a) > 1.01 * cell or abs(z.max() - b) > 1.01 * cell or (b > a) != (z[-1] > z[0]):
                return 'axis of the image'
    return None


def failures(rng, dot, rates):
    p, seed = float(gen.choice(rng, rates)), int(rng.integers(2 ** 31))
    dot.fail = lambda i, v, m: m == 'detune_scan' and np.random.default_rng([seed, i]).random() < p


def build(rng, path):
    """-> autotuner, experiment, list of evaluators"""
    dot = evals.Dot(rng, float(gen.choice(rng, [0., 1e-5])))
    v0 = {g: float(np.round(rng.normal() * 5e-4, 6)) for g in dqd.GATES}
    exp = SimExperiment(v0, dot, sort_read=bool(rng.random() < .5))
    failures(rng, dot, [0., .4, .8])
    sd_lines = dot.lines

    def sensing(kind):
        if kind is SensingDot1D:
            gate = gen.choice(rng, ['SDB1', 'SDB2'])
            n = int(gen.choice(rng, [1280, 160, 200]))
            m = Measurement('line_scan', center=None, range=float(gen.choice(rng, [4e-3, 2e-3])), gate=gate, N_points=n, ramptime=.0005, N_average=1, AWGorDecaDAC='DecaDAC')
            return SensingDot1D(exp, sweeping_gate=gate, parameters=('position_' + gate, 'current_signal', 'optimal_signal'), measurements=(m,),
                                rising_flank=gen.choice(rng, [None, True, False]))
        a, b = gen.choice(rng, [('SDB1', 'SDB2'), ('SDB2', 'SDB1')])
        r = float(rng.uniform(2e-3, 6e-3))
        m = Measurement('2d_scan', center=[None, None], range=r, gate1=a, gate2=b, ramptime=.0005, n_lines=int(gen.choice(rng, [20, 6, 3])),
                        n_points=int(gen.choice(rng, [104, 52])), N_average=1, AWGorDecaDAC='DecaDAC')
        return SensingDot2D(exp, sweeping_gates=(a, b), scan_range=r, measurements=(m,), parameters=('position_' + a, 'position_' + b),
                            rising_flank=gen.choice(rng, [None, True, False]))

    def transition():
        r = rng.random()
        points = int(gen.choice(rng, [320, 160, 400]))
        scan = lambda g: Measurement('line_scan', center=0., range=4e-3, gate=g, N_points=points, ramptime=.001, N_average=7, AWGorDecaDAC='DecaDAC')
        if r < .4:
            return [LeadTransition(exp)]
        if r < .6:
            return [LeadTransition(exp, sweeping_gates=('RFB', 'RFA'), shifting_gates=('RFA', 'RFB'), measurements=[scan('RFB'), scan('RFA')])]
        single = [LeadTransition(exp, sweeping_gates=(g,), shifting_gates=(h,), parameters=('position_' + h,), measurements=[scan(g)],
                                 name='LeadTransition' + g) for g, h in (('RFA', 'RFB'), ('RFB', 'RFA'))]
        return gen.pick(rng, single, int(rng.integers(1, 3)))
    found = []
    if rng.random() < .6:
        found += transition()
    if rng.random() < .6:
        found.append(sensing(gen.choice(rng, [SensingDot1D, SensingDot2D])))
    if rng.random() < .5:
        found.append(InterDotTCByLineScan(exp, measurements=(Measurement('detune_scan', center=0., range=2e-3, N_points=int(gen.choice(rng, [100, 141])), ramptime=.02,
                                                                         N_average=5, AWGorDecaDAC='AWG'),)))
    if rng.random() < .5:
        found.append(NewLoadTime(exp, initial_curvature=float(rng.uniform(10, 60))))
    if rng.random() < .4:
        found.append(gen.choice(rng, [LeadTunnelTimePrefitVersion, LeadTunnelTimePrefitVersion, LeadTunnelTimeByLeadScan])(exp))
    found = found or transition()
    if any(isinstance(e, (SensingDot1D, SensingDot2D)) for e in found):
        dot.lines = 1
    else:
        dot.lines = sd_lines
    found = gen.pick(rng, found, len(found))
    found = [AveragingEvaluator(e, int(rng.integers(1, 4))) if rng.random() < .4 else e for e in found]
    tuners = []
    cut = sorted(set(int(i) for i in rng.integers(1, max(2, len(found)), int(rng.integers(0, 3)))) - {len(found)})
    gates = gen.pick(rng, dqd.GATES, 2)
    for part in np.split(np.arange(len(found)), cut):
        es = [found[int(i)] for i in part]
        ps = [p for e in es for p in e.parameters]
        target = make_target(desired=pd.Series(0., index=ps), tolerance=pd.Series(1., index=ps))
        tuners.append(Walk(es, ScriptedSolver(target, pd.Series(v0)[gates].copy())))
        tuners[-1].rng = rng
    return Autotuner(exp, tuners, hdf5_storage_path=path, append_time_to_path=False), exp, found


def watch(exp, evaluators, log):
    """records every evaluation of the evaluators"""
    data = []
    response = exp.response

    def measure(v, m):
        y = response(v, m)
        data.append((copy.deepcopy(dict(m.options)), np.array(y, copy=True)))
        return y
    exp.response = measure
    for e in evaluators:
        inner = e
        while isinstance(inner, AveragingEvaluator):
            inner = inner.to_hdf5()['evaluator']
        hook(e, inner, data, log)


def hook(outer, inner, data, log):
    last = []
    f = inner.evaluate

    def inner_evaluate():
        n = len(data)
        values, variances = f()
        last[:] = [values.copy(), data[n:]]
        return values, variances
    inner.evaluate = inner_evaluate
    g = outer.evaluate      # for evaluators which are not averaged the one above

    def evaluate():
        out = g()
        log.append((outer.name, Record(inner, outer is not inner, list(last[1]), last[0])))
        return out
    outer.evaluate = evaluate


def freeze(x):
    """nested copy for comparisons"""
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items() if k not in ('experiment', 'measurements')}
    if isinstance(x, (list, tuple)):
        return [freeze(i) for i in x]
    if isinstance(x, (np.ndarray, pd.Series)):
        return np.array(x, copy=True)
    if hasattr(x, 'to_hdf5'):
        return freeze(x.to_hdf5())
    return x


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    return a == b or (a != a and b != b)


def contents(history):
    d = history.evaluator_data
    return {(c, i): freeze(d[c].iloc[i]) for c in d.columns for i in range(len(d))}


def check_axes(axs, rows, row, names, info, ctx):
    """the titles tell which evaluator an axes belongs to"""
    used = {}
    for ax in axs:
        used.setdefault(ax.get_title(), []).append(ax)
    for name in names:
        record = rows[row].get(name)
        if record is not None and record.carried and name not in used:
            continue
        if record is None:
            check(name not in used, 'a plot of an evaluator which did not measure', evaluator=name, **info)
            ctx.count('no_data')
            continue
        wanted = record.wanted()
        mine = used.pop(name, [])
        check(len(mine) == len(wanted), 'number of the plots of an evaluator', evaluator=name, shown=len(mine), expected=len(wanted), **info)
        compare(mine, wanted, record, name, info, ctx)
    for title, rest in used.items():
        check(all(shows(ax, None) is None for ax in rest), 'a plot which was not ordered', title=title, **info)


def compare(axs, wanted, record, name, info, ctx):
    for i, (ax, w) in enumerate(zip(axs, wanted)):
        d = shows(ax, w)
        check(d is None, 'the plot does not show the data which were measured', difference=d, evaluator=name, kind=record.kind.__name__, measurement=i,
              averaged=record.averaged, **info)
        ctx.count('axes')
        ctx.count('curves', len(w['curves']))
        ctx.count('marks', len(w['verticals']) + len(w['horizontals']))
        ctx.count('images', w['image'] is not None)
    ctx.count('averaged', record.averaged)
    ctx.count('failed_fits', record.failed)


def plot(rng, ctx, history, rows, names, info):
    import matplotlib.pyplot as plt
    n = len(rows)
    start = int(rng.integers(0, n))
    end = gen.choice(rng, [None, min(n, start + int(rng.integers(1, 4)))])
    chosen = gen.pick(rng, names, int(rng.integers(1, len(names) + 1)))
    mode = gen.choice(rng, ['names', 'names', 'names', 'all'])
    given = list(chosen)
    if rng.random() < .3:
        for _ in range(int(rng.integers(1, 4))):
            given.insert(int(rng.integers(0, len(given) + 1)), 'no evaluator %d' % int(rng.integers(0, 9)))
        ctx.count('unknown')
    kept = list(given)
    before = contents(history)
    info = dict(info, start=start, end=end, evaluators=kept if mode == 'names' else None, rows=n)
    if mode == 'names':
        given = tuple(given) if rng.random() < .2 else given
        figs, axes = history.plot_evaluator_data(start=start, end=end, evaluator_names=given)
        check(list(given) == kept, 'plotting changed the list of names of the caller', got=list(given), **info)
    else:
        chosen = names
        figs, axes = history.plot_evaluator_data(start=start, end=end)
    after = contents(history)
    check(equal(before, after), 'plotting changed the recorded data', **info)
    span = range(start, start + 1 if end is None else end)
    check(len(figs) == len(axes) == len(span), 'number of figures', got=(len(figs), len(axes)), expected=len(span), **info)
    for row, fig, axs in zip(span, figs, axes):
        axs = list(np.ravel(axs))
        check(all(ax.figure is fig for ax in axs), 'axes of another figure', **info)
        check_axes(axs, rows, row, chosen, dict(info, row=row), ctx)
        ctx.count('old_rows', row < n - 1)
        if rng.random() < .15:
            fig.canvas.draw()
    ctx.count('plots', len(span))
    plt.close('all')
    # a single evaluator on axes of the caller
    name = gen.choice(rng, names)
    row = int(rng.integers(0, n))
    record = rows[row].get(name)
    if record is not None and record.carried:
        row, record = next((r, x) for r in range(n) for x in [rows[r].get(name)] if x is not None and not x.carried)
    k = record.n if record else 1
    fig, axs = plt.subplots(nrows=k, squeeze=False)
    axs = gen.choice(rng, [list, np.array])(list(axs[:, 0]))
    history.plot_single_evaluator_data(ax=axs, evaluator_name=name, tune_run_number=row)
    i = dict(info, row=row)
    if record is None:
        check(all(shows(ax, None) is None for ax in axs), 'a plot of an evaluator which did not measure', evaluator=name, **i)
        ctx.count('no_data')
    else:
        wanted = record.wanted()
        compare(axs, wanted, record, name, i, ctx)
        for ax, w in zip(axs, wanted):
            if 'name' in w and ax.get_title().startswith('position_'):
                check(ax.get_title() == w['name'], 'the title names another position', title=ax.get_title(), expected=w['name'], **i)
    check(equal(contents(history), after), 'plotting changed the recorded data', **i)
    ctx.count('single')
    plt.close('all')
    return (len(span), mode, tuple(chosen))


def case(rng, ctx, index):
    import matplotlib.pyplot as plt
    from qtune.history import History
    plt.close('all')
    path = os.path.join(ctx.tmpdir(), 'lib')
    real = rng.random() < .3
    if real:
        pr = dqd.build(dqd.spec(rng), path=path, with_time=False)
        auto, exp = pr.autotuner, pr.exp
        failures(rng, pr.dot, [0., 0., .2])
        evaluators = [e for t in auto.tuning_hierarchy for e in t.evaluators]
    else:
        auto, exp, evaluators = build(rng, path)
    log = []
    watch(exp, evaluators, log)
    history = History(None)
    info = dict(evaluators_used=[e.name for e in evaluators], real=real)
    decoy, decoy_ax = plt.subplots()
    decoy_ax.plot([0., 1.], [2., 3.])
    n = int(rng.integers(2, 26))
    shapes, rows, latest = [], [], {}
    for k in range(n):
        if auto.is_tuning_complete() or exp.true_voltages.abs().max() > .02:
            break
        done = len(log)
        try:
            auto.iterate()
        except (np.linalg.LinAlgError, RuntimeError, IndexError):
            # diverging tuning, fit which did not converge, no evaluatable voltages known
            ctx.count('aborted')
            break
        history.append_autotuner(auto)
        while len(rows) < history.number_of_stored_iterations:
            rows.append({})
        check(len(rows) == history.number_of_stored_iterations, 'rows vanish', **info)
        for name, record in log[done:]:
            rows[-1][name] = record
            latest[name] = record
        if real:
            # rows reached by queued steps, which are not evaluated, may repeat the latest data
            for name, record in latest.items():
                if name not in rows[-1] or rows[-1][name].carried:
                    rows[-1][name] = copy.copy(record)
                    rows[-1][name].carried = True
        check(plt.get_fignums() == [decoy.number] and len(decoy_ax.lines) == 1 and not decoy_ax.collections and decoy.axes == [decoy_ax],
              'evaluating drew in a figure', evaluators=[x[0] for x in log[done:]], **info)
        if rng.random() < .12:
            names = sorted(history.evaluator_names)
            shapes.append(plot(rng, ctx, history, rows, names, info))
            decoy, decoy_ax = plt.subplots()
            decoy_ax.plot([0., 1.], [2., 3.])
    plt.close('all')
    names = sorted(history.evaluator_names)
    check(set(names) >= {x for r in rows for x in r}, 'evaluators which measured are missing in the history', recorded=names, **info)
    if names:
        shapes.append(plot(rng, ctx, history, rows, names, info))
    auto.asynchrone_writer.join()
    if names and rng.random() < .5:
        loaded = History(path, experiment=exp)
        if loaded.number_of_stored_iterations == len(rows):
            ctx.count('loaded')
            shapes.append(plot(rng, ctx, loaded, rows, sorted(loaded.evaluator_names), dict(info, loaded=True)))
    ctx.distinct(tuple(sorted(info['evaluators_used'])), tuple(tuple(sorted(r)) for r in rows), tuple(shapes))
    ctx.sample(evaluators=info['evaluators_used'], rows=len(rows))
    plt.close('all')
