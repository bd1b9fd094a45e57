"""C17: histories recorded live and loaded from the stored files against an independent log of the tuning run."""
import os

import numpy as np
import pandas as pd

from qtune.autotuner import load_auto_tuner
from qtune.history import History

from qv.core import check
from qv import dqd, gen

PROPERTY = 'C17'
N = dict(quick=110, thorough=4000)
RULE = ('random tuning runs of 3-30 iterations (linear labs with all tuner and estimator kinds, failing evaluations, sliced steps, labels that are prefixes of each '
        'other; simulated double dots with the real evaluators), target changes and restarts in between; live history and history loaded from '
        'the files are compared row by row with a log; non-trivial: distinct (setup, tuners per row pattern)')
REQUIRED = dict(rows=3., entries=20., gradients=10., empty_entries=3., empty_raw_data=1., files=5., failed_rows=.1, measured_again=.1, sparse_rows=.5, by_hand=.05)
ASSUMPTIONS = ['the first row additionally shows the initial knowledge of tuners not reached',
               'the gradients of a parameter estimated by several tuners share columns (those of the lower tuner may be missing)',
               'a slice of a longer step at which nothing was measured may show the latest values of its tuner']


class Log:
    def __init__(self, auto):
        self.rows, self.auto = [], auto
        self.index = None

    def begin(self):
        a = self.auto
        self.action = 'set' if a.voltages_to_set is not None else 'solve' if a.current_tuner_status else 'eval'
        self.tuner = a.current_tuner_index
        self.calls = None

    def end(self, v, measured, path):
        a = self.auto
        if self.action == 'set':
            self.rows[-1]['path'] = path
            return
        if not self.rows or (self.action == 'eval' and not same(v, self.rows[-1]['voltages'])):
            self.rows.append(dict(voltages=v, tuners={}, again=False))
        row = self.rows[-1]
        row['path'] = path
        t = a.tuning_hierarchy[self.tuner]
        old = row['tuners'].get(self.tuner)
        if self.action == 'solve' and old is None:
            raise RuntimeError('harness: solving without evaluation')
        if self.action == 'eval' and old is not None:
            row['again'] = True
        ps, var = t.last_parameters_and_variances
        if hasattr(t.solver, 'gradient_estimators') or t.target['desired'].notna().any() if 'desired' in t.target.columns else False:
            names = list(t.target.index[t.target['desired'].notna()])
        else:
            names = list(ps.index)
        grads, covs = {}, {}
        if hasattr(t.solver, 'gradient_estimators'):
            for p, e in zip(t.target.index, t.solver.gradient_estimators):
                grads[p] = None if e.estimate() is None else e.estimate().copy()
                covs[p] = None if e.covariance() is None else e.covariance().copy()
        data = {}
        cheap = getattr(t, 'cheap_evaluators', None)
        evs = t.evaluators if cheap is None or not t.cheap_evaluation_only else cheap
        for e in evs:
            data[e.name] = e.raw_data[1]
        row['tuners'][self.tuner] = dict(values=ps[names].copy(), variances=var[names].copy(), grads=grads, covs=covs, data=data,
                                         measured=measured if self.action == 'eval' else old['measured'])


def same(a, b):
    return all(a[g] == b[g] for g in a.index)


def eq(x, y, tol=1e-12):
    x, y = float(x), float(y)
    return (np.isnan(x) and np.isnan(y)) or x == y or abs(x - y) <= tol * max(abs(x), abs(y))


def entry(frame, r, col):
    return frame[col].iloc[r] if col in frame.columns else np.nan


def compare(hist, rows, tuners, gates, ctx, info):
    check(hist.number_of_stored_iterations == len(rows), 'number of rows differs from the number of voltage configurations',
          rows=hist.number_of_stored_iterations, expected=len(rows), **info)
    check(set(hist.gate_names) == set(gates), 'gate names', got=sorted(hist.gate_names), **info)
    for g in gates:
        col = hist.get_gate_values(g)
        check(isinstance(col, pd.Series), 'several columns for one gate', gate=g, **info)
        for r, row in enumerate(rows):
            check(eq(col.iloc[r], row['voltages'][g]), 'voltage of the row', gate=g, row=r, got=col.iloc[r], expected=row['voltages'][g], **info)
    owner = {}
    for i, t in enumerate(tuners):
        for p in (rows_of(rows, i) or {}).get('values', pd.Series(dtype=float)).index:
            owner.setdefault(p, []).append(i)
    check(set(owner) <= set(hist.parameter_names), 'parameter names', got=sorted(hist.parameter_names), expected=sorted(owner), **info)
    for p, ii in owner.items():
        val, std = hist.get_parameter_values(p), hist.get_parameter_std(p)
        check(isinstance(val, pd.Series) and isinstance(std, pd.Series), 'several columns for one parameter', parameter=p, **info)
        for r, row in enumerate(rows):
            here = [i for i in ii if i in row['tuners']]
            if not here:
                if r:
                    check(np.isnan(val.iloc[r]) and np.isnan(std.iloc[r]), 'entry of a tuner not reached is not empty', parameter=p, row=r,
                          got=val.iloc[r], **info)
                    ctx.count('empty_entries')
                continue
            t = row['tuners'][max(here)]
            if not t['measured'] and np.isnan(val.iloc[r]):
                continue
            check(eq(val.iloc[r], t['values'][p]), 'parameter value of the row', parameter=p, row=r, got=val.iloc[r],
                  expected=t['values'][p], voltages=row['voltages'], measured_again=row['again'], **info)
            check(eq(std.iloc[r], np.sqrt(t['variances'][p])), 'standard deviation of the row', parameter=p, row=r, got=std.iloc[r],
                  expected=np.sqrt(t['variances'][p]), measured_again=row['again'], **info)
            ctx.count('entries')
    controlled = {}
    for i, t in enumerate(tuners):
        for p in t.target.index if hasattr(t.solver, 'gradient_estimators') else ():
            controlled.setdefault(p, []).append(i)
    for p, ii in controlled.items():
        known = [row['tuners'][i]['grads'][p] for row in rows for i in ii if i in row['tuners']]
        known += [e.estimate() for i in ii for q, e in zip(tuners[i].target.index, tuners[i].solver.gradient_estimators) if q == p]
        known = [g for g in known if g is not None]
        gg = set().union(*[set(k.index) for k in known]) if known else set()
        grad, var, cov = hist.get_gradients(p), hist.get_gradient_variances(p), hist.get_gradient_covariances(p)
        check(set(grad.columns) <= gg and len(set(grad.columns)) == len(grad.columns), 'columns of the gradient', parameter=p,
              got=list(grad.columns), expected=sorted(gg), **info)
        check(set(var.columns) <= gg and {x for c in cov.columns for x in c} <= gg, 'columns of the gradient covariance', parameter=p,
              got=list(cov.columns), expected=sorted(gg), **info)
        for r, row in enumerate(rows):
            here = [i for i in ii if i in row['tuners']]
            if not here:
                if r:
                    check(bool(grad.iloc[r].isna().all()) and bool(var.iloc[r].isna().all()),
                          'gradient of a tuner not reached is not empty', parameter=p, row=r, got=grad.iloc[r], **info)
                continue
            if r == 0 and len(here) < len(ii):
                continue
            bad = mismatch([row['tuners'][i] for i in here], p, gg, grad, var, cov, r)
            check(bad is None, 'gradient of the row differs', parameter=p, row=r, entry=bad, measured_again=row['again'], **info)
            ctx.count('gradients')
    for r, row in enumerate(rows):
        for i, t in row['tuners'].items():
            for name, y in t['data'].items():
                cell = entry(hist.evaluator_data, r, name) if name in hist.evaluator_data.columns else None
                if y is None:
                    continue
                check(isinstance(cell, dict), 'raw data of the evaluator missing', evaluator=name, row=r, **info)
                a, b = flat(cell['raw_y_data']), flat(y)
                check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), 'raw data of the row', evaluator=name, row=r, **info)
                ctx.count('raw_data')
    # rows contain no raw data of tuners which were not reached (the first row shows what was known before)
    users = {}
    for i, t in enumerate(tuners):
        for e in t.evaluators:
            users.setdefault(e.name, set()).add(i)
    for r, row in enumerate(rows):
        for name, ii in users.items():
            if not ii & set(row['tuners']) and name in hist.evaluator_data.columns:
                cell = hist.evaluator_data[name].iloc[r]
                check(not isinstance(cell, dict) or (r == 0 and cell.get('raw_y_data') is not None), 'raw data of a tuner not reached', evaluator=name, row=r, **info)
                ctx.count('empty_raw_data')


def flat(y):
    if isinstance(y, (list, tuple)):
        return np.concatenate([flat(x) for x in y]) if len(y) else np.zeros(0)
    return np.asarray(y, dtype=float).ravel()


def mismatch(ts, p, gg, grad, var, cov, r):
    """several tuners may estimate the gradient of the same parameter, their entries share the columns; the entries of the lower ones may be missing"""
    gs = [t['grads'][p] for t in ts]
    cs = [t['covs'][p] for t in ts]
    several = len(ts) > 1
    for gate in gg:
        want = [g[gate] for g in gs if g is not None and gate in g.index] or [np.nan]
        if several and np.isnan(float(entry(grad, r, gate))) and (gs[-1] is None or gate not in gs[-1].index):
            continue
        if not any(eq(entry(grad, r, gate), w) for w in want):
            return (gate, entry(grad, r, gate), want)
        want = [c.loc[gate, gate] for c in cs if c is not None and gate in c.index] or [np.nan]
        if not any(eq(entry(var, r, gate), w) for w in want):
            return ('variance', gate, entry(var, r, gate), want)
    for a in gg:
        for b in gg:
            want = [x for c in cs if c is not None and a in c.index and b in c.index for x in (c.loc[a, b], c.loc[b, a])]
            if not want:
                continue
            scale = max(abs(np.diag(c)).max() for c in cs if c is not None)
            cols = [k for k in ((a, b), (b, a)) if k in cov.columns]
            if not cols:
                return ('no covariance', a, b)
            for k in cols:
                if several and np.isnan(float(cov[k].iloc[r])) and (cs[-1] is None or a not in cs[-1].index or b not in cs[-1].index):
                    continue
                if not any(eq(cov[k].iloc[r], w, 1e-9) or abs(cov[k].iloc[r] - w) <= 1e-12 * scale for w in want):
                    return ('covariance', a, b, cov[k].iloc[r], want)
    return None


def rows_of(rows, i):
    for row in rows:
        if i in row['tuners']:
            return row['tuners'][i]
    return None


def case(rng, ctx, index):
    path = ctx.tmpdir()
    real = rng.random() < .25
    if real:
        pr = dqd.build(dqd.spec(rng), path=path, with_time=False)
        bad = {int(x) for x in rng.integers(6, 40, int(rng.integers(0, 3)))}
        pr.dot.fail = lambda i, v, m: i in bad
        kind = 'dqd'
        lab = pr.dot
    else:
        sp = gen.random_spec(rng, curvature=float(gen.choice(rng, [0., .03])))
        pr = gen.build(sp, path=path, with_time=False)
        bad = {int(x) for x in rng.integers(len(pr.tuners) * 2 + 2, 60, int(rng.integers(0, 3)))}
        pr.lab.nan = lambda i, v, p: i in bad
        kind = 'linear'
        lab = pr.lab
        pr.exp.actuator = pr.exp.actuator or (None if rng.random() < .7 else (lambda g, x: float(np.round(x, 1))))
    auto, exp = pr.autotuner, pr.exp
    log = Log(auto)
    live = History(None)
    sparse, sparse_rows, sparse_last = History(None), [], None
    n = int(rng.integers(3, 31))
    restart = int(rng.integers(3, 30)) if rng.random() < .3 else None
    change = int(rng.integers(3, 30)) if rng.random() < .3 else None
    files = 0
    try:
        for i in range(n):
            if auto.is_tuning_complete() and i != change and i != restart:
                break
            if i == restart:
                if rng.random() < .8:
                    # voltages changed by hand, sometimes by very little
                    g, now = gen.choice(rng, exp.gate_voltage_names), exp.true_voltages
                    exp.force(pd.Series({g: float(rng.normal() * 1e-3) if rng.random() < .4 else float(now[g] * (1. + 1e-8) + 1e-10)}))
                    ctx.count('by_hand')
                auto.restart()
            if i == change:
                f = float(rng.uniform(.8, 1.2))
                auto.change_targets([{'desired': t.target['desired'].dropna() * f} if t.target['desired'].notna().any() else {}
                                     for t in auto.tuning_hierarchy])
            log.begin()
            calls = lab.calls
            try:
                auto.iterate()
            except Exception:
                break
            files += 1
            log.end(exp.true_voltages, lab.calls > calls, auto.last_save_file)
            live.append_autotuner(auto)
            if restart is None and change is None and log.action != 'set' and rng.random() < .4:
                # only some of the states are recorded (after new voltages were set the evaluations of the previous ones are no longer attributed)
                sparse.append_autotuner(auto)
                row = dict(log.rows[-1], tuners=dict(log.rows[-1]['tuners']))
                if sparse_last is log.rows[-1]:
                    sparse_rows[-1] = row
                else:
                    sparse_rows.append(row)
                sparse_last = log.rows[-1]
            if exp.true_voltages.abs().max() > 1e3:
                break
    finally:
        auto.asynchrone_writer.join()
    if not log.rows:
        return
    info = dict(setup=kind, iterations=files, tuners=[type(t).__name__ for t in pr.tuners], rows_logged=len(log.rows))
    gates = list(exp.gate_voltage_names)
    compare(live, log.rows, pr.tuners, gates, ctx, dict(history='live', **info))
    # voltages left and reached again between two recorded states: indistinguishable from voltages kept
    back = any(same(a['voltages'], b['voltages']) for a, b in zip(sparse_rows, sparse_rows[1:]))
    if sparse_rows and not back and not any(row['again'] for row in sparse_rows):
        compare(sparse, sparse_rows, pr.tuners, gates, ctx, dict(history='sparse', **info))
        ctx.count('sparse_rows', len(sparse_rows))
    check(len(os.listdir(path)) == files, 'files', files=len(os.listdir(path)), **info)
    os.mkdir(os.path.join(path, 'subdirectory'))
    loaded = History(path)
    compare(loaded, log.rows, pr.tuners, gates, ctx, dict(history='loaded', **info))
    for h, name in ((live, 'live'), (loaded, 'loaded')):
        for r, row in enumerate(log.rows):
            check(os.path.abspath(h.get_reload_path(r)) == os.path.abspath(row['path']), 'file of the row', history=name, row=r, got=h.get_reload_path(r), expected=row['path'],
                  **info)
    r = int(rng.integers(len(log.rows)))
    a = load_auto_tuner(loaded.get_reload_path(r), reserved={'experiment': exp})
    check(same(a.tuning_hierarchy[0].last_voltages[gates], log.rows[r]['voltages']), 'file of the row has other voltages', row=r, **info)
    ctx.count('rows', len(log.rows))
    ctx.count('files', files)
    ctx.count('failed_rows', sum(bool(t['values'].isna().any()) for row in log.rows for t in row['tuners'].values()))
    ctx.count('measured_again', sum(row['again'] for row in log.rows))
    ctx.distinct(kind, tuple(tuple(sorted(row['tuners'])) for row in log.rows))
    ctx.sample(**info)
