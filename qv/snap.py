"""Plain snapshots of everything public about an autotuner, and their comparison."""
import numpy as np
import pandas as pd

from qtune.parameter_tuner import SensingDotTuner
from qtune.solver import NelderMeadSolver, ForwardingSolver


def evaluator(e):
    d = dict(kind=type(e).__name__, name=e.name, parameters=tuple(e.parameters),
             measurements=[(m.name, dict(m.options)) for m in e.measurements], raw=tuple(copy_(x) for x in e.raw_data))
    if hasattr(e, 'fit_results'):
        d['fit'] = copy_(e.fit_results)
    if hasattr(e, 'transition_positions'):
        d['transitions'] = copy_(e.transition_positions)
    if hasattr(e, 'optimal_position'):
        d['sd'] = (e.current_signal, e.optimal_signal, e.optimal_position)
    if hasattr(e, 'n_measurement_repetitions'):
        d['inner'] = evaluator(e.to_hdf5()['evaluator'])
        d['n'] = int(e.n_measurement_repetitions)
    return d


def copy_(x):
    if isinstance(x, (pd.Series, pd.DataFrame, np.ndarray)):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [copy_(y) for y in x]
    return x


def solver(s):
    d = dict(kind=type(s).__name__, position=s.current_position.copy(), target=s.target.copy())
    if hasattr(s, 'gradient_estimators'):
        d['estimators'] = [dict(kind=type(e).__name__, position=copy_(e.current_position), estimate=copy_(e.estimate()),
                                covariance=copy_(e.covariance())) for e in s.gradient_estimators]
    if isinstance(s, NelderMeadSolver):
        d['simplex'] = [(p.copy(), v.copy()) for p, v in s.simplex]
        d['values'] = s.current_values.copy()
    return d


def tuner(t):
    d = dict(kind=type(t).__name__, last_voltages=copy_(t.last_voltages), tuned=[v.copy() for v in t.tuned_voltages],
             last=tuple(copy_(x) for x in t.last_parameters_and_variances), parameters=list(t.parameters), solver=solver(t.solver),
             failed=bool(t.last_evaluation_failed), evaluators=[evaluator(e) for e in t.evaluators])
    if hasattr(t, 'tunable_gates'):
        d['gates'] = list(t.tunable_gates)
    if isinstance(t, SensingDotTuner):
        d['cheap'] = [e.name for e in t.cheap_evaluators]
        d['expensive'] = [e.name for e in t.expensive_evaluators]
    return d


def autotuner(a):
    return dict(index=int(a.current_tuner_index), status=bool(a.current_tuner_status), complete=bool(a.is_tuning_complete()),
                pending=copy_(a.voltages_to_set), tuners=[tuner(t) for t in a.tuning_hierarchy])


def diff(a, b, tol=1e-12, path=''):
    """first difference or None.  Series are compared by label including order"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return path + ' keys %s / %s' % (sorted(a), sorted(b))
        for k in a:
            d = diff(a[k], b[k], tol, path + '.' + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return path + ' length %d / %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, path + '[%d]' % i)
            if d:
                return d
        return None
    if isinstance(a, pd.Series) and isinstance(b, pd.Series):
        if list(a.index) != list(b.index):
            return path + ' index %s / %s' % (list(a.index), list(b.index))
        return diff(a.values, b.values, tol, path)
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        if list(a.index) != list(b.index) or list(a.columns) != list(b.columns):
            return path + ' labels'
        return diff(a.values, b.values, tol, path)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if (a is b or (isinstance(a, str) and isinstance(b, str) and a == b)) else path + ' %r / %r' % (a, b)
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind == 'O' or y.dtype.kind == 'O':
            if [None if z is None else str(z) for z in x.ravel()] == [None if z is None else str(z) for z in y.ravel()]:
                return None
            x, y = x.astype(float), y.astype(float)
        if x.dtype.kind in 'US' or y.dtype.kind in 'US':
            return None if x.shape == y.shape and (x == y).all() else path + ' %r / %r' % (a, b)
        if x.shape != y.shape:
            return path + ' shape %s / %s' % (x.shape, y.shape)
        x, y = x.astype(float), y.astype(float)
        ok = np.array_equal(np.isnan(x), np.isnan(y)) and bool(
            np.all(np.isnan(x) | (x == y) | (np.abs(x - y) <= tol * np.maximum(np.abs(x), np.abs(y)))))
        return None if ok else path + ' %r / %r' % (a, b)
    except (TypeError, ValueError):
        return path + ' %r / %r' % (type(a), type(b))
