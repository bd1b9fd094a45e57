"""Simulated laboratory: an experiment whose every interaction is recorded as a trace event, and evaluators that
measure it through the public Experiment interface.  Nothing here reaches into qtune's private state."""
import warnings
warnings.simplefilter('ignore')

import numpy as np
import pandas as pd

from qtune.experiment import Experiment, Measurement
from qtune.evaluator import Evaluator


class InjectedFault(Exception):
    """Raised by the simulated hardware on purpose."""


def no_response(v, m):
    return np.zeros(1)


class SimExperiment(Experiment):
    """gates -> voltages with optional imperfect actuator, records a trace.

    trace entries: ('read', Series) ('set', Series) ('measure', name, options, Series) """

    def __init__(self, voltages, response=None, actuator=None, sort_read=False):
        self._v = pd.Series(voltages, dtype=float).copy()
        self.response = response or no_response
        self.actuator = actuator
        self.sort_read = sort_read
        self.trace = []
        self.fault = None         # callable(kind, payload) -> may raise
        self.n_measure = 0

    @property
    def measurements(self):
        return ()

    @property
    def gate_voltage_names(self):
        return tuple(self._v.index)

    @property
    def true_voltages(self):
        return self._v.copy()

    def force(self, v):
        """the operator turns knobs by hand (not traced as a set)"""
        for g in v.index:
            self._v[g] = v[g]

    def read_gate_voltages(self):
        v = self._v.copy()
        if self.sort_read:
            v = v.sort_index()
        self.trace.append(('read', v.copy()))
        return v

    def set_gate_voltages(self, new_gate_voltages):
        new = new_gate_voltages
        if self.fault:
            self.fault('set', new)
        self.trace.append(('set', pd.Series(new).copy()))
        for g in new.index:
            x = float(new[g])
            if self.actuator is not None:
                x = self.actuator(g, x)
            self._v[g] = x
        return self._v[new.index].copy()

    def measure(self, measurement):
        self.n_measure += 1
        if self.fault:
            self.fault('measure', measurement)
        self.trace.append(('measure', measurement.name, dict(measurement.options), self._v.copy()))
        return self.response(self._v.copy(), measurement)

    def sets(self):
        return [e for e in self.trace if e[0] == 'set']


class SimEvaluator(Evaluator):
    """value = what experiment.measure returns for the parameters (measurement option), variance constant."""

    def __init__(self, experiment, parameters, name='SimEvaluator', variance=1e-6, measurements=None,
                 raw_x_data=None, raw_y_data=None, order=None):
        if measurements is None:
            measurements = (Measurement('sim', target='+'.join(parameters)),)
        self.variance = variance
        self.record(experiment, measurements, parameters, name, raw_x_data, raw_y_data)
        self.n_evaluations = 0

    def record(self, experiment, measurements, parameters, name, x, y):
        super().__init__(experiment=experiment, measurements=measurements, parameters=parameters, raw_x_data=x, raw_y_data=y,
                         name=name)

    def evaluate(self):
        self.n_evaluations += 1
        data = np.asarray(self.experiment.measure(self.measurements[0]), dtype=float)
        self.record(self.experiment, self.measurements, self.parameters, self.name, np.arange(len(data), dtype=float), data.copy())
        ix = list(self.parameters)
        var = self.variance
        if isinstance(var, dict):
            var = [float(var[p]) for p in ix]
        noise = getattr(self.experiment, 'variance_noise', None)
        if noise is not None:
            var = np.asarray(var) * (1. + 1e-12 * noise.uniform(-1., 1., len(ix)))
        return pd.Series(data, index=ix), pd.Series(var, index=ix, dtype=float)

    def to_hdf5(self):
        return dict(experiment=self.experiment, measurements=self.measurements, parameters=self.parameters,
                    raw_x_data=self.raw_data[0], raw_y_data=self.raw_data[1], name=self.name,
                    variance=self.variance)


class LinearLab:
    """values(p) = offset_p + A[p] @ v (+ optional curvature), keyed by parameter name."""

    def __init__(self, A: pd.DataFrame, offset: pd.Series, curvature=0., v0=None):
        self.A, self.offset, self.curvature = A, offset, curvature
        self.nan_schedule = set()   # indices of measure calls answered with NaN
        self.calls = 0
        self.nan_region = None      # callable(v) -> bool

    def value(self, v, p):
        lin = float((self.A.loc[p] * v[self.A.columns]).sum()) + float(self.offset[p])
        return lin + self.curvature * lin * lin

    def values(self, v, ps):
        return np.array([self.value(v, p) for p in ps])

    def __call__(self, v, m):
        i = self.calls
        self.calls += 1
        ps = m.options['target'].split('+')
        out = self.values(v, ps)
        if i in self.nan_schedule or (self.nan_region is not None and self.nan_region(v)):
            out = out * np.nan
        return out
