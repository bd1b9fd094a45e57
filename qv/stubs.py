"""Scripted stand-ins for evaluators, solvers and gradient estimators (subclasses of the public base classes)."""
import numpy as np
import pandas as pd

from qtune.evaluator import Evaluator
from qtune.experiment import Measurement
from qtune.gradient import GradientEstimator
from qtune.solver import Solver


class ScriptedEvaluator(Evaluator):
    def __init__(self, experiment, parameters, name='scripted', source=None):
        super().__init__(experiment=experiment, measurements=(Measurement('m'),), parameters=parameters,
                         raw_x_data=None, raw_y_data=None, name=name)
        self.source = source        # callable(parameters) -> values, variances
        self.calls = 0

    def evaluate(self):
        self.calls += 1
        values, variances = self.source(self)
        return values.copy(), variances.copy()

    def to_hdf5(self):
        return dict(experiment=self.experiment, parameters=self.parameters, name=self.name)


class OwnState:
    """target and position are kept by the stand-in itself"""
    @property
    def target(self):
        return self.own_target

    @target.setter
    def target(self, changes):
        Solver.target.fset(self, changes)

    @property
    def current_position(self):
        return self.own_position

    @current_position.setter
    def current_position(self, position):
        labels = self.own_position.index.intersection(position.index)
        self.own_position[labels] = position[labels]


class ScriptedSolver(OwnState, Solver):
    def __init__(self, target, current_position):
        self.own_target = target
        self.own_position = current_position
        self.suggest = None
        self.updates = []

    def suggest_next_position(self, tuned_parameters=None):
        return self.suggest(tuned_parameters)

    def update_after_step(self, position, values, variances):
        self.updates.append((position.copy(), values.copy(), variances.copy()))
        self.current_position = position

    @property
    def state(self):
        return pd.Series(dtype=float)

    def to_hdf5(self):
        return dict(target=self.own_target, current_position=self.own_position)


class ScriptedEstimator(OwnState, GradientEstimator):
    def __init__(self, gradient, current_position, request=None):
        self.gradient = gradient
        self.own_position = current_position
        self.request = request
        self.updates = []
        self.asked = 0

    def estimate(self):
        return self.gradient.copy()

    def covariance(self):
        return pd.DataFrame(0., index=self.gradient.index, columns=self.gradient.index)

    def change_position(self, new_position):
        self.own_position = new_position

    def require_measurement(self, gates=None, tuned_jacobian=None):
        self.asked += 1
        return None if self.request is None else self.request.copy()

    def update(self, position, value, covariance, is_new_position=False):
        self.updates.append((position.copy(), float(value), float(covariance), is_new_position))

    def to_hdf5(self):
        return dict(gradient=self.gradient, current_position=self.own_position)


def same(a, b, tol=1e-12):
    """Series equal by label"""
    if set(a.index) != set(b.index):
        return False
    x, y = a[list(b.index)].astype(float).values, b.astype(float).values
    return bool(np.all((np.abs(x - y) <= tol * np.maximum(1., np.abs(y))) | (np.isnan(x) & np.isnan(y))))
