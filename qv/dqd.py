"""A simulated double quantum dot which answers the measurements of the real evaluators from their physical models."""
import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.evaluator import (AveragingEvaluator, InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan,
                             LeadTunnelTimePrefitVersion, NewLoadTime, SensingDot1D, SensingDot2D)
from qtune.experiment import Measurement
from qtune.gradient import KalmanGradientEstimator, FiniteDifferencesGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SubsetTuner, SensingDotTuner
from qtune.solver import NewtonSolver, ForwardingSolver, make_target

from qv import gen
from qv.sim import SimExperiment

GATES = ['RFA', 'RFB', 'SDB1', 'SDB2', 'A', 'B', 'N', 'T']


def axis(o):
    return np.linspace(o['center'] - o['range'], o['center'] + o['range'], int(o['N_points']))


class Dot:
    """response of the simulated dot.  par: name -> (offset, {gate: response})"""

    def __init__(self, rng, noise=0.):
        self.seed = int(rng.integers(2 ** 31))
        self.noise = noise
        self.calls = 0
        self.lines = int(gen.choice(rng, [1, 1, 3]))
        r = lambda s: {g: float(rng.normal() * s) for g in GATES}
        self.par = dict(
            lead_RFA=(float(rng.uniform(-1e-3, 1e-3)), {**r(.05), 'RFA': 0., 'RFB': 0., 'A': .5}),
            lead_RFB=(float(rng.uniform(-1e-3, 1e-3)), {**r(.05), 'RFA': 0., 'RFB': 0., 'B': .5}),
            tc=(float(rng.uniform(150e-6, 300e-6)), {**r(.002), 'T': .03}),
            tc_pos=(float(rng.uniform(-3e-4, 3e-4)), r(.01)),
            load=(float(rng.uniform(15., 60.)), {**r(100.), 'N': 3e3}),
            sd=(float(rng.uniform(-1e-3, 1e-3)), {**r(.05), 'SDB1': .5, 'SDB2': 1.}),
            t_rise=(float(rng.uniform(40e-9, 120e-9)), r(1e-7)), t_fall=(float(rng.uniform(40e-9, 120e-9)), r(1e-7)))
        self.fail = None            # callable(call, voltages, measurement name) -> bool: data that can not be fitted
        self.log = []

    def value(self, p, v):
        c, row = self.par[p]
        return c + sum(row[g] * float(v[g]) for g in row)

    def __call__(self, v, m):
        i = self.calls
        self.calls += 1
        self.log.append((i, m.name, dict(m.options), v))
        rng = np.random.default_rng([self.seed, i])
        o = m.options
        bad = self.fail is not None and self.fail(i, v, m.name)
        if m.name == 'line_scan' and o['gate'].startswith('SD'):
            x = axis(o)
            w = {**{g: float(v[g]) for g in v.index}}
            y = np.array([self.peak({**w, o['gate']: a}) for a in x])
        elif m.name == 'line_scan':
            x = axis(o)
            p = self.value('lead_' + o['gate'], v)
            y = .3 + 8. * x + .5 * (1. + np.tanh((x - p) / 4e-5))
        elif m.name == 'detune_scan':
            x = axis(o)
            y = .2 + 20. * x + .4 * (1. + np.tanh((x - self.value('tc_pos', v)) / self.value('tc', v)))
            if bad:
                y = rng.normal(size=len(x)) * 1e9 * (np.arange(len(x)) % 7 == 0)
        elif m.name == 'load_scan':
            x = np.arange(0., 500., 5.)
            y = .1 + .8 * np.exp(-x / self.value('load', v))
            return np.stack([y + self.noise * rng.normal(size=len(x)), x])
        elif m.name == '2d_scan':
            g1, g2 = o['gate1'], o['gate2']
            x1 = np.linspace(o['center'][0] - o['range'], o['center'][0] + o['range'], int(o['n_lines']))
            x2 = np.linspace(o['center'][1] - o['range'], o['center'][1] + o['range'], int(o['n_points']))
            w = {g: float(v[g]) for g in v.index}
            y = np.array([[self.peak({**w, g1: a, g2: b}) for b in x2] for a in x1])
            return y + self.noise * rng.normal(size=y.shape)
        else:
            raise KeyError(m.name)
        if self.lines > 1:
            y = np.stack([y] * self.lines)
        return y + self.noise * rng.normal(size=y.shape)

    def peak(self, v):
        s = self.value('sd', v)
        return float((1. + 40. * v['SDB1']) / np.cosh(s / 8e-4) ** 2)


def spec(rng):
    """a random autotuner with real evaluators"""
    return dict(seed=int(rng.integers(2 ** 31)), noise=float(gen.choice(rng, [1e-5, 1e-4])))


class Problem:
    pass


def build(sp, path=None, with_time=True):
    rng = np.random.default_rng(sp['seed'])
    pr = Problem()
    pr.dot = pr.lab = Dot(rng, sp['noise'])
    v0 = {g: float(np.round(rng.normal() * 5e-4, 6)) for g in GATES}
    pr.exp = SimExperiment(v0, pr.dot, sort_read=bool(rng.random() < .5))
    full = pd.Series(v0)
    tuners = []

    def wrap(e):
        if rng.random() < .3:
            return AveragingEvaluator(e, int(rng.integers(2, 4)))
        return e

    def newton(params, gates, rows, resc, targets, tols):
        f = pd.Series({p: resc[p] for p in params})
        target = make_target(desired=pd.Series(targets) / f, tolerance=pd.Series(tols) / f, rescaling_factor=f)
        est = []
        kind = gen.choice(rng, ['kalman', 'kalman', 'unknown', 'fd'])
        symmetric = bool(rng.random() < .4)
        for p in target.index:
            g0 = np.array([rows[p].get(g, 0.) for g in gates]) / resc[p]
            cp = full[gates].copy()
            if kind == 'fd':
                est.append(FiniteDifferencesGradientEstimator(current_position=cp, epsilon=1e-4, symmetric=symmetric))
            else:
                cov = 1e-6 if kind == 'kalman' else 1e9 * float(rng.uniform(.5, 2.))
                est.append(KalmanGradientEstimator(
                    KalmanGradient(len(gates), 1, initial_gradient=g0 * (1. if kind == 'kalman' else .5),
                                   initial_covariance_matrix=np.diag(cov * rng.uniform(.5, 2., len(gates))),
                                   measurement_covariance_matrix=np.eye(1) * 1e-6,
                                   process_noise=np.eye(len(gates)) * float(gen.choice(rng, [0., 1e-3])),
                                   alpha=float(gen.choice(rng, [1., 1., 1.05]))),
                    current_position=cp, maximum_covariance=1e6, epsilon=1e-4))
        return NewtonSolver(target=target, gradient_estimators=est, current_position=full[gates].copy())

    if rng.random() < .8:
        names = ['current_signal', 'position_SDB2', 'position_SDB1', 'optimal_signal']
        s = lambda d: pd.Series({p: d.get(p, np.nan) for p in names})
        m = float(rng.uniform(1e-4, 6e-3))
        target = make_target(desired=s({}), minimum=s({'current_signal': m}), cost_threshold=s({'current_signal': m * rng.uniform(.1, 1.)}),
                             rescaling_factor=s({p: 1. for p in names}))
        solver = ForwardingSolver(target=target, values_to_position=pd.Series({'position_SDB1': 'SDB1', 'position_SDB2': 'SDB2'}),
                                  current_position=full[['SDB1', 'SDB2']].copy())
        rising = [None, True, False][int(rng.integers(3))]
        cheap = SensingDot1D(pr.exp, rising_flank=rising, measurements=(Measurement(
            'line_scan', center=None, range=4e-3, gate='SDB2', N_points=160, ramptime=.0005, N_average=1, AWGorDecaDAC='DecaDAC'),))
        exp2 = SensingDot2D(pr.exp, scan_range=3e-3, rising_flank=rising, measurements=(Measurement(
            '2d_scan', center=[None, None], range=3e-3, gate1='SDB1', gate2='SDB2', ramptime=.0005, n_lines=6, n_points=52,
            N_average=1, AWGorDecaDAC='DecaDAC'),))
        lines, pr.dot.lines = pr.dot.lines, 1
        tuners.append(SensingDotTuner([wrap(cheap)], [exp2], ['SDB1', 'SDB2'], solver=solver))
    if rng.random() < .8:
        gates = gen.pick(rng, ['A', 'B'], 2)
        ps = ['position_RFB', 'position_RFA']
        rows = dict(position_RFB=pr.dot.par['lead_RFA'][1], position_RFA=pr.dot.par['lead_RFB'][1])
        s = newton(ps, gates, rows, {p: 1e-3 for p in ps}, {p: float(rng.uniform(-1e-3, 1e-3)) for p in ps}, {p: 1e-4 for p in ps})
        tuners.append(SubsetTuner([wrap(LeadTransition(pr.exp))], gates, solver=s, maximal_step_size=float(gen.choice(rng, [np.nan, 5e-4])),
                                  maximal_step_number=int(rng.integers(1, 4))))
    ps = [p for p in ['parameter_tunnel_coupling', 'parameter_time_load'] if rng.random() < .7] or ['parameter_time_load']
    gates = gen.pick(rng, ['T', 'N'], 2)
    rows = dict(parameter_tunnel_coupling=pr.dot.par['tc'][1], parameter_time_load=pr.dot.par['load'][1])
    goal = dict(parameter_tunnel_coupling=float(rng.uniform(180e-6, 250e-6)), parameter_time_load=float(rng.uniform(20., 40.)))
    tol = dict(parameter_tunnel_coupling=4e-6, parameter_time_load=1.)
    resc = dict(parameter_tunnel_coupling=float(gen.choice(rng, [1e-6, 1e-5])), parameter_time_load=float(gen.choice(rng, [1., 10.])))
    pick = lambda d: {p: d[p] for p in ps}
    s = newton(ps, gates, rows, resc, pick(goal), pick(tol))
    ev = dict(parameter_tunnel_coupling=InterDotTCByLineScan(pr.exp), parameter_time_load=NewLoadTime(pr.exp))
    tuners.append(SubsetTuner([wrap(ev[p]) for p in gen.pick(rng, ps, len(ps))], gates, solver=s,
                              maximal_step_size=float(gen.choice(rng, [np.nan, 1e-3])), maximal_step_number=2))
    pr.tuners = tuners
    pr.autotuner = Autotuner(pr.exp, tuners, hdf5_storage_path=path, append_time_to_path=with_time)
    return pr
