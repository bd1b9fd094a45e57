"""C29: the shipped simulated double quantum dot (qtune.basic_dqd) as an experiment, judged by its own physical formulas."""
import copy
import warnings

import numpy as np
import pandas as pd

from qtune import basic_dqd
from qtune.autotuner import Autotuner
from qtune.evaluator import InterDotTCByLineScan, LeadTransition, NewLoadTime, SensingDot1D, SensingDot2D, AveragingEvaluator
from qtune.experiment import Measurement
from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target

from qv.core import check
from qv import gen

PROPERTY = 'C29'
N = dict(quick=500, thorough=20000)
CASE_TIMEOUT = 120.
RULE = ('simulated double quantum dots of the shipped simulators (gates of the tutorial, random start voltages and scans) and of simulators which only record; random '
        'sequences of sets, reads, measurements and changes of what was read or given; evaluators of every scan against the formulas of the simulation; tuning '
        'of load time and lead transitions with finite differences; non-trivial: distinct (operations, evaluators)')
REQUIRED = dict(sets=3., reads=3., measured=2., load=.3, coupling=.3, transitions=.3, sensing=.2, tuned=.1)
ASSUMPTIONS = ['parameters inside the scanned range (load time 15-60, tunnel coupling 190-400e-6, transitions within 2.5e-3)']
GATES = ['SA', 'T', 'SDB1', 'SDB2', 'SB', 'N', 'BA', 'BB', 'RFA', 'RFB']


class Lab:
    def __init__(self, rng):
        v = {g: 0. for g in GATES}
        v.update(SA=float(rng.uniform(-3, 0)), SB=float(rng.uniform(-3, 0)), SDB1=float(rng.uniform(-1e-3, 1e-3)), SDB2=float(rng.uniform(-1e-3, 1e-3)))
        v['BA'], v['BB'] = v['SA'] - float(rng.uniform(-2.5, 2.5)), v['SB'] - float(rng.uniform(-2.5, 2.5))
        v['T'] = -v['SA'] - float(rng.uniform(0., 3.7))
        v['T'] = min(v['T'], v['SA'] + 5.)
        v['N'] = v['SB'] + float(rng.uniform(-1., 4.))
        order = list(rng.permutation(GATES)) if rng.random() < .6 else sorted(GATES)
        self.initial = pd.Series({g: v[g] for g in order})
        self.scans = dict(
            load=Measurement('load_scan'),
            detune=Measurement('detune_scan', center=0., range=2e-3, N_points=gen.choice(rng, [100, 100, 141, 200]), ramptime=.02, N_average=10, AWGorDecaDAC='AWG'),
            ss1d=Measurement('line_scan', center=0., range=4e-3, gate='SDB2', N_points=1280, ramptime=.0005, N_average=1, AWGorDecaDAC='DecaDAC'),
            rfa=Measurement('line_scan', center=0., range=4e-3, gate='RFA', N_points=int(gen.choice(rng, [1280, 320])), ramptime=.0005, N_average=3, AWGorDecaDAC='DecaDAC'),
            rfb=Measurement('line_scan', center=0., range=4e-3, gate='RFB', N_points=1280, ramptime=.0005, N_average=3, AWGorDecaDAC='DecaDAC'),
            ss2d=Measurement('ss2d', center=[0, 0], gate1='SDB1', gate2='SDB2', range=15e-3, n_lines=20, n_points=104))
        S = basic_dqd.Simulator
        self.seen = []
        self.recorders = {}
        sims = dict(load=S(basic_dqd.load_simulation, gate1='T', gate2='SA'),
                    detune=S(basic_dqd.detune_simulation, central_upper_gate='T', central_lower_gate='N', left_gate='SB', right_gate='SA'),
                    ss1d=S(basic_dqd.ss1d_simulation), ss2d=S(basic_dqd.ss2d_simulation, gate1='SDB1', gate2='SDB2'),
                    rfa=S(basic_dqd.transition_simulation, gate_lead='SA', gate_opposite='BA'),
                    rfb=S(basic_dqd.transition_simulation, gate_lead='SB', gate_opposite='BB'))
        for i in range(int(rng.integers(1, 4))):
            # measurements which can not be told apart by their name and options
            k = 'own%d' % i
            self.scans[k] = Measurement('own', x=1.)
            options = {'number': i, 'factor': float(rng.normal())}
            self.recorders[k] = options
            sims[k] = S(self.record, **options)
        names = list(rng.permutation(list(self.scans)))
        self.exp = basic_dqd.TestExperiment(initial_voltages=self.initial, measurements=tuple(self.scans[k] for k in names),
                                            simulator_dict={id(self.scans[k]): sims[k] for k in names})
        self.names = names
        self.v = dict(v)

    def record(self, voltages, measurement, options):
        self.seen.append((dict(voltages), measurement, dict(measurement.options), dict(options)))
        return np.array([options['number'], len(self.seen)], dtype=float)

    load_time = property(lambda self: 15. + np.exp(-self.v['T'] - self.v['SA']))
    coupling = property(lambda self: 1e-6 * (190. + np.exp(self.v['T'] - self.v['SA']) + np.exp(self.v['N'] - self.v['SB'])))

    def transition(self, g):
        return 1e-3 * (self.v['S' + g] - self.v['B' + g])


def holds(lab, voltages, info, what='the voltages read are not those set last'):
    check(sorted(voltages.index) == sorted(lab.v) and all(float(voltages[g]) == lab.v[g] for g in lab.v), what,
          got=dict(voltages), expected=dict(sorted(lab.v.items())), **info)


def operations(rng, ctx, lab):
    exp = lab.exp
    kept = lab.initial.copy()
    check(sorted(exp.gate_voltage_names) == sorted(GATES), 'gates of the experiment', got=repr(exp.gate_voltage_names))
    check(len(exp.measurements) == len(lab.scans) and all(any(m is s for s in lab.scans.values()) for m in exp.measurements), 'measurements of the experiment')
    ops = []
    for _ in range(int(rng.integers(4, 16))):
        op = gen.choice(rng, ['set', 'set', 'read', 'spoil', 'measure', 'measure', 'option'])
        ops.append(op)
        info = dict(operations=list(ops))
        if op == 'set':
            gates = gen.pick(rng, GATES, int(rng.integers(1, len(GATES) + 1)))
            new = pd.Series({g: lab.v[g] + float(rng.normal() * (1e-4 if g.startswith('SD') or g.startswith('RF') else .05)) for g in gates})
            before = new.copy()
            out = exp.set_gate_voltages(new)
            check(new.equals(before), 'setting voltages changed the Series of the caller', **info)
            lab.v.update({g: float(new[g]) for g in gates})
            check(all(float(out[g]) == lab.v[g] for g in gates), 'the voltages returned are not those which were set', got=dict(out), expected=dict(new), **info)
            if rng.random() < .5:
                # the caller goes on using his Series
                new[:] = 77.
            ctx.count('sets')
        elif op == 'spoil':
            r = exp.read_gate_voltages()
            r[:] = 99.
            ctx.count('reads')
        elif op == 'option':
            k = gen.choice(rng, list(lab.recorders))
            lab.scans[k].options['x'] = float(rng.normal())
        elif op == 'measure':
            k = gen.choice(rng, list(lab.recorders))
            n = len(lab.seen)
            out = exp.measure(lab.scans[k])
            check(len(lab.seen) == n + 1, 'one measurement is simulated once', **info)
            v, m, options, sim = lab.seen[-1]
            check(m is lab.scans[k] and options == lab.scans[k].options, 'another measurement was simulated', **info)
            check(sim == lab.recorders[k] and list(out) == [lab.recorders[k]['number'], n + 1], 'a measurement was answered by another simulator', got=sim, expected=lab.recorders[k], **info)
            check({g: float(x) for g, x in v.items()} == lab.v, 'the simulated voltages are not the present ones', got=v, expected=lab.v, **info)
            ctx.count('measured')
        holds(lab, exp.read_gate_voltages(), info)
        ctx.count('reads')
        check(lab.initial.equals(kept), 'the initial voltages of the caller were changed', **info)
    return tuple(ops)


def evaluators(rng, ctx, lab):
    exp = lab.exp
    done = []
    wrap = lambda e: AveragingEvaluator(e, 2) if rng.random() < .2 else e

    def close(values, name, want, tol):
        check(abs(float(values[name]) - want) <= tol, 'an evaluator does not find the parameter of the simulation', parameter=name, got=float(values[name]),
              expected=float(want), voltages=dict(lab.v))
        done.append(name)
    for what in gen.pick(rng, ['load', 'coupling', 'transitions', 'sensing'], int(rng.integers(1, 5))):
        options = {k: copy.deepcopy(m.options) for k, m in lab.scans.items()}
        if what == 'load':
            if lab.load_time > 250.:
                continue
            close(wrap(NewLoadTime(exp, measurements=(lab.scans['load'],))).evaluate()[0], 'parameter_time_load', lab.load_time, .01 * lab.load_time)
        elif what == 'coupling':
            if lab.coupling > 4e-4:
                continue
            close(wrap(InterDotTCByLineScan(exp, measurements=(lab.scans['detune'],))).evaluate()[0], 'parameter_tunnel_coupling', lab.coupling, .03 * lab.coupling)
        elif what == 'transitions':
            for g in 'AB':
                s = 'RF' + g
                e = LeadTransition(exp, shifting_gates=('RFB' if g == 'A' else 'RFA',), sweeping_gates=(s,), measurements=(lab.scans['rf' + g.lower()],),
                                   parameters=('position_' + ('RFB' if g == 'A' else 'RFA'),))
                if abs(lab.transition(g)) < 3e-3:
                    close(wrap(e).evaluate()[0], 'position_' + ('RFB' if g == 'A' else 'RFA'), lab.transition(g), 2.5e-4)
        else:
            values, _ = SensingDot1D(exp, measurements=(lab.scans['ss1d'],), parameters=('position_SDB2', 'current_signal', 'optimal_signal')).evaluate()
            # the flank of a peak at 0 with a width of sqrt(2e-6) on the axis of SDB2
            height = (1. + 1e3 * lab.v['SDB1']) * (1. + lab.v['SDB1'] - lab.v['N'])
            if abs(lab.v['SDB2']) < 1.5e-3 and abs(height) > 1e-3:
                close(values, 'position_SDB2', -np.sign(height) * np.sqrt(2e-6), 4e-4)
            lab.scans['ss1d'].options.update(options['ss1d'])
            values, _ = SensingDot2D(exp, measurements=(lab.scans['ss2d'],), sweeping_gates=('SDB1', 'SDB2')).evaluate()
            check(all(np.isfinite(values)), 'two dimensional scan', values=dict(values))
            lab.scans['ss2d'].options.update(options['ss2d'])
        check(all(m.options == options[k] for k, m in lab.scans.items()), 'evaluating changed the options of the scans')
        holds(lab, exp.read_gate_voltages(), {}, 'voltages after an evaluation')
        ctx.count(what)
    return tuple(done)


def tune(rng, ctx, lab):
    """load time and one lead transition towards reachable targets"""
    exp = lab.exp
    v = exp.read_gate_voltages()
    goal_load, goal_pos = 15. + float(np.exp(rng.uniform(1., 3.5))), float(rng.uniform(-2e-3, 2e-3))
    if lab.load_time > 120. or abs(lab.transition('A')) > 2.6e-3:
        return None
    f = pd.Series(dict(position_RFB=1e-3, parameter_time_load=10.))

    def tuner(evaluators, name, gates, desired, tol):
        target = make_target(desired=pd.Series({name: desired / f[name]}), tolerance=pd.Series({name: tol / f[name]}), rescaling_factor=f[[name]])
        est = FiniteDifferencesGradientEstimator(current_position=v[gates].copy(), epsilon=.02 if name != 'position_RFB' else .2, symmetric=bool(rng.random() < .5))
        return SubsetTuner(evaluators, gates, maximal_step_size=.4, solver=NewtonSolver(target, [est], current_position=v[gates].copy()))
    low = tuner([LeadTransition(exp, shifting_gates=('RFB',), sweeping_gates=('RFA',), measurements=(lab.scans['rfa'],), parameters=('position_RFB',))],
                'position_RFB', ['BA'], goal_pos, 3e-4)
    high = tuner([NewLoadTime(exp, measurements=(lab.scans['load'],))], 'parameter_time_load', ['T'], goal_load, .2 * (goal_load - 15.) + .3)
    auto = Autotuner(exp, [low, high] if rng.random() < .5 else [high, low])
    n = 0
    while not auto.is_tuning_complete():
        check(n < 400, 'the simulated dot can not be tuned', voltages=dict(exp.read_gate_voltages()), load=goal_load, position=goal_pos)
        auto.iterate()
        n += 1
    lab.v = {g: float(x) for g, x in exp.read_gate_voltages().items()}
    check(abs(lab.load_time - goal_load) <= .2 * (goal_load - 15.) + .3 + .01 * goal_load and abs(lab.transition('A') - goal_pos) <= 3e-4 + 2.5e-4,
          'the tuned simulated dot misses its targets', load=(lab.load_time, goal_load), position=(lab.transition('A'), goal_pos))
    ctx.count('tuned')
    return n


def case(rng, ctx, index):
    warnings.simplefilter('ignore')
    lab = Lab(rng)
    ops = operations(rng, ctx, lab)
    found = evaluators(rng, ctx, lab)
    n = tune(rng, ctx, lab) if rng.random() < .35 else None
    if rng.random() < .3:
        unknown = Measurement('load_scan')
        try:
            basic_dqd.TestExperiment(initial_voltages=lab.initial, measurements=(unknown,), simulator_dict={id(lab.scans['load']): None})
        except RuntimeError:
            pass
        else:
            check(False, 'a measurement without simulator is accepted')
    ctx.distinct(ops, found, n)
    ctx.sample(operations=ops, evaluated=found)
