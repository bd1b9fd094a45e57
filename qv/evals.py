"""store and reload of the real evaluators with options of their own"""
import os

import numpy as np
import pandas as pd

from qtune.evaluator import (AveragingEvaluator, InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan,
                             LeadTunnelTimePrefitVersion, NewLoadTime, SensingDot1D, SensingDot2D)
from qtune.experiment import Measurement
from qtune.storage import from_hdf5, to_hdf5

from qv.core import check
from qv import dqd, gen, snap
from qv.sim import SimExperiment

OPTIONS = ['sample_rate', 'evaluation_arguments', 'initial_curvature', 'intermediate_fit_arguments', 'initial_fit_arguments', 'fit_results',
           'transition_width', 'n_measurement_repetitions', 'current_signal', 'optimal_signal', 'optimal_position', 'transition_positions']


class Dot(dqd.Dot):
    def __call__(self, v, m):
        if m.name != 'lead_scan':
            return super().__call__(v, m)
        from qv.checks.c18 import lead_times
        i = self.calls
        self.calls += 1
        self.log.append((i, m.name, dict(m.options), v))
        x = np.arange(400) / 1e8
        y = lead_times(x, 1., self.value('t_fall', v), self.value('t_rise', v), 70e-9, 2070e-9, .1)
        rng = np.random.default_rng([self.seed, i])
        if self.fail is not None and self.fail(i, v, m.name):
            y = rng.normal(size=400) * 1e9 * (np.arange(400) % 7 == 0)
        ref = .3 + .1 * rng.normal(size=400)
        return np.stack([ref, ref + y + self.noise * rng.normal(size=400)])


def make(rng, exp, dot):
    kind = gen.choice(rng, ['LeadTransition', 'InterDotTCByLineScan', 'NewLoadTime', 'SensingDot1D', 'SensingDot2D', 'LeadTunnelTimePrefitVersion',
                            'LeadTunnelTimeByLeadScan'], [.2, .15, .15, .15, .15, .15, .05])
    own = rng.random() < .7
    kw = {}
    if own and rng.random() < .5:
        kw['name'] = gen.choice(rng, ['my evaluator', 'e1', 'LoadTime 2'])
    if kind == 'LeadTransition':
        if own:
            gates = gen.choice(rng, [('RFA', 'RFB'), ('RFB', 'RFA'), ('RFA',)])
            kw.update(sweeping_gates=gates, shifting_gates=gen.choice(rng, [('RFB', 'RFA'), ('A', 'B')])[:len(gates)], charge_diagram_width=float(rng.uniform(1e-3, 6e-3)),
                      transition_width=float(rng.uniform(1e-4, 4e-4)), parameters=tuple('position_' + g for g in gates))
            if rng.random() < .5:
                kw['measurements'] = [Measurement('line_scan', center=0., range=float(rng.uniform(3e-3, 5e-3)), gate=g, N_points=int(rng.integers(150, 400)),
                                                  ramptime=.001, N_average=7, AWGorDecaDAC='DecaDAC') for g in gates]
        return LeadTransition(exp, **kw)
    if kind == 'InterDotTCByLineScan':
        if own:
            kw['measurements'] = (Measurement('detune_scan', center=0., range=2.5e-3, N_points=int(rng.integers(80, 140)), ramptime=.02, N_average=5,
                                              AWGorDecaDAC='AWG'),)
        return InterDotTCByLineScan(exp, **kw)
    if kind == 'NewLoadTime':
        if own:
            kw['initial_curvature'] = float(rng.uniform(10, 60))
        return NewLoadTime(exp, **kw)
    if kind == 'SensingDot1D':
        if own:
            kw.update(sweeping_gate=gen.choice(rng, ['SDB1', 'SDB2']))
            kw['parameters'] = ('position_' + kw['sweeping_gate'], 'current_signal', 'optimal_signal')
            kw['rising_flank'] = gen.choice(rng, [None, True, False])
        dot.lines = 1
        return SensingDot1D(exp, **kw)
    if kind == 'SensingDot2D':
        if own:
            kw.update(scan_range=float(rng.uniform(2e-3, 6e-3)), rising_flank=gen.choice(rng, [None, True, False]))
            if rng.random() < .3:
                kw.update(sweeping_gates=('SDB2', 'SDB1'))
                kw['parameters'] = ('position_SDB2', 'position_SDB1')
        dot.lines = 1
        return SensingDot2D(exp, **kw)
    if own:
        kw['sample_rate'] = 1e8
        kw['evaluation_arguments'] = dict(t_fall=float(rng.uniform(40e-9, 90e-9)), t_rise=float(rng.uniform(40e-9, 90e-9)), begin_rise=70e-9, begin_fall=2070e-9)
    return dict(LeadTunnelTimePrefitVersion=LeadTunnelTimePrefitVersion, LeadTunnelTimeByLeadScan=LeadTunnelTimeByLeadScan)[kind](exp, **kw)


def options(e):
    out = {}
    for name in OPTIONS:
        try:
            out[name] = snap.copy_(getattr(e, name))
        except AttributeError:
            continue
        if isinstance(out[name], dict):
            out[name] = dict(out[name])
    if isinstance(e, AveragingEvaluator):
        out['inner'] = options(e.to_hdf5()['evaluator'])
    return out


def evaluate(e, exp):
    n = len(exp.trace)
    error = None
    try:
        values, variances = e.evaluate()
    except Exception as x:
        error, values, variances = type(x).__name__, None, None
    ev = [('set', t[1]) if t[0] == 'set' else t for t in exp.trace[n:] if t[0] != 'read']
    if values is not None:
        values, variances = values.sort_index(), variances.sort_index()
    return dict(error=error, values=values, variances=variances, events=[tuple(t) for t in ev], state=snap.evaluator(e), options=options(e))


def round_trip(rng, ctx):
    import matplotlib.pyplot as plt
    dot = Dot(rng, float(gen.choice(rng, [0., 1e-5])))
    v0 = {g: float(np.round(rng.normal() * 5e-4, 6)) for g in dqd.GATES}
    exp = SimExperiment(v0, dot)
    bad = {int(i) for i in rng.integers(0, 8, int(rng.integers(0, 3)))}
    dot.fail = lambda i, v, m: i in bad
    e = make(rng, exp, dot)
    if rng.random() < .3:
        e = AveragingEvaluator(e, int(rng.integers(1, 4)))
    info = dict(evaluator=type(e).__name__, inner=type(getattr(e, '_evaluator', e)).__name__)
    before = int(rng.integers(0, 3))
    for _ in range(before):
        evaluate(e, exp)
        exp.force(pd.Series({g: v0[g] + float(rng.normal() * 2e-4) for g in dqd.GATES}))
    info['evaluations_before'] = before
    path = os.path.join(ctx.tmpdir(), 'evaluator.hdf5')
    to_hdf5(path, 'evaluator', e, reserved={'experiment': exp})
    copy = SimExperiment(exp.true_voltages, None)
    twin = object.__new__(Dot)
    twin.__dict__.update(dot.__dict__)
    twin.log = []
    copy.response = twin
    r = from_hdf5(path, {'experiment': copy})['evaluator']
    check(type(r) is type(e), 'kind of the reloaded evaluator', got=type(r).__name__, **info)
    d = snap.diff(dict(state=snap.evaluator(e), options=options(e)), dict(state=snap.evaluator(r), options=options(r)))
    check(d is None, 'reloaded evaluator differs from the stored one', difference=d, **info)
    for k in range(int(rng.integers(1, 4))):
        v = pd.Series({g: v0[g] + float(rng.normal() * 2e-4) for g in dqd.GATES})
        for x in (exp, copy):
            x.force(v)
        d = snap.diff(evaluate(e, exp), evaluate(r, copy), 1e-10)
        check(d is None, 'reloaded evaluator evaluates differently (original / reloaded)', difference=d, evaluation=k, **info)
        ctx.count('evaluator_evaluations')
    plt.close('all')
    ctx.count('evaluator_reloads')
    ctx.distinct('evaluator', info['evaluator'], info['inner'], before, tuple(sorted(options(e))))
