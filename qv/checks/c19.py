"""C19: gate voltages before, during and after evaluations with injected faults; oracle over the experiment trace."""
import numpy as np
import pandas as pd

from qtune.evaluator import (AveragingEvaluator, InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan, LeadTunnelTimePrefitVersion,
                             NewLoadTime, SensingDot1D, SensingDot2D)
from qtune.experiment import Measurement

from qv.core import check
from qv import gen
from qv.sim import InjectedFault, SimExperiment

PROPERTY = 'C19'
N = dict(quick=3000, thorough=150000)
RULE = ('every evaluator (plain and averaged) on an experiment with up to 8 gates in random order, optionally with a voltage grid; 1-4 evaluations each, in which a random '
        'measurement or voltage change fails (hardware error, operator interrupt) or returns unusable data; non-trivial: distinct (evaluator, '
        'averaged, fault kind, position of the fault, number of shifted gates)')
REQUIRED = dict(evaluations=.9, faults_raised=.2, displaced_scans=.3, unusable_data=.03, averaged=.1)

ALL = ['RFA', 'RFB', 'SDB1', 'SDB2', 'A', 'B', 'N', 'T', 'RF', 'SD']


class Interrupt(KeyboardInterrupt):
    pass


def respond(v, m):
    o = m.options
    if m.name == 'line_scan':
        x = np.linspace(o['center'] - o['range'], o['center'] + o['range'], o['N_points'])
        return np.tanh((x - o['center']) / 3e-5) if not o['gate'].startswith('SD') else np.exp(-((x - o['center']) / 2e-3) ** 2)
    if m.name == 'detune_scan':
        x = np.linspace(-2e-3, 2e-3, o['N_points'])
        return np.tanh(x / 2e-4)
    if m.name == 'load_scan':
        x = np.arange(0., 500., 5.)
        return np.stack([np.exp(-x / 30.), x])
    if m.name == '2d_scan':
        return np.exp(-np.linspace(-2, 2, o['n_lines'])[:, None] ** 2 - np.linspace(-2, 2, o['n_points'])[None] ** 2)
    if m.name == 'lead_scan':
        x = np.arange(400) / 1e8
        y = np.where((x > 70e-9) & (x < 2070e-9), 1 - np.exp(-np.clip(x - 70e-9, 0, None) / 5e-8), np.exp(-np.clip(x - 2070e-9, 0, None) / 5e-8))
        return np.stack([np.zeros(400), y])
    raise KeyError(m.name)


def make(rng, exp, gates):
    kind = gen.choice(rng, ['lead', 'lead', 'lead', 'lead', 'tc', 'load', 'prefit', 'sd1', 'sd2'])
    expected = []
    if kind == 'lead':
        n = int(rng.integers(1, 4))
        free = [g for g in gates if not g.startswith('SD')]
        n = min(n, len(free))
        default = {'RFA', 'RFB'} <= set(gates) and rng.random() < .3
        if default:
            e, shift, sweep, w = LeadTransition(exp), ['RFB', 'RFA'], ['RFA', 'RFB'], 4e-3
        else:
            shift, sweep = gen.pick(rng, free, n), gen.pick(rng, free, n)
            w = float(np.round(gen.choice(rng, [4e-3, -2e-3, rng.uniform(1e-3, 9e-3)]), 6))
            ms = None if rng.random() < .5 else [Measurement('line_scan', center=0., range=4e-3, gate=g, N_points=320) for g in sweep]
            e = LeadTransition(exp, shifting_gates=tuple(shift), sweeping_gates=tuple(sweep), charge_diagram_width=w, measurements=ms,
                               parameters=tuple('position_' + g for g in shift))
        expected = [(g, {s: -w}) for g, s in zip(sweep, shift)]
    elif kind == 'tc':
        e, expected = InterDotTCByLineScan(exp), [(None, {})]
    elif kind == 'load':
        e, expected = NewLoadTime(exp), [(None, {})]
    elif kind == 'prefit':
        e, expected = LeadTunnelTimePrefitVersion(exp), [(None, {})]
    elif kind == 'sd1':
        g = gen.choice(rng, [g for g in gates if g.startswith('SD')])
        e = SensingDot1D(exp, sweeping_gate=g, parameters=('position_' + g, 'current_signal', 'optimal_signal'), measurements=(Measurement(
            'line_scan', center=None, range=4e-3, gate=g, N_points=160),))
        expected = [(g, {})]
    else:
        g = gen.pick(rng, [g for g in gates if g.startswith('SD')], 2)
        e = SensingDot2D(exp, sweeping_gates=tuple(g), scan_range=4e-3, parameters=tuple('position_' + x for x in g))
        expected = [(None, {})]
    return kind, e, expected


def case(rng, ctx, index):
    gates = gen.pick(rng, ALL, int(rng.integers(5, len(ALL) + 1)))
    for g in ('SDB1', 'SD'):
        if g not in gates:
            gates.append(g)
    grid = float(gen.choice(rng, [0., 0., 1e-6]))
    q = (lambda x: float(np.round(x / grid) * grid)) if grid else (lambda x: float(x))
    v0 = {g: q(rng.normal() * .3) for g in gates}
    exp = SimExperiment(v0, respond, actuator=(lambda g, x: q(x)) if grid else None, sort_read=bool(rng.random() < .5))
    kind, e, expected = make(rng, exp, gates)
    averaged = 1
    if rng.random() < .3:
        averaged = int(rng.integers(1, 4))
        e = AveragingEvaluator(e, averaged)
        ctx.count('averaged')
    plan = expected * averaged
    for rep in range(int(rng.integers(1, 5))):
        if rng.random() < .3:      # tuned in between
            exp.force(pd.Series({g: q(rng.normal() * .3) for g in gen.pick(rng, gates, 2)}))
        before = exp.true_voltages
        n = len(exp.trace)
        fault = gen.choice(rng, [None, 'error', 'runtime', 'interrupt', 'data', 'set'])
        where = int(rng.integers(0, len(plan)))
        count = dict(measure=0, set=0)

        def hook(what, payload):
            if what == 'set' and all(abs(payload[g] - before[g]) < 1e-9 for g in payload.index):
                return      # restoring can not be demanded of hardware that refuses it: only displacements fail
            i = count[what]
            count[what] += 1
            if what == 'measure' and i == where:
                if fault == 'error':
                    raise InjectedFault()
                if fault == 'runtime':
                    raise RuntimeError('measurement failed')
                if fault == 'interrupt':
                    raise Interrupt()
            if what == 'set' and fault == 'set' and i == where:
                raise InjectedFault()
        exp.fault = hook
        exp.response = respond if fault != 'data' else (
            lambda v, m: respond(v, m) if count['measure'] - 1 != where else gen.choice(rng, [None, np.zeros((2, 2, 2)), np.array(1.), 'x']))
        info = dict(evaluator=kind, averaged=averaged, fault=fault, at=where, voltages=before, evaluation=rep)
        raised = None
        try:
            e.evaluate()
        except (Exception, Interrupt) as err:
            raised = type(err).__name__
        exp.fault = None
        exp.response = respond
        after = exp.true_voltages
        check(bool((abs(after - before) <= 1e-12).all()), 'the evaluation left the gate voltages changed',
              changed={g: (before[g], after[g]) for g in gates if abs(after[g] - before[g]) > 1e-12}, raised=raised, **info)
        scans = [ev for ev in exp.trace[n:] if ev[0] == 'measure']
        check(len(scans) <= len(plan), 'too many scans', scans=len(scans), expected=len(plan), **info)
        if raised is None and fault in (None, 'data'):
            check(len(scans) == len(plan), 'number of scans', scans=len(scans), expected=len(plan), **info)
        if fault is None:
            check(raised is None, 'evaluation of proper data failed', raised=raised, **info)
        for ev, (gate, disp) in zip(scans, plan):
            _, name, options, v = ev
            if gate is not None:
                check(options['gate'] == gate, 'scans are not measured in their order', got=options['gate'], expected=gate, **info)
            for g in gates:
                want = q(before[g] + disp.get(g, 0.))
                check(abs(v[g] - want) <= 1e-12, 'scan measured at other voltages than specified', gate=g,
                      got=v[g], expected=want, shifted=disp, **info)
            ctx.count('displaced_scans', bool(disp))
        ctx.count('evaluations')
        ctx.count('faults_raised', raised is not None)
        ctx.count('unusable_data', fault == 'data')
        ctx.distinct(kind, averaged, fault, where, len(expected))
    ctx.sample(evaluator=kind, averaged=averaged, gates=gates)
