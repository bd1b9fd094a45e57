"""C05: step limit, direction, own gates and slicing of the subset tuner; scripted suggestions and full tuning runs."""
import numpy as np
import pandas as pd

from qtune.parameter_tuner import SubsetTuner
from qtune.solver import make_target

from qv.core import check
from qv import gen
from qv.checks import c01
from qv.sim import SimExperiment
from qv.stubs import ScriptedEvaluator, ScriptedSolver

PROPERTY = 'C05'
N = dict(quick=900, thorough=50000)
RULE = ('scripted solver suggestions (any gates, any length, changing during slicing) and real tuning runs; every suggested voltage '
        'and every measurement is checked against the limits; non-trivial: distinct (slices used, allowed, relation of step to limit)')
REQUIRED = dict(short_steps=1., long_steps=.5, slices_without_evaluation=.3, evaluations=1., foreign_suggestions=.1)


class Monitor:
    """online checker of one subset tuner"""

    def __init__(self, tuner, gates, limit, number, ctx, info=None):
        self.t, self.gates, self.limit, self.number, self.ctx = tuner, set(gates), limit, number, ctx
        self.unevaluated = 0     # visits without evaluation since the last one
        self.planned = 0         # slices still to do, None: unknown
        self.suggestion = None
        self.last = None
        self.failed = False
        self.info = info or {}
        suggest = tuner.solver.suggest_next_position

        def w(*a, **k):
            r = suggest(*a, **k)
            self.suggestion = r.copy()
            return r
        tuner.solver.suggest_next_position = w

    def visited(self, voltages, evaluated, verdict):
        self.last = voltages
        if evaluated:
            self.ctx.count('evaluations')
            check(self.planned == 0, 'parameters measured between the slices of a step', remaining=self.planned, **self.info)
            self.unevaluated = 0
        else:
            self.ctx.count('slices_without_evaluation')
            self.unevaluated += 1
            check(not verdict, 'reported as tuned without evaluation', **self.info)
            check(self.unevaluated <= self.number - 1, 'more slices than the maximal step number without evaluation',
                  count=self.unevaluated, allowed=self.number, **self.info)
            check(self.planned > 0, 'no evaluation although the step was completed', **self.info)

    def suggested(self, new):
        if self.suggestion is None:
            return              # bisection of a failed evaluation, see C04
        s, self.suggestion = self.suggestion, None
        last = self.last
        check(set(new.index) == set(last.index), 'gates appeared or disappeared', new=new, last=last, **self.info)
        new = new[last.index]
        own = [g for g in last.index if g in self.gates and g in s.index]
        if any(g not in self.gates for g in s.index):
            self.ctx.count('foreign_suggestions')
        step = pd.Series(0., index=last.index)
        step[own] = s[own] - last[own]
        moved = new - last
        foreign = [g for g in last.index if g not in self.gates]
        info = dict(last=last, suggestion=s, new=new, own_gates=sorted(self.gates), limit=self.limit, number=self.number, **self.info)
        check((moved[foreign] == 0).all(), 'a gate of another tuner was moved', **info)
        norm, got = float(np.linalg.norm(step)), float(np.linalg.norm(moved))
        eps = 1e-12 * max(1., float(last.abs().max()), norm)
        if self.limit == self.limit:
            check(got <= self.limit + eps, 'step is longer than the maximal step size', got=got, **info)
        if not self.limit == self.limit or norm <= self.limit:
            check(float(np.linalg.norm(moved - step)) <= eps, 'a suggestion within the maximal step size must be followed exactly', **info)
            self.planned = 0
            self.ctx.count('short_steps')
            self.ctx.distinct('short', self.unevaluated, self.number)
        else:
            check(float(np.linalg.norm(moved - step * (self.limit / norm))) <= eps,
                  'slice is not the maximal step towards the suggested position', **info)
            if self.planned == 0:
                ratio = norm / self.limit
                self.planned = min(int(ratio), self.number)
                if abs(ratio - round(ratio)) < 1e-9:
                    self.planned = max(1, self.planned)
            self.planned -= 1
            self.ctx.count('long_steps')
            self.ctx.distinct('long', self.unevaluated, self.number, min(self.planned, 9))


def scripted(rng, ctx):
    n = gen.size(rng, 1, 5, 13)
    gates = gen.pick(rng, gen.GATE_NAMES, n)
    foreign = [g for g in gen.GATE_NAMES if g not in gates][:int(rng.integers(0, 4))]
    allg = gen.pick(rng, gates + foreign, n + len(foreign))
    exp = SimExperiment({g: 0. for g in allg})
    limit = float(gen.choice(rng, [np.nan, .01, .5, 1., 4.]))
    number = int(rng.integers(1, 7))
    target = make_target(desired=pd.Series([0.], index=['p']), tolerance=pd.Series([.1], index=['p']))
    solver = ScriptedSolver(target, pd.Series(0., index=gen.pick(rng, gates, n)))
    state = dict(v=None)
    ev = ScriptedEvaluator(exp, ('p',), source=lambda e: (pd.Series([state['p']], index=['p']), pd.Series([.1], index=['p'])))
    tuner = SubsetTuner([ev], gates, solver=solver, maximal_step_size=limit, maximal_step_number=number)
    lim = limit if limit == limit else 1.
    scale = float(gen.choice(rng, [.3, 1.5, 3., 10., 100.])) * lim

    def suggest(tuned):
        k = int(rng.integers(1, len(allg) + 1)) if rng.random() < .5 else len(allg)
        gs = gen.pick(rng, allg, k)
        if rng.random() < .5:
            gs = gen.pick(rng, gates, n)
        d = rng.normal(size=len(gs))
        d *= scale * float(rng.uniform(.2, 1.5)) / max(1e-12, np.linalg.norm(d))
        if rng.random() < .1:
            d *= 0
        elif rng.random() < .15:
            d[rng.random(len(d)) < .6] *= 1e-8      # tiny steps of some gates are steps as well
        elif rng.random() < .05:
            d *= 1e-7
        return pd.Series(state['v'][gs].values + d, index=gs)
    solver.suggest = suggest
    mon = Monitor(tuner, gates, limit, number, ctx)
    v = pd.Series(rng.normal(size=len(allg)), index=allg)
    for it in range(int(rng.integers(8, 30))):
        state['p'] = float(gen.choice(rng, [0., 1., 5.]))
        state['v'] = v
        before = ev.calls
        given = v.copy()
        r = tuner.is_tuned(given)
        check(given.equals(v), 'the voltages passed were modified')
        mon.visited(v.copy(), ev.calls > before, bool(r))
        if r and rng.random() < .7:
            # another tuner moves on
            v = v + pd.Series(rng.normal(size=len(allg)) * .1, index=allg)
            continue
        new = tuner.get_next_voltages(gen.choice(rng, [None, set(), {'x'}]))
        mon.suggested(new.copy())
        v = new[v.index].copy()
        if rng.random() < .2:
            v += rng.normal(size=len(v)) * 1e-3       # imprecise gates
    return dict(limit=limit, number=number, gates=gates, foreign=foreign)


def case(rng, ctx, index):
    if index % 3:
        ctx.sample(**scripted(rng, ctx))
        return
    spec = gen.random_spec(rng, max_tuners=2, curvature=float(gen.choice(rng, [0., .02])), spread=4.)
    for t in spec['tuners']:
        if t['kind'] == 'subset' and t['step'] != t['step'] and rng.random() < .7:
            t['step'], t['number'] = float(gen.choice(rng, [.05, .2, .7])), int(rng.integers(1, 7))
    pr = gen.build(spec)
    good = pr.lab
    if rng.random() < .3:
        bad = set(int(x) for x in rng.integers(8, 40, size=4))
        good.nan = lambda i, v, p: i in bad and p != 'current_signal' and not p.startswith('position_')
    mons = []
    for i, t in enumerate(spec['tuners']):
        if t['kind'] != 'subset':
            mons.append(None)
            continue
        m = Monitor(pr.tuners[i], t['gates'], t['step'], t['number'], ctx, dict(tuner=i))
        mons.append(m)
    events = []
    for i, t in enumerate(pr.tuners):
        c01.instrument(t, i, events)
    for it in range(120):
        if pr.autotuner.is_tuning_complete() or pr.exp.true_voltages.abs().max() > 1e4:
            break
        del events[:]
        n = pr.lab.calls
        try:
            pr.autotuner.iterate()
        except Exception:
            if any(x != x for _, _, d in pr.lab.log for x in d.values()):
                break           # failing evaluation before any successful one, see C04
            raise
        for e in events:
            m = mons[e[1]]
            if m is None:
                continue
            if e[0] == 'eval':
                m.visited(e[2], pr.lab.calls > n, e[3])
            else:
                m.suggested(e[3])
    ctx.sample(setup=gen.summary(spec), iterations=it)
