"""C03: verdict, rescaled values and list of tuned voltages of the subset tuner against the definition."""
import numpy as np
import pandas as pd

from qtune.gradient import KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target

from qv.core import check
from qv import gen
from qv.sim import SimExperiment
from qv.stubs import ScriptedEvaluator, same

PROPERTY = 'C03'
N = dict(quick=2400, thorough=80000)
RULE = ('random targets (NaN patterns, rescaling), evaluator partitions and label orders; 4-10 evaluations with values inside, outside '
        'and at the edge of the tolerance; non-trivial: distinct (pattern of targets, pattern of inside/outside/edge) per evaluation')
REQUIRED = dict(evaluations=3., tuned=.3, not_tuned=1., edge_values=1.)


def case(rng, ctx, index):
    n = gen.size(rng, 1, 6, 13)
    ps = gen.pick(rng, gen.PAR_NAMES, n)
    n_g = n + int(rng.integers(0, 2))
    gates = gen.pick(rng, gen.GATE_NAMES, n_g)
    foreign = [g for g in gen.GATE_NAMES if g not in gates][:int(rng.integers(0, 3))]
    exp = SimExperiment({g: 0. for g in gates + foreign})
    exact = rng.random() < .5      # all quantities powers of two: the edge is represented exactly
    rows = gen.pick(rng, ps, n)
    if exact:
        f = {p: float(2. ** rng.integers(-4, 5)) for p in ps}
        desired = {p: float(rng.integers(-8, 9)) / 4 for p in ps}
        tol = {p: float(2. ** rng.integers(-4, 2)) for p in ps}
    else:
        f = {p: float(rng.uniform(.1, 9.)) if rng.random() < .7 else 1. for p in ps}
        desired = {p: float(rng.normal() * 3) for p in ps}
        tol = {p: float(rng.uniform(.01, 2.)) for p in ps}
    free = set()
    for p in ps:
        r = rng.random()
        if r < .2 and n > 1:
            desired[p] = np.nan
            free.add(p)
            if rng.random() < .5:
                tol[p] = np.nan
        elif r < .27 and n > 1:
            tol[p] = np.nan
            free.add(p)
    if len(free) == n:
        p = ps[0]
        free.discard(p)
        desired[p], tol[p] = 1., .5
    s = lambda d: pd.Series({p: d[p] for p in rows})
    kw = {}
    if rng.random() < .8 or any(x != 1. for x in f.values()):
        kw['rescaling_factor'] = s(f)
    target = make_target(desired=s(desired), tolerance=s(tol), **kw)
    ests = [KalmanGradientEstimator(KalmanGradient(n_g, 1, initial_gradient=rng.normal(size=n_g)),
                                    pd.Series(0., index=gates), maximum_covariance=np.inf, epsilon=.1) for _ in rows]
    solver = NewtonSolver(target, ests, pd.Series(0., index=gen.pick(rng, gates, n_g)))
    state = {}

    def source(ev):
        return (pd.Series({p: state['raw'][p] for p in gen.pick(rng, list(ev.parameters), len(ev.parameters))}),
                pd.Series({p: state['var'][p] for p in gen.pick(rng, list(ev.parameters), len(ev.parameters))}))
    order = gen.pick(rng, ps, n)
    k = int(rng.integers(1, n + 1))
    groups = [g for g in (order[:k], order[k:]) if g]
    extra = rng.random() < .2
    if extra:
        groups.append(['unrelated'])
    evs = [ScriptedEvaluator(exp, tuple(g), name='e%d' % i, source=source) for i, g in enumerate(groups)]
    tuner = SubsetTuner(evs, gates, solver=solver)
    tuned_at = []
    prev_tuned = [x.copy() for x in tuner.tuned_voltages]
    for step in range(int(rng.integers(4, 11))):
        raw, cls = {'unrelated': float(rng.normal())}, []
        mode = rng.random()
        for p in rows:
            d = desired[p] if desired[p] == desired[p] else float(rng.normal())
            t = tol[p] if tol[p] == tol[p] else 1.
            q = rng.random()
            sign = float(gen.choice(rng, [-1., 1.]))
            if mode < .4:
                q = .3 * q      # everything inside
            elif mode < .6 and p != rows[step % n]:
                q = .3 * q      # one parameter decides
            if q < .3:
                x, c = d + sign * t * float(rng.uniform(0, .99)), 'i'
            elif q < .5:
                x, c = d + sign * t * float(rng.uniform(1.01, 5)), 'o'
            elif exact and q < .65:
                x, c = d + sign * t, 'E'          # exactly at the tolerance: not closer than the tolerance
            else:
                inside = rng.random() < .5
                x, c = d + sign * t * (1 - 1e-6 if inside else 1 + 1e-6), 'b' if inside else 'B'
            if c in 'EbB':
                ctx.count('edge_values')
            if desired[p] != desired[p] and rng.random() < .25:
                x = np.nan      # a failing parameter without desired value is irrelevant
                ctx.count('irrelevant_nan')
            raw[p] = x * f[p]
            cls.append('-' if p in free else c)
        state['raw'] = raw
        state['var'] = {p: float(rng.uniform(1e-6, 1.)) for p in raw}
        v = pd.Series({g: float(rng.normal()) for g in gen.pick(rng, gates + foreign, n_g + len(foreign))})
        calls = [e.calls for e in evs]
        verdict = tuner.is_tuned(v.copy())
        ctx.count('evaluations')
        check([e.calls for e in evs] == [c + 1 for c in calls], 'each evaluator must be evaluated once')
        want = all(c in 'ib-' for c in cls)
        ctx.count('tuned' if want else 'not_tuned')
        info = dict(target=target, raw=raw, factors=f, classes=''.join(cls), verdict=bool(verdict))
        check(bool(verdict) == want, 'verdict is %s' % bool(verdict), **info)
        vals, vars_ = tuner.last_parameters_and_variances
        need = [p for p in rows if p not in free]
        check(set(need) <= set(vals.index) and set(need) <= set(vars_.index), 'last values are incomplete', **info)
        for p in [p for p in vals.index if raw[p] == raw[p]]:
            check(abs(vals[p] - raw[p] / f[p]) <= 1e-12 * max(1., abs(vals[p])), 'last value of %s' % p, got=vals[p], **info)
            check(abs(vars_[p] - state['var'][p] / f[p] ** 2) <= 1e-12 * max(1., vars_[p]),
                  'last variance of %s' % p, got=vars_[p], **info)
        if want:
            tuned_at.append(v)
        got = tuner.tuned_voltages
        check(len(got) == len(tuned_at) and all(same(a, b) for a, b in zip(got, tuned_at)),
              'tuned voltages do not list the voltages at which the tuner was tuned', got=list(got), expected=tuned_at, **info)
        ctx.distinct(tuple(sorted(cls)), n, verdict, len(evs))
    ctx.sample(parameters=rows, desired=desired, tolerance=tol, factors=f, last_classes=''.join(cls), verdict=bool(verdict))
