"""C11: the same tuning problem in two systems of units (metamorphic comparison of the traces), rescaling round trips."""
import numpy as np
import pandas as pd

from qtune.solver import ForwardingSolver, NewtonSolver, make_target

from qv.core import Ctx, Violation, check
from qv import gen
from qv.checks import c01
from qv.stubs import same

PROPERTY = 'C11'
N = dict(quick=500, thorough=25000)
RULE = ('random tuning problems built twice, in original and in random units (powers of two: exact equality; arbitrary factors: rounding '
        'tolerance), iterated side by side up to 70 iterations; non-trivial: distinct (setup, units exact or not, action string)')
REQUIRED = dict(iterations=10., sets=2., evaluations=2., roundtrips=.9, completed=.1, failures=.1)


def roundtrip(rng, ctx):
    ps = gen.pick(rng, gen.PAR_NAMES, int(rng.integers(1, 6)))
    foreign = [p for p in gen.PAR_NAMES if p not in ps][:2]
    f = {p: float(10. ** rng.uniform(-6, 6)) for p in ps}
    with_f = rng.random() < .8
    kw = dict(rescaling_factor=pd.Series({p: f[p] for p in gen.pick(rng, ps, len(ps))})) if with_f else {}
    for name in ('desired', 'tolerance', 'minimum', 'maximum', 'cost_threshold'):    # incomplete targets are rescaled as well
        if rng.random() < .5:
            kw[name] = pd.Series({p: float(rng.normal()) if rng.random() < .6 else np.nan for p in ps})
    if not set(kw) - {'rescaling_factor', 'cost_threshold'}:
        kw['desired'] = pd.Series({p: 1. for p in ps})
    target = make_target(**kw)
    if rng.random() < .3:
        target = target.loc[gen.pick(rng, ps, len(ps))]
    if not with_f:
        f = {p: 1. for p in ps}
    solver = ForwardingSolver(target, pd.Series({ps[0]: 'A'}), pd.Series({'A': 0.}))
    use = gen.pick(rng, ps + foreign, int(rng.integers(1, len(ps) + 3)))
    val = pd.Series({p: float(rng.normal() * 10. ** rng.uniform(-3, 3)) for p in use})
    var = pd.Series({p: float(10. ** rng.uniform(-6, 2)) for p in gen.pick(rng, use, len(use))})
    x, y = val.copy(), var.copy()
    solver.rescale_values(x, y)
    info = dict(values=val, variances=var, factors=f)
    for p in use:
        k = f.get(p, 1.)
        check(abs(x[p] * k - val[p]) <= 1e-12 * abs(val[p]), 'rescaled value of %s' % p, got=x[p], **info)
        check(abs(y[p] * k * k - var[p]) <= 1e-12 * abs(var[p]), 'rescaled variance of %s' % p, got=y[p], **info)
    solver.descale_values(x, y)
    check(same(x / val[x.index], pd.Series(1., index=use), 1e-12) and same(y / var[y.index], pd.Series(1., index=use), 1e-12),
          'descaling does not invert rescaling', got=x, got_variances=y, **info)
    x, y = val.copy(), var.copy()
    solver.descale_values(x, y)
    for p in use:
        k = f.get(p, 1.)
        check(abs(x[p] - val[p] * k) <= 1e-12 * abs(x[p]) and abs(y[p] - var[p] * k * k) <= 1e-12 * abs(y[p]), 'descaled value', got=x, **info)
    ctx.count('roundtrips')


def sensitive(prs, evs, n0):
    """did the perturbation of the values by 1e-13 lead elsewhere?"""
    a, b = [[e for e in prs[i].exp.trace[n0[i]:] if e[0] != 'read'] for i in (0, 2)]
    if [e[0] for e in a] != [e[0] for e in b] or any(x[0] == 'set' and not same(x[1], y[1], 1e-8) for x, y in zip(a, b)):
        return True
    if [e[:2] for e in evs[0]] != [e[:2] for e in evs[2]]:
        return True
    return any(not same(x[3], y[3], 1e-8) if x[0] != 'eval' else x[3] != y[3] for x, y in zip(evs[0], evs[2]))


def case(rng, ctx, index):
    roundtrip(rng, ctx)
    spec = gen.random_spec(rng, max_tuners=3, curvature=float(gen.choice(rng, [0., .03])))
    names = list(spec['A'])
    for t in spec['tuners']:
        if t['kind'] == 'sensing':
            names += ['current_signal']      # the positions are voltages by definition
    exact = rng.random() < .6
    units = {p: (float(2. ** rng.integers(-12, 13)) if exact else float(10. ** rng.uniform(-6, 6))) for p in names}
    for p in names:
        if rng.random() < .3:
            units[p] = 1.
    fails = set()
    if rng.random() < .4:
        fails = {int(i) for i in rng.integers(3, 40, size=int(rng.integers(1, 4)))}
    # arbitrary factors change the rounding: a third system with slightly perturbed values tells whether that matters (degenerate
    # directions, cancellation); a difference counts if it is reproduced with every perturbation
    for k in range(1 if exact else 8):
        try:
            return compare(spec, units, exact, fails, np.random.default_rng([index, k]), ctx if k == 0 else Ctx('', 0, None))
        except Violation as v:
            last = v
    raise last


def compare(spec, units, exact, fails, noise, ctx):
    prs, evs = [], []
    for u in ({}, units) if exact else ({}, units, {p: 1. + float(noise.choice([-1., 1.])) * 1e-13 for p in units}):
        pr = gen.build(spec, units=u)
        if len(prs) == 2:
            pr.lab.noise = pr.exp.variance_noise = noise
        pr.lab.nan = lambda i, v, p: i in fails
        ev = []
        for i, t in enumerate(pr.tuners):
            c01.instrument(t, i, ev)
        prs.append(pr)
        evs.append(ev)
    tol = 1e-15 if exact else 1e-6
    hist = ''
    info = dict(units=units, setup=gen.summary(spec), exact=exact)
    for it in range(70):
        done = [bool(p.autotuner.is_tuning_complete()) for p in prs[:2]]
        check(done[0] == done[1], 'tuning complete only in one system of units', iteration=it, done=done, history=hist, **info)
        if done[0]:
            ctx.count('completed')
            break
        n0 = [len(p.exp.trace) for p in prs]
        for e in evs:
            del e[:]
        errs = []
        for p in prs:
            try:
                p.autotuner.iterate()
                errs.append(None)
            except Exception as e:
                errs.append(type(e).__name__)
        if not exact and (errs[0] != errs[2] or sensitive(prs, evs, n0)):
            ctx.count('sensitive')
            break
        check(errs[0] == errs[1], 'error only in one system of units', errors=errs, iteration=it, history=hist, **info)
        if errs[0]:
            hist += '!'
            break
        if not prs[0].exp.true_voltages.abs().max() < 1e60:
            ctx.count('diverged')     # values are about to overflow
            break
        ctx.count('iterations')
        a, b = [[e for e in p.exp.trace[n:] if e[0] != 'read'] for p, n in zip(prs[:2], n0)]
        check([e[0] for e in a] == [e[0] for e in b], 'different actions', original=[e[0] for e in a], scaled=[e[0] for e in b],
              iteration=it, history=hist, **info)
        for x, y in zip(a, b):
            if x[0] == 'set':
                ctx.count('sets')
                hist += 's'
                check(same(x[1], y[1], tol), 'different voltages set', original=x[1], scaled=y[1], iteration=it, history=hist, **info)
            else:
                check(x[2] == y[2], 'different measurements', iteration=it, **info)
        n = len(evs[0])
        check(len(evs[1]) == n, 'different calls', **info)
        for x, y in zip(*evs[:2]):
            check(x[:2] == y[:2], 'different tuner activity', original=x[:2], scaled=y[:2], iteration=it, **info)
            if x[0] == 'eval':
                ctx.count('evaluations')
                hist += 'et'[x[3]]
                check(x[3] == y[3], 'different verdicts', original=x[3], scaled=y[3], iteration=it, history=hist, **info)
                if prs[0].tuners[x[1]].last_evaluation_failed:
                    ctx.count('failures')
                u, w = [p.tuners[x[1]].last_parameters_and_variances for p in prs[:2]]
                check(same(u[0], w[0], tol), 'different rescaled values', original=u[0], scaled=w[0], iteration=it, **info)
            else:
                hist += 'n'
                if not same(x[3], y[3], tol):
                    check(False, 'different voltages suggested', original=x[3], scaled=y[3], iteration=it, history=hist, **info)
        if not exact:
            if prs[0].exp.true_voltages.abs().max() > 1e3:
                break
    ctx.distinct(exact, len(spec['tuners']), len(fails), hist)
    ctx.sample(units=units, history=hist, setup=gen.summary(spec))
