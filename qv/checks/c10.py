"""C10: finite differences on affine functions: gradient, covariance, requested positions, dependent positions."""
import numpy as np
import pandas as pd

import qtune.util
from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.util import EvaluationError, get_orthogonal_vector, calculate_gradient_non_orthogonal

from qv.core import check, Violation
from qv import gen
from qv.stubs import same

PROPERTY = 'C10'
N = dict(quick=5000, thorough=50000)
RULE = ('random affine functions, step sizes (scalar or per gate), base points (given or learned), label orders, repeated and inaccurately '
        'set positions; util functions with random and linearly dependent positions; non-trivial: distinct (layer, size, symmetric, '
        'features, gate order)')
REQUIRED = dict(estimators=.2, gradients=.3, covariances=.2, requests=.5, dependent=.1, inaccurate_base=.02)


def affine_oracle(pos, variances, values, symmetric):
    """gradient and covariance of affine interpolation, as a linear map of the values"""
    pos, values, variances = np.asarray(pos, float), np.asarray(values, float), np.asarray(variances, float)
    k, n = pos.shape
    if symmetric:
        D = pos[1::2] - pos[::2]
        M = np.zeros((n, k))
        for i in range(n):
            M[i, 2 * i], M[i, 2 * i + 1] = -1, 1
    else:
        D = pos[1:] - pos[0]
        M = np.hstack([-np.ones((n, 1)), np.eye(n)])
    W = np.linalg.solve(D, M)
    return W @ values, W @ np.diag(variances) @ W.T, np.linalg.cond(D), np.abs(D).max()


def estimator(rng, ctx):
    n = gen.size(rng, 1, 6, 12)
    gates = gen.pick(rng, gen.GATE_NAMES, n)
    foreign = [g for g in gen.GATE_NAMES if g not in gates][:2]
    symmetric = rng.random() < .5
    given = rng.random() < .7
    per_gate = not given or rng.random() < .4
    a = {g: float(rng.normal() * 3) for g in gates}
    b = float(rng.normal())
    f = lambda v: sum(a[g] * float(v[g]) for g in gates) + b
    mag = 10. ** rng.uniform(-3, 0)
    wide = per_gate and rng.random() < .25       # barriers and plungers with very different lever arms
    if per_gate:
        eps = {g: float(mag * (10. ** rng.uniform(-2.5, .5) if wide else rng.uniform(.3, 3))) for g in gates}
        e = pd.Series({g: eps[g] for g in (gen.pick(rng, gates, n) if given else gates)})
    else:
        eps = {g: float(mag) for g in gates}
        e = float(mag)
    c = {g: float(np.round(rng.normal(), 3)) for g in gates}
    start = c if not given or rng.random() < .7 else {g: float(rng.normal()) for g in gates}
    kw = dict(current_position=pd.Series(start)[gates]) if given else {}
    est = FiniteDifferencesGradientEstimator(epsilon=e, symmetric=symmetric, **kw)
    if start is not c:
        est.restart(pd.Series({g: c[g] for g in gen.pick(rng, gates, n)}))
    grid = mag * 1e-4 if rng.random() < .3 and not wide else None     # imperfect actuator
    measured, seen, hist = [], [], ''

    def actuate(v):
        return {g: (float(np.round(v[g] / grid) * grid) if grid else float(v[g])) for g in gates}

    def update(v):
        var = float(10. ** rng.uniform(-6, 0))
        full = dict(v, **{foreign[0]: 1.})
        est.update(pd.Series({g: full[g] for g in gen.pick(rng, list(full), n + 1)}), f(v), var, is_new_position=bool(rng.random() < .5))
        return var
    base = actuate(c) if given else c
    if given and not symmetric and not grid and rng.random() < .3:
        # the gates were not set accurately to the current position
        dev = .1 * min(eps.values())
        base = {g: c[g] + float(rng.uniform(-1, 1)) * dev / n for g in gates}
        ctx.count('inaccurate_base')
    var = update(base)
    if not symmetric:
        measured.append((base, var))
    need = 2 * n if symmetric else n + 1
    info = dict(gates=gates, symmetric=symmetric, epsilon=eps, given=given, grid=grid, gradient=a)
    guard = 0
    while len(measured) < need:
        guard += 1
        check(guard < 20 + need, 'too many measurements are required', measured=measured, **info)
        check(est.estimate() is None, 'a gradient is estimated after too few measurements', measured=len(measured), **info)
        if rng.random() < .1 and guard > 1:
            # the last position is measured again (a lower tuner had to work in between)
            rep = measured[-1][0]
            measured[-1] = (rep, update(rep))
            hist += 'r'
            continue
        ga = gen.choice(rng, [None, gen.pick(rng, gates, n), pd.Index(gen.pick(rng, gates, n))])
        req = est.require_measurement() if ga is None else est.require_measurement(gates=ga)
        check(req is not None and set(req.index) == set(gates), 'no measurement of all gates is required', request=req, **info)
        ctx.count('requests')
        d = np.array([(float(req[g]) - c[g]) / eps[g] for g in gates])
        tol = 1e-9 if not grid else 3e-3 * n
        check(abs(np.linalg.norm(d) - 1) <= tol + 1e-12 / mag, 'the required step is not epsilon times a unit vector', step=d, **info)
        if symmetric and len(measured) % 2 == 1:
            mirror = np.array([2 * c[g] - measured[-1][0][g] for g in gates])
            check(np.abs(np.array([req[g] for g in gates]) - mirror).max() <= 1e-12, 'the required positions are not mirrored',
                  request=req, previous=measured[-1][0], **info)
        else:
            seen.append(d)
            sv = np.linalg.svd(np.array(seen), compute_uv=False)
            check(sv[-1] > 1e-3, 'the required step depends linearly on the previous ones', steps=seen, **info)
        v = actuate(req)
        var = update(v)
        measured.append((v, var))
        hist += 'm'
    g_ref, c_ref, cond, dmax = affine_oracle([[m[0][g] for g in gates] for m in measured], [m[1] for m in measured],
                                             [f(m[0]) for m in measured], symmetric)
    got, cov = est.estimate(), est.covariance()
    check(got is not None, 'no gradient is estimated after the required measurements', measured=len(measured), **info)
    tol = 1e-8 + 1e-13 * cond / dmax
    check(set(got.index) == set(gates) and all(abs(float(got[g]) - a[g]) <= tol * 10 for g in gates), 'wrong gradient', got=got, **info)
    check(set(cov.index) == set(gates) == set(cov.columns), 'labels of the covariance', got=cov, **info)
    cv = cov.loc[gates, gates].values.astype(float)
    check(np.abs(cv - c_ref).max() <= 1e-7 * cond * np.abs(c_ref).max(), 'the covariance does not follow from error propagation',
          got=cv, expected=c_ref, measured=measured, **info)
    ctx.count('gradients')
    ctx.count('covariances')
    for _ in range(2):
        r = est.require_measurement(gates=gen.pick(rng, gates, n))
        check(r is None or r.empty, 'a further measurement is required', **info)
        update({g: float(rng.normal()) for g in gates})
        check(same(est.estimate(), got), 'the gradient changes after it was determined', **info)
    ctx.count('estimators')
    ctx.distinct('est', n, symmetric, given, per_gate, bool(grid), hist, tuple(sorted(gates).index(g) for g in gates))
    ctx.sample(layer='estimator', gradient=a, got=got, symmetric=symmetric, positions=[m[0] for m in measured])


def helpers(rng, ctx):
    n = gen.size(rng, 1, 6, 12)
    symmetric = rng.random() < .5
    base = np.round(rng.normal(size=n), 3)
    mag = 10. ** rng.uniform(-3, 1)
    D = rng.normal(size=(n, n)) * mag
    if np.linalg.cond(D) > 1e3:
        D = np.eye(n) * mag
    mirror = rng.random() < .5
    pos = []
    if symmetric and n > 1:
        for d in D:
            e = d if mirror else rng.uniform(.2, 2) * d
            pos += [base + d, base - e]
    else:
        symmetric = False
        pos = [base] + [base + d for d in D]
    a, b = rng.normal(size=n) * 3, float(rng.normal())
    values = [float(a @ p + b) for p in pos]
    var = [float(10. ** rng.uniform(-6, 2)) for _ in pos]
    g_ref, c_ref, cond, dmax = affine_oracle(pos, var, values, symmetric)
    keep = [p.copy() for p in pos]
    tol = 1e-9 + 1e-13 * cond / dmax
    info = dict(positions=pos, values=values, variances=var, gradient=a)
    g = calculate_gradient_non_orthogonal(positions=pos, values=values)
    check(np.abs(np.asarray(g).ravel() - a).max() < tol * 10, 'wrong gradient (without variances)', got=g, **info)
    g, cov = calculate_gradient_non_orthogonal(positions=pos, values=values, variances=var)
    check(np.abs(np.asarray(g).ravel() - a).max() < tol * 10, 'wrong gradient', got=g, **info)
    check(np.abs(cov - c_ref).max() <= 1e-9 * cond ** 2 * np.abs(c_ref).max(), 'wrong covariance', got=cov, expected=c_ref, **info)
    ctx.count('covariances')
    k = int(rng.integers(1, 4))
    A = rng.normal(size=(k, n))
    g = qtune.util.gradient_min_evaluations([A @ p + b for p in pos], pos)
    check(np.asarray(g).shape == (k, n) and np.abs(g - A).max() < tol * 10, 'wrong gradient of several parameters', got=g, expected=A)
    check(all(np.array_equal(x, y) for x, y in zip(pos, keep)), 'the positions were modified')
    ctx.count('gradients', 3)
    # orthogonal vectors
    if n > 1:
        vs = [D[i] for i in range(int(rng.integers(1, n)))]
        o = np.asarray(get_orthogonal_vector(vs), float)
        check(o.shape == (n,) and abs(np.linalg.norm(o) - 1) < 1e-9, 'orthogonal vector is not normalised', got=o)
        check(all(abs(o @ v) < 1e-7 * np.linalg.norm(v) for v in vs), 'vector is not orthogonal', got=o, vectors=vs)
    # too few points
    m = len(pos) - 1
    if m not in (n + 1, 2 * n):
        for fn in (lambda: calculate_gradient_non_orthogonal(positions=pos[:m], values=values[:m]),
                   lambda: qtune.util.gradient_min_evaluations(values[:m], pos[:m])):
            try:
                fn()
            except RuntimeError:
                continue
            raise Violation('a gradient is calculated from too few points', points=m, dim=n)
    # linearly dependent positions
    I = rng.integers(-9999, 10000, size=(n, n))
    r = rng.random()
    j = int(rng.integers(0, n))
    if n == 1 or r < .2:
        I[j] = 0
    elif r < .5:
        o = [i for i in range(n) if i != j]
        I[j] = sum(int(rng.integers(-3, 4)) * I[i] for i in o)
    elif r < .75:
        o = int(rng.choice([i for i in range(n) if i != j]))
        I[j] = int(rng.integers(-3, 4)) * I[o]
    else:
        I[:, j] = 0     # one gate was never moved
    b0 = rng.integers(-3000, 3001, size=n)
    if symmetric:
        dep = []
        for d in I:
            dep += [(b0 + d) / 1000, (b0 - d) / 1000]
    else:
        dep = [b0 / 1000] + [(b0 + d) / 1000 for d in I]
    dep = [np.asarray(p, float) for p in dep]
    vals = [float(a @ p + b) for p in dep]
    for name, fn in (('calculate_gradient_non_orthogonal', lambda: calculate_gradient_non_orthogonal(positions=dep, values=vals, variances=var)),
                     ('gradient_min_evaluations', lambda: qtune.util.gradient_min_evaluations(vals, dep))):
        try:
            g = fn()
        except EvaluationError:
            ctx.count('dependent')
        else:
            raise Violation('%s returns a gradient for linearly dependent positions' % name, positions=dep, got=g)
    ctx.distinct('helpers', n, symmetric, mirror, k, tuple(np.sign(I).ravel()))
    ctx.sample(layer='helpers', positions=pos, values=values, gradient=a)


def case(rng, ctx, index):
    if rng.random() < .5:
        estimator(rng, ctx)
    else:
        helpers(rng, ctx)
