"""C08: measurements requested for the gradient estimation against an own eigen decomposition."""
import numpy as np
import pandas as pd

from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver, make_target

from qv.core import check
from qv import gen
from qv.sim import SimExperiment
from qv.stubs import ScriptedEvaluator, ScriptedEstimator, same

PROPERTY = 'C08'
N = dict(quick=5000, thorough=120000)
RULE = ('random covariances, thresholds (scalar, per gate, infinite), step sizes, gate subsets and tuned jacobians, on the estimator and '
        'through solver and tuner; readiness of all estimators during tuning runs; non-trivial: distinct (mode, sizes, requested or not, ratio bucket)')
REQUIRED = dict(requested=.3, not_requested=.2, tuned_jacobian_requests=.1, solver_requests=.05, newton_steps=.05, tuned_per_gate=.01, ready=.01, not_ready=.03)


def rand_cov(rng, m):
    q, _ = np.linalg.qr(rng.normal(size=(m, m)))
    lam = 10. ** rng.uniform(-4, 1, size=m)
    if rng.random() < .15:
        lam[:] = lam[0]
    c = (q * lam) @ q.T
    return (c + c.T) / 2


def make(rng, gates, cov=None, grad=None, uniform=False):
    m = len(gates)
    cov = rand_cov(rng, m) if cov is None else cov
    lam = np.linalg.eigvalsh(cov)
    scale = float(gen.choice(rng, [lam[-1] * .5, lam[-1] * .99, lam[-1] * 1.01, lam[-1] * .9998, lam[-1] * 1.0002, lam[-1] * 2, lam[m // 2] * 1.1, lam[0] * .5]))
    mode = gen.choice(rng, ['scalar', 'scalar', 'series', 'inf'])
    if uniform or mode == 'scalar' or m == 1:
        mx = scale
    else:
        mx = pd.Series({g: scale * float(rng.uniform(.3, 3)) for g in gen.pick(rng, gates, m)})
        if mode == 'inf':
            mx[gen.choice(rng, gates)] = np.inf
    eps = float(rng.uniform(.01, 1))
    if not uniform and rng.random() < .4:
        eps = pd.Series({g: float(rng.uniform(.01, 1)) for g in gen.pick(rng, gates, m)})
    cur = pd.Series({g: float(np.round(rng.normal(), 3)) for g in gates})
    grad = rng.normal(size=m) if grad is None else grad
    est = KalmanGradientEstimator(KalmanGradient(m, 1, initial_gradient=grad, initial_covariance_matrix=cov),
                                  cur.copy(), maximum_covariance=mx, epsilon=eps)
    full = lambda x: x if isinstance(x, pd.Series) else pd.Series(x, index=gates)
    return est, cur, pd.DataFrame(cov, index=gates, columns=gates), full(mx), full(eps)


def verify_direct(ctx, est, cur, cov, mx, eps, sub, req, info):
    """request without tuned parameters: -> True requested, False not, None undecided"""
    C = cov.loc[sub, sub].values
    lam, vec = np.linalg.eigh(C)
    lens = np.linalg.norm(lam * vec / mx[sub].values[:, None], axis=0)
    gap = np.min(np.diff(lam)) / lam[-1] if len(lam) > 1 else 1.
    uniform = len(set(mx[sub].values)) == 1
    requested = req is not None and not req.empty
    if not uniform and gap < 1e-6:
        ctx.count('undecided')
        return None
    if np.any(np.abs(lens - 1) < 1e-9):
        ctx.count('undecided')
        return None
    info = dict(info, covariance=C, maximum=mx[sub], lengths=lens, epsilon=eps[sub], gates=sub, current=cur,
                request=req if requested else None)
    check(requested == bool(lens.max() > 1), 'measurement %srequested' % ('' if requested else 'not '), **info)
    if not requested:
        return False
    check(set(sub) <= set(req.index) <= set(cur.index), 'gates of the requested position', **info)
    diff = req - cur[req.index]
    check(all(abs(diff[g]) <= 1e-15 for g in req.index if g not in sub), 'the request moves irrelevant gates', **info)
    d = diff[sub].values / eps[sub].values
    check(abs(np.linalg.norm(d) - 1) < 1e-9, 'the requested step is not scaled by epsilon', length=np.linalg.norm(d), **info)
    best = lens > lens.max() * (1 - 1e-6)
    # d must lie in the span of the eigenvectors with maximal length
    proj = vec[:, best] @ (vec[:, best].T @ d)
    check(np.linalg.norm(proj - d) < 1e-6, 'the request is not in the most uncertain direction', direction=d,
          expected=vec[:, best].T, **info)
    return True


def verify_tuned(ctx, cur, cov, mx, eps, gates, T, req, info):
    """request which has to leave parameters with the gradients T unchanged: -> True requested, False not, None undecided"""
    requested = req is not None and not req.empty
    u, s, vt = np.linalg.svd(T)
    rank = int((s > 1e-9 * s[0]).sum()) if len(s) and s[0] > 0 else 0
    basis = vt[rank:].T
    C = cov.loc[gates, gates].values
    lam, vec = np.linalg.eigh(basis.T @ C @ basis) if basis.shape[1] else (np.zeros(1), np.zeros((0, 1)))
    vec = basis @ vec
    lens = np.linalg.norm(lam * vec / mx[gates].values[:, None], axis=0)
    info = dict(info, tuned_jacobian=T, gates=gates, covariance=C, maximum=mx[gates], current=cur, epsilon=eps[gates],
                request=req if requested else None, allowed_variances=lam, lengths=lens)
    gap = np.min(np.diff(lam)) / lam[-1] if len(lam) > 1 else 1.
    uniform = len(set(mx[gates].values)) == 1
    if not uniform and gap < 1e-6:
        ctx.count('undecided')
        return None
    if lens.max() < 1 - 1e-9:
        check(not requested, 'measurement requested although every allowed direction is known well enough', **info)
    if lens.max() > 1 + 1e-9 and basis.shape[1]:
        check(requested, 'no measurement requested although an allowed direction is too uncertain', **info)
    if not requested:
        return False
    diff = req - cur[req.index]
    check(all(abs(diff[g]) <= 1e-15 for g in req.index if g not in gates), 'the request moves foreign gates', **info)
    step = diff[gates].values
    length = np.linalg.norm(step)
    check(eps[gates].min() * (1 - 1e-9) <= length <= eps[gates].max() * (1 + 1e-9), 'the requested step is not scaled by epsilon', length=length, **info)
    d = step / length
    check(np.abs(T @ d).max() < 1e-7 * max(1., np.abs(T).max()), 'the request changes the tuned parameters', change=T @ d, **info)
    if uniform:
        check(d @ C @ d > lam[-1] * (1 - 1e-5), 'the requested direction is not the most uncertain one', variance=d @ C @ d, **info)
    else:
        best = lens > lens.max() * (1 - 1e-6)
        check(np.linalg.norm(vec[:, best] @ (vec[:, best].T @ d) - d) < 1e-6, 'the requested direction is not the most uncertain one',
              expected=vec[:, best].T, **info)
        ctx.count('tuned_per_gate')
    return True


def note(ctx, mode, r, *key):
    if r is None:
        return
    ctx.count('requested' if r else 'not_requested')
    ctx.distinct(mode, r, *key)


def ready(ctx, est, gates):
    """None if undecided"""
    if isinstance(est, FiniteDifferencesGradientEstimator):
        return est.estimate() is not None
    cov = est.covariance()
    C = cov.loc[gates, gates].values
    lam, vec = np.linalg.eigh(C)
    mx = est_limits[id(est)]
    if abs(lam[-1] - mx) < 1e-6 * mx:
        return None
    return bool(lam[-1] < mx)


est_limits = {}


def readiness(rng, ctx):
    """the autotuner reports whether all estimators are ready"""
    spec = gen.random_spec(rng, max_tuners=3)
    est_limits.clear()
    keep = []
    make = gen.KalmanGradientEstimator

    def m(*a, **k):
        e = make(*a, **k)
        est_limits[id(e)] = float(k['maximum_covariance'])
        keep.append(e)
        return e
    gen.KalmanGradientEstimator = m
    try:
        pr = gen.build(spec)
    finally:
        gen.KalmanGradientEstimator = make
    auto = pr.autotuner
    for it in range(int(rng.integers(1, 25))):
        states = [ready(ctx, e, list(t.solver.current_position.index)) for t in pr.tuners
                  for e in getattr(t.solver, 'gradient_estimators', ())]
        got = auto.all_estimators_ready
        if False in states or None not in states:
            check(bool(got) == (False not in states), 'readiness of the estimators', reported=got, estimators=states,
                  setup=gen.summary(spec))
            ctx.count('ready' if got else 'not_ready')
            ctx.distinct('auto', tuple(states))
        if auto.is_tuning_complete():
            break
        auto.iterate()


def case(rng, ctx, index):
    mode = gen.choice(rng, ['direct', 'tuned', 'solver', 'solver', 'solver', 'auto'] if index % 5 == 0 else ['direct', 'tuned', 'solver', 'solver'])
    m = gen.size(rng, 1, 6, 12)
    gates = gen.pick(rng, gen.GATE_NAMES, m)
    if mode == 'auto':
        readiness(rng, ctx)
    elif mode == 'direct':
        est, cur, cov, mx, eps = make(rng, gates)
        for k in range(4):
            sub = gates if k == 0 else gen.pick(rng, gates, int(rng.integers(1, m + 1)))
            if k == 0 and rng.random() < .5:
                req = est.require_measurement()
            else:
                req = est.require_measurement(gates=gen.choice(rng, [list(sub), pd.Index(sub)]))
            r = verify_direct(ctx, est, cur, cov, mx, eps, sub, req, dict(mode=mode))
            note(ctx, mode, r, m, len(sub), k, int(np.log10(mx.min()) * 10))
            check(same(est.current_position, cur), 'requesting a measurement moved the estimator')
        ctx.sample(mode=mode, gates=gates, maximum=mx, covariance=cov)
    elif mode == 'tuned':
        est, cur, cov, mx, eps = make(rng, gates, uniform=rng.random() < .5)
        for k in range(3):
            sub = gen.pick(rng, gates, int(rng.integers(1, m + 1))) if rng.random() < .5 else gen.pick(rng, gates, m)
            T = rng.normal(size=(int(rng.integers(1, len(sub) + 1)), len(sub)))
            if rng.random() < .3:
                T = np.round(T * 4) / 4
                if not np.any(T):
                    T[0, 0] = 1.
            tj = pd.DataFrame(T, columns=sub, index=['x%d' % i for i in range(len(T))])
            req = est.require_measurement(gates=sub, tuned_jacobian=tj)
            sv = np.linalg.svd(T, compute_uv=False)
            if np.any((sv < 1e-6 * sv[0]) & (sv > 0)):
                continue
            r = verify_tuned(ctx, cur, cov, mx, eps, sub, T, req, dict(mode=mode))
            if r:
                ctx.count('tuned_jacobian_requests')
            note(ctx, mode, r, m, T.shape, k)
        ctx.sample(mode=mode, gates=gates, tuned_jacobian=T, requested=bool(r))
    else:
        n = int(rng.integers(1, (m if rng.random() < .25 else min(m, 3)) + 1))
        busy = gen.choice(rng, [.1, .5, .5])
        rows = gen.pick(rng, gen.PAR_NAMES, n)
        desired = {p: (np.nan if rng.random() < .35 else float(rng.normal())) for p in rows}
        if all(x != x for x in desired.values()):
            desired[rows[0]] = .3
        scripted = rng.random() < .3
        per_gate = rng.random() < .3
        foreign = [g for g in gen.GATE_NAMES if g not in gates][:int(rng.integers(0, 2))]
        alle = gates + foreign
        cur0 = {g: float(np.round(rng.normal(), 3)) for g in alle}
        ests, meta = {}, {}
        for p in rows:
            order = gen.pick(rng, alle, len(alle))
            if scripted:
                grad = pd.Series(rng.normal(size=len(order)), index=order)
                req = None
                if rng.random() < busy:
                    req = pd.Series({g: float(rng.normal()) for g in gen.pick(rng, gates, m)})
                    if rng.random() < .2:
                        req = pd.Series(dtype=float)
                ests[p] = ScriptedEstimator(grad, pd.Series(cur0)[order], request=req)
            else:
                low = rng.random() < .4
                cov = rand_cov(rng, len(order)) * (1e-9 if low else 1.)
                grad = rng.normal(size=len(order))
                eps = .2
                mx = float(np.linalg.eigvalsh(cov)[-1] * gen.choice(rng, [.3, .9, 3.]))
                if low:
                    mx = 1.
                if per_gate:
                    mx = pd.Series({g: mx * float(rng.uniform(.5, 2)) for g in gen.pick(rng, order, len(order))})
                    if rng.random() < .2:
                        mx[gen.choice(rng, order)] = np.inf
                    eps = pd.Series({g: float(rng.uniform(.05, .5)) for g in gen.pick(rng, order, len(order))})
                ests[p] = KalmanGradientEstimator(
                    KalmanGradient(len(order), 1, initial_gradient=grad, initial_covariance_matrix=cov),
                    pd.Series(cur0)[order], maximum_covariance=mx, epsilon=eps)
                full = lambda x: x[order] if isinstance(x, pd.Series) else pd.Series(x, index=order)
                meta[p] = (pd.DataFrame(cov, index=order, columns=order), full(mx), full(eps), pd.Series(grad, index=order))
        s = lambda d: pd.Series({p: d[p] for p in rows})
        target = make_target(desired=s(desired), tolerance=pd.Series(1e-9, index=rows))
        pos = pd.Series({g: cur0[g] for g in gen.pick(rng, gates, m)})
        tuned = gen.choice(rng, [None, 'some', 'some'])
        if tuned:
            both = rng.random() < .2        # also pursued by a lower tuner
            tuned = {p for p in rows if (both or desired[p] != desired[p]) and rng.random() < .8}
            tuned |= {'unrelated'} if rng.random() < .3 else set()
        solver = NewtonSolver(target, [ests[p] for p in rows], pos.copy())
        via = rng.random() < .5
        values = {p: float(rng.normal() + 5) for p in rows}
        if via:
            exp = SimExperiment(cur0)
            src = lambda ev: (pd.Series({p: values[p] for p in ev.parameters}), pd.Series({p: 1. for p in ev.parameters}))
            evp = gen.pick(rng, rows, n)
            tuner = SubsetTuner([ScriptedEvaluator(exp, tuple(evp), source=src)], gates, solver=solver)
            check(not tuner.is_tuned(pd.Series(cur0)), 'tuned')
            got = tuner.get_next_voltages(tuned_parameters=tuned)
        else:
            solver.update_after_step(pd.Series(cur0), pd.Series({p: values[p] for p in rows}), pd.Series({p: 1. for p in rows}))
            got = solver.suggest_next_position(tuned)
        step = (got - pd.Series(cur0)[got.index])
        info = dict(mode=mode, rows=rows, desired=desired, tuned=tuned, through_tuner=via, got=got, current=cur0)
        want = [p for p in rows if desired[p] == desired[p]]
        requesting, undecided = [], False
        tg = [p for p in rows if tuned and p in tuned]
        requested_by = []
        if scripted:
            for p in want:
                r = ests[p].request
                if r is not None and not r.empty:
                    requesting.append(p)
                    if same(got[gates], r):
                        requested_by.append(p)
        else:
            T = np.array([[meta[p][3][g] for g in gates] for p in tg]) if tg else None
            for p in want:
                cov, mx, eps, _ = meta[p]
                for req in (got, None):
                    try:
                        if T is None:
                            r = verify_direct(ctx, ests[p], pd.Series(cur0), cov, mx, eps, gates,
                                              None if req is None else req[gates], info)
                        else:
                            r = verify_tuned(ctx, pd.Series(cur0), cov, mx, eps, gates, T,
                                             None if req is None else req[gates], info)
                    except Exception as e:
                        if type(e).__name__ != 'Violation':
                            raise
                        continue
                    if r is None:
                        undecided = True
                    elif req is not None and r:
                        requested_by.append(p)
                    elif req is None:
                        break
                else:
                    requesting.append(p)    # "no request" is not a correct behaviour
        if undecided:
            return
        J = np.array([[(ests[p].gradient if scripted else meta[p][3])[g] for g in gates] for p in rows])
        d = np.array([(desired[p] - values[p]) if desired[p] == desired[p] else 0. for p in rows])
        newton = np.linalg.pinv(J) @ d
        is_newton = np.abs(step[gates].values - newton).max() < 1e-6 * max(1, np.abs(newton).max())
        if requesting:
            check(bool(requested_by), 'the suggestion is not a measurement requested by an estimator with a desired value',
                  requesting=requesting, newton_step=newton, **info)
            ctx.count('solver_requests')
        else:
            check(bool(requested_by) or is_newton, 'the suggestion is neither a justified request nor the Newton step',
                  newton_step=newton, **info)
            ctx.count('newton_steps' if is_newton else 'optional_requests')
        if tg and requested_by and not scripted:
            ctx.count('tuned_jacobian_requests')
        note(ctx, mode, bool(requested_by), m, n, len(tg), tuple(x == x for x in desired.values()), scripted, via)
        ctx.sample(mode=mode, rows=rows, desired=desired, tuned=tuned, requesting=requesting, step=step)
