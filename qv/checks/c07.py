"""C07: positions suggested by the Newton solver and data handed to the gradient estimators against an independent oracle."""
import numpy as np
import pandas as pd

from qtune.gradient import KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.solver import NewtonSolver, make_target

from qv.core import check
from qv import gen
from qv.stubs import ScriptedEstimator, same

PROPERTY = 'C07'
N = dict(quick=4800, thorough=100000)
RULE = ('random jacobians (full rank, rank deficient, more gates than parameters), NaN desired patterns and independently shuffled '
        'labels; 2-6 updates each followed by suggestions; non-trivial: distinct (shape, rank, NaN pattern, label order)')
REQUIRED = dict(suggestions=2., updates_checked=2., invariant_rows=.3, rank_deficient=.1)


def shuffled(rng, d):
    k = list(d)
    return pd.Series({g: d[g] for g in gen.pick(rng, k, len(k))}, dtype=float)


def min_norm(J, d):
    """independent minimum norm least squares solution; None if the rank is ambiguous"""
    u, s, vt = np.linalg.svd(J, full_matrices=False)
    if s.size == 0 or s[0] == 0:
        return np.zeros(J.shape[1]), 0
    rel = s / s[0]
    eps = np.finfo(float).eps
    if np.any((rel > .5 * eps) & (rel < 1e-9) & (rel > 0)):
        return None, None
    keep = rel >= 1e-9
    return vt[keep].T @ ((u[:, keep].T @ d) / s[keep]), int(keep.sum())


def case(rng, ctx, index):
    n = gen.size(rng, 1, 6, 12)
    m = n + int(rng.integers(0, 3))
    gates = gen.pick(rng, gen.GATE_NAMES, m)
    extra = [g for g in gen.GATE_NAMES if g not in gates][:int(rng.integers(0, 3))]
    rows = gen.pick(rng, gen.PAR_NAMES, n)
    kind = gen.choice(rng, ['full', 'full', 'zero', 'duplicate'])
    J = {p: {g: float(rng.normal()) for g in gates + extra} for p in rows}
    if kind == 'zero':
        if rng.random() < .5 or n == 1:
            g = gen.choice(rng, gates)
            for p in rows:
                J[p][g] = 0.
        else:
            J[rows[0]] = {g: 0. for g in gates + extra}
    elif kind == 'duplicate' and n > 1:
        for p in rows:
            for g in gates:
                J[p][g] = float(rng.integers(-4, 5))
        k = float(gen.choice(rng, [1., -1., 2., .5]))
        J[rows[1]] = {g: k * x for g, x in J[rows[0]].items()}
    desired, invariant = {}, set()
    for p in rows:
        if rng.random() < .25:
            desired[p] = np.nan
            invariant.add(p)
        else:
            desired[p] = float(rng.normal() * 2)
    s = lambda d: pd.Series({p: d[p] for p in rows})
    target = make_target(desired=s(desired), tolerance=pd.Series(.1, index=rows))
    v0 = {g: float(rng.normal()) for g in gates + extra}
    kalman = rng.random() < .3
    ests = {}
    for p in rows:
        order = gen.pick(rng, gates + extra, m + len(extra))
        grad = pd.Series({g: J[p][g] for g in order})
        if kalman:
            ests[p] = KalmanGradientEstimator(
                KalmanGradient(len(order), 1, initial_gradient=grad.values, initial_covariance_matrix=np.eye(len(order)) * 1e-30),
                pd.Series({g: v0[g] for g in order}), maximum_covariance=np.inf, epsilon=.1)
        else:
            ests[p] = ScriptedEstimator(grad, pd.Series({g: v0[g] for g in order}))
    kw = {}
    values = {p: np.nan for p in rows}
    if rng.random() < .3:
        values = {p: float(rng.normal()) for p in rows}
        kw['current_values'] = shuffled(rng, dict(values, unrelated=1.))
    pos = {g: v0[g] for g in gates}
    solver = NewtonSolver(target, [ests[p] for p in rows], shuffled(rng, pos), **kw)
    order = list(solver.current_position.index)
    rank = None
    for step in range(int(rng.integers(2, 7))):
        if step or rng.random() < .5:
            volts = {g: float(rng.normal()) for g in gates + extra}
            values = {p: (np.nan if p in invariant and rng.random() < .3 else float(rng.normal())) for p in rows}
            variances = {p: float(rng.uniform(1e-6, 1)) for p in rows}
            before = {p: len(e.updates) for p, e in ests.items() if not kalman}
            solver.update_after_step(shuffled(rng, volts), shuffled(rng, dict(values, unrelated=7.)),
                                     shuffled(rng, dict(variances, unrelated=.7)))
            pos = {g: volts[g] for g in gates}
            for p in before:
                new = ests[p].updates[before[p]:]
                info = dict(parameter=p, values=values, variances=variances, target=target)
                if p not in invariant:
                    check(len(new) == 1, 'gradient estimator was updated %d times' % len(new), **info)
                for position, value, variance, flag in new:
                    check(value == values[p], 'gradient estimator got the wrong value', got=value, **info)
                    check(variance == variances[p], 'gradient estimator got the wrong variance', got=variance, **info)
                    check(bool(flag), 'update is not flagged as new position', **info)
                    check(same(position[gates + extra], pd.Series(volts)), 'gradient estimator got the wrong position',
                          got=position, **info)
                    ctx.count('updates_checked')
        check(same(solver.current_position, pd.Series(pos)), 'position of the solver', got=solver.current_position, expected=pos)
        got = solver.suggest_next_position(gen.choice(rng, [None, set()])).copy()
        if kalman:
            # the filter may have learned from the values: take the gradients as they are, labelled
            rowsJ = {p: ests[p].estimate() for p in rows}
        else:
            rowsJ = {p: J[p] for p in rows}
        M = np.array([[float(rowsJ[p][g]) for g in gates] for p in rows])
        d = np.array([desired[p] - values[p] for p in rows])
        ctx.count('invariant_rows', np.isnan(d).sum())
        d = np.where(np.isnan(d), 0., d)
        ref, rank = min_norm(M, d)
        info = dict(jacobian=M, rows=rows, gates=gates, desired=desired, values=values, position=pos, got=got)
        if ref is None:
            ctx.count('ambiguous_rank')
            continue
        expected = pd.Series({g: pos[g] + x for g, x in zip(gates, ref)})
        check(set(got.index) == set(gates), 'suggested position has the wrong gates', **info)
        scale = max(1., np.abs(expected).max())
        err = max(abs(got[g] - expected[g]) for g in gates) / scale
        sv = np.linalg.svd(M, compute_uv=False)
        cond = sv[0] / sv[sv > 1e-9 * sv[0]].min() if sv[0] > 0 else 1.
        check(err <= 1e-12 * cond ** 2 + 1e-9, 'suggested position is not the minimum norm least squares step', expected=expected, **info)
        check(same(solver.current_position, pd.Series(pos)), 'suggesting moved the solver')
        again = solver.suggest_next_position()
        check(same(got, again, 1e-9), 'the suggestion changes when asked twice', again=again, **info)
        ctx.count('suggestions')
        if rank < min(n, m):
            ctx.count('rank_deficient')
        ctx.distinct(n, m, rank, tuple(p in invariant for p in rows), tuple(gates.index(g) for g in order))
    ctx.sample(rows=rows, gates=gates, desired=desired, jacobian=J, rank=rank)
