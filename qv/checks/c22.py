"""C22: online monitor of the Nelder-Mead simplex in minimisation runs, interrupted by store and reload, next to a
reference implementation of the textbook method that is fed with the same measurements."""
import os

import numpy as np
import pandas as pd

from qtune.solver import NelderMeadSolver, make_target
from qtune.storage import from_hdf5, to_hdf5

from qv.core import check
from qv import gen

PROPERTY = 'C22'
N = dict(quick=260, thorough=12000)
RULE = ('convex quadratic costs, a third of them with ripples for which convergence is not judged (1-4 gates, condition up to about 100) of 1-6 parameters with random start, span, labels in random order and actuator grid; stored and '
        'reloaded at random points next to the uninterrupted solver, repeated measurements of the start, restarts at other voltages, changes of the target, both also in the middle of a shrink step; '
        'non-trivial: distinct (gates, parameters, sequence of kinds of steps)')
REQUIRED = dict(evaluations=50., built=.9, reloads=1., converged=.4, best_updates=5., restarts=.05, target_changes=.1, interrupted_shrinks=.02, own_cost_functions=.1,
                moves_reflect=5., moves_expand=1., moves_outside=.3, moves_inside=1., moves_shrink=.3)


def problem(rng):
    n = gen.size(rng, 1, 5, 7, p=.03)
    gates = gen.pick(rng, gen.GATE_NAMES, n)
    m = max(1, n + int(rng.integers(0, 3)))
    ps = gen.pick(rng, gen.PAR_NAMES, m)
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    u, _ = np.linalg.qr(rng.normal(size=(m, m)))
    s = np.exp(rng.uniform(0, np.log(10 if rng.random() < .3 else 3), n))
    A = pd.DataFrame(u[:, :n] @ np.diag(s) @ q, index=ps, columns=gates)
    x = pd.Series(rng.normal(size=n) * 2, index=gates)       # the minimum
    desired = A @ x
    off = pd.Series(rng.normal(size=m), index=ps)
    start = pd.Series(x + rng.normal(size=n) * float(gen.choice(rng, [.3, 1., 5.])), index=gates)
    span = pd.Series(np.exp(rng.uniform(np.log(.1), np.log(1.), n)), index=gates)
    return gates, ps, A, off, desired + off, x, start, span


def values_at(A, off, v):
    x = np.array([v[g] for g in A.columns], dtype=float)
    y = A.values @ x + off.values
    ripple = off.attrs.get('ripple')
    if ripple:
        y = y + ripple[0] * np.sin(ripple[1] * x.sum() + np.arange(len(y)))
    return y


def measure(A, off, v):
    return pd.Series(values_at(A, off, v), index=A.index)


class Reference:
    """Nelder and Mead with reflection 1, expansion 2, contraction 1/2 and shrink 1/2. None of the decisions is made on
    costs that are equal within the rounding errors: the reference is undecided then."""

    def __init__(self, points):
        self.points = list(points)      # (position, cost)
        self.kind, self.shrunk, self.reflected, self.undecided = 'reflect', [], None, False
        self.sort()

    def less(self, a, b):
        if abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-14:
            self.undecided = True
        return a < b

    def sort(self):
        self.points.sort(key=lambda z: z[1])
        for (_, a), (_, b) in zip(self.points, self.points[1:]):
            self.less(a, b)

    def insert(self, *point):
        self.points[-1] = point
        self.sort()
        self.kind = 'reflect'

    def next(self):
        ps = [p for p, _ in self.points]
        m = np.mean(ps[:-1], axis=0)
        d = m - ps[-1]
        if self.kind == 'shrink':
            return ps[0] / 2 + ps[len(self.shrunk) + 1] / 2
        return m + d * dict(reflect=1, expand=2, outside=.5, inside=-.5)[self.kind]

    def update(self, p, c):
        costs = [z for _, z in self.points]
        kind = self.kind
        if kind == 'reflect':
            self.reflected = (p, c)
            if self.less(c, costs[0]):
                self.kind = 'expand'
            elif self.less(c, costs[-2]):
                self.insert(p, c)
            else:
                self.kind = 'outside' if self.less(c, costs[-1]) else 'inside'
        elif kind == 'expand':
            self.insert(*((p, c) if self.less(c, self.reflected[1]) else self.reflected))
        elif kind == 'shrink':
            self.shrunk.append((p, c))
            if len(self.shrunk) == len(self.points) - 1:
                self.points[1:] = self.shrunk
                self.shrunk, self.kind = [], 'reflect'
                self.sort()
        elif self.less(c, self.reflected[1] if kind == 'outside' else costs[-1]):
            self.insert(p, c)
        else:
            self.kind, self.shrunk = 'shrink', []
        return kind


def shrinking(solver, reference):
    return reference.kind == 'shrink' if reference is not None else 'shrink' in str(getattr(solver, '_state', ''))


def reload(solver, path):
    to_hdf5(path, 'solver', solver)
    return from_hdf5(path, {})['solver']


def case(rng, ctx, index):
    gates, ps, A, off, desired, x, start, span = problem(rng)
    n = len(gates)
    rough = bool(rng.random() < .35)        # no convergence, but the best point must not be lost
    if rough:
        off.attrs['ripple'] = (float(rng.uniform(.3, 3.)), float(rng.uniform(3., 30.)))
    base = dict(rough=rough, gates=n, parameters=len(ps), start=start, minimum=x, span=span)
    grid = 0. if rng.random() < .7 else 1e-7
    noise_free = lambda v: measure(A, off, v)
    own = gen.choice(rng, ['weighted', 'skew']) if rng.random() < .3 else None      # a cost function given by the user
    weights = pd.Series(np.exp(rng.uniform(-1, 1, len(ps))), index=ps)
    base['cost_function'] = own

    def judge(d):
        d = d * weights[list(d.index)] ** .5 if own else d
        return float((d * d).sum()) if own != 'skew' else float((np.where(d > 0, 2., 1.) * d * d).sum())

    def cost(values, desired):
        return judge(pd.Series([float(values[p]) for p in desired.index], index=desired.index) - desired)

    def cost_at(A, off, v, desired):
        return judge(pd.Series(values_at(A, off, v) - desired.values, index=desired.index))
    shuffled = lambda s: s[gen.pick(rng, list(s.index), len(s))]
    make = lambda pos: NelderMeadSolver.from_scratch(
        target=make_target(desired=shuffled(desired), tolerance=desired * 0 + 1e-3), span=shuffled(span), current_position=shuffled(pos),
        current_values=shuffled(noise_free(pos)))
    solver = make(start)
    if own:
        solver = NelderMeadSolver(target=solver.target, simplex=solver.simplex, span=shuffled(span), current_position=solver.simplex[0][0].copy(),
                                  current_values=shuffled(noise_free(start)), cost_function=judge)
        ctx.count('own_cost_functions')
    reference = None
    extra = [gen.choice(rng, [g for g in gen.GATE_NAMES if g not in gates])] if rng.random() < .5 else []
    twin = None
    limit = 60 + 90 * n if not rough else 60
    measured = [(start, cost(noise_free(start), desired))]
    best_seen = []          # best cost of all measurements after each one (since the last restart)
    simplex_best = []
    built = n == 0
    restart = int(rng.integers(2, 40)) if rng.random() < .15 else None
    change = int(rng.integers(1, 40)) if rng.random() < .3 else None
    # interruptions in the middle of a shrink step
    at_shrink = gen.choice(rng, ['restart', 'change']) if rng.random() < .4 else None
    skewed = False          # minimum unknown
    since_restart = [start[gates].values.astype(float)]
    stop_at = None
    trail = ''
    reloads = 0
    path = ctx.tmpdir()
    first = True
    k = -1
    while k + 1 < limit:
        k += 1
        info = dict(evaluation=k, steps=trail[-20:], **base)
        if at_shrink and built and len(best_seen) > 3 and shrinking(solver, reference) and rng.random() < .5:
            restart, change = (k, change) if at_shrink == 'restart' else (restart, k)
            at_shrink = None
            ctx.count('interrupted_shrinks')
        if k == change and k != restart:
            # from now on the points are judged by the new target
            some = gen.pick(rng, ps, int(rng.integers(1, len(ps) + 1)))
            new = desired[some] + rng.normal(size=len(some)) * float(gen.choice(rng, [.1, 1., 5.]))
            desired = desired.copy()
            desired[some] = new
            for s in (solver, twin):
                if s is not None:
                    s.target = {'desired': shuffled(new)}
            got = solver.target['desired']
            check(all(abs(got[p] - desired[p]) <= 1e-12 * (1 + abs(desired[p])) for p in ps), 'target after the change', got=got, expected=desired, **info)
            root = (weights[list(A.index)].values if own else np.ones(len(A))) ** .5
            x = pd.Series(np.linalg.lstsq(A.values * root[:, None], (desired[A.index].values - off[A.index].values) * root, rcond=None)[0], index=gates)
            skewed = own == 'skew'
            base['minimum'] = x
            limit += 90 * n if not rough else 30
            if built:
                measured = [(pos, cost(val, desired)) for pos, val in solver.simplex]
                reference = Reference((pos[gates].values.astype(float), c) for pos, c in measured)
                best_seen, simplex_best = [], [min(c for _, c in measured)]
            else:
                measured = [(pos, cost_at(A, off, pos, desired)) for pos, _ in measured]
            ctx.count('target_changes')
            trail += 'T'
        if k == restart:
            v = start + rng.normal(size=n)
            solver.restart(shuffled(v))
            if twin is not None:
                twin.restart(v)
            measured, best_seen, simplex_best, built, reference = [], [], [], False, None
            since_restart = []
            # a restart is followed by the evaluation at the restarted position
            p = v
            ctx.count('restarts')
            trail += 'R'
        else:
            p = solver.suggest_next_position()
            check(isinstance(p, pd.Series) and set(p.index) == set(gates) and bool(np.isfinite(p).all()), 'suggested position', position=p, **info)
            if reference is not None and not reference.undecided:
                q = reference.next()
                scale = 1 + max(np.abs(z).max() for z, _ in reference.points)
                check(bool((np.abs(q - p[gates].values.astype(float)) <= 1e-9 * scale).all()), 'not the position of the Nelder-Mead method',
                      suggested=p[gates], expected=q, move=reference.kind, simplex=reference.points, **info)
                ctx.count('moves_' + reference.kind)
            if rng.random() < .1:
                q = solver.suggest_next_position()
                check(bool((abs(q[p.index] - p) <= 1e-12 * (1 + abs(p))).all()), 'suggestion changes when asked again', first=p, second=q, **info)
            if twin is not None:
                q = twin.suggest_next_position()
                check(bool((abs(q[p.index] - p) <= 1e-9 * (1 + abs(p))).all()), 'reloaded solver suggests another position', original=p, reloaded=q,
                      reload_at=reload_at, **info)
            if k == 0 and rng.random() < .5:
                p = start       # the tuner evaluates the starting point first
                measured = []
        v = p.copy()
        if grid:
            v = np.round(v / grid) * grid
        full = pd.concat([v, pd.Series({g: float(rng.normal()) for g in extra}, dtype=float)])
        full = shuffled(full)
        values = noise_free(v)
        c = cost(values, desired)
        for s in (solver, twin):
            if s is not None:
                s.update_after_step(full.copy(), shuffled(values.copy()), shuffled(values * 0 + 1e-8))
        measured.append((v, c))
        since_restart.append(v[gates].values.astype(float))
        ctx.count('evaluations')
        if reference is not None:
            reference.update(v[gates].values.astype(float), c)
            ctx.count('undecided', reference.undecided)
        points = solver.simplex
        past = np.array(since_restart)
        for pos, _ in points:
            d = pos[gates].values.astype(float)
            check(np.abs(past - d).max(axis=1).min() <= 1e-9 * (1 + np.abs(d).max()),
                  'a point of the simplex was not measured since the (re)start', position=pos, measured=since_restart[-5:], **info)
        check(len(points) <= n + 1, 'simplex has too many points', points=len(points), **info)
        for pos, val in points:
            a = cost(val, desired)
            check(abs(a - cost_at(A, off, pos, desired)) <= 1e-9 * (1 + a), 'simplex values do not belong to their position',
                  position=pos, values=val, measured=noise_free(pos), **info)
        costs = [cost(val, desired) for _, val in points]
        claimed = [float(z) for z in solver.get_costs()]
        check(len(claimed) == len(costs) and np.allclose(claimed, costs, rtol=1e-9, atol=1e-12), 'costs of the simplex', got=claimed, expected=costs, **info)
        if not built:
            trail += 'b'
            check(len(measured) <= n + 3, 'simplex is not built within dimension + 1 measurements', points=len(points), measured=len(measured), **info)
            if len(points) == n + 1:
                built = True
                ctx.count('built')
                D = np.array([(pos[gates] - points[0][0][gates]) / span[gates] for pos, _ in points[1:]])
                sv = np.linalg.svd(D, compute_uv=False)
                check(sv[-1] > 1e-3, 'initial simplex is degenerate', singular_values=sv, **info)
                check(all(np.linalg.norm((pos - measured[0][0][pos.index]) / span[pos.index]) < 3 for pos, _ in points),
                      'initial simplex is not around the start', **info)
                reference = Reference((pos[gates].values.astype(float), a) for (pos, _), a in zip(points, costs))
                b = min(c for _, c in measured)
                check(min(costs) <= b + 1e-12 * (1 + b), 'initial simplex does not contain the best point', best=b, simplex=costs, **info)
        if built:
            now = min(costs)
            if simplex_best:
                check(now <= simplex_best[-1] * (1 + 1e-12) + 1e-15, 'best cost of the simplex increased', before=simplex_best[-1], after=now, **info)
                trail += 'i' if now < simplex_best[-1] else '.'
                ctx.count('best_updates', now < simplex_best[-1])
            simplex_best.append(now)
            best_seen.append(min(c for _, c in measured))
            if len(best_seen) > n + 2:
                b = best_seen[-n - 3]
                check(now <= b * (1 + 1e-12) + 1e-15, 'the best point measured was lost', best=b, simplex=costs, **info)
            if shrinking(solver, reference):
                ctx.count('shrinking')
            spread = max(np.linalg.norm(np.asarray(pos[gates] - points[0][0][gates], dtype=float)) for pos, _ in points[1:])
            if spread < 1e-4 * (1 + np.abs(points[0][0]).max()):
                stop_at = k
                break
        if twin is not None and k > reload_at + 12:
            twin = None
        if rng.random() < .04 and not own:
            twin = reload(solver, os.path.join(path, '%d.h5' % k))
            reload_at = k
            reloads += 1
            if rng.random() < .5:
                solver, twin = twin, solver
    final = min(c for _, c in measured)
    pos = min(measured, key=lambda z: z[1])[0]
    first_cost = measured[0][1]
    dist = float(np.linalg.norm(pos[gates] - x[gates]))
    if not rough and not skewed and (restart is None or restart < 5 or not trail.count('R')):
        check(dist <= 1e-2, 'not converged to the minimum', distance=dist, cost=final, first=first_cost, evaluations=len(measured), steps=trail, **base)
        ctx.count('converged')
    ctx.count('reloads', reloads)
    ctx.distinct(n, len(ps), trail[:40])
    ctx.sample(evaluations=len(measured), distance=dist, reloads=reloads, **base)
