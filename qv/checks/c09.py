"""C09: Kalman gradient tracking against a reference filter run alongside (online differential checker)."""
import numpy as np
import pandas as pd

from qtune.gradient import KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient

from qv.core import check
from qv import gen
from qv.stubs import same

PROPERTY = 'C09'
N = dict(quick=4000, thorough=60000)
RULE = ('random filters (dimensions, transition, process noise, fading memory, per call overrides) fed 5-40 updates, directly and '
        'through the estimator with repeated positions, exploratory (unflagged) updates and restarts; non-trivial: distinct '
        '(layer, dimensions, features, history of update kinds)')
REQUIRED = dict(updates=5., estimator_updates=3., no_move=.3, unflagged=.5, restarts=.1, psd_checks=5.)


class Reference:
    """textbook filter, written with solve instead of inverses and in standard covariance form"""

    def __init__(self, x, P, R, Q, F, alpha):
        self.x, self.P, self.R, self.Q, self.F, self.alpha = [np.array(a, dtype=float) for a in (x, P, R, Q, F, alpha)]

    def update(self, H, z, R=None, Q=None, predict=True):
        R = self.R if R is None else np.atleast_2d(np.array(R, dtype=float)) * np.ones((1, 1))
        if R.shape != self.R.shape:
            R = np.eye(len(self.R)) * float(R)
        Q = self.Q if Q is None else np.array(Q, dtype=float)
        if predict:
            self.x = self.F @ self.x
            self.P = self.alpha ** 2 * self.F @ self.P @ self.F.T + Q
        S = H @ self.P @ H.T + R
        K = np.linalg.solve(S, H @ self.P).T
        self.x = self.x + K @ (z - H @ self.x)
        I = np.eye(len(self.x))
        self.P = (I - K @ H) @ self.P @ (I - K @ H).T + K @ R @ K.T
        self.P = (self.P + self.P.T) / 2


def rand_psd(rng, m, scale=1.):
    a = rng.normal(size=(m, m))
    return scale * (a @ a.T / m + .05 * np.eye(m))


def close(a, b, scale, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * scale)


def compare(ctx, grad, cov, ref, shape, info, tol=1e-8):
    x = ref.x.reshape(shape)
    check(close(grad, x, max(1e-3, np.abs(x).max()), tol), 'estimated gradient differs from the Kalman filter', got=grad, expected=x, **info)
    p = max(np.abs(ref.P).max(), 1e-12)
    check(close(cov, ref.P, p, tol), 'covariance differs from the Kalman filter', got=cov, expected=ref.P, **info)
    cov = np.asarray(cov)
    check(np.abs(cov - cov.T).max() <= tol / 10 * p, 'covariance is not symmetric', got=cov, **info)
    check(np.linalg.eigvalsh((cov + cov.T) / 2)[0] >= -tol / 10 * p, 'covariance is not positive semidefinite', got=cov, **info)
    ctx.count('psd_checks')


def setup(rng, m, k):
    n = m * k
    feats = [rng.random() < .5 for _ in range(6)]
    kw = {}
    x = np.zeros(n)
    P, R, Q, F, alpha = np.eye(n), np.eye(k), np.zeros((n, n)), np.eye(n), 1.
    if feats[0]:
        x = rng.normal(size=n)
        kw['initial_gradient'] = gen.choice(rng, [x.copy(), list(x), x.reshape(k, m).copy()])
    if feats[1]:
        P = rand_psd(rng, n, 10. ** rng.uniform(-2, 1))
        kw['initial_covariance_matrix'] = P.copy()
    if feats[2]:
        R = rand_psd(rng, k, 10. ** rng.uniform(-2, 0))
        kw['measurement_covariance_matrix'] = R.copy()
    if feats[3]:
        Q = rand_psd(rng, n, 10. ** rng.uniform(-4, -1))
        kw['process_noise'] = Q.copy()
    if feats[4]:
        F = np.eye(n) + .1 * rng.normal(size=(n, n))
        kw['state_transition_function'] = F.copy()
    if feats[5]:
        alpha = float(rng.uniform(1., 1.1))
        kw['alpha'] = alpha
    return kw, Reference(x, P, R, Q, F, alpha), feats


def direct(rng, ctx):
    m, k = gen.size(rng, 1, 5, 12), gen.size(rng, 1, 4, 5)
    kw, ref, feats = setup(rng, m, k)
    kg = KalmanGradient(m, k, **kw)
    hist = ''
    for i in range(int(rng.integers(5, 41))):
        dp, dv = rng.normal(size=m) * 10. ** rng.uniform(-2, .5), rng.normal(size=k)
        H = np.zeros((k, m * k))
        for j in range(k):
            H[j, j * m:(j + 1) * m] = dp
        a = {}
        if rng.random() < .3:
            a['measurement_covariance'] = rand_psd(rng, k, .1)
        if rng.random() < .2:
            a['process_covariance'] = rand_psd(rng, m * k, .01)
        if rng.random() < .2:
            a['predict'] = False
        ref.update(H, dv, a.get('measurement_covariance'), a.get('process_covariance'), a.get('predict', True))
        kg.update(gen.choice(rng, [dp.copy(), list(dp)]), gen.choice(rng, [dv.copy(), list(dv)]), **a)
        ctx.count('updates')
        hist += 'mqp'[:len(a)] or '.'
        info = dict(update=i, dims=(m, k), features=feats, overrides=sorted(a))
        compare(ctx, kg.grad, kg.cov, ref, (k, m), info)
        s = np.asarray(kg.sugg_diff_position)
        check(s.shape == (m,) and np.linalg.norm(s) > 0, 'suggested difference', got=s)
        if k == 1:
            lam = np.linalg.eigvalsh(ref.P)
            q = s @ ref.P @ s / (s @ s)
            check(q >= lam[-1] * (1 - 1e-6), 'suggested difference is not in the direction of largest uncertainty', got=s, **info)
    ctx.distinct('direct', m, k, tuple(feats), hist)
    ctx.sample(layer='filter', dims=(m, k), features=feats, history=hist)


def estimator(rng, ctx):
    m = gen.size(rng, 1, 6, 12)
    gates = gen.pick(rng, gen.GATE_NAMES, m)
    foreign = [g for g in gen.GATE_NAMES if g not in gates][:2]
    kw, ref, feats = setup(rng, m, 1)
    cur = {g: float(rng.normal()) for g in gates}
    small = rng.random() < .4       # precise measurements
    value = None
    a = {}
    if rng.random() < .4:
        value = a['current_value'] = float(rng.normal())
    est = KalmanGradientEstimator(KalmanGradient(m, 1, **kw), pd.Series(cur)[gates], maximum_covariance=1., epsilon=.1, **a)
    hist = ''
    for i in range(int(rng.integers(5, 31))):
        r = rng.random()
        if r < .08:
            new = {g: float(rng.normal()) for g in gates}
            ser = dict(new, **{foreign[0]: 3.})
            est.restart(pd.Series({g: ser[g] for g in gen.pick(rng, list(ser), m + 1)}))
            cur, value = new, None
            hist += 'R'
            ctx.count('restarts')
        else:
            flag = rng.random() < .6
            stay = rng.random() < .2
            if stay:
                pos = {g: x + (float(rng.choice([0., 1e-9])) / m) for g, x in cur.items()}
                kind = 's'
                ctx.count('no_move')
            elif rng.random() < .3:
                g0 = gen.choice(rng, gates)
                pos = dict(cur)
                pos[g0] += float(rng.normal())
                kind = 'x'
            elif rng.random() < .1:
                # small moves are moves
                pos = {g: x + float(rng.choice([-1., 1.]) * rng.uniform(1, 9)) * 1e-6 for g, x in cur.items()}
                kind = 't'
            else:
                pos = {g: x + float(rng.normal()) * .3 for g, x in cur.items()}
                kind = 'm'
            z, var = float(rng.normal()), float(10. ** rng.uniform(-7 if small else -4, 0))
            ser = dict(pos, **({foreign[1]: 1.} if rng.random() < .5 else {}))
            given = pd.Series({g: ser[g] for g in gen.pick(rng, list(ser), len(ser))})
            before = np.array(est.estimate()), np.array(est.covariance())
            if flag or rng.random() < .5:
                est.update(given, z, var, is_new_position=flag)
            else:
                est.update(given, z, var)
            ctx.count('estimator_updates')
            if not flag:
                ctx.count('unflagged')
            if value is None:
                value, cur = z, pos
                check(close(est.estimate(), before[0], 1., 1e-15) and close(est.covariance(), before[1], 1., 1e-15),
                      'the first value changes the gradient', history=hist)
                hist += '1'
            else:
                d = np.array([pos[g] - cur[g] for g in gates])
                if kind != 's':
                    ref.update(d[None, :], np.array([z - value]), [[var]])
                else:
                    check(close(est.estimate(), before[0], 1., 1e-15) and close(est.covariance(), before[1], 1., 1e-15),
                          'an update without position change touches the gradient', history=hist)
                if flag:
                    value, cur = z, pos
                hist += kind.upper() if flag else kind
        info = dict(gates=gates, history=hist, features=feats)
        got, cov = est.estimate(), est.covariance()
        check(list(got.index) and set(got.index) == set(gates) == set(cov.index) == set(cov.columns), 'labels', **info)
        compare(ctx, got[gates].values.reshape(1, m), cov.loc[gates, gates].values, ref, (1, m), info,
                # the filter loses digits when measurements are much more precise than the estimate
                tol=1e-6 if small else 1e-8)
        check(same(est.current_position, pd.Series(cur), 1e-8), 'reference position', got=est.current_position, expected=cur, **info)
    ctx.distinct('estimator', m, tuple(feats), hist)
    ctx.sample(layer='estimator', gates=gates, history=hist, gradient=est.estimate())


def case(rng, ctx, index):
    if rng.random() < .4:
        direct(rng, ctx)
    else:
        estimator(rng, ctx)
