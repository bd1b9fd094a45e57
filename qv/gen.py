"""Random tuning problems.  A spec is a plain dict; build(spec) constructs fresh qtune objects from it, so that the same
problem can be built several times (differential and metamorphic monitors)."""
import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.experiment import Measurement
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SubsetTuner, SensingDotTuner
from qtune.solver import NewtonSolver, ForwardingSolver, make_target

from qv.sim import SimExperiment, SimEvaluator

GATE_NAMES = ['A', 'B', 'AB', 'RFA', 'RFB', 'SDB1', 'SDB2', 'g1', 'g10', 'g2', 'N', 'T_x', 'BA', 'Z', 'gate with space']
PAR_NAMES = ['p', 'p1', 'p10', 'q', 'pq', 'position_RFA', 'position_RFB', 'parameter_tunnel_coupling', 'time', 'r', 'a_b',
             'parameter_time_load', 'zz', 'B2', 'x.y', 'tc(AB)']


def pick(rng, seq, k):
    return [seq[i] for i in rng.permutation(len(seq))[:k]]


def size(rng, lo, hi, top, p=.06):
    """mostly in [lo, hi), sometimes much larger (at most top)"""
    n, big = int(rng.integers(lo, hi)), rng.random()
    return hi + int(big / p * (top + 1 - hi)) if big < p else n


def choice(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


class Lab:
    """parameter name -> function of the true gate voltages"""

    def __init__(self, funcs, units=None):
        self.funcs = funcs
        self.units = units or {}
        self.calls = 0
        self.noise = None           # generator of a relative perturbation of 1e-13
        self.nan = None             # callable(call index, voltages, parameter) -> bool
        self.quantum = None         # resolution of the measured values
        self.log = []               # (call index, voltages, {parameter: value})

    def value(self, v, p):
        return float(self.funcs[p](v)) * self.units.get(p, 1.)

    def __call__(self, v, m):
        i = self.calls
        self.calls += 1
        out = {p: self.value(v, p) for p in m.options['target'].split('+')}
        if self.noise is not None:
            out = {p: x * (1. + 1e-13 * float(self.noise.choice([-1., 1.]))) for p, x in out.items()}
        if self.quantum:
            out = {p: float(np.round(x / self.quantum) * self.quantum) for p, x in out.items()}
        if self.nan is not None:
            out = {p: np.nan if self.nan(i, v, p) else x for p, x in out.items()}
        self.log.append((i, v, dict(out)))
        return np.array(list(out.values()))


def affine(row, offset, curvature=0.):
    gates = list(row)

    def f(v):
        lin = sum(row[g] * float(v[g]) for g in gates) + offset
        return lin + curvature * lin * lin
    return f


def random_spec(rng, max_tuners=3, n_gates=None, sensing=None, estimators=None, invariants=True, slicing=True,
                coupling=.3, rescale=True, actuator=True, noise=True, tol=None, sort_read=None, curvature=0.,
                max_params=2, spread=2., margin=True):
    """coupling: size of the off diagonal entries relative to the diagonal response."""
    if n_gates is None:
        n_gates = size(rng, 2, 6, 12)
        if n_gates > 5 and max_tuners > 1:
            max_tuners, max_params = int(rng.integers(1, 8)), int(rng.integers(1, 9))
    gates = pick(rng, GATE_NAMES, n_gates)
    n_t = int(rng.integers(1, max_tuners + 1))
    tuners, used, params_all, A = [], 0, [], {}
    names = pick(rng, PAR_NAMES, len(PAR_NAMES))
    estimators = estimators or ['kalman', 'kalman_approx', 'kalman_unknown', 'fd', 'fd_sym']
    use_sensing = (rng.random() < .35) if sensing is None else sensing
    sgates = []
    v0 = {g: float(np.round(rng.normal() * spread, 3)) for g in gates}
    if use_sensing and n_gates >= 3:
        ns = 2 if n_gates >= 4 else int(rng.integers(1, 3))
        sgates = gates[-ns:]
        free = gates[:-ns]
        names = [x for x in names if x not in ['position_' + g for g in sgates]]
        opt = {g: float(np.round(v0[g] + rng.normal() * .8, 3)) for g in sgates}
        w = float(rng.uniform(.5, 1.5))
        S = float(rng.uniform(.5, 4.))
        resc = {n: float(choice(rng, [1., 1., .5, 3., 1e-3])) if rescale else 1.
                for n in ['current_signal'] + ['position_' + g for g in sgates]}
        minimum = S * float(rng.uniform(.5, .9))
        tuners.append(dict(kind='sensing', gates=list(sgates), opt=opt, w=w, S=S, rescale=resc,
                           minimum=minimum, cost=minimum * float(rng.uniform(.1, 1.)),
                           cheap_gate=sgates[0], drift=float(rng.normal() * .05),
                           solver_gates=list(sgates) if rng.random() < .5 else list(gates)))
    else:
        free = list(gates)
    for t in range(n_t):
        room = len(free) - used
        if room <= 0:
            break
        k = int(rng.integers(1, min(room, max_params) + 1))
        if t == n_t - 1 and rng.random() < .5:
            k = min(room, max_params)
        ps = [names.pop() for _ in range(k)]
        main = free[used:used + k]
        used += k
        for p, g in zip(ps, main):
            d = float(rng.uniform(.5, 2.)) * choice(rng, [-1., 1.])
            A[p] = {h: (float(rng.normal()) * coupling * abs(d) / max(1, len(gates) - 1)) for h in gates}
            A[p][g] = d
        tg = list(main)
        extra = [g for g in free if g not in main]
        est = choice(rng, estimators)
        shared = any(g in s['gates'] for g in main for s in tuners if s['kind'] == 'subset')
        if est.startswith('fd') and shared:
            # finite differences need gates which lower tuners do not move in between
            est = 'kalman'
        inv = []
        low = [q for q in params_all]
        if invariants and low and not est.startswith('fd') and rng.random() < .6:
            inv = pick(rng, low, int(rng.integers(1, len(low) + 1)))
            # gates of the parameters kept invariant are needed as well
            for q in inv:
                for s in tuners:
                    if s['kind'] == 'subset' and q in s['params']:
                        tg += [g for g in s['gates'] if g not in tg]
        if not est.startswith('fd'):
            tg += [g for g in extra if g not in tg and rng.random() < .25]
        tg = pick(rng, tg, len(tg))
        rows = ps + inv
        rows = pick(rng, rows, len(rows))
        desired = {p: float(np.round(rng.normal() * 1.5, 3)) for p in ps}
        tolerance = {p: float(tol if tol is not None else rng.uniform(.005, .05)) for p in ps}
        own = pick(rng, ps, len(ps))
        cut = int(rng.integers(1, len(own) + 1))
        evs = [e for e in (own[:cut], own[cut:]) if e]
        evs = pick(rng, evs, len(evs))
        inv_in_evaluator = bool(inv) and rng.random() < .5
        if inv_in_evaluator:
            evs.append(pick(rng, inv, len(inv)))
        step = np.nan
        number = 1
        if slicing and rng.random() < .5:
            step = float(choice(rng, [.1, .3, 1., 3.]))
            number = int(rng.integers(1, 6))
        est_gates = list(tg)
        if est.startswith('kalman') and rng.random() < .5:
            est_gates = list(gates)
        est_gates = pick(rng, est_gates, len(est_gates))
        tuners.append(dict(
            kind='subset', params=ps, rows=rows, gates=tg, est=est, est_gates=est_gates,
            desired=desired, tolerance=tolerance, evaluators=evs,
            rescale={p: (float(choice(rng, [1., 1., 2., .1, 1e-3, 50.])) if rescale else 1.) for p in rows},
            variance=float(choice(rng, [1e-8, 1e-6, 1e-4])) if noise else 1e-8,
            step=step, number=number, epsilon=float(choice(rng, [.05, .1, .4])),
            maxcov=1e-2, approx={p: {g: float(rng.normal() * .05) for g in gates} for p in rows},
            pos_order=pick(rng, tg, len(tg))))
        params_all += ps
    offsets = {p: float(np.round(rng.normal(), 3)) for p in A}
    act = None
    if actuator and rng.random() < .3:
        act = dict(grid=float(choice(rng, [1e-6, 1e-5, 1e-4])))
    return dict(gates=gates, v0=v0, A=A, offsets=offsets, tuners=tuners, actuator=act, curvature=curvature,
                sort_read=bool(rng.random() < .3) if sort_read is None else sort_read, share=bool(rng.random() < .35))


class Problem:
    pass


def sensing_functions(t, gates):
    """parameters of the simulated sensing dot"""
    funcs = {}
    others = [g for g in gates if g not in t['gates']]

    def optimum(v, g):
        return t['opt'][g] + (t['drift'] * sum(float(v[o]) for o in others) if others else 0.)

    def signal(v):
        return t['S'] * np.exp(-sum((float(v[g]) - optimum(v, g)) ** 2 for g in t['gates']) / t['w'] ** 2)
    funcs['current_signal'] = signal
    for g in t['gates']:
        funcs['position_' + g] = lambda v, g=g: optimum(v, g)
    return funcs


def position(spec, gates, shared):
    """a user may give one and the same object as the position of several estimators and solvers"""
    pos = pd.Series({g: spec['v0'].get(g, spec.get('unknown_at', 0.)) for g in gates})
    if shared is None:
        return pos
    return shared.setdefault(frozenset(gates) if spec.get('share') else len(shared), given(shared, pos))


def given(shared, obj):
    shared.setdefault('given', []).append((obj, obj.copy()))
    return obj


def modified(pr):
    """object given by the user which was modified in place"""
    for obj, copy in pr.shared.get('given', []):
        if list(obj.index) != list(copy.index) or not all(obj[g] == copy[g] for g in copy.index):
            return dict(now=obj, given=copy)


def make_estimator(t, p, spec, units, shared=None):
    gates = t.get('est_gates_of', {}).get(p, t['est_gates'])
    resc = t['rescale'][p]          # already without units, gradient of the rescaled parameter
    true = np.array([spec['A'][p].get(g, 0.) for g in gates]) / resc
    # position order of the estimator is its own
    cp = position(spec, gates, shared)
    est = t['est']
    if p not in t['desired'] and est != 'kalman_approx':
        est = 'kalman'      # gradients of parameters kept invariant are never measured, they have to be known
    if est.startswith('kalman'):
        if est == 'kalman':
            g0, c0 = true, 1e-6
        elif est == 'kalman_approx':
            g0 = true + np.array([t['approx'][p].get(g, 0.) for g in gates]) / resc * abs(true).max() * resc
            c0 = 4e-3
        else:
            g0, c0 = np.zeros(len(gates)), 10. / resc ** 2
        maxcov = t['maxcov'] / min(1., resc) ** 2
        if t.get('scaled'):
            # knowledge in original units
            c0, maxcov = dict(kalman=1e-6, kalman_approx=t.get('approx_cov', 4e-3), kalman_unknown=10.)[est] / resc ** 2, t['maxcov'] / resc ** 2
        kg = KalmanGradient(len(gates), 1, initial_gradient=g0, initial_covariance_matrix=np.eye(len(gates)) * c0,
                            measurement_covariance_matrix=np.eye(1) * 1e-4,
                            process_noise=np.eye(len(gates)) * t.get('process_noise', 0.), alpha=t.get('alpha', 1.))
        return KalmanGradientEstimator(kg, current_position=cp,
                                       maximum_covariance=maxcov, epsilon=t['epsilon'])
    return FiniteDifferencesGradientEstimator(current_position=cp, epsilon=t['epsilon'], symmetric=t['est'] == 'fd_sym')


def build(spec, path=None, units=None, with_time=True):
    units = units or {}
    pr = Problem()
    pr.spec = spec
    pr.shared = {}
    gates = spec['gates']
    funcs = {p: affine(spec['A'][p], spec['offsets'][p], spec.get('curvature', 0.)) for p in spec['A']}
    for t in spec['tuners']:
        if t['kind'] == 'sensing':
            funcs.update(sensing_functions(t, gates))
    pr.lab = Lab(funcs, units)
    act = None
    if spec['actuator']:
        grid = spec['actuator']['grid']
        act = lambda g, x: float(np.round(x / grid) * grid)
    pr.exp = SimExperiment({g: spec['v0'][g] for g in gates}, pr.lab, actuator=act, sort_read=spec['sort_read'])
    pr.tuners = []
    for ti, t in enumerate(spec['tuners']):
        if t['kind'] == 'sensing':
            pr.tuners.append(build_sensing(pr, t, units))
        else:
            pr.tuners.append(build_subset(pr, t, spec, units, ti))
    pr.autotuner = Autotuner(pr.exp, pr.tuners, hdf5_storage_path=path, append_time_to_path=with_time)
    return pr


def build_subset(pr, t, spec, units, ti=0):
    rows = t['rows']
    f = pd.Series({p: t['rescale'][p] * units.get(p, 1.) for p in rows})
    s = lambda d: pd.Series({p: (d[p] / t['rescale'][p] if p in d else np.nan) for p in rows})
    target = make_target(desired=s(t['desired']), tolerance=s(t['tolerance']), rescaling_factor=f)
    ests = [make_estimator(t, p, spec, units, pr.shared) for p in rows]
    pos = position(spec, t['pos_order'], pr.shared)
    solver = NewtonSolver(target=target, gradient_estimators=ests, current_position=pos)
    evs = [SimEvaluator(pr.exp, tuple(e), name='ev%d_%d' % (ti, i),
                        variance={p: t['variance'] * ((1. if t.get('scaled') else t['rescale'].get(p, 1.)) * units.get(p, 1.)) ** 2
                                  for p in e})
           for i, e in enumerate(t['evaluators'])]
    return SubsetTuner(evs, t['gates'], solver=solver, maximal_step_size=t['step'], maximal_step_number=t['number'],
                       last_voltage=None if t.get('last_voltage') is None else given(pr.shared, pd.Series(t['last_voltage'])))


def build_sensing(pr, t, units):
    cheap = ['current_signal', 'position_' + t['cheap_gate']]
    exp = ['position_' + g for g in t['gates']]
    names = sorted(set(cheap))
    resc = {p: t['rescale'][p] * units.get(p, 1.) for p in t['rescale']}
    mini = {'current_signal': t['minimum'] / t['rescale']['current_signal']}
    cost = {'current_signal': t['cost'] / t['rescale']['current_signal']}
    names = sorted(set(cheap + exp))
    s = lambda d: pd.Series({p: d.get(p, np.nan) for p in names})
    target = make_target(desired=s({}), minimum=s(mini), cost_threshold=s(cost), rescaling_factor=pd.Series(
        {p: resc[p] for p in names}))
    cp = position(pr.spec, t['solver_gates'], pr.shared)
    solver = ForwardingSolver(target=target, values_to_position=pd.Series({'position_' + g: g for g in t['gates']}),
                              current_position=cp)
    var = lambda ps: {p: 1e-6 * resc[p] ** 2 for p in ps}
    ce = SimEvaluator(pr.exp, tuple(cheap), name='cheap', variance=var(cheap))
    ee = SimEvaluator(pr.exp, tuple(exp), name='expensive', variance=var(exp))
    return SensingDotTuner([ce], [ee], t['gates'], solver=solver,
                           last_voltage=None if t.get('last_voltage') is None else given(pr.shared, pd.Series(t['last_voltage'])))


def summary(spec):
    return dict(gates=spec['gates'], tuners=[dict(kind=t['kind'], params=t.get('params'), rows=t.get('rows'),
                                                  gates=t['gates'], est=t.get('est'), step=t.get('step'),
                                                  number=t.get('number')) for t in spec['tuners']])
