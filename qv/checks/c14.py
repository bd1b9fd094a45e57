"""C14: an autotuner reloaded from the file of any iteration against the original which was never interrupted."""
import hashlib
import os

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner, load_auto_tuner
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NelderMeadSolver, make_target

from qv.core import check
from qv import dqd, evals, gen, snap
from qv.sim import SimEvaluator, SimExperiment

PROPERTY = 'C14'
N = dict(quick=60, thorough=2500)
RULE = ('random tuning runs with storage (simulated linear labs with all tuner/estimator kinds and failing evaluations, simulated double dots with '
        'the real evaluators, Nelder-Mead setups), 4-40 iterations with occasional restarts and target changes; reloaded at up to 5 crash points and '
        'continued side by side, and once reloaded after every single iteration; non-trivial: distinct (setup kind, tuner and estimator '
        'types, state at the crash point)')
REQUIRED = dict(reloads=2., continued_iterations=5., chain_reloads=2., pending_crashes=.2, mid_gradient=.05, queued=.02, neldermead=.1, real_evaluators=.1, evaluator_reloads=1., evaluator_evaluations=1.)


class Scenario:
    """an autotuner with a scripted operator; the same object can be rebuilt around a reloaded autotuner"""

    def __init__(self, rng, path):
        self.kind = gen.choice(rng, ['linear', 'linear', 'linear', 'dqd', 'dqd', 'nelder'])
        if self.kind == 'linear':
            sp = gen.random_spec(rng, max_tuners=3, curvature=float(gen.choice(rng, [0., .03])))
            for t in sp['tuners']:
                if t['kind'] == 'subset' and rng.random() < .3:
                    t['alpha'] = float(gen.choice(rng, [1.02, 1.1]))
                    t['process_noise'] = float(rng.uniform(0, 1e-3))
            coarse = rng.random() < .35
            if coarse:
                # values of limited resolution: a value can be exactly zero
                for t in sp['tuners']:
                    for p in t.get('desired', ()):
                        if rng.random() < .7:
                            t['desired'][p] = 0.
            pr = gen.build(sp, path=path)
            pr.lab.quantum = float(gen.choice(rng, [.01, .25])) if coarse else None
            bad = {int(x) for x in rng.integers(len(pr.tuners) * 2 + 2, 60, int(rng.integers(0, 4)))}
            pr.lab.nan = lambda i, v, p: i in bad
            self.lab, self.exp, self.auto = pr.lab, pr.exp, pr.autotuner
            self.types = tuple(t.get('est', t['kind']) for t in sp['tuners'])
        elif self.kind == 'dqd':
            pr = dqd.build(dqd.spec(rng), path=path)
            bad = {int(x) for x in rng.integers(8, 60, int(rng.integers(0, 3)))}
            pr.dot.fail = lambda i, v, m: i in bad
            self.lab, self.exp, self.auto = pr.dot, pr.exp, pr.autotuner
            self.types = tuple(type(e).__name__ for t in pr.tuners for e in t.evaluators)
        else:
            self.nelder(rng, path)
        self.restarts = {int(x) for x in rng.integers(3, 40, 1)} if rng.random() < .3 else set()
        self.moves = {i: {g: float(rng.normal() * .1 * self.scale()) for g in self.exp.gate_voltage_names} for i in self.restarts}
        self.changes = {int(rng.integers(3, 30)): float(rng.uniform(.8, 1.2))} if rng.random() < .3 else {}

    def scale(self):
        return 1e-3 if self.kind == 'dqd' else 1.

    def nelder(self, rng, path):
        n = gen.size(rng, 1, 4, 11)
        gates = gen.pick(rng, gen.GATE_NAMES, n + int(rng.integers(0, 2)))
        own = gates[:n]
        ps = gen.pick(rng, gen.PAR_NAMES, int(rng.integers(1, n + 2)))
        A = {p: {g: float(rng.normal()) for g in own} for p in ps}
        v0 = {g: float(np.round(rng.normal(), 3)) for g in gates}
        self.lab = gen.Lab({p: gen.affine(A[p], float(rng.normal())) for p in ps})
        self.exp = SimExperiment(v0, self.lab)
        f = pd.Series({p: float(gen.choice(rng, [1., 2., .1])) for p in ps})
        target = make_target(desired=pd.Series({p: float(rng.normal()) for p in ps}), tolerance=pd.Series({p: .01 for p in ps}),
                             rescaling_factor=f)
        cp = pd.Series(v0)[own]
        solver = NelderMeadSolver.from_scratch(target=target, span=pd.Series({g: float(rng.uniform(.1, 1.)) for g in own}),
                                               current_position=cp, current_values=pd.Series({p: self.lab.value(v0, p) / f[p] for p in ps}))
        ev = SimEvaluator(self.exp, tuple(ps), name='ev')
        t = SubsetTuner([ev], own, solver=solver, maximal_step_size=float(gen.choice(rng, [np.nan, .3])), maximal_step_number=2)
        self.auto = Autotuner(self.exp, [t], hdf5_storage_path=path)
        self.types = ('nelder', n, len(ps))

    # ---- one step of the scripted run; returns a description of everything that happened
    def step(self, auto, exp, lab, i):
        n = len(exp.trace)
        err = None
        try:
            if i in self.restarts:
                exp.force(exp.true_voltages + pd.Series(self.moves[i]))
                auto.restart()
            if i in self.changes:
                f = self.changes[i]
                auto.change_targets([{'desired': t.target['desired'].dropna() * f} if t.target['desired'].notna().any() else {}
                                     for t in auto.tuning_hierarchy])
            if auto.is_tuning_complete():
                return None
            auto.iterate()
        except Exception as e:
            err = type(e).__name__
        events = [tuple(e) for e in exp.trace[n:] if e[0] != 'read']
        return dict(events=[norm(e) for e in events], error=err, state=snap.autotuner(auto))

    def clone(self, when):
        """fresh experiment in the same condition"""
        v, calls = when
        exp = SimExperiment(v.copy(), None, actuator=self.exp.actuator, sort_read=self.exp.sort_read)
        lab = clone_lab(self.lab, calls)
        exp.response = lab
        return exp, lab


def clone_lab(lab, calls):
    new = object.__new__(type(lab))
    new.__dict__.update(lab.__dict__)
    new.calls = calls
    new.log = []
    return new


def norm(e):
    if e[0] == 'set':
        return ('set', e[1].copy())
    return ('measure', e[1], dict(e[2]), e[3].copy())


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def join(auto):
    auto.asynchrone_writer.join()


def load(path, exp, rng, info):
    before = digest(path)
    n = len(exp.trace)
    auto = load_auto_tuner(path, reserved={'experiment': exp})
    check(digest(path) == before, 'loading changed the file', **info)
    check(not [e for e in exp.trace[n:] if e[0] != 'read'], 'loading touched the experiment', **info)
    return auto


def kind_of_state(auto):
    return ('pending' if auto.voltages_to_set is not None else 'not_tuned' if auto.current_tuner_status else
            'complete' if auto.is_tuning_complete() else 'idle', int(auto.current_tuner_index))


def case(rng, ctx, index):
    for _ in range(2):
        evals.round_trip(rng, ctx)
    path = ctx.tmpdir()
    sc = Scenario(rng, path)
    info = dict(setup=sc.kind, types=sc.types)
    n = int(rng.integers(4, 41))
    record, files, conditions = [], [], []
    start = (sc.exp.true_voltages, sc.lab.calls)
    try:
        for i in range(n):
            r = sc.step(sc.auto, sc.exp, sc.lab, i)
            if r is None:
                break
            record.append(r)
            files.append(sc.auto.last_save_file if r['error'] is None else None)
            conditions.append((sc.exp.true_voltages, sc.lab.calls, kind_of_state(sc.auto)))
            if r['error'] is not None or sc.exp.true_voltages.abs().max() > 1e3:
                break
        final_complete = sc.auto.is_tuning_complete()
    finally:
        join(sc.auto)
    usable = [k for k in range(len(files)) if files[k] is not None]
    if not usable:
        return
    ks = gen.pick(rng, usable, min(5, len(usable)))
    for k in ks:
        exp, lab = sc.clone(conditions[k][:2])
        where = dict(crash_after=k + 1, state=conditions[k][2], **info)
        auto = load(files[k], exp, rng, where)
        try:
            ctx.count('reloads')
            st = conditions[k][2]
            ctx.count('pending_crashes', st[0] == 'pending')
            ctx.count('neldermead', sc.kind == 'nelder')
            ctx.count('real_evaluators', sc.kind == 'dqd')
            ctx.count('mid_gradient', any(e['estimate'] is None for t in record[k]['state']['tuners']
                                          for e in t['solver'].get('estimators', [])))
            d = snap.diff(record[k]['state'], snap.autotuner(auto))
            check(d is None, 'reloaded state differs from the stored one', difference=d, **where)
            ctx.distinct(sc.kind, sc.types, st)
            steps = len(record) - k - 1
            steps = min(steps, int(rng.integers(4, 16)))
            for j in range(k + 1, k + 1 + steps):
                compare(sc.step(auto, exp, lab, j), record[j], j, where)
                ctx.count('continued_iterations')
                # an iteration which only passes the next slice of a long step
                ctx.count('queued', not record[j]['events'] and record[j]['state']['status'] and not record[j - 1]['state']['status'])
            if k + 1 + steps == len(record) and record[-1]['error'] is None:
                check(auto.is_tuning_complete() == final_complete, 'result differs', **where)
        finally:
            join(auto)
    # reloaded again after every iteration
    k = usable[int(rng.integers(len(usable)))]
    exp, lab = sc.clone(conditions[k][:2])
    auto = load(files[k], exp, rng, info)
    for j in range(k + 1, min(len(record), k + 9)):
        try:
            r = sc.step(auto, exp, lab, j)
        finally:
            join(auto)
        compare(r, record[j], j, dict(chain_from=k + 1, **info), tol=1e-9)
        ctx.count('chain_reloads')
        if r is None or r['error'] is not None:
            break
        auto = load(auto.last_save_file, exp, rng, info)
    ctx.sample(setup=sc.kind, types=sc.types, iterations=len(record), crashes=[conditions[k][2] for k in ks])


def compare(got, want, j, info, tol=1e-10):
    check(got is not None, 'reloaded autotuner is complete, the original was not', iteration=j + 1, **info)
    d = snap.diff(dict(error=want['error'], events=want['events']), dict(error=got['error'], events=got['events']), tol)
    check(d is None, 'reloaded autotuner acts differently (original / reloaded)', difference=d, iteration=j + 1, **info)
    d = snap.diff(want['state'], got['state'], tol)
    check(d is None, 'state of the reloaded autotuner differs (original / reloaded)', difference=d, iteration=j + 1, **info)
