"""C12: restarts and target changes at every point of tuning histories; trace oracle for the time after."""
import numpy as np
import pandas as pd

from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.solver import NewtonSolver

from qv.core import check
from qv import gen
from qv.checks import c01
from qv.stubs import same

PROPERTY = 'C12'
N = dict(quick=700, thorough=30000)
RULE = ('random tuning problems, iterated 0-40 times (the last evaluations may fail), then restart (operator turned knobs) or change of targets (random subset of entries), '
        '1-3 times per run, followed by up to 25 iterations each; non-trivial: distinct (event, pending/queued/complete state at the event, '
        'setup)')
REQUIRED = dict(restarts=.4, target_changes=.4, pending_voltages=.1, after_failure=.05, after_complete=.1, first_evaluations=.6, newton_steps=.1,
                requests_after_restart=.01, verdicts=.6)


def verdict_oracle(t, target, values):
    """definition of C03/C06; None if too close to a limit"""
    ok = True
    for p in target.index:
        if p not in values:
            continue
        x = values[p] / target['rescaling_factor'][p]
        if t['kind'] == 'subset':
            d, tol = target['desired'][p], target['tolerance'][p]
            if d != d or tol != tol:
                continue
            if abs(abs(x - d) - tol) < 1e-9 * max(1., abs(x)):
                return None
            ok = ok and abs(x - d) < tol
        else:
            m = target['minimum'][p]
            if m != m:
                continue
            if abs(x - m) < 1e-9 * max(1., abs(x)):
                return None
            ok = ok and x > m
    return bool(ok)


class World:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.spec = gen.random_spec(rng, max_tuners=3, curvature=float(gen.choice(rng, [0., .03])))
        self.pr = gen.build(self.spec)
        self.events = []
        for i, t in enumerate(self.pr.tuners):
            c01.instrument(t, i, self.events)
        self.targets = [t.target.copy() for t in self.pr.tuners]
        self.tuned = [[] for _ in self.pr.tuners]
        self.info = dict(setup=gen.summary(self.spec))
        self.values = [None] * len(self.pr.tuners)
        self.evaluated = False

    def check_tuned(self):
        for i, t in enumerate(self.pr.tuners):
            got = t.tuned_voltages
            check(len(got) == len(self.tuned[i]) and all(same(a, b) for a, b in zip(got, self.tuned[i])),
                  'recorded tuned voltages changed', tuner=i, got=list(got), expected=self.tuned[i], **self.info)

    def iterate(self, first=False):
        pr, exp = self.pr, self.pr.exp
        del self.events[:]
        n_trace, n_log = len(exp.trace), len(pr.lab.log)
        before = [(t.solver.current_position.copy(), [e.current_position.copy() if e.current_position is not None else None
                                                      for e in getattr(t.solver, 'gradient_estimators', [])]) for t in pr.tuners]
        pr.autotuner.iterate()
        sets = [e for e in exp.trace[n_trace:] if e[0] == 'set']
        if first:
            check(not sets, 'voltages set although nothing was evaluated yet', sets=[s[1] for s in sets], **self.info)
            check(len(self.events) == 1 and self.events[0][:2] == ('eval', 0), 'the next iteration does not evaluate the lowest tuner',
                  events=[e[:2] for e in self.events], **self.info)
            self.ctx.count('first_evaluations')
        for e in self.events:
            i, t = e[1], self.spec['tuners'][e[1]]
            if e[0] == 'eval':
                vals = {}
                for _, _, d in pr.lab.log[n_log:]:
                    for p, x in d.items():
                        vals.setdefault(p, x)
                if first:
                    check(bool(vals), 'nothing was measured in the evaluation', **self.info)
                if vals:
                    want = verdict_oracle(t, self.targets[i], vals)
                    self.values[i] = dict(vals)
                    self.ctx.count('verdicts')
                    if want is not None:
                        check(want == e[3], 'verdict does not follow the targets', verdict=e[3], values=vals, target=self.targets[i],
                              tuner=i, **self.info)
                else:
                    self.values[i] = None
                if e[3]:
                    self.tuned[i].append(e[2])
            else:
                self.next_voltages(i, t, e)
        self.check_tuned()
        return sets

    def next_voltages(self, i, t, e):
        tuner = self.pr.tuners[i]
        if t['kind'] != 'subset' or t['est'] != 'kalman' or self.values[i] is None or t['step'] == t['step']:
            return
        target, s = self.targets[i], tuner.solver
        vals = self.values[i]
        d = np.array([(target['desired'][p] - vals[p] / target['rescaling_factor'][p])
                      if target['desired'][p] == target['desired'][p] else 0. for p in target.index])
        J = np.array([[g.estimate()[x] for x in t['gates']] for g in s.gradient_estimators])
        if np.linalg.cond(J) > 1e4 or any(x != x for x in vals.values()):
            return
        pos = tuner.last_voltages
        want = pd.Series(np.linalg.pinv(J) @ d, index=t['gates']) + pos[t['gates']]
        check(same(e[3][t['gates']], want, 1e-7), 'the step does not lead to the present targets', got=e[3], expected=want,
              target=target, values=vals, tuner=i, **self.info)
        self.ctx.count('newton_steps')

    def diverged(self):
        return self.pr.exp.true_voltages.abs().max() > 1e3     # strongly nonlinear problem

    def state(self):
        a = self.pr.autotuner
        return ('complete' if a.is_tuning_complete() else 'pending' if a.voltages_to_set is not None else
                'not_tuned' if a.current_tuner_status else 'idle', int(a.current_tuner_index))

    def restart(self):
        rng, exp, auto = self.rng, self.pr.exp, self.pr.autotuner
        if rng.random() < .8:
            gs = gen.pick(rng, self.spec['gates'], int(rng.integers(1, len(self.spec['gates']) + 1)))
            exp.force(pd.Series({g: float(np.round(exp.true_voltages[g] + rng.normal(), 3)) for g in gs}))
        v = exp.true_voltages
        n = len(exp.trace)
        measured = len(self.pr.lab.log)
        auto.restart()
        check(not [e for e in exp.trace[n:] if e[0] != 'read'], 'the restart touched the experiment', **self.info)
        check(len(self.pr.lab.log) == measured, 'the restart measured something', **self.info)
        for i, t in enumerate(self.pr.tuners):
            info = dict(tuner=i, voltages=v, **self.info)
            lv = t.last_voltages
            check(same(lv, v[lv.index]), 'tuner does not work from the present voltages', got=lv, **info)
            cp = t.solver.current_position
            check(same(cp, v[cp.index]), 'solver does not work from the present voltages', got=cp, **info)
            for e in getattr(t.solver, 'gradient_estimators', []):
                if isinstance(e, FiniteDifferencesGradientEstimator):
                    cp = e.current_position
                    check(same(cp, v[cp.index]), 'estimator does not work from the present voltages', got=cp, **info)
        check(not auto.is_tuning_complete(), 'tuning complete without evaluation', **self.info)
        self.check_tuned()
        self.ctx.count('restarts')
        return v

    def change(self):
        rng, auto = self.rng, self.pr.autotuner
        changes = []
        k = int(rng.integers(1, len(self.pr.tuners) + 1))
        for i, (t, tg) in enumerate(zip(self.spec['tuners'], self.targets)):
            if i >= k:
                break
            c = {}
            if t['kind'] == 'subset':
                own = [p for p in tg.index if tg['desired'][p] == tg['desired'][p]]
                if rng.random() < .8:
                    ps = gen.pick(rng, own, int(rng.integers(1, len(own) + 1)))
                    c['desired'] = pd.Series({p: float(tg['desired'][p] + rng.normal() * 10. ** rng.uniform(-2, 0)) for p in ps})
                if rng.random() < .4:
                    ps = gen.pick(rng, own, int(rng.integers(1, len(own) + 1)))
                    c['tolerance'] = pd.Series({p: float(tg['tolerance'][p] * rng.uniform(.2, 5)) for p in ps})
            else:
                if rng.random() < .8:
                    c['minimum'] = pd.Series({'current_signal': float(tg['minimum']['current_signal'] * rng.uniform(.5, 1.1))})
                if rng.random() < .3:
                    c['cost_threshold'] = pd.Series({'current_signal': float(tg['cost_threshold']['current_signal'] * rng.uniform(.5, 1.))})
            changes.append(c)
            for cat, ser in c.items():
                gen.given(self.pr.shared, ser)
                for p in ser.index:
                    self.targets[i].loc[p, cat] = ser[p]
        n = len(self.pr.exp.trace)
        auto.change_targets(changes)
        check(not [e for e in self.pr.exp.trace[n:] if e[0] != 'read'], 'the change of targets touched the experiment', **self.info)
        for i, t in enumerate(self.pr.tuners):
            got, want = t.target, self.targets[i]
            check(list(got.index) == list(want.index) or set(got.index) == set(want.index), 'rows of the target', **self.info)
            for col in want.columns:
                check(same(got[col], want[col]), 'target after the change', category=col, got=got[col], expected=want[col], tuner=i,
                      changes=changes, **self.info)
        self.check_tuned()
        self.ctx.count('target_changes')


def case(rng, ctx, index):
    w = World(rng, ctx)
    auto = w.pr.autotuner
    key = []
    failing = [False]
    w.pr.lab.nan = lambda i, v, p: failing[0]
    if True:
        steps = int(rng.integers(0, 41))
        # the last evaluations before the event fail (not the very first ones, there is no way back from those)
        fail_from = steps - int(rng.integers(1, 8)) if steps > 8 and rng.random() < .4 else steps
        for k in range(steps):
            if auto.is_tuning_complete() or w.diverged():
                break
            cur = auto.current_tuner_index
            failing[0] = k >= fail_from and (w.values[cur] is not None if w.spec['tuners'][cur]['kind'] == 'subset'
                                             else bool(w.pr.tuners[cur].tuned_voltages))
            w.iterate()
        failing[0] = False
        if any(t.last_evaluation_failed for t in w.pr.tuners):
            ctx.count('after_failure')
        for rep in range(int(rng.integers(1, 4))):
            st = w.state()
            if st[0] == 'pending':
                ctx.count('pending_voltages')
            if st[0] == 'complete':
                ctx.count('after_complete')
            kind = gen.choice(rng, ['restart', 'change', 'both'])
            v = None
            if kind != 'change':
                v = w.restart()
            if kind != 'restart':
                w.change()
            key.append((kind,) + st)
            first = True
            moved = False
            for _ in range(int(rng.integers(3, 26))):
                if auto.is_tuning_complete() or w.diverged():
                    break
                w.iterate(first)
                first = False
                if v is not None and not moved:
                    for e in w.events:
                        if e[0] == 'next':
                            t = w.spec['tuners'][e[1]]
                            moved = True
                            check(all(abs(e[3][g] - v[g]) <= 1e-12 for g in e[3].index if g not in w.pr.tuners[e[1]].solver.current_position.index),
                                  'foreign gates move after a restart', got=e[3], voltages=v, **w.info)
                            if t['kind'] == 'subset' and t['est'].startswith('fd') and t['step'] != t['step'] and any(
                                    est.estimate() is None for p, est in zip(t['rows'], w.pr.tuners[e[1]].solver.gradient_estimators)
                                    if p in t['desired'] and isinstance(est, FiniteDifferencesGradientEstimator)):
                                d = np.array([(e[3][g] - v[g]) / t['epsilon'] for g in t['gates']])
                                ctx.count('requests_after_restart')
                                check(abs(np.linalg.norm(d) - 1) < 1e-6,
                                      'finite difference step does not start from the present voltages', step=d, **w.info)
    bad = gen.modified(w.pr)
    check(bad is None, 'an object given by the user was modified', change=bad, **w.info)
    ctx.count('given_objects', len(w.pr.shared['given']))
    ctx.distinct(tuple(key), len(w.pr.tuners), tuple(t.get('est') for t in w.spec['tuners']))
    ctx.sample(events=key, setup=gen.summary(w.spec))
