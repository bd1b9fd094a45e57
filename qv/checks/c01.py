"""C01: order of set / evaluate / compute actions of the autotuner, against a reference automaton fed by the trace."""
import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.parameter_tuner import ParameterTuner
from qtune.solver import Solver, make_target

from qv.core import check
from qv import gen
from qv.sim import SimExperiment, SimEvaluator
from qv.stubs import OwnState

PROPERTY = 'C01'
N = dict(quick=1600, thorough=60000)
RULE = ('random hierarchies of 1-4 tuners (scripted verdicts and suggestions, or real gradient / sensing dot tuners on a simulated '
        'device, imperfect actuators), iterated to completion or 60-120 steps; non-trivial: distinct (hierarchy size, action string) traces')
REQUIRED = dict(iterations=5., sets=1., evaluations=1., completed=10., refused_after_complete=10., actuator_deviations=5., drifts=1.)
LEVEL = 'exploration'
ASSUMPTIONS = ['the action of an iteration is observed at the methods is_tuned / get_next_voltages of the tuners and '
               'set_gate_voltages of the experiment']


class StubSolver(OwnState, Solver):
    def __init__(self, target, current_position):
        self.own_target = target
        self.own_position = current_position

    def suggest_next_position(self, tuned_parameters=None):
        raise AssertionError('harness: stub solver asked')

    def update_after_step(self, position, values, variances):
        pass

    @property
    def state(self):
        return pd.Series(dtype=float)

    def to_hdf5(self):
        return dict(target=self.own_target, current_position=self.own_position)


class ScriptedTuner(ParameterTuner):
    """verdicts and suggestions come from a script"""

    def __init__(self, script, **kwargs):
        super().__init__(**kwargs)
        self.script = script
        self.own_values = pd.Series(np.nan, index=self.parameters)

    def is_tuned(self, voltages):
        self.last_voltages = voltages
        vals = pd.Series(0., index=self.parameters)
        self.own_values = vals
        return self.script.verdict(self)

    @property
    def last_parameters_and_variances(self):
        return self.own_values, self.own_values

    def get_next_voltages(self, tuned_parameters=None):
        return self.script.suggest(self)

    def to_hdf5(self):
        return dict(super().to_hdf5())


class Script:
    def __init__(self, rng, gates, p):
        self.rng, self.gates, self.p = rng, gates, p

    def verdict(self, tuner):
        r = bool(self.rng.random() < self.p)
        return np.bool_(r) if self.rng.random() < .5 else r

    def suggest(self, tuner):
        k = int(self.rng.integers(1, len(self.gates) + 1))
        g = gen.pick(self.rng, self.gates, k)
        return pd.Series(self.rng.normal(size=k), index=g)


def instrument(tuner, i, events):
    is_tuned, get_next = tuner.is_tuned, tuner.get_next_voltages

    def w_is_tuned(voltages, *a, **k):
        got = voltages.copy()
        r = is_tuned(voltages, *a, **k)
        events.append(('eval', i, got, bool(r)))
        return r

    def w_next(*a, **k):
        tp = k.get('tuned_parameters', a[0] if a else None)
        r = get_next(*a, **k)
        events.append(('next', i, None if tp is None else set(tp), r.copy()))
        return r
    tuner.is_tuned = w_is_tuned
    tuner.get_next_voltages = w_next


def complete_rows(target):
    """parameters with complete targets: no NaN in any column which is used at all"""
    cols = [c for c in target.columns if target[c].notna().any()]
    return {p for p in target.index if target.loc[p, cols].notna().all()}


def scripted(rng, large=.06):
    gates = gen.pick(rng, gen.GATE_NAMES, gen.size(rng, 1, 6, 14, large))
    n = gen.size(rng, 1, 5, 12)
    names = gen.pick(rng, gen.PAR_NAMES + ['w%d' % i for i in range(30)], 36) if n > 4 else gen.pick(rng, gen.PAR_NAMES, 12)
    p = float(rng.choice([.3, .6, .8, .95]))
    act = None
    if rng.random() < .4:
        scale = float(rng.choice([1e-3, .1]))
        act = lambda g, x: float(np.round(x / scale) * scale)
    exp = SimExperiment({g: float(rng.normal()) for g in gates}, actuator=act, sort_read=rng.random() < .5)
    tuners = []
    script = Script(rng, gates, p)
    for i in range(n):
        ps = [names.pop() for _ in range(int(rng.integers(1, 4)))]
        des = pd.Series(rng.normal(size=len(ps)), index=ps)
        tol = pd.Series(.1, index=ps)
        for s in (des, tol):
            if rng.random() < .4:
                s[ps[int(rng.integers(len(ps)))]] = np.nan
        target = make_target(desired=des, tolerance=tol)
        g = gen.pick(rng, gates, int(rng.integers(1, len(gates) + 1)))
        tuners.append(ScriptedTuner(script, evaluators=[SimEvaluator(exp, ps, name='e%d' % i)],
                                    solver=StubSolver(target, pd.Series(0., index=g))))
    drift = float(rng.choice([0., 0., .01]))
    return Autotuner(exp, tuners), exp, tuners, drift


def case(rng, ctx, index):
    real = index % 3 == 2
    if real:
        spec = gen.random_spec(rng, max_tuners=3)
        pr = gen.build(spec)
        auto, exp, tuners, limit = pr.autotuner, pr.exp, pr.tuners, 120
        drift = 0.
    else:
        auto, exp, tuners, drift = scripted(rng)
        limit = 60
    events = []
    for i, t in enumerate(tuners):
        instrument(t, i, events)
    orig_set = exp.set_gate_voltages

    def w_set(new_gate_voltages):
        v = new_gate_voltages
        events.append(('set', v.copy()))
        r = orig_set(v)
        dev = float((exp.true_voltages[v.index] - v).abs().max())
        if dev > 0:
            ctx.count('actuator_deviations')
        return r
    exp.set_gate_voltages = w_set
    # reference automaton
    idx, pending, stuck = 0, None, False
    word = []
    check(not auto.is_tuning_complete(), 'a new autotuner claims to be complete')
    for it in range(limit):
        del events[:]
        if drift and rng.random() < .5:
            # gates drift between the iterations
            v = exp.true_voltages
            exp.force(v + drift * rng.normal(size=len(v)))
            ctx.count('drifts')
        before = exp.true_voltages
        n_trace = len(exp.trace)
        try:
            auto.iterate()
        except Exception:
            raise
        ctx.count('iterations')
        check(len(events) == 1, 'an iteration must perform exactly one action', events=[e[:2] for e in events], word=word)
        e = events[0]
        direct = [x[0] for x in exp.trace[n_trace:] if x[0] != 'read']
        if e[0] != 'eval':
            check('measure' not in direct, 'measurement in an iteration that %s' % e[0], word=word)
        if e[0] == 'set':
            ctx.count('sets')
            word.append('s')
            check(pending is not None, 'voltages set which were not computed', word=word)
            check(set(e[1].index) == set(pending.index) and np.array_equal(e[1][pending.index].values, pending.values),
                  'voltages set differ from those the tuner returned', set=e[1], returned=pending, word=word)
            pending, idx, stuck = None, 0, False
        elif e[0] == 'eval':
            ctx.count('evaluations')
            word.append('e%d%s' % (e[1], '+' if e[3] else '-'))
            check(pending is None, 'evaluation while voltages are pending', word=word)
            check(not stuck, 'evaluation instead of new voltages after the tuner was not tuned', word=word)
            check(e[1] == idx, 'tuner %d evaluated but tuner %d is next in the hierarchy' % (e[1], idx), word=word)
            check(set(e[2].index) == set(before.index) and np.array_equal(e[2][before.index].values, before.values),
                  'tuner was not given the voltages read from the experiment', given=e[2], true=before, word=word)
            if e[3]:
                idx += 1
            else:
                stuck = True
        else:
            ctx.count('computations')
            word.append('n%d' % e[1])
            check(pending is None and stuck and e[1] == idx, 'voltages requested from a tuner which was not just evaluated '
                  'as not tuned', tuner=e[1], expected=idx, word=word)
            lower = set()
            for t in tuners[:idx]:
                lower |= complete_rows(t.target)
            check(e[2] == lower, 'tuned parameters passed to the tuner', passed=e[2], expected=lower, word=word)
            pending, stuck = e[3], False
        complete = idx == len(tuners)
        check(bool(auto.is_tuning_complete()) == complete, 'is_tuning_complete() is %s' % (not complete), word=word)
        if complete:
            break
    ctx.distinct(len(tuners), ''.join(word))
    if idx == len(tuners):
        ctx.count('completed')
        del events[:]
        n_trace = len(exp.trace)
        for _ in range(2):
            try:
                auto.iterate()
            except Exception:
                ctx.count('refused_after_complete')
            else:
                check(False, 'iterating a complete autotuner raises no error', word=word)
        check(not events and all(x[0] == 'read' for x in exp.trace[n_trace:]),
              'iterating a complete autotuner touched the experiment', events=len(events))
        check(auto.is_tuning_complete(), 'not complete any more')
    ctx.sample(real=bool(real), hierarchy=len(tuners), word=' '.join(word)[:200])
