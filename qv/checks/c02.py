"""C02: NaN voltages and incoherent gate names are refused before anything reaches the experiment."""
import copy

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner

from qv.core import check
from qv import gen
from qv.checks import c01

PROPERTY = 'C02'
N = dict(quick=1600, thorough=40000)
RULE = ('random setups with one defect planted in the names or NaN in the pending voltages (or none); '
        'non-trivial: distinct (kind of defect, place, number of iterations before, NaN pattern)')
REQUIRED = dict(refusals=.4, accepted_iterations=1., nan_patterns=.05)
LEVEL = 'exploration'

KINDS = ['coherent', 'nan_pending', 'nan_ctor', 'unknown_pending', 'est_extra', 'solver_wrong', 'last_voltage', 'gate_lost',
         'est_renamed', 'est_missing']


class NaNScript(c01.Script):
    nan_at = 1
    n = 0

    def suggest(self, tuner):
        s = super().suggest(tuner)
        self.n += 1
        if self.n == self.nan_at:
            k = int(self.rng.integers(1, len(s) + 1)) if self.rng.random() < .5 else 1
            s[gen.pick(self.rng, list(s.index), k)] = np.nan
        return s


def begun(rng, pr, k=None):
    """the same object graph, in the state in which lower tuners are complete"""
    return Autotuner(pr.exp, pr.tuners, current_tuner_index=int(rng.integers(0, len(pr.tuners))) if k is None else k,
                     current_tuner_status=bool(rng.random() < .3))


def refused(auto, exp, ctx, what, times=2, **info):
    for i in range(times):
        n = len(exp.trace)
        before = exp.true_voltages
        try:
            auto.iterate()
        except Exception:
            pass
        else:
            check(False, 'iteration with %s raises no error' % what, **info)
        touched = [e[0] for e in exp.trace[n:] if e[0] != 'read']
        check(not touched, 'iteration with %s reached the experiment: %s' % (what, touched), **info)
        check(exp.true_voltages.equals(before), 'iteration with %s changed voltages' % what, **info)
        ctx.count('refusals')


def case(rng, ctx, index):
    kind = KINDS[index % len(KINDS)]
    wrong = gen.choice(rng, ['WRONG', 'A ', 'a', '', 'Gate'])
    if kind == 'nan_pending':
        auto, exp, tuners, _ = c01.scripted(rng, .3)
        script = NaNScript(rng, list(exp.gate_voltage_names), .3)
        script.nan_at = int(rng.integers(1, 4))
        for t in tuners:
            t.script = script
        k = 0
        while True:
            if auto.is_tuning_complete():
                return
            auto.iterate()
            k += 1
            p = auto.voltages_to_set
            if p is not None and p.isna().any():
                break
            if p is None:
                ctx.count('accepted_iterations')
        ctx.count('nan_patterns')
        ctx.distinct(kind, k, tuple(p.isna()))
        refused(auto, exp, ctx, 'NaN in the pending voltages', times=int(rng.integers(1, 4)), pending=p)
        return
    spec = gen.random_spec(rng, max_tuners=3, estimators=['kalman', 'kalman_approx', 'kalman_unknown', 'fd'])
    k = int(rng.integers(0, 6))
    if kind == 'coherent':
        pr = gen.build(spec)
        for i in range(12):
            if pr.autotuner.is_tuning_complete():
                break
            pr.autotuner.iterate()
            ctx.count('accepted_iterations')
        ctx.distinct(kind, len(spec['tuners']), spec['sort_read'], i)
        return
    if kind in ('nan_ctor', 'unknown_pending'):
        pr = gen.build(spec)
        g = gen.pick(rng, spec['gates'], int(rng.integers(1, len(spec['gates']) + 1)) if rng.random() < .5 else len(spec['gates']))
        pending = pd.Series({x: spec['v0'][x] + .1 for x in g})
        if kind == 'nan_ctor':
            bad = gen.pick(rng, g, int(rng.integers(1, len(g) + 1)) if rng.random() < .5 else 1)
            pending[bad] = np.nan
            ctx.count('nan_patterns')
            ctx.distinct(kind, tuple(pending.isna()))
        else:
            pending[wrong] = gen.choice(rng, [0., 1., 1e9])
            ctx.distinct(kind, len(g), wrong)
        # the same object graph, but with the voltages pending
        auto = Autotuner(pr.exp, pr.tuners, current_tuner_index=int(rng.integers(0, len(pr.tuners))),
                         voltage_to_set=pending)
        refused(auto, pr.exp, ctx, kind, pending=pending)
        return
    ti = int(rng.integers(len(spec['tuners'])))
    t = spec['tuners'][ti]
    if kind in ('est_extra', 'est_renamed', 'est_missing', 'solver_wrong') and kind != 'solver_wrong' and t['kind'] != 'subset':
        subs = [i for i, x in enumerate(spec['tuners']) if x['kind'] == 'subset']
        if not subs:
            return
        ti = gen.choice(rng, subs)
        t = spec['tuners'][ti]
    good = copy.deepcopy(spec)
    spec['unknown_at'] = float(gen.choice(rng, [0., np.nan, 1e6]))       # position of the gate with the wrong name
    if kind == 'est_extra':
        row = gen.choice(rng, t['rows'])
        if t['est'] == 'fd':
            t['est'] = 'kalman'
        t['est_gates_of'] = {row: gen.pick(rng, t['est_gates'] + [wrong], len(t['est_gates']) + 1)}
        place = (ti, t['rows'].index(row))
    elif kind == 'est_missing':
        row, g = gen.choice(rng, t['rows']), gen.choice(rng, t['gates'])
        t['est_gates_of'] = {row: [x for x in t['est_gates'] if x != g]}
        place = (ti, t['rows'].index(row), len(t['rows']))
    elif kind == 'est_renamed':
        row = gen.choice(rng, t['rows'])
        g = gen.choice(rng, t['gates'])
        t['est_gates_of'] = {row: [wrong if x == g else x for x in t['est_gates']]}
        place = (ti, t['rows'].index(row))
    elif kind == 'solver_wrong':
        if t['kind'] == 'sensing':
            t['solver_gates'] = gen.pick(rng, t['solver_gates'] + [wrong], len(t['solver_gates']) + 1)
        else:
            t['gates'] = t['gates'] + [wrong]
            t['pos_order'] = gen.pick(rng, t['gates'], len(t['gates']))
            t['est_gates'] = t['est_gates'] + [wrong]
        place = (ti, t['kind'])
    elif kind == 'last_voltage':
        t['last_voltage'] = {g: spec['v0'].get(g, spec['unknown_at']) for g in gen.pick(rng, spec['gates'] + [wrong], len(spec['gates']) + 1)}
        place = (ti, t['kind'])
    else:
        place = ()
    if kind == 'gate_lost':
        pr = gen.build(spec)
        done = 0
        for i in range(k):
            if not pr.autotuner.is_tuning_complete():
                pr.autotuner.iterate()
                done += 1
        if pr.autotuner.is_tuning_complete():
            return
        lost = gen.choice(rng, spec['gates'])
        if rng.random() < .5:
            pr.exp._v = pr.exp._v.drop(lost)
        else:
            pr.exp._v = pr.exp._v.rename({lost: wrong})
        ctx.distinct(kind, done, len(spec['gates']))
        refused(pr.autotuner, pr.exp, ctx, 'a gate unknown to the experiment', lost=lost, after=done)
        return
    ctx.distinct(kind, place)
    try:
        pr = gen.build(spec)
    except (AssertionError, KeyError, ValueError):
        check(kind != 'last_voltage' and kind != 'est_extra', 'harness: setup could not be built', kind=kind)
        ctx.count('refusals')
        ctx.count('refused_at_construction')
        return
    auto = pr.autotuner if rng.random() < .5 else begun(rng, pr)
    refused(auto, pr.exp, ctx, kind, place=place, current=auto.current_tuner_index, spec=gen.summary(spec))
    # the very same setup without the defect is accepted
    pr = gen.build(good)
    pr.autotuner.iterate()
    ctx.count('accepted_iterations')
    ctx.sample(kind=kind, place=place, setup=gen.summary(spec))
