"""C04: failed evaluations injected at every point of tuning runs; bisection and isolation of solver checked online."""
import numpy as np
import pandas as pd

from qv.core import check
from qv import gen
from qv.checks import c01
from qv.stubs import same

PROPERTY = 'C04'
N = dict(quick=700, thorough=30000)
RULE = ('random tuning problems with NaN measurements by schedule, by voltage region or by parameter; every next voltage after a failure '
        'is compared with the bisection point; non-trivial: distinct (tuner kind, estimator, failures in a row, parameters failing)')
REQUIRED = dict(failures=1., bisections=.7, resumed=.3, consecutive_failures=.2, no_good_point=.02, sensing_failures=.1)
LEVEL = 'fault_enumeration'


def snapshot(tuner):
    """what the solver and the gradient estimation know"""
    s = tuner.solver
    out = [s.current_position.copy()]
    for e in getattr(s, 'gradient_estimators', []):
        g, c = e.estimate(), e.covariance()
        out.append(None if g is None else g.copy())
        out.append(None if c is None else c.copy())
    return out


def equal_snapshot(a, b):
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None and not np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True):
            return False
    return True


def case(rng, ctx, index):
    spec = gen.random_spec(rng, max_tuners=3, curvature=float(gen.choice(rng, [0., .05])))
    pr = gen.build(spec)
    auto, exp, lab = pr.autotuner, pr.exp, pr.lab
    mode = gen.choice(rng, ['burst', 'random', 'region', 'start'], p=[.4, .3, .2, .1])
    relevant = {}
    for i, t in enumerate(spec['tuners']):
        relevant[i] = (list(t['params']) if t['kind'] == 'subset' else
                       ['current_signal'] + ['position_' + g for g in t['gates']])
    allp = [p for ps in relevant.values() for p in ps]
    victims = set(gen.pick(rng, allp, int(rng.integers(1, len(allp) + 1))))
    first = int(rng.integers(0, 25)) if mode != 'start' else 0
    length = int(rng.integers(1, 7))
    p_fail = float(rng.uniform(.05, .4))
    centre = {g: spec['v0'][g] for g in spec['gates']}
    radius = float(rng.uniform(.2, 2.))
    good_seen = set()
    frng = np.random.default_rng(int(rng.integers(1 << 30)))

    def nan(i, v, p):
        if p not in victims:
            return False
        if mode == 'burst':
            return first <= i < first + length
        if mode == 'start':
            return i < length
        if mode == 'random':
            return i >= 2 and frng.random() < p_fail
        if mode == 'region':
            return np.sqrt(sum((float(v[g]) - centre[g]) ** 2 for g in centre)) > radius
        return False
    lab.nan = nan
    events = []
    for i, t in enumerate(pr.tuners):
        c01.instrument(t, i, events)
    n_t = len(pr.tuners)
    good = [None] * n_t
    failed = [None] * n_t
    row = [0] * n_t
    chain = [None] * n_t
    total = 0
    for it in range(140):
        if auto.is_tuning_complete() or total > 25 or exp.true_voltages.abs().max() > 1e4:
            break
        del events[:]
        n_log = len(lab.log)
        snaps = [snapshot(t) for t in pr.tuners]
        n_tuned = [len(t.tuned_voltages) for t in pr.tuners]
        n_trace = len(exp.trace)
        try:
            auto.iterate()
        except Exception as ex:
            stuck = [i for i in range(n_t) if failed[i] is not None and good[i] is None]
            check(bool(stuck), 'unexpected %s: %s' % (type(ex).__name__, ex))
            check(not [e for e in exp.trace[n_trace:] if e[0] == 'set'], 'voltages set although no good point is known')
            ctx.count('no_good_point')
            return
        if not events:
            continue
        e = events[0]
        i = e[1]
        tuner, t = pr.tuners[i], spec['tuners'][i]
        if e[0] == 'eval':
            measured = {}
            for _, _, d in lab.log[n_log:]:
                for p, x in d.items():
                    if p in relevant[i] and not measured.get(p, 0.) != measured.get(p, 0.):
                        measured[p] = x
            if not measured:
                continue        # slice of a longer step
            if any(x != x for x in measured.values()):
                total += 1
                ctx.count('failures')
                row[i] += 1
                if row[i] > 1:
                    ctx.count('consecutive_failures')
                failed[i] = e[2]
                nbad = sum(x != x for x in measured.values())
                if t['kind'] == 'sensing':
                    ctx.count('sensing_failures')
                ctx.distinct(t['kind'], t.get('est'), row[i], nbad, len(relevant[i]), i)
                check(not e[3], 'a failed evaluation is reported as tuned', measured=measured)
                check(equal_snapshot(snaps[i], snapshot(tuner)), 'a failed evaluation changed the solver or its gradients',
                      tuner=i, measured=measured)
                check(bool(tuner.last_evaluation_failed), 'failed evaluation not reported', tuner=i)
                check(len(tuner.tuned_voltages) == n_tuned[i], 'voltages of a failed evaluation are listed as tuned', tuner=i)
            else:
                if failed[i] is not None:
                    ctx.count('resumed')
                failed[i], row[i] = None, 0
                check(not tuner.last_evaluation_failed, 'successful evaluation reported as failed', tuner=i)
                if t['kind'] == 'subset' or e[3]:
                    good[i] = e[2]
                chain[i] = None
        elif e[0] == 'next' and failed[i] is not None:
            check(good[i] is not None, 'voltages suggested although the evaluation never succeeded', suggested=e[3])
            mid = .5 * (good[i] + failed[i][good[i].index])
            check(same(e[3], mid, 1e-9), 'next voltages after a failed evaluation are not the midpoint',
                  got=e[3], expected=mid, good=good[i], failed=failed[i])
            ctx.count('bisections')
            d = float(np.linalg.norm((e[3] - good[i][e[3].index]).values))
            if row[i] > 1 and chain[i] is not None and not spec['actuator'] and n_t == 1:
                check(d <= .5 * chain[i] * (1 + 1e-9) + 1e-12, 'repeated failures do not approach the good point')
            chain[i] = d
    ctx.sample(mode=mode, failures=total, setup=gen.summary(spec))
