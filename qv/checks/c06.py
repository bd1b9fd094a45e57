"""C06: decisions and positions of the sensing dot tuner against the definition, scripted cheap and expensive evaluators."""
import numpy as np
import pandas as pd

from qtune.parameter_tuner import SensingDotTuner
from qtune.solver import ForwardingSolver, make_target

from qv.core import check
from qv import gen
from qv.sim import SimExperiment
from qv.stubs import ScriptedEvaluator, same

PROPERTY = 'C06'
N = dict(quick=2400, thorough=100000)
RULE = ('random thresholds, rescaling, mappings and label orders; 4-12 calls with signals below, between, above and exactly at the '
        'thresholds; non-trivial: distinct (class of each parameter, thresholds present, branch taken, evaluators)')
REQUIRED = dict(tuned=.5, cheap_only=.3, expensive=.5, threshold_edges=.5)


def case(rng, ctx, index):
    n_g = gen.size(rng, 1, 5, 12)
    gates = gen.pick(rng, gen.GATE_NAMES, n_g)
    foreign = [g for g in gen.GATE_NAMES if g not in gates][:int(rng.integers(0, 3))]
    allg = gen.pick(rng, gates + foreign, n_g + len(foreign))
    exp = SimExperiment({g: 0. for g in allg})
    signals = gen.pick(rng, ['current_signal', 'optimal_signal', 'contrast'], int(rng.integers(1, 4)))
    positions = ['position_' + g for g in gates]
    cheap_pos = gen.pick(rng, positions, int(rng.integers(0, n_g + 1)))
    exp_pos = gen.pick(rng, positions, int(rng.integers(1, n_g + 1)))
    cheap_p, exp_p = signals + cheap_pos, list(exp_pos)
    if rng.random() < .3:
        exp_p.append('quality')
    if rng.random() < .25:          # the more expensive evaluation determines the same signals once more
        exp_p += gen.pick(rng, signals, int(rng.integers(1, len(signals) + 1)))
    if rng.random() < .1:
        exp_p = gen.pick(rng, cheap_p, len(cheap_p))
        exp_pos = list(cheap_pos)
    names = sorted(set(cheap_p + exp_p))
    exact = rng.random() < .5
    f = {p: (float(2. ** rng.integers(-4, 5)) if exact else float(gen.choice(rng, [1., .001, 3.7, 200.]))) for p in names}
    minimum, cost = {}, {}
    for p in signals:
        if rng.random() < .8:
            minimum[p] = float(rng.integers(2, 9)) / 2
            if rng.random() < .8:
                cost[p] = minimum[p] * float(gen.choice(rng, [.25, .5, 1., .75]))
    rows = gen.pick(rng, names, len(names))
    s = lambda d: pd.Series({p: d.get(p, np.nan) for p in rows})
    kw = {}
    without = set()
    if rng.random() < .8:
        kw['rescaling_factor'] = s(f)
    else:
        f = {p: 1. for p in names}
    target = make_target(desired=s({}), minimum=s(minimum), cost_threshold=s(cost), **kw)
    mapping = {p: p[len('position_'):] for p in set(cheap_pos + exp_pos)}
    unmapped = set()
    if len(mapping) > 1 and rng.random() < .3:
        unmapped.add(sorted(mapping)[0])
    vtp = pd.Series({p: (np.nan if p in unmapped and rng.random() < .5 else g) for p, g in mapping.items()
                     if True}, dtype=object)
    for p in list(unmapped):
        if vtp[p] == vtp[p]:
            unmapped.discard(p)
    sg = gates if rng.random() < .6 else list(allg)
    sg = gen.pick(rng, sg, len(sg))
    solver = ForwardingSolver(target=target, values_to_position=vtp, current_position=pd.Series(0., index=sg))
    state = {}

    def source(kind):
        def src(ev):
            state['order'].append(ev.name)
            ps = gen.pick(rng, list(ev.parameters), len(ev.parameters))
            return pd.Series({p: state[kind][p] for p in ps}), pd.Series({p: 1e-3 for p in ps})
        return src

    def split(ps, kind):
        ps = gen.pick(rng, ps, len(ps))
        k = int(rng.integers(1, len(ps) + 1))
        return [ScriptedEvaluator(exp, tuple(g), name='%s%d' % (kind, i), source=source(kind))
                for i, g in enumerate((ps[:k], ps[k:])) if g]
    cheap, expensive = split(cheap_p, 'cheap'), split(exp_p, 'exp')
    tuner = SensingDotTuner(cheap, expensive, gates, solver=solver)
    tuned_at = []
    for it in range(int(rng.integers(4, 13))):
        raw_c, cls = {}, []
        for p in signals:
            lo, hi = cost.get(p, 0.), minimum.get(p, 1.)
            q = rng.random()
            if q < .45:
                x, c = hi * float(rng.uniform(1.01, 2)), 'above'
            elif q < .65 and (exact or lo < .99 * hi):
                x, c = lo + (hi - lo) * float(rng.uniform(.02, .98)), 'between'
            elif q < .85:
                x, c = lo * float(rng.uniform(.1, .99)), 'below'
            elif exact:
                x, c = gen.choice(rng, [(hi, 'at min'), (lo, 'at cost')])
                ctx.count('threshold_edges')
            else:
                x, c = gen.choice(rng, [(hi * (1 + 1e-7), 'just above'), (hi * (1 - 1e-7), 'just below'),
                                        (lo * (1 + 1e-7), 'just above cost'), (lo * (1 - 1e-7), 'just below cost')])
                ctx.count('threshold_edges')
            raw_c[p] = x
            cls.append(c)
        scaled = dict(raw_c)
        raw_c = {p: x * f[p] for p, x in raw_c.items()}
        for p in cheap_pos:
            raw_c[p] = float(rng.normal())
        raw_e = {p: float(rng.normal()) for p in exp_p}
        if rng.random() < .3:
            raw_e.update({p: raw_c[p] - float(rng.choice([-1., 1.])) * float(rng.uniform(0, 1)) for p in exp_p if p in raw_c})
        state.update(cheap=raw_c, exp=raw_e, order=[])
        v = pd.Series({g: float(rng.normal()) for g in gen.pick(rng, allg, len(allg))})
        nc, ne = [e.calls for e in cheap], [e.calls for e in expensive]
        verdict = bool(tuner.is_tuned(v.copy()))
        below_min = any(p in minimum and scaled[p] <= minimum[p] for p in signals)
        below_cost = any(p in cost and scaled[p] <= cost[p] for p in signals)
        info = dict(signals=scaled, classes=cls, minimum=minimum, cost=cost, factors=f, call=it, verdict=verdict)
        dc, de = [e.calls - k for e, k in zip(cheap, nc)], [e.calls - k for e, k in zip(expensive, ne)]
        check(dc == [1] * len(cheap), 'cheap evaluators were not evaluated exactly once', calls=dc, **info)
        want_e = below_min and below_cost
        check(de == [int(want_e)] * len(expensive), 'expensive evaluators were evaluated %s times, expected %d' % (de, want_e), **info)
        check(verdict == (not below_min), 'verdict is %s' % verdict, **info)
        ctx.count('tuned' if verdict else ('expensive' if want_e else 'cheap_only'))
        ctx.distinct(tuple(sorted(cls)), verdict, want_e, len(cheap), len(expensive), len(minimum), len(cost))
        vals, _ = tuner.last_parameters_and_variances
        last = dict(raw_c, **(raw_e if want_e else {}))
        for p in last:
            x = last[p] / f[p]
            check(abs(vals[p] - x) <= 1e-12 * max(1, abs(x)), 'last value of %s' % p, got=vals[p], expected=x, **info)
        if verdict:
            tuned_at.append(v)
        check(len(tuner.tuned_voltages) == len(tuned_at) and all(same(a, b) for a, b in zip(tuner.tuned_voltages, tuned_at)),
              'tuned voltages', **info)
        if verdict:
            continue
        new = tuner.get_next_voltages(gen.choice(rng, [None, set()])).copy()
        used = raw_e if want_e else raw_c
        expected = pd.Series({g: v[g] for g in sg})
        for p, x in used.items():
            if p in mapping and p not in unmapped:
                expected[mapping[p]] = x
        check(same(new, expected, 1e-9), 'next voltages are not the evaluated positions', new=new, expected=expected,
              voltages=v, evaluated=used, **info)
        ctx.count('next_voltages')
    ctx.sample(signals=signals, minimum=minimum, cost=cost, mapping=mapping, classes=cls)
