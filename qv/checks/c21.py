"""C21: end to end tuning runs of linear systems; completion within a bound and independent re-measurement at completion."""
import os

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.storage import from_hdf5

from qv.core import check
from qv import gen

PROPERTY = 'C21'
N = dict(quick=420, thorough=12000)
RULE = ('1-4 gradient based tuners on 1-6 gates, sometimes on top of a sensing dot tuner; exact, approximate, uncertain or unknown Kalman '
        'gradients or (symmetric) finite differences; units, slicing, actuator grids, transient failing evaluations, storing and reloading, '
        'a second run after changed targets or a restart elsewhere; non-trivial: distinct (estimators, gates, invariants, slicing, run)')
REQUIRED = dict(completed=.9, evaluations=5., voltages_set=2., remeasured=1., second_runs=.2)


def rotation(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


def problem(rng):
    n_t = gen.size(rng, 1, 4, 5, .04)
    sensing = rng.random() < .25
    sizes = [gen.size(rng, 1, 4, 6, .1) if n_t == 1 else int(rng.integers(1, 3)) for _ in range(n_t)]
    spare = int(rng.integers(0, 2))
    ns = int(rng.integers(1, 3)) if sensing else 0
    n = sum(sizes) + spare + ns
    gates = gen.pick(rng, gen.GATE_NAMES, n)
    names = [p for p in gen.pick(rng, gen.PAR_NAMES, len(gen.PAR_NAMES)) if not p.startswith('position_') or not sensing]
    v0 = {g: float(np.round(rng.normal() * 2, 3)) for g in gates}
    coupling = float(gen.choice(rng, [0., .05, .1]))
    A, tuners, used, low = {}, [], 0, []
    if sensing:
        sg = gates[-ns:]
        opt = {g: float(np.round(v0[g] + rng.normal() * .5, 3)) for g in sg}
        S = float(rng.uniform(.5, 4.))
        mini = S * float(rng.uniform(.3, .7))
        tuners.append(dict(kind='sensing', gates=list(sg), opt=opt, w=float(rng.uniform(.8, 1.5)), S=S,
                           rescale={p: 1. for p in ['current_signal'] + ['position_' + g for g in sg]}, minimum=mini,
                           cost=mini * (float(rng.uniform(.5, 1.)) if ns == 1 else 1.), cheap_gate=sg[0], drift=float(rng.normal() * .02),
                           solver_gates=list(sg) if rng.random() < .5 else list(gates)))
    kinds = ['kalman', 'kalman_approx', 'kalman_unknown', 'fd', 'fd_sym']
    for t, k in enumerate(sizes):
        own = gates[used:used + k]
        used += k
        ps = [names.pop() for _ in range(k)]
        scale = float(np.exp(rng.uniform(np.log(.3), np.log(3.))))
        B = rotation(rng, k) @ np.diag(rng.uniform(.5, 1.5, k)) @ rotation(rng, k) * scale
        for i, p in enumerate(ps):
            A[p] = {g: float(rng.normal()) * coupling * scale / np.sqrt(n) for g in gates}
            A[p].update({g: float(B[i, j]) for j, g in enumerate(own)})
        est = gen.choice(rng, kinds)
        shared = [s for s in low if not s['est'].startswith('fd') and rng.random() < .6] if not est.startswith('fd') and n_t > 1 and rng.random() < .5 else []
        # finite differences own their gates: nobody above moves them while they are still being measured
        inv, tg = [], list(own)
        if spare and t == len(sizes) - 1 and not est.startswith('fd') and rng.random() < .5:
            tg += gates[sum(sizes):sum(sizes) + spare]
        for s in shared:
            inv += s['params']
            tg += [g for g in s['own'] if g not in tg]
        rows = gen.pick(rng, ps + inv, len(ps) + len(inv))
        tg = gen.pick(rng, tg, len(tg))
        cut = int(rng.integers(1, k + 1))
        order = gen.pick(rng, ps, k)
        evs = [e for e in (order[:cut], order[cut:]) if e]
        sliced = rng.random() < .4
        step = float(gen.choice(rng, [.3, 1., 3.])) if sliced else np.nan
        eps = float(gen.choice(rng, [.05, .1, .3]))
        tuners.append(dict(
            kind='subset', own=own, params=ps, rows=rows, gates=tg, est=est, scaled=True, approx_cov=(.15 * scale) ** 2,
            est_gates=list(tg) if est.startswith('fd') or est == 'kalman_unknown' else gen.pick(rng, gates, len(gates)),
            desired={p: float(np.round(rng.normal() * 1.5 * scale, 3)) for p in ps},
            tolerance={p: float(rng.uniform(.005, .05)) * scale for p in ps}, evaluators=evs,
            rescale={p: float(gen.choice(rng, [1., 1., 2., .1, 1e-3, 50.])) for p in rows},
            variance=float(gen.choice(rng, [1e-10, 1e-8, 1e-6])) * scale ** 2, step=step, number=int(rng.integers(1, 5)) if sliced else 1,
            epsilon=eps, maxcov=(float(gen.choice(rng, [.05, .1, .2])) * scale) ** 2,
            approx={p: {g: float(rng.normal()) * .05 for g in gates} for p in rows}, pos_order=gen.pick(rng, tg, len(tg))))
        low.append(tuners[-1])
    offsets = {p: float(np.round(rng.normal(), 3)) for p in A}
    act = dict(grid=float(gen.choice(rng, [1e-7, 1e-5]))) if rng.random() < .3 else None
    return dict(gates=gates, v0=v0, A=A, offsets=offsets, tuners=tuners, actuator=act, curvature=0., sort_read=bool(rng.random() < .3),
                coupling=coupling)


def bound(spec):
    """limit on the number of evaluations of tuners, well above twice what was ever needed"""
    n = sum(len(t['gates']) for t in spec['tuners'])
    return 40 + 40 * n * len(spec['tuners'])


def run(pr, autotuner, limit, info, ctx):
    evaluations = 0
    it = 0
    while not autotuner.is_tuning_complete():
        before = len(pr.exp.trace)
        measured = pr.lab.calls
        autotuner.iterate()
        it += 1
        evaluations += pr.lab.calls > measured
        ctx.count('voltages_set', any(e[0] == 'set' for e in pr.exp.trace[before:]))
        check(bool(pr.exp.true_voltages.abs().max() < 1e4), 'tuning diverges', voltages=pr.exp.true_voltages, evaluations=evaluations, **info)
        check(evaluations <= limit, 'tuning does not complete', evaluations=evaluations, limit=limit, voltages=pr.exp.true_voltages, **info)
        check(it < 20 * limit, 'iterating without evaluating', iterations=it, **info)
    ctx.count('evaluations', evaluations)
    return evaluations


def confirm(pr, spec, desired, info, ctx):
    v = pr.exp.true_voltages
    for t in spec['tuners']:
        if t['kind'] == 'sensing':
            x = pr.lab.value(v, 'current_signal')
            check(x > t['minimum'], 'complete although the sensing dot is not tuned', signal=x, minimum=t['minimum'], voltages=v, **info)
        else:
            for p in t['params']:
                x = pr.lab.value(v, p)
                check(abs(x - desired[p]) < t['tolerance'][p] * (1 + 1e-9), 'complete although a target is not met', parameter=p, value=x,
                      desired=desired[p], tolerance=t['tolerance'][p], voltages=v, **info)
                ctx.count('remeasured')
    return v


def case(rng, ctx, index):
    spec = problem(rng)
    store = rng.random() < .12
    path = ctx.tmpdir() if store else None
    pr = gen.build(spec, path=path, with_time=False)
    a = pr.autotuner
    failing = rng.random() < .2
    if failing:
        # some evaluations fail once, but never those which have no known good voltages to go back to
        bad = {int(i) for i in rng.integers(4, 80, int(rng.integers(1, 6)))}
        params = {p for t in spec['tuners'] if t['kind'] == 'subset' for p in t['params']}
        good = set()

        def nan(i, v, p):
            if i in bad and p in params and params <= good:
                ctx.count('failed_evaluations')
                return True
            good.add(p)
            return False
        pr.lab.nan = nan
    info = dict(problem=gen.summary(spec), coupling=spec['coupling'], v0=spec['v0'], failing=failing, run='first')
    limit = bound(spec)
    n1 = run(pr, a, limit, info, ctx)
    ctx.count('completed')
    desired = {p: t['desired'][p] for t in spec['tuners'] if t['kind'] == 'subset' for p in t['params']}
    v = confirm(pr, spec, desired, info, ctx)
    key = tuple((t.get('est', 'sensing'), len(t['gates']), len(t.get('rows', [])), t.get('step') == t.get('step')) for t in spec['tuners'])
    ctx.distinct(key, n1)
    ctx.worst = max(getattr(ctx, 'worst', 0), n1)
    n2 = None
    r = rng.random()
    if r < .5:
        if store and rng.random() < .5:
            a.asynchrone_writer.join()
            files = sorted(os.listdir(path))
            a = from_hdf5(os.path.join(path, files[-1]), reserved={'experiment': pr.exp})['autotuner']
            info['reloaded'] = True
            check(a.is_tuning_complete(), 'the reloaded autotuner is not complete', **info)
            ctx.count('reloaded_runs')
        if r < .25:
            info['run'] = 'changed targets'
            changes = []
            for t in spec['tuners']:
                changes.append({})
                if t['kind'] == 'subset' and rng.random() < .7:
                    ps = gen.pick(rng, t['params'], int(rng.integers(1, len(t['params']) + 1)))
                    for p in ps:
                        desired[p] += float(rng.normal()) * t['tolerance'][p] * 20
                    changes[-1] = {'desired': pd.Series({p: desired[p] / t['rescale'][p] for p in ps})}
            a.change_targets(changes)
        else:
            info['run'] = 'restarted elsewhere'
            if failing:
                good.clear()
            own = [g for t in spec['tuners'] if t['kind'] == 'subset' for g in t['gates']]
            for g in own:
                pr.exp.force(pd.Series({g: float(v[g]) + float(rng.normal()) * .7}))
            a.restart()
        n2 = run(pr, a, limit, info, ctx)
        confirm(pr, spec, desired, info, ctx)
        ctx.count('second_runs')
        ctx.distinct(key, n1, n2)
        ctx.worst = max(ctx.worst, n2)
    ctx.sample(evaluations=n1, second=n2, **info)

