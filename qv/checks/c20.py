"""C20: averaging evaluators against exact statistics of the values which were handed out."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from qtune.evaluator import AveragingEvaluator, Evaluator
from qtune.experiment import Measurement

from qv.core import check
from qv import gen

PROPERTY = 'C20'
N = dict(quick=4000, thorough=300000)
RULE = ('1-25 repetitions of an evaluator with 1-5 parameters whose values and failures are random (per parameter, per repetition, all, none), '
        'evaluated up to three times, also nested; non-trivial: distinct (number of repetitions, pattern of failures)')
REQUIRED = dict(averages=.9, all_failed=.05, some_failed=.3, nested=.05)


class Source(Evaluator):
    """hands out scripted values, keeps a record"""
    def __init__(self, parameters, script):
        self.script, self.given = script, []
        self.record(parameters, None, None)

    def record(self, parameters, x, y):
        super().__init__(experiment=None, measurements=(Measurement('m'),), parameters=parameters, raw_x_data=x, raw_y_data=y, name='source')

    def evaluate(self):
        values = self.script()
        self.given.append(values.copy())
        self.record(self.parameters, np.array([len(self.given), .5]), values.values.copy())
        order = list(values.index)[::-1] if len(self.given) % 2 else list(values.index)
        return values[order], pd.Series(1e-3 * len(self.given), index=order)

    def to_hdf5(self):
        return dict(parameters=self.parameters)


def statistics(xs):
    """exact mean and population variance / number of the values which are not NaN"""
    xs = [Fraction(float(x)) for x in xs if x == x]
    if not xs:
        return float('nan'), float('nan')
    m = sum(xs) / len(xs)
    return float(m), float(sum((x - m) ** 2 for x in xs) / len(xs) / len(xs))


def close(a, b, scale):
    if b != b:
        return a != a
    return a == a and abs(a - b) <= 1e-12 * abs(b) + scale


def case(rng, ctx, index):
    ps = gen.pick(rng, gen.PAR_NAMES, int(rng.integers(1, 6)))
    n = int(gen.choice(rng, [1, 2, 3, int(rng.integers(1, 26))]))
    mode = gen.choice(rng, ['none', 'some', 'some', 'one_parameter', 'all', 'repetitions'])
    scale = 10. ** rng.uniform(-9, 4)
    offset = scale * float(gen.choice(rng, [0., 1., 100.]))
    failing = gen.choice(rng, ps)
    bad_rep = set(int(x) for x in rng.integers(0, n, int(rng.integers(1, n + 1))))
    spread = {p: float(rng.uniform(.1, 3)) for p in ps}
    k = [0]

    def script():
        v = pd.Series({p: offset + spread[p] * scale * float(rng.normal()) for p in ps})
        if mode == 'all':
            v[:] = np.nan
        if mode == 'one_parameter':
            v[failing] = np.nan
        if mode == 'repetitions' and k[0] % n in bad_rep:
            v[:] = np.nan
        if mode == 'some':
            for p in ps:
                if rng.random() < .4:
                    v[p] = np.nan
        k[0] += 1
        return v
    src = Source(tuple(ps), script)
    ev = AveragingEvaluator(src, n)
    nested = None
    if rng.random() < .15 and n <= 6:
        nested = int(rng.integers(1, 4))
        ev = AveragingEvaluator(ev, nested)
    check(tuple(ev.parameters) == tuple(ps), 'parameters of the averaging evaluator', got=ev.parameters, expected=ps)
    for rep in range(int(rng.integers(1, 4))):
        start = len(src.given)
        values, var = ev.evaluate()
        given = src.given[start:]
        info = dict(repetitions=n, nested=nested, evaluation=rep, mode=mode)
        check(len(given) == n * (nested or 1), 'number of repetitions', got=len(given), **info)
        check(sorted(values.index) == sorted(ps) and sorted(var.index) == sorted(ps), 'names', values=values, variances=var, **info)
        for p in ps:
            xs = [g[p] for g in given]
            tol = 1e-13 * max([abs(x) for x in xs if x == x] + [0.])
            if nested:
                xs = [statistics(xs[i * n:(i + 1) * n])[0] for i in range(nested)]
            m, s = statistics(xs)
            check(close(values[p], m, tol), 'mean', parameter=p, got=values[p], expected=m, values=xs, **info)
            check(close(var[p], s, tol * tol + 1e-9 * abs(s if s == s else 0) + 4 * tol * math.sqrt(abs(s) if s == s else 0)), 'variance of the mean', parameter=p, got=var[p], expected=s,
                  values=xs, **info)
            ctx.count('all_failed', m != m)
            ctx.count('some_failed', m == m and any(x != x for x in xs))
        x_raw, y_raw = ev.raw_data
        if not nested:
            check(len(x_raw) == n and len(y_raw) == n, 'number of raw data', got=(len(x_raw), len(y_raw)), **info)
            for i, (x, y) in enumerate(zip(x_raw, y_raw)):
                check(np.asarray(x)[0] == start + i + 1 and np.array_equal(np.asarray(y), given[i].values, equal_nan=True),
                      'raw data are not kept in order', repetition=i, got=(x, y), expected=given[i], **info)
        else:
            flat = [r for block in x_raw for r in block]
            check([int(np.asarray(r)[0]) for r in flat] == list(range(start + 1, start + n * nested + 1)), 'raw data are not kept in order', **info)
        ctx.count('averages')
        ctx.count('nested', nested is not None)
        ctx.distinct(n, nested, tuple(tuple(g.isna()) for g in given)[:6])
    ctx.sample(repetitions=n, mode=mode, parameters=ps)
