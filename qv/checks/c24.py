"""C24: signal processing helpers against their definition; input buffers are compared before and after."""
import numpy as np
import pandas as pd

from qtune import util

from qv.core import check
from qv import gen

PROPERTY = 'C24'
N = dict(quick=12000, thorough=1000000)
RULE = ('random data (1-700 points, float and integer, single lines of shape n, 1 x n and n x 1, several lines, read-only and strided arrays), widths 1 to the '
        'number of points, steps of either sign sharp or smooth on sloped background with noise at every position inside the searched '
        'range, 0 to n-1 independent vectors; non-trivial: distinct (helper, shape, kind of data, coarse width and position)')
REQUIRED = dict(cancelling_lines=.03, average=.15, diff=.15, index=.15, transition=.15, orthogonal=.1)


def with_one(rng, x, value):
    """one broken sample must not affect the windows which do not contain it"""
    x[int(rng.integers(len(x)))] = value
    return x


def series(rng, n):
    kind = gen.choice(rng, ['normal', 'int', 'walk', 'const', 'big', 'spike', 'hole'])
    x = dict(normal=lambda: rng.normal(size=n), int=lambda: rng.integers(-50, 50, n), walk=lambda: np.cumsum(rng.normal(size=n)),
             const=lambda: np.full(n, float(rng.normal())), big=lambda: rng.normal(size=n) * 1e6,
             spike=lambda: with_one(rng, rng.normal(size=n), 1e18), hole=lambda: with_one(rng, rng.normal(size=n), np.nan))[kind]()
    return kind, x


def layout(rng, x, single=True):
    k = gen.choice(rng, ['flat', 'flat', 'row', 'column', 'strided', 'readonly'] if single else ['flat', 'strided', 'readonly'])
    if k == 'row':
        x = x[None, :]
    elif k == 'column':
        x = x[:, None]
    elif k == 'strided':
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    elif k == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    return k, x


def unchanged(x, before, what, **info):
    check(x.shape == before.shape and x.dtype == before.dtype and bool(((x == before) | ((x != x) & (before != before))).all()), what + ' modified its input', **info)


def average(rng, ctx):
    n = int(gen.choice(rng, [1, 2, 5, int(rng.integers(1, 60)), int(rng.integers(1, 300))]))
    kind, x = series(rng, n)
    lay, y = layout(rng, x)
    if y.size == 1:
        lay, y = 'flat', np.asarray(x)
        return
    w = int(gen.choice(rng, [1, 2, n, int(rng.integers(1, n + 1))]))
    before = y.copy()
    got = util.moving_average_filter(y, w)
    unchanged(y, before, 'moving_average_filter', n=n, width=w, layout=lay)
    want = np.array([np.mean(x[max(0, i - w + 1):i + 1]) for i in range(n)])
    scale = np.array([max(1., np.abs(x[max(0, i - w + 1):i + 1]).max()) for i in range(n)])
    check(np.shape(got) == (n,) and bool(np.all((np.abs(got - want) <= 1e-9 * scale) | (np.isnan(got) & np.isnan(want)))), 'moving average differs from the mean of the last samples',
          n=n, width=w, layout=lay, kind=kind, got=np.asarray(got)[:8], expected=want[:8])
    ctx.distinct('average', lay, kind, n, w)


def diff(rng, ctx):
    n = int(rng.integers(2, 200))
    kind, x = series(rng, n)
    lay, y = layout(rng, x, False)
    k = int(gen.choice(rng, [1, n - 1, int(rng.integers(1, n))]))
    before = y.copy()
    got = util.nth_diff(y, k)
    unchanged(y, before, 'nth_diff', n=n, distance=k, layout=lay)
    want = x[:-k] - x[k:]
    check(np.shape(got) == (n - k,) and bool(np.allclose(got, want, rtol=1e-12, atol=1e-12, equal_nan=True)), 'nth difference', n=n, distance=k, got=np.asarray(got)[:8],
          expected=want[:8])
    ctx.distinct('diff', lay, kind, n, k)


def step_data(rng, n, k, height, smooth):
    """single step between sample k - 1 and sample k"""
    i = np.arange(n)
    y = (i >= k).astype(float) if not smooth else .5 * (1 + np.tanh((i - k + .5) / smooth))
    slope = float(gen.choice(rng, [0., 1.])) * rng.uniform(-1, 1) * .2 / n
    return height * (y + slope * i + rng.normal() * 3) + abs(height) * .03 * rng.uniform(-1, 1, n) * float(gen.choice(rng, [0., 1.]))


def index(rng, ctx):
    n = int(rng.integers(12, 400))
    w = int(rng.integers(2, max(3, n // 3)))
    k = int(gen.choice(rng, [1, n - w - 3, int(rng.integers(1, n - w - 2)), int(rng.integers(1, n - w - 2))]))
    h = float(gen.choice(rng, [-1., 1.])) * 10. ** float(rng.uniform(-6, 3))
    smooth = 0. if rng.random() < .5 or k < w or k > n - 2 * w else w / 8.
    x = step_data(rng, n, k, h, smooth)
    lay = gen.choice(rng, ['flat', 'row', 'column', 'readonly'])
    y = dict(flat=x, row=x[None], column=x[:, None], readonly=x.copy())[lay]
    if lay == 'readonly':
        y.flags.writeable = False
    before = y.copy()
    got = util.new_find_lead_transition_index(y, w)
    unchanged(y, before, 'new_find_lead_transition_index', n=n, width=w)
    check(isinstance(got, (int, np.integer)) and 0 <= got < n, 'index of the transition is no index', got=got, n=n, width=w)
    check(abs(int(got) - k) <= w + 1, 'transition found at the wrong index', got=got, expected=k, n=n, width=w, height=h, smooth=smooth, layout=lay)
    ctx.distinct('index', lay, h > 0, n, w, k)


def transition(rng, ctx):
    n = int(rng.integers(40, 400))
    center, half = float(rng.normal() * 1e-2), float(gen.choice(rng, [4e-3, 5e-3, 1., float(rng.uniform(1e-3, 1e-2))]))
    dx = 2 * half / (n - 1)
    if half == 4e-3 and .2e-3 / half * n >= 2:
        width, kw = .2e-3, {}
    else:
        width = half * float(rng.uniform(3. / n, .3))
        kw = dict(width=width)
    w = 2 * width / dx              # the window covers the width to both sides
    lo, hi = 1, int(n - w - 4)
    if hi <= lo:
        return
    k = int(rng.integers(lo, hi + 1))
    h = float(gen.choice(rng, [-1., 1.])) * 10. ** float(rng.uniform(-6, 3))
    x = step_data(rng, n, k, h, 0.)
    lines = int(gen.choice(rng, [0, 0, 1, 2, 5]))
    y = x if not lines else np.stack([x + abs(h) * .02 * rng.uniform(-1, 1, n) for _ in range(lines)])
    if lines > 1 and rng.random() < .5:
        # steps elsewhere in single lines, which cancel in the mean of the lines
        w_line = rng.normal(size=lines) * 3
        w_line -= w_line.mean()
        decoy = np.where(np.arange(n) < rng.integers(lo, hi + 1), 0., h)
        y = y + w_line[:, None] * decoy
        ctx.count('cancelling_lines')
    lay, y = layout(rng, y, False)
    before = y.copy()
    got = util.find_lead_transition(y, center, half, n, **kw)
    unchanged(y, before, 'find_lead_transition', lines=lines)
    pos = center - half + (k - .5) * dx
    check(np.ndim(got) == 0 and abs(float(got) - pos) <= 2 * width + 2 * dx, 'transition found at the wrong position', got=got, expected=pos, points=n, center=center,
          range=half, width=width, lines=lines, height=h)
    ctx.distinct('transition', lay, lines, h > 0, n, k)


def orthogonal(rng, ctx):
    n = int(rng.integers(2, 6))
    m = int(rng.integers(1, n))
    kind = gen.choice(rng, ['normal', 'unit', 'int', 'tiny', 'scaled'])
    if kind == 'unit':
        v = np.eye(n)[rng.permutation(n)[:m]]
    elif kind == 'int':
        v = rng.integers(-3, 4, (m, n)).astype(float)
    else:
        v = rng.normal(size=(m, n)) * dict(normal=1., tiny=1e-6, scaled=1.)[kind]
        if kind == 'scaled':
            v = v * 10. ** rng.uniform(-2, 2, (m, 1))
    sv = np.linalg.svd(v / np.maximum(np.linalg.norm(v, axis=1), 1e-300)[:, None], compute_uv=False)
    if sv[-1] < .05:
        return
    vs = [x.copy() for x in v]
    if rng.random() < .3:
        g = gen.pick(rng, gen.GATE_NAMES, n)
        vs = [pd.Series(x, index=g) for x in vs]
    before = v.copy()
    u = np.asarray(util.get_orthogonal_vector(vs), dtype=float)
    check(np.array_equal(np.array(vs), before), 'get_orthogonal_vector modified its input')
    check(u.shape == (n,) and abs(np.linalg.norm(u) - 1) < 1e-9, 'no unit vector', got=u, vectors=v)
    scale = np.linalg.norm(v, axis=1)
    check(bool((np.abs(v @ u) <= 1e-8 * scale).all()), 'vector is not orthogonal', got=u, vectors=v)
    ctx.distinct('orthogonal', n, m, kind, int(1e6 * u[0]))


def case(rng, ctx, index_):
    name = gen.choice(rng, ['average', 'diff', 'index', 'transition', 'orthogonal'])
    for _ in range(3):
        dict(average=average, diff=diff, index=index, transition=transition, orthogonal=orthogonal)[name](rng, ctx)
        ctx.count(name)
    ctx.sample(helper=name)
