"""C13: random nestings with sharing are stored and loaded; an oracle walks original and loaded graph in parallel."""
import copy
import hashlib
import os

import numpy as np
import pandas as pd

from qtune.experiment import Measurement
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.solver import make_target
from qtune.storage import HDF5Serializable, to_hdf5, from_hdf5

from qv.core import check
from qv import gen
from qv.sim import SimExperiment

PROPERTY = 'C13'
N = dict(quick=900, thorough=60000)
RULE = ('random trees (depth up to 5) of all supported types in which earlier nodes are referenced again with random probability, 0-3 reserved '
        'objects, 1-3 objects per file; non-trivial: distinct multiset of node types together with the number of shared references')
REQUIRED = dict(nodes=10., shared_references=.5, reserved_references=.2, missing_reserved=.03, objects=.2, reloaded=.9)


class QVHolder(metaclass=HDF5Serializable):
    """keeps its constructor arguments"""
    def __init__(self, first=None, second=None, third=None):
        self.args = dict(first=first, second=second, third=third)

    def to_hdf5(self):
        return dict(self.args)


class QVTemporary(metaclass=HDF5Serializable):
    """hands out temporaries which live only as long as somebody refers to them"""
    def __init__(self, a, b, c):
        self.a, self.b, self.c = np.asarray(a, dtype=float), pd.Series(b), list(c)

    def to_hdf5(self):
        return dict(a=self.a.copy(), b=self.b.copy(), c=tuple(self.c))


STRINGS = ['', 'a', 'position_RFA', 'häß→', 'line\nbreak', ' ', 'NaN', '0', 'dict', '#type', 'experiment', 'x' * 300]
LABELS = ['a', 'b', 'ab', 'RFA', 'é', 'with space', 'x.y', 'tc(AB)', '10', '9', 'B', 'A', '']


def number(rng):
    return gen.choice(rng, [0., -0., 1.5, np.nan, np.inf, -np.inf, 1e-300, float(rng.normal()), float(rng.normal() * 1e9)])


def labels(rng, n):
    kind = gen.choice(rng, ['str', 'str', 'str', 'int', 'range', 'float'])
    if kind == 'str':
        return gen.pick(rng, LABELS, n)
    if kind == 'int':
        return [int(x) for x in rng.permutation(20)[:n]]
    if kind == 'float':
        return [float(x) / 4 for x in rng.permutation(20)[:n]]
    return list(range(n))


def data(rng, shape, kinds=('f', 'f', 'i', 'b', 'f4', 'c')):
    k = gen.choice(rng, list(kinds))
    if k == 'i':
        return rng.integers(-2 ** 40, 2 ** 40, shape)
    if k == 'b':
        return rng.random(shape) < .5
    x = rng.normal(size=shape) * 10. ** rng.integers(-9, 9)
    if rng.random() < .3 and x.size:
        x.flat[int(rng.integers(x.size))] = gen.choice(rng, [np.nan, np.inf, -np.inf])
    if k == 'c':
        return x + 1j * rng.normal(size=shape)
    return x.astype('f4') if k == 'f4' else x


class Maker:
    def __init__(self, rng, reserved, share):
        self.rng, self.pool, self.reserved, self.share = rng, [], list(reserved), share
        self.kinds = []
        self.shared = 0
        self.reserved_refs = 0

    def make(self, depth):
        rng = self.rng
        if self.pool and rng.random() < self.share:
            self.shared += 1
            return self.pool[int(rng.integers(len(self.pool)))]
        if self.reserved and rng.random() < .08:
            self.reserved_refs += 1
            return gen.choice(rng, self.reserved)
        kinds = ['float', 'int', 'bool', 'str', 'none', 'array', 'series', 'strseries', 'frame', 'complex']
        if depth > 0:
            kinds += ['list', 'tuple', 'dict', 'holder'] * 3 + ['temp', 'kalman', 'estimator', 'fd', 'measurement', 'target']
        k = gen.choice(rng, kinds)
        self.kinds.append(k)
        n = int(rng.integers(0, 5)) if rng.random() < .9 else int(rng.integers(10, 14))
        if k == 'float':
            x = number(rng)
            return np.float64(x) if rng.random() < .3 else x
        if k == 'int':
            x = int(gen.choice(rng, [0, 1, -1, 2 ** 40, -2 ** 63, 2 ** 63 - 1, 7]))
            return np.int64(x) if rng.random() < .3 else x
        if k == 'complex':
            return complex(rng.normal(), rng.normal())
        if k == 'bool':
            return bool(rng.random() < .5) if rng.random() < .8 else np.bool_(rng.random() < .5)
        if k == 'str':
            return gen.choice(rng, STRINGS)
        if k == 'none':
            return None
        if k == 'array':
            shape = tuple(int(s) for s in rng.integers(0, 4, int(rng.integers(1, 4))))
            x = data(rng, shape)
            if x.ndim == 2 and rng.random() < .3:
                x = x.T
        elif k == 'series':
            lab = labels(rng, min(n, 8))
            x = pd.Series(data(rng, len(lab)), index=lab)
            if rng.random() < .3 and len(x) > 1:
                x = x[::-1]
        elif k == 'strseries':
            lab = labels(rng, min(n, 8) or 1)
            x = pd.Series([gen.choice(rng, STRINGS) for _ in lab], index=lab)
        elif k == 'frame':
            ix, co = labels(rng, min(n, 8)), labels(rng, int(rng.integers(0, 5)))
            x = pd.DataFrame(data(rng, (len(ix), len(co))), index=ix, columns=co)
            if rng.random() < .3:
                x = x.T
        elif k in ('list', 'tuple'):
            x = [self.make(depth - 1) for _ in range(n)]
            x = x if k == 'list' else tuple(x)
        elif k == 'dict':
            x = {key: self.make(depth - 1) for key in gen.pick(rng, LABELS[:-1] + ['#type', 'experiment'], min(n, 9))}
        elif k == 'holder':
            x = QVHolder(*[self.make(depth - 1) for _ in range(3)])
        elif k == 'temp':
            x = QVTemporary(rng.normal(size=3), pd.Series(rng.normal(size=2), index=['u', 'v']), list(rng.normal(size=2)))
        elif k == 'kalman':
            m = int(rng.integers(1, 4))
            x = KalmanGradient(m, 1, initial_gradient=rng.normal(size=m), initial_covariance_matrix=np.eye(m) * rng.uniform(.1, 2),
                               process_noise=np.eye(m) * .1, alpha=1.)
        elif k == 'estimator':
            g = gen.pick(rng, gen.GATE_NAMES, int(rng.integers(1, 4)))
            x = KalmanGradientEstimator(KalmanGradient(len(g), 1, initial_gradient=rng.normal(size=len(g))),
                                        current_position=pd.Series(rng.normal(size=len(g)), index=g),
                                        maximum_covariance=float(rng.uniform(.1, 1)), epsilon=.1)
        elif k == 'fd':
            g = gen.pick(rng, gen.GATE_NAMES, int(rng.integers(1, 4)))
            x = FiniteDifferencesGradientEstimator(current_position=pd.Series(rng.normal(size=len(g)), index=g),
                                                   epsilon=float(rng.uniform(.1, 1)), symmetric=bool(rng.random() < .5))
        elif k == 'measurement':
            x = Measurement('scan', gate=gen.choice(rng, gen.GATE_NAMES), center=float(rng.normal()), n=int(rng.integers(9)),
                            values=rng.normal(size=3))
        elif k == 'target':
            ix = gen.pick(rng, gen.PAR_NAMES, int(rng.integers(1, 5)))
            x = make_target(desired=pd.Series(rng.normal(size=len(ix)), index=ix), tolerance=pd.Series(rng.uniform(size=len(ix)), index=ix))
        self.pool.append(x)
        return x


QTUNE = (KalmanGradient, KalmanGradientEstimator, FiniteDifferencesGradientEstimator, Measurement, QVTemporary)


class Walker:
    """original and loaded graph have the same form"""

    def __init__(self, pairs, info):
        self.fwd, self.bwd, self.info = {}, {}, info
        self.reserved = {id(a): b for a, b in pairs}
        self.alive = []
        self.nodes = 0

    def fail(self, cond, msg, path, a, b):
        check(cond, msg, path=path, original=repr(a)[:300], loaded=repr(b)[:300], kinds=(type(a).__name__, type(b).__name__), **self.info)

    def values(self, x, y):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'OU' or y.dtype.kind in 'OU':
            return list(x.ravel()) == list(y.ravel())
        return x.dtype == y.dtype and bool(np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'))

    def index(self, a, b, path):
        self.fail(list(a) == list(b) and [isinstance(t, str) for t in a] == [isinstance(t, str) for t in b],
                  'labels or their order differ', path, list(a), list(b))

    def walk(self, a, b, path='', approx=False):
        self.nodes += 1
        if id(a) in self.reserved:
            self.fail(b is self.reserved[id(a)], 'reserved object was not replaced by the supplied one', path, a, b)
            return
        if a is None:
            self.fail(b is None, 'None', path, a, b)
            return
        if isinstance(a, str):
            self.fail(isinstance(b, str) and a == b, 'string differs', path, a, b)
            return
        if isinstance(a, (bool, np.bool_)):
            self.fail(isinstance(b, (bool, np.bool_)) and bool(a) == bool(b), 'boolean differs', path, a, b)
            return
        if isinstance(a, (int, float, complex, np.number)):
            kind = np.asarray(a).dtype.kind
            self.fail(isinstance(b, (int, float, complex, np.number)) and np.asarray(b).dtype.kind == kind, 'kind of number differs', path, a, b)
            ok = (a == b) or (kind == 'f' and a != a and b != b) or (approx and abs(a - b) <= 1e-14 * abs(a))
            self.fail(bool(ok) and (kind != 'f' or np.signbit(a) == np.signbit(b) or a != a), 'number differs', path, a, b)
            return
        # from here on objects have an identity
        if not (isinstance(a, tuple) and not a):
            if id(a) in self.fwd:
                self.fail(self.fwd[id(a)] is b, 'object referenced several times is loaded as several objects', path, a, b)
                return
            self.fail(id(b) not in self.bwd, 'distinct objects are loaded as one object', path, a, b)
            self.fwd[id(a)] = b
            self.bwd[id(b)] = a
            self.alive.append((a, b))
        if isinstance(a, np.ndarray):
            self.fail(isinstance(b, np.ndarray) and self.values(a, b), 'array differs', path, a, b)
        elif isinstance(a, pd.Series):
            self.fail(isinstance(b, pd.Series), 'kind of container differs', path, a, b)
            self.index(a.index, b.index, path)
            self.fail(self.values(a.values, b.values), 'values of the Series differ', path, a, b)
        elif isinstance(a, pd.DataFrame):
            self.fail(isinstance(b, pd.DataFrame), 'kind of container differs', path, a, b)
            self.index(a.index, b.index, path)
            self.index(a.columns, b.columns, path)
            self.fail(self.values(a.values, b.values), 'values of the DataFrame differ', path, a, b)
        elif isinstance(a, (list, tuple)):
            self.fail(type(a) is type(b) and len(a) == len(b), 'kind or length of container differs', path, a, b)
            for i, (x, y) in enumerate(zip(a, b)):
                self.walk(x, y, '%s[%d]' % (path, i), approx)
        elif isinstance(a, dict):
            self.fail(type(b) is dict and set(a) == set(b), 'kind or keys of dict differ', path, list(a), list(b) if isinstance(b, dict) else b)
            for k in a:
                self.walk(a[k], b[k], '%s[%r]' % (path, k), approx)
        elif isinstance(a, QVHolder):
            self.fail(type(b) is QVHolder, 'kind of object differs', path, a, b)
            for k in a.args:
                self.walk(a.args[k], b.args[k], '%s.%s' % (path, k), approx)
        elif isinstance(a, QTUNE):
            self.fail(type(b) is type(a), 'kind of object differs', path, a, b)
            self.qtune(a, b, path)
        else:
            raise RuntimeError('no oracle for %r' % type(a))

    def close(self, x, y):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        return x.shape == y.shape and bool(np.allclose(x, y, rtol=1e-12, atol=0., equal_nan=True))

    def qtune(self, a, b, path):
        f = lambda c, what, x, y: self.fail(c, what + ' of the object differs', path, x, y)
        if isinstance(a, QVTemporary):
            f(self.close(a.a, b.a), 'a', a.a, b.a)
            f(self.close(a.b, b.b) and list(a.b.index) == list(b.b.index), 'b', a.b, b.b)
            f(self.close(a.c, b.c), 'c', a.c, b.c)
        elif isinstance(a, Measurement):
            f(a.name == b.name and set(a.options) == set(b.options), 'name or options', a, b)
            for k in a.options:
                x, y = a.options[k], b.options[k]
                f(x == y if isinstance(x, str) else self.close(x, y), k, x, y)
        elif isinstance(a, KalmanGradient):
            f(self.close(a.grad, b.grad), 'gradient', a.grad, b.grad)
            f(self.close(a.cov, b.cov), 'covariance', a.cov, b.cov)
        else:
            f(list(a.current_position.index) == list(b.current_position.index) and
              self.close(a.current_position, b.current_position), 'position', a.current_position, b.current_position)
            x, y = a.require_measurement(), b.require_measurement()
            f((x is None) == (y is None) and (x is None or (list(x.index) == list(y.index) and bool(np.allclose(x, y)))),
              'requested measurement', x, y)
            if isinstance(a, KalmanGradientEstimator):
                f(self.close(a.estimate(), b.estimate()) and self.close(a.covariance(), b.covariance()), 'estimate', a, b)
            else:
                f(a.estimate() is None and b.estimate() is None, 'estimate', a.estimate(), b.estimate())


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def case(rng, ctx, index):
    n_res = int(rng.integers(0, 4))
    names = gen.pick(rng, ['experiment', 'logger', 'res erved'], n_res)
    olds, news = [], []
    for nme in names:
        k = gen.choice(rng, ['experiment', 'list', 'object'])
        mk = (lambda: SimExperiment({'A': 0.})) if k == 'experiment' else (lambda: [1]) if k == 'list' else (lambda: Reserved())
        olds.append(mk())
        news.append(mk())
    maker = Maker(rng, olds, float(gen.choice(rng, [0., .1, .25, .4])))
    depth = int(rng.integers(1, 6))
    objs = {}
    for i in range(int(rng.integers(1, 4))):
        o = maker.make(depth)
        if not isinstance(o, (dict, list, tuple, QVHolder)):
            o = dict(content=o, more=maker.make(depth))
        objs['object %d' % i] = o
    path = os.path.join(ctx.tmpdir(), 'file.hdf5')
    snapshot = copy.deepcopy((objs, olds))
    for nme, o in objs.items():
        to_hdf5(path, nme, o, reserved=dict(zip(names, olds)))
    before = digest(path)
    info = dict(types=sorted(set(maker.kinds)), reserved=names)
    # storing leaves the objects alone
    w = Walker(list(zip(snapshot[1], olds)), dict(when='original after storing', **info))
    for nme in objs:
        w.walk(snapshot[0][nme], objs[nme], nme)
    handle = rng.random() < .3
    loads = []
    for rep in range(2):
        src = path
        if handle:
            import h5py
            src = h5py.File(path, mode='r')
        loaded = from_hdf5(src, reserved=dict(zip(names, news)))
        loads.append(loaded)
        check(set(loaded) == set(objs) | set(names), 'names in the file', got=sorted(loaded), expected=sorted(objs) + names)
        for nme, new in zip(names, news):
            check(loaded[nme] is new, 'reserved object', name=nme)
        for nme, o in objs.items():
            w = Walker(list(zip(olds, news)), info)
            w.walk(o, loaded[nme], nme, approx=False)
            ctx.count('nodes', w.nodes)
        if handle:
            src.close()
        ctx.count('reloaded')
    if maker.reserved_refs and rng.random() < .5:
        # the reserved objects are not supplied
        try:
            x = from_hdf5(path, reserved={})
        except Exception:
            ctx.count('missing_reserved')
        else:
            check(False, 'missing reserved objects are not reported', loaded=repr(x)[:300], **info)
    check(digest(path) == before, 'loading changed the file', **info)
    ctx.count('shared_references', maker.shared)
    ctx.count('reserved_references', maker.reserved_refs)
    ctx.count('objects', sum(k in ('holder', 'temp', 'kalman', 'estimator', 'fd', 'measurement') for k in maker.kinds))
    ctx.distinct(tuple(sorted(maker.kinds)), maker.shared, n_res)
    ctx.sample(kinds=maker.kinds[:30], shared=maker.shared, reserved=names)


class Reserved:
    pass
