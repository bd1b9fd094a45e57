"""C25: the parallel reader on libraries of files with random loading times and broken files; order and completeness checker."""
import os
import time

import numpy as np
import pandas as pd

from qtune.autotuner import Autotuner
from qtune.history import read_files
from qtune.storage import HDF5Serializable, ParallelHDF5Reader, from_hdf5, to_hdf5

from qv.core import check
from qv import gen, snap
from qv.checks.c13 import Maker, QVHolder, Walker
from qv.sim import SimExperiment

PROPERTY = 'C25'
N = dict(quick=260, thorough=12000)
CASE_TIMEOUT = 90
RULE = ('libraries of 0-16, sometimes up to 150 files (object graphs of random size, stored autotuners), read with 1-8 threads or processes while loading takes random times, '
        'files repeated or given as generator, broken files (missing, no HDF5 file, truncated, constructor raises) at a random '
        'position, several reads with one reader; non-trivial: distinct (kind of pool, workers, files, completion order, failure)')
REQUIRED = dict(objects=4., out_of_order=.2, failures=.2, processes=.1, autotuners=.05, large_libraries=1, reserved=.5)
ASSUMPTIONS = ['process pools connect the objects with copies of the reserved objects']


class QVDelayed(metaclass=HDF5Serializable):
    """takes its time when it is loaded"""

    def __init__(self, uid, delay, payload, log=None, fail=False, experiment=None, payload2=None):
        self.uid, self.delay, self.payload, self.log, self.fail, self.experiment = uid, delay, payload, log, fail, experiment
        if isinstance(log, str) and log:
            if delay:
                time.sleep(float(delay))
            fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b'%d\n' % int(uid))
            os.close(fd)
            if fail:
                raise ValueError('can not be constructed')

    def to_hdf5(self):
        return dict(uid=self.uid, delay=self.delay, payload=self.payload, log=self.log, fail=self.fail, experiment=self.experiment)


def marker(exp):
    return None if exp is None else float(exp.true_voltages.sum())


def case(rng, ctx, index):
    path = ctx.tmpdir()
    log = os.path.join(path, 'log')
    processes = index % 6 == 0
    workers = int(gen.choice(rng, [1, 2, 3, 8])) if not processes else int(gen.choice(rng, [1, 2, 3]))
    n = int(rng.integers(0, 17)) if not processes else int(rng.integers(1, 8))
    large = not processes and index % 41 == 1
    if large:
        n = int(rng.integers(65, 150))
        ctx.count('large_libraries')
    exp = SimExperiment({g: float(rng.normal()) for g in gen.pick(rng, gen.GATE_NAMES, 3)})
    slow = float(gen.choice(rng, [0., .003, .01]))
    files, originals = [], []
    for i in range(n):
        f = os.path.join(path, '%s.hdf5' % gen.choice(rng, ['a', 'z', 'm']) + str(i))
        if not processes and not large and rng.random() < .08:
            pr = gen.build(gen.random_spec(rng, n_gates=3, max_tuners=1))
            obj = pr.autotuner
            to_hdf5(f, 'autotuner', obj, reserved={'experiment': pr.exp})
            originals.append(('autotuner', snap.autotuner(obj)))
            ctx.count('autotuners')
        else:
            m = Maker(rng, [], .2)
            payload = [m.make(int(rng.integers(0, 4))) for _ in range(int(gen.choice(rng, [1, 2, 20 if rng.random() < .2 else 1])) if not large else 1)]
            obj = QVDelayed(i, 0., payload, None, False, exp)
            obj.delay, obj.log = slow * float(rng.random()) * (4. if rng.random() < .2 else 1.), log
            to_hdf5(f, 'object', obj, reserved={'experiment': exp})
            originals.append(('object', payload))
        files.append(f)
    order = list(range(n))
    if rng.random() < .3:
        order = gen.pick(rng, order, n)
    if n and rng.random() < .2:
        order += [int(x) for x in rng.integers(0, n, 2)]
    broken = None
    if order and rng.random() < .45:
        where = int(rng.integers(len(order)))
        broken = gen.choice(rng, ['missing', 'text', 'truncated', 'raises', 'empty'])
        b = os.path.join(path, 'broken.hdf5')
        if broken == 'text':
            open(b, 'w').write('this is no HDF5 file')
        elif broken == 'empty':
            open(b, 'w').close()
        elif broken == 'truncated':
            with open(files[order[where]], 'rb') as f:
                data = f.read()
            open(b, 'wb').write(data[:len(data) // 3])
        elif broken == 'raises':
            o = QVDelayed(999, 0., 1.)
            o.log, o.fail = log, True
            to_hdf5(b, 'object', o)
        files.append(b)
        order.insert(where, len(files) - 1)
        originals.append(None)
    supplied = SimExperiment({'S1': float(rng.normal()), 'S2': 1.})
    info = dict(processes=processes, workers=workers, files=len(order), broken=broken, broken_at=where if broken else None)
    reads = int(gen.choice(rng, [1, 1, 2]))
    reader = ParallelHDF5Reader(reserved={'experiment': supplied}, multiprocess=processes, max_workers=workers)
    try:
        for rep in range(reads):
            open(log, 'w').close()
            names = [files[k] for k in order]
            names = gen.choice(rng, [lambda: names, lambda: tuple(names), lambda: iter(names)])()
            got, error = [], None
            it = reader.read_iter(names)
            try:
                for x in it:
                    got.append(x)
                    if slow and rng.random() < .1:
                        time.sleep(slow)
            except Exception as e:
                error = type(e).__name__
            if broken:
                check(error is not None, 'a broken file did not raise an error', yielded=len(got), **info)
                check(len(got) == where, 'error raised at another position', yielded=len(got), error=error, **info)
                ctx.count('failures')
            else:
                check(error is None, 'reading failed', error=error, yielded=len(got), **info)
                check(len(got) == len(order), 'number of objects', yielded=len(got), **info)
            for j, x in enumerate(got):
                kind, want = originals[order[j]]
                check(isinstance(x, dict) and kind in x, 'file without its object', position=j, got=type(x).__name__, **info)
                o = x[kind]
                if kind == 'autotuner':
                    d = snap.diff(want, snap.autotuner(o), 1e-10)
                    check(d is None, 'autotuner differs', difference=d, position=j, **info)
                    check(o.reserved['experiment'] is supplied, 'autotuner is not connected with the supplied experiment', position=j, **info)
                else:
                    check(int(o.uid) == order[j], 'objects are not in the order of the files', position=j, got=int(o.uid), expected=order[j], **info)
                    w = Walker([], dict(position=j, **info))
                    w.walk(want, o.payload)
                    if processes:
                        check(marker(o.experiment) == marker(supplied) if isinstance(o.experiment, SimExperiment) else False,
                              'object is not connected with the supplied experiment', position=j, got=repr(o.experiment)[:100], **info)
                    else:
                        check(o.experiment is supplied, 'object is not connected with the supplied experiment', position=j, **info)
                    ctx.count('reserved')
                ctx.count('objects')
            with open(log) as f:
                done = [int(z) for z in f.read().split()]
            ctx.count('out_of_order', [z for z in done if z != 999] != [k for k in order if originals[k] and originals[k][0] == 'object'][:len(done)])
            ctx.distinct(processes, workers, tuple(order), tuple(done), broken)
    finally:
        reader.shutdown()
    if n and rng.random() < .5:
        # the plain reader of files
        ks = gen.pick(rng, list(range(n)), min(n, 4))
        data = read_files([files[k] for k in ks], {'experiment': supplied})
        check(sorted(x[0] for x in data) == sorted(originals[k][0] for k in ks), 'read_files lost or added data', got=[x[0] for x in data], **info)
        for name, o in data:
            check((o.reserved['experiment'] if name == 'autotuner' else o.experiment) is supplied, 'read_files does not connect the reserved objects', **info)
        uids = [int(o.uid) for name, o in data if name == 'object']
        check(uids == [k for k in ks if originals[k][0] == 'object'], 'read_files does not return the objects in the order of the files', got=uids, **info)
        for k, o in zip([k for k in ks if originals[k][0] == 'object'], [o for name, o in data if name == 'object']):
            Walker([], info).walk(originals[k][1], o.payload)
        ctx.count('read_files', len(ks))
    ctx.count('processes', processes)
    ctx.sample(**info)
