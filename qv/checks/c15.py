"""C15: the asynchronous writer under delays, concurrent modification and failing writes; offline checker over the files and an
append-only log written by the objects themselves when they are serialised."""
import copy
import multiprocessing
import os
import sys
import threading
import time

import numpy as np
import pandas as pd

from qtune.storage import AsynchronousHDF5Writer, HDF5Serializable, from_hdf5

from qv.core import check
from qv import gen
from qv.checks.c13 import Maker, QVHolder, Walker
from qv.sim import SimExperiment

PROPERTY = 'C15'
N = dict(quick=420, thorough=12000)
CASE_TIMEOUT = 90
RULE = ('1-12 random object graphs written by one or two producers through a thread or process based writer to new or common files, modified in '
        'place right after the call, with random delays of the writing (up to 11 s), at most one failing write (not serialisable object, unusable file, name taken) at a '
        'random position, joins, refused writes and restarts in between, and exits of processes with unwritten data; non-trivial: distinct '
        '(writer kind, sequence of writes, failures, joins and restarts)')
REQUIRED = dict(written=3., mutated=2., slow=.5, failing=.2, processes=.1, restarts=.2, refused=.5, behind=.2, common_files=.3, exits=.01, hanging=.004)
ASSUMPTIONS = ['objects are serialisable by deepcopy (and by pickle for the process based writer)']


class QVLogged(metaclass=HDF5Serializable):
    """payload which notes when it is serialised"""

    def __init__(self, uid, payload, log=None, delay=0., fail=0):
        self.uid, self.payload, self.log, self.delay, self.fail = uid, payload, log, delay, fail

    def to_hdf5(self):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, b'%d\n' % self.uid)
        os.close(fd)
        if self.delay:
            time.sleep(self.delay)
        if self.fail == 1:
            raise RuntimeError('can not be serialised')
        return dict(uid=self.uid, payload=self.payload, **({'z': object()} if self.fail == 2 else {}))


def mutate(x, rng, depth=0, keep=()):
    """modifies everything reachable in place; number of modifications"""
    n = 0
    if any(x is k for k in keep):
        return 0
    if isinstance(x, np.ndarray):
        if x.size:
            x.flat[...] = 0 if x.dtype.kind != 'b' else ~x.flat[0]
            x.flat[0] = 1
            n += 1
    elif isinstance(x, (pd.Series, pd.DataFrame)):
        if x.size:
            if isinstance(x, pd.Series):
                x.iloc[0] = x.iloc[-1]
                x.iloc[:] = x.iloc[0]
            x.index = list(range(100, 100 + len(x)))
            n += 1
    elif isinstance(x, (list, tuple)):
        for y in x:
            n += mutate(y, rng, depth + 1, keep)
        if isinstance(x, list):
            if x and rng.random() < .5:
                x.pop()
            else:
                x.append('late')
            n += 1
    elif isinstance(x, dict):
        for y in x.values():
            n += mutate(y, rng, depth + 1, keep)
        x['late'] = 1.
        n += 1
    elif isinstance(x, QVHolder):
        for y in x.args.values():
            n += mutate(y, rng, depth + 1, keep)
        x.args['first'] = 'late'
        n += 1
    return n


class Plan:
    pass


def exit_child(path, fail_first):
    w = AsynchronousHDF5Writer({}, multiprocess=True)
    if fail_first:
        w.write({'a': 1}, os.path.join(path, 'missing', 'x.h5'), 'x')
    for i in range(12):
        try:
            w.write({'a': np.full(60000, i)}, os.path.join(path, '%d.h5' % i), 'x')
        except RuntimeError:
            break
    w.join()


def exits(rng, ctx, path):
    fail = bool(rng.random() < .8)
    p = multiprocessing.get_context('fork').Process(target=exit_child, args=(path, fail))
    p.start()
    p.join(40.)
    alive = p.is_alive()
    if alive:
        p.kill()
        p.join()
    check(not alive, 'program does not end after the writer was joined', failed_write=fail)
    if not fail:
        check(len(os.listdir(path)) == 12, 'objects missing after exit', files=len(os.listdir(path)))
    ctx.count('exits')
    ctx.distinct('exit', fail)


def case(rng, ctx, index):
    path = ctx.tmpdir()
    if index % 40 == 0:
        return exits(rng, ctx, path)
    multiprocess = bool(rng.random() < .3)
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(gen.choice(rng, [1e-5, 1e-3, .005])))
    try:
        run(rng, ctx, path, multiprocess, index % 140 == 21)
    finally:
        sys.setswitchinterval(old)


def run(rng, ctx, path, multiprocess, hanging=False):
    log = os.path.join(path, 'log')
    open(log, 'w').close()
    exp = SimExperiment({'A': 1., 'B': 2.})
    reserved = {'experiment': exp}
    if rng.random() < .4:
        reserved['other'] = QVHolder(1., 'reserved')
    supplied = {k: (QVHolder('supplied', k)) for k in reserved}
    writer = AsynchronousHDF5Writer(reserved, multiprocess=multiprocess)
    n = int(rng.integers(1, 13))
    failing = int(rng.integers(n)) if rng.random() < .45 and not hanging else None
    slow = float(gen.choice(rng, [0., 0., .002, .01, .03]))
    producers = 2 if rng.random() < .15 and failing is None else 1
    expected = []       # (uid, file, name, snapshot, epoch, producer, certain)
    ids = {}
    trail = []
    broken = False      # a failing write was accepted since the last start
    epoch = 0
    lock = threading.Lock()

    def put(i, rng, producer, fail=0):
        maker = Maker(rng, reserved.values(), .2)
        payload = maker.make(int(rng.integers(1, 4)))
        if not isinstance(payload, (list, dict)):
            payload = [payload, maker.make(2)]
        delay = slow * float(rng.random())
        if hanging and i == n - 1:
            delay = 11.     # the disk hangs for a while
            ctx.count('hanging')
        kind = None
        name = gen.choice(rng, ['autotuner', 'obj%d' % i, None, ' %d. state of the autotuner, double dot β (T = 50 mK)' % i])
        file = os.path.join(path, 'f%d.hdf5' % i)
        common = [e for e in expected if e['file'] and e['name']]
        if fail:
            kind = gen.choice(rng, ['raises', 'unsupported', 'directory', 'missing', 'taken' if common and producers == 1 else 'missing'])
            if kind == 'directory':
                os.mkdir(file)
            elif kind == 'missing':
                file = os.path.join(path, 'no', 'such', 'directory.hdf5')
            elif kind == 'taken':
                e = common[int(rng.integers(len(common)))]
                file, name = e['file'], e['name']
        elif common and rng.random() < .3 and producers == 1:
            file = common[int(rng.integers(len(common)))]['file']
            name = 'obj%d' % i
            ctx.count('common_files')
        obj = QVLogged(i, payload, log, delay, dict(raises=1, unsupported=2).get(kind, 0))
        snapshot = copy.deepcopy(payload, {id(r): r for r in reserved.values()})
        try:
            writer.write(obj, file, name)
        except RuntimeError:
            if not broken:
                raise
            with lock:
                trail.append('r')
            return kind
        ctx.count('mutated', mutate(payload, rng, keep=tuple(reserved.values())))
        obj.uid = -1
        obj.payload = None
        with lock:
            trail.append('f' if fail else 'w')
            if not fail:
                expected.append(dict(uid=i, file=file, name=name, snapshot=snapshot, epoch=epoch, producer=producer, certain=not broken,
                                     reserved=reserved))
                ids[i] = expected[-1]
        return kind

    def pending():
        with open(log) as f:
            return len(f.read().split())

    kinds = []
    if producers == 2:
        seeds = [np.random.default_rng(int(rng.integers(2 ** 31))) for _ in range(2)]
        errors = []

        def produce(k):
            try:
                for j in range(n):
                    put(2 * j + k, seeds[k], k)
                    time.sleep(slow * seeds[k].random())
            except BaseException as e:
                errors.append(repr(e))
        ts = [threading.Thread(target=produce, args=(k,)) for k in range(2)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        check(not errors, 'writing from two threads failed', errors=errors)
        n *= 2
    else:
        for i in range(n):
            if rng.random() < .12:
                if rng.random() < .5:
                    writer.join()
                    trail.append('j')
                    if rng.random() < .5:
                        writer.join()
                    refused(writer, path, ctx, 'after join')
                writer.restart()
                trail.append('s')
                epoch += 1
                broken = False
                ctx.count('restarts')
                verify_present(expected, supplied, 'after restart')
            fail = i == failing
            kinds.append(put(i, rng, 0, fail))
            if fail and trail[-1] == 'f':
                broken = True
            if slow and rng.random() < .3:
                time.sleep(slow * rng.random())
    behind = len([t for t in trail if t == 'w']) - pending()
    ctx.count('behind', behind > 0)
    before = time.time()
    writer.join()
    took = time.time() - before
    trail.append('j')
    info = dict(multiprocess=multiprocess, trail=''.join(trail), failure=[k for k in kinds if k], files=len(expected))
    refused(writer, path, ctx, info)
    nodes = verify_present(expected, supplied, info)
    order(log, ids, info)
    if rng.random() < .5:
        writer.restart()
        trail.append('s')
        ctx.count('restarts')
        broken = False
        put(1000, rng, 0)
        writer.join()
        verify_present(expected, supplied, info)
        order(log, ids, info)
    check(not writer_alive(writer), 'worker is still running after join', **info)
    ctx.count('written', len(expected))
    ctx.count('nodes', nodes)
    ctx.count('slow', slow > 0)
    ctx.count('failing', failing is not None)
    ctx.count('processes', multiprocess)
    ctx.distinct(multiprocess, ''.join(trail), tuple(k for k in kinds if k))
    ctx.sample(join_s=round(took, 3), delay=slow, **info)


def writer_alive(writer):
    return any(t.is_alive() and t is not threading.current_thread() and getattr(t, '_target', None) is not None and
               'writer' in str(getattr(t, '_target', '')) for t in threading.enumerate()) or bool(multiprocessing.active_children())


def refused(writer, path, ctx, info):
    try:
        writer.write({'a': 1.}, os.path.join(path, 'refused.hdf5'), 'x')
    except RuntimeError:
        ctx.count('refused')
    else:
        check(False, 'write after the writer stopped was accepted', info=info)
    check(not os.path.exists(os.path.join(path, 'refused.hdf5')), 'refused object was written', info=info)


def verify_present(expected, supplied, info):
    nodes = 0
    info = info if isinstance(info, dict) else dict(when=info)
    by_file = {}
    for e in expected:
        by_file.setdefault(e['file'], []).append(e)
    for file, es in by_file.items():
        if not os.path.isfile(file):
            check(not any(e['certain'] for e in es), 'file is not on disk', file=os.path.basename(file), **info)
            continue
        try:
            loaded = from_hdf5(file, supplied)
        except OSError as err:
            check(False, 'file is not complete', file=os.path.basename(file), error=str(err), **info)
        objs = {k: v for k, v in loaded.items() if k not in supplied}
        for k in supplied:
            if k in loaded:
                check(loaded[k] is supplied[k], 'reserved object not replaced', **info)
        uids = [o.uid for o in objs.values()]
        check(len(set(uids)) == len(uids), 'object written several times', uids=uids, **info)
        check(set(uids) <= {e['uid'] for e in es}, 'file contains other objects', got=uids, expected=[e['uid'] for e in es], **info)
        for e in es:
            if e['uid'] not in uids:
                check(not e['certain'], 'object is not in its file', uid=e['uid'], file=os.path.basename(file), **info)
                continue
            name = [k for k, o in objs.items() if o.uid == e['uid']][0]
            check(e['name'] is None or name == e['name'], 'object stored under another name', name=name, expected=e['name'], **info)
            w = Walker([(e['reserved'][k], supplied[k]) for k in supplied], info)
            w.walk(e['snapshot'], objs[name].payload)
            nodes += w.nodes
    return nodes


def order(log, ids, info):
    with open(log) as f:
        uids = [int(x) for x in f.read().split()]
    dedup = [u for i, u in enumerate(uids) if i == 0 or uids[i - 1] != u]
    check(len(set(dedup)) == len(dedup), 'an object was written more than once', uids=uids, **info)
    for p in {e['producer'] for e in ids.values()}:
        mine = [u for u in dedup if u in ids and ids[u]['producer'] == p]
        check(mine == sorted(mine), 'objects are not written in the order of the calls', uids=uids, **info)
        certain = [u for u in sorted(ids) if ids[u]['producer'] == p and ids[u]['certain']]
        check([u for u in mine if ids[u]['certain']] == certain, 'objects lost', written=mine, expected=certain, **info)
    check(-1 not in uids, 'the modified object was written', uids=uids, **info)
