"""C16: directory of stored states against a live log of the tuning run, with slow writing, odd clocks and failing iterations."""
import datetime
import os
import sys
import time
import types

import numpy as np
import pandas as pd

import qtune.util
from qtune.autotuner import load_auto_tuner

from qv.core import check
from qv import dqd, gen, snap
from qv.sim import InjectedFault, SimEvaluator, SimExperiment

PROPERTY = 'C16'
N = dict(quick=160, thorough=6000)
RULE = ('random tuning runs (3-30 iterations, all tuner kinds, failing evaluations, restarts, target changes, iterations failing with exceptions) with storage in a new, '
        'existing or shared directory or without storage, while the background writer is delayed at random and the clock passes full '
        'seconds, hours, noon, months or is set back; non-trivial: distinct (setup, storage kind, clock, iteration kinds)')
REQUIRED = dict(files=5., without_path=.05, behind=.2, failing_iterations=.1, odd_clock=.3, clock_set_back=.1)


class SlowEvaluator(SimEvaluator):
    """delays the background writer"""
    delay = None

    def to_hdf5(self):
        if SlowEvaluator.delay:
            time.sleep(SlowEvaluator.delay.pop())
        return super().to_hdf5()


BOUNDARIES = [(2021, 12, 31, 23, 59, 59), (2022, 1, 31, 23, 59, 59), (2022, 9, 30, 23, 59, 59), (2022, 5, 9, 23, 59, 59), (2022, 5, 5, 11, 59, 59), (2022, 5, 5, 12, 59, 59),
              (2022, 5, 5, 9, 59, 59), (2022, 5, 5, 10, 9, 59), (2022, 5, 5, 10, 10, 9), (2022, 5, 5, 10, 10, 10)]


class Clock:
    """start: the time at which the run begins; jump: the wall clock is set back during the run"""

    def __init__(self, rng):
        self.kind = gen.choice(rng, ['real', 'boundary', 'boundary', 'jump'])
        self.rng = rng
        self.old = getattr(qtune.util.high_res_datetime, 'start', None) if hasattr(qtune.util, 'high_res_datetime') else None
        self.old_dt, self.old_t = getattr(qtune.util, 'datetime', None), getattr(qtune.util, 'time', None)
        self.set_back = 0.

    def __enter__(self):
        clock = self
        shift = datetime.timedelta(0)
        if self.kind == 'boundary':
            base = datetime.datetime(*gen.choice(self.rng, BOUNDARIES)) + datetime.timedelta(seconds=float(self.rng.uniform(.85, .999)))
            shift = base - datetime.datetime.now()
            if self.old is not None:
                qtune.util.high_res_datetime.start = (time.perf_counter(), base)

        class dt(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return datetime.datetime.now(tz) + shift - datetime.timedelta(seconds=clock.set_back)
        if isinstance(self.old_dt, types.ModuleType):
            qtune.util.datetime = types.SimpleNamespace(**{**vars(datetime), 'datetime': dt})
        if isinstance(self.old_t, types.ModuleType):
            qtune.util.time = types.SimpleNamespace(**{**vars(time), 'time': lambda: time.time() + shift.total_seconds() - clock.set_back})
        return self

    def tick(self):
        if self.kind == 'jump' and self.rng.random() < .2:
            self.set_back += float(gen.choice(self.rng, [.5, 3600.]))

    def __exit__(self, *a):
        if self.old is not None:
            qtune.util.high_res_datetime.start = self.old
        if self.old_dt is not None:
            qtune.util.datetime = self.old_dt
        if self.old_t is not None:
            qtune.util.time = self.old_t


def listing(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs]
    return set(out)


def case(rng, ctx, index):
    root = ctx.tmpdir()
    cwd = os.getcwd()
    os.chdir(root)          # whatever is written without a path shows up here
    try:
        with Clock(rng) as clock:
            run(rng, ctx, root, clock)
    finally:
        os.chdir(cwd)


def run(rng, ctx, root, clock):
    storage = gen.choice(rng, ['new', 'new', 'time', 'existing', 'nested', None])
    path = None if storage is None else os.path.join(root, 'lib', 'a', 'b') if storage == 'nested' else os.path.join(root, 'lib')
    if storage == 'existing':
        os.mkdir(path)
        open(os.path.join(path, '2001_01_01_00_00_00_000000.hdf5'), 'w').close()
    before = listing(root)
    real = rng.random() < .15
    if real:
        pr = dqd.build(dqd.spec(rng), path=path, with_time=storage == 'time')
    else:
        sp = gen.random_spec(rng, curvature=float(gen.choice(rng, [0., .03])))
        gen_sim = gen.SimEvaluator
        gen.SimEvaluator = SlowEvaluator
        try:
            pr = gen.build(sp, path=path, with_time=storage == 'time')
        finally:
            gen.SimEvaluator = gen_sim
        bad = {int(x) for x in rng.integers(len(pr.tuners) * 2 + 2, 60, int(rng.integers(0, 3)))}
        pr.lab.nan = lambda i, v, p: i in bad
    auto, exp = pr.autotuner, pr.exp
    check(listing(root) == before, 'files are written without any iteration', storage=storage)
    slow = not real and rng.random() < .6
    rs = np.random.default_rng(int(rng.integers(2 ** 31)))
    SlowEvaluator.delay = type('D', (), dict(pop=lambda self: float(rs.uniform(0, .02)) if rs.random() < .5 else 0.))() if slow else None
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(gen.choice(rng, [1e-5, 1e-3, .005])))
    n = int(rng.integers(3, 31))
    faults = {int(x) for x in rng.integers(0, n, int(rng.integers(0, 3)))}
    record, failed, behind = [], 0, 0
    trail = ''
    info = dict(storage=storage, clock=clock.kind, tuners=[type(t).__name__ for t in pr.tuners], slow=slow)
    try:
        for i in range(n):
            if rng.random() < .03:
                auto.restart()
                trail += 'R'
            if rng.random() < .03:
                f = float(rng.uniform(.8, 1.2))
                auto.change_targets([{'desired': t.target['desired'].dropna() * f} if t.target['desired'].notna().any() else {}
                                     for t in auto.tuning_hierarchy])
                trail += 'T'
            if auto.is_tuning_complete():
                break
            armed = i in faults

            def hook(what, payload):
                if armed:
                    raise InjectedFault()
            exp.fault = hook
            last = auto.last_save_file
            clock.tick()
            trail += 's' if auto.voltages_to_set is not None else 'g' if auto.current_tuner_status else 'e'
            try:
                auto.iterate()
            except Exception:
                failed += 1
                trail += '!'
                check(auto.last_save_file == last, 'a failed iteration changed the last saved file', **info)
                if not armed:
                    break
                continue
            if storage is None:
                record.append(None)
                continue
            f = auto.last_save_file
            check(isinstance(f, str) and f not in [r[0] for r in record], 'iteration did not get a new file', file=f, **info)
            record.append((f, snap.autotuner(auto)))
            behind += not os.path.exists(f)
            if exp.true_voltages.abs().max() > 1e3:
                break
    finally:
        sys.setswitchinterval(old)
        SlowEvaluator.delay = None
        exp.fault = None
        if storage is not None and record:
            auto.asynchrone_writer.join()
    info.update(iterations=trail)
    new = listing(root) - before
    check(before <= listing(root), 'existing files vanished', **info)
    if storage is None:
        check(not new, 'files are written without storage path', files=sorted(new), **info)
        check(auto.last_save_file is None or not os.path.exists(auto.last_save_file), 'last saved file without storage', **info)
        ctx.count('without_path')
    else:
        names = [os.path.relpath(os.path.abspath(f), root) for f, _ in record]
        check(sorted(new) == sorted(names), 'files in the directory are not those of the iterations', files=sorted(new), expected=names, **info)
        if record:
            check(len({os.path.dirname(x) for x in names}) == 1, 'files are not in one directory', **info)
            where = os.path.dirname(os.path.abspath(record[0][0]))
            if storage == 'time':
                check(os.path.dirname(where) == os.path.abspath(path), 'files are not in a subdirectory of the storage path', got=where, **info)
            else:
                check(where == os.path.abspath(path), 'files are not in the storage path', got=where, **info)
        check(names == sorted(names), 'names are not in chronological order', names=names, **info)
        if storage == 'existing' and names:
            check(os.path.join('lib', '2001_01_01_00_00_00_000000.hdf5') < names[0], 'names do not sort behind earlier files', names=names, **info)
        ks = set(gen.pick(rng, list(range(len(record))), 6)) | ({len(record) - 1} if record else set())
        for k in sorted(ks):
            f, state = record[k]
            fresh = SimExperiment(exp.true_voltages)
            a = load_auto_tuner(f, reserved={'experiment': fresh})
            d = snap.diff(state, snap.autotuner(a), 1e-10)
            check(d is None, 'content of the file is not the state after its iteration', iteration=k + 1, of=len(record), difference=d, **info)
            check(a.last_save_file == f, 'stored state does not know its file', got=a.last_save_file, **info)
            ctx.count('loaded')
        ctx.count('files', len(record))
    ctx.count('behind', behind > 0)
    ctx.count('failing_iterations', failed > 0)
    ctx.count('odd_clock', clock.kind != 'real')
    ctx.count('clock_set_back', clock.set_back > 0)
    ctx.distinct(tuple(info['tuners']), storage, clock.kind, trail)
    ctx.sample(files=len(record), behind=behind, **info)
