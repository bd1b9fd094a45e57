"""C23: schedules of the tuning window's buttons against a log of what its worker did."""
import logging
import os
import threading
import time

import numpy as np
import pandas as pd

from qv.core import check, Violation
from qv import gen
from qv.sim import InjectedFault

PROPERTY = 'C23'
N = dict(quick=170, thorough=5000)
CASE_TIMEOUT = 180.
JOBS = 20
RULE = ('random schedules of step, start, pause, repeated orders, failing iterations, failing history, restart of the worker and closing (method, '
        'close event, idle, running, mid iteration) of a real window (offscreen) with iterations of random duration; the log of begun and finished '
        'iterations and history entries is checked after every order; non-trivial: distinct (schedule, iterations per order)')
REQUIRED = dict(iterations=10., steps=.8, runs=.8, pauses=.3, failures=.2, closed=1., completed=.1, history_rows=3., reopened=.05)
ASSUMPTIONS = ['offscreen Qt platform, IPython magics replaced by stand-ins',
               'an order counts as given to an idle worker 0.25 s after its last activity']

SETTLE = .25
gui_module = None


def worker_init(ctx):
    """one QApplication per process"""
    global gui_module, app
    os.environ['QT_QPA_PLATFORM'] = 'offscreen'
    import IPython

    class Shell:
        def magic(self, *a):
            pass

        def run_line_magic(self, *a):
            pass
    IPython.get_ipython = lambda: Shell()
    from PyQt5 import QtWidgets
    app = QtWidgets.QApplication([])
    import qtune.gui
    gui_module = qtune.gui
    logging.getLogger('qtune').setLevel(logging.CRITICAL + 1)
    logging.getLogger('plotting').setLevel(logging.CRITICAL + 1)


class Log:
    """thread safe log of ('begin'|'end'|'fail'|'append', thread, time)"""

    def __init__(self):
        self.events = []
        self.lock = threading.Lock()

    def add(self, kind):
        with self.lock:
            self.events.append((kind, threading.get_ident(), time.monotonic()))

    def count(self, kind, since=0):
        with self.lock:
            return sum(e[0] == kind for e in self.events[since:])

    def __len__(self):
        with self.lock:
            return len(self.events)

    def tail(self, since):
        with self.lock:
            return ''.join({'begin': '(', 'end': ')', 'fail': '!', 'append': 'h', 'appendfail': '?'}[e[0]] for e in self.events[since:])


class Bench:
    def __init__(self, rng, ctx):
        from PyQt5 import QtCore, QtGui
        self.QtCore, self.QtGui = QtCore, QtGui
        from qtune.history import History
        self.rng, self.ctx = rng, ctx
        spec = gen.random_spec(rng, max_tuners=2, slicing=False, curvature=0., coupling=.05, estimators=['kalman', 'kalman_approx'],
                               sensing=False)
        self.pr = gen.build(spec)
        self.auto = self.pr.autotuner
        self.log = Log()
        self.fail = set()           # numbers of iterations which fail
        self.fail_append = set()    # numbers of history entries which fail
        self.n_iter = 0
        self.n_append = 0
        self.delay = float(gen.choice(rng, [0., .005, .03, .12]))
        self.in_progress = threading.Event()
        iterate = self.auto.iterate

        def monitored():
            self.log.add('begin')
            self.in_progress.set()
            i = self.n_iter
            self.n_iter += 1
            try:
                if self.delay:
                    time.sleep(self.delay)
                if i in self.fail:
                    raise InjectedFault('iteration')
                iterate()
            except Exception:
                self.log.add('fail')
                raise
            else:
                self.log.add('end')
            finally:
                self.in_progress.clear()
        self.auto.iterate = monitored
        self.history = History(None)
        self.history.append_autotuner(self.auto)
        append = self.history.append_autotuner
        self.complete_at_append = []

        def monitored_append(a):
            k = self.n_append
            self.n_append += 1
            if k in self.fail_append:
                self.log.add('appendfail')
                raise InjectedFault('history')
            append(a)
            self.appended_wrong = getattr(self, 'appended_wrong', False) or a is not self.auto
            self.log.add('append')
        self.history.append_autotuner = monitored_append
        self.before = set(threading.enumerate())
        self.gui = gui_module.GUI(self.auto, self.history)
        if rng.random() < .5:
            self.gui.show()
        self.gui_thread = threading.get_ident()

    def workers(self):
        return [t for t in threading.enumerate() if t not in self.before]

    def events(self):
        if self.rng.random() < .5:
            self.QtCore.QCoreApplication.processEvents()

    def settle(self, limit=40.):
        """wait until the worker shows no activity"""
        t0 = time.monotonic()
        n, last = len(self.log), time.monotonic()
        while time.monotonic() - last < SETTLE or self.in_progress.is_set():
            time.sleep(.01)
            if len(self.log) != n:
                n, last = len(self.log), time.monotonic()
            if time.monotonic() - t0 > limit:
                return False
        return True

    def wait(self, cond, limit=30.):
        t0 = time.monotonic()
        while not cond():
            time.sleep(.002)
            if time.monotonic() - t0 > limit:
                return False
        return True


def grammar(log, info):
    """whole log: iterations never overlap, one history entry after each successful iteration and before the next one"""
    with log.lock:
        ev = list(log.events)
    state = 'idle'
    for k, (kind, thread, _) in enumerate(ev):
        if kind == 'begin':
            check(state == 'idle', 'an iteration began before the previous one was recorded' if state == 'ended' else 'iterations overlap', at=k,
                  log=log.tail(0)[-60:], **info)
            state = 'running'
        elif kind in ('end', 'fail'):
            check(state == 'running', 'log', at=k, **info)
            state = 'ended' if kind == 'end' else 'idle'
        else:
            check(state == 'ended', 'history entry without an executed iteration', at=k, log=log.tail(0)[-60:], **info)
            state = 'idle'
    check(state == 'idle', 'the last iteration was not appended to the history' if state == 'ended' else 'iteration still in progress',
          log=log.tail(0)[-60:], **info)


def case(rng, ctx, index):
    b = Bench(rng, ctx)
    try:
        run(b, rng, ctx)
    finally:
        # never leave a running worker behind
        b.auto.iterate = lambda: time.sleep(.01)
        closer = threading.Thread(target=b.gui.close, daemon=True)
        b.before.add(closer)
        closer.start()
        closer.join(10.)
        b.gui.deleteLater()
        b.QtCore.QCoreApplication.processEvents()


def run(b, rng, ctx):
    gui, log = b.gui, b.log
    ops = []
    info = dict(schedule=ops, delay=b.delay)
    check(b.settle(), 'the worker works without order', log=log.tail(0)[-60:], **info)
    check(log.count('begin') == 0, 'iterations executed without order', **info)
    alive = True
    per_order = []
    for _ in range(int(rng.integers(3, 9))):
        since = len(log)
        complete = bool(b.auto.is_tuning_complete())
        op = gen.choice(rng, ['step', 'step', 'run', 'run', 'run', 'fail_step', 'fail_run', 'fail_history', 'complete', 'restart', 'idle_pause'])
        if complete and op.startswith('fail'):
            op = 'step'
        ops.append(op)
        b.events()
        if op in ('step', 'fail_step'):
            if op == 'fail_step':
                b.fail = {b.n_iter}
            ctx.count('steps')
            gui.step()
            kind = 'fail' if op == 'fail_step' else 'append'
            if complete:
                time.sleep(.15)
                check(b.settle(), 'the worker does not become idle', **info)
                check(log.count('begin', since) == 0, 'a complete autotuner was iterated', log=log.tail(since), **info)
            else:
                ok = b.wait(lambda: log.count(kind, since) > 0, 20.)
                check(ok, 'a step ordered while idle was not executed', log=log.tail(since), **info)
                check(b.settle(), 'the worker does not become idle after a step', log=log.tail(since)[:60], **info)
                check(log.count('begin', since) == 1, 'a step executed several iterations', log=log.tail(since), **info)
            if op == 'fail_step':
                ctx.count('failures')
        elif op in ('run', 'complete'):
            ctx.count('runs')
            gui.start()
            if rng.random() < .2:
                gui.start()
            extra = ''
            if op == 'complete':
                ok = b.wait(lambda: b.auto.is_tuning_complete(), 40.)
                check(ok or log.count('begin', since) > 100, 'a started worker does not continue', log=log.tail(since)[:60], **info)
                if ok:
                    ctx.count('completed')
                    check(b.settle(), 'the worker does not become idle when the tuning is complete', log=log.tail(since)[-60:], **info)
                    check(log.count('fail', since) == 0, 'a complete autotuner was iterated', log=log.tail(since)[-60:], **info)
                    if rng.random() < .6:
                        # nothing orders the worker to go on with a new tuning task
                        at = len(log)
                        b.auto.restart()
                        check(b.settle(), 'the worker does not become idle', **info)
                        time.sleep(.1)
                        check(log.count('begin', at) == 0, 'the worker goes on without order after it completed the tuning',
                              log=log.tail(at)[-60:], **info)
                        ops[-1] += '+restart'
                        ctx.count('reopened')
                else:
                    gui.pause()
                    b.settle()
            else:
                k = int(rng.integers(0, 6))
                b.wait(lambda: log.count('end', since) >= k or b.auto.is_tuning_complete(), 40.)
                check(log.count('end', since) >= k or b.auto.is_tuning_complete(), 'a started worker does not continue', wanted=k,
                      log=log.tail(since)[:60], **info)
                if rng.random() < .5:
                    time.sleep(float(rng.uniform(0, .1)))
                if rng.random() < .15:
                    gui.step()
                    extra = '+step'
                    time.sleep(float(rng.uniform(0, .02)))
                if rng.random() < .3 and b.delay:
                    b.wait(b.in_progress.is_set, .3)
                b.events()
                gui.pause()
                done = log.count('end', since)
                ctx.count('pauses')
                if rng.random() < .2:
                    gui.pause()
                check(b.settle(), 'the worker does not become idle after pause', log=log.tail(since)[-60:], **info)
                after = log.count('end', since) - done
                check(after <= 1, 'more than the iteration in progress was finished after pause', finished=after, log=log.tail(since)[-60:], **info)
                ops[-1] += extra + str(done)
        elif op in ('fail_run', 'fail_history'):
            k = int(rng.integers(0, 4))
            at = len(log)
            if op == 'fail_run':
                b.fail = {b.n_iter + k}
                kind = 'fail'
            else:
                b.fail_append = {b.n_append + k}
                kind = 'appendfail'
            ctx.count('runs')
            gui.start()
            b.wait(lambda: log.count(kind, at) > 0 or b.auto.is_tuning_complete(), 40.)
            check(b.settle(), 'the worker does not become idle after a failing iteration', log=log.tail(at)[-60:], **info)
            if log.count(kind, at):
                ctx.count('failures')
                check(log.count(kind, at) == 1 and log.tail(at)[-1] in '!?', 'iterations after a failing one without order', log=log.tail(at)[-60:], **info)
            b.fail, b.fail_append = set(), set()
        elif op == 'restart':
            if rng.random() < .6:
                gui.start()
                time.sleep(float(rng.uniform(0, .1)))
                ops[-1] += ' running'
            gui.restart_thread()
            n = log.count('begin')
            check(len(b.workers()) == 1, 'restarting the worker', workers=len(b.workers()), **info)
            check(b.settle(), 'a restarted worker works without order', **info)
            check(log.count('begin') == n, 'a restarted worker works without order', log=log.tail(since)[-60:], **info)
            ctx.count('restarts')
        elif op == 'idle_pause':
            gui.pause()
            b.settle()
            check(log.count('begin', since) == 0, 'pause of an idle worker executed an iteration', **info)
        check(len(b.workers()) == 1, 'there is not exactly one worker', workers=len(b.workers()), **info)
        check(not getattr(b, 'appended_wrong', False), 'another autotuner was appended', **info)
        per_order.append(log.count('begin', since))
        grammar(log, info)
    # close
    mode = gen.choice(rng, ['idle', 'running', 'mid', 'stepping'])
    how = gen.choice(rng, ['close', 'close', 'event'])
    ops.append('close %s %s' % (mode, how))
    since = len(log)
    if mode != 'idle':
        (gui.step if mode == 'stepping' else gui.start)()
        if mode == 'mid':
            b.wait(b.in_progress.is_set, .5)
        else:
            time.sleep(float(rng.uniform(0, .1)))
    if how == 'close':
        gui.close()
    else:
        b.QtCore.QCoreApplication.sendEvent(gui, b.QtGui.QCloseEvent())
    ok = b.wait(lambda: not b.workers(), 15.)
    check(ok, 'closing the window does not stop the worker', log=log.tail(since)[-60:], **info)
    n = len(log)
    time.sleep(.1)
    check(len(log) == n, 'activity after closing', log=log.tail(since)[-60:], **info)
    grammar(log, info)
    ctx.count('closed')
    if rng.random() < .2 and not b.auto.is_tuning_complete():
        # ordering a step wakes a dead worker up
        ops.append('step after close')
        since = len(log)
        gui.step()
        ok = b.wait(lambda: log.count('append', since) > 0, 20.)
        check(ok, 'a step ordered after the worker ended was not executed', **info)
        check(b.settle(), 'the worker does not become idle after a step', **info)
        check(log.count('begin', since) == 1, 'a step executed several iterations', log=log.tail(since), **info)
        gui.close()
        check(b.wait(lambda: not b.workers(), 15.), 'closing the window does not stop the worker', **info)
        ctx.count('revived')
    rows = b.history.number_of_stored_iterations
    ctx.count('history_rows', rows)
    ctx.count('iterations', log.count('begin'))
    ctx.distinct(tuple(ops), tuple(per_order))
    ctx.sample(schedule=list(ops), iterations=per_order, delay=b.delay)
