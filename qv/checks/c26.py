"""C26: reloading recorded voltages and states from the tuning window."""
import logging
import os
import time

import numpy as np
import pandas as pd

from qv.core import check
from qv import gen, snap
from qv.stubs import same
from qv.checks import c23

PROPERTY = 'C26'
N = dict(quick=150, thorough=6000)
CASE_TIMEOUT = 180.
RULE = ('random tuning problems with a storage path, iterated 1-60 times, history recorded live or loaded from the directory; rows chosen (typed, out of '
        'range, not a number, untouched) in the reload window of a real GUI, voltages or entire state reloaded, tuning continued; non-trivial: distinct '
        '(rows, chosen row, kind of reload, actions afterwards)')
REQUIRED = dict(rows=2., voltage_reloads=.4, state_reloads=.4, continued=.5, other_window=.1, steps=.05, out_of_range=.1)
ASSUMPTIONS = ['offscreen Qt platform, IPython magics replaced by stand-ins']
worker_init = c23.worker_init


def last_rows(history):
    gates = sorted(history.gate_names)
    return history.get_gate_values(gates)


def case(rng, ctx, index):
    from PyQt5 import QtCore, QtWidgets
    from qtune.history import History
    gui_module = c23.gui_module
    spec = gen.random_spec(rng, max_tuners=3, curvature=float(gen.choice(rng, [0., .03])))
    path = os.path.join(ctx.tmpdir(), 'lib')
    pr = gen.build(spec, path=path, with_time=False)
    auto = pr.autotuner
    history = History(None)
    history.append_autotuner(auto)
    states = []             # (number of the history row, file)
    n = int(rng.integers(1, 60))
    for _ in range(n):
        if auto.is_tuning_complete() or pr.exp.true_voltages.abs().max() > 1e3:
            break
        auto.iterate()
        history.append_autotuner(auto)
        states.append((history.number_of_stored_iterations - 1, auto.last_save_file))
        if rng.random() < .1:
            time.sleep(.002)
    auto.asynchrone_writer.join()
    auto.asynchrone_writer.restart()
    live = rng.random() < .7
    if not live:
        history = History(path, experiment=pr.exp)
    rows = history.number_of_stored_iterations
    ctx.count('rows', rows)
    info = dict(setup=gen.summary(spec), rows=rows, live=live)
    gui = gui_module.GUI(auto, history)
    try:
        def windows():
            return [w for w in QtWidgets.QApplication.topLevelWidgets()
                    if isinstance(w, gui_module.ReloadWidget) and w.history is history]

        def opened():
            before = windows()
            gui.spawn_reload_window()
            QtCore.QCoreApplication.processEvents()
            return [w for w in windows() if w not in before][0]
        reload_windows = [opened() for _ in range(int(rng.integers(1, 4)))]
        actions = []
        current = auto
        for _ in range(int(rng.integers(1, 5))):
            if len(reload_windows) > 1 and rng.random() < .15:
                reload_windows.pop(int(rng.integers(0, len(reload_windows)))).close()
                QtCore.QCoreApplication.processEvents()
            if rng.random() < .15:
                reload_windows.append(opened())
            w = int(rng.integers(0, len(reload_windows)))
            window = reload_windows[w]
            buttons = {b.text(): b for b in window.findChildren(QtWidgets.QPushButton)}
            line = window.findChildren(QtWidgets.QLineEdit)[-1]
            typed = gen.choice(rng, ['row', 'row', 'row', 'keep', 'high', 'negative', 'text'])
            if typed == 'keep':
                k = int(line.text())
            else:
                k, text = {'row': lambda r: (r, str(r)), 'high': lambda r: (rows - 1, str(rows + int(rng.integers(0, 5)))),
                           'negative': lambda r: (0, '-%d' % int(rng.integers(1, 4))), 'text': lambda r: (0, '')}[typed](int(rng.integers(0, rows)))
                line.setText(text)
                line.editingFinished.emit()
                ctx.count('out_of_range', typed in ('high', 'negative'))
            check(line.text() == str(k), 'number shown', shown=line.text(), expected=k, typed=typed, **info)
            kind = gen.choice(rng, ['voltages', 'state', 'state'])
            files = [f for r, f in states if r == k]
            if kind == 'state' and not files:
                kind = 'voltages'       # initial row, nothing stored
            actions.append((w, typed, k, kind))
            ctx.count('other_window', len(actions) > 1 and actions[-2][0] != w)
            info['actions'] = actions
            n0 = len(pr.exp.trace)
            m0 = pr.lab.calls
            if kind == 'voltages':
                buttons['Reload Voltages'].click()
                want = last_rows(history).iloc[k]
                sets = [e for e in pr.exp.trace[n0:] if e[0] == 'set']
                check(len(sets) == 1 and same(sets[0][1].astype(float), want.astype(float), 0.), 'voltages set by reloading a row',
                      set=[s[1] for s in sets], expected=want, row=k, **info)
                ctx.count('voltage_reloads')
            else:
                buttons['Reload Entire State!'].click()
                old, current = current, gui.auto_tuner
                check(current is not old, 'reloading a state does not replace the autotuner of the window', row=k, **info)
                check(not [e for e in pr.exp.trace[n0:] if e[0] == 'set'], 'reloading a state sets voltages', **info)
                check(getattr(current, '_experiment', pr.exp) is pr.exp, 'the reloaded autotuner is not connected to the experiment', row=k, **info)
                reference = reload(files[-1], pr.exp)
                check(equal_state(current, reference), 'the reloaded state is not the last one recorded at the chosen row', row=k,
                      file=os.path.basename(files[-1]), **info)
                ctx.count('state_reloads')
            check(pr.lab.calls == m0, 'reloading measures', **info)
            check(current.current_tuner_index == 0 and not current.is_tuning_complete(), 'tuning does not restart at the bottom of the hierarchy',
                  index=current.current_tuner_index, **info)
            check(current.voltages_to_set is None, 'voltages of before are pending', **info)
            v = pr.exp.true_voltages
            for i, t in enumerate(current.tuning_hierarchy):
                for what, x in (('tuner', t.last_voltages), ('solver', t.solver.current_position)):
                    check(same(x.astype(float), v[x.index], 0.), '%s does not restart from the present voltages' % what, tuner=i, got=x,
                          voltages=v, **info)
            # the next iterations evaluate the lowest tuner at the present voltages
            v = pr.exp.true_voltages
            if rng.random() < .15:
                gui.step()
                t0 = time.monotonic()
                while pr.lab.calls == m0 and time.monotonic() - t0 < 20.:
                    time.sleep(.01)
                time.sleep(.2)
                check(pr.lab.calls > m0, 'a step after reloading does not evaluate', **info)
                ctx.count('steps')
                rows = history.number_of_stored_iterations
                states = [s for s in states if s[0] < rows - 1]      # another file belongs to the last row now
            else:
                current.iterate()
                check(pr.lab.calls > m0, 'the iteration after reloading does not evaluate', **info)
            check(same(pr.exp.true_voltages, v, 0.), 'voltages changed by the evaluation', **info)
            at = [e[1] for e in pr.lab.log[m0:]]
            check(all(same(x, v, 0.) for x in at), 'evaluated at other voltages', **info)
            first = spec['tuners'][0]
            seen = {p for e in pr.lab.log[m0:] for p in e[2]}
            own = {p for ev in first['evaluators'] for p in ev} if first['kind'] == 'subset' else {'current_signal', 'position_' + first['cheap_gate']} | {
                'position_' + g for g in first['gates']}
            check(seen and seen <= own, 'not the lowest tuner was evaluated first', measured=seen, **info)
            ctx.count('continued')
        ctx.distinct(rows, tuple(actions), live)
        ctx.sample(**info)
    finally:
        gui.close()
        for w in QtWidgets.QApplication.topLevelWidgets():
            w.deleteLater()
        QtCore.QCoreApplication.processEvents()
        auto.asynchrone_writer.join()
        if gui.auto_tuner is not auto:
            try:
                gui.auto_tuner.asynchrone_writer.join()
            except Exception:
                pass


def reload(file, experiment):
    from qtune.autotuner import load_auto_tuner
    a = load_auto_tuner(file, reserved={'experiment': experiment})
    a.restart()
    return a


def equal_state(a, b):
    return not snap.diff(snap.autotuner(a), snap.autotuner(b))
