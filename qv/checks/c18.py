"""C18: evaluators on data generated from their own models; the oracle knows the parameters the data were made of."""
import numpy as np
import pandas as pd

from qtune.evaluator import (InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan, LeadTunnelTimePrefitVersion,
                             NewLoadTime, SensingDot1D, SensingDot2D)
from qtune.experiment import Measurement

from qv.core import check
from qv import gen
from qv.sim import SimExperiment

PROPERTY = 'C18'
N = dict(quick=2400, thorough=60000)
RULE = ('random physical parameters, offsets, slopes, heights of either sign, noise of at most 1e-4 of the height, one or several lines, scan '
        'settings (points, range, center, gates) for every evaluator; plus data which can not be fitted; non-trivial: distinct (evaluator, '
        'scan setting, sign, number of lines)')
REQUIRED = dict(tunnel_coupling=.1, load_time=.1, lead_times=.05, lead_times_batch=.003, lead_transition=.1, sensing_1d=.1, sensing_2d=.03,
                unfittable=.05, failed_fits=.01)
ASSUMPTIONS = ['data are finite; noise is below 1e-4 of the height of the signal; widths are resolved by the scan (tunnel coupling 100-450e-6 of a '
               '4e-3 scan, Coulomb peaks at least a quarter of the scan range); LeadTunnelTimeByLeadScan, whose fit is not convex, is judged by the median over '
               'batches of scans with start values within 40 %']


class Bench(SimExperiment):
    def __init__(self, volts, data):
        super().__init__(volts, None)
        self.response = lambda v, m: data(v, m)


def tanh_model(x, offset, slope, height, position, width):
    return offset + slope * x + height / 2 * (1 + np.tanh((x - position) / width))


def axis(o):
    return np.linspace(o['center'] - o['range'], o['center'] + o['range'], o['N_points'])


def lead_times(x, height, t_fall, t_rise, begin_rise, begin_fall, offset):
    """charging and discharging between pulses of 2 us (400 samples of 10 ns)"""
    T = 2e-6
    y = np.empty(len(x))
    for i, t in enumerate(x):
        if begin_rise <= t < begin_fall:
            y[i] = offset + .5 * height * (np.cosh(.5 * T / t_rise) - np.exp(.5 * (T - 2. * (t - begin_rise)) / t_rise)) / np.sinh(.5 * T / t_rise)
        else:
            s = t if t >= begin_rise else t + x[-1]
            y[i] = offset - .5 * height * (np.cosh(.5 * T / t_fall) - np.exp(.5 * (3 * T - 2. * (s - (begin_fall - T))) / t_fall)) / np.sinh(.5 * T / t_fall)
    return y


def form(values, variances, names, info):
    check(list(values.index) == list(names) or sorted(values.index) == sorted(names), 'names of the values', got=list(values.index),
          expected=list(names), **info)
    check(sorted(variances.index) == sorted(names), 'names of the variances', got=list(variances.index), expected=list(names), **info)
    for p in names:
        check(np.isfinite(values[p]), 'value not finite', parameter=p, values=values, **info)
        check(np.isfinite(variances[p]) and variances[p] >= 0, 'variance not finite and positive', parameter=p, variances=variances, **info)


def close(got, want, tol, what, info):
    check(abs(got - want) <= tol, 'evaluated %s is not the one the data were made of' % what, got=float(got), expected=float(want),
          tolerance=float(tol), **info)


def sign(rng):
    return gen.choice(rng, [-1., 1.])


def tunnel(rng, ctx):
    o = dict(center=float(gen.choice(rng, [0., 0., rng.normal() * 1e-3])), range=2e-3, N_points=int(gen.choice(rng, [100, 100, 60, 161, 200, 641])))
    h = float(rng.uniform(.3, 2.) * sign(rng))
    p = dict(offset=float(rng.normal()), slope=float(rng.normal() * 50), height=h, position=float(o['center'] + rng.uniform(-.3, .3) * o['range']),
             width=float(rng.uniform(100e-6, 450e-6)))
    lines = int(gen.choice(rng, [1, 1, 2, 5, 8, 16]))
    noise = float(gen.choice(rng, [0., 1e-5, 1e-4])) * abs(h)
    y = tanh_model(axis(o), **p)
    y = (y if lines == 1 else np.stack([y] * lines) + (rng.normal(size=lines)[:, None] * .1 * (rng.random() < .5))) 
    y = y + noise * rng.normal(size=y.shape)
    if lines == 1 and rng.random() < .3:
        y = y[None]
    kept = y.copy()
    exp = Bench({'A': 0.}, lambda v, m: y)
    m = Measurement('detune_scan', ramptime=.02, N_average=5, AWGorDecaDAC='AWG', **o)
    default = o['center'] == 0. and o['N_points'] == 100
    e = InterDotTCByLineScan(exp) if default else InterDotTCByLineScan(exp, measurements=(m,))
    info = dict(evaluator='InterDotTC', truth=p, scan=o, lines=lines, noise=noise)
    for rep in range(int(rng.integers(1, 3))):
        values, var = e.evaluate()
        form(values, var, ['parameter_tunnel_coupling'], info)
        close(values['parameter_tunnel_coupling'], p['width'], .03 * p['width'], 'tunnel coupling', info)
        for k, t in dict(height=.05 * abs(h), position=.05 * p['width'] + 1e-6).items():
            close(e.fit_results[k], p[k], t, k, info)
        x_raw, y_raw = e.raw_data
        check(np.allclose(x_raw, axis(o)) and np.array_equal(y_raw, np.squeeze(kept)), 'raw data are not the measured ones', **info)
    check(np.array_equal(y, kept), 'data were modified', **info)
    ctx.count('tunnel_coupling')
    return ('tunnel', o['N_points'], lines, h > 0)


def load(rng, ctx):
    x = np.arange(0., 500., 5.) if rng.random() < .5 else np.linspace(0., float(rng.uniform(300, 1000)), int(rng.integers(80, 200)))
    h = float(rng.uniform(.3, 2.) * sign(rng))
    tau = float(np.exp(rng.uniform(np.log(4.), np.log(270.))))
    off = float(rng.normal())
    noise = float(gen.choice(rng, [0., 1e-5, 1e-4])) * abs(h)
    y = off + h * np.exp(-x / tau) + noise * rng.normal(size=len(x))
    data = np.stack([y, x])
    kept = data.copy()
    e = NewLoadTime(Bench({'A': 0.}, lambda v, m: data))
    info = dict(evaluator='NewLoadTime', offset=off, height=h, time=tau, noise=noise)
    values, var = e.evaluate()
    form(values, var, ['parameter_time_load'], info)
    close(values['parameter_time_load'], tau, .015 * tau, 'load time', info)
    close(e.fit_results['offset'], off, .02 * abs(h), 'offset', info)
    close(e.fit_results['height'], h, .02 * abs(h), 'height', info)
    check(np.array_equal(e.raw_data[0], x) and np.array_equal(e.raw_data[1], y), 'raw data are not the measured ones', **info)
    check(np.array_equal(data, kept), 'data were modified', **info)
    ctx.count('load_time')
    return ('load', len(x) == 100, h > 0)


def lead_prefit(rng, ctx):
    x = np.arange(400) / 1e8
    logu = lambda a, b: float(np.exp(rng.uniform(np.log(a), np.log(b))))
    h = float(rng.uniform(.5, 2.) * sign(rng))
    p = dict(height=h, t_fall=logu(20e-9, 300e-9), t_rise=logu(20e-9, 300e-9), begin_rise=float(rng.uniform(40e-9, 120e-9)),
             begin_fall=float(rng.uniform(2030e-9, 2120e-9)), offset=float(rng.normal()))
    noise = float(gen.choice(rng, [0., 1e-5, 1e-4])) * abs(h)
    ref = rng.normal() + .1 * rng.normal(size=400)
    data = np.stack([ref, ref + lead_times(x, **p) + noise * rng.normal(size=400)])
    kept = data.copy()
    e = LeadTunnelTimePrefitVersion(Bench({'A': 0.}, lambda v, m: data))
    info = dict(evaluator='LeadTunnelTimePrefit', truth=p, noise=noise)
    values, var = e.evaluate()
    form(values, var, ['parameter_time_rise', 'parameter_time_fall'], info)
    close(values['parameter_time_rise'], p['t_rise'], .05 * p['t_rise'], 'rise time', info)
    close(values['parameter_time_fall'], p['t_fall'], .05 * p['t_fall'], 'fall time', info)
    check(np.array_equal(data, kept), 'data were modified', **info)
    ctx.count('lead_times')
    return ('prefit', h > 0)


def lead_batch(rng, ctx):
    """the parameter wise median error over a batch"""
    import matplotlib.pyplot as plt
    x = np.arange(400) / 1e8
    errs = {'parameter_time_rise': [], 'parameter_time_fall': []}
    for i in range(13):
        logu = lambda a, b: float(np.exp(rng.uniform(np.log(a), np.log(b))))
        h = float(rng.uniform(.5, 2.) * sign(rng))
        tr, tf = logu(30e-9, 200e-9), logu(30e-9, 200e-9)
        br, bf, off, L = 1e-8 * int(rng.integers(4, 12)), 1e-8 * int(rng.integers(204, 212)), float(rng.normal()), 20e-9
        T = 2e-6
        y = np.empty(400)
        rise = lambda t: off + .5 * h * (np.cosh(.5 * T / tr) - np.exp(.5 * (bf - 2. * t) / tr)) / np.sinh(.5 * T / tr)
        fall = lambda t: off - .5 * h * (np.cosh(.5 * T / tf) - np.exp(.5 * (T + 2 * bf - 2. * t) / tf)) / np.sinh(.5 * T / tf)
        wrap = lambda t: off - .5 * h * (np.cosh(.5 * T / tf) - np.exp(.5 * (bf - 2. * (t + x[-1])) / tf)) / np.sinh(.5 * T / tf)
        a, b = rise(br + L), wrap(br)
        c, d = fall(bf + L), rise(bf)
        for k, t in enumerate(x):
            y[k] = (wrap(t) if t <= br + 1e-12 else b + (a - b) * (t - br) / L if t < br + L - 1e-12 else rise(t) if t <= bf + 1e-12 else
                    d + (c - d) * (t - bf) / L if t < bf + L - 1e-12 else fall(t))
        data = np.stack([np.zeros(400), y + 1e-4 * abs(h) * rng.normal(size=400)])
        e = LeadTunnelTimeByLeadScan(Bench({'A': 0.}, lambda v, m: data), evaluation_arguments=dict(
            t_fall=tf * float(rng.uniform(.7, 1.4)), t_rise=tr * float(rng.uniform(.7, 1.4)), begin_rise=br, begin_fall=bf))
        values, var = e.evaluate()
        plt.close('all')
        form(values, var, list(errs), dict(evaluator='LeadTunnelTimeByLeadScan'))
        errs['parameter_time_rise'].append(abs(values['parameter_time_rise'] / tr - 1))
        errs['parameter_time_fall'].append(abs(values['parameter_time_fall'] / tf - 1))
    for p, x in errs.items():
        check(np.median(x) < .15, 'lead tunnel times are not the ones the data were made of', parameter=p, relative_errors=x)
    ctx.count('lead_times_batch')
    return ('leadscan',)


def transition(rng, ctx):
    width = .2e-3
    n = int(gen.choice(rng, [1, 2, 2]))
    sweep = gen.pick(rng, ['RFA', 'RFB', 'C'], n)
    shift = gen.pick(rng, ['RFB', 'RFA', 'D'], n)
    default = rng.random() < .3
    if default:
        sweep, shift, n = ['RFA', 'RFB'], ['RFB', 'RFA'], 2
    volts = {g: float(rng.normal() * 1e-2) for g in ['RFA', 'RFB', 'C', 'D', 'E']}
    opts, pos, ys, lines = [], [], [], []
    for i in range(n):
        o = dict(center=0. if default else float(rng.normal() * 1e-3), range=4e-3 if default else float(gen.choice(rng, [2e-3, 4e-3, 5e-3])),
                 N_points=320 if default else int(gen.choice(rng, [160, 320, 500, 801])))
        x = axis(o)
        k = width / o['range'] * o['N_points'] * (x[1] - x[0])     # searched window
        p = float(rng.uniform(x[0] + k + 1e-4, x[-1] - k - 1e-4))
        h = float(rng.uniform(.3, 2) * sign(rng))
        line = float(rng.normal()) + h * 20. * float(rng.uniform(-1, 1)) * (x - o['center']) + .5 * h * (1 + np.tanh((x - p) / float(rng.uniform(2e-6, 4e-5))))
        L = int(gen.choice(rng, [1, 1, 3, 7, 12]))
        tilt = rng.normal(size=L)
        y = line + 1e-4 * abs(h) * rng.normal(size=(L, len(x)))
        if L > 1 and rng.random() < .4:     # drifts which the lines average out
            y = y + (tilt - tilt.mean())[:, None] * np.where(x < rng.choice(x), 0., 1.) * h
        y = y[0] if L == 1 and rng.random() < .5 else y
        opts.append(o), pos.append(p), ys.append(y), lines.append(L)
    calls = []

    def measure(v, m):
        calls.append(m)
        return ys[(len(calls) - 1) % n]
    exp = Bench(volts, measure)
    if default:
        e = LeadTransition(exp)
    else:
        ms = [Measurement('line_scan', gate=g, ramptime=.001, N_average=7, AWGorDecaDAC='DecaDAC', **o) for g, o in zip(sweep, opts)]
        e = LeadTransition(exp, shifting_gates=tuple(shift), sweeping_gates=tuple(sweep), measurements=ms,
                           parameters=tuple('position_' + g for g in shift), charge_diagram_width=float(rng.uniform(1e-3, 6e-3)))
    info = dict(evaluator='LeadTransition', positions=pos, scans=opts, shifted=shift, lines=lines)
    for rep in range(int(rng.integers(1, 3))):
        values, var = e.evaluate()
        form(values, var, ['position_' + g for g in shift], info)
        for g, p, o in zip(shift, pos, opts):
            dx = 2 * o['range'] / (o['N_points'] - 1)
            close(values['position_' + g], p, width + 2 * dx, 'transition', dict(gate=g, **info))
        raw = e.raw_data
        for i, o in enumerate(opts):
            check(np.allclose(raw[0][i], axis(o)) and np.allclose(raw[1][i], np.atleast_2d(ys[i]).mean(0)), 'raw data are not the measured ones', **info)
    ctx.count('lead_transition')
    return ('transition', default, n, tuple(lines))


def sd1(rng, ctx):
    g = gen.choice(rng, ['SDB1', 'SDB2'])
    volts = {h: float(rng.normal() * .1) for h in ['SDB1', 'SDB2', 'N']}
    c, R, n = volts[g], 4e-3, int(gen.choice(rng, [1280, 320, 160, 2001]))
    w = float(rng.uniform(1.6e-3, 3e-3))
    rise = [True, False, None][int(rng.integers(3))]
    s = 1. if rise is False else -1.
    x0 = c + float(rng.uniform(-1e-3, 1e-3))
    if abs(x0 + s * w - c) > R * 7 / 8 - 3e-4:
        x0 = c
    A, off = float(rng.uniform(.5, 2)), float(rng.normal() * .2)
    noise = float(gen.choice(rng, [0., 1e-5, 1e-4])) * A
    f = lambda x: off + A * np.exp(-.5 * ((x - x0) / w) ** 2)      # the peak at its present position
    seen = []

    def measure(v, m):
        o = m.options
        seen.append(dict(o))
        y = f(axis(o)) + noise * rng.normal(size=o['N_points'])
        return y if rng.random() < .5 else y[None]
    exp = Bench(volts, measure)
    default = g == 'SDB2' and n == 1280
    kw = dict() if default else dict(sweeping_gate=g, parameters=('position_' + g, 'current_signal', 'optimal_signal'), measurements=(Measurement(
        'line_scan', center=None, range=R, gate=g, N_points=n, ramptime=.0005, N_average=1, AWGorDecaDAC='DecaDAC'),))
    e = SensingDot1D(exp, rising_flank=rise, **kw)
    dx = 2 * R / (n - 1)
    slope = lambda x: -A * (x - x0) / w ** 2 * np.exp(-.5 * ((x - x0) / w) ** 2) * dx
    top = abs(slope(x0 + s * w))
    info = dict(evaluator='SensingDot1D', peak=x0 - c, width=w, points=n, rising=rise, noise=noise)
    for rep in range(int(rng.integers(1, 4))):
        if rep:
            # the gate and the peak have moved since the last evaluation
            move = float(rng.uniform(-3e-3, 3e-3))
            if rng.random() < .5:
                c += move
                if abs(x0 + s * w - c) > R * 7 / 8 - 3e-4 or abs(x0 - c) > 1.2e-3:
                    x0 += move
            else:
                c, x0 = c + 10 * move, x0 + 10 * move
            exp.force(pd.Series({g: c}))
            info['moved'] = rep
        del seen[:]
        values, var = e.evaluate()
        form(values, var, ['position_' + g, 'current_signal', 'optimal_signal'], info)
        check(len(seen) == 1 and seen[0]['gate'] == g and seen[0]['center'] == c, 'not scanned around the present voltage of the gate', scan=seen, **info)
        close(values['position_' + g], x0 + s * w, .45e-3, 'position of the steepest slope', info)
        check(.75 * top <= abs(values['optimal_signal']) <= 1.35 * top and np.sign(values['optimal_signal']) == -s, 'optimal signal',
              got=values, expected=-s * top, **info)
        close(values['current_signal'], slope(c), .3 * top, 'current signal', info)
    ctx.count('sensing_1d')
    return ('sd1', g, n, rise)


def sd2(rng, ctx):
    g1, g2 = gen.pick(rng, ['SDB1', 'SDB2'], 2)
    volts = {h: float(rng.normal() * .1) for h in ['SDB1', 'SDB2', 'N']}
    c1, c2, R = volts[g1], volts[g2], 5e-3
    default = rng.random() < .4
    if default:
        g1, g2 = 'SDB1', 'SDB2'
        c1, c2, R = volts[g1], volts[g2], 10e-3
    w, w1 = float(rng.uniform(.24, .4)) * R, float(rng.uniform(.4, .8)) * R
    x0, y0, A = c2 + float(rng.uniform(-.4, .4)) * R, c1 + float(rng.uniform(-.6, .6)) * R, float(rng.uniform(.5, 2))
    rise = [True, False, None][int(rng.integers(3))]
    s = 1. if rise is False else -1.
    seen = []

    def measure(v, m):
        o = m.options
        seen.append(dict(o))
        x1 = np.linspace(o['center'][0] - o['range'], o['center'][0] + o['range'], o['n_lines'])
        x2 = np.linspace(o['center'][1] - o['range'], o['center'][1] + o['range'], o['n_points'])
        return A * np.exp(-.5 * ((x2[None] - x0) / w) ** 2 - .5 * ((x1[:, None] - y0) / w1) ** 2) + 1e-5 * rng.normal(size=(len(x1), len(x2)))
    exp = Bench(volts, measure)
    kw = {}
    if not default and rng.random() < .4:
        kw['measurements'] = (Measurement('2d_scan', center=[None, None], range=R, gate1=g1, gate2=g2, ramptime=.0005, n_lines=int(
            gen.choice(rng, [11, 20, 104])), n_points=104, N_average=1, AWGorDecaDAC='DecaDAC'),)
    e = SensingDot2D(exp, rising_flank=rise) if default else SensingDot2D(
        exp, sweeping_gates=(g1, g2), scan_range=R, rising_flank=rise, parameters=('position_' + g1, 'position_' + g2), **kw)
    info = dict(evaluator='SensingDot2D', gates=(g1, g2), peak=(y0 - c1, x0 - c2), widths=(w1, w), rising=rise, range=R)
    for rep in range(int(rng.integers(1, 3))):
        if rep:
            d1, d2 = float(rng.normal() * .05), float(rng.normal() * .05)
            c1, c2, x0, y0 = c1 + d1, c2 + d2, x0 + d2, y0 + d1
            exp.force(pd.Series({g1: c1, g2: c2}))
            info['moved'] = rep
        del seen[:]
        values, var = e.evaluate()
        sd2_result(values, var, seen, g1, g2, c1, c2, x0, y0, s, w, R, info)
        raw = e.raw_data[0]
        for a, c, k in ((raw[0], c1, 'n_lines'), (raw[1], c2, 'n_points')):
            check(np.allclose(a, np.linspace(c - R, c + R, seen[0][k]), rtol=0, atol=1e-9), 'raw data are not the measured ones', axis=a, **info)
    ctx.count('sensing_2d')
    return ('sd2', g1, default, rise)


def sd2_result(values, var, seen, g1, g2, c1, c2, x0, y0, s, w, R, info):
    form(values, var, ['position_' + g1, 'position_' + g2], info)
    check(len(seen) == 1 and list(seen[0]['center']) == [c1, c2] and (seen[0]['gate1'], seen[0]['gate2']) == (g1, g2),
          'not scanned around the present voltages', scan=seen, **info)
    close(values['position_' + g1], y0, 2 * R / (seen[0]['n_lines'] - 1) * .75, 'position of the steepest line', info)
    close(values['position_' + g2], x0 + s * w, .15 * R, 'position of the steepest slope', info)


def unfittable(rng, ctx):
    n = 100
    which = gen.choice(rng, ['tunnel', 'load'])
    kind = gen.choice(rng, ['noise', 'alternating', 'constant', 'huge', 'dimension', 'spikes'])
    y = dict(noise=rng.normal(size=n), alternating=np.where(np.arange(n) % 2, 1., -1.) * float(rng.uniform(.1, 10)), constant=np.full(n, float(rng.normal())),
             huge=rng.normal(size=n) * 1e12, spikes=(rng.random(n) < .05) * rng.normal(size=n) * 1e6, dimension=rng.normal(size=n))[kind]
    if which == 'tunnel':
        if kind == 'dimension':
            y = rng.normal(size=(2, 3, n))
        elif rng.random() < .3:
            y = np.stack([y, rng.permutation(y)])
        e, p = InterDotTCByLineScan(Bench({'A': 0.}, lambda v, m: y)), 'parameter_tunnel_coupling'
    else:
        x = np.arange(0., 500., 5.)
        e, p = NewLoadTime(Bench({'A': 0.}, lambda v, m: np.stack([y, x])), measurements=(Measurement('load_scan'),)), 'parameter_time_load'
    values, var = e.evaluate()
    check(list(values.index) == [p] and list(var.index) == [p], 'names of unfittable data', values=values, evaluator=which, kind=kind)
    if values[p] != values[p]:
        ctx.count('failed_fits')
    if which == 'tunnel' and kind == 'dimension':
        check(values[p] != values[p], 'data of invalid dimension were fitted', values=values)
    ctx.count('unfittable')
    return ('unfittable', which, kind, bool(values[p] != values[p]))


KINDS = [tunnel] * 3 + [load] * 3 + [lead_prefit] * 2 + [transition] * 4 + [sd1] * 3 + [sd2] * 2 + [unfittable] * 3


def case(rng, ctx, index):
    f = lead_batch if index % 60 == 7 else KINDS[int(rng.integers(len(KINDS)))]
    key = f(rng, ctx)
    ctx.distinct(*key)
    ctx.sample(evaluator=key)
