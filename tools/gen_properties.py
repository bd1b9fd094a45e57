"""writes /verif/properties.jsonl (kept in git; regenerate after editing)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))


AT, PT, SO, GR, KG, ST, EV, HI, UT, EX, GUI = ['qtune/%s.py' % x for x in (
    'autotuner parameter_tuner solver gradient kalman_gradient storage evaluator history util experiment gui'.split())]

prop('C01', 'Tuning hierarchy is worked through bottom-up after every voltage change',
     'Each iteration of the autotuner performs exactly one of: setting the pending voltages, evaluating one parameter '
     'tuner, or computing new voltages; after voltages were set the evaluation restarts at the bottom of the hierarchy, '
     'a tuner is only evaluated if all tuners below were evaluated as tuned at the present voltages, and new voltages are only '
     'requested from the tuner which was just evaluated as not tuned. The voltages handed to a tuner are those read back '
     'from the experiment, the voltages set are exactly those the tuner returned, and the tuned parameters handed to it are the '
     'parameters with complete targets of all lower tuners. The tuning is complete exactly when every tuner was evaluated as '
     'tuned consecutively without a voltage change, and iterating a complete autotuner raises an error without touching the experiment.',
     ['histories', 'configurations'],
     'for every hierarchy of tuners, every sequence of tuner verdicts and suggested voltages, and every experiment that sets '
     'voltages imperfectly',
     'No existing test drives the autotuner at all; verdict sequences are unbounded histories.',
     [AT], [('iterate state machine', AT + ':Autotuner.iterate'), ('tuned_parameters', AT + ':Autotuner.tuned_parameters')],
     ['calls on the tuners of the hierarchy', 'Experiment.read_gate_voltages / set_gate_voltages', 'is_tuning_complete()'],
     state=[('current_tuner_index', 'position in the hierarchy', AT), ('voltages_to_set', 'pending voltages', AT)])

prop('C02', 'NaN voltages and incoherent gate names never reach the experiment',
     'An iteration in which a NaN voltage is pending, or in which a gate used by any tuner, solver or gradient estimator is unknown '
     'to the experiment (or a gate of a gradient based tuner is unknown to its gradient estimator), raises an error and sets no voltage on '
     'the experiment and evaluates nothing. Coherently named setups are accepted whatever the order of gates and parameters.',
     ['configurations', 'fault_sequences'],
     'for every autotuner configuration, every place in which a wrong gate name occurs and every pattern of NaN in pending voltages',
     'No test builds an autotuner; the wrong name can sit in any of many places.',
     [AT], [('ready_to_tune', AT + ':Autotuner.ready_to_tune'), ('NaN guard', AT + ':Autotuner.iterate')],
     ['Experiment.set_gate_voltages calls', 'exceptions of iterate()'])

prop('C03', 'A subset tuner reports tuned exactly if all targets are met within tolerance',
     'A parameter tuner restricted to a subset of gates reports "tuned" exactly if every parameter with desired value and tolerance, '
     'divided by its rescaling factor, was measured closer to its desired value than its tolerance, independent of gate, parameter and evaluator order; '
     'parameters without desired value never prevent this. The last values and variances (rescaled by factor and squared factor) and the list of '
     'tuned voltages reflect exactly these evaluations.',
     ['inputs', 'configurations'],
     'for every target, tolerance, rescaling factor, evaluator order and measured value, including values at the edge of the tolerance',
     'One unit test with two parameters and no rescaling.',
     [PT, SO], [('is_tuned', PT + ':SubsetTuner.is_tuned'), ('rescale_values', SO + ':Solver.rescale_values')],
     ['SubsetTuner.is_tuned', 'last_parameters_and_variances', 'tuned_voltages'])

prop('C04', 'Failed evaluations are bisected back towards voltages that could be evaluated',
     'If the evaluation of a relevant parameter yields NaN, the tuner reports not tuned, the values do not reach the solver or the gradient '
     'estimation, and the next voltages are the midpoint between the voltages of the failed evaluation and the last voltages at which the '
     'evaluation succeeded (for a sensing dot tuner: at which it was tuned). Repeated failures bisect towards that point, tuning resumes normally with the first '
     'successful evaluation, and with no known good voltages an error is raised instead of voltages being suggested.',
     ['fault_sequences', 'histories'],
     'for every sequence of successful and failed evaluations at every point of a tuning run, any subset of the parameters failing',
     'The single recovery test fails at this commit for subset tuners and covers one failure.',
     [PT], [('failure branch', PT + ':SubsetTuner.is_tuned'), ('midpoint', PT + ':SubsetTuner.get_next_voltages'),
            ('midpoint', PT + ':SensingDotTuner.get_next_voltages')],
     ['suggested voltages', 'solver and gradient estimator state before and after'])

prop('C05', 'Voltage steps stay within the maximal step size and move only own gates',
     'The next voltages a subset tuner suggests differ from the voltages of its last call only in its own gates, and by at most its maximal step '
     'size in euclidean norm, in the direction of the position its solver suggested; a suggestion within that size is followed exactly. A longer '
     'step is cut into at most the maximal step number of slices between two evaluations, no parameter is measured between these slices, and the parameters are '
     'always evaluated again after finitely many slices.',
     ['inputs', 'histories'],
     'for every maximal step size and number, suggested position, start voltages and set of foreign gates, over whole tuning runs',
     'One unit test with a mocked solver and one suggestion.',
     [PT], [('slicing', PT + ':SubsetTuner.get_next_voltages'), ('queue', PT + ':SubsetTuner.is_tuned')],
     ['SubsetTuner.get_next_voltages', 'measurements of the evaluators'])

prop('C06', 'The sensing dot tuner chooses cheap or expensive evaluation by thresholds',
     'The sensing dot tuner always runs the cheap evaluation; it reports tuned exactly if no cheaply evaluated (rescaled) parameter is at or below its minimum, '
     'and only if not tuned and a parameter is at or below its cost threshold it runs the expensive evaluation once. The next voltages are the evaluated '
     'positions in original units on the gates they are mapped to - the expensive ones if they were measured, otherwise the cheap ones - with the remaining gates of '
     'the solver unchanged from the voltages read.',
     ['inputs', 'histories'],
     'for every combination of thresholds, measured signals, positions, rescaling factors and mappings, over sequences of calls',
     'One test with a mocked solver and two fixed calls.',
     [PT, SO], [('is_tuned', PT + ':SensingDotTuner.is_tuned'), ('forwarding', SO + ':ForwardingSolver.update_after_step')],
     ['calls of cheap and expensive evaluators', 'verdict', 'next voltages'])

prop('C07', 'Gauss-Newton steps solve the linearised tuning problem with minimal step',
     'Once the gradients are known well enough, the position suggested by the Newton solver is the current position plus the minimum norm least squares '
     'solution of jacobian * step = desired - current values, where parameters without desired value contribute zero difference, i.e. are left invariant. The rows of '
     'the jacobian, the values and the variances are matched with the gradient estimators by parameter name, and columns with positions by gate name, whatever order they arrive in.',
     ['inputs', 'configurations'],
     'for every jacobian (under-, exactly determined or singular), position, set of values, desired values with any NaN pattern, and every order of labels',
     'Tests use one fixed 2x3 jacobian without NaN targets.',
     [SO], [('suggest_next_position', SO + ':NewtonSolver.suggest_next_position'), ('update_after_step', SO + ':NewtonSolver.update_after_step')],
     ['NewtonSolver.suggest_next_position', 'estimator update calls'])

prop('C08', 'Gradient measurements: only when uncertain, leaving tuned parameters alone',
     'A Kalman based gradient estimator requests an additional measurement exactly if its covariance restricted to the relevant gates is larger than the allowed '
     'maximum in some direction; the requested position then lies in the most uncertain direction, scaled by epsilon, from the current position and moves no other gate. '
     'If parameters lower in the hierarchy are to be left invariant by the same solver and their gradients are known, a measurement is requested exactly if the covariance is too large in some direction which leaves them unchanged to first order, and the most uncertain of these directions is requested with a step as long as the epsilon of the gates. A maximum covariance per gate compares the uncertainties rescaled gate by gate. The desired values of parameters '
     'are only pursued after no estimator with a desired value requests a measurement.',
     ['inputs', 'configurations'],
     'for every covariance matrix, gate subset, epsilon, maximum covariance (scalar or per gate) and jacobian of tuned parameters',
     'One test with a diagonal covariance and no tuned jacobian.',
     [GR, SO], [('require_measurement', GR + ':KalmanGradientEstimator.require_measurement'), ('tuned_jacobian', SO + ':NewtonSolver.suggest_next_position')],
     ['KalmanGradientEstimator.require_measurement', 'NewtonSolver.suggest_next_position'])

prop('C09', 'Kalman gradient tracking agrees with the textbook filter',
     'After every sequence of updates with positive variances the estimated gradient and covariance equal those of a Kalman filter with random walk state (given transition, process noise and fading memory), whose measurement is '
     'the value difference with the given variance along the position difference from the last accepted position; the covariance stays symmetric positive semidefinite. Updates without position change leave '
     'the gradient untouched, and after the first value only updates flagged as new position move the reference point.',
     ['histories', 'inputs'],
     'for every sequence of positions, values, variances and flags, and every noise, transition and fading parameter',
     'No test compares even one update with a reference.',
     [KG, GR], [('KalmanGradient.update', KG), ('KalmanGradientEstimator.update', GR)],
     ['estimate()', 'covariance()', 'grad', 'cov'])

prop('C10', 'Finite differences recover the exact gradient of affine parameters',
     'For a parameter depending affinely on the gates, the finite difference estimators and gradient functions return the exact gradient after the minimal number of '
     'independent measurements (gates + 1, or 2 * gates if symmetric), never before, together with the covariance obtained by linear propagation of the measurement variances; each position they request differs '
     'from the current position by exactly epsilon times a unit vector independent of the previous ones (symmetric: in mirrored pairs). Linearly dependent positions raise an evaluation error instead of yielding a gradient.',
     ['inputs', 'histories'],
     'for every number of gates, epsilon, base position, affine function, variance and both difference schemes',
     'The estimator test fails at this commit; function tests use fixed 2 dimensional data.',
     [GR, UT], [('FiniteDifferencesGradientEstimator', GR), ('calculate_gradient_non_orthogonal', UT), ('gradient_min_evaluations', UT)],
     ['require_measurement()', 'estimate()', 'covariance()'])

prop('C11', 'Choice of parameter units does not change the tuning',
     'Expressing a parameter (other than the gate positions forwarded by a sensing dot tuner) in other units - measured values multiplied by a positive factor, variances by its square - with the rescaling factor of its target multiplied by the '
     'same factor leaves every voltage ever set, every verdict and the tuning result unchanged. Rescaling and descaling are inverse to each other and treat parameters without rescaling factor as factor one.',
     ['configurations', 'inputs'],
     'for every tuning problem and every choice of unit factors per parameter',
     'No test uses a rescaling factor.',
     [SO, PT], [('rescale_values / descale_values', SO)], ['voltages set on the experiment', 'verdicts'])

prop('C12', 'Restart and target changes take effect on the next evaluation',
     'After a restart every tuner, solver and finite difference estimator works from the voltages read from the experiment at that moment, no voltages of before the restart are set, and the next iteration evaluates the lowest tuner. After changing targets the next '
     'iteration evaluates the lowest tuner as well, verdicts and steps follow the new values for the changed entries and the old values for all others, and pending voltages of before the change are not set. Recorded tuned voltages of earlier evaluations keep their values, and the positions and changes the user handed over (one object may serve several solvers and estimators) are not modified.',
     ['histories', 'crash_points'],
     'for a restart or target change at every point of a tuning run, with any gates moved by hand and any subset of target entries changed',
     'No test restarts or changes targets.',
     [AT, SO, PT, GR], [('restart', AT + ':Autotuner.restart'), ('change_targets', AT + ':Autotuner.change_targets'), ('target setter', SO + ':Solver.target')],
     ['voltages set', 'evaluations', 'solver.current_position', 'target'])

prop('C13', 'Everything stored in an HDF5 file is loaded back equal',
     'Numbers, booleans, strings, None, numeric arrays (of at least one dimension), Series (numeric or string valued), numeric DataFrames, dicts (with strings without slash as keys), lists, tuples and serializable objects nested arbitrarily are loaded with equal values, labels, order of elements and kind of container. An '
     'object referenced several times is loaded as one shared object, distinct objects stay distinct, and reserved objects are replaced by those supplied on loading; if one which is needed is not supplied, loading raises an error.',
     ['inputs', 'programs'],
     'for every nesting and sharing of supported values and every set of reserved objects',
     'Tests store a handful of fixed values; strings fail at this commit.',
     [ST], [('to_hdf5', ST), ('from_hdf5', ST), ('object references', ST + ':_to_hdf5')],
     ['to_hdf5 / from_hdf5'])

prop('C14', 'An autotuner reloaded from any stored state continues identically',
     'Loading the state stored after any iteration yields an autotuner which, connected to an experiment in the same condition, performs the same actions, sets the same voltages and reaches the same result as the original that was never interrupted. '
     'This holds for every tuner, solver, gradient estimator and evaluator type (each with all its options), and loading changes neither the file nor the experiment.',
     ['crash_points', 'histories', 'configurations'],
     'for a crash after every iteration of every tuning run',
     'No test stores an autotuner; at this commit none can be reloaded.',
     [AT, ST, PT, SO, GR, EV], [('save_current_status', AT), ('load_auto_tuner', AT), ('to_hdf5 of every class', 'qtune/*.py')],
     ['traces of original and reloaded autotuner'])

prop('C15', 'The asynchronous writer stores exactly the given snapshots and always stops',
     'Every object handed to the asynchronous writer (thread or process based) is written exactly once, in order, to its file with the state it had at the time of the call, no matter how it is modified afterwards or how slow writing is; unless a write fails, all of them are on disk when join returns. '
     'Joining terminates in every case, also after a failed write, calls after the writer stopped are refused with an error, and a restarted writer works again.',
     ['schedules', 'fault_sequences'],
     'for every interleaving of the writer with modifications of the objects, every speed of writing and every position of a failing write',
     'One test writes with an idle queue and no concurrent modification.',
     [ST], [('AsynchronousHDF5Writer', ST), ('_writer_target', ST)], ['files on disk', 'return of join()'],
     state=[('queue', 'snapshots waiting to be written', ST)])

prop('C16', 'Every iteration is stored as one new file, in chronological order',
     'An autotuner with a storage path stores its state after every successful iteration in exactly one new file in that path, whose content is the state after that iteration although tuning continues meanwhile, and whose name sorts behind all earlier ones. '
     'The last saved file is the one reported by the autotuner; without storage path nothing is written.',
     ['histories', 'schedules'],
     'for every tuning run and every delay of the background writer',
     'No test iterates an autotuner with storage.',
     [AT, UT, ST], [('save_current_status', AT), ('time_string', UT)], ['directory listing', 'loaded states', 'last_save_file'])

prop('C17', 'The history shows what was measured, live and reloaded alike',
     'Appending an autotuner to the history after every iteration yields one row per voltage configuration with the voltages and, for each tuner evaluated at these voltages, its latest parameters, standard deviations, gradients and gradient covariances; the entries of tuners not reached at these voltages '
     'are empty; likewise if only some of the iterations are appended. A history loaded from the directory of stored states equals the one recorded live, and queries for a gate, parameter or gradient return exactly the columns of that name.',
     ['histories', 'configurations'],
     'for every tuning run, including names which are prefixes or suffixes of each other',
     'No test covers the history.',
     [HI], [('append_autotuner', HI), ('load_directory', HI), ('get_*', HI)], ['get_parameter_values', 'get_parameter_std', 'get_gate_values', 'get_gradients', 'get_gradient_covariances', 'get_gradient_variances'])

prop('C18', 'Evaluators recover the parameters of ideal measurement data',
     'Fed with finite data generated from their own model (tunnel coupling line scan, load scan, lead scan, lead transition, sensing dot scans) with known parameters inside the scanned range, one or several averaged lines, the evaluators return these '
     'parameters within the resolution of the data, with finite non-negative variances, under the documented parameter names. Data that can not be fitted yield NaN for the tunnel coupling and load time evaluators instead of an exception.',
     ['inputs'],
     'for every parameter value inside the physical range, offset, slope, height (of either sign), noise level below the resolution and scan setting',
     'No test covers any evaluator.',
     [EV, UT], [('process_raw_data', EV), ('new_find_lead_transition_index', UT)], ['Evaluator.evaluate'])

prop('C19', 'Evaluations leave the gate voltages as they found them',
     'Every evaluator leaves all gate voltages of the experiment at their values from before the evaluation, also if a measurement fails with an exception, and measures each scan at the voltages it specifies: lead transitions with only the shifted gate '
     'displaced by the charge diagram width, all others at unchanged voltages. Averaging evaluators inherit this.',
     ['fault_sequences', 'configurations'],
     'for every evaluator, set of gates, and every measurement of an evaluation at which a fault occurs',
     'No test covers any evaluator.',
     [EV], [('LeadTransition.evaluate', EV)], ['Experiment.set_gate_voltages', 'gate voltages during each measure call'])

prop('C20', 'Averaging reports mean and variance of the mean of the successful repetitions',
     'An averaging evaluator evaluates its evaluator exactly the given number of times and returns for each parameter the mean of the values that are not NaN and their population variance divided by their number; if all repetitions fail the result is NaN. '
     'The raw data of all repetitions are kept in order.',
     ['inputs', 'fault_sequences'],
     'for every number of repetitions, set of values and pattern of failures, different per parameter',
     'No test covers it.',
     [EV], [('AveragingEvaluator.evaluate', EV)], ['AveragingEvaluator.evaluate'])

prop('C21', 'Tuning of linear systems converges and keeps what is tuned',
     'For an experiment whose parameters depend linearly on the gates with independent responses, any hierarchy of gradient based tuners with sufficient gates (finite difference estimators with gates of their own and one difference scheme per solver; initially unknown Kalman gradients restricted to the gates of their tuner; tuners sharing gates with lower tuners keep the parameters of these invariant) reaches a state in which all parameters are within tolerance of their targets, in a number of '
     'evaluations bounded by the size of the problem, starting with exact, approximate, uncertain or no gradient knowledge, with transiently failing evaluations, and once more after targets were changed or gates moved by hand and the autotuner restarted. The completed state is real: re-measuring every parameter at the final voltages confirms all targets.',
     ['configurations', 'histories'],
     'for every well conditioned linear system, hierarchy, start voltages, estimator type and step limit',
     'No test runs an autotuner to completion.',
     [AT, PT, SO, GR], [('iterate', AT), ('suggest_next_position', SO)], ['final gate voltages', 'number of evaluations'])

prop('C22', 'Nelder-Mead performs the textbook moves, never loses its best point and converges on convex problems',
     'The Nelder-Mead solver first builds a non degenerate simplex around the start position and from then on always retains the best position measured so far; its best cost never increases. The suggested positions are the reflections (1), expansions (2), contractions (1/2) and shrinks (1/2) of the method of Nelder and Mead for the measured costs, for the sum of squares as well as for a cost function given by the user. On convex quadratic costs of up to a few dimensions it converges to the '
     'minimum within a few hundred evaluations, also when stored to and reloaded from a file in between. After a change of the target (also in the middle of a move) it retains the best position for the new target and converges to the new minimum; after a restart its simplex consists only of positions measured since the restart.',
     ['inputs', 'histories', 'crash_points'],
     'for every start, span, target and convex quadratic cost, and every interruption',
     'No test covers it.',
     [SO], [('NelderMeadSolver', SO)], ['simplex', 'suggest_next_position', 'get_costs'])

prop('C23', 'The tuning window controls its worker exactly',
     'A step ordered in the tuning window while the worker is idle executes exactly one iteration, start executes iterations until the tuning is complete, an iteration fails or pause is ordered, and after pause at most the iteration in progress is finished. '
     'Each executed iteration is appended to the history, a failing iteration pauses the worker without ending it, and closing the window (by its button or by the window manager) always stops the worker.',
     ['schedules', 'fault_sequences'],
     'for every sequence and timing of start, step, pause and close and every failing iteration',
     'The window can not be imported by the test suite.',
     [GUI], [('_work', GUI + ':GUI._work'), ('start / step / pause / close', GUI)], ['Autotuner.iterate calls', 'history rows', 'worker thread alive'])

prop('C24', 'Signal processing helpers match their definition and leave data unchanged',
     'The moving average returns the mean of the last width samples (fewer at the beginning), the nth difference the differences of samples n apart, and the transition finders the position of a single step within the width of the window and the resolution of the data, for steps of either sign and for one line or several lines. '
     'A vector requested orthogonal to a set of independent vectors is a unit vector orthogonal to all of them. None of the helpers modifies its input.',
     ['inputs'],
     'for every data, width and step position inside the searched range',
     'Not tested at all.',
     [UT], [('moving_average_filter', UT), ('nth_diff', UT), ('get_orthogonal_vector', UT), ('new_find_lead_transition_index', UT), ('find_lead_transition', UT)], ['return values', 'input arrays'])

prop('C25', 'Libraries are read completely and in the order requested',
     'The parallel reader yields for a sequence of files exactly one loaded object each, in the order of the files, equal to loading them one by one, with threads or processes, any number of workers and any sizes of the files, '
     'and connects each of them with the supplied reserved objects. A file that can not be loaded raises an error at its position instead of being skipped. Reading several files sequentially (read_files) yields every stored object of all of them exactly once, sorted by name and in the order of the files, connected to the reserved objects.',
     ['schedules', 'fault_sequences'],
     'for every set of files, number of workers and order of completion',
     'Not tested.',
     [ST], [('ParallelHDF5Reader', ST), ('read_files', HI)], ['read_iter', 'read_files'])

prop('C26', 'The reload window brings back recorded voltages and states',
     'Choosing a tune run of the history and reloading its voltages sets exactly the recorded voltages of that row on the experiment and restarts the tuning at the lowest tuner from there; reloading its state replaces the autotuner of the '
     'tuning window by the state stored last for that row, connected to the same experiment and restarted at the present voltages, without setting or measuring anything; with several reload windows open, each acts on the autotuner reloaded last. Numbers out of range are clamped to the recorded range and the number shown is '
     'the one used; the steps ordered afterwards and the rows appended to the history belong to the reloaded autotuner.',
     ['histories'],
     'for every recorded history, chosen row and order of reloads, steps and manual voltage changes',
     'The window can not be imported by the test suite.',
     [GUI, HI, AT], [('ReloadWindow', GUI), ('get_reload_path', HI), ('load_auto_tuner', AT)], ['Experiment.set_gate_voltages', 'autotuner of the window', 'history rows'])

prop('C27', 'Plots show the recorded tuning',
     'History.plot_tuning makes exactly the selected figures (voltages, parameters, gradients; by name or all) and shows for each selected gate, parameter and gradient entry the recorded values against the row number, gaps where nothing was recorded, and error bars of one recorded standard deviation if and only if ordered, in the order of the selection and without changing the history. '
     'The parameter, gradient and real time plot windows of the tuning window show the complete recorded data whenever the worker is idle: every parameter or gradient, or exactly the selected curves and error bars, whichever windows are opened, closed or changed during the tuning, which they do not disturb.',
     ['histories', 'inputs', 'schedules'],
     'for every history (live or loaded, with failed evaluations and gradients not estimated yet), every selection and sequence of window operations',
     'The tests do not plot and can not import the window.',
     [HI, GUI], [('plot_tuning', HI), ('plot_parameters', HI), ('plot_gradients', HI), ('PlotOrganizer', GUI), ('ParameterWidget', GUI), ('GradientWidget', GUI)],
     ['lines and error bars of the figures', 'curves of the real time plot', 'history data'])

prop('C28', 'Plots of the raw data show what was measured',
     'History.plot_evaluator_data and plot_single_evaluator_data show, for every shipped evaluator (also averaged, then of its last repetition) and every row of the history, live or loaded, the data which the evaluator measured at that row against the voltages or times of its scan: the points of every measurement or the image of a two dimensional scan, '
     'the function which was fitted with the fitted and the initial arguments of that evaluation, and marks at the positions it reported. Later evaluations do not change the plots of former rows. Evaluators which did not measure at a row and unknown names are left out. Plotting changes neither the recorded data nor the arguments of the caller, and evaluating draws in no figure.',
     ['histories', 'inputs'],
     'for every history, row, kind of evaluator, number of repetitions and selection',
     'The tests do not plot and do not record evaluator data.',
     [HI, EV, UT], [('plot_evaluator_data', HI), ('plot_single_evaluator_data', HI), ('plot_function_matching', HI), ('AveragingEvaluator', EV), ('plot_raw_data_fit', UT)],
     ['points, curves, marks and images of the axes', 'evaluator_data of the history'])

prop('C29', 'The shipped simulated dot behaves like an experiment',
     'TestExperiment of qtune.basic_dqd with the shipped simulators: reading returns the voltage set last of every gate, setting changes exactly the given gates, returns the voltages set and leaves the Series of the caller as well as the initial voltages given unchanged, and changing a Series read or given later changes no voltage. '
     'Every measurement is answered once, by its own simulator (identified by the Measurement object, not its name), with the present voltages and options; measuring changes no voltage and no option; a measurement without simulator is refused. '
     'The shipped evaluators find the parameters by which the simulation is defined: load time 15 + exp(-T - SA), tunnel coupling 1e-6 (190 + exp(T - SA) + exp(N - SB)), lead transitions at 1e-3 (lead - opposite gate), the steepest flank of the sensing dot; tuning load time and a lead transition reaches targets in the simulated range.',
     ['inputs', 'histories'],
     'for every sequence of sets, reads and measurements, every start voltage in the simulated range, every target in it',
     'The tests exercise the simulated dot with one set of voltages.',
     ['qtune/basic_dqd.py'], [('TestExperiment', 'qtune/basic_dqd.py'), ('load_simulation', 'qtune/basic_dqd.py'), ('detune_simulation', 'qtune/basic_dqd.py'), ('transition_simulation', 'qtune/basic_dqd.py'), ('NewLoadTime', EV)],
     ['gate_voltages of the experiment', 'values of the evaluators'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
