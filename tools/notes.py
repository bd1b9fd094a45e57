TECH.update({
 'C01': 'online checker of the tuning state machine over the call trace of scripted and real tuner hierarchies',
 'C02': 'fault injection (wrong names, NaN) with monitored experiment calls',
 'C03': 'oracle on verdicts and recorded values under random and edge inputs',
 'C04': 'fault injection (failing evaluations) with a trace oracle of the bisection',
 'C05': 'trace oracle on suggested steps and queued slices of random tuners',
 'C06': 'oracle on evaluator calls, verdicts and positions of the sensing dot tuner under random and edge inputs',
 'C07': 'oracle on solver suggestions and estimator updates (independent least squares)',
 'C08': 'oracle on requested measurements (independent eigen decomposition)',
 'C09': 'reference Kalman filter run alongside (differential online checker)',
 'C10': 'oracle on requested positions and estimates for affine functions',
 'C11': 'metamorphic trace comparison of tuning runs in different units',
 'C12': 'trace oracle with restarts and target changes injected at every point of tuning histories',
 'C13': 'round trip oracle over random object graphs',
 'C14': 'differential monitoring of original and reloaded autotuners with a crash at every iteration',
 'C15': 'fault and delay injection on the asynchronous writer, offline exactly-once and snapshot checker over the files',
 'C16': 'offline checker over the stored files and the live state log',
 'C17': 'offline checker comparing histories with an independent log of the run',
 'C18': 'oracle on evaluators fed with model generated data',
 'C19': 'fault injection at every measure and set call, monitored gate voltages',
 'C20': 'oracle on evaluations of scripted evaluators with failures',
 'C21': 'end to end stress runs with independent re-measurement at completion',
 'C22': 'online monitor of the simplex (best point retained) next to a textbook Nelder-Mead run on the same measurements, with store and reload',
 'C23': 'schedule and fault stress of the GUI worker with an event log checker',
 'C24': 'oracle on return values and input buffers of the helpers under random inputs',
 'C25': 'schedule and fault stress of the parallel reader, order and completeness checker',
 'C26': 'event log checker over random sequences of reloads, steps and voltage changes in the GUI',
 'C28': 'offline checker comparing the artists of every raw data plot with a log of the measured data',
 'C29': 'event log checker of the simulated experiment, evaluators and tuning judged by the formulas of the simulation',
 'C27': 'offline checker comparing the artists of every figure with the recorded data, in random window schedules of the GUI',
})
