#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line)."""
import json, os
K = 'filterpy/kalman/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claimed=True):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('C01', 'Linear filters equal the exact posterior of the delivered measurement log',
 'For a linear model with Gaussian noise, the mean and covariance reported after every predict and update are the exact Bayesian prediction and posterior given exactly the measurements delivered so far, whichever were lost, duplicated or late, with per-step models, intervals, controls, correlated noise and forgetting factor. This holds for the standard (class and procedural), extended, unscented, cubature, square-root, information and fading-memory forms, which therefore agree with one another. A fixed-gain (steady-state) step equals the full step carried out with that gain.',
 ['schedules', 'fault_sequences', 'inputs', 'histories', 'configurations'],
 'every sequence of predicts and deliveries produced by a lossy, duplicating, delaying link; every state/measurement/control dimension, column or flat state, scalar or matrix noise, every documented per-call model argument',
 'The tests run a handful of one- and two-state models, mostly a few steps with a fixed model, and compare two forms to each other; the equality must hold for any interleaving of gaps, duplicates, per-step models and dimensions.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', K+'sigma_points.py', K+'unscented_transform.py'],
 [('predict/update recursions', K+'kalman_filter.py KalmanFilter.predict, update, update_correlated, predict_steadystate, update_steadystate; module functions predict, update'),
  ('EKF step', K+'EKF.py ExtendedKalmanFilter.predict, update, predict_update'),
  ('sigma/cubature point step', K+'UKF.py UnscentedKalmanFilter.predict, update; '+K+'CubatureKalmanFilter.py'),
  ('factored and inverse forms', K+'square_root.py, '+K+'information_filter.py, '+K+'fading_memory.py')])

prop('C02', 'A missing measurement changes nothing',
 'Reporting a missing measurement (None) at any point of any history leaves the estimate, its covariance and, for filter banks, every filter and model probability exactly as they were, and records the current estimate as the posterior. Everything computed afterwards is identical to a run in which the call was never made, in single-step, combined-step and batch operation, including a gap at the very first epoch.',
 ['fault_sequences', 'schedules', 'histories', 'configurations'],
 'every stateful filter that documents None measurements; every position and run length of gaps in its history',
 'Tests pass None once or twice to a single filter class; the guarantee is about every placement of gaps in every class and the effect on everything that follows.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', K+'ensemble_kalman_filter.py', K+'IMM.py', K+'mmae.py', 'filterpy/hinfinity/hinfinity_filter.py'],
 [('missing-measurement branches', 'update() / batch_filter() of every class listed')])

prop('C03', 'A failed step is all-or-nothing and can be retried or abandoned',
 'If a predict or update of a single-model filter fails part-way - a user callback raises, a matrix inverse or factorisation fails, or the measurement has the wrong shape - the error reaches the caller and the estimate and covariance are exactly what they were before the call. Retrying the step then gives the result of a run in which the failure never happened, and abandoning it gives the result of a run in which it was never attempted.',
 ['fault_sequences', 'crash_points', 'histories', 'configurations'],
 'every callback invocation and every linear-algebra call inside every step, any number of failures in a history, followed by retry or abandonment',
 'Tests never make a callback or a decomposition fail in the middle of a step.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', K+'ensemble_kalman_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', K+'fixed_lag_smoother.py', 'filterpy/common/helpers.py'],
 [('order of computation and commit inside a step', 'predict()/update() of every class listed'),
  ('sigma point buffers', K+'UKF.py compute_process_sigmas, '+K+'CubatureKalmanFilter.py predict')])

prop('C04', 'Diagnostics describe the last processed measurement, and reading is passive',
 'After a measurement is processed, the recorded measurement, the residual, its covariance and inverse, the gain, log-likelihood, likelihood (floored at the smallest positive float) and Mahalanobis distance are those of that measurement under the prior it met, and the saved prior and posterior are the estimates around it, no matter when, how often or in what order they are read, and whether or not the caller has since reused the arrays passed to the call or written a new state into the filter. Reading diagnostics, printing the filter, or asking what-if questions (a trial prediction, a trial update, the residual or likelihood of a hypothetical measurement, the measurement of a hypothetical state) returns what the corresponding step would compute and never changes any later result.',
 ['schedules', 'histories', 'inputs'],
 'every interleaving of reads, prints and what-if queries with steps, for every filter that exposes them',
 'The values are cached and lazily computed, so staleness only shows for particular orders of reads, gaps and steps; tests read each once, right after one step.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', 'filterpy/stats/stats.py', 'filterpy/hinfinity/hinfinity_filter.py'],
 [('lazy caches', 'log_likelihood, likelihood, mahalanobis properties of the Kalman classes'),
  ('what-if queries', 'get_prediction, get_update, residual_of, measurement_of_state, log_likelihood_of')])

prop('C05', 'Batch processing equals streaming under any chunking',
 'Processing a measurement log in one batch call, in any split into consecutive batch calls and single steps, or one step at a time gives the same filtered and predicted means and covariances at every epoch and the same final filter, for per-epoch models, noises, controls and intervals, both step orders, and gaps. A history recorder attached to a batch records each epoch once.',
 ['schedules', 'histories', 'configurations'],
 'every log, every split of it into batches and single steps, every documented batch argument, for each class with a batch method',
 'Tests compare one batch of one fixed model with one loop; chunk boundaries, gaps and per-epoch arguments are not exercised.',
 [K+'kalman_filter.py', K+'UKF.py', K+'fading_memory.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/gh/gh_filter.py'],
 [('batch drivers', 'batch_filter of KalmanFilter, module kalman_filter, UKF, FadingKalmanFilter, HInfinityFilter, GHFilter, GHKFilter')])

prop('C06', 'Restart from a checkpoint after a crash equals an uninterrupted run',
 'If the process dies at any instant, inside or between steps, restoring a filter from its last checkpoint (serialised, deep-copied, or copied onto a standby filter) in a fresh process and replaying the measurements logged since gives exactly the estimates of a run that never crashed. Taking a checkpoint does not disturb the running filter, and a restored filter and its original evolve independently. Comparing a restored filter with its original reports exactly the attributes that differ.',
 ['crash_points', 'histories', 'configurations', 'schedules'],
 'every crash point (any executed line), any checkpoint interval, repeated crashes, every stateful filter and filter bank',
 'No test serialises or copies a filter mid-run and continues; state kept outside the object, or shared with a copy, only shows after a restart.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', K+'ensemble_kalman_filter.py', K+'IMM.py', K+'mmae.py', K+'fixed_lag_smoother.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/gh/gh_filter.py', 'filterpy/leastsq/least_squares.py', 'filterpy/memory/fading_memory.py', 'filterpy/common/helpers.py'],
 [('all state lives in the object', '__init__ and step methods of every filter class'),
  ('state copying', 'filterpy/common/helpers.py copy_states')])

prop('C07', 'Filters do not interfere with each other or with the caller\'s data',
 'Any number of filters stepped concurrently, with execution switching between them at any instruction boundary the scheduler chooses, each produce exactly what they produce alone, even when they share model matrices, sigma-point generators or callbacks. No step modifies an array, list or measurement the caller supplied or assigned, nor an estimate read from the filter, or a result returned by a batch, smoother or query call, earlier.',
 ['schedules', 'histories', 'configurations'],
 'every interleaving at source-line granularity of the steps of two or more filters of any class, with shared or private model objects',
 'Tests are single-threaded, build each filter from fresh arrays and never look at the caller\'s arrays again.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'IMM.py', K+'mmae.py', K+'sigma_points.py', 'filterpy/discrete_bayes/discrete_bayes.py', 'filterpy/monte_carlo/resampling.py'],
 [('per-instance scratch state', 'step methods of every filter class'), ('shared helpers', K+'sigma_points.py, '+K+'unscented_transform.py, filterpy/common/helpers.py')])

prop('C08', 'The history recorder is faithful, complete and immutable',
 'Entry k of every recorded series equals the value that attribute or computed property had at the k-th save, for every public attribute of any filter, and never changes afterwards whatever the filter does next. Every series has exactly one entry per completed save, a save that fails records nothing, and recording never changes what the filter computes.',
 ['histories', 'schedules', 'fault_sequences'],
 'every interleaving of saves with steps, gaps, failures and reads for every filter class and every recorder option',
 'Tests save a short run and look at a few values; aliasing and misalignment need later mutation or a failing property.',
 ['filterpy/common/helpers.py'],
 [('save/deepcopy of attributes and properties', 'filterpy/common/helpers.py Saver.save'), ('conversion', 'Saver.to_array, flatten')])

prop('C09', 'Interacting multiple models follow the Markov-mixing recursion',
 'Through any history of predicts, deliveries and gaps, the mode probabilities stay non-negative, sum to one and equal the Bayes update (by each filter\'s measurement likelihood) of the probabilities propagated through the Markov chain once per prediction, and each filter restarts from the matching mixture of all filters (a filter whose mode cannot be reached carries on with its own estimate). The combined estimate and covariance are always the exact mean and covariance of the mode mixture.',
 ['schedules', 'fault_sequences', 'histories', 'configurations'],
 'every delivery schedule, number of filters (2 or more), asymmetric transition matrix, initial probabilities, state shape, and underlying filter',
 'Tests use two or three filters with symmetric matrices and check only that the track is plausible.',
 [K+'IMM.py'],
 [('mode probability and mixing', K+'IMM.py update, predict, _compute_mixing_probabilities, _compute_state_estimate')])

prop('C10', 'A fixed bank of models weighs its filters by Bayes\' rule',
 'Through any history of predicts, deliveries, gaps and per-call noise or measurement overrides, the bank\'s probabilities equal the normalised product of the initial probabilities and each filter\'s measurement likelihoods over exactly the delivered measurements. The bank\'s estimate and covariance after every predict and update are the exact mean and covariance of the resulting mixture, and each filter in it behaves exactly as it would alone.',
 ['schedules', 'fault_sequences', 'histories', 'configurations'],
 'every delivery schedule, number of filters, initial probabilities, state shape and per-call override',
 'The one test runs two filters and plots them; it asserts nothing about probabilities or covariance.',
 [K+'mmae.py'],
 [('probability update and blending', K+'mmae.py MMAEFilterBank.update, predict')])

prop('C11', 'Fixed-lag smoothing: streaming equals batch, old estimates final, settled exact',
 'Feeding measurements one at a time yields, after every prefix of the stream, exactly the smoothed sequence and forward estimates that the batch call returns for that prefix, with or without controls. The forward estimate is the exact Kalman posterior, and so is the smoothed estimate of the newest step; once the covariance of a constant model has settled (and the lag has filled once), the estimate of an earlier step is its exact mean given every measurement received up to its lag. A new measurement revises only the most recent estimates within the lag, and the batch call never alters the smoother.',
 ['schedules', 'histories', 'configurations'],
 'every stream length, lag, dimension, control sequence and interleaving of batch calls with streaming',
 'The one test compares sums of one component for one model at one lag, so errors can cancel.',
 [K+'fixed_lag_smoother.py'],
 [('streaming and batch recursions', K+'fixed_lag_smoother.py smooth, smooth_batch')])

prop('C12', 'Fixed-interval smoothers return the exact posterior given the whole log',
 'For a linear Gaussian model the smoothed means and covariances at every epoch equal those of the joint posterior of all states given every delivered measurement, with gaps, per-epoch transition and noise matrices and varying intervals; the class, procedural and unscented smoothers agree. The last smoothed estimate is the filtered one, and smoothing modifies neither its inputs nor the filter.',
 ['histories', 'schedules', 'fault_sequences', 'configurations'],
 'every delivered log (length, gaps), dimension and per-epoch model sequence',
 'Tests smooth one constant model and check the result looks smoother or that two implementations agree; index shifts in per-epoch models are invisible there.',
 [K+'kalman_filter.py', K+'UKF.py'],
 [('backward pass', K+'kalman_filter.py KalmanFilter.rts_smoother, rts_smoother; '+K+'UKF.py rts_smoother')])

prop('C13', 'Ensemble filter: estimate and covariance stay consistent with the random draws',
 'For any stream of random draws, after a predict the estimate and covariance are the sample mean and unbiased sample covariance of the ensemble, each member being the propagated previous member plus its own process-noise draw. After an update every member moves by the ensemble gain times its own perturbed innovation, the estimate is the ensemble mean and the covariance shrinks by the gain-weighted innovation covariance; noise is drawn with the current process and measurement noise (or the per-call override).',
 ['inputs', 'schedules', 'histories', 'fault_sequences'],
 'every stream of draws supplied by the simulated random source, every schedule of predicts, updates and gaps, ensemble size and dimension',
 'Tests use the real random generator and can only assert loose statistical closeness.',
 [K+'ensemble_kalman_filter.py', 'filterpy/common/helpers.py'],
 [('ensemble propagation and analysis', K+'ensemble_kalman_filter.py predict, update, initialize'), ('outer products', 'filterpy/common/helpers.py outer_product_sum')])

prop('C14', 'Resampling is complete, in range, proportional and unbiased for any random draws',
 'For normalised weights (up to rounding) and any stream of uniform draws in [0,1), including the extremes, each resampling scheme returns exactly as many valid indices as particles, without failing, and never one of zero weight. Systematic resampling copies each particle floor or ceiling of N times its weight, stratified differs from N times its weight by less than two, residual copies it at least floor of N times its weight; and averaged over the draws every scheme copies each particle N times its weight. The draw of each stratum, and of each random copy of the multinomial and residual schemes, is independent of the others: over all combinations of draws the numbers of copies have the covariance of independent choices.',
 ['inputs', 'fault_sequences'],
 'every weight vector including zeros and rounding error, every adversarial or equidistributed sequence of draws from the simulated random source',
 'Tests draw from the real generator, which never produces the boundary values, and only check a few weight vectors.',
 ['filterpy/monte_carlo/resampling.py'],
 [('index selection', 'filterpy/monte_carlo/resampling.py residual_resample, stratified_resample, systematic_resample, multinomial_resample')])

prop('C15', 'Simultaneous measurements may arrive in any order and grouping',
 'When several sensors with independent noise report the same instant, the posterior after all have been processed does not depend on their arrival order, nor on whether they are processed jointly, one sensor at a time or one component at a time. This holds for the standard (class, procedural and component-sequential), extended, square-root, information, fading and cubature forms, and for the unscented one with its sigma points recomputed between the updates as documented.',
 ['schedules', 'inputs', 'configurations'],
 'every arrival permutation and partition of the components of each epoch, over multi-epoch histories with different sensors, noise and dimensions',
 'There is one test of one sequential ordering with a fixed model; the claim quantifies over all permutations and partitions.',
 [K+'kalman_filter.py', K+'EKF.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', K+'CubatureKalmanFilter.py', K+'UKF.py'],
 [('sequential processing', K+'kalman_filter.py update_sequential, update with per-call H and R'), ('per-call noise', 'EKF.update, SquareRootKalmanFilter.update, InformationFilter.update, FadingKalmanFilter.update')])

prop('C16', 'Covariances stay symmetric and positive in long, badly conditioned histories',
 'However long the history, however bursty the losses, and however precise the sensor relative to the prior, the covariance reported by the standard, procedural, extended, fading and square-root filters stays finite, symmetric up to rounding and positive semi-definite, and the variance of a quantity just observed stays positive and never exceeds that of the single measurement.',
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'histories of hundreds of steps with bursts of loss or of very precise measurements, noise ratios spanning many orders of magnitude, near-singular process noise',
 'Loss of symmetry or positivity from cancellation needs long or extreme histories; tests are short and well scaled.',
 [K+'kalman_filter.py', K+'EKF.py', K+'fading_memory.py', K+'square_root.py'],
 [('Joseph-form covariance update', 'KalmanFilter.update, module update, EKF.update, FadingKalmanFilter.update'), ('triangular factors', K+'square_root.py')])

prop('C17', 'Polynomial and fixed-gain trackers follow their defining recursions exactly',
 'After any stream, reset included, the recursive least-squares tracker equals the least-squares polynomial fit to all samples since the last reset, with its documented gains, residual and error estimates. The g-h and g-h-k trackers in their separate and order-generic forms, and the fading-memory polynomial tracker, follow their predict-correct recursion sample by sample (the fading-memory one being the discounted least-squares steady state), agree with one another at equal gains, and use a per-call gain for that call only. The variances and truncation errors the fading-memory tracker states are those of its recursion at the configured interval.',
 ['histories', 'schedules', 'configurations'],
 'every stream length, order, sample interval, gains, reset and restart position, scalar or vector signal',
 'Tests follow noise-free lines for a few samples; index- and order-dependent gain errors or state leaks across resets need other orders, intervals and histories.',
 ['filterpy/leastsq/least_squares.py', 'filterpy/gh/gh_filter.py', 'filterpy/memory/fading_memory.py'],
 [('gain schedule', 'filterpy/leastsq/least_squares.py update, reset, errors'), ('fixed-gain recursions', 'filterpy/gh/gh_filter.py GHFilter, GHKFilter, GHFilterOrder; filterpy/memory/fading_memory.py FadingMemoryFilter')])

prop('C18', 'Discrete Bayes filtering is exact hidden-Markov inference on the delivered log',
 'On a circular grid, any sequence of moves (by any whole offset, with any motion kernel) and delivered observations gives the belief of an exact hidden-Markov filter over the same sequence; on a bounded grid probability shifted past an edge is lost (or replaced by the fill value) and otherwise the same holds. Observations renormalise the belief to sum to one, moves on a circular grid conserve it, and neither modifies the belief, likelihood or kernel passed in.',
 ['schedules', 'fault_sequences', 'histories', 'inputs'],
 'every sequence of moves, lost and duplicated observations, grid size, kernel (asymmetric, wide), offset and boundary mode',
 'Tests check a few symmetric kernels and single steps; convolution orientation, offsets beyond the grid and long lossy sequences are not covered.',
 ['filterpy/discrete_bayes/discrete_bayes.py'],
 [('belief update', 'filterpy/discrete_bayes/discrete_bayes.py update, normalize'), ('belief prediction', 'predict')])

prop('C19', 'Nonlinear filters follow their published recursions on the delivered log',
 'For nonlinear models the extended, unscented and cubature filters report after every predict and update exactly what their published equations give for the measurements delivered so far, with the user\'s callbacks called with the arguments, interval and noise in force for that call. User-supplied mean, residual, addition and square-root functions are used everywhere the equations subtract, add, average or factor what they are given for, so results, taken modulo a turn, do not depend on how angles are wrapped.',
 ['schedules', 'fault_sequences', 'histories', 'configurations'],
 'every delivery schedule, interval sequence, callback arguments, sigma-point family and parameters, measurement dimension (vary per call where allowed), angular states and measurements',
 'Tests run a few radar examples and check the track is close to truth, which tolerates small errors in weights, points or residuals.',
 [K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'sigma_points.py', K+'unscented_transform.py'],
 [('EKF linearisation', K+'EKF.py predict, update, predict_update'), ('unscented step', K+'UKF.py predict, update, cross_variance, compute_process_sigmas, rts_smoother'), ('sigma points', K+'sigma_points.py'), ('cubature step', K+'CubatureKalmanFilter.py')])

prop('C20', 'Per-call overrides are transient and stepping never rewrites the model',
 'A model argument given to one call (control, transition, noise, measurement matrix, interval, gain, callback) affects that call only: the next call without it behaves as if it had never been given. No step, gap, batch, smoother, query or failure changes a model parameter the user configured, and changing a parameter between steps, by assigning it or by writing into the array the filter holds, on a filter or on a member of a bank, takes effect from the next step on.',
 ['histories', 'schedules', 'configurations'],
 'every interleaving of overridden and plain calls and of parameter changes, for every filter class and every override it documents',
 'Leakage of an override shows only in a later call in the same history; tests call with overrides in isolation.',
 [K+'kalman_filter.py', K+'EKF.py', K+'UKF.py', K+'CubatureKalmanFilter.py', K+'square_root.py', K+'information_filter.py', K+'fading_memory.py', K+'ensemble_kalman_filter.py', K+'mmae.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/gh/gh_filter.py'],
 [('default-or-override selection', 'predict/update of every class listed'), ('parameter setters', 'SquareRootKalmanFilter.P/Q/R, InformationFilter.F, HInfinityFilter.V, KalmanFilter.alpha')])

prop('C21', 'Noise-matrix and kinematic model builders match their continuous models',
 'The discretised process noise and transition matrices and the kinematic model builders return the matrices of their continuous-time models for every interval, order, block size and ordering.',
 ['inputs'], 'every interval, order, dimension and spectral density',
 'Tests compare a few sizes with tabulated values.',
 ['filterpy/common/discretization.py', 'filterpy/common/kinematic.py'],
 [('discretisation', 'filterpy/common/discretization.py'), ('kinematic builders', 'filterpy/common/kinematic.py')])

prop('C22', 'Gaussian statistics helpers are consistent with probability theory',
 'Products, sums, densities, cumulative probabilities, error ellipses and consistency statistics of Gaussians equal their closed forms for all valid parameters.',
 ['inputs'], 'all means and positive definite covariances',
 'Tests compare a few values with a library.',
 ['filterpy/stats/stats.py'],
 [('Gaussian algebra', 'filterpy/stats/stats.py')])

prop('C23', 'Gain-design formulas give the stated optimal gains and variance reductions',
 'The helper formulas for optimal, critically damped, least-squares and Benedict-Bordner gains and the variance-reduction and bias formulas equal their published closed forms for all admissible parameters.',
 ['inputs'], 'all admissible parameters',
 'Tests evaluate a few points.',
 ['filterpy/gh/gh_filter.py'],
 [('gain formulas', 'filterpy/gh/gh_filter.py optimal_noise_smoothing, least_squares_parameters, critical_damping_parameters, benedict_bornder_constants, VRF, VRF_prediction, bias_error')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
