#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), note='', state=()):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['qtune/' + f for f in files],
                          mechanism=[dict(name=n, where='qtune/' + w) for n, w in mechanism],
                          observe_at=list(observe), hook_needed=None))
    if state:
        p['anchors']['state'] = [dict(name=n, meaning=m, where='qtune/' + w) for n, m, w in state]
    PROPS.append((p, note))


prop('C01', 'Tuning is complete exactly when every parameter group was verified',
     'The Autotuner reports completion exactly when every parameter group of the hierarchy, from the lowest to the highest, was evaluated as tuned at the present gate voltages since they were last set, since the targets were last changed and since the last restart. '
     'An iteration that fails with an exception never counts as verification and can be repeated; a complete tuning refuses to iterate. '
     'With groups that decide by tolerance, completion therefore means that all parameters with a target are within tolerance at the present voltages.',
     ['histories', 'inputs', 'fault_sequences'],
     'every history of iterations, restarts, target changes and failing evaluations, solvers or hardware, for every sequence of verdicts and proposed voltages',
     'No test runs the Autotuner at all; the guarantee is about all histories of verdicts and interruptions.',
     ['autotuner.py', 'parameter_tuner.py'],
     [('Autotuner.iterate', 'autotuner.py'), ('Autotuner.change_targets', 'autotuner.py'), ('Autotuner.restart', 'autotuner.py'), ('SubsetTuner.is_tuned', 'parameter_tuner.py')],
     ['Autotuner.is_tuning_complete', 'Autotuner.iterate', 'Experiment.read_gate_voltages'],
     'hierarchies of 1-3 groups, 4-6 operations (thorough 6-8), up to 2 restarts/target changes, one fault',
     [('current_tuner_index/current_tuner_status/voltage_to_set', 'phase of the tuning', 'autotuner.py')])

prop('C02', 'Exactly the planned voltages reach the hardware, once and in order',
     'Every evaluation sees the present gate voltages, every plan of a parameter group is carried out unchanged and completely by the next iteration before anything else happens, and no other iteration sets voltages; gates that the plan does not name are not touched. '
     'A plan that contains NaN is refused with an exception and sets nothing. '
     'An iteration with gate names unknown to the experiment is refused before anything is set or evaluated.',
     ['histories', 'inputs', 'configurations'],
     'every history of iterations with restarts and target changes, every planned voltage including NaN and partial plans, every place of an incoherent name',
     'No test runs the Autotuner; plans and histories are unbounded inputs.',
     ['autotuner.py'], [('Autotuner.iterate', 'autotuner.py'), ('Autotuner.ready_to_tune', 'autotuner.py')],
     ['Experiment.set_gate_voltages', 'ParameterTuner.is_tuned'],
     '1-2 groups (thorough 3), 6 iterations (thorough 9), 2-3 gates')

prop('C03', 'A group learns exactly the tuned parameters below it',
     'When a parameter group plans its next voltages it is told the set of parameters which belong to the groups below it in the hierarchy and which have a target. '
     'It is told neither its own parameters, nor those of groups above, nor parameters whose target is left open.',
     ['configurations', 'inputs'], 'every hierarchy within the bounds, every combination of parameters with and without target, every active group',
     'No test runs a hierarchy.', ['autotuner.py'], [('Autotuner.tuned_parameters', 'autotuner.py')], ['ParameterTuner.get_next_voltages'],
     '2 groups with 2 parameters or 3 groups with 1 (thorough 2x3, 3x2)')

prop('C04', 'SubsetTuner: tuned exactly when all parameters are within tolerance',
     'A SubsetTuner counts as tuned exactly when every parameter with a target was evaluated successfully and its value, divided by its rescaling factor, is closer to the target than the tolerance, whatever the evaluators, their number and the order of labels. '
     'After a successful evaluation the solver learns the position and all rescaled values and variances exactly once, the last values are remembered and exactly a tuned position is appended to the tuned voltages. '
     'If a required value is NaN the group is not tuned, the failure is recorded and neither the solver nor the tuned voltages learn anything.',
     ['inputs', 'configurations'], 'all values, variances, targets, tolerances, factors, NaN patterns, label orders and groupings of parameters into evaluators',
     'One test evaluates a tuner with constant stub values.', ['parameter_tuner.py', 'solver.py'],
     [('SubsetTuner.is_tuned', 'parameter_tuner.py'), ('ParameterTuner.evaluate', 'parameter_tuner.py'), ('Solver.rescale_values', 'solver.py')],
     ['is_tuned', 'last_parameters_and_variances', 'tuned_voltages'], '1-2 parameters (thorough 3), one or several evaluators')

prop('C05', 'SubsetTuner: steps respect the limit and the untouched gates',
     'The voltages a SubsetTuner asks for differ from its last voltages only in its own gates, go straight towards the position suggested by the solver and are reached completely if it lies within the maximal step size (in the euclidean norm), otherwise they are exactly the maximal step size away. '
     'The last voltages themselves are not modified. '
     'Evaluations are skipped only on the way to a far suggestion, for fewer steps than the maximal step number and than whole maximal steps fit into the distance, and the solver follows every such move.',
     ['inputs', 'histories'], 'all suggested positions, last voltages, step limits, step numbers and histories of moves',
     'One test checks a few numbers; direction, norm and history are quantified over all reals.', ['parameter_tuner.py'],
     [('SubsetTuner.get_next_voltages', 'parameter_tuner.py'), ('SubsetTuner.is_tuned', 'parameter_tuner.py')], ['get_next_voltages', 'is_tuned', 'last_voltages'],
     '1-2 gates (thorough 3), distance below 7 (5) step sizes, step number 1-3, 3-4 (thorough 4-6) moves')

prop('C06', 'A failed evaluation leads half way back to the last good voltages',
     'After an evaluation that failed (NaN) a group asks for the voltages half way between the present ones and the last voltages at which the evaluation succeeded, without asking the solver, and repeats this until an evaluation succeeds. '
     'For a SensingDotTuner the last tuned voltages take the place of the last good ones.',
     ['histories', 'inputs'], 'every pattern of failing and succeeding evaluations and all voltages',
     'No test lets an evaluation fail.', ['parameter_tuner.py'],
     [('SubsetTuner.get_next_voltages', 'parameter_tuner.py'), ('SensingDotTuner.get_next_voltages', 'parameter_tuner.py')], ['get_next_voltages', 'last_evaluation_failed'],
     '3 rounds (thorough 4-5), previous success given')

prop('C07', 'SensingDotTuner: minimum decides, expensive evaluation only when needed',
     'A SensingDotTuner counts as tuned exactly when every cheaply evaluated parameter with a minimum exceeds it. '
     'The expensive evaluation runs, exactly once, exactly when the group is not tuned and a cheap value does not exceed its cost threshold; the solver learns the position and the values of the deciding evaluation exactly when the group is not tuned. '
     'The remembered values are those of the latest evaluation of each parameter, exactly tuned positions are appended to the tuned voltages, and a failed cheap evaluation changes nothing else.',
     ['inputs', 'configurations'], 'all values, thresholds, factors and NaN patterns',
     'No test covers the sensing dot tuner.', ['parameter_tuner.py'],
     [('SensingDotTuner.is_tuned', 'parameter_tuner.py'), ('ParameterTuner.evaluate', 'parameter_tuner.py')], ['is_tuned', 'cheap_evaluation_only', 'last_parameters_and_variances'],
     '2 cheap and 2 expensive parameters, thresholds not above the minimum')

prop('C08', 'Newton steps solve the linear model; gradient requests come first',
     'The position suggested by a NewtonSolver is the shortest least squares solution of the linear model given by the estimated gradients, the current values and the desired values, where parameters without target are to stay invariant. '
     'If the gradient estimator of a parameter with target requests a measurement, the first such request in the order of the parameters is suggested instead; parameters without target request nothing. The Autotuner reports that all estimators are ready exactly if none of them requests a measurement. '
     'The gradients of the parameters which are reported as tuned are handed to the estimators, restricted to the gates of the solver.',
     ['inputs', 'configurations'], 'all Jacobians including singular ones, positions, values, targets, NaN targets, label orders and request patterns',
     'One test checks a single step with fixed numbers.', ['solver.py'], [('NewtonSolver.suggest_next_position', 'solver.py'), ('NewtonSolver.jacobian', 'solver.py')],
     ['NewtonSolver.suggest_next_position', 'NewtonSolver.state'], 'up to 2x2 and 1x3 symbolic Jacobians (thorough 2x3, 3x3 triangular); lstsq by exact formulas')

prop('C09', 'Every gradient estimator learns its own value and the true position',
     'After a measurement a NewtonSolver hands every estimator of a parameter with target its own value and variance, matched by label in any order, and the measured position as a new position, exactly once; estimators of parameters without target learn nothing. '
     'The next step starts at the measured position and values, restricted to the gates and parameters of the solver. '
     'Moving or restarting the solver changes only known gates, reaches its estimators and keeps values and targets.',
     ['inputs', 'configurations'], 'all positions, values, variances, label orders and NaN targets', 'The existing test uses one order of labels.',
     ['solver.py', 'gradient.py'], [('NewtonSolver.update_after_step', 'solver.py'), ('NewtonSolver.restart', 'solver.py')],
     ['GradientEstimator.update', 'NewtonSolver.current_position'], 'up to 3 parameters and 3 gates (thorough 4)')

prop('C10', 'Finite difference gradients are exact for affine functions',
     'For values of an affine function at linearly independent points, finite differences, symmetric or not, return exactly its gradient, and the covariance obtained by linear error propagation of the given variances. '
     'A wrong number of points is refused. '
     'The FiniteDifferencesGradientEstimator returns this gradient, labelled by gate, as soon as all required points were measured, for any order of labels and with additional gates.',
     ['inputs', 'configurations'], 'all affine functions, points, variances, numbers of gates within the bounds, symmetric and asymmetric',
     'The tests use fixed points of one function.', ['util.py', 'gradient.py'],
     [('calculate_gradient_non_orthogonal', 'util.py'), ('FiniteDifferencesGradientEstimator.update', 'gradient.py')], ['estimate', 'covariance'],
     'n = 1-2 generic, 3 on axes or triangular (thorough 3 generic, 4 on axes)')

prop('C11', 'Finite difference requests are independent steps of length epsilon',
     'While its estimate is incomplete, the FiniteDifferencesGradientEstimator requests points which lie one epsilon per gate away from the base point (one epsilon in norm if epsilon is uniform) in directions orthogonal to the measured ones, in opposite pairs if symmetric; a request is repeated until something was measured. '
     'After the required number of points it requests nothing, and a restart makes it start again at the new position.',
     ['inputs', 'histories'], 'all positions, step sizes, deviating measurements and measurement orders', 'A test follows one fixed sequence.',
     ['gradient.py', 'util.py'], [('FiniteDifferencesGradientEstimator.require_measurement', 'gradient.py'), ('get_orthogonal_vector', 'util.py')], ['require_measurement'],
     'n = 1-3 (thorough 4), nullspace by the contract of C25 or exact')

prop('C12', 'The Kalman filter is the exact Gaussian update of the gradient',
     'One update of KalmanGradient yields the mean and covariance of the gradient conditioned on the measured difference of values over the given difference of positions, for any measurement covariance, process noise and fading memory. '
     'A measurement never increases the uncertainty in any direction and the covariance stays positive. '
     'Without prior it starts at zero gradient and unit covariance, the suggested direction is a unit vector of largest uncertainty and steps of a wrong dimension are refused.',
     ['inputs', 'histories'], 'all prior means and covariances, steps, values and noise', 'Tests follow one converging sequence.',
     ['kalman_gradient.py'], [('KalmanGradient.update', 'kalman_gradient.py'), ('KalmanGradient.sugg_diff_position', 'kalman_gradient.py')], ['grad', 'cov'],
     '1-2 gates, 3 with diagonal prior (thorough 3 full); eigenvectors by contract')

prop('C13', 'The Kalman estimator feeds the filter with true differences',
     'Every measurement gives the Kalman filter the difference of position and of value to the base point and the variance of the measurement, by gate label; a measurement at the base point gives it nothing. '
     'The base point moves exactly when the measurement counts as a new position; without a known value (at the start or after a restart) the first measurement only defines the base point. '
     'Gradient and covariance are labelled by gate.',
     ['histories', 'inputs'], 'all histories of measurements, new or not, with restarts, label orders and foreign gates', 'Tests follow one sequence.',
     ['gradient.py'], [('KalmanGradientEstimator.update', 'gradient.py'), ('KalmanGradientEstimator.restart', 'gradient.py')], ['KalmanGradient.update', 'estimate', 'covariance'],
     '2 gates, 3 measurements (thorough 5, or 3 gates)')

prop('C14', 'The Kalman estimator measures the most uncertain direction, only if needed',
     'The KalmanGradientEstimator requests a measurement exactly when the uncertainty, relative to the allowed one, exceeds one in some direction of the gates in question, and then one epsilon from the current position along the direction where it exceeds most; gates with infinite threshold are ignored. '
     'If gradients of tuned parameters are given, only directions that leave them invariant are considered. '
     'Other gates stay at the current position.',
     ['inputs', 'configurations'], 'all covariances, thresholds, epsilons, positions, subsets of gates and tuned gradients within the bounds', 'No test covers the selection of directions.',
     ['gradient.py'], [('KalmanGradientEstimator.require_measurement', 'gradient.py')], ['require_measurement'],
     '1-3 independent gates (thorough 4), 2 correlated gates, uniform epsilon with tuned gradients')

prop('C15', 'The ForwardingSolver forwards exactly the named values as positions',
     'A ForwardingSolver suggests exactly the values (in original units) of the parameters that are mapped to gates and keeps all other gates of its position, and its updates never modify the values of its caller. '
     'Moving or restarting it changes only gates it knows.',
     ['inputs', 'configurations'], 'all values, mappings, factors and label orders', 'One test uses fixed numbers.', ['solver.py'],
     [('ForwardingSolver.suggest_next_position', 'solver.py'), ('ForwardingSolver.update_after_step', 'solver.py')], ['suggest_next_position'], '2-3 gates')

prop('C16', 'Targets and rescaling are applied by label, exactly and reversibly',
     'A target table holds the given value for every parameter and category by label, NaN where nothing was given and factor one if no factors were given. '
     'Changing targets changes exactly the named entries of the named categories and refuses unknown parameters. '
     'Rescaling divides values by the factor and variances by its square, parameters unknown to the target are not scaled, and descaling undoes it.',
     ['inputs', 'configurations'], 'all tables, changes, factors, values, NaN patterns and label orders', 'No test changes targets or uses factors.', ['solver.py', 'parameter_tuner.py'],
     [('make_target', 'solver.py'), ('Solver.target', 'solver.py'), ('Solver.rescale_values', 'solver.py'), ('Solver.descale_values', 'solver.py')], ['Solver.target', 'rescale_values'],
     '2 parameters (thorough 3)')

prop('C17', 'The Nelder-Mead solver performs the Nelder-Mead algorithm',
     'From any simplex the NelderMeadSolver suggests the reflection of the worst point at the centroid of the others, then expansion, contraction outside or inside, or shrinking towards the best point according to the measured costs, and keeps the accepted points sorted by cost (with the standard coefficients 1, 2, 1/2, 1/2). '
     'Every point of the simplex was really measured with its value, the best cost never gets worse and the simplex keeps its size. '
     'From one starting point it first measures independent steps of one span each.',
     ['histories', 'inputs'], 'all simplices, spans and sequences of measured values, also at unrequested points', 'One test minimises one function.',
     ['solver.py', 'parameter_tuner.py'], [('NelderMeadSolver.suggest_next_position', 'solver.py'), ('NelderMeadSolver.update_after_step', 'solver.py')], ['suggest_next_position', 'simplex', 'get_costs'],
     '1-2 gates, one complete iteration without ties or 3-4 rounds with ties (thorough 3 gates, 5-6 rounds)')

prop('C18', 'What was saved is what is loaded',
     'Loading a file returns objects of the same types, structure and values that were saved: numbers, NaN, strings, None, series and frames with their labels, arrays, dicts, lists and tuples in order, and serializable objects by their constructor arguments. '
     'Objects that were the same object in the saved data are the same object again, and objects that were distinct stay distinct (arrays and scalars excepted). '
     'Reserved objects are replaced by the given ones, several objects, also with the same reserved ones, can share a file and nothing that was saved before is damaged; the functions that read whole files return every saved object under its name.',
     ['inputs', 'configurations'], 'all object graphs of the supported types within the bounds, all values and sharing patterns', 'Tests save a few objects with few types.',
     ['storage.py'], [('to_hdf5', 'storage.py'), ('from_hdf5', 'storage.py'), ('HDF5Serializable', 'storage.py')], ['to_hdf5', 'from_hdf5'],
     'graphs of depth 3 with two members of 18 kinds, lists of 12 (thorough 120); symbolic runs use an in-memory h5py, path models are replayed with the real one')

prop('C19', 'A reloaded tuner continues exactly where the saved one stopped',
     'Every serializable object of the package saves all the constructor arguments that determine its behaviour, so that a reloaded estimator, solver, parameter tuner, evaluator or Autotuner answers every continued history of inputs exactly like the original. '
     'An Autotuner that is resumed from the file of its last iteration performs the same evaluations and sets the same voltages as the uninterrupted one, wherever it was interrupted.',
     ['crash_points', 'histories', 'inputs'], 'every interruption point, every history before and after it, all values', 'Tests reload a few objects and compare some members.',
     ['storage.py', 'autotuner.py', 'parameter_tuner.py', 'solver.py', 'gradient.py', 'kalman_gradient.py', 'evaluator.py'],
     [('to_hdf5 of every class', 'autotuner.py'), ('HDF5Serializable', 'storage.py'), ('Autotuner.save_current_status', 'autotuner.py')], ['to_hdf5', 'Autotuner.iterate'],
     'histories of 2-4 operations on both sides of the reload')

prop('C20', 'A restart moves the whole hierarchy to the present voltages',
     'After a restart of the Autotuner every parameter tuner, solver and gradient estimator of the hierarchy takes the present voltages of its own gates as its position, pending plans and queued steps are discarded and the tuning starts again at the lowest group. '
     'Knowledge that remains valid is kept: targets, values, Kalman gradients and the voltages that were found to be tuned or evaluatable.',
     ['histories', 'inputs', 'configurations'], 'all histories before the restart, all voltages and combinations of tuners, solvers and estimators', 'No test restarts a hierarchy.',
     ['autotuner.py', 'parameter_tuner.py', 'solver.py', 'gradient.py'],
     [('Autotuner.restart', 'autotuner.py'), ('ParameterTuner.restart', 'parameter_tuner.py'), ('Solver.restart', 'solver.py'), ('GradientEstimator.restart', 'gradient.py')],
     ['current_position', 'last_voltages', 'Autotuner.current_tuner_index'], '2 groups of different classes')

prop('C21', 'Averaging returns mean and variance of the mean of valid repetitions',
     'An AveragingEvaluator evaluates its evaluator exactly as often as asked and returns, per parameter, the mean of the repetitions that did not fail and the variance of this mean; if all failed the value is NaN. '
     'Repeated evaluations are independent of earlier ones.',
     ['inputs', 'fault_sequences'], 'all values and all patterns of failed repetitions', 'No test covers evaluators.', ['evaluator.py'],
     [('AveragingEvaluator.evaluate', 'evaluator.py')], ['evaluate'], '1-4 repetitions of 1-2 parameters (thorough 7 repetitions)')

prop('C22', 'Lead transition scans restore the voltages and find the steepest window',
     'The LeadTransition evaluator sweeps each gate with its own scan options, finds each transition at the steepest window of the data, and restores the gate voltages it found, also if a measurement fails. '
     'The transition search returns the position of the steepest window of the given width, within one width of a clean step, without modifying the data.',
     ['inputs', 'fault_sequences', 'configurations'], 'all measured data, voltages, scan options and failing scans', 'No test covers evaluators.', ['evaluator.py', 'util.py'],
     [('LeadTransition.evaluate', 'evaluator.py'), ('new_find_lead_transition_index', 'util.py')], ['Experiment.set_gate_voltages', 'evaluate'],
     '2 scans of 6-8 points (thorough 3 scans, 10 points); smoothing and derivative exact')

prop('C23', 'The history is a faithful record of the tuning',
     'Every state that is appended to a History adds exactly the facts of that state: the voltages and, for every group evaluated since, its values, variances, gradients and covariances under their own labels. '
     'Earlier entries never change, gradients are found under exactly the requested parameter, and the order of the entries is the order of the tuning.',
     ['histories', 'inputs'], 'all histories of appended states and all values', 'No test covers the history.', ['history.py'],
     [('History.append_autotuner', 'history.py'), ('read_data', 'history.py')], ['History.get_values', 'History.get_gradients'], '2-3 states of 1-2 groups')

prop('C24', 'Asynchronous saves store the state at the time of the call',
     'A file written by the asynchronous writer holds the object as it was when the write was requested, whatever happens to the object afterwards and whenever the writer gets to work. '
     'Everything that was requested before a join or restart is on disk afterwards, in files of the requested names, a joined writer refuses to write and a restarted one works again. A write that fails affects no other write and blocks nobody who joins or restarts the writer.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of the writer with modifications, writes, joins and restarts, every choice of failing writes', 'Tests rely on one schedule of the operating system.',
     ['storage.py'], [('AsynchronousHDF5Writer.write', 'storage.py'), ('AsynchronousHDF5Writer.join', 'storage.py'), ('_writer_target', 'storage.py')], ['from_hdf5'],
     'the threaded writer, up to 4 operations; multiprocessing shares the code but is not encoded')

prop('C25', 'Orthogonal directions are orthogonal, normalised and always found',
     'For any vectors that do not span the space get_orthogonal_vector returns a unit vector orthogonal to all of them, of their dimension and for lists, arrays and series alike.',
     ['inputs'], 'all vectors including parallel and zero ones', 'Tests use a few vectors.', ['util.py'], [('get_orthogonal_vector', 'util.py')], ['get_orthogonal_vector'],
     '1-2 vectors in 2-3 dimensions (thorough 3 in 4); svd by contract')

prop('C26', 'The self-initialising estimator hands over without losing information',
     'A SelfInitializingKalmanEstimator behaves as its finite difference estimator until that has an estimate and from then on as a Kalman estimator that starts with exactly this gradient, its covariance, and the last measured position and value. '
     'Restarting or moving it reaches the estimator in use.',
     ['histories', 'inputs'], 'all positions, values and variances of the initial measurements and of later ones', 'One test initialises it once.', ['gradient.py'],
     [('SelfInitializingKalmanEstimator.update', 'gradient.py')], ['estimate', 'covariance', 'require_measurement'], '1-2 gates')

prop('C27', 'Sensing dot scans tune to the steepest point of the requested flank',
     'A sensing dot scan proposes the voltage where the smoothed signal changes most in the requested direction (rising, falling or either), on the scanned gate axis and inside the scan. '
     'The current signal is the slope at the present voltage, exactly one scan centred at the present voltage is made, and the gate voltages are left as they were.',
     ['inputs', 'configurations'], 'all smooth lines, centres, flanks and gates within the bounds', 'No test covers evaluators.', ['evaluator.py', 'util.py'],
     [('SensingDot1D.evaluate', 'evaluator.py'), ('SensingDot2D.evaluate', 'evaluator.py')], ['evaluate'],
     'polynomial lines of degree 2-3 over 17-32 points (thorough 49), 2 lines of 50 points; smoothing and derivative exact')

prop('C28', 'On affine devices the whole loop converges to the targets',
     'On a device whose parameters are affine functions of the gate voltages with a known regular gradient, the complete system of Autotuner, hierarchy of tuners, Newton solvers and simulated experiment becomes complete after the expected number of iterations with all parameters on target, from every starting point and for every target. '
     'The simulated experiment sets exactly the given voltages and reads them back.',
     ['inputs', 'histories'], 'all affine responses, starting voltages and targets within the bounds', 'There is no end-to-end test.',
     ['autotuner.py', 'parameter_tuner.py', 'solver.py', 'gradient.py', 'basic_dqd.py'],
     [('Autotuner.iterate', 'autotuner.py'), ('NewtonSolver.suggest_next_position', 'solver.py'), ('TestExperiment', 'basic_dqd.py')], ['Autotuner.is_tuning_complete', 'TestExperiment.read_gate_voltages'],
     '2 gates, 1-2 groups')

prop('C29', 'Fitted parameters are those of the fit; a failed fit is a failed evaluation',
     'The evaluators that fit a model (tunnel coupling, reload time, tunnel times of the leads) fit the signal of exactly one measurement on its own axis and return the fitted width, decay or times under their own labels. '
     'If a fit does not converge the evaluation returns NaN without an exception, keeps the raw data and leaves no stale fit results.',
     ['inputs', 'fault_sequences'], 'all signals, all outcomes of the fits including failures at either of two fits', 'No test covers evaluators.', ['evaluator.py'],
     [('InterDotTCByLineScan.evaluate', 'evaluator.py'), ('NewLoadTime.evaluate', 'evaluator.py'), ('LeadTunnelTimeByLeadScan.evaluate', 'evaluator.py'),
      ('LeadTunnelTimePrefitVersion.evaluate', 'evaluator.py')], ['evaluate', 'fit_results', 'raw_data'],
     'scans of 5-13 points (thorough 25), pulse responses of 400 points with 3-6 symbolic ones; curve_fit by its contract, exp/tanh/cosh uninterpreted')

prop('C30', 'Components built from the same series do not influence each other',
     'Solvers, gradient estimators and tuners that were given the same series, arrays or target tables behave exactly as if each had its own copy: using, moving, restarting or retargeting one never changes what another one reports, requests or proposes. '
     'The objects of the caller stay as they are.',
     ['histories', 'configurations', 'inputs'], 'all pairs of components, operations, positions and values', 'Tests look at one component at a time.', ['solver.py', 'gradient.py', 'parameter_tuner.py'],
     [('ForwardingSolver.update_after_step', 'solver.py'), ('Solver.target', 'solver.py'), ('FiniteDifferencesGradientEstimator.change_position', 'gradient.py'), ('ParameterTuner.__init__', 'parameter_tuner.py')],
     ['current_position', 'suggest_next_position', 'require_measurement', 'last_parameters_and_variances'], 'pairs of 14 kinds with 2 gates and 2 parameters, 1 operation (thorough 2)')

prop('C31', 'The MATLAB back-ends set exactly the voltages and scans they are told',
     'Setting gate voltages through LegacyDQDRefactored or SMTuneQQD sends one command in which the named gates have their new voltages and every other gate its present one, as plain Python numbers; what is returned and read afterwards, by gate name and sorted, is what the hardware reports. '
     'A measurement is sent exactly once with its name, its index and all its options, and its result is handed out; neither the measurement nor the series of voltages is altered. '
     'Unknown gates, scans and measurements are refused before anything is sent. Lists, tuples, dicts, series and numpy numbers are converted with the same structure and values. Calling the view of a MATLAB function calls that function once with the arguments in order and hands out the result of that call, also after later calls. No MATLAB engine is connected twice, and qtune is on the path of every one.',
     ['inputs', 'configurations', 'histories'], 'all voltages, subsets of gates, deviations of the hardware, measurements and options, sequences of connections', 'There is no MATLAB in the tests; the modules are not even imported.',
     ['sm.py', 'sm_tune_qqd.py'],
     [('LegacyDQDRefactored.set_gate_voltages', 'sm.py'), ('LegacyDQDRefactored.measure', 'sm.py'), ('SpecialMeasureMatlab.to_matlab', 'sm.py'), ('SMTuneQQD.set_gate_voltages', 'sm_tune_qqd.py'), ('SMTuneQQD.measure', 'sm_tune_qqd.py')],
     ['set_gate_voltages', 'read_gate_voltages', 'measure'], 'MATLAB is a stub that records commands; 3 gates (thorough 5), 2 rounds, 3 connections')

prop('C32', 'QQD evaluators return the analysed values under their labels',
     'Every evaluator of the QQD back-end makes one measurement per evaluation and returns, under its own parameter labels, the value that the analysis found: the mean width of all line scans with the variance of this mean, the fitted lead time with an error proportional to the residuals, positions and steepest slope of the sensor, positions of the charge transitions, the distance of the triple points, the positions of the response. '
     'Values outside the limits that were given, for all or by parameter name in any order, are NaN; without limits every value is accepted; transitions below the minimal height have no position. The pass-through evaluator hands out the numbers of its measurements in the order of its parameters, with the variance of a line scan, the given error or, if none was given, the one of eight repetitions at the first evaluation, scaled with the residuals if they are known and have a reference. A reloaded evaluator behaves like the original one.',
     ['inputs', 'configurations'], 'all analysed values, limits, heights and errors, with and without a detour through a file', 'No test imports the QQD evaluators.',
     ['sm_tune_qqd.py'], [('QQDLine', 'sm_tune_qqd.py'), ('QQDLead', 'sm_tune_qqd.py'), ('QQDSensor2D', 'sm_tune_qqd.py'), ('QQDCharge', 'sm_tune_qqd.py'), ('QQDResp', 'sm_tune_qqd.py'), ('SMQQDPassThru', 'sm_tune_qqd.py')],
     ['evaluate', 'to_hdf5'], '1-2 scans (thorough 4), 2 evaluations, 2 parameters')

prop('C33', 'A Python index selects the same elements of a MATLAB array',
     'An integer index or slice of a MATLAB view, positive or negative, with any step and open ends, alone or in several dimensions, is translated into the MATLAB index (counted from one, ends included) of the same elements in the same order. '
     'Iterating over a view of a struct or cell array yields every element once; cells are handed out as what they contain.',
     ['inputs'], 'all in-range indices and slices of arrays up to the stated length', 'No test imports the module.',
     ['mat2py.py'], [('transform_index', 'mat2py.py'), ('MATLABStructView.__getitem__', 'mat2py.py')], ['transform_index'],
     'arrays of up to 4 elements (thorough 8), steps of 1 and 2 in both directions, 2-3 dimensions; the text is interpreted by the rules of MATLAB\'s colon and end')


prop('C34', 'The GUI worker iterates exactly as its buttons say',
     'A step orders exactly one iteration, a start orders iterations until the tuning is complete, and a pause or closing ends them after at most the one that was already begun; whatever is clicked in whatever order and at whatever moment of the worker, no iteration happens that nobody asked for, none while another one is running and none of a complete tuning. '
     'Every iteration is recorded in the history once before the next one begins and refreshes the open windows. A failing iteration is reported with its error in the log and ends the running order, and the worker obeys the next click. '
     'Closing always ends the worker, starting again after closing works, there is never more than one worker, and the buttons show what can be done.',
     ['histories', 'schedules', 'fault_sequences'], 'all sequences of clicks and all moments of the worker thread at which they come, all numbers of remaining iterations, one fault in the tuner or the history', 'No test imports the interface, and tests cannot choose when the worker is interrupted.',
     ['gui.py'], [('GUI._work', 'gui.py'), ('GUI.start', 'gui.py'), ('GUI.step', 'gui.py'), ('GUI.pause', 'gui.py'), ('GUI.close', 'gui.py')], ['GUI.start', 'GUI.step', 'GUI.pause', 'GUI.close', 'Autotuner.iterate'],
     'two clicks with one preemption at any line of the interface, three without (thorough two preemptions, four clicks); real Qt without a screen, threads in lock step')

prop('C35', 'Reloading in the GUI restores exactly the chosen iteration',
     'The reload window offers exactly the recorded iterations; the iteration it shows is the one it reloads. Reloading voltages sets exactly the recorded gate voltages of that iteration, once, and restarts the present tuner; reloading the state replaces the tuner of the interface by the one saved at that iteration and leaves the device alone. '
     'In both cases the tuning begins with the lowest group at the present voltages, and the interface iterates the chosen tuner only.',
     ['histories', 'inputs'], 'all voltages and values, all verdicts before, every recorded iteration, every entry, voltages changed by others meanwhile', 'No test imports the interface.',
     ['gui.py', 'history.py', 'autotuner.py'], [('ReloadWidget.reload_voltages', 'gui.py'), ('ReloadWidget.reload_autotuner', 'gui.py'), ('History.get_reload_path', 'history.py'), ('load_auto_tuner', 'autotuner.py'), ('Autotuner.restart', 'autotuner.py')],
     ['Experiment.set_gate_voltages', 'GUI.auto_tuner'], '3 iterations of one group before (thorough 5, or 4 of two groups)')

prop('C36', 'Plots show exactly the recorded history',
     'Every plot of a history shows exactly the recorded values of what was selected, at their numbers, and nothing else. The plot window draws one named curve per selected gate voltage, parameter and entry of a gradient, error bars of one standard deviation to both sides where they are selected, follows every change of the selection (a gradient selects all of its entries) and shows what was recorded since when it is refreshed. '
     'plot_tuning, the parameter window and the gradient window draw the requested voltages, parameters and gradients, each parameter on its own axis in the requested order and named after it, with error bars of its own standard deviation if asked for; also for a single one, for parameters without description and besides parameters without gradients.',
     ['histories', 'inputs'], 'all recorded voltages, values, variances and gradients, every sequence of selections and refreshes, every combination of requested plots', 'No test draws anything.',
     ['gui.py', 'history.py'], [('PlotOrganizer.refresh', 'gui.py'), ('ParameterWidget.refresh', 'gui.py'), ('GradientWidget.refresh', 'gui.py'), ('History.plot_tuning', 'history.py'), ('plot_voltages', 'history.py'), ('plot_parameters', 'history.py'), ('plot_gradients', 'history.py')],
     ['History.append_autotuner'], '2-3 recorded entries of 2 gates, 3 parameters and 2 gradients, two changes of the selection (thorough three); symbolic runs draw on recorders, replays on the real pyqtgraph and matplotlib')

prop('C37', 'A fault of the hardware does not change the tuning that goes on after it',
     'If reading or setting the voltages or a measurement fails with an exception, the exception reaches the caller of the iteration, and once the iteration is repeated everything is as it would have been without the fault: '
     'the phase, the plan, the voltages of the experiment, the state of every tuner, solver, gradient estimator and evaluator, and all later evaluations and voltages, also if the hardware had carried out the failed command completely or partly.',
     ['fault_sequences', 'histories', 'inputs'], 'every place of the fault among the operations of every iteration, every effect of the failed command, all verdicts and values of the histories', 'The tests have no failing hardware.',
     ['autotuner.py', 'parameter_tuner.py', 'solver.py', 'gradient.py', 'evaluator.py'],
     [('Autotuner.iterate', 'autotuner.py'), ('SubsetTuner.is_tuned', 'parameter_tuner.py'), ('SensingDotTuner.is_tuned', 'parameter_tuner.py'), ('AveragingEvaluator.evaluate', 'evaluator.py')],
     ['Autotuner.iterate', 'to_hdf5'], 'ten hierarchies (step-limited Newton, Kalman, finite differences, Nelder-Mead, sensing dot, several and averaging evaluators, two groups), 5-12 iterations, one fault (thorough: 8-15 and two)')

prop('C38', 'Plots of raw data show the data, fits and marks of the chosen evaluation',
     'The plots of the raw data show exactly what the named evaluator measured and found in the chosen entry of the history, whatever was evaluated afterwards: the measured points (the mean of repetitions, without invalid ones) at their positions, the model of the evaluator with the fitted and with the initial arguments at the same positions, a mark at every transition or optimal position over the whole range of the data, an image with its rows and columns at their positions, and the last repetition of an averaging evaluator. '
     'plot_evaluator_data draws one figure per entry from start to before end and in it one axis per measurement of every requested evaluator, of all evaluators without names, and skips unknown names; a single axis, lists and arrays of axes are accepted; neither the data nor the arguments are changed.',
     ['inputs', 'histories'], 'all fit results, marks and data, every entry, every kind of evaluator and axes', 'No test draws anything.',
     ['history.py', 'util.py', 'gui.py'], [('History.plot_evaluator_data', 'history.py'), ('History.plot_single_evaluator_data', 'history.py'), ('plot_raw_data_fit', 'util.py'), ('plot_raw_data_vertical_marks', 'util.py'), ('plot_raw_data_2_dim_marks', 'util.py'), ('MeasurementDataWidget.refresh', 'gui.py')],
     ['History.append_autotuner'], '2 entries (thorough 3) of every kind of evaluator, scans of up to 13 points; the positions and models of scans are concrete, fit results and marks symbolic; symbolic runs draw on recorders, replays on the real matplotlib')



NOT_APPLICABLE = [
]

if __name__ == '__main__':
    import re
    have = set()
    for f in os.listdir(os.path.join(VERIF, 'harness')):
        if f.startswith('h_'):
            have |= set(re.findall(r"@harness\('(\w+)'", open(os.path.join(VERIF, 'harness', f)).read()))
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as out:
        for p, note in PROPS:
            assert len(p['title']) <= 80, p['title']
            out.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                   thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                   technique='symbolic execution of the real Python code with z3 deciding every claim; counterexamples replayed unpatched',
                   level='model_checking', level_note='bounds: ' + note + '; floats as exact reals with NaN cases')
              for p, note in PROPS if p['id'] in have]
    na = NOT_APPLICABLE + [dict(property=p['id'], reason='no check yet') for p, _ in PROPS if p['id'] not in have and p['id'] not in [n['property'] for n in NOT_APPLICABLE]]
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na),
              open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    print(len(PROPS), 'properties', len(checks), 'checks', [n['property'] for n in na])
