"""Texts of the properties."""
TEXTS = {}
NOT_APPLICABLE = {
    'N01': 'Convergence and calibration of estimates are statements about distributions of noise and trajectories of a '
           'nonlinear system; no static argument in reach bounds them. C01-C05 decide that the filter computes its equations.',
    'N02': 'The sign of the smallest eigenvalue after rounding depends on run-time magnitudes; there is no sound static bound '
           'for it here. C06 decides what the repair computes in exact arithmetic, and C04 the symmetry of the formula.',
    'N03': 'The differential equations are integrated by the thevenin library, which is neither part of the repository nor '
           'installed. A07 decides what is handed to it and read back.',
    'N04': 'How close an extracted or interpolated curve comes to the true one depends on the data and on library '
           'interpolation. H01 and A05 decide which data and which points the computation uses.',
    'N05': 'Whether the optimiser reaches a minimum depends on the landscape of the loss and on scipy. G02 and G03 decide '
           'which loss is minimised and that its result is returned.',
}


def prop(pid, title, statement, all_, why, files, mechanism, over=('inputs',)):
    assert len(title) <= 80, pid
    TEXTS[pid] = {'title': title, 'statement': ' '.join(statement.split()), 'all': all_, 'why': why, 'files': files,
                  'mechanism': mechanism, 'over': list(over)}


ECM = 'moirae/models/ecm/__init__.py'
COMP = 'moirae/models/ecm/components.py'
BASE = 'moirae/models/base.py'

prop('A01', 'Charge bookkeeping over a time step of the circuit model', '''
Over one time step the state of charge changes by the charge the current carries during the step, which is the previous
current held constant or the line between the previous and the new current, divided by the capacity in ampere-seconds
and scaled by the coulombic efficiency unless the cell was discharging at the start of the step. The charge in the series
capacitor changes by exactly that charge without the efficiency, and is absent from the new state when it was absent
from the old one.''',
     'every pair of inputs, state and set of health parameters, either assumed current shape',
     'tests compare a handful of currents and steps of one template; they never vary every parameter independently',
     [ECM], [('one time step', ECM + ':EquivalentCircuitModel.update_transient_state')], ('inputs', 'configurations'))

prop('A02', 'Currents through the RC elements', '''
Over one time step the current through each RC element decays with that element's own time constant, evaluated at the
previous state of charge and temperature, and is driven by the applied current: the new current held over the step, or
the line from the previous to the new current, in the exact solution of the element's differential equation. Every
element is updated, whatever their number, and a circuit without RC elements has none.''',
     'every number of RC elements, inputs, state, health parameters and assumed current shape',
     'tests use circuits of one or two elements at a few currents and mostly equal elements',
     [ECM, COMP], [('one time step', ECM + ':EquivalentCircuitModel.update_transient_state'),
                   ('time constant', COMP + ':RCComponent.time_constant')], ('inputs', 'configurations'))

prop('A03', 'Hysteresis relaxes towards the limit set by the current direction', '''
Over one time step the hysteresis voltage approaches the limit at the previous state of charge, positive while charging
and negative while discharging, exponentially in the absolute charge passed scaled by the hysteresis rate, the efficiency
and the capacity. If the current is assumed linear and changes sign, the approach is made towards the first limit until
the current crosses zero and towards the opposite limit for the remainder, and a cell at rest keeps its hysteresis.''',
     'every combination of current signs, magnitudes, step length, state, health parameters and current shape',
     'the branches depend on the signs of two currents and on the assumed shape; tests sample a few of them',
     [ECM, 'moirae/models/ecm/utils.py'],
     [('one time step', ECM + ':EquivalentCircuitModel.update_transient_state'),
      ('constant sign solution', 'moirae/models/ecm/utils.py:hysteresis_solver_const_sign')],
     ('inputs', 'configurations'))

prop('A04', 'The terminal voltage is the sum of every element of the circuit', '''
The predicted terminal voltage is the open circuit voltage, plus the new current times the series resistance, plus the
stored charge over the series capacitance if the circuit has one, plus the current of each RC element times its own
resistance, plus the hysteresis voltage. Every parameter is evaluated at the state of charge being measured and, where it
depends on temperature, at the temperature of the new inputs.''',
     'every number of RC elements, with or without series capacitor, inputs, state and health parameters',
     'tests compare totals for a few templates, where several contributions vanish or coincide',
     [ECM], [('voltage', ECM + ':EquivalentCircuitModel.calculate_terminal_voltage')], ('inputs', 'configurations'))

prop('A05', 'Laws of the circuit components', '''
A component with one value is constant over the state of charge and any other is interpolated, in the requested style and
with extrapolation, over its state-of-charge points or evenly spaced points over 0 to 1. Resistances decrease exponentially
with the temperature above their reference, the open circuit voltage shifts linearly by its entropic coefficient and
temperature above its reference, and without a temperature neither is corrected. Capacity is kept in ampere-hours and
exchanged in ampere-seconds, a time constant is resistance times capacitance, and the theoretical energy is the integral
of the open circuit voltage over the requested range of states of charge, in either order, times the capacity.'''.replace(
    'and without a temperature neither is corrected. Capacity', 'and without a temperature neither is corrected; capacity'),
     'every value, number of points, interpolation style, state of charge and temperature',
     'tests evaluate each law at a few points, mostly at the reference temperature',
     [COMP, 'moirae/models/ecm/utils.py', 'moirae/models/ecm/advancedSOH.py'],
     [('resistance', COMP + ':Resistance.get_value'), ('OCV', COMP + ':OpenCircuitVoltage.get_value'),
      ('interpolation', 'moirae/models/ecm/utils.py:SOCInterpolatedHealth.get_value'),
      ('energy', 'moirae/models/ecm/advancedSOH.py:ECMASOH.get_theoretical_energy')])

prop('B01', 'State vectors and arrays correspond field by field', '''
Converting a vector of named quantities to an array places every field that is present in the order of declaration, each
taking as many columns as it has values and repeated along the batch when others are batched, and filling it from an array
or a flat vector assigns exactly those columns back. Absent fields take no columns and stay absent, and the length,
expanded names and batch size describe that same layout. Fields whose batch sizes disagree are rejected.''',
     'every class of named quantities, every combination of absent, scalar and list fields, every batch size',
     'tests convert a few classes with particular field sizes; a shifted slice shows only for other sizes',
     [BASE], [('conversion', BASE + ':GeneralContainer.to_numpy'), ('filling', BASE + ':GeneralContainer.from_numpy'),
              ('names', BASE + ':GeneralContainer.expand_names')], ('inputs', 'configurations'))

prop('B02', 'Health parameters are read and written by name in the order requested', '''
Reading a list of parameter names returns their values side by side in that order, repeated along the batch where needed,
for names reaching into nested components, numbered collections and named collections. Writing the same names takes
consecutive columns of the same widths and changes those parameters and nothing else; without names both use all the
updatable parameters in order of declaration. A list which needs fewer or more values than provided is rejected, and the
number of values to update is the total of those widths.'''.replace(
    'in order of declaration. A list', 'in order of declaration, a list'),
     'every tree of parameters, every list of names, every number of values per parameter, every batch size',
     'tests use small trees with few names; errors in the running position show for other orders and sizes',
     [BASE], [('reading', BASE + ':HealthVariable.get_parameters'), ('writing', BASE + ':HealthVariable.update_parameters'),
              ('resolution', BASE + ':HealthVariable._get_model_chain')], ('inputs', 'configurations'))

prop('B03', 'Only parameters marked as updatable are listed for update or changed', '''
Writing a parameter is rejected unless it and every component on the way to it are marked as updatable. The default list
for reading, writing and counting holds exactly the parameters for which this is so, marking a parameter marks it and the
components on its way and nothing else, and marking all or fixing all acts on the whole tree, or on the top level only
when asked so.''',
     'every tree of parameters, every combination of marks, every list of names',
     'the number of combinations of marks is exponential in the tree; tests try a few',
     [BASE], [('guard', BASE + ':HealthVariable.update_parameters'), ('listing', BASE + ':HealthVariable.iter_parameters'),
              ('marking', BASE + ':HealthVariable.mark_updatable')], ('inputs', 'configurations', 'histories'))

prop('B04', 'Names of parameters follow their layout', '''
The names of health parameters are listed depth first in order of declaration with the path of fields, positions and keys
leading to each, and expanding names gives one name per value, the plain name for single values and a numbered name for
each member of a list. Expanding the name of a component or a collection gives those of everything it holds, in the order
in which it is listed.''',
     'every tree of parameters, every list of names, every number of values per parameter',
     'tests name particular parameters of particular classes',
     [BASE], [('listing', BASE + ':HealthVariable.iter_parameters'), ('expansion', BASE + ':HealthVariable.expand_names')],
     ('inputs', 'configurations'))

prop('B05', 'Copies made with new values leave the original unchanged', '''
Making a copy of a vector or a set of health parameters with new values gives an object holding those values in the
requested places and the same values elsewhere, and leaves every value and updatable mark of the original as it was. Batch
sizes of health parameters are checked over the whole tree, and values are stored as two-dimensional arrays with the
batch as their first dimension.''',
     'every object, every list of names and every array of values',
     'sharing between original and copy shows only when both are used afterwards in particular ways',
     [BASE], [('copy', BASE + ':HealthVariable.make_copy'), ('copy', BASE + ':GeneralContainer.make_copy')],
     ('inputs', 'histories'))

UKF = 'moirae/estimators/online/filters/kalman/unscented.py'
KU = 'moirae/estimators/online/filters/kalman/utils.py'
CONV = 'moirae/estimators/online/filters/conversions.py'
DIST = 'moirae/estimators/online/filters/distributions.py'

prop('C01', 'Weights and tuning of the unscented filter', '''
An unscented filter augments its state with the process and the sensor noise, and weighs its sigma points as the scaled
unscented transform does for its tuning parameters and that augmented length, so that the weights of the means add up to
one and only the first weight differs for covariances. It keeps the noise covariances and parameters it is given or the
documented defaults, and rejects parameters out of range (alpha from 0.001 to 1 and beta from 0 are allowed, ends
included), a state or noise whose dimensions do not fit the model, and
noise covariances which are not square.''',
     'every model, dimension and set of tuning parameters',
     'tests construct a few filters with default tuning, where wrong formulas for the weights coincide',
     [UKF], [('construction', UKF + ':UnscentedKalmanFilter.__init__'),
             ('weights', UKF + ':UnscentedKalmanFilter.mean_weights')], ('inputs', 'configurations'))

prop('C02', 'Sigma points of the unscented filter', '''
The sigma points are the augmented mean, whose noise parts are zero, followed by that mean plus and then minus the scaled
columns of the Cholesky factor of the joint covariance of state, process noise and sensor noise, after that covariance is
repaired. Breaking them up returns the columns of state, process noise and sensor noise in that order.''',
     'every state, noise covariance, tuning and dimension',
     'tests use diagonal covariances and equal dimensions, where a transposed factor or shifted slice does not show',
     [UKF], [('sigma points', UKF + ':UnscentedKalmanFilter.build_sigma_points'),
             ('split', UKF + ':UnscentedKalmanFilter._break_sigma_pts')], ('inputs',))

prop('C03', 'Prediction of states and measurements by the unscented filter', '''
Predicting evolves the state part of every sigma point from the previous to the new controls, adds the process noise,
predicts the measurement of the noisy states under the new controls and adds the sensor noise. The predicted state and
measurement have the weighted mean and covariance of these points and the cross covariance is taken between them, for any
model, including one which hands back the array it was given.''',
     'every model, set of sigma points, controls and tuning',
     'tests compare totals for a few models, with equal weights and independent noise',
     [UKF], [('prediction', UKF + ':UnscentedKalmanFilter.estimation_update'),
             ('moments', UKF + ':assemble_unscented_estimate_from_samples')], ('inputs',))

prop('C04', 'Correction of the state by a measurement', '''
Correcting moves the mean of the predicted state by the gain, the cross covariance times the inverse of the covariance of
the predicted measurement, times the measured minus the predicted measurement, and removes the gain times that covariance
times the transposed gain from its covariance, which is then repaired. The moments given are not changed.''',
     'every prediction, cross covariance and measurement of every dimension',
     'tests measure one quantity, for which transposes and the order of products do not matter',
     [UKF, KU], [('correction', UKF + ':UnscentedKalmanFilter.correction_update'),
                 ('gain', KU + ':calculate_gain_matrix')], ('inputs',))

prop('C05', 'A filter step predicts, corrects and then adopts the new controls', '''
A step predicts from the controls kept from the step before, corrects with the measurement, adopts the new controls and
returns the corrected state and the predicted measurement. What the caller does with the objects it gave at construction
or in a step, or with those it received, does not reach the filter, and a step leaves the controls and measurement it was
given as they are.''',
     'every filter, sequence of controls and measurements and use of the returned objects',
     'sharing shows only when a caller reuses its arrays; tests throw them away',
     [UKF, 'moirae/estimators/online/filters/base.py'], [('step', UKF + ':UnscentedKalmanFilter.step')],
     ('inputs', 'histories'))

prop('C06', 'Repair of covariance matrices', '''
A symmetric matrix with a Cholesky factor is returned as it is, and any other is replaced by the nearest positive
semi-definite symmetric matrix, the average of its symmetric part and the symmetric polar factor of its singular value
decomposition. The matrix given is never changed and the matrix returned is the caller's own.''',
     'every square matrix',
     'tests repair a few matrices and do not look at the sharing of results',
     [KU], [('repair', KU + ':ensure_positive_semi_definite'), ('projection', KU + ':enforce_positive_semi_defiteness')],
     ('inputs',))

prop('D01', 'Conversion operators and their expansions agree', '''
A linear conversion maps samples by its matrix and offset and back by the pseudo-inverse, or by its factor and its
reciprocal, and covariances by the same matrix on both sides without the offset. A conversion given by Jacobians maps
covariances by the Jacobian at the pivot on both sides, the absolute value acts on the selected columns alone with the
signs of the pivot as its Jacobian and returns converted samples unchanged, and the identity changes nothing. One value per
column stands for a diagonal matrix, shapes beyond these are rejected, and the arrays given are not changed.''',
     'every matrix, offset, selection of columns, sample array and covariance',
     'tests use small, symmetric or scalar operators, for which transposes and offsets can be exchanged',
     [CONV], [('linear', CONV + ':LinearConversionOperator'), ('Jacobian', CONV + ':FirstOrderTaylorConversionOperator'),
              ('absolute value', CONV + ':AbsoluteValueConversionOperator')], ('inputs', 'configurations'))

prop('D02', 'Distributions convert and combine by their moments', '''
Converting a distribution converts its mean as a sample and its covariance about its mean, in the direction asked for,
and combining distributions puts their means one after the other and their covariances on the diagonal in that order,
assuming independence. A value known exactly has zero covariance. Means which are not vectors, covariances which
are not square and those which do not fit the mean are rejected; no operation changes the distributions it is given, and
what is returned does not share moments with them.''',
     'every distribution, number of distributions combined and conversion',
     'tests combine a few distributions of equal size and convert with symmetric operators',
     [DIST], [('conversion', DIST + ':MultivariateGaussian.convert'),
              ('combination', DIST + ':MultivariateGaussian.combine_with')], ('inputs',))

WRAP = 'moirae/estimators/online/utils/model.py'
ONLINE = 'moirae/estimators/online/__init__.py'
JOINT = 'moirae/estimators/online/joint.py'
DUAL = 'moirae/estimators/online/dual.py'

prop('E01', 'Wrapped models compute what the models they wrap compute', '''
A wrapped model converts states and controls from the coordinates of the filter, calls the cell model with the previous
and new controls in their places, and converts the result back; its dimensions are those of the states it estimates. The
joint wrapper keeps the transient states before the selected health parameters, in their given order, and ages the latter
with the degradation model, while the degradation wrapper predicts measurements after a transient step from the controls
before. Templates, arguments and results share no data, and templates with a batch are rejected.''',
     'every cell model, degradation model, conversion, selection of parameters and batch of states',
     'tests wrap one circuit with trivial conversions, for which an omitted or doubled conversion has no effect',
     [WRAP], [('transient wrapper', WRAP + ':CellModelWrapper'), ('health wrapper', WRAP + ':DegradationModelWrapper'),
              ('joint wrapper', WRAP + ':JointCellModelWrapper')], ('inputs', 'configurations'))

prop('E02', 'The joint estimator reports its filter in model coordinates', '''
The joint estimator passes inputs and measurements to its filter in the coordinates of the filter and reports the
corrected state, the predicted measurement and its current state in those of the model. Its estimates are the transient
states and health parameters that this state stands for, the names of its states are those of the transient states
followed by the selected parameters, and later changes to the objects it was made from do not reach it. Filters with
another kind of model and templates with a batch are rejected.''',
     'every filter, conversion, selection of parameters and sequence of inputs and measurements',
     'tests use few conversions and compare estimates loosely',
     [JOINT, ONLINE], [('step', JOINT + ':JointEstimator.step'), ('state', JOINT + ':JointEstimator.state'),
                       ('names', ONLINE + ':OnlineEstimator.state_names')], ('inputs', 'configurations', 'histories'))

prop('E03', 'The dual estimator exchanges the estimates of its two filters', '''
In a step of the dual estimator both filters receive the inputs and measurements in their own coordinates, the transient
filter works with the health estimated before the step, and the health filter with the transient state estimated before
the step. State, estimates and results put the transient part before the health part, independent of each other and in
model coordinates; the predicted measurement is that of the transient filter. Filters with other kinds of models are
rejected.''',
     'every pair of filters, conversion, selection of parameters and sequence of inputs and measurements',
     'an exchange with the wrong timing or conversion changes estimates slightly; tests use loose tolerances',
     [DUAL], [('step', DUAL + ':DualEstimator.step'), ('state', DUAL + ':DualEstimator.state')],
     ('inputs', 'configurations', 'histories'))

prop('E04', 'Estimators start from the given quantities in filter coordinates', '''
The constructors of joint and dual estimators start their filters from the given transient states, health parameters and
inputs with the given covariances, converted to the coordinates of the filter; process and sensor noise are converted in
the same way. Covariances given in parts are joined with the transient part first, an omitted noise is the default of the
filter, tuning parameters reach their filter, and normalising divides each updatable parameter by its initial value unless
that is zero, and no transient state.''',
     'every combination of given and omitted quantities, tuning and conversions',
     'tests pass a few combinations with scalar covariances and no conversion',
     [JOINT, DUAL], [('joint', JOINT + ':JointEstimator.initialize_ukf_from_wrapper'),
                     ('dual', DUAL + ':DualEstimator.initialize_ukf_from_wrappers')], ('inputs', 'configurations'))

IFACE = 'moirae/interface/__init__.py'
H5 = 'moirae/interface/hdf5.py'

prop('F01', 'Running an estimator over a data set gives one row of estimates per record', '''
The inputs and measurements of a record are its time, current, temperature (or a default when it is absent or not finite)
and voltage. A run steps the estimator once for every record after the first, in order, with those of that record, and its
table has one row per record: means and standard deviations of states and of outputs under their names, from the result of
that step; the first row holds the initial state, without outputs. The same estimator is returned, rows are the same from
memory and from file, and data without records are refused.''',
     'every data set, of any length, with or without temperature, from memory or file, and every estimator',
     'tests run short data sets and check columns and shapes; a row shifted or paired with another record passes them',
     [IFACE], [('record', IFACE + ':row_to_inputs'), ('run', IFACE + ':run_online_estimate')],
     ('inputs', 'configurations', 'histories'))

prop('F02', 'Estimates read from a file are the ones stored in it', '''
Reading yields, in order, every stored row whose time is not missing: its time and the distributions of states and outputs
made from the values stored under their prefix, of the kind matching what was stored (means only, means with covariances,
means with variances on the diagonal, or everything), per timestep or per cycle as asked. A file given by its path is
closed at the end or on an error; groups given are left open. Files without estimates, levels at which nothing was
written, another distribution type than the stored one and unknown kinds are refused.''',
     'every file or group, stored kind, level and number of rows',
     'tests write and read a short run in the default modes',
     [H5], [('reading', H5 + ':read_state_estimates')], ('inputs', 'configurations'))

prop('F03', 'Estimates are written in place, once, growing the file as needed', '''
Entering a writer opens the file, or uses the given group, finds or makes the group for estimates and starts at position
zero; leaving it closes what it opened, and an unopened writer refuses to write. Preparation describes estimator and
settings, refuses existing data and missing sizes of fixed-size files, and creates a data set filled with missing values for
each stored quantity. Each step writes time, states and outputs at the next position and, unless that cycle already has an
entry, at its cycle number, growing data sets that are too short. A run writes every step this way.''',
     'every kind of stored information, size, position, cycle order, run and place to write',
     'tests write short runs with ordered cycles into files which are large enough',
     [H5, IFACE], [('opening', H5 + ':HDF5Writer.__enter__'), ('preparation', H5 + ':HDF5Writer.prepare'),
                   ('one step', H5 + ':HDF5Writer.append_step'), ('run', IFACE + ':run_online_estimate')],
     ('inputs', 'configurations', 'histories'))

SIM = 'moirae/simulator.py'
LOSS = 'moirae/estimators/offline/loss.py'
SCIPY = 'moirae/estimators/offline/scipy.py'
EXTR = 'moirae/extractors/ecm.py'

prop('G01', 'A simulation advances state, then output, then health, and records every step', '''
The simulator starts from copies of the given health, state and inputs and the output the model gives for them. A step
advances the state from the previous inputs to the new ones with the current health, takes the output from the new state,
hands the new inputs, state and output to the degradation model for the next health (without one, health stays as it is),
and keeps the new inputs for the next step. A run is one step per input, in order. When a history is kept, each list has the
start followed by one entry per step, tables have one row per time and batch member, labelled with its member, and data
sets hold the rows of one member each; tables of a simulation without history are refused.''',
     'every cell and degradation model, state, health, batch size and sequence of inputs',
     'tests run one model a few steps with one or two members and check shapes and names of columns',
     [SIM, 'moirae/models/utils.py'], [('step', SIM + ':Simulator.step'), ('table', SIM + ':Simulator.to_dataframe'),
                                       ('data sets', SIM + ':Simulator.to_batdata')],
     ('inputs', 'configurations', 'histories'))

prop('G02', 'The loss of parameters is the error of the simulation they describe', '''
The starting guess is the initial state followed by the updatable health parameters. The loss of a batch of parameters
reads states from the first columns and health from the rest, simulates the cell model from the first record with the
inputs of every later record, in order, and gives for each member of the batch the mean, over records and outputs, of the
squared difference between what was measured and what is predicted at the same record, the first one included. Evaluating a
loss changes neither its initial guesses nor its data.''',
     'every cell model, data set, batch of parameters, and set of updatable parameters',
     'tests check that the loss is small at the right parameters of a short data set',
     [LOSS], [('starting guess', LOSS + ':BaseLoss.get_x0'), ('loss', LOSS + ':MeanSquaredLoss.__call__')],
     ('inputs', 'configurations', 'histories'))

prop('G03', 'The minimiser minimises the given loss and returns its result', '''
The optimizer starts from the starting guess of the loss and is given, with the options chosen by the user, the loss of
one parameter vector divided by the size of the loss at that guess (never by zero, and never changing sign). The state
and the health returned are copies of those of the loss, with values from the first and remaining entries of the result, which
is returned too.''',
     'every loss, option of the optimizer and result it can return',
     'tests minimise one loss from one guess',
     [SCIPY], [('estimation', SCIPY + ':ScipyMinimizer.estimate')], ('inputs', 'configurations'))

prop('H01', 'Parameters are extracted from the data as documented, leaving the data alone', '''
The capacity extracted is the largest charge capacity of all cycles, computed first when it is missing. A voltage curve is
fitted to the measurements ordered by the state of charge that the assumed capacity gives them, weighted by the inverse of
the current (bounded from below) normalised to a sum of one, with knots at the inner grid points, and evaluated at all grid
points; the component returned has these values at these points with the chosen interpolation. Grid points and capacity may
be given directly, or as a number of points and as a component. Data without measurements, or which sample less of the
capacity than required, are refused by the check. The data set keeps its columns and the grid its points.''',
     'every data set, capacity, grid and requirement', 'tests extract from one simulated cycle',
     [EXTR], [('capacity', EXTR + ':MaxCapacityExtractor.extract'), ('curve', EXTR + ':OCVExtractor.interpolate_ocv'),
              ('refusal', EXTR + ':OCVExtractor.check_data')], ('inputs', 'configurations'))


prop('A06', 'Templates describe the circuit asked for, with its own parts', '''
A template of a circuit has the number of RC elements asked for, the series capacitor when asked for or given, and the
values given by the caller; what is not given has the documented defaults, among them a capacitor sized by the capacity and
the same open circuit voltage curve over the state of charge. Elements of one template are separate objects. A list of
elements of another length than requested is refused. A template of a state has one current for each RC element, given one
by one or repeated, and a charge of the capacitor only if the circuit has one.''',
     'every number of RC elements, combination of given and omitted values',
     'tests ask for a few templates and check that they can be simulated',
     ['moirae/models/ecm/advancedSOH.py', 'moirae/models/ecm/transient.py', 'moirae/models/ecm/utils.py'],
     [('circuit', 'moirae/models/ecm/advancedSOH.py:ECMASOH.provide_template'),
      ('state', 'moirae/models/ecm/transient.py:ECMTransientVector.provide_template')], ('inputs', 'configurations'))

THEV = 'moirae/models/thevenin/__init__.py'

prop('A07', 'The Thevenin adapter hands every quantity over and reads every one back', '''
Each batch member is solved by a model of the Thevenin package which has that member's state of charge, overpotentials,
capacity, thermal parameters, surrounding temperature, and functions of that member for the open circuit voltage, the series
resistance and every RC element, members of smaller batches being repeated. The step lasts from the previous to the new
time with the new current, whose sign is reversed between the packages, and the new state holds the last state of charge,
temperature and overpotentials of the solution. The voltage is that of the curve plus the drop over the series resistance
less all overpotentials. Polynomials are evaluated over the whole batch or for one member alike, and a circuit has one more
resistance than capacitances.''',
     'every number of RC elements, inputs, state, health parameters and batch sizes',
     'the package is not installed in most places, and tests use circuits of one or two elements and one batch size',
     [THEV, 'moirae/models/thevenin/components.py', 'moirae/models/thevenin/state.py'],
     [('step', THEV + ':TheveninModel.update_transient_state'), ('parameters', THEV + ':TheveninModel._make_models'),
      ('voltage', THEV + ':TheveninModel.calculate_terminal_voltage')], ('inputs', 'configurations'))

prop('B06', 'Every field of a container survives being written as JSON', '''
Each field of each class of health parameters and of named quantities has a type whose JSON form is read back as the same
value: numbers, text, flags, other containers, collections of these, and arrays that are written as lists and read as arrays
of the same dimensions. No field is left out, renamed between writing and reading, or declared so widely that part of what
it holds is lost.''',
     'every field of every container class',
     'tests write and read two classes with particular values',
     [BASE, 'moirae/models/ecm/utils.py', 'moirae/models/thevenin/state.py'],
     [('encoder', BASE + ':_encode_ndarray'), ('decoder', BASE + ':enforce_dimensions')], ('configurations', 'inputs'))

CONV = 'moirae/estimators/online/filters/conversions.py'
prop('X01', 'Computing something leaves what it is computed from as it was', '''
Evaluating a component, advancing a state, predicting a voltage, reading values or names, transforming and combining
distributions, predicting with a filter or a wrapper, setting up an estimator, evaluating a loss, estimating, extracting
parameters, tabulating a history, reading a file, and making circuits change neither the objects and arrays given to them,
nor anything those hold, nor the object asked, other than values it keeps in order not to compute them again. Methods
which exist to change their object are the only exception.''',
     'every call of every operation which is not meant to change its object',
     'tests look at results; that an argument changed shows only when it is used again, in another batch or another order',
     [ECM, COMP, BASE, 'moirae/estimators/online/utils/model.py', CONV, 'moirae/estimators/offline/loss.py'],
     [('time step', ECM + ':EquivalentCircuitModel.update_transient_state'),
      ('wrapper', 'moirae/estimators/online/utils/model.py:JointCellModelWrapper.update_hidden_states'),
      ('conversion', CONV + ':AbsoluteValueConversionOperator.transform_samples'),
      ('loss', 'moirae/estimators/offline/loss.py:MeanSquaredLoss.__call__')], ('inputs', 'configurations', 'histories'))

prop('X02', 'The same inputs give the same results', '''
What the package computes is determined by its arguments and by what the objects involved hold: it does not use random
numbers, clocks, the environment or addresses of objects, does not take the members of a set in the order in which it happens
to hold them when that order shows, does not keep state that different objects or calls have in common (module variables,
class attributes, default values), and does not keep computed values whose origin can change.''',
     'every function of the package, in every process and after every earlier call',
     'a test compares one run with one expectation in one process; order of sets and shared state show between processes '
     'and between tests', [BASE, 'moirae/estimators/online/__init__.py', 'moirae/simulator.py'],
     [('names of parameters', BASE + ':HealthVariable.iter_parameters'),
      ('cached values', 'moirae/estimators/online/filters/kalman/unscented.py:UnscentedKalmanFilter.mean_weights'),
      ('shared defaults', 'moirae/simulator.py:Simulator.__init__')], ('histories', 'configurations'))

prop('X03', 'Objects do not share state with what they were made from or returned', '''
Changing in place the health parameters, states, inputs or arrays given to a simulator, loss, wrapper, filter or
estimator after it is made, or after a step, does not change what it holds; changing what it holds does not change what
was given or what was recorded before; and the same holds for arrays which fill containers or parameters, for arrays read
from them, for copies, at every depth, and for states and estimates returned by steps.''',
     'every object, at every depth of nested components, changed in any way at any later time',
     'tests rarely change an object after handing it over; aliasing shows only when both sides are used later',
     [BASE, 'moirae/simulator.py', 'moirae/estimators/online/utils/model.py', 'moirae/estimators/online/__init__.py'],
     [('copies', BASE + ':GeneralContainer.make_copy'), ('filling', BASE + ':GeneralContainer.from_numpy'),
      ('simulator', 'moirae/simulator.py:Simulator.__init__'),
      ('wrapper', 'moirae/estimators/online/utils/model.py:BaseCellWrapper.__init__')],
     ('histories', 'configurations'))

prop('X04', 'Implementations fit their interfaces, and calls fit what they call', '''
Every class which implements or extends an interface of the package takes every call the interface allows: the same
arguments by position and by name, with nothing required that the interface lets callers omit, properties where it has
properties; it implements everything the interface leaves open. Every call inside the package fits the signature of what it
calls, and no named value given to a container is dropped because no field has that name.''',
     'every class, method and call of the package',
     'Python checks a call when it is made; tests make some of the calls an interface allows',
     ['moirae/models/base.py', 'moirae/estimators/online/filters/base.py', 'moirae/extractors/base.py', CONV],
     [('models', BASE + ':CellModel'), ('filters', 'moirae/estimators/online/filters/base.py:BaseFilter'),
      ('extractors', 'moirae/extractors/base.py:BaseExtractor'), ('conversions', CONV + ':ConversionOperator')],
     ('configurations',))

prop('A08', 'Cells of a batch do not influence one another', '''
When the health parameters, the states, or single ones of their fields hold a batch, advancing the circuit model and
predicting its voltage give one row per cell, and each row is computed from that row of every batched quantity and the only
row of every other, exactly as for that cell on its own; inputs may be batched too for the voltage. A component evaluated
at a batch of states of charge gives one value per row of parameters, row of states of charge and state of charge, and the
theoretical energy is one row per cell. This holds for every number of RC elements and of interpolation points.''',
     'every choice of batched quantities, number of RC elements and of points, every branch of the model',
     'tests batch one quantity of one template; a transposed axis shows only where two sizes differ or agree',
     [ECM, COMP, 'moirae/models/ecm/utils.py', 'moirae/models/ecm/advancedSOH.py'],
     [('one time step', ECM + ':EquivalentCircuitModel.update_transient_state'),
      ('voltage', ECM + ':EquivalentCircuitModel.calculate_terminal_voltage'),
      ('interpolation', 'moirae/models/ecm/utils.py:SOCInterpolatedHealth.get_value')], ('inputs', 'configurations'))

prop('N01', 'Estimates converge to the true state with honest uncertainty', '''
Running an estimator on data produced by the model it uses brings the estimated states and parameters to the true ones, and
the reported covariance covers the remaining error as often as it claims.''',
     'every observable model, noise level and initial guess', 'tests run a few seeded simulations',
     ['moirae/estimators/online/filters/kalman/unscented.py'],
     [('filter', 'moirae/estimators/online/filters/kalman/unscented.py:UnscentedKalmanFilter.step')], ('histories',))

prop('N02', 'Covariances stay positive semi-definite in floating point', '''
However many steps a filter makes, no covariance it reports has a negative eigenvalue beyond rounding.''',
     'every history of steps', 'tests make a few hundred well-conditioned steps',
     ['moirae/estimators/online/filters/kalman/utils.py'],
     [('repair', 'moirae/estimators/online/filters/kalman/utils.py:ensure_positive_semi_definite')], ('histories',))

prop('N03', 'The Thevenin model solves the equations of its circuit', '''
The state after a step and the voltage of the Thevenin model are those of the electrical and thermal equations of the
circuit, within the tolerance of the integration.''',
     'every circuit, state, step and load', 'tests compare a few currents with Ohm\'s law',
     ['moirae/models/thevenin/__init__.py'],
     [('integration', 'moirae/models/thevenin/__init__.py:TheveninModel.update_transient_state')])

prop('N04', 'Extracted parameters are close to those of the cell', '''
The open circuit voltage and capacity extracted from cycling data are close to those of the cell which was
cycled.''',
     'every cell and reference performance test', 'tests use one data set with a wide tolerance',
     ['moirae/extractors/ecm.py'], [('extraction', 'moirae/extractors/ecm.py:OCVExtractor.extract')])

prop('N05', 'Offline fitting finds the parameters which minimise the loss', '''
The parameters returned by the offline estimators are a minimum of the loss over the allowed range.''',
     'every data set, loss and starting point', 'tests fit one simulated data set from one starting point',
     ['moirae/estimators/offline/scipy.py'], [('minimisation', 'moirae/estimators/offline/scipy.py:ScipyMinimizer.estimate')])
