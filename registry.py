"""Which obligations decide which property."""

ASSUMPTIONS = [
    'floating point numbers are treated as real numbers',
    'library functions (numpy, scipy, h5py, pandas, pydantic) behave as documented',
]

ECM = {'scalar': True, 'opaque': {
    'SOCInterpolatedHealth.get_value', 'Resistance.get_value', 'RCComponent.time_constant',
    'OpenCircuitVoltage.get_value', 'HealthVariable.get_value'}}
ONE_CELL = ['cells of a batch are independent: arrays over the batch are read as one representative value']


def jobs(spec, names, opts=None, seconds=120):
    return [(spec, n, dict(opts or {}), seconds) for n in names.split()]


def rules(module, names, opts=None, seconds=120):
    return [(module, n, dict(opts or {}, rule=True), seconds) for n in names.split()]


SCALAR = {'scalar': True}
FULL = {'opaque': set()}
CONT = {'opaque': {'GeneralContainer.batch_size'}}
HEALTH = {'opaque': {'HealthVariable.batch_size'}}
ALWAYS = {'raises': 'always'}
VALID = {'validators': True}
INVALID = {'validators': True, 'raises': 'always'}
RAISES = {'opaque': set(), 'raises': 'always'}

FILES = {'effects': True, 'raises': 'none'}
WRITES = {'effects': True, 'raises': 'exact'}
FILE_READS = ['what is read from a file does not depend on the calls made on it earlier in the same function',
              'calls on different members of a file can be exchanged']


def pure(spec, names, opts=None, seconds=120):
    return jobs(spec, names, dict(opts or {}, frame='only'), seconds)


PROPERTIES = {
    'A01': {
        'jobs': jobs('specs.ecm', 'soc q0', ECM),
        'explanation': 'The stored charge after one step is compared with the integral of the current over the step, '
                       'as value graphs over the previous inputs, new inputs, state and health',
        'assumptions': ONE_CELL,
    },
    'A02': {
        'jobs': jobs('specs.ecm', 'rc', ECM),
        'explanation': 'The current through every RC element after one step is compared, for an arbitrary number of '
                       'elements, with the exact response to a constant or a linear current',
        'assumptions': ONE_CELL,
    },
    'A03': {
        'jobs': jobs('specs.ecm', 'hyst hyst_rest', ECM),
        'explanation': 'The hysteresis voltage after one step is compared with an exponential approach to the '
                       'signed limit through the absolute charge passed, in every combination of current signs',
        'assumptions': ONE_CELL,
    },
    'A04': {
        'jobs': jobs('specs.ecm', 'voltage', ECM),
        'explanation': 'The predicted terminal voltage is compared with the sum of the contributions of every element',
        'assumptions': ONE_CELL,
    },
    'A05': {
        'jobs': jobs('specs.components', 'capacity_units capacity_set resistance resistance_no_temp rc ocv ocv_no_temp '
                     'energy interpolation interpolation_even constant', SCALAR),
        'explanation': 'The value returned by every component is compared with its law; the interpolation itself is '
                       'compared up to the arguments given to the library',
        'assumptions': ONE_CELL,
    },
    'B01': {
        'jobs': jobs('specs.containers', 'to_array ecm_state ecm_inputs from_array length', CONT) +
        jobs('specs.containers', 'from_vector names some_names field_order batch_size', FULL) +
        jobs('specs.containers', 'uneven_batch uneven_batch_reversed', RAISES) + rules('layout', 'vectors'),
        'explanation': 'The conversions inherited by a class with one field of every kind and by the classes of the '
                       'circuit model are compared, for unknown widths and batch sizes, with the layout, and followed '
                       'value by value for vectors of known sizes',
    },
    'B02': {
        'jobs': jobs('specs.health', 'read read_table read_nothing read_default', HEALTH) +
        jobs('specs.health', 'write write_vector write_default count set_value '
             'write_deep', FULL) + rules('layout', 'reading writing setting listing'),
        'explanation': 'Reading and writing through a tree with one attribute of every kind is compared, for unknown '
                       'widths, batch sizes and marks, with the values and positions the names stand for; and followed '
                       'value by value for deeper trees of known sizes',
    },
    'B03': {
        'jobs': jobs('specs.health', 'write_fixed write_fixed_parent', RAISES) +
        jobs('specs.health', 'listing_updatable mark mark_top fix fix_top mark_all mark_all_sets mark_all_top write '
             'write_default fix_deep mark_deep mark_all_deep', FULL) + rules('layout', 'listing fixed marking writing'),
        'explanation': 'Listing, writing and marking are compared, for every combination of marks, with the rule that a '
                       'parameter counts when it and everything on the way to it is marked',
    },
    'B04': {
        'jobs': jobs('specs.health', 'listing listing_flat listing_names expand expand_whole expand_collection '
                     'listing_deep', FULL) + rules('layout', 'listing expanding'),
        'explanation': 'The names listed and expanded for a tree with one attribute of every kind are compared with '
                       'the declared layout, for unknown widths',
    },
    'B05': {
        'jobs': jobs('specs.health', 'copy copy_top copy_inner batch_size', FULL) +
        jobs('specs.health', 'uneven uneven_nested', RAISES) + jobs('specs.containers', 'make_copy', CONT) +
        rules('layout', 'copying rows_of_all dimensions vectors setting'),
        'explanation': 'The values and marks of original and copy after a copy are compared with those expected',
    },
    'C01': {
        'jobs': jobs('specs.ukf', 'length weights cov_weights weights_apart spread setup default_setup tuning_defaults') +
        jobs('specs.ukf', 'edges', {'raises': 'none'}) +
        jobs('specs.ukf', 'wide narrow negative_beta negative_kappa wrong_state wrong_noise wrong_noise_shape '
             'wrong_sensor wrong_sensor_shape', ALWAYS),
        'explanation': 'The attributes of a filter after construction are compared with the scaled unscented transform, '
                       'for unknown dimensions and tuning; every construction outside the rules must reach a raise',
    },
    'C02': {
        'jobs': jobs('specs.ukf', 'sigma split'),
        'explanation': 'The sigma points are compared, as block matrices of unknown dimensions, with the mean and the '
                       'columns of the Cholesky factor added to and subtracted from it',
    },
    'C03': {
        'jobs': jobs('specs.ukf', 'moments prediction direct direct_cross direct_points'),
        'explanation': 'The predicted moments of states and measurements are compared with the weighted moments of the '
                       'sigma points passed through an arbitrary model; once more with a model which hands back its '
                       'own input, where in-place operations on the result become visible',
    },
    'C04': {
        'jobs': jobs('specs.ukf', 'gain correction correction_inputs'),
        'explanation': 'The corrected state is compared with the Kalman update of the given moments',
    },
    'C05': {
        'jobs': jobs('specs.ukf', 'step step_isolated step_isolated_inside step_inputs start_isolated'),
        'explanation': 'The state, inputs and outputs of the filter after a step are compared with prediction followed '
                       'by correction, and the arguments of the step with their values before',
    },
    'C06': {
        'jobs': jobs('specs.ukf', 'psd psd_pure nearest'),
        'explanation': 'The repaired covariance is compared with the projection; the input must be the same node '
                       'before and after',
    },
    'D01': {
        'jobs': jobs('specs.conversions', 'identity factor matrix taylor abs abs_some abs_some_vector abs_pure') +
        jobs('specs.conversions', 'linear', {'pseudo': True}) +
        jobs('specs.conversions', 'diagonal', VALID) + jobs('specs.conversions', 'bad_offset bad_matrix', INVALID) +
        rules('layout', 'linear_maps'),
        'explanation': 'Conversions of samples and covariances, forwards and backwards, are compared with the affine '
                       'map, its first-order expansion and the absolute value for arrays of unknown size',
    },
    'D02': {
        'jobs': jobs('specs.conversions', 'gaussian_convert delta_convert gaussian_combine delta_combine moments '
                     'moments_isolated combine_isolated gaussian_fields') +
        jobs('specs.conversions', 'column_mean column_gaussian flat_covariance wrong_covariance', INVALID) +
        rules('layout', 'distributions'),
        'explanation': 'Converting and combining distributions is compared with the moments of the converted and the '
                       'stacked variables, for any number of distributions of unknown dimension',
    },
    'E01': {
        'jobs': jobs('specs.wrappers', 'cell_update cell_measure deg_update deg_measure joint_pack joint_unpack '
                     'joint_measure joint_update cell_setup joint_setup deg_setup cell_pure joint_pure deg_pure '
                     'deg_predict_twice deg_first plain_pure '
                     'known uncertain') + jobs('specs.wrappers', 'batched_health batched_state', ALWAYS),
        'explanation': 'What the wrapped models compute is compared with the calls of the cell and degradation model '
                       'they stand for, for arbitrary models, conversions and numbers of states',
    },
    'E02': {
        'jobs': jobs('specs.online', 'joint_state joint_estimate joint_step joint_own names names_none names_some apart') +
        jobs('specs.online', 'joint_model batched batched_health', ALWAYS),
        'explanation': 'States, names, estimates and steps of the joint estimator are compared with those of its filter '
                       'in the coordinates of the model, for an arbitrary filter and arbitrary conversions',
        'assumptions': ['a step of a filter does not exchange its model'],
    },
    'E03': {
        'jobs': jobs('specs.online', 'dual_state dual_estimate dual_step dual_exchange dual_own') +
        jobs('specs.online', 'dual_transient_model dual_health_model', ALWAYS),
        'explanation': 'States, estimates and steps of the dual estimator are compared with those of its two filters, '
                       'and what its wrappers hold during the step with the estimates before it',
        'assumptions': ['a step of a filter does not exchange its model'],
    },
    'E04': {
        'jobs': jobs('specs.online', 'joint_start joint_parts joint_preferred dual_one_noise dual_other_noise joint_one_noise joint_other_noise joint_tuning '
                     'joint_uncertain joint_normal joint_plain joint_forward dual_start dual_defaults dual_tuning '
                     'dual_normal dual_plain dual_forward dual_normal_state'),
        'explanation': 'The filters set up by the constructors are compared with the given quantities converted to the '
                       'coordinates of the filter, for every combination of given and omitted covariances',
    },
    'F01': {
        'jobs': jobs('specs.interface', 'row run run_file run_estimator nan_without_output', {'raises': 'none'}) +
        jobs('specs.interface', 'no_data', ALWAYS),
        'explanation': 'The table of estimates is compared, for a data set of any length, with one built from the '
                       'estimates after every row, in order; the loop of the code is read as one symbolic iteration',
    },
    'F02': {
        'jobs': jobs('specs.interface', 'read_mean read_cov read_var read_full read_file read_path missing_group '
                     'refusal_closes',
                     FILES) +
        jobs('specs.interface', 'read_wrong_type read_nothing read_unknown', ALWAYS),
        'explanation': 'The stream of estimates read back, and the order of calls made on the file, are compared with '
                       'a contract for every kind of stored information',
        'assumptions': FILE_READS,
    },
    'F03': {
        'jobs': jobs('specs.interface', 'enter exit ready append_step append_cycle append_both prepare prepare_other run_writer run_cycles '
                     'run_path', WRITES) +
        jobs('specs.interface', 'unready_prepare unready_append', ALWAYS),
        'explanation': 'The calls made on the file, their order and their arguments are compared with a contract, for '
                       'every mode, position, cycle and size',
        'assumptions': FILE_READS,
    },
    'G01': {
        'jobs': jobs('specs.offline', 'start start_plain step history evolve table datasets no_degradation', {}) +
        jobs('specs.offline', 'no_history', ALWAYS),
        'explanation': 'A step, a run, what is recorded and the tables made of it are compared with a contract written '
                       'over abstract cell and degradation models',
        'assumptions': [],
    },
    'G02': {
        'jobs': jobs('specs.offline', 'x0 loss', {}),
        'explanation': 'The loss is compared with a contract which simulates every record after the first, over an '
                       'abstract cell model and data set',
        'assumptions': FILE_READS,
    },
    'G03': {
        'jobs': jobs('specs.offline', 'guess', {}),
        'explanation': 'The call to the optimizer, the function it is given and the use of its result are compared with '
                       'a contract over an abstract loss',
        'assumptions': ['scipy.optimize.minimize only calls the function it is given'],
    },
    'H01': {
        'jobs': jobs('specs.extract', 'capacity grid points curve ocv', {}) +
        jobs('specs.extract', 'check', WRITES),
        'explanation': 'The quantities computed from the data, the arguments of the spline and the refusals are compared '
                       'with a contract over an abstract data set',
        'assumptions': FILE_READS,
    },
    'A06': {
        'jobs': jobs('specs.templates', 'curve plain given capacitor elements given_elements own_elements state currents '
                     'rest', FULL) + jobs('specs.templates', 'uneven uneven_currents', ALWAYS),
        'explanation': 'The circuits and states made by templates are compared field by field with a contract, for '
                       'unknown values and numbers of elements',
        'assumptions': [],
    },
    'A07': {
        'jobs': jobs('specs.thevenin', 'voltage soc_curve soc_member temp_curve temp_member rest circuits advance', {}) +
        jobs('specs.thevenin', 'uneven', {'validators': True, 'raises': 'exact'}),
        'explanation': 'The parameters and steps handed to the Thevenin package, what is read from its solution and the '
                       'voltage are compared with a contract, for unknown batches and numbers of elements',
        'assumptions': ['the Thevenin package does not change the parameters it is given'],
    },
    'B06': {
        'jobs': jobs('specs.codec', 'list scalar pinpoints', VALID) + rules('codec', 'fields'),
        'explanation': 'For every field of every container class, the declared type is followed to its members and must '
                       'have a JSON form which reading inverts; the array encoders are compared with their decoders',
        'assumptions': ['JSON keeps finite numbers exactly'],
    },
    'X01': {
        'jobs': pure('specs.ecm', 'soc rc hyst voltage', ECM) +
        pure('specs.components', 'capacity_units resistance resistance_no_temp rc ocv ocv_no_temp energy interpolation '
             'constant', SCALAR) +
        pure('specs.containers', 'to_array ecm_state ecm_inputs length', CONT) +
        pure('specs.containers', 'from_vector names some_names field_order batch_size', FULL) +
        pure('specs.health', 'read read_table read_nothing read_default', HEALTH) +
        pure('specs.health', 'count listing_updatable listing listing_flat listing_names expand expand_whole '
             'expand_collection batch_size listed listed_vector scalar', FULL) +
        pure('specs.ukf', 'length split moments prediction direct direct_points gain psd psd_pure nearest') +
        pure('specs.conversions', 'identity matrix taylor abs abs_some abs_some_vector abs_pure gaussian_convert '
             'delta_convert gaussian_combine delta_combine moments moments_isolated combine_isolated gaussian_fields') +
        pure('specs.wrappers', 'cell_update cell_measure joint_pack joint_unpack joint_measure joint_update cell_setup '
             'joint_setup deg_setup cell_pure joint_pure known uncertain') +
        pure('specs.online', 'joint_state joint_estimate names names_none names_some dual_state dual_estimate joint_start '
             'joint_parts joint_one_noise joint_other_noise joint_tuning joint_uncertain joint_normal joint_plain '
             'dual_start dual_defaults dual_tuning dual_normal dual_plain dual_normal_state') +
        pure('specs.interface', 'row run read_mean read_cov read_var read_full') +
        pure('specs.offline', 'start start_plain evolve table datasets no_degradation x0 loss guess') +
        pure('specs.extract', 'capacity grid points curve ocv check') +
        pure('specs.templates', 'curve given given_elements currents rest', FULL) +
        pure('specs.thevenin', 'voltage soc_curve soc_member temp_curve temp_member rest circuits advance'),
        'explanation': 'What is reachable from the arguments after every operation is compared, heap cell by heap cell, '
                       'with what is reachable after a contract which changes nothing',
        'assumptions': FILE_READS,
    },
    'X02': {
        'jobs': rules('effects', 'chance order shared handed caches'),
        'explanation': 'Every reference is resolved and compared with the sources of chance; every iteration with the '
                       'expressions which are sets; every change in place with defaults, module variables and class '
                       'attributes; every cached value with the attributes it reads through the methods it uses. Each '
                       'rule first has to find the violations planted in a small program of its own',
        'assumptions': ['classes given by the user are deterministic'],
    },
    'X03': {
        'jobs': jobs('specs.isolation', 'simulator simulator_recorded simulator_kept simulator_returned simulator_step estimator no_degradation loss cell_wrapper '
                     'joint_wrapper deg_wrapper wrapper_parts wrapper_calls filled filled_vector filled_back array copied '
                     'updated read read_one health_copied', FULL) +
        jobs('specs.isolation', 'joint joint_whole dual') + jobs('specs.ukf', 'step_isolated step_isolated_inside step_inputs start_isolated') +
        jobs('specs.conversions', 'moments_isolated combine_isolated') + jobs('specs.online', 'apart dual_exchange'),
        'explanation': 'Objects given or returned are changed in place after the call, at every level, and what the '
                       'objects of the package hold is compared with what they held before',
        'assumptions': [],
    },
    'X04': {
        'jobs': rules('interfaces', 'overrides complete calls'),
        'explanation': 'Every method is compared with the method it overrides, every class without subclasses with the '
                       'abstract methods of its bases, and every call which can be resolved with the signature, or the '
                       'fields, of what it calls. Each rule first has to find the violations planted in a small program '
                       'of its own',
        'assumptions': [],
    },
    'A08': {
        'jobs': rules('batch', 'voltage interpolated resistance ocv time_constant energy ' +
                      ' '.join('update_%d' % k for k in range(8))),
        'thorough': rules('batch', 'voltage ' + ' '.join('update_%d' % k for k in range(8)), {'thorough': True}, 600),
        'explanation': 'Dataflow from every element of every input to every element of the result, over all branches, for '
                       'batches of health parameters, of states, of single fields and of both: each row must be made of '
                       'the products of input elements a single cell is made of, taken from that row',
        'assumptions': ['a batch of three, four interpolation points and up to three RC elements stand for other sizes, '
                        'which the code can only tell apart by comparing them with one and with each other'],
    },
}
