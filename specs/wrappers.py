"""Models wrapped for the filters."""
import numpy as np

from moirae.models.base import (CellModel, HealthVariable, GeneralContainer, InputQuantities, OutputQuantities,
                                DegradationModel)
from moirae.estimators.online.filters.base import ModelWrapper, ModelWrapperConverters
from moirae.estimators.online.filters.conversions import ConversionOperator
from moirae.estimators.online.utils.model import (
    CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper, convert_vals_model_to_filter)
from specs.api import given, same


# --------------------------------------------------------------------------- transient states alone
def observe_cell_update(w: CellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)


def expect_cell_update(w: CellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    new = w.cell_model.update_transient_state(
        previous_inputs=w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=p)),
        new_inputs=w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=u)),
        transient_state=w.transients.make_copy(values=w.hidden_conversion.transform_samples(samples=x)),
        asoh=w.asoh)
    return w.hidden_conversion.inverse_transform_samples(transformed_samples=new.to_numpy())


def observe_cell_measure(w: CellModelWrapper, x: np.ndarray, u: np.ndarray):
    return w.predict_measurement(hidden_states=x, controls=u)


def expect_cell_measure(w: CellModelWrapper, x: np.ndarray, u: np.ndarray):
    out = w.cell_model.calculate_terminal_voltage(
        new_inputs=w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=u)),
        transient_state=w.transients.make_copy(values=w.hidden_conversion.transform_samples(samples=x)),
        asoh=w.asoh)
    return w.output_conversion.inverse_transform_samples(transformed_samples=out.to_numpy())


# --------------------------------------------------------------------------- health alone
def observe_deg_update(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)


def expect_deg_update(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    asoh = w.asoh.make_copy(values=w.hidden_conversion.transform_samples(samples=x), names=w.asoh_inputs)
    new = w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=u))
    out = w.cell_model.calculate_terminal_voltage(new_inputs=new, transient_state=w.transients, asoh=asoh)
    aged = w.deg_model.update_asoh(previous_asoh=asoh, new_inputs=new, new_transients=w.transients,
                                   new_measurements=out)
    return w.hidden_conversion.inverse_transform_samples(
        transformed_samples=aged.get_parameters(names=w.asoh_inputs))


def observe_deg_measure(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray, y: np.ndarray):
    """The measurement is predicted after the transient state went through the step which started at the previous
    controls"""
    w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)
    return w.predict_measurement(hidden_states=y, controls=u)


def expect_deg_measure(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray, y: np.ndarray):
    old = w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=p))
    new = w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=u))
    asoh = w.asoh.make_copy(values=w.hidden_conversion.transform_samples(samples=y), names=w.asoh_inputs)
    state = w.cell_model.update_transient_state(previous_inputs=old, new_inputs=new, transient_state=w.transients,
                                                asoh=asoh)
    out = w.cell_model.calculate_terminal_voltage(new_inputs=new, transient_state=state, asoh=asoh)
    return w.output_conversion.inverse_transform_samples(transformed_samples=out.to_numpy())


# --------------------------------------------------------------------------- both in one state
def observe_joint_pack(w: JointCellModelWrapper, a: HealthVariable, t: GeneralContainer):
    return w.create_hidden_state(asoh=a, transients=t)


def expect_joint_pack(w: JointCellModelWrapper, a: HealthVariable, t: GeneralContainer):
    return w.hidden_conversion.inverse_transform_samples(
        transformed_samples=np.concatenate([t.to_numpy(), a.get_parameters(names=w.asoh_inputs)], axis=1))


def observe_joint_unpack(w: JointCellModelWrapper, x: np.ndarray):
    return w.create_cell_model_inputs(x)


def expect_joint_unpack(w: JointCellModelWrapper, x: np.ndarray):
    raw = w.hidden_conversion.transform_samples(samples=x)
    return (w.asoh.make_copy(values=raw[:, w.num_transients:], names=w.asoh_inputs),
            w.transients.make_copy(values=raw[:, :w.num_transients]))


def observe_joint_measure(w: JointCellModelWrapper, x: np.ndarray, u: np.ndarray):
    return w.predict_measurement(hidden_states=x, controls=u)


def expect_joint_measure(w: JointCellModelWrapper, x: np.ndarray, u: np.ndarray):
    asoh, state = w.create_cell_model_inputs(x)
    out = w.cell_model.calculate_terminal_voltage(
        new_inputs=w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=u)),
        transient_state=state, asoh=asoh)
    return w.output_conversion.inverse_transform_samples(transformed_samples=out.to_numpy())


def observe_joint_update(w: JointCellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)


def expect_joint_update(w: JointCellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    old = w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=p))
    new = w.inputs.make_copy(values=w.control_conversion.transform_samples(samples=u))
    asoh, state = w.create_cell_model_inputs(x)
    state1 = w.cell_model.update_transient_state(previous_inputs=old, new_inputs=new, transient_state=state, asoh=asoh)
    out = w.cell_model.calculate_terminal_voltage(new_inputs=old, transient_state=state, asoh=asoh)
    asoh1 = w.deg_model.update_asoh(previous_asoh=asoh, new_inputs=old, new_transients=state, new_measurements=out)
    raw = w.hidden_conversion.transform_samples(samples=x).copy()
    raw[:, :w.num_transients] = state1.to_numpy()
    raw[:, w.num_transients:] = asoh1.get_parameters(names=w.asoh_inputs)
    return w.hidden_conversion.inverse_transform_samples(transformed_samples=raw)


# --------------------------------------------------------------------------- construction
def observe_cell_setup(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, h: ConversionOperator,
                       c: ConversionOperator, o: ConversionOperator):
    w = CellModelWrapper(m, a, t, u, {'hidden_conversion_operator': h, 'control_conversion_operator': c,
                                      'output_conversion_operator': o})
    return (w.hidden_conversion, w.control_conversion, w.output_conversion, w.asoh, w.transients, w.inputs,
            w.num_hidden_dimensions, w.num_output_dimensions)


def expect_cell_setup(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, h: ConversionOperator,
                      c: ConversionOperator, o: ConversionOperator):
    given(a.batch_size <= 1)
    given(t.batch_size <= 1)
    return (h, c, o, a, t, u, t.to_numpy().shape[1],
            m.calculate_terminal_voltage(new_inputs=u, transient_state=t, asoh=a).to_numpy().shape[1])


def observe_joint_setup(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities,
                        d: DegradationModel):
    w = JointCellModelWrapper(m, a, t, u, degradation_model=d)
    return w.asoh_inputs, w.num_transients, w.num_asoh, w.num_hidden_dimensions, w.deg_model


def expect_joint_setup(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities,
                       d: DegradationModel):
    given(a.batch_size <= 1)
    given(t.batch_size <= 1)
    n = t.to_numpy().shape[1]
    k = a.get_parameters(a.updatable_names).shape[1]
    return a.updatable_names, n, k, n + k, d


def observe_deg_setup(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, d: DegradationModel):
    w = DegradationModelWrapper(m, a, t, u, degradation_model=d)
    return w.asoh_inputs, w.num_hidden_dimensions, w.deg_model


def expect_deg_setup(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, d: DegradationModel):
    given(a.batch_size <= 1)
    given(t.batch_size <= 1)
    return a.updatable_names, a.get_parameters(a.updatable_names).shape[1], d


def observe_batched_health(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    given(a.batch_size > 1)
    return CellModelWrapper(m, a, t, u)


def expect_batched_health(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    raise ValueError()


def observe_batched_state(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    given(t.batch_size > 1)
    return CellModelWrapper(m, a, t, u)


def expect_batched_state(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    raise ValueError()


# --------------------------------------------------------------------------- purity
def observe_cell_pure(w: CellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    y = w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)
    z = w.predict_measurement(hidden_states=x, controls=u)
    y[0, 0] = 5.0
    z[0, 0] = 5.0
    return w.asoh, w.transients, w.inputs, x, p, u


def expect_cell_pure(w: CellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.asoh, w.transients, w.inputs, x, p, u


def observe_joint_pure(w: JointCellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    y = w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)
    z = w.predict_measurement(hidden_states=x, controls=u)
    y[0, 0] = 5.0
    z[0, 0] = 5.0
    return w.asoh, w.transients, w.inputs, x, p, u


def expect_joint_pure(w: JointCellModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.asoh, w.transients, w.inputs, x, p, u


def observe_deg_pure(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    y = w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=u)
    z = w.predict_measurement(hidden_states=x, controls=u)
    y[0, 0] = 5.0
    z[0, 0] = 5.0
    return w.asoh, w.transients, w.inputs, x, p, u


def expect_deg_pure(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.asoh, w.transients, w.inputs, x, p, u


def observe_plain_pure(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, x: np.ndarray,
                       p: np.ndarray, v: np.ndarray):
    """The arrays given stay as they are when nothing is converted"""
    w = JointCellModelWrapper(m, a, t, u)
    w.update_hidden_states(hidden_states=x, previous_controls=p, new_controls=v)
    w.predict_measurement(hidden_states=x, controls=v)
    return x, p, v


def expect_plain_pure(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, x: np.ndarray,
                      p: np.ndarray, v: np.ndarray):
    return x, p, v


def observe_deg_first(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, x: np.ndarray,
                      v: np.ndarray):
    """Before the first step the previous inputs are those the wrapper was made with"""
    w = DegradationModelWrapper(m, a, t, u)
    return w.predict_measurement(hidden_states=x, controls=v)


def expect_deg_first(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, x: np.ndarray,
                     v: np.ndarray):
    h = a.make_copy(values=x, names=a.updatable_names)
    new = u.make_copy(values=v)
    s = m.update_transient_state(previous_inputs=u, new_inputs=new, transient_state=t, asoh=h)
    return m.calculate_terminal_voltage(new_inputs=new, transient_state=s, asoh=h).to_numpy()


def observe_deg_predict_twice(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    """What predicting leaves behind does not reach the predictions which follow"""
    w.predict_measurement(hidden_states=x, controls=p)
    return w.predict_measurement(hidden_states=x, controls=u)


def expect_deg_predict_twice(w: DegradationModelWrapper, x: np.ndarray, p: np.ndarray, u: np.ndarray):
    return w.predict_measurement(hidden_states=x, controls=u)


# --------------------------------------------------------------------------- from model quantities to distributions
def observe_known(c: GeneralContainer):
    d = convert_vals_model_to_filter(c)
    return d.mean


def expect_known(c: GeneralContainer):
    return c.to_numpy().flatten()


def observe_uncertain(c: GeneralContainer, s: np.ndarray):
    d = convert_vals_model_to_filter(c, s)
    return d.mean, d.covariance


def expect_uncertain(c: GeneralContainer, s: np.ndarray):
    return c.to_numpy().flatten(), s
