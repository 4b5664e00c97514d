"""Objects do not share their state with those they were made from or return."""
import numpy as np

from battdat.data import BatteryDataset
from moirae.estimators.offline.loss import BaseLoss, MeanSquaredLoss
from moirae.estimators.online import OnlineEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from moirae.models.base import (CellModel, DegradationModel, GeneralContainer, HealthVariable, InputQuantities,
                                OutputQuantities, ListParameter)
from moirae.models.utils import NoDegradation
from moirae.simulator import Simulator
from specs.api import given


class Pair(GeneralContainer):
    """Two quantities"""
    a: ListParameter
    b: ListParameter


class Part(HealthVariable):
    """One parameter"""
    x: ListParameter


class Whole(HealthVariable):
    """A parameter and one in a component"""
    x: ListParameter
    part: Part


class Shift(CellModel):
    """Some simple dynamics"""
    def update_transient_state(self, previous_inputs, new_inputs, transient_state, asoh):
        return Pair(a=transient_state.b + new_inputs.current, b=transient_state.a + asoh.x)

    def calculate_terminal_voltage(self, new_inputs, transient_state, asoh):
        return OutputQuantities(terminal_voltage=transient_state.b + new_inputs.time)


class Wear(DegradationModel):
    """Some simple ageing"""
    def update_asoh(self, previous_asoh, new_inputs, new_transients, new_measurements):
        return Whole(x=previous_asoh.x + new_transients.a, part=Part(x=previous_asoh.part.x))


# --------------------------------------------------------------------------- simulator
def observe_simulator_kept(a: Whole, t: Pair, u: InputQuantities, n: InputQuantities, v: np.ndarray):
    """What is recorded is independent of what the simulator holds and of what it returned"""
    s = Simulator(Shift(), a, t, u, Wear(), keep_history=True)
    s.measurement.terminal_voltage[0, 0] = 7.0
    s.measurement.terminal_voltage = v
    x, y = s.step(n)
    n.current[0, 0] = 7.0
    n.time = v
    for z in (x, s.transient):
        z.a[0, 0] = 7.0
        z.b = v
    for z in (y, s.measurement):
        z.terminal_voltage[0, 0] = 7.0
        z.terminal_voltage = v
    s.previous_input.current[0, 0] = 7.0
    s.previous_input.time = v
    s.asoh.part.x[0, 0] = 7.0
    s.asoh.x = v
    return s.asoh_history, s.transient_history, s.input_history, s.measurement_history


def expect_simulator_kept(a: Whole, t: Pair, u: InputQuantities, n: InputQuantities, v: np.ndarray):
    m = Shift()
    x = m.update_transient_state(u, n, t, a)
    y = m.calculate_terminal_voltage(n, x, a)
    return ([a, Wear().update_asoh(a, n, x, y)], [t, x], [u, n], [m.calculate_terminal_voltage(u, t, a), y])


def observe_simulator_returned(a: Whole, t: Pair, u: InputQuantities, n: InputQuantities, v: np.ndarray):
    """What a step returns is independent of what the simulator holds"""
    s = Simulator(Shift(), a, t, u, Wear())
    x, y = s.step(n)
    n.current[0, 0] = 7.0
    n.time = v
    x.a[0, 0] = 7.0
    x.b = v
    y.terminal_voltage[0, 0] = 7.0
    y.terminal_voltage = v
    return s.asoh, s.transient, s.previous_input, s.measurement


def expect_simulator_returned(a: Whole, t: Pair, u: InputQuantities, n: InputQuantities, v: np.ndarray):
    m = Shift()
    x = m.update_transient_state(u, n, t, a)
    y = m.calculate_terminal_voltage(n, x, a)
    return Wear().update_asoh(a, n, x, y), x, n, y


def observe_simulator(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    s = Simulator(m, a, t, u)
    a.part.x[0, 0] = 7.0
    a.x = v
    t.a[0, 0] = 7.0
    t.b = v
    u.current[0, 0] = 7.0
    u.time = v
    return s.asoh, s.transient, s.previous_input


def expect_simulator(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    return a, t, u


def observe_simulator_recorded(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    s = Simulator(m, a, t, u, keep_history=True)
    s.asoh.part.x[0, 0] = 7.0
    s.asoh.x = v
    s.transient.a[0, 0] = 7.0
    s.transient.b = v
    s.previous_input.current[0, 0] = 7.0
    s.previous_input.time = v
    return s.asoh_history[0], s.transient_history[0], s.input_history[0], a, t, u


def expect_simulator_recorded(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    return a, t, u, a, t, u


def observe_simulator_step(s: Simulator, u: InputQuantities, v: np.ndarray):
    given(not s.keep_history)
    s.step(u)
    u.current[0, 0] = 7.0
    u.time = v
    return s.previous_input


def expect_simulator_step(s: Simulator, u: InputQuantities, v: np.ndarray):
    return u


def observe_no_degradation(a: Whole, u: InputQuantities, t: Pair, v: np.ndarray):
    b = NoDegradation().update_asoh(a, u, t)
    b.part.x[0, 0] = 7.0
    b.x = v
    return a


def expect_no_degradation(a: Whole, u: InputQuantities, t: Pair, v: np.ndarray):
    return a


# --------------------------------------------------------------------------- losses
def observe_loss(m: CellModel, a: Whole, t: Pair, d: BatteryDataset, v: np.ndarray):
    f = MeanSquaredLoss(m, a, t, d)
    a.part.x[0, 0] = 7.0
    a.x = v
    t.a[0, 0] = 7.0
    t.b = v
    return f.asoh, f.state


def expect_loss(m: CellModel, a: Whole, t: Pair, d: BatteryDataset, v: np.ndarray):
    return a, t


# --------------------------------------------------------------------------- wrappers
def observe_cell_wrapper(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    w = CellModelWrapper(m, a, t, u)
    a.part.x[0, 0] = 7.0
    a.x = v
    t.a[0, 0] = 7.0
    t.b = v
    u.current[0, 0] = 7.0
    u.time = v
    return w.asoh, w.transients, w.inputs


def expect_cell_wrapper(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    return a, t, u


def observe_joint_wrapper(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    w = JointCellModelWrapper(m, a, t, u)
    a.part.x[0, 0] = 7.0
    a.x = v
    t.a[0, 0] = 7.0
    t.b = v
    u.current[0, 0] = 7.0
    u.time = v
    return w.asoh, w.transients, w.inputs


def expect_joint_wrapper(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    return a, t, u


def observe_deg_wrapper(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    w = DegradationModelWrapper(m, a, t, u)
    a.part.x[0, 0] = 7.0
    a.x = v
    t.a[0, 0] = 7.0
    t.b = v
    u.current[0, 0] = 7.0
    u.time = v
    return w.asoh, w.transients, w.inputs, w._previous_inputs


def expect_deg_wrapper(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    return a, t, u, u


def observe_wrapper_parts(m: CellModel, a: Whole, t: Pair, u: InputQuantities, x: np.ndarray, v: np.ndarray):
    """Unpacking a hidden state gives parts which are not those of the wrapper"""
    w = JointCellModelWrapper(m, a, t, u, ('x',))
    b, s = w.create_cell_model_inputs(x)
    b.part.x[0, 0] = 7.0
    b.x = v
    s.a[0, 0] = 7.0
    return w.asoh, w.transients, a, t


def expect_wrapper_parts(m: CellModel, a: Whole, t: Pair, u: InputQuantities, x: np.ndarray, v: np.ndarray):
    return a, t, a, t


def observe_wrapper_calls(m: CellModel, a: Whole, t: Pair, u: InputQuantities, x: np.ndarray, v: np.ndarray):
    """Predictions do not change what the wrapper holds, nor the arrays it was given"""
    w = JointCellModelWrapper(m, a, t, u, ('x', 'part.x'))
    w.predict_measurement(x, v)
    w.update_hidden_states(x, v, v)
    return w.asoh, w.transients, w.inputs, x, v


def expect_wrapper_calls(m: CellModel, a: Whole, t: Pair, u: InputQuantities, x: np.ndarray, v: np.ndarray):
    return a, t, u, x, v


# --------------------------------------------------------------------------- estimators
def spoil(a, t, u, arrays, v):
    a.part.x[0, 0] = 7.0
    a.x = v
    t.a[0, 0] = 7.0
    t.b = v
    u.current[0, 0] = 7.0
    for x in arrays:
        x[0, 0] = 7.0


def observe_estimator(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    e = OnlineEstimator(m, a, t, u)
    spoil(a, t, u, (), v)
    return e.asoh, e.transients


def expect_estimator(m: CellModel, a: Whole, t: Pair, u: InputQuantities, v: np.ndarray):
    return a, t


def observe_joint(m: CellModel, a: Whole, t: Pair, u: InputQuantities, c: np.ndarray, d: np.ndarray, q: np.ndarray,
                  r: np.ndarray, s: np.ndarray, v: np.ndarray):
    e = JointEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, covariance_transient=c, covariance_asoh=d, transient_covariance_process_noise=q,
        asoh_covariance_process_noise=r, covariance_sensor_noise=s)
    spoil(a, t, u, (c, d, q, r, s), v)
    f = e.filter
    return e.asoh, e.transients, f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def expect_joint(m: CellModel, a: Whole, t: Pair, u: InputQuantities, c: np.ndarray, d: np.ndarray, q: np.ndarray,
                 r: np.ndarray, s: np.ndarray, v: np.ndarray):
    f = JointEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, covariance_transient=c, covariance_asoh=d, transient_covariance_process_noise=q,
        asoh_covariance_process_noise=r, covariance_sensor_noise=s).filter
    return a, t, f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def observe_joint_whole(m: CellModel, a: Whole, t: Pair, u: InputQuantities, c: np.ndarray, q: np.ndarray,
                        v: np.ndarray):
    f = JointEstimator.initialize_unscented_kalman_filter(m, a, t, u, c, joint_covariance_process_noise=q).filter
    spoil(a, t, u, (c, q), v)
    return f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def expect_joint_whole(m: CellModel, a: Whole, t: Pair, u: InputQuantities, c: np.ndarray, q: np.ndarray,
                       v: np.ndarray):
    f = JointEstimator.initialize_unscented_kalman_filter(m, a, t, u, c, joint_covariance_process_noise=q).filter
    return f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def observe_dual(m: CellModel, a: Whole, t: Pair, u: InputQuantities, c: np.ndarray, d: np.ndarray, q: np.ndarray,
                 r: np.ndarray, s: np.ndarray, v: np.ndarray):
    e = DualEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, covariance_asoh=c, covariance_transient=d, transient_covariance_process_noise=q,
        asoh_covariance_process_noise=r, covariance_sensor_noise=s)
    spoil(a, t, u, (c, d, q, r, s), v)
    f, g = e.trans_filter, e.asoh_filter
    return e.asoh, e.transients, f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v, \
        g.hidden.mean, g.hidden.covariance, g.controls.mean, g.cov_w, g.cov_v


def expect_dual(m: CellModel, a: Whole, t: Pair, u: InputQuantities, c: np.ndarray, d: np.ndarray, q: np.ndarray,
                r: np.ndarray, s: np.ndarray, v: np.ndarray):
    e = DualEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, covariance_asoh=c, covariance_transient=d, transient_covariance_process_noise=q,
        asoh_covariance_process_noise=r, covariance_sensor_noise=s)
    f, g = e.trans_filter, e.asoh_filter
    return a, t, f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v, \
        g.hidden.mean, g.hidden.covariance, g.controls.mean, g.cov_w, g.cov_v


# --------------------------------------------------------------------------- containers
def observe_filled(p: Pair, v: np.ndarray):
    given(v.ndim == 2)
    p.from_numpy(v)
    v[0, 0] = 7.0
    return p.a, p.b


def expect_filled(p: Pair, v: np.ndarray):
    given(v.ndim == 2)
    n = p.a.shape[-1]
    return v[:, :n], v[:, n:n + p.b.shape[-1]]


def observe_filled_vector(p: Pair, v: np.ndarray):
    given(v.ndim == 1)
    p.from_numpy(v)
    v[0] = 7.0
    return p.a, p.b


def expect_filled_vector(p: Pair, v: np.ndarray):
    given(v.ndim == 1)
    n = p.a.shape[-1]
    w = v[None, :]
    return w[:, :n], w[:, n:n + p.b.shape[-1]]


def observe_filled_back(p: Pair, v: np.ndarray):
    """Changing what was filled in does not change the array it was taken from"""
    given(v.ndim == 2)
    p.from_numpy(v)
    p.a[0, 0] = 7.0
    return v


def expect_filled_back(p: Pair, v: np.ndarray):
    given(v.ndim == 2)
    return v


def observe_array(p: Pair):
    x = p.to_numpy()
    x[0, 0] = 7.0
    return p.a, p.b


def expect_array(p: Pair):
    return p.a, p.b


def observe_copied(p: Pair, v: np.ndarray):
    q = p.make_copy(v)
    q.a[0, 0] = 7.0
    q.b = q.a
    return p.a, p.b, v


def expect_copied(p: Pair, v: np.ndarray):
    return p.a, p.b, v


# --------------------------------------------------------------------------- health
def observe_updated(h: Whole, v: np.ndarray):
    given(v.ndim == 2)
    h.update_parameters(v, ['x', 'part.x'])
    v[0, 0] = 7.0
    return h.x, h.part.x


def expect_updated(h: Whole, v: np.ndarray):
    given(v.ndim == 2)
    n = h.x.shape[-1]
    return v[:, :n], v[:, n:n + h.part.x.shape[-1]]


def observe_read(h: Whole):
    x = h.get_parameters(['x', 'part.x'])
    x[0, 0] = 7.0
    return h.x, h.part.x


def expect_read(h: Whole):
    return h.x, h.part.x


def observe_read_one(h: Part):
    given(h.batch_size == 1)
    x = h.get_parameters(['x'])
    x[0, 0] = 7.0
    return h.x


def expect_read_one(h: Part):
    given(h.batch_size == 1)
    return h.x


def observe_health_copied(h: Whole, v: np.ndarray):
    g = h.make_copy(v, ['x'])
    g.part.x[0, 0] = 7.0
    g.x[0, 0] = 7.0
    g.part.mark_updatable('x')
    return h.x, h.part.x, h.part.updatable, v


def expect_health_copied(h: Whole, v: np.ndarray):
    return h.x, h.part.x, h.part.updatable, v
