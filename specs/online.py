"""Estimators: a joint filter, two filters side by side, and how they are set up."""
from typing import Dict

import numpy as np
from scipy.linalg import block_diag

from moirae.models.base import (CellModel, HealthVariable, GeneralContainer, InputQuantities, OutputQuantities)
from moirae.estimators.online import OnlineEstimator
from moirae.estimators.online.joint import JointEstimator
from moirae.estimators.online.dual import DualEstimator, DualUKFTuningParameters
from moirae.estimators.online.filters.base import BaseFilter
from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
from moirae.estimators.online.filters.conversions import LinearConversionOperator, ConversionOperator
from moirae.estimators.online.filters.kalman.unscented import UnscentedKalmanFilter, UKFTuningParameters
from moirae.estimators.online.utils.model import CellModelWrapper, DegradationModelWrapper, JointCellModelWrapper
from specs.api import given, same


# --------------------------------------------------------------------------- what every estimator knows
def observe_names(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    e = OnlineEstimator(m, a, t, u)
    return (e.state_names, e.num_state_dimensions, e.output_names, e.control_names, e.num_output_dimensions)


def expect_names(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    y = m.calculate_terminal_voltage(u, t, a)
    n = t.all_names + a.expand_names(a.updatable_names)
    return n, len(n), y.all_names, u.all_names, len(y)


def observe_names_none(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    e = OnlineEstimator(m, a, t, u, updatable_asoh=False)
    return e.state_names


def expect_names_none(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    return t.all_names + a.expand_names([])


def observe_names_some(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, n: list):
    e = OnlineEstimator(m, a, t, u, updatable_asoh=n)
    return e.state_names


def expect_names_some(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, n: list):
    return t.all_names + a.expand_names(n)


def observe_apart(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, v: np.ndarray):
    """What the caller does with the objects given afterwards does not reach the estimator"""
    e = OnlineEstimator(m, a, t, u)
    a.update_parameters(v)
    t.from_numpy(v)
    u.from_numpy(v)
    return e.asoh, e.transients


def expect_apart(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, v: np.ndarray):
    return a, t


def observe_batched(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    given(t.batch_size != 1)
    return OnlineEstimator(m, a, t, u)


def expect_batched(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    raise AssertionError()


def observe_batched_health(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    given(a.batch_size != 1)
    return OnlineEstimator(m, a, t, u)


def expect_batched_health(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    raise AssertionError()


# --------------------------------------------------------------------------- joint
def observe_joint_state(e: JointEstimator):
    s = e.state
    return s.get_mean(), s.get_covariance()


def expect_joint_state(e: JointEstimator):
    s = e.filter.hidden.convert(conversion_operator=e.joint_model.hidden_conversion)
    return s.get_mean(), s.get_covariance()


def observe_joint_estimate(e: JointEstimator):
    return e.get_estimated_state()


def expect_joint_estimate(e: JointEstimator):
    raw = e.joint_model.hidden_conversion.transform_samples(samples=np.atleast_2d(e.filter.hidden.get_mean()))
    n = e.joint_model.num_transients
    return (e.joint_model.transients.make_copy(values=raw[:, :n]),
            e.joint_model.asoh.make_copy(values=raw[:, n:], names=e.joint_model.asoh_inputs))


def observe_joint_step(e: JointEstimator, u: InputQuantities, z: OutputQuantities):
    x, y = e.step(u, z)
    return x, y


def expect_joint_step(e: JointEstimator, u: InputQuantities, z: OutputQuantities):
    w = e.joint_model
    a, b = e.filter.step(
        new_controls=DeltaDistribution(mean=u.to_numpy().flatten()).convert(
            conversion_operator=w.control_conversion, inverse=True),
        measurements=DeltaDistribution(mean=z.to_numpy().flatten()).convert(
            conversion_operator=w.output_conversion, inverse=True))
    return a.convert(conversion_operator=w.hidden_conversion), b.convert(conversion_operator=w.output_conversion)


def observe_joint_model(f: BaseFilter):
    given(not isinstance(f.model, JointCellModelWrapper))
    return JointEstimator(f)


def expect_joint_model(f: BaseFilter):
    raise ValueError()


# --------------------------------------------------------------------------- dual
def observe_dual_state(e: DualEstimator):
    return e.state


def expect_dual_state(e: DualEstimator):
    a = e.trans_filter.hidden.convert(conversion_operator=e.trans_filter.model.hidden_conversion)
    b = e.asoh_filter.hidden.convert(conversion_operator=e.asoh_filter.model.hidden_conversion)
    return a.combine_with((b,))


def observe_dual_estimate(e: DualEstimator):
    return e.get_estimated_state()


def expect_dual_estimate(e: DualEstimator):
    a = e.trans_filter.hidden.convert(conversion_operator=e.trans_filter.model.hidden_conversion)
    b = e.asoh_filter.hidden.convert(conversion_operator=e.asoh_filter.model.hidden_conversion)
    return (e.transients.make_copy(values=a.get_mean()),
            e.asoh.make_copy(values=b.get_mean(), names=e.asoh_wrapper.asoh_inputs))


def observe_dual_step(e: DualEstimator, u: InputQuantities, z: OutputQuantities):
    x, y = e.step(u, z)
    return x, y


def expect_dual_step(e: DualEstimator, u: InputQuantities, z: OutputQuantities):
    t, h = e.get_estimated_state()
    c = e.cell_wrapper
    d = e.asoh_wrapper
    c.asoh = h
    d.transients = t
    v = DeltaDistribution(mean=u.to_numpy().flatten())
    m = DeltaDistribution(mean=z.to_numpy().flatten())
    x1, y1 = e.trans_filter.step(
        new_controls=v.convert(conversion_operator=c.control_conversion, inverse=True),
        measurements=m.convert(conversion_operator=c.output_conversion, inverse=True))
    x2, y2 = e.asoh_filter.step(
        new_controls=v.convert(conversion_operator=d.control_conversion, inverse=True),
        measurements=m.convert(conversion_operator=d.output_conversion, inverse=True))
    x1 = x1.convert(conversion_operator=c.hidden_conversion)
    x2 = x2.convert(conversion_operator=d.hidden_conversion)
    return x1.combine_with((x2,)), y1.convert(conversion_operator=c.output_conversion)


def observe_dual_exchange(e: DualEstimator, u: InputQuantities, z: OutputQuantities):
    """Each part sees the estimate the other had before the step"""
    e.step(u, z)
    return e.cell_wrapper.asoh, e.asoh_wrapper.transients


def expect_dual_exchange(e: DualEstimator, u: InputQuantities, z: OutputQuantities):
    t, h = e.get_estimated_state()
    return h, t


def observe_dual_transient_model(f: BaseFilter, g: BaseFilter):
    given(not isinstance(f.model, CellModelWrapper))
    return DualEstimator(f, g)


def expect_dual_transient_model(f: BaseFilter, g: BaseFilter):
    raise ValueError()


def observe_dual_health_model(f: BaseFilter, g: BaseFilter):
    given(not isinstance(g.model, DegradationModelWrapper))
    return DualEstimator(f, g)


def expect_dual_health_model(f: BaseFilter, g: BaseFilter):
    raise ValueError()


# --------------------------------------------------------------------------- setting up a joint estimator
def observe_joint_start(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray, r: np.ndarray):
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=p, joint_covariance_process_noise=q,
                                                   covariance_sensor_noise=r)
    f = e.filter
    return f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def expect_joint_start(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray, r: np.ndarray):
    m = np.hstack((w.transients.to_numpy().flatten(), w.asoh.get_parameters(names=w.asoh_inputs).flatten()))
    h = w.hidden_conversion
    return (h.inverse_transform_samples(transformed_samples=m),
            h.inverse_transform_covariance(transformed_covariance=p, transformed_pivot=m),
            w.control_conversion.inverse_transform_samples(transformed_samples=w.inputs.to_numpy().flatten()),
            h.inverse_transform_covariance(transformed_covariance=q, transformed_pivot=np.zeros(q.shape[0])),
            w.output_conversion.inverse_transform_covariance(transformed_covariance=r,
                                                             transformed_pivot=np.zeros(r.shape[0])))


def observe_joint_parts(w: JointCellModelWrapper, p: np.ndarray, s: np.ndarray, q: np.ndarray, v: np.ndarray):
    e = JointEstimator.initialize_ukf_from_wrapper(
        w, covariance_transient=p, covariance_asoh=s, transient_covariance_process_noise=q,
        asoh_covariance_process_noise=v)
    f = e.filter
    return f.hidden.covariance, f.cov_w, f.cov_v


def expect_joint_parts(w: JointCellModelWrapper, p: np.ndarray, s: np.ndarray, q: np.ndarray, v: np.ndarray):
    m = np.hstack((w.transients.to_numpy().flatten(), w.asoh.get_parameters(names=w.asoh_inputs).flatten()))
    h = w.hidden_conversion
    n = block_diag(q, v)
    return (h.inverse_transform_covariance(transformed_covariance=block_diag(p, s), transformed_pivot=m),
            h.inverse_transform_covariance(transformed_covariance=n, transformed_pivot=np.zeros(n.shape[0])),
            1e-8 * np.eye(w.num_output_dimensions))


def observe_joint_preferred(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray, a: np.ndarray, b: np.ndarray,
                            c: np.ndarray, d: np.ndarray):
    """Covariances of the whole take precedence over those of its parts"""
    e = JointEstimator.initialize_ukf_from_wrapper(
        w, covariance_joint=p, covariance_transient=a, covariance_asoh=b, joint_covariance_process_noise=q,
        transient_covariance_process_noise=c, asoh_covariance_process_noise=d)
    return e.filter.hidden.covariance, e.filter.cov_w


def expect_joint_preferred(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray, a: np.ndarray, b: np.ndarray,
                           c: np.ndarray, d: np.ndarray):
    f = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=p, joint_covariance_process_noise=q).filter
    return f.hidden.covariance, f.cov_w


def observe_joint_own(w: JointCellModelWrapper, p: np.ndarray):
    """What the estimator says about itself is what its wrapper was made with"""
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=p)
    return e.state_names, e.control_names, e.transients, e.asoh


def expect_joint_own(w: JointCellModelWrapper, p: np.ndarray):
    return w.transients.all_names + w.asoh.expand_names(w.asoh_inputs), w.inputs.all_names, w.transients, w.asoh


def observe_joint_one_noise(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray):
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=p, transient_covariance_process_noise=q)
    return e.filter.cov_w


def expect_joint_one_noise(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray):
    n = block_diag(q, 1e-8 * np.eye(w.num_asoh))
    return w.hidden_conversion.inverse_transform_covariance(transformed_covariance=n,
                                                            transformed_pivot=np.zeros(n.shape[0]))


def observe_joint_other_noise(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray):
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=p, asoh_covariance_process_noise=q)
    return e.filter.cov_w


def expect_joint_other_noise(w: JointCellModelWrapper, p: np.ndarray, q: np.ndarray):
    n = block_diag(1e-8 * np.eye(w.num_transients), q)
    return w.hidden_conversion.inverse_transform_covariance(transformed_covariance=n,
                                                            transformed_pivot=np.zeros(n.shape[0]))


def observe_joint_tuning(w: JointCellModelWrapper, p: np.ndarray, a: float, b: float, k: float):
    e = JointEstimator.initialize_ukf_from_wrapper(
        w, covariance_joint=p, filter_args={'alpha_param': a, 'beta_param': b, 'kappa_param': k})
    return e.filter.alpha_param, e.filter.beta_param, e.filter.kappa_param


def expect_joint_tuning(w: JointCellModelWrapper, p: np.ndarray, a: float, b: float, k: float):
    return a, b, k


def observe_joint_uncertain(w: JointCellModelWrapper, p: np.ndarray, v: np.ndarray):
    e = JointEstimator.initialize_ukf_from_wrapper(w, covariance_joint=p, inputs_uncertainty=v)
    return e.filter.controls.mean, e.filter.controls.covariance


def expect_joint_uncertain(w: JointCellModelWrapper, p: np.ndarray, v: np.ndarray):
    c = w.control_conversion
    m = w.inputs.to_numpy().flatten()
    return (c.inverse_transform_samples(transformed_samples=m),
            c.inverse_transform_covariance(transformed_covariance=v, transformed_pivot=m))


def observe_joint_normal(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray):
    e = JointEstimator.initialize_unscented_kalman_filter(m, a, t, u, covariance_joint=p, normalize_asoh=True)
    return e.joint_model.hidden_conversion.multiplicative_array


def expect_joint_normal(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray):
    v = a.get_parameters()
    s = np.where(v == 0, 1., v)
    return np.hstack((np.ones(t.to_numpy().shape[1]), s.flatten()))


def observe_joint_plain(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                        q: np.ndarray, r: np.ndarray):
    e = JointEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, covariance_joint=p, joint_covariance_process_noise=q, covariance_sensor_noise=r)
    f = e.filter
    return f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def expect_joint_plain(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                       q: np.ndarray, r: np.ndarray):
    v = np.hstack((t.to_numpy().flatten(), a.get_parameters(names=a.updatable_names).flatten()))
    return v, p, u.to_numpy().flatten(), q, r


# --------------------------------------------------------------------------- setting up two filters
def observe_dual_start(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray, q: np.ndarray,
                       v: np.ndarray, r: np.ndarray):
    e = DualEstimator.initialize_ukf_from_wrappers(
        w, d, p, s, transient_covariance_process_noise=q, asoh_covariance_process_noise=v, covariance_sensor_noise=r)
    f = e.trans_filter
    g = e.asoh_filter
    return (f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v,
            g.hidden.mean, g.hidden.covariance, g.controls.mean, g.cov_w, g.cov_v)


def expect_dual_start(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray, q: np.ndarray,
                      v: np.ndarray, r: np.ndarray):
    m = w.transients.to_numpy().flatten()
    n = d.asoh.get_parameters(names=d.asoh_inputs).flatten()
    h = w.hidden_conversion
    k = d.hidden_conversion
    u = w.inputs.to_numpy().flatten()
    z = np.zeros(r.shape[0])
    return (h.inverse_transform_samples(transformed_samples=m),
            h.inverse_transform_covariance(transformed_covariance=p, transformed_pivot=m),
            w.control_conversion.inverse_transform_samples(transformed_samples=u),
            h.inverse_transform_covariance(transformed_covariance=q, transformed_pivot=np.zeros(q.shape[0])),
            w.output_conversion.inverse_transform_covariance(transformed_covariance=r, transformed_pivot=z),
            k.inverse_transform_samples(transformed_samples=n),
            k.inverse_transform_covariance(transformed_covariance=s, transformed_pivot=n),
            d.control_conversion.inverse_transform_samples(transformed_samples=u),
            k.inverse_transform_covariance(transformed_covariance=v, transformed_pivot=np.zeros(v.shape[0])),
            d.output_conversion.inverse_transform_covariance(transformed_covariance=r, transformed_pivot=z))


def observe_dual_defaults(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray):
    e = DualEstimator.initialize_ukf_from_wrappers(w, d, p, s)
    return e.trans_filter.cov_w, e.trans_filter.cov_v, e.asoh_filter.cov_w, e.asoh_filter.cov_v


def expect_dual_defaults(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray):
    return (1e-8 * np.eye(w.num_hidden_dimensions), 1e-8 * np.eye(w.num_output_dimensions),
            1e-8 * np.eye(d.num_hidden_dimensions), 1e-8 * np.eye(d.num_output_dimensions))


def observe_dual_one_noise(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray, q: np.ndarray):
    e = DualEstimator.initialize_ukf_from_wrappers(w, d, p, s, transient_covariance_process_noise=q)
    return e.trans_filter.cov_w, e.asoh_filter.cov_w


def expect_dual_one_noise(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray, q: np.ndarray):
    return (w.hidden_conversion.inverse_transform_covariance(transformed_covariance=q,
                                                             transformed_pivot=np.zeros(q.shape[0])),
            1e-8 * np.eye(d.num_asoh))


def observe_dual_other_noise(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray,
                             q: np.ndarray):
    e = DualEstimator.initialize_ukf_from_wrappers(w, d, p, s, asoh_covariance_process_noise=q)
    return e.trans_filter.cov_w, e.asoh_filter.cov_w


def expect_dual_other_noise(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray,
                            q: np.ndarray):
    return (1e-8 * np.eye(w.num_transients),
            d.hidden_conversion.inverse_transform_covariance(transformed_covariance=q,
                                                             transformed_pivot=np.zeros(q.shape[0])))


def observe_dual_own(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray):
    """What the estimator says about itself is what its wrappers were made with"""
    e = DualEstimator.initialize_ukf_from_wrappers(w, d, p, s)
    return e.state_names, e.control_names, e.transients, e.asoh


def expect_dual_own(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray):
    return w.transients.all_names + d.asoh.expand_names(d.asoh_inputs), w.inputs.all_names, w.transients, d.asoh


def observe_dual_tuning(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray, a: float,
                        b: float):
    e = DualEstimator.initialize_ukf_from_wrappers(
        w, d, p, s, filter_args={'transient': {'alpha_param': a}, 'asoh': {'beta_param': b}})
    f = e.trans_filter
    g = e.asoh_filter
    return f.alpha_param, f.beta_param, f.kappa_param, g.alpha_param, g.beta_param, g.kappa_param


def expect_dual_tuning(w: CellModelWrapper, d: DegradationModelWrapper, p: np.ndarray, s: np.ndarray, a: float,
                       b: float):
    return a, 2.0, 0.0, 1.0, b, 0.0


def observe_dual_normal(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                        s: np.ndarray):
    e = DualEstimator.initialize_unscented_kalman_filter(m, a, t, u, p, s, normalize_asoh=True)
    return e.asoh_wrapper.hidden_conversion.multiplicative_array


def expect_dual_normal(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                       s: np.ndarray):
    v = a.get_parameters()
    return np.where(v == 0, 1., v).flatten()


def observe_dual_plain(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                       s: np.ndarray, q: np.ndarray, v: np.ndarray, r: np.ndarray):
    e = DualEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, p, s, transient_covariance_process_noise=q, asoh_covariance_process_noise=v,
        covariance_sensor_noise=r)
    f = e.trans_filter
    g = e.asoh_filter
    return (f.hidden.mean, f.hidden.covariance, f.cov_w, f.cov_v, g.hidden.mean, g.hidden.covariance, g.cov_w, g.cov_v,
            f.controls.mean, g.controls.mean)


def expect_dual_plain(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                      s: np.ndarray, q: np.ndarray, v: np.ndarray, r: np.ndarray):
    x = t.to_numpy().flatten()
    y = a.get_parameters(names=a.updatable_names).flatten()
    c = u.to_numpy().flatten()
    return x, p, q, r, y, s, v, r, c, c


def observe_joint_forward(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                          s: np.ndarray, i: np.ndarray, q: np.ndarray, v: np.ndarray, r: np.ndarray, x: float,
                          y: float, z: float):
    e = JointEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, covariance_transient=p, covariance_asoh=s, inputs_uncertainty=i,
        transient_covariance_process_noise=q, asoh_covariance_process_noise=v, covariance_sensor_noise=r,
        filter_args={'alpha_param': x, 'beta_param': y, 'kappa_param': z})
    f = e.filter
    return (f.hidden.mean, f.hidden.covariance, f.controls.mean, f.controls.covariance, f.cov_w, f.cov_v,
            f.alpha_param, f.beta_param, f.kappa_param)


def expect_joint_forward(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                         s: np.ndarray, i: np.ndarray, q: np.ndarray, v: np.ndarray, r: np.ndarray, x: float,
                         y: float, z: float):
    h = np.hstack((t.to_numpy().flatten(), a.get_parameters(names=a.updatable_names).flatten()))
    return h, block_diag(p, s), u.to_numpy().flatten(), i, block_diag(q, v), r, x, y, z


def observe_dual_forward(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                         s: np.ndarray, i: np.ndarray, x: float, y: float):
    e = DualEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, p, s, inputs_uncertainty=i, filter_args={'transient': {'alpha_param': x},
                                                             'asoh': {'alpha_param': y}})
    f = e.trans_filter
    g = e.asoh_filter
    return (f.controls.mean, f.controls.covariance, g.controls.mean, g.controls.covariance, f.alpha_param,
            g.alpha_param)


def expect_dual_forward(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                        s: np.ndarray, i: np.ndarray, x: float, y: float):
    c = u.to_numpy().flatten()
    return c, i, c, i, x, y


def observe_dual_normal_state(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                              s: np.ndarray, q: np.ndarray, v: np.ndarray):
    e = DualEstimator.initialize_unscented_kalman_filter(
        m, a, t, u, p, s, transient_covariance_process_noise=q, asoh_covariance_process_noise=v, normalize_asoh=True)
    f = e.trans_filter
    g = e.asoh_filter
    return f.hidden.mean, f.hidden.covariance, f.cov_w, g.hidden.mean, g.hidden.covariance, g.cov_w


def expect_dual_normal_state(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, p: np.ndarray,
                             s: np.ndarray, q: np.ndarray, v: np.ndarray):
    n = a.get_parameters()
    o = LinearConversionOperator(multiplicative_array=np.where(n == 0, 1., n).flatten())
    y = a.get_parameters(names=a.updatable_names).flatten()
    return (t.to_numpy().flatten(), p, q, o.inverse_transform_samples(y), o.inverse_transform_covariance(s),
            o.inverse_transform_covariance(v))
