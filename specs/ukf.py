"""The unscented Kalman filter."""
import numpy as np
from scipy.linalg import block_diag

from moirae.estimators.online.filters.base import ModelWrapper
from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
from moirae.estimators.online.filters.kalman.unscented import (
    UnscentedKalmanFilter, UKFTuningParameters, compute_unscented_covariance, assemble_unscented_estimate_from_samples)
from moirae.estimators.online.filters.kalman.utils import (
    ensure_positive_semi_definite, enforce_positive_semi_defiteness, calculate_gain_matrix)
from specs.api import given, same


# --------------------------------------------------------------------------- weights
def observe_length(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    f = UnscentedKalmanFilter(model, x, u)
    return f._aug_len


def expect_length(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    return int(2 * model.num_hidden_dimensions + model.num_output_dimensions)


def observe_weights(f: UnscentedKalmanFilter, i: int):
    given(i > 0)
    given(i <= 2 * f._aug_len)
    return f.mean_weights[0], f.mean_weights[i], len(f.mean_weights)


def expect_weights(f: UnscentedKalmanFilter, i: int):
    given(i > 0)
    given(i <= 2 * f._aug_len)
    n = f._aug_len
    scale = f.alpha_param ** 2 * (n + f.kappa_param)
    return (scale - n) / scale, 1 / (2 * scale), 2 * n + 1


def observe_cov_weights(f: UnscentedKalmanFilter, i: int):
    given(i > 0)
    given(i <= 2 * f._aug_len)
    return f.cov_weights[0], f.cov_weights[i], len(f.cov_weights)


def expect_cov_weights(f: UnscentedKalmanFilter, i: int):
    given(i > 0)
    given(i <= 2 * f._aug_len)
    n = f._aug_len
    scale = f.alpha_param ** 2 * (n + f.kappa_param)
    return (scale - n) / scale + 1 - f.alpha_param ** 2 + f.beta_param, 1 / (2 * scale), 2 * n + 1


def observe_spread(f: UnscentedKalmanFilter):
    return f.gamma_param


def expect_spread(f: UnscentedKalmanFilter):
    return f.alpha_param * np.sqrt(f._aug_len + f.kappa_param)


def observe_setup(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray, r: np.ndarray,
                  a: float, k: float, b: float):
    f = UnscentedKalmanFilter(model, x, u, q, r, a, k, b)
    return f.alpha_param, f.kappa_param, f.beta_param, f.cov_w, f.cov_v, f.hidden.mean, f.controls.mean


def expect_setup(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray, r: np.ndarray,
                 a: float, k: float, b: float):
    return a, k, b, q, r, x.mean, u.mean


def observe_default_setup(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    f = UnscentedKalmanFilter(model, x, u, kappa_param='automatic')
    return f.alpha_param, f.kappa_param, f.beta_param, f.cov_w, f.cov_v


def expect_default_setup(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    n = model.num_hidden_dimensions
    m = model.num_output_dimensions
    return 1.0, 3 - int(2 * n + m), 2.0, 1e-8 * np.eye(n), 1e-8 * np.eye(m)


def observe_edges(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    """The ends of the allowed ranges belong to them"""
    given(model.num_hidden_dimensions == len(x.mean))
    f = UnscentedKalmanFilter(model, x, u, alpha_param=0.001, beta_param=0.0)
    return f.alpha_param, f.beta_param, f.kappa_param


def expect_edges(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    given(model.num_hidden_dimensions == len(x.mean))
    return 0.001, 0.0, 0.0


def observe_wide(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, a: float):
    given(a > 1)
    return UnscentedKalmanFilter(model, x, u, alpha_param=a)


def expect_wide(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, a: float):
    raise AssertionError()


def observe_narrow(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, a: float):
    given(a < 0.001)
    return UnscentedKalmanFilter(model, x, u, alpha_param=a)


def expect_narrow(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, a: float):
    raise AssertionError()


def observe_negative_beta(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, b: float):
    given(b < 0)
    return UnscentedKalmanFilter(model, x, u, beta_param=b)


def expect_negative_beta(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, b: float):
    raise AssertionError()


def observe_negative_kappa(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, k: float):
    given(int(2 * model.num_hidden_dimensions + model.num_output_dimensions) + k <= 0)
    return UnscentedKalmanFilter(model, x, u, kappa_param=k)


def expect_negative_kappa(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, k: float):
    raise AssertionError()


def observe_wrong_state(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    given(model.num_hidden_dimensions != len(x.mean))
    return UnscentedKalmanFilter(model, x, u)


def expect_wrong_state(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution):
    raise AssertionError()


def observe_wrong_noise(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray):
    given(q.shape[0] != model.num_hidden_dimensions)
    return UnscentedKalmanFilter(model, x, u, covariance_process_noise=q)


def expect_wrong_noise(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray):
    raise AssertionError()


def observe_wrong_noise_shape(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray):
    given(q.shape[1] != q.shape[0])
    return UnscentedKalmanFilter(model, x, u, covariance_process_noise=q)


def expect_wrong_noise_shape(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray):
    raise AssertionError()


def observe_wrong_sensor(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, r: np.ndarray):
    given(r.shape[0] != model.num_output_dimensions)
    return UnscentedKalmanFilter(model, x, u, covariance_sensor_noise=r)


def expect_wrong_sensor(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, r: np.ndarray):
    raise AssertionError()


def observe_wrong_sensor_shape(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, r: np.ndarray):
    given(r.shape[1] != r.shape[0])
    return UnscentedKalmanFilter(model, x, u, covariance_sensor_noise=r)


def expect_wrong_sensor_shape(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, r: np.ndarray):
    raise AssertionError()


def observe_weights_apart(f: UnscentedKalmanFilter):
    """Reading one set of weights does not change the other"""
    c = f.cov_weights
    return f.mean_weights[0], f.cov_weights[0]


def expect_weights_apart(f: UnscentedKalmanFilter):
    m = f.mean_weights[0]
    return m, f.cov_weights[0]


def observe_tuning_defaults():
    return UKFTuningParameters.defaults()


def expect_tuning_defaults():
    return {'alpha_param': 1.0, 'kappa_param': 0.0, 'beta_param': 2.0}


# --------------------------------------------------------------------------- sigma points
def observe_sigma(f: UnscentedKalmanFilter):
    return f.build_sigma_points()


def expect_sigma(f: UnscentedKalmanFilter):
    n = f.model.num_hidden_dimensions
    m = f.model.num_output_dimensions
    center = np.hstack((f.hidden.get_mean(), np.zeros(n + m)))
    root = np.linalg.cholesky(ensure_positive_semi_definite(block_diag(f.hidden.get_covariance(), f.cov_w, f.cov_v))).T
    g = f.alpha_param * np.sqrt(f._aug_len + f.kappa_param)
    return np.vstack((np.zeros((f._aug_len,)), g * root, -g * root)) + center


def observe_split(f: UnscentedKalmanFilter, points: np.ndarray):
    given(points.ndim == 2)
    return f._break_sigma_pts(points)


def expect_split(f: UnscentedKalmanFilter, points: np.ndarray):
    given(points.ndim == 2)
    n = f.model.num_hidden_dimensions
    return points[:, :n], points[:, n:2 * n], points[:, 2 * n:]


# --------------------------------------------------------------------------- prediction
def observe_moments(samples: np.ndarray, wm: np.ndarray, wc: np.ndarray):
    d = assemble_unscented_estimate_from_samples(samples, wm, wc)
    return d['mean'], d['covariance']


def expect_moments(samples: np.ndarray, wm: np.ndarray, wc: np.ndarray):
    mean = np.average(samples, axis=0, weights=wm)
    d = samples - mean
    return mean, d.T @ np.diag(wc) @ d


def observe_prediction(f: UnscentedKalmanFilter, points: np.ndarray, u: DeltaDistribution):
    given(points.ndim == 2)
    x, y, c = f.estimation_update(points, u)
    return x.mean, x.covariance, y.mean, y.covariance, c


def expect_prediction(f: UnscentedKalmanFilter, points: np.ndarray, u: DeltaDistribution):
    given(points.ndim == 2)
    n = f.model.num_hidden_dimensions
    x = f.model.update_hidden_states(hidden_states=points[:, :n], previous_controls=f.controls.get_mean(),
                                     new_controls=u.mean) + points[:, n:2 * n]
    y = f.model.predict_measurement(hidden_states=x, controls=u.mean) + points[:, 2 * n:]
    xm = np.average(x, axis=0, weights=f.mean_weights)
    ym = np.average(y, axis=0, weights=f.mean_weights)
    w = np.diag(f.cov_weights)
    return xm, (x - xm).T @ w @ (x - xm), ym, (y - ym).T @ w @ (y - ym), (x - xm).T @ w @ (y - ym)


# --------------------------------------------------------------------------- correction
def observe_correction(f: UnscentedKalmanFilter, x: MultivariateGaussian, y: MultivariateGaussian, c: np.ndarray,
                       z: DeltaDistribution):
    f.correction_update(x_k_minus=x, y_hat=y, cov_xy=c, y=z)
    return f.hidden.mean, f.hidden.covariance, f.controls.mean


def expect_correction(f: UnscentedKalmanFilter, x: MultivariateGaussian, y: MultivariateGaussian, c: np.ndarray,
                      z: DeltaDistribution):
    gain = c @ np.linalg.inv(y.covariance)
    mean = x.mean + gain @ (z.mean - y.mean)
    cov = x.covariance - gain @ (y.covariance @ gain.T)
    return mean, ensure_positive_semi_definite(cov), f.controls.mean


def observe_gain(c: np.ndarray, s: np.ndarray):
    return calculate_gain_matrix(cov_xy=c, cov_y=s)


def expect_gain(c: np.ndarray, s: np.ndarray):
    return c @ np.linalg.inv(s)


def observe_correction_inputs(f: UnscentedKalmanFilter, x: MultivariateGaussian, y: MultivariateGaussian,
                              c: np.ndarray, z: DeltaDistribution):
    f.correction_update(x_k_minus=x, y_hat=y, cov_xy=c, y=z)
    return x.mean, x.covariance, y.mean, y.covariance, c, z.mean


def expect_correction_inputs(f: UnscentedKalmanFilter, x: MultivariateGaussian, y: MultivariateGaussian,
                             c: np.ndarray, z: DeltaDistribution):
    return x.mean, x.covariance, y.mean, y.covariance, c, z.mean


# --------------------------------------------------------------------------- one step
def observe_step(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution):
    x, y = f.step(u, z)
    return x.mean, x.covariance, y.mean, y.covariance, f.hidden.mean, f.hidden.covariance, f.controls.mean


def expect_step(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution):
    x, y, c = f.estimation_update(f.build_sigma_points(), u)
    f.correction_update(x, y, c, z)
    return (f.hidden.mean, f.hidden.covariance, y.mean, y.covariance, f.hidden.mean, f.hidden.covariance, u.mean)


def observe_step_isolated(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution, v: np.ndarray):
    """What the caller does with the returned and given objects afterwards does not reach the filter"""
    x, y = f.step(u, z)
    x.mean = v
    x.covariance[0, 0] = 5.0
    y.mean[0] = 5.0
    u.mean = v
    z.mean[0] = 7.0
    return f.hidden.mean, f.hidden.covariance, f.controls.mean


def expect_step_isolated(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution, v: np.ndarray):
    f.step(u, z)
    return f.hidden.mean, f.hidden.covariance, f.controls.mean


def observe_step_isolated_inside(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution):
    """The same for changes inside the arrays of what was given and returned"""
    x, y = f.step(u, z)
    u.mean[0] = 6.0
    z.mean[0] = 7.0
    x.mean[0] = 8.0
    y.mean[0] = 9.0
    y.covariance[0, 0] = 10.0
    return f.hidden.mean, f.hidden.covariance, f.controls.mean


def expect_step_isolated_inside(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution):
    f.step(u, z)
    return f.hidden.mean, f.hidden.covariance, f.controls.mean


def observe_step_inputs(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution):
    """A step leaves the given controls and measurements as they are"""
    f.step(u, z)
    return u.mean, z.mean


def expect_step_inputs(f: UnscentedKalmanFilter, u: DeltaDistribution, z: DeltaDistribution):
    return u.mean, z.mean


def observe_start_isolated(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray,
                           r: np.ndarray):
    f = UnscentedKalmanFilter(model, x, u, q, r)
    x.mean[0] = 5.0
    x.covariance[0, 0] = 6.0
    u.mean[0] = 7.0
    q[0, 0] = 8.0
    r[0, 0] = 9.0
    return f.hidden.mean, f.hidden.covariance, f.controls.mean, f.cov_w, f.cov_v


def expect_start_isolated(model: ModelWrapper, x: MultivariateGaussian, u: DeltaDistribution, q: np.ndarray,
                          r: np.ndarray):
    return x.mean, x.covariance, u.mean, q, r


# --------------------------------------------------------------------------- covariance repair
def observe_psd(s: np.ndarray):
    given(s.ndim == 2)
    return ensure_positive_semi_definite(s)


def expect_psd(s: np.ndarray):
    given(s.ndim == 2)
    if np.allclose(s, s.T):
        try:
            np.linalg.cholesky(s)
            return s
        except np.linalg.LinAlgError:
            return enforce_positive_semi_defiteness(s)
    return enforce_positive_semi_defiteness(s)


def observe_psd_pure(s: np.ndarray):
    """A repair leaves the given matrix as it is, and what is returned is the caller's own"""
    given(s.ndim == 2)
    t = ensure_positive_semi_definite(s)
    t[0, 0] = 5.0
    return s


def expect_psd_pure(s: np.ndarray):
    return s


def observe_nearest(s: np.ndarray):
    return enforce_positive_semi_defiteness(s)


def expect_nearest(s: np.ndarray):
    u, d, vt = np.linalg.svd(s)
    h = vt.T @ np.diag(d) @ vt
    return (s + s.T + h + h.T) / 4


# --------------------------------------------------------------------------- a model which returns what it was given
class Direct(ModelWrapper):
    """The state does not change and is observed directly"""

    @property
    def num_hidden_dimensions(self) -> int:
        return 2

    @property
    def num_output_dimensions(self) -> int:
        return 2

    def update_hidden_states(self, hidden_states, previous_controls, new_controls):
        return hidden_states

    def predict_measurement(self, hidden_states, controls):
        return hidden_states


def observe_direct(x: MultivariateGaussian, u: DeltaDistribution, points: np.ndarray):
    given(points.ndim == 2)
    f = UnscentedKalmanFilter(Direct(), x, u)
    a, b, c = f.estimation_update(points, u)
    return a.mean, a.covariance, b.mean, b.covariance


def expect_direct(x: MultivariateGaussian, u: DeltaDistribution, points: np.ndarray):
    given(points.ndim == 2)
    f = UnscentedKalmanFilter(Direct(), x, u)
    x = points[:, :2] + points[:, 2:4]
    y = x + points[:, 4:]
    xm = np.average(x, axis=0, weights=f.mean_weights)
    ym = np.average(y, axis=0, weights=f.mean_weights)
    w = np.diag(f.cov_weights)
    return xm, (x - xm).T @ w @ (x - xm), ym, (y - ym).T @ w @ (y - ym)


def observe_direct_cross(x: MultivariateGaussian, u: DeltaDistribution, points: np.ndarray):
    """The noise of the sensor does not enter the state it is compared with"""
    given(points.ndim == 2)
    f = UnscentedKalmanFilter(Direct(), x, u)
    a, b, c = f.estimation_update(points, u)
    return c


def expect_direct_cross(x: MultivariateGaussian, u: DeltaDistribution, points: np.ndarray):
    given(points.ndim == 2)
    f = UnscentedKalmanFilter(Direct(), x, u)
    x = points[:, :2] + points[:, 2:4]
    y = x + points[:, 4:]
    xm = np.average(x, axis=0, weights=f.mean_weights)
    ym = np.average(y, axis=0, weights=f.mean_weights)
    w = np.diag(f.cov_weights)
    return (x - xm).T @ w @ (y - ym)


def observe_direct_points(x: MultivariateGaussian, u: DeltaDistribution, points: np.ndarray):
    """The points given stay as they are"""
    given(points.ndim == 2)
    f = UnscentedKalmanFilter(Direct(), x, u)
    f.estimation_update(points, u)
    return points


def expect_direct_points(x: MultivariateGaussian, u: DeltaDistribution, points: np.ndarray):
    return points
