"""Conversions between coordinate systems, and the distributions they act on."""
from typing import List

import numpy as np
from scipy.linalg import block_diag

from moirae.estimators.online.filters.base import ModelWrapper, BaseFilter, ModelWrapperConverters
from moirae.estimators.online.filters.conversions import (
    ConversionOperator, IdentityConversionOperator, LinearConversionOperator, FirstOrderTaylorConversionOperator,
    AbsoluteValueConversionOperator)
from moirae.estimators.online.filters.distributions import MultivariateGaussian, DeltaDistribution
from specs.api import given, same, Exact


# --------------------------------------------------------------------------- identity
def observe_identity(o: Exact[IdentityConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    return (o.transform_samples(x), o.inverse_transform_samples(x), o.transform_covariance(s, p),
            o.inverse_transform_covariance(s, p))


def expect_identity(o: Exact[IdentityConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    return x, x, s, s


# --------------------------------------------------------------------------- linear
def observe_linear(o: Exact[LinearConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.multiplicative_array.ndim == 2)
    return (o.transform_samples(x), o.inverse_transform_samples(x), o.transform_covariance(s, p),
            o.inverse_transform_covariance(s, p))


def expect_linear(o: Exact[LinearConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.multiplicative_array.ndim == 2)
    m = o.multiplicative_array
    b = o.additive_array
    w = np.linalg.pinv(m)
    return x @ m + b, (x - b) @ w, m.T @ s @ m, w.T @ s @ w


def observe_factor(o: Exact[LinearConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.multiplicative_array.ndim == 0)
    return (o.transform_samples(x), o.inverse_transform_samples(x), o.transform_covariance(s, p),
            o.inverse_transform_covariance(s, p))


def expect_factor(o: Exact[LinearConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.multiplicative_array.ndim == 0)
    m = o.multiplicative_array
    b = o.additive_array
    return m * x + b, (x - b) / m, m ** 2 * s, s / m ** 2


def observe_diagonal(m: np.ndarray, b: np.ndarray):
    given(m.ndim == 1)
    given(b.ndim == 1)
    o = LinearConversionOperator(multiplicative_array=m, additive_array=b)
    return o.multiplicative_array, o.additive_array


def expect_diagonal(m: np.ndarray, b: np.ndarray):
    given(m.ndim == 1)
    given(b.ndim == 1)
    return np.diag(m), b


def observe_matrix(m: np.ndarray, b: np.ndarray):
    given(m.ndim == 2)
    given(b.ndim == 1)
    o = LinearConversionOperator(multiplicative_array=m, additive_array=b)
    return o.multiplicative_array, o.additive_array


def expect_matrix(m: np.ndarray, b: np.ndarray):
    given(m.ndim == 2)
    given(b.ndim == 1)
    return m, b


def observe_bad_offset(m: np.ndarray, b: np.ndarray):
    given(b.ndim > 1)
    return LinearConversionOperator(multiplicative_array=m, additive_array=b)


def expect_bad_offset(m: np.ndarray, b: np.ndarray):
    raise ValueError()


def observe_bad_matrix(m: np.ndarray, b: np.ndarray):
    given(m.ndim > 2)
    return LinearConversionOperator(multiplicative_array=m, additive_array=b)


def expect_bad_matrix(m: np.ndarray, b: np.ndarray):
    raise ValueError()


# --------------------------------------------------------------------------- first order expansion
class Bent(FirstOrderTaylorConversionOperator):
    def get_jacobian(self, pivot):
        return np.outer(pivot, pivot)

    def get_inverse_jacobian(self, transformed_pivot):
        return np.diag(transformed_pivot)


def observe_taylor(o: Bent, s: np.ndarray, p: np.ndarray):
    return o.transform_covariance(s, p), o.inverse_transform_covariance(s, p)


def expect_taylor(o: Bent, s: np.ndarray, p: np.ndarray):
    j = np.outer(p, p)
    k = np.diag(p)
    return j.T @ s @ j, k.T @ s @ k


# --------------------------------------------------------------------------- absolute value
def observe_abs(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.indices is None)
    return (o.transform_samples(x), o.inverse_transform_samples(x), o.transform_covariance(s, p),
            o.inverse_transform_covariance(s, p))


def expect_abs(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.indices is None)
    j = np.diag(np.where(p >= 0, 1., -1.))
    return np.abs(x), x, j.T @ s @ j, np.eye(p.size).T @ s @ np.eye(p.size)


def observe_abs_some(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.indices is not None)
    given(x.ndim == 2)
    return o.transform_samples(x), o.inverse_transform_samples(x), o.transform_covariance(s, p)


def expect_abs_some(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray, s: np.ndarray, p: np.ndarray):
    given(o.indices is not None)
    given(x.ndim == 2)
    y = x.copy()
    y[:, o.indices] = np.abs(x[:, o.indices])
    d = np.ones(p.size)
    d[o.indices] = np.where(p[o.indices] >= 0, 1., -1.)
    return y, x, np.diag(d) @ s @ np.diag(d)


def observe_abs_some_vector(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray):
    given(o.indices is not None)
    given(x.ndim == 1)
    return o.transform_samples(x)


def expect_abs_some_vector(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray):
    given(o.indices is not None)
    given(x.ndim == 1)
    y = x.copy()
    y[o.indices] = np.abs(x[o.indices])
    return y


def observe_abs_pure(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray, p: np.ndarray):
    o.transform_samples(x)
    o.inverse_transform_samples(x)[0] = 7.0
    o.get_jacobian(p)
    return x, p


def expect_abs_pure(o: Exact[AbsoluteValueConversionOperator], x: np.ndarray, p: np.ndarray):
    return x, p


# --------------------------------------------------------------------------- distributions
def observe_gaussian_convert(g: MultivariateGaussian, o: ConversionOperator):
    a = g.convert(o)
    b = g.convert(o, inverse=True)
    return a.mean, a.covariance, b.mean, b.covariance, g.mean, g.covariance


def expect_gaussian_convert(g: MultivariateGaussian, o: ConversionOperator):
    return (o.transform_samples(samples=g.mean), o.transform_covariance(covariance=g.covariance, pivot=g.mean),
            o.inverse_transform_samples(transformed_samples=g.mean),
            o.inverse_transform_covariance(transformed_covariance=g.covariance, transformed_pivot=g.mean),
            g.mean, g.covariance)


def observe_delta_convert(g: DeltaDistribution, o: ConversionOperator):
    return g.convert(o).mean, g.convert(o, inverse=True).mean, g.mean


def expect_delta_convert(g: DeltaDistribution, o: ConversionOperator):
    return o.transform_samples(samples=g.mean), o.inverse_transform_samples(transformed_samples=g.mean), g.mean


def observe_gaussian_combine(g: MultivariateGaussian, others: List[MultivariateGaussian]):
    c = g.combine_with(others)
    return c.mean, c.covariance


def expect_gaussian_combine(g: MultivariateGaussian, others: List[MultivariateGaussian]):
    return (np.concatenate([g.mean] + [o.mean for o in others], axis=None),
            block_diag(g.covariance, *[o.covariance for o in others]))


def observe_delta_combine(g: DeltaDistribution, others: List[DeltaDistribution]):
    return g.combine_with(others).mean


def expect_delta_combine(g: DeltaDistribution, others: List[DeltaDistribution]):
    return np.concatenate([g.mean] + [o.mean for o in others], axis=None)


def observe_moments(g: MultivariateGaussian, d: DeltaDistribution):
    return g.get_mean(), g.get_covariance(), d.get_mean(), d.get_covariance(), g.num_dimensions, d.num_dimensions


def expect_moments(g: MultivariateGaussian, d: DeltaDistribution):
    return (g.mean, g.covariance, d.mean, np.zeros((d.mean.shape[0], d.mean.shape[0])), len(g.mean), len(d.mean))


def observe_moments_isolated(g: MultivariateGaussian, d: DeltaDistribution):
    """Changing what is returned does not change the distribution"""
    g.get_mean()[0] = 1.0
    g.get_covariance()[0, 0] = 2.0
    d.get_mean()[0] = 3.0
    return g.mean, g.covariance, d.mean


def expect_moments_isolated(g: MultivariateGaussian, d: DeltaDistribution):
    return g.mean, g.covariance, d.mean


def observe_combine_isolated(g: MultivariateGaussian, h: MultivariateGaussian):
    """Combining leaves both parts as they are"""
    c = g.combine_with([h])
    c.mean[0] = 1.0
    c.covariance[0, 0] = 1.0
    return g.mean, g.covariance, h.mean, h.covariance


def expect_combine_isolated(g: MultivariateGaussian, h: MultivariateGaussian):
    return g.mean, g.covariance, h.mean, h.covariance


def observe_column_mean(m: np.ndarray):
    given(m.ndim == 2)
    return DeltaDistribution(mean=m)


def expect_column_mean(m: np.ndarray):
    raise ValueError()


def observe_column_gaussian(m: np.ndarray, s: np.ndarray):
    given(m.ndim == 2)
    return MultivariateGaussian(mean=m, covariance=s)


def expect_column_gaussian(m: np.ndarray, s: np.ndarray):
    raise ValueError()


def observe_flat_covariance(m: np.ndarray, s: np.ndarray):
    given(s.ndim != 2)
    return MultivariateGaussian(mean=m, covariance=s)


def expect_flat_covariance(m: np.ndarray, s: np.ndarray):
    raise ValueError()


def observe_wrong_covariance(m: np.ndarray, s: np.ndarray):
    given(m.ndim == 1)
    given(s.ndim == 2)
    given(s.shape[0] != m.shape[0])
    return MultivariateGaussian(mean=m, covariance=s)


def expect_wrong_covariance(m: np.ndarray, s: np.ndarray):
    raise ValueError()


def observe_gaussian_fields(m: np.ndarray, s: np.ndarray):
    given(m.ndim == 1)
    g = MultivariateGaussian(mean=m, covariance=s)
    return g.mean, g.covariance


def expect_gaussian_fields(m: np.ndarray, s: np.ndarray):
    return m, s
