"""Arrays written as JSON lists and read again."""
import numpy as np

from moirae.models.base import ListParameter, ScalarParameter, _encode_ndarray, enforce_dimensions
from moirae.models.ecm.utils import SOCInterpolatedHealth
from specs.api import given


def observe_list(x: ListParameter):
    return enforce_dimensions(_encode_ndarray(x, None), 1)


def expect_list(x: ListParameter):
    return x


def observe_scalar(x: np.ndarray):
    return enforce_dimensions(_encode_ndarray(x, None), 0)


def expect_scalar(x: np.ndarray):
    return enforce_dimensions(x, 0)


def observe_pinpoints(h: SOCInterpolatedHealth, v: np.ndarray):
    given(h.soc_pinpoints is not None)
    # as the declaration of the field has it: encoded by its serializer, decoded by its validator
    return SOCInterpolatedHealth(base_values=v, soc_pinpoints=h._serialize_numpy(h.soc_pinpoints)).soc_pinpoints


def expect_pinpoints(h: SOCInterpolatedHealth, v: np.ndarray):
    given(h.soc_pinpoints is not None)
    return h.soc_pinpoints
