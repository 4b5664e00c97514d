"""Laws of the individual circuit elements."""
import numpy as np
from scipy.integrate import trapezoid
from scipy.interpolate import interp1d

from moirae.models.base import ScalarParameter, InputQuantities, GeneralContainer, OutputQuantities
from moirae.models.ecm import ECMASOH
from moirae.models.ecm.components import (MaxTheoreticalCapacity, Resistance, RCComponent, OpenCircuitVoltage,
                                          Capacitance)
from moirae.models.ecm.utils import SOCInterpolatedHealth, realistic_fake_ocv
from specs.api import given, same


def observe_capacity_units(q: MaxTheoreticalCapacity):
    return q.value, q.amp_hour


def expect_capacity_units(q: MaxTheoreticalCapacity):
    return 3600 * q.base_values, q.base_values


def observe_capacity_set(q: MaxTheoreticalCapacity, amount: ScalarParameter):
    q.value = amount
    return q.base_values, q.value


def expect_capacity_set(q: MaxTheoreticalCapacity, amount: ScalarParameter):
    return amount / 3600, amount


def observe_resistance(r: Resistance, soc: ScalarParameter, temp: ScalarParameter):
    return r.get_value(soc, temp=temp)


def expect_resistance(r: Resistance, soc: ScalarParameter, temp: ScalarParameter):
    return Capacitance.get_value(r, soc) * np.exp(
        -r.temperature_dependence_factor * (temp - r.reference_temperature))


def observe_resistance_no_temp(r: Resistance, soc: ScalarParameter):
    return r.get_value(soc), r.get_value(soc=soc, temp=None)


def expect_resistance_no_temp(r: Resistance, soc: ScalarParameter):
    v = Capacitance.get_value(r, soc)
    return v, v


def observe_rc(rc: RCComponent, soc: ScalarParameter, temp: ScalarParameter):
    r, c = rc.get_value(soc=soc, temp=temp)
    return r, c, rc.time_constant(soc=soc, temp=temp)


def expect_rc(rc: RCComponent, soc: ScalarParameter, temp: ScalarParameter):
    r = rc.r.get_value(soc, temp=temp)
    c = rc.c.get_value(soc)
    return r, c, r * c


def observe_ocv(ocv: OpenCircuitVoltage, soc: ScalarParameter, temp: ScalarParameter):
    return ocv.get_value(soc, temp=temp), ocv(soc, temp=temp)


def expect_ocv(ocv: OpenCircuitVoltage, soc: ScalarParameter, temp: ScalarParameter):
    v = ocv.ocv_ref.get_value(soc) + (temp - ocv.ocv_ref.reference_temperature) * ocv.ocv_ent.get_value(soc)
    return v, v


def observe_ocv_no_temp(ocv: OpenCircuitVoltage, soc: ScalarParameter):
    return ocv.get_value(soc), ocv(soc)


def expect_ocv_no_temp(ocv: OpenCircuitVoltage, soc: ScalarParameter):
    v = ocv.ocv_ref.get_value(soc)
    return v, v


def observe_energy(a: ECMASOH, lo: float, hi: float, temp: float):
    return a.get_theoretical_energy((lo, hi), temp), a.get_theoretical_energy((hi, lo), temp)


def expect_energy(a: ECMASOH, lo: float, hi: float, temp: float):
    soc = np.linspace(min(lo, hi), max(lo, hi), 100)
    e = trapezoid(a.ocv.get_value(soc, temp=temp), x=soc, axis=-1) * a.q_t.base_values
    return e, e


def observe_interpolation(h: Capacitance, soc: ScalarParameter):
    given(h.base_values.shape[-1] > 1)
    given(h.soc_pinpoints is not None)
    return h.get_value(soc)


def expect_interpolation(h: Capacitance, soc: ScalarParameter):
    given(h.base_values.shape[-1] > 1)
    given(h.soc_pinpoints is not None)
    f = interp1d(h.soc_pinpoints, h.base_values, kind=h.interpolation_style, bounds_error=False,
                 fill_value='extrapolate')
    return f(soc).reshape((h.base_values.shape[0], soc.shape[0], soc.shape[1]))


def observe_interpolation_even(h: Capacitance, soc: ScalarParameter):
    given(h.base_values.shape[-1] > 1)
    given(h.soc_pinpoints is None)
    return h.get_value(soc)


def expect_interpolation_even(h: Capacitance, soc: ScalarParameter):
    given(h.base_values.shape[-1] > 1)
    given(h.soc_pinpoints is None)
    f = interp1d(np.linspace(0, 1, h.base_values.shape[-1]), h.base_values, kind=h.interpolation_style,
                 bounds_error=False, fill_value='extrapolate')
    return f(soc).reshape((h.base_values.shape[0], soc.shape[0], soc.shape[1]))


def observe_constant(h: Capacitance, soc: ScalarParameter):
    given(h.base_values.shape[-1] == 1)
    return h.get_value(soc)


def expect_constant(h: Capacitance, soc: ScalarParameter):
    given(h.base_values.shape[-1] == 1)
    return np.swapaxes(np.tile(h.base_values[:, 0][:, None], (soc.shape[0], 1, soc.shape[1])), 0, 1)
