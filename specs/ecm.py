"""Equivalent circuit model: what one time step and one voltage evaluation must compute."""
import numpy as np

from moirae.models.ecm import EquivalentCircuitModel, ECMInput, ECMTransientVector, ECMASOH, ECMMeasurement
from specs.api import given, same


# --------------------------------------------------------------------------- charge bookkeeping
def slope(model, u0, u1):
    return 0.0 if model.current_behavior == 'constant' else (u1.current - u0.current) / (u1.time - u0.time)


def charge(model, u0, u1):
    dt = u1.time - u0.time
    if model.current_behavior == 'constant':
        return u0.current * dt
    return 0.5 * (u0.current + u1.current) * dt


def observe_soc(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    return model.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=x, asoh=a).soc


def expect_soc(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    efficiency = 1.0 if u0.current < 0 else a.ce
    return x.soc + efficiency * charge(model, u0, u1) / (3600 * a.q_t.base_values)


def observe_q0(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    return model.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=x, asoh=a).q0


def expect_q0(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    if x.q0 is None:
        return None
    return x.q0 + charge(model, u0, u1)


# --------------------------------------------------------------------------- RC currents
def observe_rc(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    same(x.i_rc.shape[1], len(a.rc_elements))
    given(len(a.rc_elements) > 0)
    return model.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=x, asoh=a).i_rc


def expect_rc(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    given(len(a.rc_elements) > 0)
    dt = u1.time - u0.time
    out = []
    for j, rc in enumerate(a.rc_elements):
        tau = rc.time_constant(soc=x.soc, temp=u0.temperature)
        decay = np.exp(-dt / tau)
        start = x.i_rc[:, j]
        if model.current_behavior == 'constant':
            out.append(start * decay + (1 - decay) * u1.current)
        else:
            rate = (u1.current - u0.current) / dt
            out.append(start * decay + (1 - decay) * (u0.current - rate * tau) + rate * dt)
    return np.array(out)


# --------------------------------------------------------------------------- hysteresis
def relax(h, limit, gain, charge_through):
    """Approach of the hysteresis voltage to its limit after an absolute charge has passed"""
    w = np.exp(-gain * charge_through)
    return w * h + (1 - w) * limit


def observe_hyst(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    given(u1.time > u0.time)
    return model.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=x, asoh=a).hyst


def expect_hyst(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    given(u1.time > u0.time)
    dt = u1.time - u0.time
    i0, i1 = u0.current, u1.current
    efficiency = 1.0 if i0 < 0 else a.ce
    gain = efficiency * a.h0.gamma / (3600 * a.q_t.base_values)
    top = a.h0.get_value(soc=x.soc)
    direction = i1 if i0 == 0 else i0
    limit = top if direction > 0 else -top
    if model.current_behavior == 'constant':
        return relax(x.hyst, limit, gain, abs(i0) * dt)
    if i0 * i1 >= 0:
        return relax(x.hyst, limit, gain, 0.5 * abs(i0 + i1) * dt)
    rate = (i1 - i0) / dt
    crossing = -i0 / rate
    middle = relax(x.hyst, limit, gain, 0.5 * abs(i0) * crossing)
    return relax(middle, -limit, gain, 0.5 * abs(i1) * (dt - crossing))


def observe_hyst_rest(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    given(u1.time > u0.time)
    same(u0.current, 0)
    given(model.current_behavior == 'constant')
    return model.update_transient_state(previous_inputs=u0, new_inputs=u1, transient_state=x, asoh=a).hyst


def expect_hyst_rest(model: EquivalentCircuitModel, u0: ECMInput, u1: ECMInput, x: ECMTransientVector, a: ECMASOH):
    given(u1.time > u0.time)
    same(u0.current, 0)
    given(model.current_behavior == 'constant')
    return x.hyst


# --------------------------------------------------------------------------- terminal voltage
def observe_voltage(model: EquivalentCircuitModel, u: ECMInput, x: ECMTransientVector, a: ECMASOH):
    same(x.i_rc.shape[1], len(a.rc_elements))
    return model.calculate_terminal_voltage(new_inputs=u, transient_state=x, asoh=a)


def expect_voltage(model: EquivalentCircuitModel, u: ECMInput, x: ECMTransientVector, a: ECMASOH):
    v = a.ocv.get_value(x.soc, temp=u.temperature)
    v = v + u.current * a.r0.get_value(x.soc, temp=u.temperature)
    if x.q0 is not None:
        v = v + x.q0 / a.c0.get_value(x.soc)
    for j, rc in enumerate(a.rc_elements):
        v = v + x.i_rc[:, j] * rc.r.get_value(x.soc, temp=u.temperature)
    v = v + x.hyst
    return ECMMeasurement(terminal_voltage=v)
