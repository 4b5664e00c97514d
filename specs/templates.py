"""Templates of circuits and of their states."""
from typing import List, Tuple

import numpy as np

from moirae.models.ecm.advancedSOH import ECMASOH
from moirae.models.ecm.components import (Capacitance, EntropicOCV, HysteresisParameters, MaxTheoreticalCapacity,
                                          OpenCircuitVoltage, RCComponent, ReferenceOCV, Resistance)
from moirae.models.ecm.transient import ECMTransientVector
from moirae.models.ecm.utils import realistic_fake_ocv
from specs.api import given


def circuit(q, ce, ocv, r0, h0, c0, rc):
    return ECMASOH(
        q_t=MaxTheoreticalCapacity(base_values=q), ce=ce,
        ocv=OpenCircuitVoltage(ocv_ref=ocv, ocv_ent=EntropicOCV(base_values=0.005)),
        r0=Resistance(base_values=r0, temperature_dependence_factor=0.0025),
        h0=HysteresisParameters(base_values=h0, gamma=0.9), c0=c0, rc_elements=rc)


def usual_ocv():
    y = 0.05 + 0.9 * np.linspace(0, 1, 20)
    return ReferenceOCV(base_values=3.5 + 0.1 * np.log(y / (1 - y)), interpolation_style='cubic')


def observe_curve(x: np.ndarray):
    return realistic_fake_ocv(x)


def expect_curve(x: np.ndarray):
    y = 0.05 + 0.9 * x
    return 3.5 + 0.1 * np.log(y / (1 - y))


def observe_plain(has: bool):
    return ECMASOH.provide_template(has_C0=False, num_RC=0)


def expect_plain(has: bool):
    return circuit(10., 1., usual_ocv(), 0.05, 0.05, None, ())


def observe_given(q: float, e: float, v: np.ndarray, r: np.ndarray, c: np.ndarray, h: np.ndarray):
    return ECMASOH.provide_template(has_C0=True, num_RC=0, qt=q, CE=e, OCV=v, R0=r, C0=c, H0=h)


def expect_given(q: float, e: float, v: np.ndarray, r: np.ndarray, c: np.ndarray, h: np.ndarray):
    return circuit(q, e, ReferenceOCV(base_values=v), r, h, Capacitance(base_values=c), ())


def observe_capacitor(q: float):
    a = ECMASOH.provide_template(has_C0=True, num_RC=0, qt=q)
    b = ECMASOH.provide_template(has_C0=False, num_RC=0, qt=q, C0=1.)
    return a, b.c0


def expect_capacitor(q: float):
    return circuit(q, 1., usual_ocv(), 0.05, 0.05, Capacitance(base_values=q * 3600 / 0.01), ()), None


def observe_elements(n: int):
    given(n > 0)
    a = ECMASOH.provide_template(has_C0=False, num_RC=n)
    return a


def expect_elements(n: int):
    given(n > 0)
    rc = tuple(RCComponent(r=Resistance(base_values=0.01, temperature_dependence_factor=0.0025),
                           c=Capacitance(base_values=2500)) for _ in range(n))
    return circuit(10., 1., usual_ocv(), 0.05, 0.05, None, rc)


def observe_given_elements(rc: List[Tuple[np.ndarray, np.ndarray]]):
    given(len(rc) > 0)
    return ECMASOH.provide_template(has_C0=False, num_RC=len(rc), RC=rc)


def expect_given_elements(rc: List[Tuple[np.ndarray, np.ndarray]]):
    given(len(rc) > 0)
    es = tuple(RCComponent(r=Resistance(base_values=x, temperature_dependence_factor=0.0025),
                           c=Capacitance(base_values=y)) for x, y in rc)
    return circuit(10., 1., usual_ocv(), 0.05, 0.05, None, es)


def observe_uneven(rc: List[Tuple[np.ndarray, np.ndarray]], n: int):
    given(n > 0)
    given(n != len(rc))
    return ECMASOH.provide_template(has_C0=False, num_RC=n, RC=rc)


def expect_uneven(rc: List[Tuple[np.ndarray, np.ndarray]], n: int):
    raise ValueError()


def observe_own_elements(v: np.ndarray):
    # changing one element of the template does not change another
    a = ECMASOH.provide_template(has_C0=False, num_RC=3)
    a.rc_elements[0].r.base_values = v
    return a.rc_elements[1].r.base_values, a.rc_elements[2].r.base_values


def expect_own_elements(v: np.ndarray):
    r = Resistance(base_values=0.01).base_values
    return r, r


def observe_state(n: int, s: float, q: float, i: float, h: float):
    return ECMTransientVector.provide_template(True, n, s, q, i, h), \
        ECMTransientVector.provide_template(False, n, s, q, i, h), ECMTransientVector.provide_template(True, n)


def expect_state(n: int, s: float, q: float, i: float, h: float):
    return ECMTransientVector(soc=s, q0=q, i_rc=i * np.ones(n), hyst=h), \
        ECMTransientVector(soc=s, q0=None, i_rc=i * np.ones(n), hyst=h), \
        ECMTransientVector(soc=0., q0=0., i_rc=np.zeros(n), hyst=0.)


def observe_currents(x: np.ndarray):
    return ECMTransientVector.provide_template(False, len(x), i_rc=x)


def expect_currents(x: np.ndarray):
    return ECMTransientVector(soc=0., q0=None, i_rc=x, hyst=0.)


def observe_uneven_currents(x: np.ndarray, n: int):
    given(n != len(x))
    return ECMTransientVector.provide_template(False, n, i_rc=x)


def expect_uneven_currents(x: np.ndarray, n: int):
    raise ValueError()


def observe_rest(a: ECMASOH):
    return ECMTransientVector.from_asoh(a)


def expect_rest(a: ECMASOH):
    return ECMTransientVector(soc=0., q0=None if a.c0 is None else 0., i_rc=np.zeros(len(a.rc_elements)), hyst=0.)
