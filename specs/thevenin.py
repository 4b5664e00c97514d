"""Adapter to the Thevenin package, and its parameters."""
import numpy as np
from functools import partial
from numpy.polynomial.polynomial import polyval
from thevenin import Experiment, Model

from moirae.models.base import OutputQuantities
from moirae.models.thevenin import TheveninModel
from moirae.models.thevenin.components import SOCPolynomialVariable, SOCTempPolynomialVariable
from moirae.models.thevenin.ins_outs import TheveninInput
from moirae.models.thevenin.state import TheveninASOH, TheveninTransient


def observe_voltage(m: TheveninModel, u: TheveninInput, t: TheveninTransient, a: TheveninASOH):
    return m.calculate_terminal_voltage(u, t, a)


def expect_voltage(m: TheveninModel, u: TheveninInput, t: TheveninTransient, a: TheveninASOH):
    x = t.soc[:, 0]
    v = a.ocv(x) + u.current[:, 0] * a.r[0](x, t.temp[:, 0]) - t.eta.sum(axis=1)
    return OutputQuantities(terminal_voltage=v)


def observe_soc_curve(p: SOCPolynomialVariable, x: np.ndarray):
    return p(x)


def expect_soc_curve(p: SOCPolynomialVariable, x: np.ndarray):
    return polyval(x, p.coeffs.T, tensor=False)


def observe_soc_member(p: SOCPolynomialVariable, x: float, i: int):
    return p(x, i)


def expect_soc_member(p: SOCPolynomialVariable, x: float, i: int):
    return polyval(x, p.coeffs[i % p.batch_size, :], tensor=False)


def observe_temp_curve(p: SOCTempPolynomialVariable, x: np.ndarray, t: np.ndarray):
    return p(x, t)


def expect_temp_curve(p: SOCTempPolynomialVariable, x: np.ndarray, t: np.ndarray):
    return polyval(x, p.soc_coeffs.T, tensor=False) + polyval(t - p.t_ref[:, 0], p.t_coeffs.T, tensor=False)


def observe_temp_member(p: SOCTempPolynomialVariable, x: float, t: float, i: int):
    return p(x, t, i)


def expect_temp_member(p: SOCTempPolynomialVariable, x: float, t: float, i: int):
    return polyval(x, p.soc_coeffs[i % p.soc_coeffs.shape[0], :], tensor=False) + \
        polyval(t - p.t_ref[i % p.t_ref.shape[0], 0], p.t_coeffs[i % p.t_coeffs.shape[0], :], tensor=False)


def observe_rest(a: TheveninASOH, soc: float, temp: float):
    return TheveninTransient.from_asoh(a, soc, temp), TheveninTransient.from_asoh(a), a.num_rc_elements


def expect_rest(a: TheveninASOH, soc: float, temp: float):
    n = len(a.c)
    return TheveninTransient(soc=soc, temp=temp, eta=np.zeros((1, n))), \
        TheveninTransient(soc=0., temp=298., eta=np.zeros((1, n))), n


def circuits(m, t, a, u):
    out = []
    for b in range(max(t.batch_size, a.batch_size, u.batch_size)):
        n = len(a.c)
        p = {'num_RC_pairs': n, 'isothermal': m.isothermal,
             'soc0': t.soc[b % t.soc.shape[0], 0], 'capacity': a.capacity[b % a.capacity.shape[0], 0],
             'mass': a.mass[b % a.mass.shape[0], 0], 'Cp': a.c_p[b % a.c_p.shape[0], 0],
             'T_inf': u.t_inf[b % u.t_inf.shape[0], 0], 'h_therm': a.h_thermal[b % a.h_thermal.shape[0], 0],
             'A_therm': a.a_therm[b % a.a_therm.shape[0], 0],
             'ocv': partial(a.ocv, batch_id=b), 'R0': partial(a.r[0], batch_id=b)}
        for j in range(n):
            p[f'R{j + 1}'] = partial(a.r[j + 1], batch_id=b)
            p[f'C{j + 1}'] = partial(a.c[j], batch_id=b)
        model = Model(params=p)
        if n > 0:
            model._sv0[model._ptr['eta_j']] = t.eta[b % t.eta.shape[0]]
        out.append(model)
    return out


def observe_circuits(m: TheveninModel, u: TheveninInput, t: TheveninTransient, a: TheveninASOH):
    return list(m._make_models(t, a, u))


def expect_circuits(m: TheveninModel, u: TheveninInput, t: TheveninTransient, a: TheveninASOH):
    return circuits(m, t, a, u)


def observe_advance(m: TheveninModel, p: TheveninInput, u: TheveninInput, t: TheveninTransient, a: TheveninASOH):
    return m.update_transient_state(p, u, t, a)


def expect_advance(m: TheveninModel, p: TheveninInput, u: TheveninInput, t: TheveninTransient, a: TheveninASOH):
    values = np.zeros((max(t.batch_size, a.batch_size, u.batch_size), len(t)))
    for i, model in enumerate(circuits(m, t, a, u)):
        e = Experiment()
        e.add_step('current_A', -u.current[i % u.current.shape[0]],
                   (u.time[i % u.time.shape[0], 0] - p.time[i % p.time.shape[0], 0], 2))
        r = model.run(e)
        values[i, 0] = r.vars['soc'][-1]
        values[i, 1] = r.vars['temperature_K'][-1]
        for j in range(len(a.c)):
            values[i, 2 + j] = r.vars[f'eta{j + 1}_V'][-1]
    return t.make_copy(values)


def observe_uneven(r: list[SOCTempPolynomialVariable], c: list[SOCTempPolynomialVariable]):
    return TheveninASOH(r=r, c=c)


def expect_uneven(r: list[SOCTempPolynomialVariable], c: list[SOCTempPolynomialVariable]):
    if len(r) != len(c) + 1:
        raise ValueError()
    return TheveninASOH(r=r, c=c)
