"""Simulation, losses of a simulation against data, and their minimisation."""
from typing import List

import numpy as np
import pandas as pd
from scipy.optimize import minimize
from battdat.data import BatteryDataset, CellDataset

from moirae.estimators.offline.loss import BaseLoss, MeanSquaredLoss
from moirae.estimators.offline.scipy import ScipyMinimizer
from moirae.interface import row_to_inputs
from moirae.models.base import (CellModel, DegradationModel, GeneralContainer, HealthVariable, InputQuantities,
                                OutputQuantities)
from moirae.models.utils import NoDegradation
from moirae.simulator import Simulator
from specs.api import given, same


def recording(s):
    # the lists exist exactly when a history is kept
    for h in [s.input_history, s.transient_history, s.asoh_history, s.measurement_history]:
        given((h is not None) if s.keep_history else (h is None))


# --------------------------------------------------------------------------- simulation
def observe_start(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, d: DegradationModel):
    s = Simulator(m, a, t, u, d, True)
    return (s.transient, s.asoh, s.previous_input, s.measurement, s.input_history, s.transient_history,
            s.asoh_history, s.measurement_history)


def expect_start(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities, d: DegradationModel):
    y = m.calculate_terminal_voltage(u, t, a)
    return t, a, u, y, [u], [t], [a], [y]


def observe_start_plain(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    s = Simulator(m, a, t, u)
    return s.input_history, s.transient_history, s.asoh_history, s.measurement_history, isinstance(s.degradation_model, NoDegradation)


def expect_start_plain(m: CellModel, a: HealthVariable, t: GeneralContainer, u: InputQuantities):
    return None, None, None, None, True


def observe_step(s: Simulator, u: InputQuantities):
    x, y = s.step(u)
    return x, y, s.transient, s.asoh, s.previous_input, s.measurement


def expect_step(s: Simulator, u: InputQuantities):
    x = s.model.update_transient_state(s.previous_input, u, s.transient, s.asoh)
    y = s.model.calculate_terminal_voltage(u, x, s.asoh)
    h = s.degradation_model.update_asoh(s.asoh, u, x, y)
    return x, y, x, h, u, y


def observe_history(s: Simulator, u: InputQuantities):
    recording(s)
    s.step(u)
    return s.input_history, s.transient_history, s.asoh_history, s.measurement_history


def expect_history(s: Simulator, u: InputQuantities):
    recording(s)
    x = s.model.update_transient_state(s.previous_input, u, s.transient, s.asoh)
    y = s.model.calculate_terminal_voltage(u, x, s.asoh)
    h = s.degradation_model.update_asoh(s.asoh, u, x, y)
    if s.keep_history:
        return s.input_history + [u], s.transient_history + [x], s.asoh_history + [h], s.measurement_history + [y]
    return s.input_history, s.transient_history, s.asoh_history, s.measurement_history


def observe_evolve(s: Simulator, us: List[InputQuantities]):
    return s.evolve(us), s.transient, s.asoh


def expect_evolve(s: Simulator, us: List[InputQuantities]):
    out = []
    for u in us:
        x, y = s.step(u)
        out.append(y)
    return out, s.transient, s.asoh


def observe_no_history(s: Simulator):
    given(not s.keep_history)
    return s.to_dataframe()


def expect_no_history(s: Simulator):
    raise ValueError()


def table(parts, n):
    values = np.concatenate([x.to_numpy() if x.batch_size == n else np.repeat(x.to_numpy(), n, axis=0)
                             for x in parts], axis=0)
    return pd.DataFrame(values, columns=parts[0].all_names)


def frame(s):
    n = s.measurement.batch_size
    return pd.concat([pd.DataFrame({'batch': np.tile(np.arange(n), len(s.input_history))}), table(s.input_history, n),
                      table(s.transient_history, n), table(s.measurement_history, n)], axis=1)


def observe_table(s: Simulator):
    given(s.keep_history)
    recording(s)
    return s.to_dataframe()


def expect_table(s: Simulator):
    given(s.keep_history)
    recording(s)
    return frame(s)


def observe_datasets(s: Simulator):
    given(s.keep_history)
    recording(s)
    return [b.raw_data for b in s.to_batdata()]


def expect_datasets(s: Simulator):
    given(s.keep_history)
    recording(s)
    df = frame(s)
    df = df.rename(columns={'time': 'test_time', 'terminal_voltage': 'voltage'})
    return [CellDataset(raw_data=g.drop(columns=['batch'])).raw_data for _, g in df.groupby('batch')]


def observe_no_degradation(d: NoDegradation, a: HealthVariable, u: InputQuantities, t: GeneralContainer, y: OutputQuantities):
    h = d.update_asoh(a, u, t, y)
    return h, h is a


def expect_no_degradation(d: NoDegradation, a: HealthVariable, u: InputQuantities, t: GeneralContainer, y: OutputQuantities):
    return a, False


# --------------------------------------------------------------------------- losses
def observe_x0(m: CellModel, a: HealthVariable, t: GeneralContainer, d: BatteryDataset):
    return BaseLoss(m, a, t, d).get_x0()


def expect_x0(m: CellModel, a: HealthVariable, t: GeneralContainer, d: BatteryDataset):
    if a.num_updatable == 0:
        return t.to_numpy()[0]
    return np.concatenate([t.to_numpy(), a.get_parameters()], axis=1)[0]


def observe_loss(f: MeanSquaredLoss, x: np.ndarray):
    return f(x)


def expect_loss(f: MeanSquaredLoss, x: np.ndarray):
    n = len(f.state)
    t, a = f.state.make_copy(x[:, :n]), f.asoh.make_copy(x[:, n:])
    data = f.observations.tables['raw_data']
    u, y = row_to_inputs(data.iloc[0])
    sim = Simulator(f.cell_model, a, t, u)
    seen, found = np.zeros((len(data), x.shape[0], len(y))), np.zeros((len(data), x.shape[0], len(y)))
    seen[0] = y.to_numpy()
    found[0] = f.cell_model.calculate_terminal_voltage(u, t, a).to_numpy()
    i = 1
    for _, row in f.observations.raw_data.iloc[1:].iterrows():
        u, y = row_to_inputs(row)
        _, z = sim.step(u)
        seen[i] = y.to_numpy()
        found[i] = z.to_numpy()
        i += 1
    return np.mean((seen - found) ** 2, axis=(0, 2))


def observe_guess(f: BaseLoss):
    return ScipyMinimizer(f, method='Powell').estimate()


def expect_guess(f: BaseLoss):
    x0 = f.get_x0()
    y0 = f(x0[None, :]).item()
    r = minimize(fun=lambda x: f(x[None, :]).item() / max(abs(y0), 1e-12), x0=x0, method='Powell')
    n = len(f.state)
    return f.state.make_copy(r.x[None, :n]), f.asoh.make_copy(r.x[None, n:]), r
