"""Parameters read off data of special cycles."""
from typing import Union

import numpy as np
import pandas as pd
from scipy.interpolate import LSQUnivariateSpline
from battdat.data import CellDataset
from battdat.postprocess.integral import CapacityPerCycle

from moirae.extractors.ecm import MaxCapacityExtractor, OCVExtractor
from moirae.models.ecm.components import MaxTheoreticalCapacity, OpenCircuitVoltage, ReferenceOCV


def observe_capacity(e: MaxCapacityExtractor, d: CellDataset):
    return e.extract(d)


def expect_capacity(e: MaxCapacityExtractor, d: CellDataset):
    known = d.tables.get('cycle_stats')
    if known is None or 'capacity_charge' not in known:
        known = CapacityPerCycle().compute_features(d)
    return MaxTheoreticalCapacity(base_values=known['capacity_charge'].max())


def observe_grid(q: float, n: int, r: float, style: str):
    e = OCVExtractor(q, n, r, style)
    return e.soc_points, e.capacity, e.soc_requirement, e.interpolation_style


def expect_grid(q: float, n: int, r: float, style: str):
    return np.linspace(0, 1, n), q, r, style


def observe_points(q: MaxTheoreticalCapacity, x: np.ndarray):
    e = OCVExtractor(q, x)
    return e.soc_points, e.capacity, e.soc_requirement, e.interpolation_style, e.soc_points is x


def expect_points(q: MaxTheoreticalCapacity, x: np.ndarray):
    return x, q.base_values[0, 0], 0.95, 'cubic', False


def curve(e, cycle):
    soc = cycle['cycle_capacity'] / e.capacity
    c = cycle.copy()
    c['soc'] = soc
    c = c.sort_values('soc')
    w = 1. / np.clip(np.abs(c['current']), a_min=1e-6, a_max=None)
    w = w / w.sum()
    f = LSQUnivariateSpline(c['soc'].values, c['voltage'].values, w=w, t=e.soc_points[1:-1])
    return f(e.soc_points)


def observe_curve(e: OCVExtractor, cycle: pd.DataFrame):
    v = e.interpolate_ocv(cycle)
    return v, cycle


def expect_curve(e: OCVExtractor, cycle: pd.DataFrame):
    return curve(e, cycle), cycle


def observe_ocv(e: OCVExtractor, d: CellDataset):
    return e.extract(d), e.soc_points, d.tables['raw_data']


def expect_ocv(e: OCVExtractor, d: CellDataset):
    return OpenCircuitVoltage(ocv_ref=ReferenceOCV(base_values=curve(e, d.tables['raw_data']),
                                                   soc_pinpoints=e.soc_points,
                                                   interpolation_style=e.interpolation_style)), e.soc_points, d.tables['raw_data']


def observe_check(e: OCVExtractor, d: CellDataset):
    e.check_data(d)


def expect_check(e: OCVExtractor, d: CellDataset):
    if 'raw_data' not in d.tables:
        raise ValueError()
    known = d.tables.get('cycle_stats')
    if known is None or 'capacity_charge' not in known.columns:
        CapacityPerCycle().add_summaries(d)
    if d.tables['cycle_stats']['capacity_charge'].max() / e.capacity < e.soc_requirement:
        raise ValueError()
