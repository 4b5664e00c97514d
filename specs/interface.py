"""Running an estimator over a dataset, and the file its estimates are written to."""
import json
from pathlib import Path
from typing import Any, Optional

import h5py
import numpy as np
import pandas as pd
from math import isfinite
from battdat.data import BatteryDataset
from battdat.streaming import iterate_records_from_file

from moirae.estimators.online import OnlineEstimator
from moirae.estimators.online.filters.distributions import (MultivariateRandomDistribution, MultivariateGaussian,
                                                            DeltaDistribution)
from moirae.interface import row_to_inputs, run_online_estimate
from moirae.interface.hdf5 import HDF5Writer, read_state_estimates
from moirae.models.ecm import ECMInput, ECMMeasurement
from specs.api import Exact, given, same


# --------------------------------------------------------------------------- rows
def observe_row(row: pd.Series, t: float):
    u, y = row_to_inputs(row, t)
    return u.time, u.current, u.temperature, y.terminal_voltage


def expect_row(row: pd.Series, t: float):
    return (np.atleast_2d(row['test_time']), np.atleast_2d(row['current']),
            np.atleast_2d(row['temperature'] if 'temperature' in row and isfinite(row['temperature']) else t),
            np.atleast_2d(row['voltage']))


# --------------------------------------------------------------------------- the whole run
def observe_run(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    out, f = run_online_estimate(d, e)
    return out


def estimates(e, rows, n):
    """Summary of the estimates after every row"""
    m, s = np.full((n, e.num_state_dimensions), np.nan), np.full((n, e.num_state_dimensions), np.nan)
    p, q = np.full((n, e.num_output_dimensions), np.nan), np.full((n, e.num_output_dimensions), np.nan)
    m[0, :] = e.state.get_mean()
    s[0, :] = np.sqrt(np.diag(e.state.get_covariance()))
    i = 1
    for row in rows:
        u, y = row_to_inputs(row)
        x, z = e.step(u, y)
        m[i, :] = x.get_mean()
        s[i, :] = np.sqrt(np.diag(x.get_covariance()))
        p[i, :] = z.get_mean()
        q[i, :] = np.sqrt(np.diag(z.get_covariance()))
        i += 1
    names = e.state_names + tuple(k + '_std' for k in e.state_names)
    names = names + e.output_names + tuple(k + '_std' for k in e.output_names)
    return pd.DataFrame(np.concatenate([m, s, p, q], axis=1), columns=list(names))


def expect_run(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    rows = d.raw_data.reset_index().iterrows()
    next(rows)
    return estimates(e, [row for _, row in rows], d.raw_data.shape[0])


def observe_run_file(d: str, e: OnlineEstimator):
    out, f = run_online_estimate(d, e)
    return out


def expect_run_file(d: str, e: OnlineEstimator):
    with pd.HDFStore(d, mode='r') as store:
        n = store.get_storer('raw_data').nrows
    rows = iterate_records_from_file(d)
    next(rows)
    return estimates(e, rows, n)


def observe_run_estimator(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    out, f = run_online_estimate(d, e)
    return f is e


def expect_run_estimator(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    return True


def observe_run_writer(d: BatteryDataset, e: OnlineEstimator, w: HDF5Writer, g: h5py.Group):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    w.hdf5_output = g
    w.per_timestep, w.per_cycle = 'mean', 'none'
    run_online_estimate(d, e, output_states=False, hdf5_output=w)


def expect_run_writer(d: BatteryDataset, e: OnlineEstimator, w: HDF5Writer, g: h5py.Group):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    w.hdf5_output = g
    w.per_timestep, w.per_cycle = 'mean', 'none'
    rows = d.raw_data.reset_index().iterrows()
    next(rows)
    cycles = d.raw_data['cycle_number'].max() + 1 if 'cycle_number' in d.raw_data else 0
    with w:
        w.prepare(e, d.raw_data.shape[0], cycles)
        for _, row in rows:
            u, y = row_to_inputs(row)
            x, z = e.step(u, y)
            w.append_step(row['test_time'], row['cycle_number'], x, z)


def observe_run_path(d: BatteryDataset, e: OnlineEstimator, p: str):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    run_online_estimate(d, e, output_states=False, hdf5_output=p)


def expect_run_path(d: BatteryDataset, e: OnlineEstimator, p: str):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    run_online_estimate(d, e, output_states=False, hdf5_output=HDF5Writer(hdf5_output=p))


def observe_run_cycles(d: BatteryDataset, e: OnlineEstimator, w: HDF5Writer, g: h5py.Group):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    w.hdf5_output = g
    w.per_timestep, w.per_cycle = 'none', 'mean'
    run_online_estimate(d, e, output_states=False, hdf5_output=w)


def expect_run_cycles(d: BatteryDataset, e: OnlineEstimator, w: HDF5Writer, g: h5py.Group):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    w.hdf5_output = g
    w.per_timestep, w.per_cycle = 'none', 'mean'
    rows = d.raw_data.reset_index().iterrows()
    next(rows)
    cycles = d.raw_data['cycle_number'].max() + 1 if 'cycle_number' in d.raw_data else 0
    with w:
        w.prepare(e, d.raw_data.shape[0], cycles)
        for _, row in rows:
            u, y = row_to_inputs(row)
            x, z = e.step(u, y)
            w.append_step(row['test_time'], row['cycle_number'], x, z)


# --------------------------------------------------------------------------- the file
def observe_nan_without_output(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset))
    out, f = run_online_estimate(d, e, output_states=False)
    return out


def expect_nan_without_output(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset) and d.raw_data is not None)
    return None


def observe_no_data(d: BatteryDataset, e: OnlineEstimator):
    given(isinstance(d, BatteryDataset) and d.raw_data is None)
    return run_online_estimate(d, e)


def expect_no_data(d: BatteryDataset, e: OnlineEstimator):
    raise ValueError()


def observe_ready(w: HDF5Writer):
    return w.is_ready


def expect_ready(w: HDF5Writer):
    return w._group_handle is not None


def observe_unready_prepare(w: HDF5Writer, e: OnlineEstimator, n: int, c: int):
    given(w._group_handle is None)
    w.prepare(e, n, c)


def expect_unready_prepare(w: HDF5Writer, e: OnlineEstimator, n: int, c: int):
    raise ValueError()


def observe_unready_append(w: HDF5Writer, t: float, c: int, x: MultivariateGaussian, y: MultivariateGaussian):
    given(w._group_handle is None)
    w.append_step(t, c, x, y)


def expect_unready_append(w: HDF5Writer, t: float, c: int, x: MultivariateGaussian, y: MultivariateGaussian):
    raise ValueError()


def observe_exit(w: HDF5Writer, kind: Any, e: Any, trace: Any):
    r = w.__exit__(kind, e, trace)
    return bool(r), w._group_handle, w._file_handle


def expect_exit(w: HDF5Writer, kind: Any, e: Any, trace: Any):
    if w._file_handle is not None:
        w._file_handle.close()
    return False, None, None


def observe_enter(w: HDF5Writer):
    v = w.__enter__()
    return v is w, w._group_handle, w._file_handle, w.position


def expect_enter(w: HDF5Writer):
    if isinstance(w.hdf5_output, h5py.Group):
        root, file = w.hdf5_output, w._file_handle
    else:
        root = file = h5py.File(w.hdf5_output, mode='a', **w.file_options)
    if w.storage_key not in root:
        root.create_group(w.storage_key)
    return True, root[w.storage_key], file, 0


def values_of(what, x, tag):
    """What is stored of a distribution"""
    m, c = tag + '_mean', tag + '_covariance'
    if what == 'mean':
        return [(m, x.mean)]
    if what == 'mean_cov' or what == 'full':
        return [(m, x.mean), (c, x.covariance)]
    return [(m, x.mean), (tag + '_variance', np.diag(x.covariance))]


def put(g, i, what, t, x, y):
    """Write one row of a group"""
    for key, v in [('time', np.array(t))] + values_of(what, x, 'state') + values_of(what, y, 'output'):
        d = g[key]
        if d.shape[0] <= i:
            d.resize(max(d.shape[0] + d.chunks[0], i + 1), axis=0)
        d[i] = v


def observe_append_step(w: HDF5Writer, what: str, t: float, c: int, x: Exact[MultivariateGaussian],
                        y: Exact[MultivariateGaussian]):
    given(w._group_handle is not None and w.position is not None)
    given(what in ('mean', 'mean_var', 'mean_cov', 'full'))
    w.per_timestep = what
    w.per_cycle = 'none'
    w.append_step(t, c, x, y)
    return w.position


def expect_append_step(w: HDF5Writer, what: str, t: float, c: int, x: Exact[MultivariateGaussian],
                       y: Exact[MultivariateGaussian]):
    given(w._group_handle is not None and w.position is not None)
    given(what in ('mean', 'mean_var', 'mean_cov', 'full'))
    put(w._group_handle['per_timestep'], w.position, what, t, x, y)
    return w.position + 1


def observe_append_cycle(w: HDF5Writer, what: str, t: float, c: int, x: Exact[MultivariateGaussian],
                         y: Exact[MultivariateGaussian]):
    given(w._group_handle is not None and w.position is not None)
    given(what in ('mean', 'mean_var', 'mean_cov', 'full'))
    w.per_timestep = 'none'
    w.per_cycle = what
    w.append_step(t, c, x, y)
    return w.position


def expect_append_cycle(w: HDF5Writer, what: str, t: float, c: int, x: Exact[MultivariateGaussian],
                        y: Exact[MultivariateGaussian]):
    given(w._group_handle is not None and w.position is not None)
    given(what in ('mean', 'mean_var', 'mean_cov', 'full'))
    g = w._group_handle['per_cycle']
    if not (c < g['time'].shape[0] and not np.isnan(g['time'][c])):
        put(g, c, what, t, x, y)
    return w.position + 1


def observe_append_both(w: HDF5Writer, t: float, c: int, x: Exact[MultivariateGaussian],
                        y: Exact[MultivariateGaussian]):
    given(w._group_handle is not None and w.position is not None)
    w.per_timestep = 'mean'
    w.per_cycle = 'mean_cov'
    w.append_step(t, c, x, y)
    return w.position


def expect_append_both(w: HDF5Writer, t: float, c: int, x: Exact[MultivariateGaussian],
                       y: Exact[MultivariateGaussian]):
    given(w._group_handle is not None and w.position is not None)
    put(w._group_handle['per_timestep'], w.position, 'mean', t, x, y)
    g = w._group_handle['per_cycle']
    if not (c < g['time'].shape[0] and not np.isnan(g['time'][c])):
        put(g, c, 'mean_cov', t, x, y)
    return w.position + 1


def size(w, n, v):
    """Sizes of a new data set"""
    if w.resizable:
        return {'shape': (128 if n is None else n, *v.shape), 'maxshape': (n, *v.shape)}
    return {'shape': (n, *v.shape)}


def make(w, g, name, what, n, x, k):
    """Lay out one of the two groups"""
    if name in g:
        raise ValueError()
    g = g.create_group(name)
    zero = [np.zeros((k,)), np.zeros((k, k))]
    y = MultivariateGaussian(mean=zero[0], covariance=zero[1])
    for key, v in [('time', np.array(0.))] + values_of(what, x, 'state') + values_of(what, y, 'output'):
        g.create_dataset(key, dtype=v.dtype, fillvalue=np.nan, **size(w, n, v), **w.dataset_options)


def describe(w, e):
    a = w._group_handle.attrs
    a['write_settings'] = w.model_dump_json(exclude={'hdf5_output'})
    a['state_names'] = e.state_names
    a['output_names'] = e.output_names
    a['estimator_name'] = e.__class__.__name__
    a['distribution_type'] = e.state.__class__.__name__
    a['cell_model'] = e.cell_model.__class__.__name__
    a['initial_asoh'] = e.asoh.model_dump_json()
    a['initial_transient_state'] = e.transients.model_dump_json()


def observe_prepare(w: HDF5Writer, what: str, other: str, e: OnlineEstimator, x: Exact[MultivariateGaussian], n: Optional[int], c: Optional[int]):
    given(w._group_handle is not None)
    given(what in ('none', 'mean', 'mean_var', 'mean_cov', 'full'))
    w.per_timestep = what
    w.per_cycle = 'mean'
    e.state = x
    w.prepare(e, n, c)


def expect_prepare(w: HDF5Writer, what: str, other: str, e: OnlineEstimator, x: Exact[MultivariateGaussian], n: Optional[int], c: Optional[int]):
    given(w._group_handle is not None)
    given(what in ('none', 'mean', 'mean_var', 'mean_cov', 'full'))
    w.per_timestep = what
    w.per_cycle = 'mean'
    e.state = x
    if not w.resizable and (n is None or c is None):
        raise ValueError()
    describe(w, e)
    if what != 'none':
        make(w, w._group_handle, 'per_timestep', what, n, x, e.num_output_dimensions)
    make(w, w._group_handle, 'per_cycle', 'mean', c, x, e.num_output_dimensions)


def observe_prepare_other(w: HDF5Writer, e: OnlineEstimator, x: MultivariateRandomDistribution, n: Optional[int], c: Optional[int]):
    given(w._group_handle is not None)
    w.per_timestep, w.per_cycle = 'none', 'none'
    e.state = x
    w.prepare(e, n, c)


def expect_prepare_other(w: HDF5Writer, e: OnlineEstimator, x: MultivariateRandomDistribution, n: Optional[int], c: Optional[int]):
    given(w._group_handle is not None)
    w.per_timestep, w.per_cycle = 'none', 'none'
    e.state = x
    if not w.resizable and (n is None or c is None):
        raise ValueError()
    describe(w, e)


# --------------------------------------------------------------------------- reading
def stored(d, tag, i):
    """What is stored about one distribution in a row"""
    names = list(d.keys())
    names.remove('time')
    return {k[len(tag):]: d[k][i] for k in names if k.startswith(tag)}


def rows(d, kind):
    """Every row which was written"""
    return [(t, kind(**stored(d, 'state_', i)), kind(**stored(d, 'output_', i)))
            for i, t in enumerate(d['time']) if not np.isnan(t)]


def spread(values):
    values['covariance'] = np.diag(values.pop('variance'))
    return values


def mode(g, where):
    return json.loads(g.attrs['write_settings'])[where]


def observe_read_mean(g: h5py.Group):
    given(mode(g, 'per_timestep') == 'mean')
    return [(t, x, y) for t, x, y in read_state_estimates(g)]


def expect_read_mean(g: h5py.Group):
    given(mode(g, 'per_timestep') == 'mean')
    return rows(g['per_timestep'], DeltaDistribution)


def observe_read_cov(g: h5py.Group):
    given(mode(g, 'per_timestep') == 'mean_cov')
    return [(t, x, y) for t, x, y in read_state_estimates(g)]


def expect_read_cov(g: h5py.Group):
    given(mode(g, 'per_timestep') == 'mean_cov')
    return rows(g['per_timestep'], MultivariateGaussian)


def observe_read_var(g: h5py.Group):
    given(mode(g, 'per_cycle') == 'mean_var')
    return [(t, x, y) for t, x, y in read_state_estimates(g, per_timestep=False)]


def expect_read_var(g: h5py.Group):
    given(mode(g, 'per_cycle') == 'mean_var')
    d = g['per_cycle']
    return [(t, MultivariateGaussian(**spread(stored(d, 'state_', i))),
             MultivariateGaussian(**spread(stored(d, 'output_', i))))
            for i, t in enumerate(d['time']) if not np.isnan(t)]


def observe_read_full(g: h5py.Group):
    given(mode(g, 'per_cycle') == 'full' and g.attrs['distribution_type'] == 'DeltaDistribution')
    return [(t, x, y) for t, x, y in read_state_estimates(g, False, DeltaDistribution)]


def expect_read_full(g: h5py.Group):
    given(mode(g, 'per_cycle') == 'full' and g.attrs['distribution_type'] == 'DeltaDistribution')
    return rows(g['per_cycle'], DeltaDistribution)


def observe_read_wrong_type(g: h5py.Group):
    given(mode(g, 'per_timestep') == 'full' and g.attrs['distribution_type'] != 'MultivariateGaussian')
    return [(t, x, y) for t, x, y in read_state_estimates(g)]


def expect_read_wrong_type(g: h5py.Group):
    raise ValueError()


def observe_read_nothing(g: h5py.Group):
    given(mode(g, 'per_timestep') == 'none')
    return [(t, x, y) for t, x, y in read_state_estimates(g)]


def expect_read_nothing(g: h5py.Group):
    raise ValueError()


def observe_read_unknown(g: h5py.Group):
    given(mode(g, 'per_timestep') not in ('none', 'full', 'mean', 'mean_cov', 'mean_var'))
    return [(t, x, y) for t, x, y in read_state_estimates(g)]


def expect_read_unknown(g: h5py.Group):
    raise NotImplementedError()


def observe_read_file(p: str):
    return [(t, x, y) for t, x, y in read_state_estimates(p)]


def expect_read_file(p: str):
    f = h5py.File(p, mode='r')
    given('state_estimates' in f)
    g = f['state_estimates']
    given(mode(g, 'per_timestep') == 'mean')
    out = rows(g['per_timestep'], DeltaDistribution)
    f.close()
    return out


def observe_read_path(p: Path):
    given(isinstance(p, Path) and not isinstance(p, str))
    return [(t, x, y) for t, x, y in read_state_estimates(p)]


def expect_read_path(p: Path):
    given(isinstance(p, Path) and not isinstance(p, str))
    f = h5py.File(p, mode='r')
    given('state_estimates' in f)
    g = f['state_estimates']
    given(mode(g, 'per_timestep') == 'mean')
    out = rows(g['per_timestep'], DeltaDistribution)
    f.close()
    return out


def observe_missing_group(p: str):
    f = h5py.File(p, mode='r')
    given('state_estimates' not in f)
    try:
        out = [(t, x, y) for t, x, y in read_state_estimates(p)]
    except KeyError:
        out = 'missing'
    return out


def expect_missing_group(p: str):
    f = h5py.File(p, mode='r')
    given('state_estimates' not in f)
    f = h5py.File(p, mode='r')
    f.close()
    return 'missing'


def observe_refusal_closes(p: str):
    f = h5py.File(p, mode='r')
    given('state_estimates' in f and 'write_settings' in f['state_estimates'].attrs and
          mode(f['state_estimates'], 'per_timestep') == 'none')
    try:
        out = [(t, x, y) for t, x, y in read_state_estimates(p)]
    except ValueError:
        out = 'nothing'
    return out


def expect_refusal_closes(p: str):
    f = h5py.File(p, mode='r')
    given('state_estimates' in f and 'write_settings' in f['state_estimates'].attrs and
          mode(f['state_estimates'], 'per_timestep') == 'none')
    f = h5py.File(p, mode='r')
    f.close()
    return 'nothing'
