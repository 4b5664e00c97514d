"""Vectors of named quantities: conversion to and from arrays."""
from typing import Dict, Optional, Tuple

import numpy as np

from moirae.models.base import GeneralContainer, ScalarParameter, ListParameter
from moirae.models.ecm import ECMTransientVector, ECMInput
from specs.api import given, same


class Probe(GeneralContainer):
    """One field of every kind a container may have"""
    a: ScalarParameter = 0.
    b: Optional[ListParameter] = None
    c: ListParameter = ()
    d: Optional[ScalarParameter] = None
    e: ScalarParameter = 0.


def fields(p: Probe):
    return [('a', p.a), ('b', p.b), ('c', p.c), ('d', p.d), ('e', p.e)]


# --------------------------------------------------------------------------- to array
def observe_to_array(p: Probe):
    return p.to_numpy()


def expect_to_array(p: Probe):
    size = p.batch_size
    columns = []
    for _, v in fields(p):
        if v is not None:
            if size > 1 and v.shape[0] == 1:
                v = np.repeat(v, size, axis=0)
            columns.append(v)
    return np.concatenate(columns, axis=1)


# --------------------------------------------------------------------------- from array
def width(v):
    return 0 if v is None else v.shape[1]


def observe_from_array(p: Probe, values: np.ndarray):
    given(values.ndim == 2)
    p.from_numpy(values)
    return p.a, p.b, p.c, p.d, p.e


def expect_from_array(p: Probe, values: np.ndarray):
    given(values.ndim == 2)
    out = []
    start = 0
    for _, v in fields(p):
        n = width(v)
        out.append(None if v is None else values[:, start:start + n])
        start = start + n
    return tuple(out)


def observe_from_vector(p: Probe, values: np.ndarray):
    given(values.ndim == 1)
    p.from_numpy(values)
    return p.a, p.b, p.c, p.d, p.e


def expect_from_vector(p: Probe, values: np.ndarray):
    given(values.ndim == 1)
    p.from_numpy(values[None, :])
    return p.a, p.b, p.c, p.d, p.e


def observe_make_copy(p: Probe, values: np.ndarray):
    """The copy holds the values and the original keeps its own"""
    q = p.make_copy(values)
    return (q.a, q.b, q.c, q.d, q.e), (p.a, p.b, p.c, p.d, p.e)


def expect_make_copy(p: Probe, values: np.ndarray):
    old = (p.a, p.b, p.c, p.d, p.e)
    p.from_numpy(values)
    return (p.a, p.b, p.c, p.d, p.e), old


# --------------------------------------------------------------------------- sizes and names
def observe_length(p: Probe):
    return len(p), p.length_field('a'), p.length_field('b'), p.length_field('c')


def expect_length(p: Probe):
    n = 0
    for _, v in fields(p):
        n = n + width(v)
    return n, p.a.shape[1], width(p.b), p.c.shape[1]


def labels(name, v):
    if v is None:
        return []
    if v.shape[1] == 1:
        return [name]
    return [f'{name}[{i}]' for i in range(v.shape[1])]


def observe_names(p: Probe):
    return p.all_names


def expect_names(p: Probe):
    out = []
    for name, v in fields(p):
        out.extend(labels(name, v))
    return tuple(out)


def observe_some_names(p: Probe):
    return p.expand_names(['c', 'a'])


def expect_some_names(p: Probe):
    return tuple(labels('c', p.c) + labels('a', p.a))


def observe_field_order(p: Probe):
    return p.all_fields


def expect_field_order(p: Probe):
    return ('a', 'b', 'c', 'd', 'e')


def observe_batch_size(p: Probe):
    return p.batch_size


def expect_batch_size(p: Probe):
    n = 1
    for _, v in fields(p):
        if v is not None:
            n = max(n, v.shape[0])
    return n


def observe_uneven_batch(u: ECMInput):
    given(u.temperature is None)
    same(u.time.shape[0], 2)
    same(u.current.shape[0], 3)
    return u.batch_size


def expect_uneven_batch(u: ECMInput):
    raise ValueError('Inconsistent batch sizes')


def observe_uneven_batch_reversed(u: ECMInput):
    given(u.temperature is None)
    same(u.time.shape[0], 3)
    same(u.current.shape[0], 2)
    return u.batch_size


def expect_uneven_batch_reversed(u: ECMInput):
    raise ValueError('Inconsistent batch sizes')


# --------------------------------------------------------------------------- the containers of the circuit model
def observe_ecm_state(x: ECMTransientVector):
    return x.to_numpy()


def expect_ecm_state(x: ECMTransientVector):
    size = x.batch_size
    columns = []
    for v in (x.soc, x.q0, x.i_rc, x.hyst):
        if v is not None:
            if size > 1 and v.shape[0] == 1:
                v = np.repeat(v, size, axis=0)
            columns.append(v)
    return np.concatenate(columns, axis=1)


def observe_ecm_inputs(u: ECMInput):
    return u.to_numpy()


def expect_ecm_inputs(u: ECMInput):
    size = u.batch_size
    columns = []
    for v in (u.time, u.current, u.temperature):
        if v is not None:
            if size > 1 and v.shape[0] == 1:
                v = np.repeat(v, size, axis=0)
            columns.append(v)
    return np.concatenate(columns, axis=1)
