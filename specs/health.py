"""Health parameters: naming, selection, reading and writing."""
from typing import Dict, Optional, Tuple

import numpy as np

from moirae.models.base import HealthVariable, ScalarParameter, ListParameter, enforce_dimensions
from specs.api import given, same


class Leaf(HealthVariable):
    x: ScalarParameter = 1.
    y: ListParameter = ()


class Tree(HealthVariable):
    """One attribute of every kind a set of health parameters may have"""
    a: ScalarParameter = 1.
    sub: Leaf
    opt: Optional[Leaf] = None
    b: ListParameter = ()
    many: Tuple[Leaf, Leaf]
    table: Dict[str, Leaf]


class Twig(HealthVariable):
    a: ScalarParameter = 1.
    sub: Leaf
    many: Tuple[Leaf, Leaf]


class Pair(HealthVariable):
    a: ScalarParameter = 1.
    sub: Leaf
    many: Tuple[Leaf, ...]


# --------------------------------------------------------------------------- listing
def entries(h: Tree, only):
    """Name and value of each parameter, in the order of declaration, depth first"""
    out = []
    if not only or 'a' in h.updatable:
        out.append(('a', h.a))
    if not only or 'sub' in h.updatable:
        out.extend(leaf_entries('sub.', h.sub, only))
    if not only or 'opt' in h.updatable:
        if h.opt is not None:
            out.extend(leaf_entries('opt.', h.opt, only))
    if not only or 'b' in h.updatable:
        out.append(('b', h.b))
    if not only or 'many' in h.updatable:
        out.extend(leaf_entries('many.0.', h.many[0], only))
        out.extend(leaf_entries('many.1.', h.many[1], only))
    if not only or 'table' in h.updatable:
        for k, v in h.table.items():
            out.extend(leaf_entries(f'table.{k}.', v, only))
    return out


def leaf_entries(prefix, leaf: Leaf, only):
    out = []
    if not only or 'x' in leaf.updatable:
        out.append((prefix + 'x', leaf.x))
    if not only or 'y' in leaf.updatable:
        out.append((prefix + 'y', leaf.y))
    return out


def observe_listing(h: Tree):
    return list(h.iter_parameters(updatable_only=False))


def expect_listing(h: Tree):
    return entries(h, False)


def observe_listing_updatable(h: Tree):
    return list(h.iter_parameters())


def expect_listing_updatable(h: Tree):
    return entries(h, True)


def observe_listing_flat(h: Tree):
    return list(h.iter_parameters(updatable_only=False, recurse=False))


def expect_listing_flat(h: Tree):
    return [('a', h.a), ('b', h.b)]


def observe_listing_names(h: Pair):
    return h.all_names, h.updatable_names


def expect_listing_names(h: Pair):
    return (tuple(n for n, _ in h.iter_parameters(updatable_only=False)),
            tuple(n for n, _ in h.iter_parameters(updatable_only=True)))


def observe_count(h: Twig):
    return h.num_updatable


def expect_count(h: Twig):
    n = 0
    for _, v in h.iter_parameters(updatable_only=True):
        n = n + v.shape[1]
    return n


# --------------------------------------------------------------------------- reading
def repeated(v, size):
    return np.repeat(v, size, axis=0) if size > 1 and v.shape[0] == 1 else v


def observe_read(h: Tree):
    return h.get_parameters(['sub.y', 'a', 'many.1.x', 'b', 'many.0.y'])


def expect_read(h: Tree):
    n = h.batch_size
    return np.concatenate([repeated(h.sub.y, n), repeated(h.a, n), repeated(h.many[1].x, n), repeated(h.b, n),
                           repeated(h.many[0].y, n)], axis=1)


def observe_read_table(h: Tree, key: str):
    given('.' not in key)
    return h.get_parameters(['table.k.x', 'opt.y'])


def expect_read_table(h: Tree, key: str):
    given('.' not in key)
    given(h.opt is not None)
    n = h.batch_size
    return np.concatenate([repeated(h.table['k'].x, n), repeated(h.opt.y, n)], axis=1)


def observe_read_nothing(h: Tree):
    return h.get_parameters([])


def expect_read_nothing(h: Tree):
    return np.zeros((h.batch_size, 0))


def observe_read_default(h: Twig):
    return h.get_parameters()


def expect_read_default(h: Twig):
    return h.get_parameters(h.updatable_names)


# --------------------------------------------------------------------------- writing
def writable(h: Tree):
    return 'sub' in h.updatable and 'y' in h.sub.updatable and 'a' in h.updatable and 'many' in h.updatable and \
        'x' in h.many[1].updatable and 'y' in h.many[0].updatable


def everything(h: Tree):
    return (h.a, h.b, h.sub.x, h.sub.y, h.many[0].x, h.many[0].y, h.many[1].x, h.many[1].y, h.table['k'].x,
            h.table['k'].y)


def marks(h: Tree):
    return (h.updatable, h.sub.updatable, h.many[0].updatable, h.many[1].updatable)


def observe_write(h: Tree, values: np.ndarray):
    given(values.ndim == 2)
    h.update_parameters(values, ['sub.y', 'a', 'many.1.x', 'many.0.y'])
    return everything(h), marks(h)


def expect_write(h: Tree, values: np.ndarray):
    given(values.ndim == 2)
    if not writable(h):
        raise ValueError('not updatable')
    p0 = h.sub.y.shape[1]
    p1 = p0 + h.a.shape[1]
    p2 = p1 + h.many[1].x.shape[1]
    p3 = p2 + h.many[0].y.shape[1]
    if p3 != values.shape[1]:
        raise ValueError('wrong number of values')
    return (values[:, p0:p1], h.b, h.sub.x, values[:, 0:p0], h.many[0].x, values[:, p2:p3], values[:, p1:p2],
            h.many[1].y, h.table['k'].x, h.table['k'].y), marks(h)


def observe_write_vector(h: Tree, values: np.ndarray):
    given(values.ndim == 1)
    h.update_parameters(values, ['sub.y', 'a'])
    return everything(h)


def expect_write_vector(h: Tree, values: np.ndarray):
    given(values.ndim == 1)
    h.update_parameters(values[None, :], ['sub.y', 'a'])
    return everything(h)


def observe_write_fixed(h: Tree, values: np.ndarray):
    given('y' not in h.sub.updatable)
    h.update_parameters(values, ['a', 'sub.y'])
    return h.a


def expect_write_fixed(h: Tree, values: np.ndarray):
    raise ValueError('not updatable')


def observe_write_fixed_parent(h: Tree, values: np.ndarray):
    given('sub' not in h.updatable)
    h.update_parameters(values, ['a', 'sub.y'])
    return h.a


def expect_write_fixed_parent(h: Tree, values: np.ndarray):
    raise ValueError('not updatable')


def observe_write_default(h: Tree, values: np.ndarray):
    given('sub' in h.updatable and 'x' in h.sub.updatable and 'y' not in h.sub.updatable)
    given('a' in h.updatable and 'b' in h.updatable)
    given('many' not in h.updatable and 'opt' not in h.updatable and 'table' not in h.updatable)
    h.update_parameters(values)
    return everything(h)


def expect_write_default(h: Tree, values: np.ndarray):
    given('sub' in h.updatable and 'x' in h.sub.updatable and 'y' not in h.sub.updatable)
    given('a' in h.updatable and 'b' in h.updatable)
    given('many' not in h.updatable and 'opt' not in h.updatable and 'table' not in h.updatable)
    h.update_parameters(values, ['a', 'sub.x', 'b'])
    return everything(h)


def observe_copy(h: Tree, values: np.ndarray):
    c = h.make_copy(values, ['sub.y', 'a'])
    return everything(c), everything(h), marks(c), marks(h)


def expect_copy(h: Tree, values: np.ndarray):
    old, m = everything(h), marks(h)
    h.update_parameters(values, ['sub.y', 'a'])
    return everything(h), old, m, m


def observe_set_value(h: Tree, value: np.ndarray):
    h.set_value('many.1.y', value)
    h.set_value('sub.x', value)
    return everything(h), marks(h)


def shaped(current, value):
    return enforce_dimensions(value, 0) if current.shape[1] == 1 else enforce_dimensions(value, 1)


def expect_set_value(h: Tree, value: np.ndarray):
    return (h.a, h.b, shaped(h.sub.x, value), h.sub.y, h.many[0].x, h.many[0].y, h.many[1].x,
            shaped(h.many[1].y, value), h.table['k'].x, h.table['k'].y), marks(h)


# --------------------------------------------------------------------------- marking
def twig_marks(h: Twig):
    return (h.updatable, h.sub.updatable, h.many[0].updatable, h.many[1].updatable)


def observe_mark(h: Twig):
    h.mark_updatable('many.1.x')
    return twig_marks(h)


def expect_mark(h: Twig):
    return h.updatable | {'many'}, h.sub.updatable, h.many[0].updatable, h.many[1].updatable | {'x'}


def observe_mark_top(h: Twig):
    h.mark_updatable('a')
    return twig_marks(h)


def expect_mark_top(h: Twig):
    return h.updatable | {'a'}, h.sub.updatable, h.many[0].updatable, h.many[1].updatable


def observe_fix(h: Twig):
    h.mark_all_fixed()
    return twig_marks(h), list(h.iter_parameters())


def expect_fix(h: Twig):
    return (set(), set(), set(), set()), []


def observe_fix_top(h: Twig):
    h.mark_all_fixed(recurse=False)
    return twig_marks(h)


def expect_fix_top(h: Twig):
    return set(), h.sub.updatable, h.many[0].updatable, h.many[1].updatable


def observe_mark_all(h: Twig):
    h.mark_all_updatable()
    return [n for n, _ in h.iter_parameters()]


def expect_mark_all(h: Twig):
    return [n for n, _ in h.iter_parameters(updatable_only=False)]


def observe_mark_all_top(h: Twig):
    h.mark_all_updatable(recurse=False)
    return h.sub.updatable, h.many[0].updatable, h.many[1].updatable, 'a' in h.updatable, 'sub' in h.updatable


def expect_mark_all_top(h: Twig):
    return h.sub.updatable, h.many[0].updatable, h.many[1].updatable, True, True


def observe_mark_all_sets(h: Twig):
    h.mark_all_updatable()
    return twig_marks(h)


def expect_mark_all_sets(h: Twig):
    both = {'x', 'y'}
    return (h.updatable | {'a', 'sub', 'many'}, h.sub.updatable | both, h.many[0].updatable | both,
            h.many[1].updatable | both)


# --------------------------------------------------------------------------- one name per value
def labels(name, v):
    if v.shape[1] == 1:
        return [name]
    return [f'{name}[{i}]' for i in range(v.shape[1])]


def observe_expand(h: Tree):
    return h.expand_names(['b', 'sub.y', 'many.1.x', 'table.k.y'])


def expect_expand(h: Tree):
    return tuple(labels('b', h.b) + labels('sub.y', h.sub.y) + labels('many.1.x', h.many[1].x) +
                 labels('table.k.y', h.table['k'].y))


def observe_expand_whole(h: Tree):
    return h.expand_names(['sub', 'a', 'many.0'])


def expect_expand_whole(h: Tree):
    return tuple(labels('sub.x', h.sub.x) + labels('sub.y', h.sub.y) + labels('a', h.a) +
                 labels('many.0.x', h.many[0].x) + labels('many.0.y', h.many[0].y))


def observe_expand_collection(h: Tree):
    return h.expand_names(['many'])


def expect_expand_collection(h: Tree):
    return tuple(labels('many.0.x', h.many[0].x) + labels('many.0.y', h.many[0].y) +
                 labels('many.1.x', h.many[1].x) + labels('many.1.y', h.many[1].y))


# --------------------------------------------------------------------------- batch size
def observe_batch_size(h: Leaf):
    return h.batch_size


def expect_batch_size(h: Leaf):
    return max(1, h.x.shape[0], h.y.shape[0])


def observe_uneven(h: Leaf):
    same(h.x.shape[0], 2)
    same(h.y.shape[0], 3)
    return h.batch_size


def expect_uneven(h: Leaf):
    raise ValueError('Inconsistent batch sizes')


def observe_uneven_nested(h: Pair):
    same(h.a.shape[0], 2)
    same(h.sub.x.shape[0], 3)
    given(len(h.many) == 0)
    return h.batch_size


def expect_uneven_nested(h: Pair):
    raise ValueError('Inconsistent batch sizes')


# --------------------------------------------------------------------------- dimensions
def observe_listed(v: np.ndarray):
    given(v.ndim == 2)
    return enforce_dimensions(v, 1)


def expect_listed(v: np.ndarray):
    given(v.ndim == 2)
    return v


def observe_listed_vector(v: np.ndarray):
    given(v.ndim == 1)
    return enforce_dimensions(v, 1)


def expect_listed_vector(v: np.ndarray):
    given(v.ndim == 1)
    return v[None, :]


def observe_scalar(v: np.ndarray):
    return enforce_dimensions(v, 0)


def expect_scalar(v: np.ndarray):
    w = np.squeeze(v)
    return np.atleast_1d(w)[:, None]


# --------------------------------------------------------------------------- three levels and more
class Bud(HealthVariable):
    x: ScalarParameter = 1.


class Stem(HealthVariable):
    a: ScalarParameter = 1.
    bud: Bud
    buds: Tuple[Bud, Bud]


class Trunk(HealthVariable):
    """Models inside models inside collections"""
    z: ListParameter = ()
    stem: Stem
    stems: Tuple[Stem, Stem]


def stem_marks(t: Stem):
    return t.updatable, t.bud.updatable, t.buds[0].updatable, t.buds[1].updatable


def trunk_marks(h: Trunk):
    return h.updatable, stem_marks(h.stem), stem_marks(h.stems[0]), stem_marks(h.stems[1])


def observe_fix_deep(h: Trunk):
    h.mark_all_fixed()
    return trunk_marks(h)


def expect_fix_deep(h: Trunk):
    none = (set(), set(), set(), set())
    return set(), none, none, none


def observe_mark_deep(h: Trunk):
    h.mark_updatable('stems.1.buds.0.x')
    h.mark_updatable('stem.bud.x')
    return trunk_marks(h)


def expect_mark_deep(h: Trunk):
    t, d = h.stem, h.stems[1]
    return (h.updatable | {'stems', 'stem'},
            (t.updatable | {'bud'}, t.bud.updatable | {'x'}, t.buds[0].updatable, t.buds[1].updatable),
            stem_marks(h.stems[0]),
            (d.updatable | {'buds'}, d.bud.updatable, d.buds[0].updatable | {'x'}, d.buds[1].updatable))


def observe_mark_all_deep(h: Trunk):
    h.mark_all_updatable()
    return trunk_marks(h)


def expect_mark_all_deep(h: Trunk):
    def whole(t):
        return (t.updatable | {'a', 'bud', 'buds'}, t.bud.updatable | {'x'}, t.buds[0].updatable | {'x'},
                t.buds[1].updatable | {'x'})
    return h.updatable | {'z', 'stem', 'stems'}, whole(h.stem), whole(h.stems[0]), whole(h.stems[1])


def stem_entries(prefix, t: Stem, only):
    out = []
    if not only or 'a' in t.updatable:
        out.append((prefix + 'a', t.a))
    if not only or 'bud' in t.updatable:
        if not only or 'x' in t.bud.updatable:
            out.append((prefix + 'bud.x', t.bud.x))
    if not only or 'buds' in t.updatable:
        if not only or 'x' in t.buds[0].updatable:
            out.append((prefix + 'buds.0.x', t.buds[0].x))
        if not only or 'x' in t.buds[1].updatable:
            out.append((prefix + 'buds.1.x', t.buds[1].x))
    return out


def trunk_entries(h: Trunk, only):
    out = []
    if not only or 'z' in h.updatable:
        out.append(('z', h.z))
    if not only or 'stem' in h.updatable:
        out.extend(stem_entries('stem.', h.stem, only))
    if not only or 'stems' in h.updatable:
        out.extend(stem_entries('stems.0.', h.stems[0], only))
        out.extend(stem_entries('stems.1.', h.stems[1], only))
    return out


def observe_listing_deep(h: Trunk):
    return list(h.iter_parameters(updatable_only=False))


def expect_listing_deep(h: Trunk):
    return trunk_entries(h, False)


def stem_values(t: Stem):
    return t.a, t.bud.x, t.buds[0].x, t.buds[1].x


def trunk_values(h: Trunk):
    return h.z, stem_values(h.stem), stem_values(h.stems[0]), stem_values(h.stems[1])


def observe_write_deep(h: Trunk, value: np.ndarray):
    h.set_value('stems.1.buds.0.x', value)
    return trunk_values(h), trunk_marks(h)


def expect_write_deep(h: Trunk, value: np.ndarray):
    d = h.stems[1]
    return (h.z, stem_values(h.stem), stem_values(h.stems[0]),
            (d.a, d.bud.x, shaped(d.buds[0].x, value), d.buds[1].x)), trunk_marks(h)




# --------------------------------------------------------------------------- copies share nothing
def observe_copy_top(h: Stem, values: np.ndarray):
    """Only an attribute of the outermost model is given; then every part of the copy changes"""
    c = h.make_copy(values, ['a'])
    c.a[0, 0] = 11.
    c.bud.x[0, 0] = 12.
    c.buds[1].x[0, 0] = 13.
    c.mark_updatable('bud.x')
    c.buds[0].mark_all_fixed()
    return stem_values(h), stem_marks(h)


def expect_copy_top(h: Stem, values: np.ndarray):
    return stem_values(h), stem_marks(h)


def observe_copy_inner(h: Stem, values: np.ndarray):
    given('bud' in h.updatable and 'x' in h.bud.updatable)
    given(values.ndim == 2)
    given(values.shape[1] == h.bud.x.shape[1])
    c = h.make_copy(values, ['bud.x'])
    c.mark_all_fixed()
    c.a[0, 0] = 11.
    c.bud.x[0, 0] = 12.
    c.buds[0].x[0, 0] = 13.
    return stem_values(h), stem_marks(h)


def expect_copy_inner(h: Stem, values: np.ndarray):
    given('bud' in h.updatable and 'x' in h.bud.updatable)
    given(values.ndim == 2)
    given(values.shape[1] == h.bud.x.shape[1])
    return stem_values(h), stem_marks(h)


# --------------------------------------------------------------------------- trees of which every size is known (rules/layout.py)
class Bough(HealthVariable):
    y: ListParameter = ()
    leaf: Leaf
    leaves: Tuple[Leaf, ...] = ()
    named: Dict[str, Leaf] = {}
    x: ScalarParameter = 1.


class Grove(HealthVariable):
    b: ListParameter = ()
    a: ScalarParameter = 1.
    bough: Bough
    none: Optional[Leaf] = None
    boughs: Tuple[Bough, ...] = ()
    table: Dict[str, Bough] = {}
    row: Tuple[Leaf, ...] = ()
    k: ScalarParameter = 1.
