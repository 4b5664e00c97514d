"""Which inputs every element of an array is computed from.

An abstract interpreter over the syntax tree of the package. An array is its shape and, for each of its elements, the
set of products of input elements it consists of: sums join these sets, products pair them, and any other function makes
one product of everything it is given. Conditions on values are not known; both branches are followed, and the same
condition in the source is decided the same way throughout one run.
"""
import ast
import itertools

from .front import FuncInfo, ClassInfo, dotted

CAP = 24                       # products kept apart per element
NOTHING = frozenset()


class Undecided(Exception):
    pass


class Broken(Exception):
    """The code cannot do this with arrays of these shapes"""

    def __init__(self, where, what):
        Exception.__init__(self, '%s: %s' % (where, what))
        self.where, self.what = where, what


class Refused(Exception):
    """The code raises"""


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class ShapeMismatch(Exception):
    pass


# ---------------------------------------------------------------- elements
def flat(e):
    return frozenset(itertools.chain.from_iterable(e))


def one(e):
    """Everything the element depends on, as one product"""
    f = flat(e)
    return frozenset([f]) if f else NOTHING


def add(a, b):
    r = a | b
    return r if len(r) <= CAP else one(r)


def mul(a, b):
    if not a or not b:
        return a or b
    if len(a) * len(b) > CAP:
        return one(a | b)
    return frozenset(x | y for x in a for y in b)


def other(*es):
    return one(frozenset(itertools.chain.from_iterable(es)))


def total(es):
    r = NOTHING
    for e in es:
        r = add(r, e)
    return r


def rows_met(a):
    """How many rows of the same input an array is made of"""
    met = {}
    for e in a.data:
        for s in flat(e):
            if len(s) > 2:
                met.setdefault(s[0], set()).add(s[1])
    return max([len(x) for x in met.values()], default=0)


# ---------------------------------------------------------------- arrays
def count(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Arr:
    __slots__ = ('shape', 'data', 'rel')

    def __init__(self, shape, data, rel=None):
        self.shape, self.data, self.rel = tuple(shape), list(data), rel
        assert len(self.data) == count(self.shape)

    def __repr__(self):
        return 'Arr%r' % (self.shape,)

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        p = 0
        for i, s in zip(idx, self.shape):
            p = p * s + i
        return self.data[p]

    def cells(self):
        return itertools.product(*[range(s) for s in self.shape])


def build(shape, f):
    return Arr(shape, [f(i) for i in itertools.product(*[range(s) for s in shape])])


def arr(x):
    """The array made of a value"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, Cond):
        return Arr((), [x.deps])
    if x is None or isinstance(x, (bool, int, float)):
        return Arr((), [NOTHING])
    if isinstance(x, (list, tuple)):
        parts = [arr(y) for y in x]
        if not parts:
            return Arr((0,), [])
        if any(p.shape != parts[0].shape for p in parts):
            raise ShapeMismatch('an array of members with shapes %s' % ', '.join(str(p.shape) for p in parts))
        return Arr((len(parts),) + parts[0].shape, [e for p in parts for e in p.data])
    raise Undecided('array of %r' % (x,))


def together(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        sizes = {s[k - n + len(s)] for s in shapes if k - n + len(s) >= 0} - {1}
        if len(sizes) > 1:
            raise ShapeMismatch('operands of shapes %s do not broadcast' % ' and '.join(str(s) for s in shapes))
        out.append(sizes.pop() if sizes else 1)
    return tuple(out)


def spread(a, shape):
    d = len(shape) - a.ndim
    return build(shape, lambda i: a.at([0 if s == 1 else i[d + k] for k, s in enumerate(a.shape)]))


def each(f, *xs):
    xs = [arr(x) for x in xs]
    shape = together([x.shape for x in xs])
    xs = [spread(x, shape) if x.shape != shape else x for x in xs]
    return Arr(shape, [f(*es) for es in zip(*[x.data for x in xs])])


def axis_of(a, n):
    if not isinstance(a, int) or isinstance(a, bool):
        raise Undecided('axis %r' % (a,))
    if a < -n or a >= n:
        raise ShapeMismatch('axis %d is out of bounds for %d dimensions' % (a, n))
    return a % n


def transpose(a, order):
    inv = [order.index(k) for k in range(a.ndim)]
    return build([a.shape[o] for o in order], lambda i: a.at([i[inv[k]] for k in range(a.ndim)]))


def swapaxes(a, x, y):
    o = list(range(a.ndim))
    x, y = axis_of(x, a.ndim), axis_of(y, a.ndim)
    o[x], o[y] = o[y], o[x]
    return transpose(a, o)


def moveaxis(a, x, y):
    o = list(range(a.ndim))
    x, y = axis_of(x, a.ndim), axis_of(y, a.ndim)
    o.remove(x)
    o.insert(y, x)
    return transpose(a, o)


def reshape(a, shape):
    shape = [shape] if isinstance(shape, int) else list(shape)
    if not all(isinstance(s, int) for s in shape):
        raise Undecided('shape %r' % (shape,))
    n = len(a.data)
    if -1 in shape:
        rest = count([s for s in shape if s != -1])
        if rest == 0 or n % rest:
            raise ShapeMismatch('an array of shape %s cannot become %s' % (a.shape, tuple(shape)))
        shape[shape.index(-1)] = n // rest
    if count(shape) != n:
        raise ShapeMismatch('an array of shape %s cannot become %s' % (a.shape, tuple(shape)))
    return Arr(shape, a.data)


def diagonal(a, offset=0, axis1=0, axis2=1):
    if offset != 0:
        raise Undecided('offset of a diagonal')
    if a.ndim < 2:
        raise ShapeMismatch('diagonal of an array of shape %s' % (a.shape,))
    x, y = axis_of(axis1, a.ndim), axis_of(axis2, a.ndim)
    rest = [k for k in range(a.ndim) if k not in (x, y)]
    m = min(a.shape[x], a.shape[y])

    def at(i):
        idx = [0] * a.ndim
        for k, r in enumerate(rest):
            idx[r] = i[k]
        idx[x] = idx[y] = i[-1]
        return a.at(idx)
    return build([a.shape[r] for r in rest] + [m], at)


def squeeze(a, axis=None):
    if axis is None:
        return Arr([s for s in a.shape if s != 1], a.data)
    axes = {axis_of(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])}
    if any(a.shape[x] != 1 for x in axes):
        raise ShapeMismatch('axes %s of an array of shape %s cannot be dropped' % (sorted(axes), a.shape))
    return Arr([s for k, s in enumerate(a.shape) if k not in axes], a.data)


def reduce(a, axis, keepdims, f):
    if axis is None:
        r = Arr((), [f(a.data)])
        return Arr((1,) * a.ndim, r.data) if keepdims else r
    axes = {axis_of(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])}
    keep = [k for k in range(a.ndim) if k not in axes]
    out = {}
    for i in a.cells():
        out.setdefault(tuple(i[k] for k in keep), []).append(a.at(i))
    r = build([a.shape[k] for k in keep], lambda i: f(out.get(i, [])))
    if keepdims:
        r = Arr([1 if k in axes else s for k, s in enumerate(a.shape)], r.data)
    return r


def join(parts, axis):
    parts = [arr(p) for p in parts]
    if axis is None:
        parts, axis = [reshape(p, -1) for p in parts], 0
    n = parts[0].ndim
    ax = axis_of(axis, n)
    for p in parts:
        if p.ndim != n or any(p.shape[k] != parts[0].shape[k] for k in range(n) if k != ax):
            raise ShapeMismatch('joining arrays of shapes %s along axis %d' % (
                ', '.join(str(q.shape) for q in parts), ax))
    shape = list(parts[0].shape)
    shape[ax] = sum(p.shape[ax] for p in parts)

    def at(i):
        k = i[ax]
        for p in parts:
            if k < p.shape[ax]:
                return p.at(i[:ax] + (k,) + i[ax + 1:])
            k -= p.shape[ax]
    return build(shape, at)


def stack(parts, axis=0):
    parts = [arr(p) for p in parts]
    if any(p.shape != parts[0].shape for p in parts):
        raise ShapeMismatch('stacking arrays of shapes %s' % ', '.join(str(q.shape) for q in parts))
    ax = axis_of(axis, parts[0].ndim + 1)
    return join([Arr(p.shape[:ax] + (1,) + p.shape[ax:], p.data) for p in parts], ax)


def tile(a, reps):
    reps = (reps,) if isinstance(reps, int) else tuple(reps)
    if not all(isinstance(r, int) for r in reps):
        raise Undecided('repetitions %r' % (reps,))
    n = max(a.ndim, len(reps))
    a = Arr((1,) * (n - a.ndim) + a.shape, a.data)
    reps = (1,) * (n - len(reps)) + reps
    return build([s * r for s, r in zip(a.shape, reps)], lambda i: a.at([x % s for x, s in zip(i, a.shape)]))


def repeat(a, n, axis=None):
    if not isinstance(n, int):
        raise Undecided('repetitions %r' % (n,))
    if axis is None:
        a, axis = reshape(a, -1), 0
    ax = axis_of(axis, a.ndim)
    return build([s * n if k == ax else s for k, s in enumerate(a.shape)],
                 lambda i: a.at(i[:ax] + (i[ax] // n,) + i[ax + 1:]))


def matmul(a, b):
    a, b = arr(a), arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeMismatch('matrix product of shapes %s and %s' % (a.shape, b.shape))
    x = Arr((1,) + a.shape, a.data) if a.ndim == 1 else a
    y = Arr(b.shape + (1,), b.data) if b.ndim == 1 else b
    if x.shape[-1] != y.shape[-2]:
        raise ShapeMismatch('matrix product of shapes %s and %s' % (a.shape, b.shape))
    lead = together([x.shape[:-2], y.shape[:-2]])
    x, y = spread(x, lead + x.shape[-2:]), spread(y, lead + y.shape[-2:])
    r = build(lead + (x.shape[-2], y.shape[-1]), lambda i: total(
        mul(x.at(i[:-1] + (k,)), y.at(i[:-2] + (k, i[-1]))) for k in range(x.shape[-1])))
    if a.ndim == 1:
        r = Arr(r.shape[:-2] + r.shape[-1:], r.data)
    if b.ndim == 1:
        r = Arr(r.shape[:-1], r.data)
    return r


def take(a, key):
    """Basic indexing, positions as integers, lists of positions on one axis"""
    key = key if isinstance(key, tuple) else (key,)
    used = sum(1 for k in key if k is not None and k is not Ellipsis)
    if used > a.ndim:
        raise ShapeMismatch('%d positions for an array of shape %s' % (used, a.shape))
    if Ellipsis in [k for k in key if not isinstance(k, Arr)]:
        p = [k is Ellipsis for k in key].index(True)
        key = key[:p] + (slice(None),) * (a.ndim - used) + key[p + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - used)
    shape, plan, ax, lists = [], [], 0, 0
    for k in key:
        if k is None:
            shape.append(1)
            plan.append(('new',))
            continue
        n = a.shape[ax]
        if isinstance(k, bool) or isinstance(k, Arr):
            raise Undecided('index with an array')
        if isinstance(k, int):
            if k < -n or k >= n:
                raise ShapeMismatch('position %d of an array of shape %s' % (k, a.shape))
            plan.append(('at', ax, k % n))
        elif isinstance(k, slice):
            if not all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                raise Undecided('slice')
            pos = list(range(n))[k]
            shape.append(len(pos))
            plan.append(('pick', ax, pos))
        elif isinstance(k, list) and all(isinstance(x, int) for x in k):
            lists += 1
            if any(x < -n or x >= n for x in k):
                raise ShapeMismatch('position %s of an array of shape %s' % (k, a.shape))
            pos = [x % n for x in k]
            shape.append(len(pos))
            plan.append(('pick', ax, pos))
        else:
            raise Undecided('index %r' % (k,))
        ax += 1
    if lists > 1 or lists and any(p[0] == 'at' for p in plan):
        raise Undecided('index with several lists')

    def at(i):
        idx, o = [0] * a.ndim, 0
        for p in plan:
            if p[0] == 'new':
                o += 1
            elif p[0] == 'at':
                idx[p[1]] = p[2]
            else:
                idx[p[1]] = p[2][i[o]]
                o += 1
        return tuple(idx)
    return shape, at


def get(a, key):
    if isinstance(key, Arr):
        if key.ndim == a.ndim and key.shape == a.shape:
            raise Undecided('mask')
        raise Undecided('index with an array')
    shape, at = take(a, key)
    return build(shape, lambda i: a.at(at(i)))


def put(a, key, value):
    value = arr(value)
    if isinstance(key, Arr):
        b = spread(key, a.shape)
        v = spread(value, a.shape) if value.ndim <= a.ndim else None
        if v is None:
            raise Undecided('mask')
        a.data[:] = [other(x, m, y) for x, m, y in zip(a.data, b.data, v.data)]
        return
    shape, at = take(a, key)
    v = spread(value, shape) if together([tuple(shape), value.shape]) == tuple(shape) else None
    if v is None:
        raise ShapeMismatch('an array of shape %s put into one of shape %s' % (value.shape, tuple(shape)))
    for i in itertools.product(*[range(s) for s in shape]):
        p = 0
        for x, s in zip(at(i), a.shape):
            p = p * s + x
        a.data[p] = v.at(i)


class Cond:
    """A condition on values"""

    def __init__(self, key, deps=NOTHING, flip=False, mix=None):
        # mix: the answer when only some rows have the value asked for, and that of a row alone which has it not
        self.key, self.deps, self.flip, self.mix = key, deps, flip, mix


class Text:
    """A string which is not known"""

    def __init__(self, name):
        self.name = name


STR = {'split', 'rsplit', 'count', 'startswith', 'endswith', 'partition', 'rpartition', 'replace', 'strip', 'lstrip', 'rstrip',
       'lower', 'upper', 'isdigit', 'find', 'rfind', 'index', 'removeprefix', 'removesuffix', 'zfill', 'isnumeric', 'isdecimal',
       'isalpha', 'isidentifier', 'title', 'casefold'}


class Obj:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Bound:
    def __init__(self, fi, recv):
        self.fi, self.recv = fi, recv


class Closure:
    def __init__(self, node, module, env, cls):
        self.node, self.module, self.env, self.cls = node, module, env, cls


class Cls:
    def __init__(self, c):
        self.c = c


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Fn:
    def __init__(self, fi):
        self.fi = fi


class Method:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Interpolator:
    def __init__(self, x, y, axis):
        self.x, self.y, self.axis = x, y, axis


class Super:
    def __init__(self, recv, after):
        self.recv, self.after = recv, after


MUL = {'numpy.multiply'}
ADD = {'numpy.add', 'numpy.subtract'}
ELEMENTWISE = {'numpy.' + x for x in (
    'exp expm1 exp2 log log1p log2 log10 sqrt square power float_power sin cos tan sinh cosh tanh arcsin arccos arctan '
    'arctan2 sign abs absolute fabs maximum minimum fmax fmin clip where isnan isfinite isinf floor ceil round around '
    'rint mod remainder fmod divide true_divide floor_divide reciprocal logical_and logical_or logical_not greater less '
    'greater_equal less_equal equal not_equal nan_to_num copysign heaviside isclose hypot trunc').split()}
SAME = {'numpy.negative', 'numpy.positive', 'numpy.copy', 'numpy.real', 'numpy.float64', 'numpy.ascontiguousarray',
        'copy.copy', 'copy.deepcopy', 'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.asfarray'}
SUMS = {'sum', 'mean', 'average', 'nansum'}
REDUCE = {'prod', 'max', 'min', 'amax', 'amin', 'std', 'var', 'median', 'ptp', 'nanmax', 'nanmin', 'argmax', 'argmin',
          'count_nonzero', 'linalg.norm'}


class Machine:
    def __init__(self, repo, decisions, fuel=200000):
        self.repo = repo
        self.decisions = decisions       # key -> bool, extended while running
        self.asked = []
        self.alone = False
        self.checked = False
        self.backwards = self.ordered = False
        self.fuel = fuel
        self.stack = []
        self.given_out = []
        self.functions = set()
        self.calls = 0
        self.here = ''

    # ------------------------------------------------------------ decisions
    def decide(self, key):
        if key not in self.decisions:
            self.decisions[key] = True
            self.asked.append(key)
        return self.decisions[key]

    def place(self, node):
        return ('at',) + tuple(self.stack) + ((self.module.rel, node.lineno, node.col_offset),)

    def truth(self, v, node):
        if isinstance(v, Cond):
            if v.mix is not None:
                mixed, other_row, rows = v.mix
                k = ('mixed', v.key)
                if not self.alone and rows > 1 and self.decide(k):
                    return mixed != v.flip
                if self.alone and self.decisions.get(k):
                    return other_row != v.flip
            return self.decide(v.key) != v.flip
        if isinstance(v, Arr):
            if len(v.data) != 1:
                self.broken(node, 'the truth of an array of shape %s' % (v.shape,))
            return self.decide(self.place(node))
        if isinstance(v, Text):
            return self.decide(('text', v.name))
        if isinstance(v, (Obj, Fn, Bound, Closure, Cls, Ext)):
            return True
        return bool(v)

    def broken(self, node, what):
        raise Broken('%s:%d' % (self.module.rel, node.lineno), what)

    # ------------------------------------------------------------ calls
    def call_function(self, fi, args, kwargs, env=None, recv=None, cls=None):
        node = fi.node
        self.calls += 1
        if len(self.stack) > 25:
            raise Undecided('depth')
        if isinstance(fi, FuncInfo):
            self.functions.add(fi.qual)
        saved = getattr(self, 'module', None), getattr(self, 'cls', None), getattr(self, 'env', None), \
            getattr(self, 'first', None)
        scope = dict(env or {})
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if recv is not None:
            args = [recv] + args
        given = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg is None:
                raise Broken('%s:%d' % (fi.module.rel, node.lineno), 'too many arguments for %s' % getattr(fi, 'name', ''))
            given[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            given[a.vararg.arg] = ()
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                given[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Broken('%s:%d' % (fi.module.rel, node.lineno), 'unexpected argument %s' % k)
        if a.kwarg is not None:
            given[a.kwarg.arg] = extra
        self.module, self.cls = fi.module, cls if cls is not None else getattr(fi, 'cls', None)
        self.env = scope
        self.first = given.get(names[0]) if names else None
        try:
            for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                    [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if x not in given:
                    given[x] = self.ev(d)
            for x in names + [k.arg for k in a.kwonlyargs]:
                if x not in given:
                    raise Broken('%s:%d' % (fi.module.rel, node.lineno), 'argument %s is missing' % x)
            scope.update(given)
            self.env = scope
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            if isinstance(fi, FuncInfo) and fi.is_generator:
                # nothing it reads changes between its steps in the code of interest: all of them at once
                was, self.given_out = self.given_out, []
                try:
                    self.run(node.body)
                except Return:
                    pass
                finally:
                    r, self.given_out = self.given_out, was
                return r
            try:
                self.run(node.body)
            except Return as r:
                return r.value
            return None
        finally:
            self.module, self.cls, self.env, self.first = saved

    def call(self, f, args, kwargs, node):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('too long')
        self.stack.append((self.module.rel, node.lineno, node.col_offset))
        try:
            try:
                return self._call(f, args, kwargs, node)
            except ShapeMismatch as e:
                self.broken(node, str(e))
        finally:
            self.stack.pop()

    def _call(self, f, args, kwargs, node):
        if isinstance(f, Fn):
            return self.call_function(f.fi, args, kwargs)
        if isinstance(f, Bound):
            return self.call_function(f.fi, args, kwargs, recv=f.recv)
        if isinstance(f, Closure):
            fi = _Anon(f.node, f.module)
            return self.call_function(fi, args, kwargs, env=f.env, cls=f.cls)
        if isinstance(f, Obj):
            m = self.repo.find(f.cls, '__call__')
            if m is None:
                raise Undecided('call of %s' % f.cls.name)
            return self.call_function(m, args, kwargs, recv=f)
        if isinstance(f, Cls):
            return self.construct(f.c, args, kwargs)
        if isinstance(f, Interpolator):
            q = arr(args[0] if args else kwargs.get('x'))
            y, ax = f.y, f.axis
            xdeps = other(*f.x.data)

            def at(i):
                lead, mid, rest = i[:ax], i[ax:ax + q.ndim], i[ax + q.ndim:]
                return other(xdeps, q.at(mid), *[y.at(lead + (k,) + rest) for k in range(y.shape[ax])])
            return build(y.shape[:ax] + q.shape + y.shape[ax + 1:], at)
        if isinstance(f, Method):
            return self.method(f.recv, f.name, args, kwargs, node)
        if isinstance(f, Ext):
            return self.library(f.name, args, kwargs, node)
        raise Undecided('call of %r' % (f,))

    def construct(self, c, args, kwargs):
        init = self.repo.find(c, '__init__')
        if init is not None:
            o = Obj(c, {})
            self.call_function(init, args, kwargs, recv=o)
            return o
        if not self.repo.is_model(c):
            if args or kwargs:
                raise Undecided('constructor of %s' % c.name)
            return Obj(c, {})
        fields = {}
        for n, (ann, dflt, owner) in self.repo.model_fields(c).items():
            if n in kwargs:
                fields[n] = self.validated(kwargs[n], ann, owner)
            else:
                fields[n] = self.default(ann, dflt, owner)
        o = Obj(c, fields)
        if self.checked:
            self.check_model(c, o, [n for n in fields if n in kwargs])
        return o

    def check_model(self, c, o, given):
        """Validators of fields and of the whole, in the order pydantic runs them"""
        for n in given:
            for k in reversed(self.repo.mro(c)):
                for f in k.methods.values():
                    for d in f.node.decorator_list:
                        if isinstance(d, ast.Call) and (dotted(d.func) or '').split('.')[-1] == 'field_validator' and \
                                any(isinstance(x, ast.Constant) and x.value in (n, '*') for x in d.args) and \
                                self.repo.find(c, f.name) is f:
                            mode = next((w.value.value for w in d.keywords if w.arg == 'mode'), 'after')
                            if mode not in ('after', 'before'):
                                raise Undecided('validator %s' % f.name)
                            o.fields[n] = self.call_function(f, [o.fields[n]], {}, recv=c, cls=c)
            ann, dflt, owner = self.repo.model_fields(c)[n]
            if isinstance(dflt, ast.Call):
                for w in dflt.keywords:
                    if w.arg == 'min_length' and isinstance(w.value, ast.Constant) and isinstance(o.fields[n], Arr) and \
                            (not o.fields[n].shape or o.fields[n].shape[0] < w.value.value):
                        raise Refused('%s:%d' % (owner.module.rel, w.value.lineno))
        for k in reversed(self.repo.mro(c)):
            for f in k.methods.values():
                for d in f.node.decorator_list:
                    if isinstance(d, ast.Call) and (dotted(d.func) or '').split('.')[-1] == 'model_validator' and \
                            self.repo.find(c, f.name) is f:
                        mode = next((w.value.value for w in d.keywords if w.arg == 'mode'), None)
                        if mode != 'after':
                            raise Undecided('validator %s' % f.name)
                        self.call_function(f, [], {}, recv=o)

    def default(self, ann, dflt, owner):
        saved = getattr(self, 'module', None), getattr(self, 'env', None)
        self.module, self.env = owner.module, {}
        try:
            if dflt is None:
                raise Undecided('a missing field')
            if isinstance(dflt, ast.Call) and (dotted(dflt.func) or '').split('.')[-1] == 'Field':
                for k in dflt.keywords:
                    if k.arg == 'default':
                        return self.validated(self.ev(k.value), ann, owner)
                    if k.arg == 'default_factory':
                        return self._call(self.ev(k.value), [], {}, dflt)
                if dflt.args:
                    return self.validated(self.ev(dflt.args[0]), ann, owner)
                raise Undecided('a missing field')
            return self.validated(self.ev(dflt), ann, owner)
        finally:
            self.module, self.env = saved

    def validated(self, v, ann, owner):
        """What the validators of the annotation store"""
        saved = getattr(self, 'module', None), getattr(self, 'env', None)
        try:
            for mod, call in validators(self.repo, owner.module, ann):
                self.module, self.env = mod, {}
                if v is None:
                    return v
                v = self._call(self.ev(call.args[0]), [v], {}, call)
            return v
        finally:
            self.module, self.env = saved

    # ------------------------------------------------------------ statements
    def run(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('too long')
        try:
            self._stmt(s)
        except ShapeMismatch as e:
            self.broken(s, str(e))

    def _stmt(self, s):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            old = self.ev(_load(s.target))
            v = self.binary(s.op, old, self.ev(s.value), s)
            if isinstance(old, Arr) and isinstance(v, Arr):
                if v.shape != old.shape:
                    self.broken(s, 'a result of shape %s does not fit in place into %s' % (v.shape, old.shape))
                old.data[:] = v.data
                v = old
            self.assign(s.target, v)
        elif isinstance(s, ast.If):
            self.run(s.body if self.truth(self.ev(s.test), s.test) else s.orelse)
        elif isinstance(s, ast.Return):
            raise Return(self.ev(s.value) if s.value is not None else None)
        elif isinstance(s, ast.Raise):
            raise Refused('%s:%d' % (self.module.rel, s.lineno))
        elif isinstance(s, ast.Assert):
            v = self.ev(s.test)
            if isinstance(v, (Cond, Text)):
                return
            if isinstance(v, Arr):
                if len(v.data) != 1:
                    self.broken(s, 'the truth of an array of shape %s' % (v.shape,))
                return
            if not v:
                self.broken(s, 'the assertion %s does not hold' % ast.unparse(s.test))
        elif isinstance(s, ast.For):
            for x in self.members(self.ev(s.iter), s):
                self.assign(s.target, x)
                try:
                    self.run(s.body)
                except Break:
                    break
                except Continue:
                    continue
            else:
                self.run(s.orelse)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test), s.test):
                n += 1
                if n > 50:
                    raise Undecided('loop')
                try:
                    self.run(s.body)
                except Break:
                    break
                except Continue:
                    continue
        elif isinstance(s, ast.Break):
            raise Break()
        elif isinstance(s, ast.Continue):
            raise Continue()
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = Closure(s, self.module, self.env, self.cls)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.local_import(s)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
            self.run(s.body)
        elif isinstance(s, ast.Try):
            try:
                self.run(s.body)
            except (Broken, Refused):
                if s.handlers:
                    raise Undecided('a handler for what is raised')
                raise
            self.run(s.orelse)
            self.run(s.finalbody)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        else:
            raise Undecided('statement %s' % type(s).__name__)

    def local_import(self, s):
        for a in s.names:
            if isinstance(s, ast.Import):
                self.env[(a.asname or a.name).split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
            else:
                if s.level or s.module in self.repo.modules:
                    raise Undecided('local import')
                self.env[a.asname or a.name] = Ext('%s.%s' % (s.module, a.name))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.members(v, t))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k, tail = star[0], len(t.elts) - star[0] - 1
                if len(xs) < len(t.elts) - 1:
                    self.broken(t, '%d values for %d names' % (len(xs), len(t.elts)))
                xs = xs[:k] + [xs[k:len(xs) - tail]] + xs[len(xs) - tail:]
            if len(xs) != len(t.elts):
                self.broken(t, '%d values for %d names' % (len(xs), len(t.elts)))
            for e, x in zip(t.elts, xs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if not isinstance(o, Obj):
                raise Undecided('attribute assignment')
            st = self.repo.find(o.cls, t.attr, 'setters')
            if st is not None:
                self.call_function(st, [v], {}, recv=o)
            else:
                o.fields[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.key(t.slice)
            if isinstance(o, Arr):
                put(o, k, v)
            elif isinstance(o, (list, dict)):
                o[k] = v
            else:
                raise Undecided('item assignment')
        else:
            raise Undecided('target')

    def members(self, v, node):
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.broken(node, 'iteration over a number')
            return [get(v, i) for i in range(v.shape[0])]
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            # an order, any; the other one in the other direction
            if not all(isinstance(x, (str, int)) for x in v):
                raise Undecided('members of a set')
            self.ordered = True
            return sorted(v, reverse=self.backwards)
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if hasattr(v, '__next__'):
            return list(v)
        raise Undecided('iteration over %r' % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        try:
            return m(e)
        except ShapeMismatch as x:
            self.broken(e, str(x))

    def ev_Constant(self, e):
        return e.value

    def ev_JoinedStr(self, e):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
                continue
            v = self.ev(x.value)
            if not isinstance(v, (str, int)) or x.format_spec is not None or x.conversion not in (-1, 115):
                return Text('made')
            out.append(str(v))
        return ''.join(out)

    def ev_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        return self.module_name(self.module, e.id)

    def module_name(self, module, name):
        r = self.repo.lookup(module, name)
        if r is None:
            if name in BUILTINS:
                return Ext('builtins.' + name)
            if name in ('__name__', '__file__'):
                return ''
            raise Undecided('name %s' % name)
        return self.resolved(r)

    def resolved(self, r):
        if r[0] == 'func':
            return Fn(r[1])
        if r[0] == 'class':
            return Cls(r[1])
        if r[0] == 'ext':
            return Ext(r[1])
        if r[0] == 'mod':
            return Ext(r[1])
        if r[0] == 'expr':
            saved = self.module, self.env
            self.module, self.env = r[2], {}
            try:
                return self.ev(r[1])
            finally:
                self.module, self.env = saved
        raise Undecided('name')

    def ev_Attribute(self, e):
        return self.attribute(self.ev(e.value), e.attr, e)

    def attribute(self, o, name, node):
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            m = self.repo.find(o.cls, name)
            if m is not None:
                if m.kind == 'property':
                    self.stack.append((self.module.rel, node.lineno, node.col_offset))
                    try:
                        return self.call_function(m, [], {}, recv=o)
                    finally:
                        self.stack.pop()
                if m.kind == 'static':
                    return Fn(m)
                if m.kind == 'class':
                    return Bound(m, Cls(o.cls))
                return Bound(m, o)
            if name in ('__class__',):
                return Cls(o.cls)
            if name in ('model_fields', '__fields__'):
                return {n: None for n in self.repo.model_fields(o.cls)}
            return Method(o, name)
        if isinstance(o, Super):
            m = self.repo.find(o.recv.cls if isinstance(o.recv, Obj) else o.recv.c, name, after=o.after)
            if m is None:
                raise Undecided('super().%s' % name)
            return Bound(m, o.recv)
        if isinstance(o, Cls):
            m = self.repo.find(o.c, name)
            if m is not None:
                return Fn(m) if m.kind in ('static', 'func') else Bound(m, o)
            if name in ('model_fields', '__fields__'):
                return {n: None for n in self.repo.model_fields(o.c)}
            return Method(o, name)
        if isinstance(o, Arr):
            if name == 'shape':
                return o.shape
            if name == 'ndim':
                return o.ndim
            if name == 'size':
                return len(o.data)
            if name == 'T':
                return transpose(o, list(range(o.ndim))[::-1])
            if name in ('dtype', 'real', 'flat'):
                return o if name == 'real' else reshape(o, -1) if name == 'flat' else Ext('dtype')
            return Method(o, name)
        if isinstance(o, Ext):
            if o.name in ('numpy.newaxis',):
                return None
            full = '%s.%s' % (o.name, name)
            if full in self.repo.modules:
                return Ext(full)
            if o.name in self.repo.modules:
                return self.module_name(self.repo.modules[o.name], name)
            if full == 'numpy.newaxis':
                return None
            if full in ('numpy.pi', 'numpy.e', 'numpy.inf', 'numpy.nan', 'math.pi', 'math.e', 'math.inf', 'math.nan'):
                return 1.0
            return Ext(full)
        return Method(o, name)

    def ev_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in self.env:
            if e.args:
                c = self.ev(e.args[0])
                return Super(self.ev(e.args[1]), c.c)
            return Super(self.first, self.cls)
        f = self.ev(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.members(self.ev(a.value), a)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, dict):
                    raise Undecided('keywords')
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs, e)

    def ev_Yield(self, e):
        self.given_out.append(None if e.value is None else self.ev(e.value))

    def ev_YieldFrom(self, e):
        self.given_out.extend(self.members(self.ev(e.value), e))

    def ev_Lambda(self, e):
        return Closure(e, self.module, self.env, self.cls)

    def ev_Tuple(self, e):
        return tuple(self.elements(e))

    def ev_List(self, e):
        return self.elements(e)

    def ev_Set(self, e):
        return set(self.elements(e))

    def elements(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.members(self.ev(x.value), x)
            else:
                out.append(self.ev(x))
        return out

    def ev_Dict(self, e):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.ev(v))
            else:
                out[self.ev(k)] = self.ev(v)
        return out

    def ev_IfExp(self, e):
        return self.ev(e.body if self.truth(self.ev(e.test), e.test) else e.orelse)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def comp(self, e, emit):
        saved = self.env
        self.env = dict(saved)

        def go(gens):
            if not gens:
                emit()
                return
            g = gens[0]
            for x in self.members(self.ev(g.iter), g.iter):
                self.assign(g.target, x)
                if all(self.truth(self.ev(c), c) for c in g.ifs):
                    go(gens[1:])
        try:
            go(e.generators)
        finally:
            self.env = saved

    def ev_ListComp(self, e):
        out = []
        self.comp(e, lambda: out.append(self.ev(e.elt)))
        return out

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e):
        return set(self.ev_ListComp(e))

    def ev_DictComp(self, e):
        out = {}

        def emit():
            out[self.ev(e.key)] = self.ev(e.value)
        self.comp(e, emit)
        return out

    def ev_BoolOp(self, e):
        stop = isinstance(e.op, ast.Or)
        v = None
        for x in e.values:
            v = self.ev(x)
            if x is not e.values[-1] and self.truth(v, x) == stop:
                return v
        return v

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Cond):
                return Cond(v.key, v.deps, not v.flip, v.mix)
            return not self.truth(v, e.operand)
        if isinstance(v, (Cond,)):
            v = arr(v)
        if isinstance(v, Arr):
            return Arr(v.shape, v.data)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else ~v if isinstance(e.op, ast.Invert) else v
        raise Undecided('unary')

    def ev_BinOp(self, e):
        return self.binary(e.op, self.ev(e.left), self.ev(e.right), e)

    def binary(self, op, a, b, node):
        if isinstance(op, ast.MatMult):
            return matmul(a, b)
        if isinstance(a, (Arr, Cond)) or isinstance(b, (Arr, Cond)):
            for x in (a, b):
                if not isinstance(x, (Arr, Cond, int, float, list, tuple)):
                    raise Undecided('operand %r' % (x,))
            if isinstance(op, (ast.Add, ast.Sub)):
                return each(add, a, b)
            if isinstance(op, (ast.Mult, ast.BitAnd)):
                return each(mul, a, b)
            if isinstance(op, ast.Div):
                return each(lambda x, y: mul(x, one(y)), a, b)
            return each(other, a, b)
        if isinstance(a, Text) or isinstance(b, Text):
            return Text('made')
        try:
            return PY[type(op)](a, b)
        except KeyError:
            raise Undecided('operator')
        except TypeError:
            raise Undecided('operands %r and %r' % (type(a).__name__, type(b).__name__))
        except ZeroDivisionError:
            return float('nan')

    def ev_Compare(self, e):
        left = self.ev(e.left)
        r = None
        for k, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c)
            v = self.compare(op, left, right, e)
            if r is None:
                r = v
            else:
                if not self.truth(r, e):
                    return r
                r = v
            left = right
        return r

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            same = a is b or (a is None and b is None)
            if isinstance(a, bool) and isinstance(b, bool):
                same = a == b
            return same if isinstance(op, ast.Is) else not same
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, Text) and isinstance(b, (list, tuple, set)):
                for x in b:
                    if self.truth(self.compare(ast.Eq(), a, x, node), node):
                        return isinstance(op, ast.In)
                return isinstance(op, ast.NotIn)
            if isinstance(b, (list, tuple, set, dict, str, range)) and not isinstance(a, (Arr, Text)):
                return (a in b) if isinstance(op, ast.In) else (a not in b)
            raise Undecided('membership')
        if isinstance(a, Text) or isinstance(b, Text):
            t, o = (a, b) if isinstance(a, Text) else (b, a)
            if not isinstance(op, (ast.Eq, ast.NotEq)):
                raise Undecided('comparison of strings')
            if isinstance(o, Text):
                return Cond(('texts', t.name, o.name), flip=isinstance(op, ast.NotEq))
            known = [k for k, v in self.decisions.items() if k[:2] == ('text is', t.name) and v and k[2] != o]
            if known:
                return isinstance(op, ast.NotEq)
            return Cond(('text is', t.name, o), flip=isinstance(op, ast.NotEq))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return isinstance(op, ast.NotEq)
            r = each(other, a, b)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r = Arr(r.shape, r.data, 'eq' if isinstance(op, ast.Eq) else 'ne')
            return r
        if isinstance(a, Cond) or isinstance(b, Cond):
            return Cond(self.place(node), other(arr(a).data[0], arr(b).data[0]))
        try:
            return PYCMP[type(op)](a, b)
        except (KeyError, TypeError):
            raise Undecided('comparison')

    def ev_Subscript(self, e):
        o = self.ev(e.value)
        k = self.key(e.slice)
        if isinstance(o, Arr):
            return get(o, k)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, Arr) and len(k.data) == 1:
                raise Undecided('position')
            try:
                return o[k]
            except IndexError:
                self.broken(e, 'position %r of %d members' % (k, len(o)))
            except TypeError:
                raise Undecided('index %r' % (k,))
        if isinstance(o, dict):
            if k in o:
                return o[k]
            if isinstance(k, (str, int)):
                self.broken(e, 'no key %r' % (k,))
            raise Undecided('key %r' % (k,))
        if isinstance(o, Ext):
            return o
        raise Undecided('index of %r' % (o,))

    def key(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.key(x) for x in s.elts)
        return self.ev(s)

    # ------------------------------------------------------------ methods of values
    def method(self, o, name, args, kwargs, node):
        if isinstance(o, Arr):
            return self.array_method(o, name, args, kwargs, node)
        if isinstance(o, Obj):
            if name in ('model_copy', 'copy', '__copy__', '__deepcopy__'):
                deep = name == '__deepcopy__' or name == 'model_copy' and kwargs.get('deep', False) or \
                    name == 'copy' and kwargs.get('deep', False)
                n = copied(o) if deep else copied_top(o)
                for k, v in (kwargs.get('update') or {}).items():
                    n.fields[k] = v
                return n
            if name in ('__getattribute__',):
                return self.attribute(o, args[0], node)
            raise Undecided('%s.%s' % (o.cls.name, name))
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if name in ('copy', 'item'):
                return o
            return self.array_method(arr(o), name, args, kwargs, node)
        if isinstance(o, list):
            if name == 'sort' and not args and all(isinstance(x, str) for x in o):
                return o.sort(**kwargs)
            if name in ('append', 'extend', 'insert', 'pop', 'reverse', 'copy', 'index', 'count', 'clear'):
                if name == 'extend':
                    o.extend(self.members(args[0], node))
                    return None
                return getattr(o, name)(*args)
        if isinstance(o, dict):
            if name in ('items', 'keys', 'values', 'get', 'pop', 'update', 'copy', 'setdefault'):
                r = getattr(o, name)(*args, **kwargs)
                return list(r) if name in ('items', 'keys', 'values') else r
        if isinstance(o, tuple) and name in ('index', 'count'):
            return getattr(o, name)(*args)
        if isinstance(o, str):
            if name in STR and all(isinstance(a, (str, int, tuple)) for a in list(args) + list(kwargs.values())):
                try:
                    return getattr(o, name)(*args, **kwargs)
                except (ValueError, TypeError) as x:
                    self.broken(node, str(x))
            if name == 'join' and len(args) == 1:
                xs = self.members(args[0], node)
                return o.join(xs) if all(isinstance(x, str) for x in xs) else Text('made')
            return Text('made')
        if isinstance(o, (set, frozenset)):
            if name in ('add', 'discard', 'clear', 'copy'):
                return getattr(o, name)(*args)
            if name == 'remove':
                if args[0] not in o:
                    self.broken(node, 'no member %s' % (args[0],))
                return o.remove(args[0])
            if name in ('update', 'difference', 'difference_update', 'union', 'intersection', 'intersection_update',
                        'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
                return getattr(o, name)(*[self.members(a, node) for a in args])
        raise Undecided('method %s of %s' % (name, type(o).__name__))

    def array_method(self, a, name, args, kwargs, node):
        if name == 'reshape':
            return reshape(a, args[0] if len(args) == 1 else tuple(args))
        if name in ('flatten', 'ravel'):
            return reshape(a, -1)
        if name == 'item':
            if len(a.data) != 1 and not args:
                self.broken(node, 'item() of an array of shape %s' % (a.shape,))
            return Arr((), a.data[:1]) if not args else get(a, tuple(args))
        if name == 'tolist':
            return [get(a, i) if a.ndim == 1 else self.array_method(get(a, i), 'tolist', [], {}, node)
                    for i in range(a.shape[0])] if a.ndim else a
        if name in ('copy', 'astype', 'view', 'conj', 'conjugate', '__array__'):
            return Arr(a.shape, a.data)
        if name == 'fill':
            a.data[:] = [arr(args[0]).data[0]] * len(a.data)
            return None
        if name == 'transpose' and args:
            o = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            return transpose(a, [axis_of(x, a.ndim) for x in o])
        if name in ('swapaxes', 'squeeze', 'diagonal', 'repeat', 'sum', 'mean', 'prod', 'max', 'min', 'std', 'var', 'any',
                    'all', 'clip', 'round', 'dot', 'cumsum', 'transpose', 'take', 'argmax', 'argmin', 'ptp', 'trace'):
            return self.library('numpy.' + name, [a] + list(args), kwargs, node)
        raise Undecided('method %s of an array' % name)

    # ------------------------------------------------------------ libraries
    def library(self, f, args, kwargs, node):
        if f.startswith('builtins.'):
            return self.builtin(f[9:], args, kwargs, node)
        if f.startswith('math.'):
            return each(other, *args)
        if f == 'logging.getLogger':
            return Ext('logging.logger')
        if f.startswith(('logging.', 'warnings.warn')):
            return None
        kw = dict(kwargs)
        for k in ('dtype', 'out', 'order', 'copy', 'subok'):
            kw.pop(k, None)

        def arg(i, name, default=None):
            if i < len(args):
                return args[i]
            return kw.get(name, default)
        if f in SAME:
            if f.startswith('copy.'):
                return copied(args[0]) if f == 'copy.deepcopy' else copied_top(args[0])
            a = arr(arg(0, 'object', arg(0, 'a')))
            a = Arr(a.shape, a.data)
            if f == 'numpy.array' and isinstance(kw.get('ndmin'), int) and a.ndim < kw['ndmin']:
                a = Arr((1,) * (kw['ndmin'] - a.ndim) + a.shape, a.data)
            return a
        if f in MUL:
            return each(mul, *args[:2])
        if f in ADD:
            return each(add, *args[:2])
        if f in ELEMENTWISE:
            if f == 'numpy.where' and len(args) == 1:
                raise Undecided('where')
            if f in ('numpy.divide', 'numpy.true_divide'):
                return each(lambda x, y: mul(x, one(y)), *args[:2])
            vals = [x for x in list(args) + [v for k, v in kw.items() if k in ('a_min', 'a_max', 'min', 'max', 'x1', 'x2')]
                    if x is not None]
            r = each(other, *vals)
            if f in ('numpy.equal', 'numpy.not_equal', 'numpy.isclose'):
                r = Arr(r.shape, r.data, 'ne' if 'not' in f else 'eq')
            return r
        if f in ('numpy.allclose', 'numpy.array_equal', 'numpy.array_equiv'):
            a, b = arr(args[0]), arr(args[1])
            if f == 'numpy.allclose':
                together([a.shape, b.shape])
            return Cond(self.place(node), other(*(a.data + b.data)))
        if f in ('numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d'):
            n = int(f[-2])
            out = []
            for x in args:
                x = arr(x)
                if x.ndim < n:
                    x = Arr((1,) * (n - x.ndim) + x.shape, x.data) if n < 3 else _bad('atleast_3d')
                out.append(x)
            return out[0] if len(out) == 1 else out
        if f == 'numpy.broadcast_arrays':
            xs = [arr(x) for x in args]
            if not xs:
                return []
            shape = together([x.shape for x in xs])
            return [spread(x, shape) for x in xs]
        if f == 'numpy.broadcast_to':
            a, shape = arr(arg(0, 'array')), arg(1, 'shape')
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            if together([a.shape, shape]) != shape:
                raise ShapeMismatch('an array of shape %s does not broadcast to %s' % (a.shape, shape))
            return spread(a, shape)
        if f == 'numpy.broadcast_shapes':
            return together([tuple(x) for x in args])
        if f == 'numpy.diagonal':
            return diagonal(arr(arg(0, 'a')), arg(1, 'offset', 0), arg(2, 'axis1', 0), arg(3, 'axis2', 1))
        if f == 'numpy.diag':
            a = arr(args[0])
            if len(args) > 1 or a.ndim not in (1, 2):
                raise Undecided('diag')
            if a.ndim == 2:
                return diagonal(a)
            return build((a.shape[0],) * 2, lambda i: a.at((i[0],)) if i[0] == i[1] else NOTHING)
        if f == 'numpy.diagflat' and len(args) == 1:
            a = arr(args[0])
            return build((len(a.data),) * 2, lambda i: a.data[i[0]] if i[0] == i[1] else NOTHING)
        if f == 'scipy.linalg.block_diag':
            xs = [arr(x) for x in args]
            if any(x.ndim > 2 for x in xs):
                raise ShapeMismatch('a block with more than two axes')
            xs = [Arr((1,) * (2 - x.ndim) + x.shape, x.data) for x in xs]
            data = []
            for k, x in enumerate(xs):
                before, after = sum(y.shape[1] for y in xs[:k]), sum(y.shape[1] for y in xs[k + 1:])
                for i in range(x.shape[0]):
                    data += [NOTHING] * before + x.data[i * x.shape[1]:(i + 1) * x.shape[1]] + [NOTHING] * after
            return Arr((sum(x.shape[0] for x in xs), sum(x.shape[1] for x in xs)), data)
        if f in ('numpy.linalg.pinv', 'numpy.linalg.inv', 'scipy.linalg.inv', 'scipy.linalg.pinv'):
            a = arr(args[0])
            if a.ndim != 2:
                raise ShapeMismatch('the inverse of an array of shape %s' % (a.shape,))
            if f.endswith('.inv') and a.shape[0] != a.shape[1]:
                raise ShapeMismatch('the inverse of an array of shape %s' % (a.shape,))
            return Arr(a.shape[::-1], [other(*a.data)] * len(a.data))
        if f == 'numpy.swapaxes':
            return swapaxes(arr(arg(0, 'a')), arg(1, 'axis1'), arg(2, 'axis2'))
        if f == 'numpy.moveaxis':
            return moveaxis(arr(arg(0, 'a')), arg(1, 'source'), arg(2, 'destination'))
        if f == 'numpy.transpose':
            a, o = arr(arg(0, 'a')), arg(1, 'axes')
            return transpose(a, list(range(a.ndim))[::-1] if o is None else [axis_of(x, a.ndim) for x in o])
        if f == 'numpy.reshape':
            return reshape(arr(arg(0, 'a')), arg(1, 'shape', kw.get('newshape')))
        if f == 'numpy.ravel':
            return reshape(arr(args[0]), -1)
        if f == 'numpy.squeeze':
            return squeeze(arr(arg(0, 'a')), arg(1, 'axis'))
        if f == 'numpy.expand_dims':
            a, ax = arr(arg(0, 'a')), arg(1, 'axis')
            axes = [ax] if isinstance(ax, int) else list(ax)
            n = a.ndim + len(axes)
            axes = {axis_of(x, n) for x in axes}
            it = iter(a.shape)
            return Arr([1 if k in axes else next(it) for k in range(n)], a.data)
        if f == 'numpy.tile':
            return tile(arr(arg(0, 'A')), arg(1, 'reps'))
        if f == 'numpy.repeat':
            return repeat(arr(arg(0, 'a')), arg(1, 'repeats'), arg(2, 'axis'))
        if f in ('numpy.concatenate', 'numpy.stack', 'numpy.hstack', 'numpy.vstack', 'numpy.column_stack'):
            xs = self.members(arg(0, 'arrays', arg(0, 'tup')), node)
            if f == 'numpy.concatenate':
                if arg(1, 'axis', 0) is None:
                    return join([reshape(arr(x), -1) for x in xs], 0)
                return join(xs, arg(1, 'axis', 0))
            if f == 'numpy.stack':
                return stack(xs, arg(1, 'axis', 0))
            xs = [arr(x) for x in xs]
            if f == 'numpy.vstack':
                return join([Arr((1,) * (2 - x.ndim) + x.shape, x.data) for x in xs], 0)
            if f == 'numpy.column_stack':
                return join([Arr((x.shape[0], 1), x.data) if x.ndim == 1 else x for x in xs], 1)
            xs = [Arr((1,), x.data) if x.ndim == 0 else x for x in xs]
            return join(xs, 0 if xs[0].ndim == 1 else 1)
        if f in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full'):
            shape = arg(0, 'shape')
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            if not all(isinstance(x, int) for x in shape):
                raise Undecided('shape')
            e = arr(arg(1, 'fill_value')) if f == 'numpy.full' else Arr((), [NOTHING])
            return spread(e, shape)
        if f in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like'):
            a = arr(arg(0, 'a'))
            e = arr(arg(1, 'fill_value')) if f == 'numpy.full_like' else Arr((), [NOTHING])
            return spread(e, a.shape)
        if f in ('numpy.eye', 'numpy.identity') and isinstance(args[0], int) and len(args) == 1:
            return build((args[0],) * 2, lambda i: NOTHING)
        if f in ('numpy.linspace', 'numpy.logspace', 'numpy.geomspace'):
            n = arg(2, 'num', 50)
            if not isinstance(n, int):
                raise Undecided('linspace')
            a, b = arr(arg(0, 'start')), arr(arg(1, 'stop'))
            if a.ndim or b.ndim:
                raise Undecided('linspace of arrays')
            n = min(n, 5)                      # a few points stand for all of them
            return Arr((n,), [other(a.data[0], b.data[0])] * n)
        if f == 'numpy.arange' and all(isinstance(x, int) for x in args):
            return Arr((len(range(*args)),), [NOTHING] * len(range(*args)))
        if f.startswith('numpy.'):
            g = f[6:]
            if g in SUMS or g in REDUCE or g in ('any', 'all'):
                a = arr(arg(0, 'a'))
                if g in ('any', 'all') and arg(1, 'axis') is None and not kw.get('keepdims'):
                    mix = {('any', 'eq'): (True, False), ('all', 'ne'): (False, True)}.get((g, a.rel))
                    return Cond(self.place(node), other(*a.data), mix=mix and mix + (rows_met(a),))
                if g == 'average' and arg(2, 'weights') is not None:
                    raise Undecided('average')
                pos = 1 if g != 'linalg.norm' else 2
                return reduce(a, arg(pos, 'axis'), bool(kw.get('keepdims')),
                              total if g in SUMS else lambda es: other(*es))
            if g in ('cumsum', 'cumprod'):
                a, ax = arr(arg(0, 'a')), arg(1, 'axis')
                if ax is None:
                    a, ax = reshape(a, -1), 0
                ax = axis_of(ax, a.ndim)
                return build(a.shape, lambda i: other(*[a.at(i[:ax] + (k,) + i[ax + 1:]) for k in range(i[ax] + 1)]))
            if g in ('dot', 'matmul'):
                a, b = arr(args[0]), arr(args[1])
                if g == 'dot' and (a.ndim == 0 or b.ndim == 0):
                    return each(mul, a, b)
                if g == 'dot' and b.ndim > 2:
                    raise Undecided('dot')
                return matmul(a, b)
            if g == 'outer':
                a, b = reshape(arr(args[0]), (-1, 1)), reshape(arr(args[1]), (1, -1))
                return each(mul, a, b)
            if g == 'shape':
                return arr(args[0]).shape
            if g == 'ndim':
                return arr(args[0]).ndim
            if g == 'size':
                return len(arr(args[0]).data)
            if g == 'flip':
                a, ax = arr(arg(0, 'm')), arg(1, 'axis')
                axes = set(range(a.ndim)) if ax is None else {axis_of(ax, a.ndim)}
                return build(a.shape, lambda i: a.at([s - 1 - x if k in axes else x
                                                      for k, (x, s) in enumerate(zip(i, a.shape))]))
            if g == 'take' and isinstance(arg(1, 'indices'), int) and isinstance(arg(2, 'axis'), int):
                a = arr(args[0])
                ax = axis_of(arg(2, 'axis'), a.ndim)
                return get(a, (slice(None),) * ax + (arg(1, 'indices'),))
            if g == 'interp':
                q, x, y = arr(args[0]), arr(args[1]), arr(args[2])
                if x.ndim != 1 or y.ndim != 1:
                    raise ShapeMismatch('interpolation over arrays of shapes %s and %s' % (x.shape, y.shape))
                return Arr(q.shape, [other(e, *(x.data + y.data)) for e in q.data])
            if g in ('trapezoid', 'trapz'):
                return self.trapezoid(arg, kw)
            if g == 'einsum' and isinstance(args[0], str):
                return einsum(args[0], [arr(x) for x in args[1:]])
        if f in ('scipy.integrate.trapezoid', 'scipy.integrate.trapz', 'scipy.integrate.simpson'):
            return self.trapezoid(arg, kw)
        if f == 'scipy.interpolate.interp1d':
            x, y = arr(arg(0, 'x')), arr(arg(1, 'y'))
            ax = axis_of(kw.get('axis', -1), y.ndim)
            if x.ndim != 1 or x.shape[0] != y.shape[ax]:
                raise ShapeMismatch('interpolation between points of shape %s of values of shape %s' % (x.shape, y.shape))
            return Interpolator(x, y, ax)
        if f in ('functools.reduce',):
            xs = self.members(args[1], node)
            r = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                r = self.call(args[0], [r, x], {}, node)
            return r
        if f.startswith('operator.'):
            op = {'add': ast.Add, 'mul': ast.Mult, 'sub': ast.Sub, 'truediv': ast.Div}.get(f[9:])
            if op:
                return self.binary(op(), args[0], args[1], node)
        if f.startswith('warnings.') or f.startswith('logging.') or f.startswith('logger'):
            return None
        raise Undecided('library %s' % f)

    def trapezoid(self, arg, kw):
        y, x, ax = arr(arg(0, 'y')), arg(1, 'x'), kw.get('axis', -1)
        ax = axis_of(ax, y.ndim)
        if x is not None:
            x = arr(x)
            if x.ndim == 1:
                if x.shape[0] not in (y.shape[ax],) and y.shape[ax] != 1:
                    raise ShapeMismatch('integral of values of shape %s along axis %d over %d points' % (
                        y.shape, ax, x.shape[0]))
                xe = [x.data] if True else None
                return reduce(y, ax, False, lambda es: other(*(list(es) + x.data)))
            y = each(other, y, x)
        return reduce(y, ax, False, lambda es: other(*es))

    def builtin(self, f, args, kwargs, node):
        if f == 'len':
            x = args[0]
            if isinstance(x, Arr):
                if x.ndim == 0:
                    self.broken(node, 'length of a number')
                return x.shape[0]
            if isinstance(x, Obj):
                m = self.repo.find(x.cls, '__len__')
                if m is not None:
                    return self.call_function(m, [], {}, recv=x)
            if isinstance(x, (list, tuple, dict, str, set, range)):
                return len(x)
        elif f == 'range' and all(isinstance(x, int) for x in args):
            return range(*args)
        elif f == 'enumerate':
            return list(enumerate(self.members(args[0], node), *args[1:], **kwargs))
        elif f == 'zip':
            return list(zip(*[self.members(x, node) for x in args]))
        elif f == 'map':
            return [self.call(args[0], list(xs), {}, node) for xs in zip(*[self.members(x, node) for x in args[1:]])]
        elif f in ('list', 'tuple', 'reversed', 'set', 'sorted'):
            xs = self.members(args[0], node) if args else []
            if f == 'reversed':
                return xs[::-1]
            if f == 'sorted':
                if kwargs.get('key') is not None or not all(isinstance(x, str) for x in xs) and \
                        not all(isinstance(x, int) for x in xs):
                    raise Undecided('sorted')
                return sorted(xs, reverse=bool(kwargs.get('reverse', False)))
            return tuple(xs) if f == 'tuple' else set(xs) if f == 'set' else xs
        elif f == 'dict':
            return dict(*[dict(a) for a in args], **kwargs)
        elif f == 'abs':
            return each(other, args[0]) if isinstance(args[0], (Arr, Cond)) else abs(args[0])
        elif f in ('float', 'int'):
            x = args[0] if args else 0
            if isinstance(x, str):
                try:
                    return int(x) if f == 'int' else float(x)
                except ValueError as v:
                    self.broken(node, str(v))
            if isinstance(x, (int, float)):
                return x if f == 'float' else int(x)
            x = arr(x)
            if len(x.data) != 1:
                self.broken(node, '%s() of an array of shape %s' % (f, x.shape))
            return Arr((), x.data)
        elif f == 'bool':
            return self.truth(args[0], node)
        elif f == 'sum':
            xs = self.members(args[0], node)
            r = args[1] if len(args) > 1 else kwargs.get('start', 0)
            for x in xs:
                r = self.binary(ast.Add(), r, x, node)
            return r
        elif f in ('max', 'min'):
            xs = list(args) if len(args) > 1 else self.members(args[0], node)
            if all(isinstance(x, (int, float)) for x in xs) and xs:
                return max(xs) if f == 'max' else min(xs)
            if all(isinstance(x, (Arr, int, float)) for x in xs) and xs:
                if any(len(arr(x).data) != 1 for x in xs):
                    self.broken(node, 'the truth of arrays of shapes %s' % ', '.join(str(arr(x).shape) for x in xs))
                return Arr(arr(xs[0]).shape, [other(*[arr(x).data[0] for x in xs])])
        elif f in ('any', 'all'):
            xs = self.members(args[0], node)
            for x in xs:
                if self.truth(x, node) == (f == 'any'):
                    return f == 'any'
            return f == 'all'
        elif f == 'isinstance':
            return self.isinstance(args[0], args[1], node)
        elif f == 'hasattr':
            o = args[0]
            if isinstance(o, Obj):
                return args[1] in o.fields or self.repo.find(o.cls, args[1]) is not None
        elif f == 'getattr':
            if isinstance(args[1], str):
                return self.attribute(args[0], args[1], node)
        elif f == 'setattr':
            if isinstance(args[0], Obj) and isinstance(args[1], str):
                st = self.repo.find(args[0].cls, args[1], 'setters')
                if st is not None:
                    return self.call_function(st, [args[2]], {}, recv=args[0])
                args[0].fields[args[1]] = args[2]
                return None
        elif f == 'type':
            if isinstance(args[0], Obj):
                return Cls(args[0].cls)
        elif f in ('str', 'repr', 'format'):
            return str(args[0]) if f == 'str' and len(args) == 1 and isinstance(args[0], (str, int)) else Text('made')
        elif f == 'dict.fromkeys':
            return dict.fromkeys(self.members(args[0], node), *args[1:])
        elif f == 'frozenset':
            return frozenset(self.members(args[0], node)) if args else frozenset()
        elif f == 'vars' and isinstance(args[0], Obj):
            return dict(args[0].fields)
        elif f == 'print':
            return None
        elif f == 'slice':
            return slice(*args)
        elif f == 'next' and isinstance(args[0], list) and args[0]:
            return args[0].pop(0)
        elif f == 'iter':
            return self.members(args[0], node)
        elif f == 'pow' and len(args) == 2:
            return self.binary(ast.Pow(), args[0], args[1], node)
        elif f == 'round':
            return each(other, args[0]) if isinstance(args[0], Arr) else args[0]
        raise Undecided('builtin %s' % f)

    def isinstance(self, v, c, node):
        cs = c if isinstance(c, (tuple, list)) else (c,)
        for k in cs:
            n = k.name if isinstance(k, Ext) else ''
            if isinstance(k, Cls):
                if isinstance(v, Obj) and self.repo.subclass_of(v.cls, k.c):
                    return True
            elif n == 'numpy.ndarray':
                if isinstance(v, Arr):
                    return True
            elif n in ('numbers.Number', 'builtins.float', 'builtins.int', 'numbers.Real'):
                if isinstance(v, (int, float)):
                    return True
            elif n in ('builtins.list', 'builtins.tuple', 'builtins.dict', 'builtins.str', 'builtins.set', 'builtins.int'):
                if type(v).__name__ == n[9:] or n == 'builtins.str' and isinstance(v, Text):
                    return True
            elif n.split('.')[-1] in ('Sized', 'Iterable', 'Sequence', 'List'):
                if isinstance(v, (list, tuple)) or n.split('.')[-1] in ('Sized', 'Iterable') and isinstance(v, Arr):
                    return True
            elif n in ('typing.Tuple', 'typing.Dict', 'typing.Mapping', 'collections.abc.Mapping'):
                if isinstance(v, tuple if n == 'typing.Tuple' else dict):
                    return True
            else:
                raise Undecided('isinstance')
        return False


def _bad(what):
    raise Undecided(what)


def einsum(spec, xs):
    spec = spec.replace(' ', '')
    if '.' in spec or '->' not in spec:
        raise Undecided('einsum')
    ins, out = spec.split('->')
    ins = ins.split(',')
    size = {}
    for s, x in zip(ins, xs):
        if len(s) != x.ndim or len(set(s)) != len(s):
            raise Undecided('einsum') if len(s) == x.ndim else ShapeMismatch('einsum %s of shape %s' % (s, x.shape))
        for c, n in zip(s, x.shape):
            if size.setdefault(c, n) != n:
                raise ShapeMismatch('einsum %s of shapes %s' % (spec, ', '.join(str(y.shape) for y in xs)))
    rest = [c for c in size if c not in out]

    def at(i):
        pos = dict(zip(out, i))
        terms = []
        for j in itertools.product(*[range(size[c]) for c in rest]):
            pos.update(zip(rest, j))
            e = NOTHING
            for s, x in zip(ins, xs):
                e = mul(e, x.at([pos[c] for c in s]))
            terms.append(e)
        return total(terms)
    return build([size[c] for c in out], at)


class _Anon:
    def __init__(self, node, module):
        self.node, self.module, self.name, self.cls = node, module, '<local>', None


def _load(t):
    return t


BUILTINS = {'len', 'range', 'enumerate', 'zip', 'map', 'list', 'tuple', 'reversed', 'set', 'sorted', 'dict', 'abs', 'float',
            'int', 'bool', 'sum', 'max', 'min', 'any', 'all', 'isinstance', 'hasattr', 'getattr', 'setattr', 'type', 'str',
            'repr', 'print', 'slice', 'next', 'iter', 'pow', 'round', 'format', 'ValueError', 'RuntimeError', 'TypeError',
            'NotImplementedError', 'AssertionError', 'frozenset', 'vars', 'KeyError', 'IndexError', 'AttributeError', 'property', 'object', 'filter', 'Exception'}

PY = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
      ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
      ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b}
PYCMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b,
         ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


def copied(v):
    if isinstance(v, Obj):
        return Obj(v.cls, {k: copied(x) for k, x in v.fields.items()})
    if isinstance(v, Arr):
        return Arr(v.shape, v.data)
    if isinstance(v, (list, tuple)):
        return type(v)(copied(x) for x in v)
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    if isinstance(v, set):
        return set(v)
    return v


def copied_top(v):
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.fields))
    if isinstance(v, Arr):
        return Arr(v.shape, v.data)
    return type(v)(v) if isinstance(v, (list, dict, set)) else v


def validators(repo, module, ann, depth=0):
    """(module, BeforeValidator call) in the annotation, looking through aliases"""
    out = []
    if depth > 8 or ann is None:
        return out
    if isinstance(ann, (ast.Name, ast.Attribute)):
        r = repo.resolve_expr(module, ann)
        if r is not None and r[0] == 'expr':
            return validators(repo, r[2], r[1], depth + 1)
        return out
    if isinstance(ann, ast.Subscript):
        h = (dotted(ann.value) or '').split('.')[-1]
        els = list(ann.slice.elts) if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if h == 'Annotated':
            out += validators(repo, module, els[0], depth + 1)
            for m in els[1:]:
                if isinstance(m, ast.Call) and (dotted(m.func) or '').split('.')[-1] == 'BeforeValidator':
                    out.append((module, m))
        elif h in ('Optional', 'Union'):
            for x in els:
                out += validators(repo, module, x, depth + 1)
    elif isinstance(ann, ast.BinOp):
        out += validators(repo, module, ann.left, depth + 1) + validators(repo, module, ann.right, depth + 1)
    return out


# ---------------------------------------------------------------- inputs
class Sizes:
    """Sizes of the inputs: batch(path) -> rows, wide(path) -> values of a list, members(path) -> length of a tuple"""

    def __init__(self, batch, values, members, absent=(), given=()):
        self.batch, self.values, self.members, self.absent, self.given = batch, values, members, absent, given
        self.rows = set()                    # inputs with a leading axis for the batch

    def source(self, name, shape):
        self.rows.add(name)
        return source(name, (self.batch(name),) + tuple(shape))


def source(name, shape):
    return build(shape, lambda i: frozenset([frozenset([(name,) + i])]))


def make(repo, c, path, sizes):
    """An instance of the class with every element of every field unknown"""
    fields = {}
    for n, (ann, dflt, owner) in repo.model_fields(c).items():
        p = '%s.%s' % (path, n)
        ty = repo.type_of(owner.module, ann, owner)
        if ty.opt and (sizes.absent(p) if callable(sizes.absent) else p in sizes.absent):
            fields[n] = None
        elif ty.kind == 'arr' and ty.args:
            fields[n] = sizes.source(p, (1 if ty.args[0] == 'scalar' else sizes.values(p),))
        elif ty.kind == 'arr':
            fields[n] = source(p, (sizes.values(p),))
        elif ty.kind == 'cls':
            fields[n] = make(repo, ty.cls, p, sizes)
        elif ty.kind in ('seq', 'tuple') and ty.args and ty.args[0].kind == 'cls':
            fields[n] = tuple(make(repo, ty.args[0].cls, '%s.%d' % (p, k), sizes) for k in range(sizes.members(p)))
        elif ty.kind in ('float', 'int', 'num'):
            fields[n] = source(p, ())
        elif ty.kind == 'str':
            fields[n] = Text(p)
        elif ty.kind == 'set':
            fields[n] = set()
        elif ty.kind == 'bool':
            fields[n] = Cond(('flag', p))
        else:
            fields[n] = Text(p)
    return Obj(c, fields)


def paths(run, limit=512):
    """Results of ``run(decisions)`` for every combination of decisions it asks for"""
    todo = [{}]
    n = 0
    while todo:
        d = todo.pop()
        before = set(d)
        out = run(d)
        n += 1
        if n > limit:
            raise Undecided('more than %d paths' % limit)
        new = [k for k in d if k not in before]
        yield dict(d), out
        for i, k in enumerate(new):
            alt = {x: d[x] for x in before}
            for y in new[:i]:
                alt[y] = d[y]
            alt[k] = not d[k]
            todo.append(alt)
