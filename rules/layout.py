"""Names, values and marks of trees of parameters and of vectors, followed name by name and value by value.

The methods of the package are interpreted (engine/cells.py) on trees in which every kind of attribute occurs at every
depth, with all sizes known and a mark of its own in place of every number. What comes out is compared with what the
layout of the tree, walked here, asks for.
"""
from engine import cells as ce
from .common import Report

B = 3


def array(name, rows, width):
    return ce.Arr((rows, width), [frozenset([frozenset([(name, i, j)])]) for i in range(rows) for j in range(width)])


# ---------------------------------------------------------------- trees
def tree(repo, batch=lambda path: 1, width=lambda path: 3, members=11, marks=lambda path: True, boughs=2):
    """A tree with attributes of every kind at every depth

    batch, width: rows of a parameter, and values of a list;  marks: whether the attribute with this path is updatable
    """
    get = repo.classes.get

    def node(cls, path, **given):
        c = get('specs.health.' + cls)
        fields = {}
        for n in repo.model_fields(c):
            if n == 'updatable':
                fields[n] = set()
                continue
            p = '%s.%s' % (path, n) if path else n
            if n in given:
                fields[n] = given[n](p)
            else:
                fields[n] = array(p, batch(p), width(p) if n in 'yb' else 1)
            if fields[n] is not None and marks(p):
                fields['updatable'].add(n)
        return ce.Obj(c, fields)

    def leaf(p):
        return node('Leaf', p)

    def bough(p, some=2):
        return node('Bough', p, leaf=leaf, leaves=lambda q: tuple(leaf('%s.%d' % (q, i)) for i in range(some)),
                    named=lambda q: {k: leaf('%s.%s' % (q, k)) for k in ('v', 'u')[:some]})
    return node('Grove', '', bough=bough, none=lambda q: None,
                boughs=lambda q: tuple(bough('%s.%d' % (q, i), i + 2 - boughs) for i in range(boughs)),
                table=lambda q: {k: bough('%s.%s' % (q, k)) for k in ('z', 'm')[:boughs]},
                row=lambda q: tuple(leaf('%s.%d' % (q, i)) for i in range(members)))


def children(o):
    """(name, kind, members) of the attributes of a node in order of declaration"""
    for n, v in o.fields.items():
        if n == 'updatable' or v is None:
            continue
        if isinstance(v, ce.Arr):
            yield n, 'value', v
        elif isinstance(v, ce.Obj):
            yield n, 'one', [('', v)]
        else:
            yield n, 'many', [('%s.' % k, x) for k, x in (v.items() if isinstance(v, dict) else enumerate(v))]


def walk(o, prefix='', chain=()):
    """(name, owner, attribute, the marks on the way) of every parameter, depth first"""
    for n, kind, v in children(o):
        way = chain + ((o, n),)
        if kind == 'value':
            yield prefix + n, o, n, way
        else:
            for k, x in v:
                yield from walk(x, '%s%s.%s' % (prefix, n, k), way)


def nodes(o, prefix=''):
    yield prefix, o
    for n, kind, v in children(o):
        if kind != 'value':
            for k, x in v:
                yield from nodes(x, '%s%s.%s' % (prefix, n, k))


def free(way):
    return all(n in o.fields['updatable'] for o, n in way)


def parts(o, prefix=''):
    """Names of everything which is not a single parameter: components, collections and their members"""
    for n, kind, v in children(o):
        if kind == 'value':
            continue
        yield prefix + n
        for k, x in v:
            if k:
                yield '%s%s.%s' % (prefix, n, k[:-1])
            yield from parts(x, '%s%s.%s' % (prefix, n, k))


def each_value(name, a):
    return [name] if a.shape[1] == 1 else ['%s[%d]' % (name, i) for i in range(a.shape[1])]


def rows(a, n):
    return a if a.shape[0] == n else ce.Arr((n, a.shape[1]), list(a.data) * n)


def side_by_side(arrays, n):
    if not arrays:
        return ce.Arr((n, 0), [])
    return ce.join([rows(a, n) for a in arrays], 1)


# ---------------------------------------------------------------- comparison
def image(v):
    """A value as plain data; two values are the same when their images are"""
    if isinstance(v, ce.Arr):
        return ('array', v.shape, tuple(v.data))
    if isinstance(v, ce.Obj):
        return ('object', v.cls.qual, tuple((k, image(x)) for k, x in v.fields.items()))
    if isinstance(v, (list, tuple)):
        return ('members',) + tuple(image(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(v)))
    if isinstance(v, dict):
        return ('dict', tuple((k, image(x)) for k, x in v.items()))
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    raise ce.Undecided('result %r' % (v,))


def told(v):
    if isinstance(v, ce.Arr):
        return 'array of shape %s: %s' % (v.shape, ', '.join(sorted(
            '%s[%s]' % (s[0], ','.join(map(str, s[1:]))) for s in ce.flat(e)).__str__() for e in v.data[:12]))
    if isinstance(v, (list, tuple)):
        return '[%s]' % ', '.join(told(x) for x in v)
    if isinstance(v, ce.Obj):
        return '%s(%s)' % (v.cls.name, ', '.join('%s=%s' % (k, told(x)) for k, x in v.fields.items()))
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(map(str, v)))
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, told(x)) for k, x in v.items())
    return str(v)


def apart(a, b, path=''):
    """The first place where two values differ"""
    if isinstance(a, ce.Obj) and isinstance(b, ce.Obj) and a.cls is b.cls and list(a.fields) == list(b.fields):
        a, b = a.fields, b.fields
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        a, b, ks = list(a.values()), list(b.values()), list(a)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        ks = list(range(len(a)))
    else:
        return path, a, b
    for k, x, y in zip(ks, a, b):
        if image(x) != image(y):
            return apart(x, y, '%s.%s' % (path, k) if path else str(k))
    return path, a, b


class Checks:
    """Runs methods of the package and compares what they give"""

    def __init__(self, repo, name):
        self.repo, self.rep, self.und, self.bad = repo, Report(name), [], 0

    def method(self, cls, name):
        fi = self.repo.find(cls, name)
        if fi is None:
            raise ce.Undecided('no %s' % name)
        return fi

    def case(self, title, anchor, do, want, refuse=False):
        """do(machine) -> what the code gives; want: what it has to be; refuse: it has to raise"""
        some_order = []
        for backwards in (False, True):
            if backwards and not some_order:
                break       # no members of a set were taken in turn

            def run(d):
                m = ce.Machine(self.repo, d)
                m.module, m.backwards, m.cls, m.env = None, backwards, None, {}
                try:
                    return do(m)
                except ce.Refused as e:
                    return e
                except ce.Broken as e:
                    return e
                finally:
                    if m.ordered:
                        some_order.append(1)
                    self.rep.functions.update(m.functions)
                    self.rep.count('call sites', m.calls)
            try:
                for d, out in ce.paths(run):
                    self.rep.count('paths')
                    if isinstance(out, (ce.Refused, ce.Broken)):
                        if not refuse:
                            self.add(anchor, title, getattr(out, 'where', str(out)),
                                     'is refused' if isinstance(out, ce.Refused) else out.what)
                    elif refuse:
                        self.add(anchor, title, '', 'is not rejected')
                    elif image(out) != image(want):
                        p, a, b = apart(out, want)
                        self.add(anchor, title, '', '%sgives %s instead of %s' % (
                            'at %s ' % p if p else '', told(a)[:400], told(b)[:400]))
            except ce.Undecided as e:
                self.und.append('%s: %s' % (title, e))
            except RecursionError:
                self.und.append('%s: depth' % title)
        self.rep.count('cases')

    def add(self, fi, title, where, text):
        key = fi.qual
        if any(i['key'].endswith(':' + key) for i in self.rep.items):
            return
        self.rep.add(key, where or '%s:%d' % (fi.module.rel, fi.node.lineno), '%s: %s: %s' % (fi.qual, title, text))

    def result(self, need):
        r = self.rep.result({'cases': need})
        if self.und and r.status in ('ok', 'anchor'):
            r.status, r.detail = 'undecided', '; '.join(self.und[:4])
        return r


def health(repo):
    for c in repo.classes.values():
        if c.name == 'HealthVariable' and not c.module.name.startswith('specs.'):
            return c


def batches():
    yield 'one row', lambda p: 1
    yield 'batched', lambda p: B
    yield 'only a deep value batched', lambda p: B if p == 'boughs.1.leaves.0.y' else 1
    yield 'only a value by key batched', lambda p: B if p == 'table.m.named.v.x' else 1
    yield 'only a list batched', lambda p: B if p == 'b' else 1
    yield 'all but one batched', lambda p: 1 if p == 'row.10.y' else B


def widths():
    yield 'lists of three', lambda p: 3
    yield 'lists of one, none and two', lambda p: {'b': 1, 'boughs.1.y': 0, 'bough.leaf.y': 1, 'row.10.y': 4}.get(p, 2)


def marked():
    yield 'all updatable', lambda p: True
    yield 'none updatable', lambda p: False
    for x in ('a', 'b', 'k', 'bough', 'boughs', 'table', 'row', 'bough.leaf', 'bough.leaf.x', 'boughs.1.leaves', 'boughs.1.leaves.0.y',
              'table.m.named', 'table.z.named.u.x', 'row.10.x', 'boughs.0.y', 'table.z', 'table.m.leaf'):
        yield 'all but %s updatable' % x, lambda p, x=x: p != x
    yield 'only some updatable', lambda p: p in ('b', 'bough', 'bough.leaves', 'bough.leaves.1.y', 'table', 'table.m.x', 'row',
                                                 'row.2.y', 'row.10.x', 'boughs', 'boughs.1.named', 'boughs.1.named.v.x')


# ---------------------------------------------------------------- obligations
def listing(repo, opts):
    k = Checks(repo, 'layout_listing')
    it = k.method(health(repo), 'iter_parameters')
    names = {True: k.method(health(repo), 'updatable_names'), False: k.method(health(repo), 'all_names')}
    count = k.method(health(repo), 'num_updatable')
    for tm, marks in marked():
        for tw, width in widths():
            t = tree(repo, width=width, marks=marks)
            for only in (True, False):
                for deep in (True, False):
                    want = [(n, o.fields[f]) for n, o, f, way in walk(t)
                            if (not only or free(way)) and (deep or '.' not in n)]
                    k.case('parameters, updatable_only=%s, recurse=%s, %s, %s' % (only, deep, tm, tw), it,
                           lambda m: m.call_function(it, [], {'updatable_only': only, 'recurse': deep},
                                                     recv=tree(repo, width=width, marks=marks)), want)
                want = [n for n, o, f, way in walk(t) if not only or free(way)]
                fi = names[only]
                k.case('names, %s' % tm, fi, lambda m: m.call_function(fi, [], {}, recv=tree(repo, marks=marks)), want)
            k.case('number of values, %s, %s' % (tm, tw), count,
                   lambda m: m.call_function(count, [], {}, recv=tree(repo, lambda p: B, width, marks=marks)),
                   sum(o.fields[f].shape[1] for n, o, f, way in walk(t) if free(way)))
    t = tree(repo, boughs=1, members=1)
    k.case('parameters of collections of one', it, lambda m: m.call_function(
        it, [], {}, recv=tree(repo, boughs=1, members=1)), [(n, o.fields[f]) for n, o, f, way in walk(t)])
    k.case('parameters by default', it,
           lambda m: m.call_function(it, [], {}, recv=tree(repo, marks=lambda p: p != 'bough')),
           [(n, o.fields[f]) for n, o, f, way in walk(tree(repo, marks=lambda p: p != 'bough')) if free(way)])
    return k.result(50)


def expanding(repo, opts):
    k = Checks(repo, 'layout_expanding')
    ex = k.method(health(repo), 'expand_names')
    for tm, marks in (('all updatable', lambda p: True), ('none updatable', lambda p: False)):
        for tw, width in widths():
            for tb, batch in (('one row', lambda p: 1), ('batched', lambda p: B)):
                def made():
                    return tree(repo, batch, width, marks=marks)
                t = made()
                values = {n: each_value(n, o.fields[f]) for n, o, f, way in walk(t)}
                below = {p: [v for n in values if n.startswith(p + '.') for v in values[n]] for p in parts(t)}
                every = dict(values)
                # names of members inside members of collections are not part of the contract of whole components
                every.update({p: v for p, v in below.items() if p in supported(t)})
                some = list(every)
                lists = [[n] for n in some] + [some[::-1], some[3:20] + some[:5], [some[2], some[2]], []]
                for names in lists:
                    k.case('names of %s, %s, %s, %s' % (names if len(names) < 4 else '%d names' % len(names), tm, tw, tb), ex,
                           lambda m: m.call_function(ex, [list(names)], {}, recv=made()), [v for n in names for v in every[n]])
    return k.result(50)


def supported(t):
    """Components at the top, their collections, and members of collections"""
    out = set()
    for n, kind, v in children(t):
        if kind != 'value':
            out.add(n)
        if kind == 'many':
            out |= {'%s.%s' % (n, m[:-1]) for m, x in v}
        if kind == 'one':
            out |= {'%s.%s' % (n, s) for s in supported(v[0][1])}
    return out


def reading(repo, opts):
    k = Checks(repo, 'layout_reading')
    rd = k.method(health(repo), 'get_parameters')
    for tb, batch in batches():
        for tw, width in widths():
            def made(marks=lambda p: tw[-1] == 'e'):
                return tree(repo, batch, width, marks=marks)
            t = made()
            n = max(o.fields[f].shape[0] for _, o, f, w in walk(t))
            values = {x: o.fields[f] for x, o, f, w in walk(t)}
            some = list(values)
            singles = [[x] for x in (some if tw[-1] == 'e' and tb in ('one row', 'only a list batched') or opts.get('thorough') else some[::5])]
            for names in singles + [some, some[::-1], some[5:20] + some[:3], [some[1], some[0], some[1]], []]:
                k.case('values of %s, %s, %s' % (names if len(names) < 4 else '%d names' % len(names), tb, tw), rd,
                       lambda m: m.call_function(rd, [], {'names': list(names)}, recv=made()),
                       side_by_side([values[x] for x in names], n))
            for tm, marks in marked():
                t = made(marks)
                k.case('values of updatable parameters, %s, %s, %s' % (tm, tb, tw), rd,
                       lambda m: m.call_function(rd, [], {}, recv=made(marks)),
                       side_by_side([o.fields[f] for x, o, f, w in walk(t) if free(w)], n))
    return k.result(100)


def fill(t, names, values):
    """Put columns in place of the parameters named"""
    at = {n: (o, f) for n, o, f, w in walk(t)}
    p = 0
    for n in names:
        o, f = at[n]
        w = o.fields[f].shape[1]
        o.fields[f] = ce.get(values, (slice(None), slice(p, p + w)))
        p += w
    return t


def given(rows_, width):
    if rows_ == 0:
        return ce.Arr((width,), array('new', 1, width).data)
    return array('new', rows_, width)


def twod(a):
    return ce.Arr((1,) + a.shape, a.data) if a.ndim == 1 else a


def changed(k, fi, wrong_too, opts):
    """Cases of writing, in place or to a copy"""
    repo = k.repo
    place = fi.name == 'update_parameters'
    for tb, batch in list(batches())[:3]:
        for tw, width in widths():
            def made(marks=lambda p: True):
                return tree(repo, batch, width, marks=marks)
            t = made()
            widths_ = {x: o.fields[f].shape[1] for x, o, f, w in walk(t)}
            some = list(widths_)

            def on(names, r, n, marks=lambda p: True):
                """The tree (and the copy) after writing"""
                def do(m):
                    h = made(marks)
                    kw = {'values': given(r, n)}
                    if names is not None:
                        kw['names'] = list(names)
                    res = m.call_function(fi, [], kw, recv=h)
                    return h if place else (h, res)
                return do

            def want(new, marks=lambda p: True):
                return new if place else (made(marks), new)

            every = tw[-1] == 'e' and tb == 'one row' or opts.get('thorough')
            for names in [[x] for x in (some if every else some[::5])] + [some, some[::-1], some[5:20] + some[:3], []]:
                n = sum(widths_[x] for x in names)
                title = '%s, %s, %s' % (names if len(names) < 4 else '%d names' % len(names), tb, tw)
                for r in (1, B, 0):
                    k.case('writing %s' % title, fi, on(names, r, n), want(fill(made(), names, twod(given(r, n)))))
                if not wrong_too:
                    continue
                for wrong in (n + 1, n - 1, n + B):
                    if wrong >= 0:
                        for r in (1, B, 0) if len(names) > 1 else (1,):
                            k.case('writing %d values to %s' % (wrong, title), fi, on(names, r, wrong), None, True)
            for tm, marks in marked():
                ns = [x for x, o, f, w in walk(made(marks)) if free(w)]
                n = sum(widths_[x] for x in ns)
                k.case('writing what is updatable, %s' % tm, fi, on(None, 1, n, marks),
                       want(fill(made(marks), ns, given(1, n)), marks))
                if wrong_too:
                    k.case('writing too much to what is updatable, %s' % tm, fi, on(None, B, n + 1, marks), None, True)
    return k.result(100)


def writing(repo, opts):
    k = Checks(repo, 'layout_writing')
    return changed(k, k.method(health(repo), 'update_parameters'), True, opts)


def copying(repo, opts):
    k = Checks(repo, 'layout_copying')
    return changed(k, k.method(health(repo), 'make_copy'), False, opts)


def fixed(repo, opts):
    k = Checks(repo, 'layout_fixed')
    up = k.method(health(repo), 'update_parameters')
    t = tree(repo)
    for x, o, f, way in walk(t):
        name = ''
        # leave out each mark on the way in turn
        for o2, n in way:
            if not any(o2 is y for y in [z for _, z in nodes(t)]):
                continue
            owner = [p for p, z in nodes(t) if z is o2][0]
            name = owner + n
            w = o.fields[f].shape[1]
            k.case('writing %s with all but %s updatable' % (x, name), up, lambda m: m.call_function(
                up, [given(1, w)], {'names': [x]}, recv=tree(repo, marks=lambda p: p != name)), None, True)
        w = o.fields[f].shape[1]
        k.case('writing %s with nothing updatable' % x, up, lambda m: m.call_function(
            up, [given(1, w)], {'names': [x]}, recv=tree(repo, marks=lambda p: False)), None, True)
        way_ = {[p for p, z in nodes(t) if z is o2][0] + n for o2, n in way}
        k.case('writing %s with nothing but the way there updatable' % x, up, lambda m: after(m, up, [given(1, w)], {'names': [x]}, tree(
            repo, marks=lambda p: p in way_)), fill(tree(repo, marks=lambda p: p in way_), [x], given(1, w)))
    return k.result(50)


def after(m, fi, args, kw, recv):
    m.call_function(fi, args, kw, recv=recv)
    return recv


def marking(repo, opts):
    k = Checks(repo, 'layout_marking')
    mark, all_, none = [k.method(health(repo), n) for n in ('mark_updatable', 'mark_all_updatable', 'mark_all_fixed')]
    for tm, marks in marked():
        for x, o, f, way in list(walk(tree(repo)))[::1 if tm in ('none updatable', 'only some updatable') else 7]:
            want = tree(repo, marks=marks)
            for y, o2, f2, way2 in walk(want):
                if y == x:
                    for z, n in way2:
                        z.fields['updatable'].add(n)
            k.case('marking %s, %s' % (x, tm), mark, lambda m: after(m, mark, [x], {}, tree(repo, marks=marks)), want)
        for deep in (True, False):
            want = tree(repo, marks=marks)
            for p, z in nodes(want):
                if deep or not p:
                    z.fields['updatable'] |= {n for n, kind, v in children(z)}
            k.case('marking all, recurse=%s, %s' % (deep, tm), all_,
                   lambda m: after(m, all_, [], {'recurse': deep}, tree(repo, marks=marks)), want)
            want = tree(repo, marks=marks)
            for p, z in nodes(want):
                if deep or not p:
                    z.fields['updatable'] = set()
            k.case('fixing all, recurse=%s, %s' % (deep, tm), none,
                   lambda m: after(m, none, [], {'recurse': deep}, tree(repo, marks=marks)), want)
    return k.result(50)


def setting(repo, opts):
    k = Checks(repo, 'layout_setting')
    st = k.method(health(repo), 'set_value')
    for tb, batch in list(batches())[:2]:
        t = tree(repo, batch)
        for x, o, f, way in walk(t):
            w = o.fields[f].shape[1]
            shapes = [((), (1, 1)), ((1,), (1, 1)), ((B,), (B, 1)), ((B, 1), (B, 1)), ((1, 1), (1, 1))] if w == 1 else \
                [((w,), (1, w)), ((1, w), (1, w)), ((B, w), (B, w))]
            for shape, to in shapes:
                data = [frozenset([frozenset([('new', i)])]) for i in range(ce.count(shape))]
                want = tree(repo, batch)
                for y, o2, f2, w2 in walk(want):
                    if y == x:
                        o2.fields[f2] = ce.Arr(to, data)
                k.case('%s set to a value of shape %s, %s' % (x, shape, tb), st, lambda m: after(
                    m, st, [x, ce.Arr(shape, data)], {}, tree(repo, batch)), want)
    return k.result(20)


def rows_of_all(repo, opts):
    k = Checks(repo, 'layout_batch_size')
    size = k.method(health(repo), 'batch_size')
    every = [x for x, o, f, w in walk(tree(repo))]
    for x in every:
        for tm, marks in list(marked())[:2]:
            k.case('only %s batched, %s' % (x, tm), size, lambda m: m.call_function(
                size, [], {}, recv=tree(repo, lambda p: B if p == x else 1, marks=marks)), B)
            for n in (2, 5):
                k.case('%s with %d rows, others with %d, %s' % (x, n, B, tm), size, lambda m: m.call_function(
                    size, [], {}, recv=tree(repo, lambda p: n if p == x else B, marks=marks)), None, True)
    for x, y in zip(every, every[5:] + every[:5]):
        for n in (2, 5):
            k.case('%s with %d rows, %s with %d' % (x, n, y, B), size, lambda m: m.call_function(
                size, [], {}, recv=tree(repo, lambda p: n if p == x else B if p == y else 1)), None, True)
    k.case('one row', size, lambda m: m.call_function(size, [], {}, recv=tree(repo)), 1)
    k.case('batched', size, lambda m: m.call_function(size, [], {}, recv=tree(repo, lambda p: B)), B)
    return k.result(50)


def dimensions(repo, opts):
    """Values given for a parameter, and what is stored: one row per member of the batch"""
    k = Checks(repo, 'layout_dimensions')
    c = repo.classes.get('specs.health.Leaf')
    fs = repo.model_fields(c)
    for field, shapes in (('x', [((), (1, 1)), ((1,), (1, 1)), ((1, 1), (1, 1)), ((B,), (B, 1)), ((B, 1), (B, 1)), ((1, B), (B, 1))]),
                          ('y', [((), (1, 1)), ((1,), (1, 1)), ((4,), (1, 4)), ((1, 4), (1, 4)), ((B, 4), (B, 4)), ((B, 1), (B, 1)),
                                 ((0,), (1, 0))])):
        ann, dflt, owner = fs[field]
        fi = anchor_of(repo, owner, ann)
        for shape, to in shapes:
            data = [frozenset([frozenset([('new', i)])]) for i in range(ce.count(shape))]
            for kind in ('array', 'lists'):
                v = ce.Arr(shape, data)
                if kind == 'lists':
                    v = listed(v)
                k.case('%s of shape %s for a parameter of %s' % (kind, shape, 'one value' if field == 'x' else 'several values'), fi,
                       lambda m: m.validated(ce.copied(v), ann, owner), ce.Arr(to, data))
    ann, dflt, owner = fs['x']
    for shape in ((B, 2), (2, B), (B, 2, 2)):
        data = [frozenset([frozenset([('new', i)])]) for i in range(ce.count(shape))]
        k.case('array of shape %s for a parameter of one value' % (shape,), anchor_of(repo, owner, ann),
               lambda m: m.validated(ce.Arr(shape, data), ann, owner), None, True)
    return k.result(20)


def anchor_of(repo, owner, ann):
    for m in repo.modules.values():
        r = m.names.get('enforce_dimensions')
        if r is not None and r[0] == 'func':
            return r[1]
    return repo.find(health(repo), 'check_batch_size')


def listed(a):
    if a.ndim == 0:
        return a
    return [listed(ce.get(a, i)) for i in range(a.shape[0])]


# ---------------------------------------------------------------- vectors
def vector(repo, widths_, batch, cls='specs.containers.Probe'):
    c = repo.classes.get(cls)
    fields = {}
    for n in repo.model_fields(c):
        w = widths_.get(n)
        fields[n] = None if w is None else array(n, batch(n), w)
    return ce.Obj(c, fields)


def vectors(repo, opts):
    k = Checks(repo, 'layout_vectors')
    c = repo.classes.get('specs.containers.Probe')
    to, frm, size, names, exp, length, copy, fields, one = [k.method(c, n) for n in (
        'to_numpy', 'from_numpy', 'batch_size', 'all_names', 'expand_names', '__len__', 'make_copy', 'all_fields', 'length_field')]
    order = list(repo.model_fields(c))
    for ws in ({'a': 1, 'b': 3, 'c': 2, 'd': 1, 'e': 1}, {'a': 1, 'c': 2, 'e': 1}, {'a': 1, 'b': 1, 'c': 1, 'e': 1},
               {'a': 1, 'b': 2, 'c': 0, 'd': 1, 'e': 1}, {'a': 1, 'c': 3, 'd': 1, 'e': 1}):
        for tb, batch in [('one row', lambda n: 1), ('batched', lambda n: B)] + \
                [('only %s batched' % x, lambda n, x=x: B if n == x else 1) for x in ws] + \
                [('all but %s batched' % x, lambda n, x=x: 1 if n == x else B) for x in ws]:
            def made():
                return vector(repo, ws, batch)
            v = made()
            present = [n for n in order if v.fields[n] is not None]
            n = max(v.fields[x].shape[0] for x in present)
            w = sum(ws[x] for x in present)
            t = '%s, %s' % (', '.join('%s of %d' % (x, ws[x]) for x in present), tb)
            k.case('to an array: %s' % t, to, lambda m: m.call_function(to, [], {}, recv=made()),
                   side_by_side([v.fields[x] for x in present], n))
            k.case('rows: %s' % t, size, lambda m: m.call_function(size, [], {}, recv=made()), n)
            k.case('names: %s' % t, names, lambda m: m.call_function(names, [], {}, recv=made()),
                   [y for x in present for y in each_value(x, v.fields[x])])
            k.case('fields: %s' % t, fields, lambda m: m.call_function(fields, [], {}, recv=made()), order)
            for some in (order[::-1], ['e', 'c'], ['c'], [], ['b', 'a', 'b']):
                k.case('names of %s: %s' % (some, t), exp, lambda m: m.call_function(exp, [list(some)], {}, recv=made()),
                       [y for x in some if x in present for y in each_value(x, v.fields[x])])
            k.case('length: %s' % t, length, lambda m: m.call_function(length, [], {}, recv=made()), w)
            for x in order:
                k.case('length of %s: %s' % (x, t), one, lambda m: m.call_function(one, [x], {}, recv=made()), ws.get(x, 0))
            for r in (1, B, 2, 0):
                new, p = made(), 0
                for x in present:
                    new.fields[x] = ce.get(twod(given(r, w)), (slice(None), slice(p, p + ws[x])))
                    p += ws[x]
                k.case('from an array of %d rows: %s' % (r, t), frm, lambda m: after(m, frm, [given(r, w)], {}, made()), new)

                def do(m):
                    h = made()
                    return h, m.call_function(copy, [given(r, w)], {}, recv=h)
                k.case('copy with an array of %d rows: %s' % (r, t), copy, do, (made(), new))
        for x in ws:
            for y in ws:
                if x != y:
                    k.case('%s with 2 rows, %s with %d' % (x, y, B), size, lambda m: m.call_function(
                        size, [], {}, recv=vector(repo, ws, lambda n: 2 if n == x else B if n == y else 1)), None, True)
    return k.result(100)


# ---------------------------------------------------------------- distributions
SHAPES = ((), (0,), (1,), (3,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (1, 4), (4, 1), (1, 1, 1), (1, 2, 1), (2, 2, 2))


def numbers(name, shape):
    return ce.Arr(shape, [frozenset([frozenset([(name, i)])]) for i in range(ce.count(shape))])


def found(repo, name):
    c = [k for k in repo.classes.values() if k.name == name and k.module.name.split('.')[0] != 'specs']
    if len(c) != 1:
        raise ce.Undecided('no %s' % name)
    return c[0]


def made(c, **fields):
    def do(m):
        m.checked = True
        return m.construct(c, [], fields)
    return do


def anchor_in(repo, c, *names):
    for n in names:
        f = repo.find(c, n)
        if f is not None:
            return f
    return next(iter(c.methods.values()))


def distributions(repo, opts):
    """Which arrays are moments of a distribution, and how the moments of several are put together"""
    k = Checks(repo, 'layout_distributions')
    delta, gauss = found(repo, 'DeltaDistribution'), found(repo, 'MultivariateGaussian')
    fm, fc, fd = anchor_in(repo, delta, 'mean_1d'), anchor_in(repo, gauss, 'cov_2d'), anchor_in(repo, gauss, 'fields_dim')
    gm = anchor_in(repo, gauss, 'mean_1d')
    for shape in SHAPES:
        a = numbers('mean', shape)
        k.case('values of shape %s' % (shape,), fm, made(delta, mean=ce.copied(a)),
               ce.Obj(delta, {'mean': a}), len(shape) != 1)
        n = shape[0] if shape else 1
        s = numbers('cov', (n, n))
        k.case('mean of shape %s' % (shape,), gm, made(gauss, mean=ce.copied(a), covariance=ce.copied(s)),
               ce.Obj(gauss, {'mean': a, 'covariance': s}), len(shape) != 1 or shape[0] == 0)
        for n in (1, 2, 3, 4):
            a = numbers('mean', (n,))
            s = numbers('cov', shape)
            k.case('covariance of shape %s for %d values' % (shape, n), fd if len(shape) == 2 else fc,
                   made(gauss, mean=ce.copied(a), covariance=ce.copied(s)),
                   ce.Obj(gauss, {'mean': a, 'covariance': s}), shape != (n, n))
    for cls, cov in ((delta, False), (gauss, True)):
        comb, size, mean, var = [k.method(cls, n) for n in ('combine_with', 'num_dimensions', 'get_mean', 'get_covariance')]
        for sizes in ((1,), (3,), (1, 1), (2, 1), (1, 3), (3, 1, 2), (1, 1, 1, 1)):
            def some():
                return [ce.Obj(cls, dict([('mean', numbers('m%d' % i, (n,)))] +
                                         ([('covariance', numbers('s%d' % i, (n, n)))] if cov else [])))
                        for i, n in enumerate(sizes)]
            xs, n = some(), sum(sizes)
            t = '%s of %s values' % (cls.name, ', '.join(map(str, sizes)))
            want = {'mean': ce.join([x.fields['mean'] for x in xs], 0)}
            if cov:
                want['covariance'] = blocks([x.fields['covariance'] for x in xs])

            def do(m):
                m.checked = True
                return m.call_function(comb, [some()[1:]], {}, recv=some()[0])
            k.case('combining %s' % t, comb, do, ce.Obj(cls, want))

            def kept(m):
                m.checked = True
                all_ = some()
                m.call_function(comb, [all_[1:]], {}, recv=all_[0])
                return all_
            k.case('distributions after combining %s' % t, comb, kept, xs)
            if len(sizes) == 1:
                k.case('dimensions of %s' % t, size, lambda m: m.call_function(size, [], {}, recv=some()[0]), n)
                k.case('mean of %s' % t, mean, lambda m: m.call_function(mean, [], {}, recv=some()[0]), xs[0].fields['mean'])
                k.case('covariance of %s' % t, var, lambda m: m.call_function(var, [], {}, recv=some()[0]),
                       xs[0].fields['covariance'] if cov else ce.Arr((n, n), [ce.NOTHING] * (n * n)))
    return k.result(60)


def blocks(xs):
    n = sum(x.shape[0] for x in xs)
    data, p = [ce.NOTHING] * (n * n), 0
    for x in xs:
        w = x.shape[0]
        for i in range(w):
            for j in range(w):
                data[(p + i) * n + p + j] = x.data[i * w + j]
        p += w
    return ce.Arr((n, n), data)


def linear_maps(repo, opts):
    """Which arrays are factors and offsets of a linear map, and the shapes of what it makes of samples"""
    k = Checks(repo, 'layout_linear_maps')
    c = found(repo, 'LinearConversionOperator')
    fa, ff = anchor_in(repo, c, 'additive_1d'), anchor_in(repo, c, 'multiplicative_2d')
    for shape in SHAPES:
        b = numbers('b', shape)
        m = numbers('m', ())
        k.case('offset of shape %s' % (shape,), fa, made(c, multiplicative_array=m, additive_array=ce.copied(b)),
               ce.Obj(c, {'multiplicative_array': m, 'additive_array': ce.Arr((ce.count(shape),), b.data)}), len(shape) > 1)
        m, b = numbers('m', shape), numbers('b', (1,))
        n = ce.count(shape)
        want = m if len(shape) != 1 else ce.build((n, n), lambda i: m.data[i[0]] if i[0] == i[1] else ce.NOTHING)
        k.case('factors of shape %s' % (shape,), ff, made(c, multiplicative_array=ce.copied(m), additive_array=b),
               ce.Obj(c, {'multiplicative_array': want, 'additive_array': b}), len(shape) > 2)
    ways = [k.method(c, n) for n in ('transform_samples', 'inverse_transform_samples', 'transform_covariance',
                                     'inverse_transform_covariance')]
    for shape in ((), (2, 2), (3, 3), (3, 2), (2, 3), (1, 1), (1, 2), (2, 1)):
        for width in (1, 2, 3) if not shape else shape[1:]:
            def op():
                return ce.Obj(c, {'multiplicative_array': numbers('m', shape), 'additive_array': numbers('b', (width,))})
            m, b = numbers('m', shape), numbers('b', (width,))
            for lead in ((), (1,), (4,), (2,), (3,)):
                before = shape[0] if shape else width
                x, y = numbers('x', lead + (before,)), numbers('x', lead + (width,))
                to = ce.each(ce.mul, m, x) if not shape else ce.matmul(x, m)
                k.case('samples of shape %s through factors of shape %s' % (x.shape, shape), ways[0],
                       lambda q: q.call_function(ways[0], [ce.copied(x)], {}, recv=op()), ce.each(ce.add, to, b))
                k.case('shape of samples %s back through factors of shape %s' % (y.shape, shape), ways[1],
                       lambda q: shaped(q.call_function(ways[1], [ce.copied(y)], {}, recv=op())), lead + (before,))
            s, p = numbers('s', (before, before)), numbers('p', (before,))
            k.case('shape of a covariance %s through factors of shape %s' % (s.shape, shape), ways[2],
                   lambda q: shaped(q.call_function(ways[2], [s, p], {}, recv=op())), (width, width))
            s, p = numbers('s', (width, width)), numbers('p', (width,))
            k.case('shape of a covariance %s back through factors of shape %s' % (s.shape, shape), ways[3],
                   lambda q: shaped(q.call_function(ways[3], [s, p], {}, recv=op())), (before, before))
    return k.result(60)


def shaped(v):
    return v.shape if isinstance(v, ce.Arr) else v


RULES = {f.__name__: f for f in (listing, expanding, reading, writing, copying, fixed, marking, setting, rows_of_all, dimensions, vectors,
                               distributions, linear_maps)}
