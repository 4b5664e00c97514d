"""What results depend on beyond the arguments and the object: chance, order of sets, shared state, stale values."""
import ast
import builtins

from engine.front import Repo, dotted, walk_own
from .common import Report, last, where

CHANCE = ('numpy.random.', 'random.', 'time.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'os.urandom', 'os.getpid',
          'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today',
          'pandas.Timestamp.now', 'pandas.Timestamp.utcnow', 'pandas.Timestamp.today', 'scipy.stats.', 'socket.',
          'platform.', 'getpass.', 'threading.get_ident')
MUTATE = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'remove', 'discard', 'clear', 'setdefault',
          'sort', 'reverse', 'fill', 'put', 'resize', 'itemset'}
CONTAINERS = {'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'bytearray', 'array', 'zeros', 'ones'}
ORDERED = {'list', 'tuple', 'enumerate', 'zip', 'map', 'iter', 'reversed', 'array', 'asarray', 'concatenate', 'hstack',
           'vstack', 'stack', 'join', 'fromiter', 'chain', 'from_iterable', 'deque', 'filter', 'OrderedDict', 'fromkeys',
           'extend'}
FREE = {'sorted', 'set', 'frozenset', 'len', 'any', 'all', 'min', 'max', 'sum', 'bool', 'isinstance', 'update',
        'difference_update', 'intersection_update', 'union', 'intersection', 'difference', 'issubset', 'issuperset',
        'isdisjoint', 'symmetric_difference'}


def functions(repo):
    for f in repo.functions:
        if not f.module.name.startswith('specs.'):
            yield f


def local_names(f):
    a = f.node.args
    r = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        r.add(a.vararg.arg)
    if a.kwarg:
        r.add(a.kwarg.arg)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
    return r


def resolved(repo, f, node, shadow):
    d = dotted(node)
    if d is None:
        return None
    root = d.split('.')[0]
    if root in shadow:
        return None
    r = repo.resolve_expr(f.module, node)
    if r is not None and r[0] == 'ext':
        return r[1]
    if r is None and root == d and hasattr(builtins, d) and d not in f.module.names:
        return 'builtins.' + d
    return None


def chance(repo, rep):
    """Sources of values which differ between two runs on the same inputs"""
    for f in functions(repo):
        rep.count('functions')
        rep.functions.add(f.qual)
        shadow = local_names(f)
        parent = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                parent[c] = n
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Name, ast.Attribute)) or isinstance(parent.get(n), ast.Attribute):
                continue
            if not isinstance(n.ctx, ast.Load):
                continue
            q = resolved(repo, f, n, shadow)
            if q is None:
                continue
            rep.count('references')
            called = isinstance(parent.get(n), ast.Call) and parent[n].func is n
            if q in ('builtins.id', 'builtins.hash', 'builtins.input') and called:
                if q == 'builtins.hash' and f.name == '__hash__':
                    continue
                rep.add('chance:%s:%s' % (f.qual, q), where(f.module, n),
                        '%s uses %s: its result differs between runs on the same inputs.' % (f.qual, q))
            if any(q == c or q.startswith(c if c.endswith('.') else c + '.') for c in CHANCE):
                if q.startswith('numpy.random.') and seeded(n, parent):
                    continue
                if q.startswith('scipy.stats.') and last(n) != 'rvs':
                    continue
                rep.add('chance:%s:%s' % (f.qual, q), where(f.module, n),
                        '%s uses %s: its result is not determined by what it is given.' % (f.qual, q))


def seeded(n, parent):
    """numpy.random.default_rng(7) always gives the same numbers"""
    c = parent.get(n)
    return isinstance(c, ast.Call) and c.func is n and last(n) in ('default_rng', 'RandomState', 'Generator') and \
        bool(c.args) and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, int)


# ------------------------------------------------------------------------------------------------ sets
def set_annotation(ann):
    if ann is None:
        return False
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode='eval').body
        except SyntaxError:
            return False
    if isinstance(ann, ast.Subscript):
        h = last(ann.value)
        if h == 'Optional':
            return set_annotation(ann.slice)
        if h == 'Annotated':
            return set_annotation(ann.slice.elts[0])
        return h in ('set', 'Set', 'frozenset', 'FrozenSet', 'AbstractSet', 'MutableSet')
    return last(ann) in ('set', 'frozenset', 'Set', 'FrozenSet', 'AbstractSet', 'MutableSet')


def set_attributes(repo):
    """Attributes which are sets in every class that declares them"""
    yes, no = set(), set()
    for c in repo.classes.values():
        for n, (ann, _) in c.fields.items():
            (yes if set_annotation(ann) else no).add(n)
        for f in c.methods.values():
            if f.kind == 'property':
                (yes if set_annotation(f.node.returns) else no).add(f.name)
    return yes - no


class Sets:
    def __init__(self, repo, f, attrs):
        self.repo, self.f, self.attrs = repo, f, attrs
        self.names = set()
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if set_annotation(x.annotation):
                self.names.add(x.arg)
        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        stores.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                stores.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        stores.setdefault(t.id, []).append(None)
        for _ in range(3):
            for k, vs in stores.items():
                if k in self.names and all(v is not None and self.is_set(v) for v in vs):
                    continue
                if all(v is not None and self.is_set(v) for v in vs):
                    self.names.add(k)
                elif k in self.names:
                    self.names.discard(k)

    def is_set(self, e):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Name):
            return e.id in self.names
        if isinstance(e, ast.Attribute):
            return e.attr in self.attrs
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body) and self.is_set(e.orelse)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left) or (self.is_set(e.right) and not isinstance(e.op, ast.Sub)) or \
                self.keys(e.left) and (self.keys(e.right) or self.is_set(e.right))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
                return True
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy'):
                    return self.is_set(e.func.value)
            r = self.repo.resolve_expr(self.f.module, e.func) if dotted(e.func) else None
            if r is not None and r[0] == 'func':
                return set_annotation(r[1].node.returns)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                    e.func.value.id == 'self' and self.f.cls is not None:
                m = self.repo.find(self.f.cls, e.func.attr)
                return m is not None and set_annotation(m.node.returns)
        return False

    def keys(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items')


def order(repo, rep):
    """Sequences made by going through a set, whose order differs between runs"""
    attrs = set_attributes(repo)
    for f in functions(repo):
        s = Sets(repo, f, attrs)
        parent = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                parent[c] = n
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.comprehension, ast.Call, ast.Starred)):
                rep.count('iterations')
            bad = None
            if isinstance(n, ast.For) and s.is_set(n.iter) and ordered_body(n):
                bad = n.iter
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                if any(s.is_set(g.iter) for g in n.generators) and not free(n, parent):
                    bad = n
            elif isinstance(n, ast.YieldFrom) and s.is_set(n.value):
                bad = n
            elif isinstance(n, ast.Starred) and s.is_set(n.value) and isinstance(n.ctx, ast.Load):
                p = parent.get(n)
                if isinstance(p, (ast.List, ast.Tuple)) or isinstance(p, ast.Call) and last(p.func) not in FREE:
                    bad = n
            elif isinstance(n, ast.Call):
                if last(n.func) in ORDERED and any(s.is_set(a) for a in n.args) and not free(n, parent):
                    bad = n
                elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and \
                        s.is_set(n.func.value) and not isinstance(parent.get(n), ast.Expr):
                    bad = n
            if bad is not None:
                rep.add('order:%s' % f.qual, where(f.module, bad),
                        '%s takes the members of a set, which have no fixed order, in the order in which it meets them: '
                        '%s' % (f.qual, ast.unparse(bad)[:120]))


def free(n, parent):
    """Is the sequence only used where its order does not matter?"""
    p = parent.get(n)
    while isinstance(p, (ast.GeneratorExp, ast.ListComp, ast.Starred)) or \
            isinstance(p, ast.Call) and last(p.func) in ('list', 'tuple', 'map', 'filter', 'iter') and n in p.args:
        n, p = p, parent.get(p)
    if isinstance(p, ast.Call):
        return last(p.func) in FREE
    if isinstance(p, ast.comprehension):
        return isinstance(parent.get(p), ast.SetComp)
    return isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops)


def ordered_body(loop):
    own = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ('append', 'extend', 'insert', 'appendleft'):
                return True
            if isinstance(n, ast.AugAssign) and not isinstance(n.value, ast.Constant) and \
                    isinstance(n.target, ast.Name) and not isinstance(n.op, (ast.BitOr, ast.BitAnd)) and \
                    any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or
                        isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n.value)):
                return True
            if isinstance(n, (ast.Return,)) and n.value is not None and \
                    any(isinstance(x, ast.Name) and x.id in own for x in ast.walk(n.value)):
                return True
    return False


# ------------------------------------------------------------------------------------------------ shared state
def is_container(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and last(e.func) in CONTAINERS


def changes(fn):
    """(expression changed in place, node) in a function and those nested in it"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATE:
            yield n.func.value, n
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, (ast.Subscript, ast.Attribute)):
                        yield x.value, n
                    elif isinstance(n, ast.AugAssign) and isinstance(x, ast.Name):
                        yield x, n


def shared(repo, rep):
    """State which all objects, or all calls, have in common and which some call changes"""
    for f in functions(repo):
        rep.count('functions')
        local = local_names(f)
        globs = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}
        for g in sorted(globs):
            if any(isinstance(x, ast.Name) and x.id == g and isinstance(x.ctx, (ast.Store, ast.Del))
                   for x in ast.walk(f.node)):
                rep.add('global:%s:%s' % (f.qual, g), f.loc, '%s sets the variable %s of its module.' % (f.qual, g))
        fresh = set()
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    fresh |= {y.id for y in ([t] if isinstance(t, ast.Name) else
                                             [z for z in ast.walk(t) if isinstance(z, ast.Name) and
                                              isinstance(z.ctx, ast.Store)])}
        a = f.node.args
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        one = {k for k, d in defaults.items() if is_container(d) or isinstance(d, ast.Call) and not immutable(repo, f, d)}
        rep.count('defaults', len(one))
        for e, n in changes(f.node):
            rep.count('changes')
            if isinstance(e, ast.Name) and e.id in one and e.id not in fresh:
                rep.add('default:%s:%s' % (f.qual, e.id), where(f.module, n),
                        '%s changes its argument %s, whose default value is the same object in every call.' % (
                            f.qual, e.id))
            if isinstance(e, ast.Name) and e.id not in local or isinstance(e, ast.Attribute):
                d = dotted(e)
                if d is None or d.split('.')[0] in local | {'self'} and d.split('.')[0] != 'cls':
                    pass
                else:
                    r = repo.resolve_expr(f.module, e)
                    if r is not None and r[0] == 'expr' and is_container(r[1]):
                        rep.add('module:%s:%s' % (f.qual, d), where(f.module, n),
                                '%s changes %s, which all calls have in common.' % (f.qual, d))
                    elif r is not None and r[0] == 'class':
                        rep.add('class:%s:%s' % (f.qual, d), where(f.module, n),
                                '%s changes the class %s, which all objects have in common.' % (f.qual, d))
            if isinstance(e, ast.Name) and e.id == 'cls' and f.kind == 'class' or \
                    isinstance(e, ast.Attribute) and e.attr == '__class__' or \
                    isinstance(e, ast.Call) and last(e.func) == 'type' and len(e.args) == 1:
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    rep.add('class:%s' % f.qual, where(f.module, n),
                            '%s changes its class, which all objects have in common.' % f.qual)
    for c in repo.classes.values():
        if c.module.name.startswith('specs.') or repo.is_model(c) or repo.is_typeddict(c):
            continue
        held = {n: v for n, v in c.attrs.items() if is_container(v)}
        held.update({n: d for n, (ann, d) in c.fields.items() if d is not None and is_container(d) and
                     not any('dataclass' in (dotted(x) or dotted(getattr(x, 'func', x)) or '')
                             for x in c.node.decorator_list)})
        for k in [c] + repo.all_subs(c):
            for f in k.methods.values():
                for e, n in changes(f.node):
                    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') \
                            and e.attr in held and not set_in_init(repo, k, e.attr):
                        rep.add('class:%s:%s' % (f.qual, e.attr), where(f.module, n),
                                '%s changes %s, which all objects of %s have in common.' % (f.qual, e.attr, c.qual))
        init = repo.find(c, '__init__')
        if init is None or init.cls is not c:
            continue
        a = init.node.args
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in walk_own(init.node):
            if not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in defaults):
                continue
            d = defaults[x.value.id]
            if not (is_container(d) or isinstance(d, ast.Call) and not immutable(repo, init, d)):
                continue
            for t in x.targets:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'):
                    continue
                rep.count('stored defaults')
                for k in [c] + repo.all_subs(c):
                    for f in k.methods.values():
                        for e, n in changes(f.node):
                            if isinstance(e, ast.Attribute) and e.attr == t.attr and isinstance(e.value, ast.Name) and \
                                    e.value.id == 'self':
                                rep.add('default:%s:%s' % (f.qual, t.attr), where(f.module, n),
                                        '%s changes %s, which may be the default value all objects of %s have in '
                                        'common.' % (f.qual, t.attr, c.qual))


def handed(repo, rep):
    """One changeable object which every call gives to its caller"""
    for f in functions(repo):
        if f.name.startswith('_') or f.name.startswith('visit_'):
            continue
        kept = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                kept.setdefault(n.targets[0].id, []).append(n.value)
        cached = {d.split('.')[-1] for d in f.decorators} & {'lru_cache', 'cache'}
        for n in walk_own(f.node):
            if not isinstance(n, ast.Return) or n.value is None:
                continue
            rep.count('returns')
            for e in given_back(n.value, kept):
                if cached:
                    if is_container(e) or makes(repo, f, e):
                        rep.add('handed:%s' % f.qual, where(f.module, n),
                                '%s makes its result once and gives the same changeable object to every caller.' % f.qual)
                    continue
                v = held_value(repo, f, e)
                if v is not None and (is_container(v[1]) or makes(repo, f, v[1], v[0])):
                    rep.add('handed:%s' % f.qual, where(f.module, n),
                            '%s gives %s, one changeable object, to every caller.' % (f.qual, ast.unparse(e)))


def given_back(e, kept, depth=0):
    if isinstance(e, ast.IfExp):
        return given_back(e.body, kept, depth) + given_back(e.orelse, kept, depth)
    if isinstance(e, ast.Name) and e.id in kept and depth < 4:
        return [x for v in kept[e.id] for x in given_back(v, kept, depth + 1)]
    return [e]


def held_value(repo, f, e):
    """The value a variable of the module or an attribute of the class was given, when the function gives it back"""
    if isinstance(e, ast.Name):
        if e.id in local_names(f):
            return None
        r = repo.resolve_expr(f.module, e)
        return (f.module, r[1]) if r is not None and r[0] == 'expr' else None
    if not isinstance(e, ast.Attribute) or not isinstance(e.value, (ast.Name, ast.Attribute)):
        return None
    c = None
    if isinstance(e.value, ast.Name) and f.cls is not None and (
            e.value.id == 'cls' or e.value.id == 'self' and not set_in_init(repo, f.cls, e.attr)):
        c = f.cls
    elif isinstance(e.value, ast.Attribute) and e.value.attr == '__class__':
        c = f.cls
    else:
        r = repo.resolve_expr(f.module, e.value) if dotted(e.value) and dotted(e.value).split('.')[0] not in local_names(f) \
            else None
        if r is not None and r[0] == 'class':
            c = r[1]
    if c is None:
        return None
    for k in repo.mro(c):
        if repo.is_model(k) and not e.attr.startswith('_') and e.attr in k.fields:
            return None
        if e.attr in k.attrs:
            # pydantic copies private attributes for each object
            return None if repo.is_model(k) and isinstance(e.value, ast.Name) and e.value.id == 'self' else \
                (k.module, k.attrs[e.attr])
        if e.attr in k.fields and k.fields[e.attr][1] is not None:
            return k.module, k.fields[e.attr][1]
    return None


def makes(repo, f, e, module=None):
    """The call makes an object of one of the repository's classes"""
    if not isinstance(e, ast.Call) or dotted(e.func) is None:
        return False
    r = repo.resolve_expr(module or f.module, e.func)
    if r is None:
        r = repo.resolve_expr(module or f.module, getattr(e.func, 'value', e.func))
    return r is not None and r[0] == 'class' and not repo.is_typeddict(r[1])


def immutable(repo, f, call):
    return last(call.func) in ('Field', 'float', 'int', 'str', 'tuple', 'frozenset', 'Fraction', 'Decimal', 'Path')


def set_in_init(repo, c, name):
    for k in repo.mro(c):
        f = k.methods.get('__init__')
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                return True
    return False


# ------------------------------------------------------------------------------------------------ cached values
def caches(repo, rep):
    """Values computed once, from what can change afterwards"""
    roots = [c for n in ('moirae.models.base.HealthVariable', 'moirae.models.base.GeneralContainer')
             for c in [repo.classes.get(n)] if c is not None] + \
        [c for c in repo.classes.values() if c.qual.endswith('.Changing')]
    stores = {}
    for f in functions(repo):
        if f.name in ('__init__', '__new__', 'model_post_init'):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores.setdefault(n.attr, []).append((f, n))
    for c in repo.classes.values():
        if c.module.name.startswith('specs.'):
            continue
        for f in c.methods.values():
            ds = {d.split('.')[-1] for d in f.decorators}
            if not ds & {'cached_property', 'lru_cache', 'cache'} or f.kind in ('static', 'class'):
                continue
            rep.count('cached values')
            rep.functions.add(f.qual)
            for k in [c] + repo.all_subs(c):
                for name in sorted(reads(repo, k, f)):
                    who = None
                    if any(repo.subclass_of(k, r) for r in roots) and name in repo.model_fields(k):
                        who = 'a field which is updated'
                    for g, n in stores.get(name, ()):
                        if g is f or not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                            continue
                        if g.cls is not None and (repo.subclass_of(k, g.cls) or repo.subclass_of(g.cls, k)):
                            who = 'set by %s (%s)' % (g.qual, where(g.module, n))
                    if who and not cleared(repo, k, f.name):
                        rep.add('stale:%s:%s' % (f.qual, name), f.loc,
                                '%s is computed once from %s, which is %s.' % (f.qual, name, who))


def cleared(repo, c, name):
    """Some method drops the value kept"""
    for k in [c] + repo.all_subs(c) + repo.mro(c):
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Delete) and any(isinstance(t, ast.Attribute) and t.attr == name for t in n.targets):
                    return True
                if isinstance(n, ast.Call) and last(n.func) in ('pop', 'delattr', 'cache_clear') and \
                        (name in [getattr(a, 'value', None) for a in n.args] or last(n.func) == 'cache_clear'):
                    return True
    return False


def reads(repo, c, f, seen=None):
    """Attributes of self a method reads, through the methods and properties it uses"""
    seen = set() if seen is None else seen
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    me = f.node.args.args[0].arg if f.node.args.args else 'self'
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                n.value.id == me:
            m = repo.find(c, n.attr)
            if m is not None:
                out |= reads(repo, c, m, seen)
            else:
                out.add(n.attr)
        elif isinstance(n, ast.Call) and last(n.func) == 'getattr' and n.args and \
                isinstance(n.args[0], ast.Name) and n.args[0].id == me:
            out |= set(repo.model_fields(c))
    return out


PARTS = {'chance': chance, 'order': order, 'shared': shared, 'handed': handed, 'caches': caches}
PROBE = {
    'chance': ('''
import time
import numpy as np
from os import environ
def a(x): return x + np.random.normal()
def b(x): return time.time()
def c(x): return environ.get('x')
def d(x): return {id(x): 1}
def fine(x, random): return random.choice(x) + np.random.default_rng(1).normal()
''', 4),
    'order': ('''
class K:
    names: set[str]
    def a(self): return [x for x in self.names]
    def b(self): return tuple(self.names | {'z'})
    def c(self):
        for x in self.names:
            yield x
    def d(self):
        out = []
        for x in set(self.names):
            out.append(x)
        return out
    def fine(self):
        return sorted(x for x in self.names), {x for x in self.names}, any(x for x in self.names), list(sorted(self.names))
''', 4),
    'shared': ('''
KEPT = []
COUNT = 0
class K:
    seen = {}
    def a(self, x): self.seen[x] = 1
    def b(self, x, y=[]): y.append(x)
    def c(self, x): KEPT.append(x)
    def d(self):
        global COUNT
        COUNT += 1
    @classmethod
    def e(cls): cls.z = 1
class L:
    def __init__(self, o={}): self.o = o
    def f(self): self.o['x'] = 1
    def fine(self, y=[]):
        y = list(y)
        y.append(1)
        return y
''', 6),
    'handed': ('''
from functools import lru_cache
TABLE = {'a': 1}
NAMES = ('a', 'b')
class D:
    pass
class K:
    kept = {'x': 1}
    one = D()
    def __init__(self): self.mine = []
    @classmethod
    def a(cls): return cls.kept
    def b(self):
        r = self.one
        return r
    def c(self): return TABLE
    @lru_cache
    def d(self): return [1, 2]
    def fine(self): return self.mine
    def fine_copy(self): return dict(self.kept), list(TABLE), TABLE['a']
    def fine_tuple(self): return NAMES
''', 4),
    'caches': ('''
from functools import cached_property
class Changing:
    pass
class K:
    def __init__(self): self.x, self.y = 1, 2
    def move(self): self.x = 3
    @cached_property
    def a(self): return self.b()
    def b(self): return self.x
    @cached_property
    def fine(self): return self.y
''', 1),
}


def rule(name):
    def run(repo, opts):
        rep = Report(name)
        source, n = PROBE[name]
        probe = object.__new__(Repo)
        probe.root, probe.modules, probe.classes, probe.functions = '', {}, {}, []
        probe.add_module('probe', 'probe.py', 'probe.py', source=source)
        probe.link()
        trial = Report(name)
        PARTS[name](probe, trial)
        PARTS[name](repo, rep)
        rep.count('probes found', len(trial.items))
        need = {'probes found': n}
        if len(trial.items) > n:
            rep.items = []
            need = {'probes which match exactly': 1}
        if name != 'caches':
            need.update({'chance': {'functions': 100}, 'order': {'iterations': 300}, 'shared': {'functions': 100}, 'handed': {'returns': 100}}[name])
        return rep.result(need)
    return run


RULES = {n: rule(n) for n in PARTS}
