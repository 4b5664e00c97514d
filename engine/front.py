"""Front end: parse the package, build symbol tables, class hierarchy and types."""
import ast
import os

from . import terms


class Ty:
    """A static type: kind in any,int,float,str,bool,arr,none,cls,seq,tuple,dict,type,func"""
    __slots__ = ('kind', 'args', 'cls', 'opt', 'exact', 'list')

    def __init__(self, kind, args=(), cls=None, opt=False, exact=False, lst=False):
        self.kind, self.args, self.cls, self.opt, self.exact, self.list = kind, tuple(args), cls, opt, exact, lst

    def __repr__(self):
        return '%s%s%s%s' % (self.kind, '<%s>' % self.cls.name if self.cls else '', list(self.args) or '',
                             '?' if self.opt else '')

    def with_(self, **k):
        d = dict(kind=self.kind, args=self.args, cls=self.cls, opt=self.opt, exact=self.exact, lst=self.list)
        d.update(k)
        return Ty(**d)


ANY = Ty('any')
INT, FLOAT, STR, BOOL, ARR = Ty('int'), Ty('float'), Ty('str'), Ty('bool'), Ty('arr')
terms.INT_TYPE[0] = INT


class FuncInfo:
    def __init__(self, node, module, cls=None, name=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = name or node.name
        self.kind = 'func'
        self.setter = None
        for d in getattr(node, 'decorator_list', []):
            n = dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else '') or ''
            last = n.split('.')[-1]
            if last in ('property', 'cached_property'):
                self.kind = 'property'
            elif last == 'staticmethod':
                self.kind = 'static'
            elif last == 'classmethod':
                if self.kind == 'func':
                    self.kind = 'class'
            elif last == 'setter':
                self.kind = 'setter'
        self.decorators = [dotted(d) or (dotted(d.func) if isinstance(d, ast.Call) else '') or ''
                           for d in getattr(node, 'decorator_list', [])]

    @property
    def qual(self):
        return '.'.join(x for x in (self.module.name, self.cls.name if self.cls else None, self.name) if x)

    @property
    def is_generator(self):
        if not hasattr(self, '_gen'):
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
        return self._gen

    @property
    def is_abstract(self):
        """Abstract or stub: raises NotImplementedError, passes, or only has a docstring"""
        if any(d.split('.')[-1] == 'abstractmethod' for d in self.decorators):
            return True
        body = [s for s in self.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
            e = body[0].exc
            n = dotted(e.func if isinstance(e, ast.Call) else e)
            return n == 'NotImplementedError'
        return False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]

    @property
    def loc(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)


def walk_own(fn):
    """Nodes of a function without those of nested functions"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.setters = {}
        self.fields = {}       # name -> (annotation node, default node or None)
        self.base_names = []
        self.ext_bases = []
        self.bases = []
        self.subs = []
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s, module, self)
                if f.kind == 'setter':
                    self.setters[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields[s.target.id] = (s.annotation, s.value)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return '<class %s>' % self.qual


class ModuleInfo:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.names = {}     # name -> ('func',FuncInfo)|('class',ClassInfo)|('mod',modname)|('from',modname,attr)|('expr',node)
        self.source = None


class Repo:
    def __init__(self, root, package='moirae'):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.functions = []
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise FileNotFoundError(base)
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    parts = rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == '__init__'
                    if is_pkg:
                        parts = parts[:-1]
                    self.add_module('.'.join(parts), p, rel, is_pkg)
        self.link()

    def add_module(self, name, path, rel, is_pkg=False, source=None):
        if source is None:
            with open(path, encoding='utf-8') as fp:
                source = fp.read()
        tree = ast.parse(source, path)
        m = ModuleInfo(name, path, rel, tree, is_pkg)
        m.source = source
        self.modules[name] = m
        self._collect(m, tree.body)
        return m

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(s, m)
                m.names[s.name] = ('func', fi)
                self.functions.append(fi)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(s, m)
                m.names[s.name] = ('class', c)
                self.classes[c.qual] = c
                self.functions.extend(list(c.methods.values()) + list(c.setters.values()))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ('mod', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                mod = s.module or ''
                if s.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in s.names:
                    m.names[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.names[s.target.id] = ('expr', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(m, s.body)
                for h in getattr(s, 'handlers', []):
                    self._collect(m, h.body)
                self._collect(m, s.orelse)

    def link(self):
        for c in list(self.classes.values()):
            if getattr(c, '_linked', False):
                continue
            c._linked = True
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == 'class':
                    c.bases.append(r[1])
                    r[1].subs.append(c)
                else:
                    c.ext_bases.append((r[1] if r else None) or dotted(b) or ast.dump(b))

    # ---------------------------------------------------------------- names
    def lookup(self, module, name, depth=0):
        """Resolve a module-level name to ('func'|'class'|'mod'|'ext'|'expr', ...) or None"""
        if depth > 12:
            return None
        e = module.names.get(name)
        if e is None:
            sub = module.name + '.' + name
            if module.is_pkg and sub in self.modules:
                return ('mod', sub)
            return None
        if e[0] == 'from':
            _, mod, attr = e
            if mod in self.modules:
                r = self.lookup(self.modules[mod], attr, depth + 1)
                if r is not None:
                    return r
                if mod + '.' + attr in self.modules:
                    return ('mod', mod + '.' + attr)
                return ('ext', mod + '.' + attr)
            if mod + '.' + attr in self.modules:
                return ('mod', mod + '.' + attr)
            return ('ext', mod + '.' + attr)
        if e[0] == 'mod':
            return ('mod', e[1]) if e[1] in self.modules else ('ext', e[1])
        if e[0] == 'expr':
            return ('expr', e[1], module)
        return e

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b is None:
                return None
            if b[0] == 'mod':
                if b[1] in self.modules:
                    return self.lookup(self.modules[b[1]], node.attr)
                return ('ext', b[1] + '.' + node.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + node.attr)
        return None

    # ---------------------------------------------------------------- classes
    def mro(self, c):
        if not hasattr(c, '_mro'):
            out = [c]
            seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for t in seqs:
                    if t and t[0] is cand:
                        del t[0]
            c._mro = out
        return c._mro

    def find(self, c, name, table='methods', after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for k in mro:
            f = getattr(k, table).get(name)
            if f is not None:
                return f
        return None

    def field(self, c, name):
        for k in self.mro(c):
            if name in k.fields:
                return k, k.fields[name]
        return None

    def all_subs(self, c):
        out, stack = [], list(c.subs)
        while stack:
            x = stack.pop()
            if x not in out:
                out.append(x)
                stack.extend(x.subs)
        return out

    def overridden(self, c, name):
        return [s for s in self.all_subs(c) if name in s.methods or name in s.fields or name in s.attrs]

    def is_model(self, c):
        """Is a pydantic model"""
        return any('BaseModel' in str(b) for k in self.mro(c) for b in k.ext_bases)

    def is_typeddict(self, c):
        return any('TypedDict' in str(b) for k in self.mro(c) for b in k.ext_bases)

    def model_fields(self, c):
        """Ordered pydantic fields: base class fields first"""
        out = {}
        for k in reversed(self.mro(c)):
            for n, (ann, dflt) in k.fields.items():
                if n.startswith('_') or n == 'model_config':
                    continue
                d = dotted(ann) or ''
                if isinstance(ann, ast.Subscript) and (dotted(ann.value) or '').split('.')[-1] == 'ClassVar':
                    continue
                out[n] = (ann, dflt, k)
        return out

    def subclass_of(self, c, d):
        return d in self.mro(c)

    # ---------------------------------------------------------------- types
    def type_of(self, module, ann, cls=None, depth=0):
        if ann is None or depth > 10:
            return ANY
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return Ty('none')
            if isinstance(ann.value, str):
                try:
                    return self.type_of(module, ast.parse(ann.value, mode='eval').body, cls, depth + 1)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self._union([self.type_of(module, ann.left, cls, depth + 1),
                                self.type_of(module, ann.right, cls, depth + 1)])
        if isinstance(ann, ast.Subscript):
            h = (dotted(ann.value) or '').split('.')[-1]
            sl = ann.slice
            args = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
            if h == 'Exact':
                t = self.type_of(module, args[0], cls, depth + 1)
                return t.with_(exact=True)
            if h == 'Optional':
                return self.type_of(module, args[0], cls, depth + 1).with_(opt=True)
            if h == 'Union':
                return self._union([self.type_of(module, a, cls, depth + 1) for a in args])
            if h in ('Annotated', 'NotRequired', 'Required', 'Final', 'ClassVar'):
                return self.type_of(module, args[0], cls, depth + 1)
            if h in ('Set', 'set', 'frozenset'):
                return Ty('set', (self.type_of(module, args[0], cls, depth + 1),))
            if h in ('List', 'list', 'Sequence', 'Iterable', 'Iterator', 'Collection',
                     'Generator', 'Sized', 'Container'):
                return Ty('seq', (self.type_of(module, args[0], cls, depth + 1),), lst=h in ('List', 'list'))
            if h in ('Tuple', 'tuple'):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return Ty('seq', (self.type_of(module, args[0], cls, depth + 1),))
                if len(args) == 1:
                    return Ty('seq', (self.type_of(module, args[0], cls, depth + 1),))
                return Ty('tuple', [self.type_of(module, a, cls, depth + 1) for a in args])
            if h in ('Dict', 'dict', 'Mapping'):
                return Ty('dict', [self.type_of(module, a, cls, depth + 1) for a in args])
            if h == 'Literal':
                return STR
            if h in ('type', 'Type'):
                return Ty('type')
            if h == 'Callable':
                return Ty('func')
            return ANY
        n = dotted(ann)
        if n is None:
            return ANY
        last = n.split('.')[-1]
        r = self.resolve_expr(module, ann)
        if r is not None and r[0] == 'class':
            return Ty('cls', cls=r[1])
        if r is not None and r[0] == 'expr':
            t = self.type_of(r[2], r[1], cls, depth + 1)
            if last in ('ScalarParameter', 'ListParameter') and t.kind == 'arr':
                # two-dimensional, batch first; the validator stores a copy
                return Ty('arr', ('scalar' if last == 'ScalarParameter' else 'list',), opt=t.opt)
            return t
        if last == 'Self' and cls is not None:
            return Ty('cls', cls=cls)
        if last in ('int',):
            return INT
        if last in ('float', 'Number'):
            return FLOAT
        if last == 'str':
            return STR
        if last == 'bool':
            return BOOL
        if last == 'ndarray':
            return ARR
        if last in ('list', 'List'):
            return Ty('seq', (ANY,), lst=True)
        if last in ('set', 'Set'):
            return Ty('set', (ANY,))
        if last in ('tuple', 'Tuple', 'Sequence', 'Iterable'):
            return Ty('seq', (ANY,))
        if last in ('dict', 'Dict'):
            return Ty('dict', (ANY, ANY))
        if last == 'Any' or last == 'object':
            return ANY
        if r is not None and r[0] == 'ext' and r[1].split('.')[0] in ('h5py', 'battdat', 'pandas', 'pathlib'):
            return Ty('ext', (r[1],))
        return Ty('any', opt=False)

    @staticmethod
    def _union(ts):
        opt = any(t.kind == 'none' or t.opt for t in ts)
        ts = [t for t in ts if t.kind != 'none']
        if len(ts) == 1:
            return ts[0].with_(opt=opt or ts[0].opt)
        if all(t.kind in ('float', 'int') for t in ts) and ts:
            return FLOAT.with_(opt=opt)
        if all(t.kind in ('float', 'int', 'arr') or (t.kind == 'seq') for t in ts) and ts and \
                any(t.kind == 'arr' for t in ts):
            return Ty('num', opt=opt)     # a number or an array of numbers
        return Ty('any', opt=opt, args=ts)
