"""Implementations take every call their interface allows, and calls fit what they call."""
import ast

from engine.front import dotted, walk_own
from .common import Report, last, where
from .effects import functions
from engine.front import Repo

SKIP = {'__init__', '__new__', '__init_subclass__', 'model_post_init'}


def signature(f):
    """(positional names, optional names, keyword-only, required keyword-only, has *args, has **kwargs), without self"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    opt = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
    bound = f.cls is not None and f.kind not in ('static',)
    if bound and pos:
        pos = pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    req = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos, opt, kwo, req, a.vararg is not None, a.kwarg is not None


def mismatch(base, sub):
    """A call the first takes and the second does not, as text"""
    if (base.kind == 'property') != (sub.kind == 'property'):
        return 'is %s while the interface has %s' % (
            'a property' if sub.kind == 'property' else 'a method', 'a property' if base.kind == 'property' else 'a method')
    if base.kind == 'property':
        return None
    if base.kind != sub.kind and 'func' in (base.kind, sub.kind):
        return 'is not the same kind of method'
    bp, bo, bk, br, bv, bkw = signature(base)
    sp, so, sk, sr, sv, skw = signature(sub)
    if any(d.split('.')[-1] not in ('classmethod', 'staticmethod', 'abstractmethod', 'override')
           for f in (base, sub) for d in f.decorators):
        return None
    for i, n in enumerate(bp):
        if i < len(sp):
            if sp[i] != n:
                if n in sp or n in sk:
                    return 'takes %s at another position' % n
                if not skw:
                    return 'does not take %s by name' % n
        elif not sv and n in sk:
            return 'does not take %s by position' % n
        elif n not in sk and not (sv and skw):
            return 'does not take %s' % n
        if n in bo and n in sp and n not in so or n in bo and n in sr:
            return 'requires %s, which may be omitted' % n
    for n in bk:
        if n not in sk and n not in sp and not skw:
            return 'does not take %s' % n
        if n not in br and (n in sr or n in sp and n not in so):
            return 'requires %s, which may be omitted' % n
    for i, n in enumerate(sp):
        if n not in bp and n not in bk and n not in so and i >= len(bp):
            return 'requires %s, which callers do not give' % n
    for n in sr:
        if n not in bk and n not in bp:
            return 'requires %s, which callers do not give' % n
    if bv and not sv:
        return 'does not take any number of arguments'
    if bkw and not skw:
        return 'does not take any named arguments'
    return None


def overrides(repo, rep):
    for c in repo.classes.values():
        if c.module.name.startswith('specs.'):
            continue
        for n, f in c.methods.items():
            if n in SKIP or n.startswith('__') or n.startswith('_') and not n.endswith('_'):
                # private helpers are called by those who know which class they are on
                continue
            for b in repo.mro(c)[1:]:
                g = b.methods.get(n)
                if g is None:
                    if n in b.fields and f.kind != 'property':
                        rep.add('override:%s' % f.qual, f.loc, '%s hides the field %s of %s.' % (f.qual, n, b.qual))
                    continue
                rep.count('overrides')
                rep.functions.add(f.qual)
                m = mismatch(g, f)
                if m:
                    rep.add('override:%s' % f.qual, f.loc, '%s %s (interface: %s at %s).' % (f.qual, m, g.qual, g.loc))
                break


def abstract_names(repo, c):
    out = {}
    for k in reversed(repo.mro(c)):
        for n, f in k.methods.items():
            if f.is_abstract:
                out[n] = f
            else:
                out.pop(n, None)
        for n in list(out):
            if n in k.attrs or n in k.fields:
                out.pop(n)
    return out


def marked(f):
    return any(d.split('.')[-1] == 'abstractmethod' for d in f.decorators)


def used_by(repo, c, name):
    """Some method the class has calls self.name"""
    seen = {}
    for k in repo.mro(c):
        for n, f in k.methods.items():
            seen.setdefault(n, f)
    return any(isinstance(x, ast.Attribute) and x.attr == name for f in seen.values() for x in walk_own(f.node)) or any(
        isinstance(x, ast.Attribute) and x.attr == name and not (isinstance(x.value, ast.Name) and x.value.id == 'self')
        for f in functions(repo) for x in walk_own(f.node))


def complete(repo, rep):
    """Every class without subclasses, and every class which is instantiated, implements its interface"""
    made = set()
    for f in functions(repo):
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and dotted(n.func):
                r = repo.resolve_expr(f.module, n.func)
                if r is not None and r[0] == 'class':
                    made.add(r[1])
    for c in repo.classes.values():
        if c.module.name.startswith('specs.') or repo.is_typeddict(c):
            continue
        if c.subs and c not in made:
            continue
        if any(k.module.name.startswith('specs.') for k in c.subs) and not c.subs:
            continue
        ab = abstract_names(repo, c)
        own = {n for n, f in c.methods.items() if f.is_abstract}
        rep.count('classes')
        if own and c not in made:
            continue        # an interface without an implementation in the package
        for n, f in sorted(ab.items()):
            if n.startswith('_') and not n.startswith('__') and not marked(f) and not used_by(repo, c, n):
                continue    # a step of a method the class does in its own way
            rep.add('abstract:%s.%s' % (c.qual, n), where(c.module, c.node),
                    '%s lacks %s, which %s requires.' % (c.qual, n, f.qual))


def bind_error(f, call, skip=0):
    pos, opt, kwo, req, va, kw = signature(f)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        # only too many, or unknown, plain arguments can be wrong
        if not kw:
            for k in call.keywords:
                if k.arg is not None and k.arg not in pos and k.arg not in kwo:
                    return 'does not take %s' % k.arg
        return None
    n = len(call.args)
    if n > len(pos) and not va:
        return 'takes %d arguments by position, %d are given' % (len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg in given:
            return 'is given %s twice' % k.arg
        if k.arg not in pos and k.arg not in kwo and not kw:
            return 'does not take %s' % k.arg
        given.add(k.arg)
    for x in pos:
        if x not in given and x not in opt:
            return 'is not given %s' % x
    for x in req:
        if x not in given:
            return 'is not given %s' % x
    return None


def config(repo, c, name):
    """Value of an option of a pydantic class"""
    for k in repo.mro(c):
        for w in k.node.keywords:
            if w.arg == name and isinstance(w.value, ast.Constant):
                return w.value.value
        e = k.attrs.get('model_config') or (k.fields.get('model_config') or (None, None))[1]
        if isinstance(e, (ast.Dict, ast.Call)):
            items = [(getattr(a, 'value', None), b) for a, b in zip(e.keys, e.values)] if isinstance(e, ast.Dict) else \
                [(w.arg, w.value) for w in e.keywords]
            for a, b in items:
                if a == name and isinstance(b, ast.Constant):
                    return b.value
    return None


def construct_error(repo, c, call):
    init = repo.find(c, '__init__')
    if init is not None:
        return bind_error(init, call)
    if repo.is_typeddict(c):
        return None
    if repo.is_model(c):
        if call.args:
            return 'takes no arguments by position'
        fields = repo.model_fields(c)
        if config(repo, c, 'extra') == 'allow':
            return None
        names = set(fields)
        plain = True
        for n, (ann, d, k) in fields.items():
            if isinstance(d, ast.Call) and any(w.arg in ('alias', 'validation_alias') for w in d.keywords):
                plain = False
        if not plain:
            return None
        given = {w.arg for w in call.keywords}
        for w in call.keywords:
            if w.arg is not None and w.arg not in names:
                return 'has no field %s; the value given is dropped' % w.arg
        if None in given:
            return None
        for n, (ann, d, k) in fields.items():
            if n not in given and required(repo, ann, d, k.module):
                return 'is not given %s' % n
        return None
    if c.ext_bases or any(k.ext_bases for k in repo.mro(c)):
        return None
    if call.args or call.keywords:
        return 'takes no arguments'
    return None


def required(repo, ann, d, module):
    if d is None:
        # a default may be part of the annotation
        seen = 0
        while seen < 10:
            seen += 1
            if isinstance(ann, ast.Subscript) and last(ann.value) == 'Annotated':
                for m in ann.slice.elts[1:]:
                    if isinstance(m, ast.Call) and last(m.func) == 'Field' and \
                            (m.args or any(k.arg in ('default', 'default_factory') for k in m.keywords)):
                        return False
                ann = ann.slice.elts[0]
                continue
            r = repo.resolve_expr(module, ann) if isinstance(ann, (ast.Name, ast.Attribute)) else None
            if r is not None and r[0] == 'expr':
                ann, module = r[1], r[2]
                continue
            break
        return True
    if isinstance(d, ast.Call) and last(d.func) == 'Field':
        if d.args:
            return isinstance(d.args[0], ast.Constant) and d.args[0].value is Ellipsis
        return not any(k.arg in ('default', 'default_factory') for k in d.keywords)
    return False


def calls(repo, rep):
    """Every call inside the package which is resolved fits the signature of what it calls"""
    for f in functions(repo):
        rep.count('functions')
        local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        a = f.node.args
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        me = a.args[0].arg if a.args and f.cls is not None and f.kind != 'static' else None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            what = err = None
            d = n.func
            root = (dotted(d) or '').split('.')[0]
            if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Call) and last(d.value.func) == 'super' and \
                    f.cls is not None and not d.value.args:
                g = None
                for k in repo.mro(f.cls)[1:]:
                    g = k.methods.get(d.attr)
                    if g is not None or k.ext_bases:
                        break
                if g is not None and g.kind != 'property':
                    what, err = g.qual, bind_error(g, n)
            elif isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id in anns and \
                    d.value.id not in local:
                c = f.cls if d.value.id == me else None
                if c is None and anns[d.value.id] is not None:
                    t = repo.type_of(f.module, anns[d.value.id], f.cls)
                    c = t.cls if t.kind == 'cls' and not t.opt and not t.list else None
                g = repo.find(c, d.attr) if c is not None else None
                if g is not None and g.kind != 'property' and not odd(g):
                    what, err = g.qual, bind_error(g, n)
            elif root and root not in local and root not in anns:
                r = repo.resolve_expr(f.module, d)
                if r is not None and r[0] == 'func':
                    if not odd(r[1]):
                        what, err = r[1].qual, bind_error(r[1], n)
                elif r is not None and r[0] == 'class':
                    what, err = r[1].qual, construct_error(repo, r[1], n)
                elif r is None and isinstance(d, ast.Attribute):
                    k = repo.resolve_expr(f.module, d.value)
                    if k is not None and k[0] == 'class':
                        g = repo.find(k[1], d.attr)
                        if g is not None and g.kind in ('static', 'class') and not odd(g):
                            what, err = g.qual, bind_error(g, n)
            if what is None:
                continue
            rep.count('calls')
            rep.functions.add(f.qual)
            if err:
                rep.add('call:%s:%s' % (f.qual, what), where(f.module, n), 'In %s, %s %s.' % (f.qual, what, err))


def odd(g):
    """Decorated with something that may change how it is called"""
    return any(d.split('.')[-1] not in ('classmethod', 'staticmethod', 'abstractmethod', 'override', 'field_validator',
                                        'model_validator', 'lru_cache', 'cache', 'wraps') for d in g.decorators)


PARTS = {'overrides': overrides, 'complete': complete, 'calls': calls}
PROBE = {
    'overrides': ('''
class A:
    def f(self, x, y=1): raise NotImplementedError()
    def g(self, x): pass
    @property
    def h(self): pass
    def k(self, x): pass
    def fine(self, x, y=1): pass
class B(A):
    def f(self, x, y): pass
    def g(self, z): pass
    def h(self): pass
    def k(self, x, z): pass
    def fine(self, x, y=2, z=3, **kw): pass
''', 4),
    'complete': ('''
from abc import abstractmethod
class A:
    @abstractmethod
    def f(self): pass
    def g(self): raise NotImplementedError()
class B(A):
    def f(self): return 1
class C(A):
    def f(self): return 1
    def g(self): return 1
''', 1),
    'calls': ('''
from pydantic import BaseModel
class M(BaseModel):
    x: int
    y: int = 1
class P:
    def __init__(self, a, b=1): self.a = a
    def m(self, a): return self.m(b=a)
def f(x): return P(x, c=1), P(), M(x=1, z=2), M(y=1), P(x, b=2), M(x=2), M(**x), f(x, x)
''', 6),
}


def rule(name):
    def run(repo, opts):
        source, n = PROBE[name]
        probe = object.__new__(Repo)
        probe.root, probe.modules, probe.classes, probe.functions = '', {}, {}, []
        probe.add_module('probe', 'probe.py', 'probe.py', source=source)
        probe.link()
        trial = Report(name)
        PARTS[name](probe, trial)
        rep = Report(name)
        PARTS[name](repo, rep)
        rep.count('probes found', len(trial.items))
        if len(trial.items) != n:
            rep.items = []
            return rep.result({'probes which match': 1})
        return rep.result({'overrides': {'overrides': 40}, 'complete': {'classes': 25}, 'calls': {'calls': 150}}[name])
    return run


RULES = {n: rule(n) for n in PARTS}
