"""Value-flow analysis of the package: abstract interpretation into gated value graphs.

The interpreter computes, for every variable and heap cell, a canonical term over
the symbolic inputs of the analysed entry point (gated SSA / global value
numbering).  Both sides of a branch are analysed once and joined with gated phi
nodes, loops are summarised once, calls into the package are inlined, and calls
to overridable or abstract methods stay uninterpreted.  Paths are never
enumerated and no solver is involved.
"""
import ast
from collections import namedtuple

from . import terms as tm
from .terms import (mk, const, ite, TRUE, FALSE, NONE, ZERO, ONE, b_not, b_and, b_or, atom, restrict_by, T,
                    seq, item, splice, fld, is_num, is_str, cval, lifted, op)
from .front import Ty, ANY, INT, FLOAT, STR, BOOL, ARR, FuncInfo, ClassInfo, dotted, walk_own

Val = namedtuple('Val', 'v')                      # mutable holder of an array (or opaque) value
Lst = namedtuple('Lst', 'v')                      # list: sequence term (members may be references)
Dct = namedtuple('Dct', 'entries base')           # dict: ((key, value), ...) over an optional symbolic base
Obj = namedtuple('Obj', 'cls base fields')        # object: overlay ((name, value), ...) over an optional base
View = namedtuple('View', 'parent ix')            # numpy view of another array

BOT = mk('bot')
ABSENT = mk('absent')
UNDEF = mk('undef')


def annotated_with(ann, name):
    """Arguments of the markers of that name in Annotated[...]"""
    out = []
    for x in ast.walk(ann) if ann is not None else ():
        if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] == name and x.args:
            out.append(x.args[0])
    return out


class Unsupported(Exception):
    pass


class AnchorMissing(Exception):
    """A public name that the rule is about is gone"""


class Exit:
    __slots__ = ('kind', 'guard', 'value', 'heap', 'env', 'loc')

    def __init__(self, kind, guard, value, heap, env, loc):
        self.kind, self.guard, self.value, self.heap, self.env, self.loc = kind, guard, value, heap, env, loc


class Frame:
    def __init__(self, module, env, parent=None, func=None, cls=None):
        self.module, self.env, self.parent, self.func, self.cls = module, env, parent, func, cls
        self.exits = []
        self.yields = None
        self.recv = None


class Fn:
    """Closure or lambda"""
    def __init__(self, info, frame, defaults):
        self.info, self.frame, self.defaults = info, frame, defaults


def loc_of(frame, node):
    return (frame.module.rel, getattr(node, 'lineno', 0))


# Methods of the containers which are modelled as one operation unless a check asks for their code
OPAQUE = {
    'GeneralContainer.to_numpy', 'GeneralContainer.from_numpy', 'GeneralContainer.expand_names',
    'GeneralContainer.all_names', 'GeneralContainer.batch_size', 'GeneralContainer.__len__',
    'GeneralContainer.length_field', 'GeneralContainer.all_fields',
    'HealthVariable.batch_size', 'HealthVariable.iter_parameters', 'HealthVariable.get_parameters',
    'HealthVariable.update_parameters', 'HealthVariable.set_value', 'HealthVariable.expand_names',
    'HealthVariable.updatable_names', 'HealthVariable.all_names', 'HealthVariable.num_updatable',
    'HealthVariable.mark_updatable', 'HealthVariable.mark_all_updatable', 'HealthVariable.mark_all_fixed',
}
MUTATORS = {'from_numpy', 'update_parameters', 'set_value', 'mark_updatable', 'mark_all_updatable', 'mark_all_fixed',
            'step'}
# abstract methods whose receiver changes
STATEFUL_ABSTRACT = {'step'}
EFFECT_METHODS = {'create_group', 'create_dataset', 'resize', 'close', 'require_group', 'require_dataset',
                  'write', 'writelines', 'unlink', 'remove_file', 'save', 'to_hdf', 'to_csv', 'put',
                  'add_summaries'}


class Interp:
    def __init__(self, repo, opaque=None, transparent=(), scalar_mode=False, validators=False):
        self.repo = repo
        self.opaque = (OPAQUE if opaque is None else set(opaque)) - set(transparent)
        if '*' in transparent:
            self.opaque = set()
        self.scalar_mode = scalar_mode
        self.pseudo = False
        self.flat = set()  # arrays known to be vectors because they were flattened
        self.validators = validators
        self.heap = {}
        self.shallow = set()
        self.narrow = {}
        self.init = {}
        self.pc = TRUE
        self.frames = []
        self.fns = []
        self.fn_ids = {}
        self.counter = 0
        self.try_depth = 0
        self.handling = None
        self.lost = []             # writes which the summaries of loops do not carry
        self.unknown = []          # constructs that were not understood
        self.analysed = {}         # qualified function name -> number of times entered
        self.sites = 0             # call sites resolved
        self.effect_id = ('new', 'effects')
        self.heap[self.effect_id] = Lst(seq())
        self.rng = []              # non deterministic sources reached
        self.facts = {}
        self.aliases = {}
        self.asserts = []          # (condition, place) under which an assertion fails
        self.loop_depth = 0
        self.steps = 0
        from . import libs
        self.libs = libs

    # ------------------------------------------------------------------ references
    def ref(self, i):
        r = mk('ref', i)
        return r

    def new(self, cell, tag=None):
        self.counter += 1
        i = ('new', self.counter)
        self.heap[i] = cell
        return self.ref(i)

    def cell(self, i):
        c = self.heap.get(i)
        if c is None:
            c = self.init.get(i)
            if c is None:
                raise Unsupported('unknown cell %r' % (i,))
        return c

    def root(self, i):
        while i[0] in ('f', 'v', 'i'):
            i = i[1]
        return i

    def unk(self, what, node=None):
        """A construct outside the analysed subset"""
        where = ''
        if self.frames and node is not None:
            where = '%s:%d' % loc_of(self.frames[-1], node)
        self.unknown.append((what, where))
        self.counter += 1
        return mk('unknown', what, self.counter)

    # ------------------------------------------------------------------ symbolic values
    def typ_of_term(self, t):
        if t.op in ('obj', 'with') and isinstance(t.args[0], T) and t.op == 'with':
            return self.typ_of_term(t.args[0])
        if t.op == 'obj':
            c = self.repo.classes.get(t.args[0])
            return Ty('cls', cls=c, exact=True) if c is not None else ANY
        return t.typ

    def materialise(self, i, t, ty, present=False):
        """Value standing for the term t of static type ty; mutable parts become cells with identity i"""
        if t.op == 'ite':
            return tm.leafmap(t, lambda x: self.materialise(i + (('t', x.key),), x, ty))
        o = t.op
        if o in ('c', 'ref', 'cls', 'ext', 'mod', 'func', 'fn', 'lam', 'meth', 'partial', 'bot', 'absent', 'nan', 'inf'):
            return t
        tt = self.typ_of_term(t)
        if tt is not None and (ty is None or ty.kind in ('any', 'cls') or tt.kind != 'any'):
            if ty is None or ty.kind == 'any' or (tt.kind == 'cls' and (tt.exact or ty.kind != 'cls')) or \
                    (tt.kind == 'cls' and ty.kind == 'cls' and self.repo.subclass_of(tt.cls, ty.cls)):
                ty = tt
        if ty is None:
            ty = ANY
        if present and ty.opt:
            ty = ty.with_(opt=False)
        if o in ('obj', 'with'):
            cls = ty.cls if ty.kind == 'cls' else None
            if cls is not None:
                self.init.setdefault(i, Obj(cls, t, ()))
                return self.ref(i)
            return t
        if o == 'dict':
            self.init.setdefault(i, Dct(tuple((kv[0], kv[1]) for kv in t.args[0]), None))
            return self.ref(i)
        if o == 'tuple':
            tys = ty.args if ty.kind == 'tuple' and len(ty.args) == len(t.args) else [
                ty.args[0] if ty.kind == 'seq' and ty.args else ANY] * len(t.args)
            return mk('tuple', *[self.materialise(i + (k,), x, y) for k, (x, y) in enumerate(zip(t.args, tys))])
        if ty.opt and o not in tm.NEVER_NONE:
            if t.typ is None:
                t.typ = self.scalar_type(ty)
            c = tm.isnone(t)
            if c is not FALSE:
                return ite(c, NONE, self.materialise(i, t, ty.with_(opt=False), True))
            ty = ty.with_(opt=False)
        if ty.kind == 'cls':
            if self.repo.is_typeddict(ty.cls):
                self.init.setdefault(i, Dct((), t))
                t.typ = t.typ or ty
                return self.ref(i)
            if t.typ is None:
                t.typ = ty
            self.init.setdefault(i, Obj(ty.cls, t, ()))
            return self.ref(i)
        if ty.kind in ('int', 'float', 'str', 'bool'):
            if t.typ is None:
                t.typ = ty
            return t
        if ty.kind == 'seq':
            if t.typ is None and o != 'seq':
                t.typ = ty
            if ty.list or o == 'seq':
                self.init.setdefault(i, Lst(t))
                return self.ref(i)
            return t
        if ty.kind == 'tuple':
            if t.typ is None:
                t.typ = ty
            return mk('tuple', *[self.materialise(i + (k,), tm.index(t, const(k)), y) for k, y in enumerate(ty.args)])
        if ty.kind in ('dict',):
            if t.typ is None:
                t.typ = ty
            self.init.setdefault(i, Dct((), t))
            return self.ref(i)
        if ty.kind in ('type', 'func'):
            if t.typ is None:
                t.typ = ty
            return t
        if ty.kind == 'ext':
            if t.typ is None:
                t.typ = ty
            if self.libs.is_handle(t):
                return t
            self.init.setdefault(i, Val(t))
            return self.ref(i)
        if ty.kind in ('arr', 'num', 'any', 'set'):
            if t.typ is None:
                if ty.kind == 'arr':
                    if self.scalar_mode and ty.args and ty.args[0] == 'scalar':
                        t.typ = FLOAT
                    else:
                        t.typ = ty
                elif self.scalar_mode and ty.kind == 'num':
                    t.typ = FLOAT
                elif ty.kind == 'set' or any(isinstance(x, Ty) and x.kind == 'ext' for x in ty.args) or ty.args and all(x.kind in ('int', 'float', 'str', 'bool') for x in ty.args):
                    t.typ = ty
            self.init.setdefault(i, Val(t))
            return self.ref(i)
        return t

    def scalar_type(self, ty):
        """Numbers of any shape are single numbers in scalar mode"""
        if self.scalar_mode and (ty.kind == 'num' or ty.kind == 'arr' and ty.args and ty.args[0] == 'scalar'):
            return FLOAT.with_(opt=ty.opt)
        return ty

    def lift(self, t):
        """Value for a term produced by the analysis (result of an uninterpreted call, member of a sequence, ...)"""
        ty = self.typ_of_term(t) if t.op != 'ite' else None
        if t.op == 'ite':
            return tm.leafmap(t, self.lift)
        if ty is None or ty.kind in ('int', 'float', 'str', 'bool', 'any', 'arr', 'num'):
            if ty is None and t.op in ('dict',):
                return self.materialise(('sym', t.key), t, ANY)
            return t
        return self.materialise(('sym', t.key), t, ty)

    def param(self, name, ty):
        t = mk('sym', name)
        return self.materialise(('sym', name), t, ty)

    # ------------------------------------------------------------------ reading values
    def restrict(self, v):
        if v.op == 'ite' and self.pc is not TRUE:
            return restrict_by(v, self.pc)
        return v

    def val(self, v):
        """Pure value: references to arrays replaced by contents, other references reified"""
        v = self.restrict(v)
        return self._val(v)

    def _val(self, v):
        if v.op == 'ite':
            return tm.leafmap(v, self._val)
        if v.op == 'ref':
            return self.read_ref(v.args[0])
        if v.op in ('tuple', 'seq', 'item', 'rep', 'splice', 'meth', 'bm', 'partial', 'fn', 'superv', 'slice', 'star',
                    'dict', 'iter', 'arr'):
            return self.reify(v)
        return v

    def read_ref(self, i, depth=0):
        c = self.cell(i)
        if isinstance(c, Val):
            return self._val(c.v) if c.v.op in ('ref', 'ite', 'tuple') else c.v
        if isinstance(c, View):
            return self.libs.index_val(self, self.read_ref(c.parent), c.ix)
        return self.reify(self.ref(i))

    def reify(self, v, seen=()):
        """Deep structural snapshot"""
        o = v.op
        if o == 'ref':
            i = v.args[0]
            if i in seen:
                return mk('cycle')
            c = self.cell(i)
            s = seen + (i,)
            if isinstance(c, (Val, View)):
                x = self.read_ref(i)
                return self.reify(x, s) if x.op in ('ref', 'tuple', 'seq', 'ite') else x
            if isinstance(c, Lst):
                r = self.reify(c.v, s)
                if r.typ is None and r.op == 'seq':
                    pass
                return r
            if isinstance(c, Dct):
                return self.dct_term(c, s)
            if isinstance(c, Obj):
                own = dict(c.fields)
                names = set(own)
                # fields whose cells were changed in place
                for j in list(self.heap):
                    if j[0] == 'f' and j[1] == i and c.base is not None and j[2] == c.base.key and j[3] not in names:
                        names.add(j[3])
                out = []
                for n in sorted(names):
                    x = own[n] if n in own else self.read_field_raw(i, c, n)
                    x = self.reify(x, s)
                    if c.base is not None and x is fld(c.base, n):
                        continue
                    if n.startswith('__cache'):
                        continue
                    out.append((n, x))
                if c.base is None:
                    return mk('obj', c.cls.qual if c.cls is not None else '?', tuple(out))
                if not out:
                    return c.base
                if c.base.op == 'obj':
                    d = dict(c.base.args[1])
                    d.update(out)
                    return mk('obj', c.base.args[0], tuple(sorted(d.items())))
                if c.base.op == 'with':
                    d = dict(c.base.args[1])
                    d.update(out)
                    r = mk('with', c.base.args[0], tuple(sorted(d.items())))
                else:
                    r = mk('with', c.base, tuple(out))
                if r.typ is None and c.cls is not None:
                    r.typ = Ty('cls', cls=c.cls, exact=bool(c.base.typ and c.base.typ.exact))
                return r
            raise Unsupported('cell')
        if o == 'ite':
            return tm.leafmap(v, lambda x: self.reify(x, seen))
        if o == 'tuple':
            return mk('tuple', *[self.reify(x, seen) for x in v.args])
        if o == 'seq':
            return seq(*[self.reify(x, seen) for x in v.args])
        if o == 'item':
            return item(self.reify(v.args[0], seen))
        if o == 'splice':
            return splice(self.reify(v.args[0], seen))
        if o == 'rep':
            return mk('rep', self.reify(v.args[0], seen), self.reify(v.args[1], seen), v.args[2])
        if o == 'fn':
            return self.reify_fn(v, seen)
        if o in ('meth', 'bm', 'partial', 'star', 'iter', 'superv', 'slice', 'dict', 'index', 'arr', 'call', 'mcall',
                 'sorted', 'pair'):
            na = tuple(self.reify_arg(x, seen) for x in v.args)
            if na == v.args:
                return v
            return op(o, *na) if o != 'index' else tm.index(*na)
        return v

    def reify_arg(self, x, seen):
        if isinstance(x, T):
            return self.reify(x, seen)
        if isinstance(x, tuple):
            return tuple(self.reify_arg(y, seen) for y in x)
        return x

    def reify_fn(self, v, seen):
        """A closure is compared through its body as a function of fresh parameters"""
        f = self.fns[v.args[0]]
        if len(seen) > 6 or v in getattr(self, '_fn_stack', ()):
            return mk('lamrec')
        self._fn_stack = getattr(self, '_fn_stack', ()) + (v,)
        save = self.save()
        try:
            names = [a.arg for a in f.info.args.args] if isinstance(f.info, ast.Lambda) else f.info.params()
            h = 900 + 10 * len(self._fn_stack)
            ps = [mk('bound', h + k) for k in range(len(names))]
            r = self.call(v, list(ps), {}, None)
            return mk('lam', len(names), self.reify(r, seen))
        except Unsupported:
            return mk('lam', 0, mk('unknown', 'closure', v.args[0]))
        finally:
            self.restore(save)
            self._fn_stack = self._fn_stack[:-1]

    # ------------------------------------------------------------------ state
    def save(self):
        f = self.frames[-1] if self.frames else None
        return (self.heap, self.pc, f, f.env if f else None)

    def fork(self):
        """Work on copies of the state from here on"""
        self.heap = dict(self.heap)
        if self.frames:
            self.frames[-1].env = dict(self.frames[-1].env)

    def restore(self, s):
        self.heap, self.pc = s[0], s[1]
        if s[2] is not None:
            s[2].env = s[3]

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is BOT:
            return b
        if b is BOT:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(c, a, b)

    def merge_seq(self, c, a, b):
        """Join of two sequence values which share a prefix"""
        if a is b:
            return a
        if a.op == 'seq' and b.op == 'seq':
            n = 0
            while n < len(a.args) and n < len(b.args) and a.args[n] is b.args[n]:
                n += 1
            if n:
                ra, rb = seq(*a.args[n:]), seq(*b.args[n:])
                return seq(*a.args[:n], splice(ite(c, ra, rb)))
        if a.op == 'ite' or b.op == 'ite':
            return ite(c, a, b)
        sa = a.args if a.op == 'seq' else (splice(a),)
        sb = b.args if b.op == 'seq' else (splice(b),)
        n = 0
        while n < len(sa) and n < len(sb) and sa[n] is sb[n]:
            n += 1
        if n:
            return seq(*sa[:n], splice(ite(c, seq(*sa[n:]), seq(*sb[n:]))))
        return ite(c, a, b)

    def dct_term(self, c, s=()):
        if c.base is not None and not c.entries:
            return c.base
        es = sorted(((self.reify(k, s), self.reify(x, s)) for k, x in c.entries), key=lambda kv: kv[0].key)
        if c.base is None:
            return mk('dict', tuple(es))
        return mk('dictwith', c.base, tuple(es))

    def merge_cell(self, c, i, x, y):
        if x is y or x == y:
            return x
        if isinstance(x, Lst) and isinstance(y, Lst):
            return Lst(self.merge_seq(c, x.v, y.v))
        if isinstance(x, (Val, View)) and isinstance(y, (Val, View)):
            vx = x.v if isinstance(x, Val) else self.libs.index_val(self, self.read_ref(x.parent), x.ix)
            vy = y.v if isinstance(y, Val) else self.libs.index_val(self, self.read_ref(y.parent), y.ix)
            return Val(self.merge_val(c, vx, vy))
        if isinstance(x, Dct) and isinstance(y, Dct) and x.base is y.base:
            dx, dy = dict(x.entries), dict(y.entries)
            out = []
            for k in list(dx) + [k for k in dy if k not in dx]:
                out.append((k, self.merge_val(c, dx.get(k, ABSENT if x.base is None else mk('dictget', x.base, k)),
                                              dy.get(k, ABSENT if y.base is None else mk('dictget', y.base, k)))))
            return Dct(tuple(out), x.base)
        if isinstance(x, Dct) and isinstance(y, Dct):
            return Dct((), ite(c, self.dct_term(x), self.dct_term(y)))
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x.base is not y.base:
                if x.cls is y.cls and not x.fields and not y.fields:
                    return Obj(x.cls, ite(c, x.base, y.base), ())
                # fold the overlays into the bases
                bx, by = self.flat_obj(x), self.flat_obj(y)
                return Obj(x.cls, ite(c, bx, by), ())
            dx, dy = dict(x.fields), dict(y.fields)
            out = []
            for k in list(dx) + [k for k in dy if k not in dx]:
                a = dx[k] if k in dx else self.read_field_raw(i, x, k)
                b = dy[k] if k in dy else self.read_field_raw(i, y, k)
                out.append((k, self.merge_val(c, a, b)))
            return Obj(x.cls, x.base, tuple(out))
        raise Unsupported('merge of different cells')

    def flat_obj(self, c):
        out = tuple(sorted((n, self.reify(v)) for n, v in c.fields))
        if c.base is None:
            return mk('obj', c.cls.qual, out)
        return mk('with', c.base, out) if out else c.base

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        save = self.heap
        for i in h1:
            x = h1[i]
            y = h2.get(i)
            if y is None:
                y = self.init.get(i)
                if y is None:
                    out[i] = x
                    continue
            if x is y:
                out[i] = x
                continue
            self.heap = h1
            out[i] = self.merge_cell(c, i, x, y)
        for i in h2:
            if i not in h1:
                x = self.init.get(i)
                self.heap = h2
                out[i] = h2[i] if x is None else self.merge_cell(c, i, x, h2[i])
        self.heap = save
        return out

    def merge_env(self, c, e1, e2):
        if e1 is e2:
            return e1
        out = {}
        for n in list(e1) + [n for n in e2 if n not in e1]:
            a, b = e1.get(n, UNDEF), e2.get(n, UNDEF)
            out[n] = self.merge_val(c, a, b)
        return out

    def branch(self, c, f, g):
        """Analyse f under c and g under not c and join; each returns (live, value)"""
        c = restrict_by(c, self.pc)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s = self.save()
        frame = self.frames[-1]
        self.fork()
        self.pc = b_and(s[1], c)
        l1, v1 = f()
        h1, e1, p1 = self.heap, frame.env, self.pc
        self.restore(s)
        self.fork()
        self.pc = b_and(s[1], b_not(c))
        l2, v2 = g()
        h2, e2, p2 = self.heap, frame.env, self.pc
        if l1 and not l2:
            self.heap, frame.env, self.pc = h1, e1, p1
            return True, v1
        if l2 and not l1:
            return True, v2
        if not l1 and not l2:
            return False, BOT
        self.heap = self.merge_heap(c, h1, h2)
        frame.env = self.merge_env(c, e1, e2)
        self.pc = b_or(p1, p2)
        return True, self.merge_val(c, v1, v2)

    def split(self, v, fn):
        """Apply an operation with effects to every possible referent of v"""
        v = self.restrict(v)
        if v.op != 'ite':
            return fn(v)
        hasref = any(x.op in ('ref', 'fn', 'cls', 'meth', 'func', 'bm', 'tuple', 'seq') or x is NONE
                     for x in self.leaves(v))
        if not hasref:
            return fn(v)
        ls = tm.leaves(v)
        if BOT in ls and len(ls) > 1:
            ls = [x for x in ls if x is not BOT]
            v = tm.leafmap(v, lambda x: ls[0] if x is BOT else x)
            if v.op != 'ite':
                return fn(v)
        first = ls[0]
        c = tm.leafmap(v, lambda x: TRUE if x is first else FALSE)
        rest = tm.leafmap(v, lambda x: ls[1] if x is first else x)
        return self.branch(c, lambda: (True, fn(first)), lambda: (True, self.split(rest, fn)))[1]

    def leaves(self, v):
        return tm.leaves(v)

    # ------------------------------------------------------------------ objects
    def obj_class(self, i):
        c = self.cell(i)
        return c.cls if isinstance(c, Obj) else None

    def is_open(self, cell):
        """May the object be an instance of a subclass?"""
        if cell.base is None:
            return False
        b = cell.base
        if b.op == 'obj':
            return False
        if b.typ is not None and b.typ.exact:
            return False
        return bool(cell.cls.subs)

    def read_field_raw(self, i, c, name):
        """Value of a field of an object cell that is not in its overlay"""
        if name == '$':
            return NONE
        base = c.base
        if c.fields:
            for nm, x in c.fields:
                if nm == '$' and not self.steady(c.cls, name):
                    base = x
        ty = ANY
        owner = self.repo.field(c.cls, name) if c.cls is not None else None
        if owner is not None:
            k, (ann, dflt) = owner
            ty = self.repo.type_of(k.module, ann, k)
        else:
            ty = ANY
            if c.cls is not None:
                ty = self.attr_types(c.cls).get(name)
                for k in self.repo.mro(c.cls) if ty is None else ():
                    ty = ty or self.made(k)[0].get(name)
                ty = ty or ANY
        t = fld(base, name)
        al = self.ctor_alias(c.cls, name) if c.base.op in ('sym', 'fld', 'index', 'vcall', 'mcall', 'post') else None
        if al is not None:
            v = self.ref(i)
            for n in al:
                v = self.getattr(v, n)
            k = c.cls._narrow.get(name)
            if k is not None and v.op == 'ref' and isinstance(self.cell(v.args[0]), Obj):
                o = self.cell(v.args[0])
                if o.base is not None and self.repo.subclass_of(k, o.cls) and k is not o.cls:
                    self.heap[v.args[0]] = Obj(k, o.base, o.fields)
            return v
        return self.materialise(('f', i, base.key, name), t, ty)

    def steady(self, cls, name):
        """Is the attribute only ever set when the object is made?"""
        f = self.repo.find(cls, name) if cls is not None else None
        if f is not None and f.kind == 'property':
            # a cached value is not computed again
            return 'cached_property' in ' '.join(f.decorators)
        who = self.attr_stores().get(name, ())
        return not any(k is None or self.repo.subclass_of(k, cls) or self.repo.subclass_of(cls, k) for k in who)

    def attr_stores(self):
        """attribute -> classes of the objects on which it is set outside a constructor (None: unknown)"""
        if not hasattr(self.repo, '_stores_by_class'):
            out = {}
            for f in self.repo.functions:
                if f.module.name.startswith('specs.'):
                    continue
                anns = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
                for x in ast.walk(f.node):
                    if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))):
                        continue
                    k = None
                    b = x.value
                    if isinstance(b, ast.Name) and b.id == 'self':
                        if f.name == '__init__':
                            continue
                        k = f.cls
                    elif isinstance(b, ast.Name) and anns.get(b.id) is not None:
                        t = self.repo.type_of(f.module, anns[b.id], f.cls)
                        k = t.cls if t.kind == 'cls' else None
                    elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'self' and \
                            f.cls is not None:
                        t = self.attr_types(f.cls).get(b.attr)
                        self.ctor_alias(f.cls, b.attr)
                        k = f.cls._narrow.get(b.attr) or (t.cls if t is not None and t.kind == 'cls' else None)
                    out.setdefault(x.attr, set()).add(k)
            self.repo._stores_by_class = out
        return self.repo._stores_by_class

    def never_read(self, name):
        """A private attribute which nothing reads"""
        if not name.startswith('_') or name.startswith('__'):
            return False
        if not hasattr(self.repo, '_attr_loads'):
            s = set()
            for m in self.repo.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Store):
                        s.add(x.attr)
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                        s.add(x.value)
            self.repo._attr_loads = s
        return name not in self.repo._attr_loads

    def attr_types(self, cls):
        """Types of instance attributes assigned in __init__ from annotated parameters"""
        if hasattr(cls, '_attr_types'):
            return cls._attr_types
        out = {}
        alias = {}
        for k in reversed(self.repo.mro(cls)):
            f = k.methods.get('__init__')
            if f is None:
                continue
            anns = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
            for st in walk_own(f.node):
                tgts, value = [], None
                if isinstance(st, ast.Assign):
                    tgts, value = st.targets, st.value
                elif isinstance(st, ast.AnnAssign) and st.value is not None:
                    tgts, value = [st.target], st.value
                for t in tgts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        v = value
                        # x.model_copy(...) and x.copy() keep the type
                        while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                                v.func.attr in ('model_copy', 'copy') or \
                                isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ('deepcopy',):
                            v = v.func.value if isinstance(v.func, ast.Attribute) and v.func.attr != 'deepcopy' \
                                else v.args[0]
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                                v.func.id in ('int', 'float', 'len') and \
                                self.repo.resolve_expr(k.module, v.func) is None:
                            out[t.attr] = INT if v.func.id != 'float' else FLOAT
                        elif isinstance(v, ast.Name) and anns.get(v.id) is not None:
                            out[t.attr] = self.repo.type_of(k.module, anns[v.id], k)
                        elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and \
                                anns.get(v.value.id) is not None:
                            bt = self.repo.type_of(k.module, anns[v.value.id], k)
                            if bt.kind == 'cls':
                                at = self.attr_types(bt.cls).get(v.attr)
                                fd = self.repo.field(bt.cls, v.attr)
                                if fd is not None:
                                    at = self.repo.type_of(fd[0].module, fd[1][0], fd[0])
                                if at is not None:
                                    out[t.attr] = at
        for a, vs in self._self_stores(cls).items():
            # only ever a list made here, or nothing
            lists = [v for v in vs if isinstance(v, (ast.List, ast.ListComp))]
            if a not in out and lists and all(v in lists or isinstance(v, ast.Constant) and v.value is None for v in vs):
                out[a] = Ty('seq', (ANY,), lst=True, opt=len(lists) < len(vs))
        cls._attr_types = out
        return out

    def made(self, cls):
        """Types of the attributes of a new instance, and those which are (members of) parameters of the constructor,
        from following the constructor"""
        if '_made' in cls.__dict__:
            return cls._made
        cls._made = types, paths = {}, {}
        init = self.repo.find(cls, '__init__')
        if init is None:
            return cls._made
        sub = Interp(self.repo)
        sub.aliases = {}
        sub.harness = True
        sub.frames.append(Frame(init.module, {}, None, None, None))
        a = init.node.args
        loc = tm.CUR_LOC[0]
        try:
            def make(x):
                return sub.param(x.arg, self.repo.type_of(init.module, x.annotation) if x.annotation is not None else ANY)
            r = sub.new(Obj(cls, None, ()))
            sub.invoke(init, [r] + [make(x) for x in (a.posonlyargs + a.args)[1:]],
                       {x.arg: make(x) for x in a.kwonlyargs}, None)
            fields = sub.cell(r.args[0]).fields
        except (Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError):
            return cls._made
        finally:
            tm.CUR_LOC[0] = loc
        for n, v in fields:
            kinds, opt = set(), False
            for x in tm.leaves(v):
                if x is NONE:
                    opt = True
                elif x.op == 'ref' and isinstance(sub.heap.get(x.args[0], sub.init.get(x.args[0])), Obj):
                    kinds.add(sub.cell(x.args[0]).cls)
                else:
                    kinds.add(None)
            if len(kinds) == 1 and None not in kinds:
                types[n] = Ty('cls', cls=kinds.pop(), opt=opt)
            elif not opt and kinds == {None} and tm.is_scalar(sub.val(v)):
                tys = [INT if x.op in ('len', 'dim') else x.typ for x in tm.leaves(sub.val(v))]
                types[n] = INT if all(y is not None and y.kind == 'int' for y in tys) else FLOAT if \
                    all(y is None or y.kind in ('int', 'float') for y in tys) else Ty('any', (INT, FLOAT, Ty('str')))
            if v.op == 'ref':
                path, i = [], v.args[0]
                while i[0] == 'f':
                    path.insert(0, i[3])
                    i = i[1]
                if i[0] == 'sym' and len(i) == 2:
                    paths[n] = (i[1], path)
        return cls._made

    def _self_stores(self, cls):
        """attribute -> the expressions stored in it by the class (None: something else)"""
        out = {}
        for k in self.repo.mro(cls):
            for m in list(k.methods.values()) + list(k.setters.values()):
                for st in ast.walk(m.node):
                    tg = st.targets if isinstance(st, ast.Assign) else [st.target] \
                        if isinstance(st, (ast.AugAssign, ast.AnnAssign, ast.For, ast.withitem)) and \
                        hasattr(st, 'target') else [st.optional_vars] if isinstance(st, ast.withitem) else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            out.setdefault(t.attr, []).append(
                                st.value if isinstance(st, (ast.Assign, ast.AnnAssign)) else None)
                        elif t is not None:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                        isinstance(x.value, ast.Name) and x.value.id == 'self':
                                    out.setdefault(x.attr, []).append(None)
        return out

    def ctor_alias(self, cls, name):
        """self.name is always the same object as self.other.path (both set once, in __init__, from one parameter)"""
        if cls is None:
            return None
        if not hasattr(cls, '_alias'):
            cls._narrow = {}
            cls._alias = self._find_aliases(cls)
        return cls._alias.get(name)

    def _find_aliases(self, cls):
        writes = {}
        for k in self.repo.mro(cls):
            for m in list(k.methods.values()) + list(k.setters.values()):
                for st in ast.walk(m.node):
                    tg = []
                    if isinstance(st, ast.Assign):
                        tg = st.targets
                    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                        tg = [st.target]
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' \
                                    and isinstance(x.ctx, ast.Store):
                                writes.setdefault(x.attr, []).append((m, st))
        out = {}
        k = cls
        f = self.repo.find(cls, '__init__')
        if f is None:
            return out
        params = set(f.params())
        local = {}
        plain = {}     # param -> self attribute holding it
        derived = {}   # attribute -> (param, path)
        for st in f.node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t, v = st.targets[0], st.value
                path = dotted(v)
                if path is not None:
                    head, *rest = path.split('.')
                    if head in local:
                        head, rest = local[head][0], local[head][1] + rest
                    if head in params and head != 'self':
                        if isinstance(t, ast.Name):
                            local[t.id] = (head, rest)
                        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' \
                                and len(writes.get(t.attr, [])) == 1:
                            derived[t.attr] = (head, rest)
        for a, d in self.made(cls)[1].items():
            if a not in derived and not any(m.name != '__init__' for m, _ in writes.get(a, [])):
                derived[a] = d
        checked = {}     # (parameter, path) -> class it is required to have
        for st in f.node.body:
            t = st.test if isinstance(st, ast.Assert) else None
            if isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Raise) and \
                    isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not):
                t = st.test.operand
            if isinstance(t, ast.Call) and dotted(t.func) == 'isinstance' and len(t.args) == 2 and dotted(t.args[0]):
                head, *rest = dotted(t.args[0]).split('.')
                if head in local:
                    head, rest = local[head][0], local[head][1] + rest
                r = self.repo.resolve_expr(f.module, t.args[1])
                if isinstance(r, ClassInfo) or isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], ClassInfo):
                    checked[head, tuple(rest)] = r if isinstance(r, ClassInfo) else r[1]
        for a, (p, path) in derived.items():
            if (p, tuple(path)) in checked:
                cls._narrow[a] = checked[p, tuple(path)]
            if path:
                # attributes read off the parameter must themselves never be reassigned anywhere
                if any(self._assigned_elsewhere(x) for x in path):
                    continue
                for b, (q, pb) in derived.items():
                    if q == p and not pb:
                        out[a] = [b] + path
                        break
        return out

    def _assigned_elsewhere(self, attr):
        """attr is stored outside an __init__ somewhere in the package"""
        if not hasattr(self.repo, '_attr_stores'):
            s = set()
            for f in self.repo.functions:
                if f.name == '__init__':
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        s.add(x.attr)
            self.repo._attr_stores = s
        return attr in self.repo._attr_stores

    def set_field(self, i, name, v):
        c = self.cell(i)
        if not isinstance(c, Obj):
            raise Unsupported('attribute store on non object')
        if self.never_read(name):
            return
        d = [(n, x) for n, x in c.fields if n != name]
        if c.base is not None:
            # restoring the original value is not a change
            pass
        d.append((name, v))
        self.heap[i] = Obj(c.cls, c.base, tuple(sorted(d, key=lambda kv: kv[0])))

    def getattr(self, v, name, node=None):
        return self.split(v, lambda x: self._getattr(x, name, node))

    def _getattr(self, v, name, node):
        if v is BOT:
            return BOT
        if v is NONE:
            return BOT
        o = v.op
        if o == 'ite':
            return self.libs.array_attr(self, v, name)
        if o == 'ref':
            i = v.args[0]
            c = self.cell(i)
            if isinstance(c, Obj):
                return self.obj_attr(v, i, c, name, node)
            if isinstance(c, (Lst, Dct)):
                return mk('bm', v, name)
            return self.libs.array_attr(self, v, name)
        if o == 'mod':
            m = self.repo.modules[v.args[0]]
            r = self.repo.lookup(m, name)
            return self.from_lookup(r, m, name)
        if o == 'ext':
            return self.libs.ext_value(self, v.args[0] + '.' + name)
        if o == 'cls':
            return self.class_attr(self.repo.classes[v.args[0]], name)
        if o == 'superv':
            return self.super_attr(v, name)
        if o in ('obj', 'with') or (v.typ is not None and v.typ.kind == 'cls'):
            l = self.lift(v)
            if l.op == 'ref':
                return self._getattr(l, name, node)
        if o in ('func', 'meth', 'fn', 'partial') and name in ('__name__', '__class__', '__doc__'):
            return mk('attr', v, name)
        return self.libs.array_attr(self, v, name)

    def class_attr(self, cls, name):
        if name == '__name__':
            return const(cls.name)
        f = self.repo.find(cls, name)
        if f is not None:
            if f.kind == 'class':
                return mk('meth', f.qual, mk('cls', cls.qual))
            return mk('func', f.qual)
        for k in self.repo.mro(cls):
            if name in k.attrs:
                return self.eval_in_module(k.module, k.attrs[name])
        if name in ('model_validate', 'model_construct', 'model_validate_json', 'parse_obj'):
            return mk('bm', mk('cls', cls.qual), name)
        if name == 'model_fields':
            return self.model_fields_value(cls, None)
        return mk('bm', mk('cls', cls.qual), name)

    def model_fields_value(self, cls, base):
        if base is not None:
            return mk('call', 'model_fields', (base,), ())
        fs = self.repo.model_fields(cls)
        return self.new(Dct(tuple((const(n), mk("fieldinfo", cls.qual, n)) for n in fs), None))

    def super_attr(self, v, name):
        cls, obj = self.repo.classes[v.args[0]], v.args[1]
        start = self.repo.classes.get(v.args[2], cls)
        f = self.repo.find(start, name, after=cls)
        if f is None:
            f = self.repo.find(cls, name, after=cls)
        if f is None:
            return mk('bm', mk('ext', 'object'), name)
        if f.kind == 'property':
            return self.invoke(f, [obj], {}, None)
        return mk('meth', f.qual, obj)

    def opaque_name(self, f):
        return f.cls is not None and (f.cls.name + '.' + f.name) in self.opaque

    def base_decl(self, f):
        """Topmost class of the hierarchy that declares the method"""
        if f.cls is None:
            return f
        best = f
        for k in self.repo.mro(f.cls):
            if f.name in k.methods:
                best = k.methods[f.name]
        return best

    def obj_attr(self, v, i, c, name, node):
        for n, x in c.fields:
            if n == name:
                return x
        cls = c.cls
        if name == '__class__':
            if self.is_open(c):
                return mk('attr', c.base, '__class__')
            return mk('cls', cls.qual)
        if name == '__dict__':
            return mk('attr', self.reify(v), '__dict__')
        f = self.repo.find(cls, name)
        if f is not None:
            if f.kind == 'property':
                return self.read_property(v, i, c, f, node)
            if f.kind == 'static':
                return mk('func', f.qual)
            if f.kind == 'class':
                return mk('meth', f.qual, mk('cls', cls.qual))
            return mk('meth', f.qual, v)
        fieldinfo = self.repo.field(cls, name)
        if c.base is None:
            for k in self.repo.mro(cls):
                if name in k.attrs:
                    return self.eval_in_module(k.module, k.attrs[name])
        if name == 'model_fields' or name == '__fields__':
            if self.is_open(c):
                return mk('call', 'model_fields', (mk('classof', c.base),), ())
            return self.model_fields_value(cls, None)
        if fieldinfo is None and self.libs.is_model_method(name) and self.repo.is_model(cls):
            return mk('bm', v, name)
        if c.base is not None:
            return self.read_field_raw(i, c, name)
        if self.repo.is_model(cls) and name.startswith('_'):
            return NONE
        self.unk('attribute %s of %s' % (name, cls.name), node)
        return mk('attr', self.reify(v), name)

    def read_property(self, v, i, c, f, node):
        key = f.name
        is_cached = any(d.split('.')[-1] == 'cached_property' for d in f.decorators)
        open_over = self.is_open(c) and self.repo.overridden(c.cls, f.name)
        decl = self.base_decl(f)
        if self.opaque_name(f) or self.opaque_name(decl):
            return self.libs.vprop(self, decl, v, self.prop_type(f))
        if f.is_abstract or (open_over and not is_cached) or (open_over and is_cached):
            t = fld(self.reify(v), f.name)
            return self.materialise(('f', i, self.reify(v).key, f.name), t, self.prop_type(f))
        r = self.invoke(f, [v], {}, node)
        if is_cached:
            r = self.box(r)
            self.set_field(i, key, r)
        return r

    def prop_type(self, f):
        return self.repo.type_of(f.module, f.node.returns, f.cls)

    # ------------------------------------------------------------------ binding
    ARRAYS = {'poly', 'mm', 'T', 'inv', 'where', 'arr', 'hcat', 'vcat', 'diagm', 'full', 'eye', 'blockdiag', 'chol', 'store'}

    def arraylike(self, v):
        return v.op in self.ARRAYS and not (tm.is_scalar(v) and not self.scalar_mode) and \
            (v.typ is None or v.typ.kind not in ('int', 'float', 'str', 'bool', 'cls', 'dict', 'seq', 'tuple'))

    def box(self, v):
        """Give a freshly computed array an identity so that later in-place changes are seen by all its names"""
        o = v.op
        if o == 'ite' and all(self.arraylike(x) for x in self.leaves(v)):
            return self.new(Val(v))
        if o in ('ref', 'c', 'tuple', 'fn', 'func', 'meth', 'cls', 'mod', 'ext', 'bm', 'ite', 'partial', 'nan', 'inf',
                 'superv', 'len', 'bot', 'undef', 'absent', 'bound', 'lam', 'iter', 'range', 'slice', 'fmt', 'exc',
                 'star'):
            return v
        if v.typ is not None and v.typ.kind in ('int', 'float', 'str', 'bool', 'type', 'func', 'seq', 'tuple'):
            return v
        if self.libs.is_handle(v):
            return v
        if tm.is_scalar(v) and not self.scalar_mode:
            return v
        if o in ('obj', 'with') or (v.typ is not None and v.typ.kind in ('cls', 'dict')):
            return self.lift(v)
        if o == 'dict':
            return self.new(Dct(tuple((k, x) for k, x in v.args[0]), None))
        if o == 'seq':
            return v
        if o == 'loop' or o == 'dim':
            return v
        return self.new(Val(v))

    def assign(self, target, v, node=None):
        frame = self.frames[-1]
        if isinstance(target, ast.Name):
            frame.env[target.id] = self.box(v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            stars = [k for k, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if stars:
                k = stars[0]
                after = n - k - 1
                for j in range(k):
                    self.assign(target.elts[j], self.subscript(v, const(j)))
                rest = self.libs.slice_of(self, v, const(k), const(-after) if after else NONE)
                self.assign(target.elts[k].value, rest)
                for j in range(after):
                    self.assign(target.elts[k + 1 + j], self.subscript(v, const(j - after)))
            else:
                parts = self.unpack(v, n)
                for e, x in zip(target.elts, parts):
                    self.assign(e, x)
        elif isinstance(target, ast.Attribute):
            base = self.eval(target.value)
            self.store_attr(base, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            base = self.eval(target.value)
            ix = self.eval_index(target.slice)
            self.store_item(base, ix, v, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)
        else:
            self.unk('assignment target', target)

    def unpack(self, v, n):
        v = self.restrict(v)
        if v.op == 'tuple' and len(v.args) == n:
            return list(v.args)
        return [self.subscript(v, const(k)) for k in range(n)]

    def store_attr(self, base, name, v, node=None):
        v = self.box(v)

        def one(x):
            if x is NONE or x is BOT:
                return BOT
            if x.op == 'ref':
                i = x.args[0]
                c = self.cell(i)
                if isinstance(c, Obj):
                    s = self.repo.find(c.cls, name, 'setters')
                    if s is not None:
                        self.invoke(s, [x, v], {}, node)
                        return NONE
                    fi = self.repo.field(c.cls, name)
                    w = v
                    if self.validators and fi is not None:
                        w = v
                    self.set_field(i, name, w)
                    return NONE
                if isinstance(c, (Val, View)):
                    self.heap[i] = Val(mk('setattr', self.read_ref(i), name, self.val(v)))
                    return NONE
            if x.op in ('obj', 'with') or (x.typ is not None and x.typ.kind == 'cls'):
                l = self.lift(x)
                if l.op == 'ref':
                    return one(l)
            self.effect(mk('setattr', self.val(x), name, self.val(v)))
            return NONE
        self.split(base, one)

    def effect(self, t):
        c = self.heap[self.effect_id]
        self.heap[self.effect_id] = Lst(self.libs.log_event(c.v, t))

    def store_item(self, base, ix, v, node=None):
        def one(x):
            if x is NONE or x is BOT:
                return BOT
            if x.op == 'ref':
                i = x.args[0]
                c = self.cell(i)
                if isinstance(c, Dct):
                    k = self.val(ix)
                    es = [(a, b) for a, b in c.entries if a is not k]
                    if len(es) != len(c.entries):
                        es = [(a, (self.box(v) if a is k else b)) for a, b in c.entries]
                    else:
                        es.append((k, self.box(v)))
                    self.heap[i] = Dct(tuple(es), c.base)
                    return NONE
                if isinstance(c, Lst):
                    k = self.val(ix)
                    s = c.v
                    if s.op == 'seq' and is_num(k) and all(z.op == 'item' for z in s.args) and \
                            -len(s.args) <= int(k.args[0]) < len(s.args):
                        l = list(s.args)
                        l[int(k.args[0])] = item(self.box(v))
                        self.heap[i] = Lst(mk('seq', *l))
                    else:
                        self.heap[i] = Lst(tm.store(self.reify(s), k, self.val(v)))
                    return NONE
                if isinstance(c, Obj):
                    f = self.repo.find(c.cls, '__setitem__')
                    if f is not None:
                        self.invoke(f, [x, ix, v], {}, node)
                        return NONE
                    self.effect(mk('setitem', self.reify(x), self.val(ix), self.val(v)))
                    return NONE
                k = self.libs.norm_index(self, self.val(ix))
                t = self.read_ref(i)
                if any(self.libs.is_handle(z) for z in self.leaves(t)):
                    self.effect(mk('setitem', t, k, self.val(v)))
                    return NONE
                self.store_array(i, k, self.val(v))
                return NONE
            self.effect(mk('setitem', self.val(x), self.libs.norm_index(self, self.val(ix)), self.val(v)))
            return NONE
        self.split(base, one)

    def store_array(self, i, ix, v):
        c = self.cell(i)
        if isinstance(c, View):
            inner = self.libs.store_val(self, self.libs.index_val(self, self.read_ref(c.parent), c.ix), ix, v)
            self.store_array(c.parent, c.ix, inner)
            return
        if i in self.narrow:
            v = self.libs.cast(v, self.narrow[i])
        self.heap[i] = Val(self.libs.store_val(self, self.read_ref(i), ix, v))

    # ------------------------------------------------------------------ names
    def lookup_name(self, name, node=None):
        f = self.frames[-1]
        k = f
        while k is not None:
            if name in k.env:
                v = k.env[name]
                if v.op == 'ite':
                    v = self.restrict(v)
                return v
            k = k.parent
        return self.module_name(f.module, name, node)

    def module_name(self, module, name, node=None):
        r = self.repo.lookup(module, name)
        if r is not None:
            return self.from_lookup(r, module, name)
        if name in self.libs.BUILTINS:
            return mk('ext', 'builtins.' + name)
        self.unk('name %s' % name, node)
        return mk('name', name)

    def from_lookup(self, r, module, name):
        if module.name.startswith('specs.') and (r is None or (r[0] == 'ext' and r[1].startswith('moirae'))):
            raise AnchorMissing('%s, used by %s, is no longer defined' % (r[1] if r else name, module.name))
        if r is None:
            return mk('ext', '%s.%s' % (module.name, name))
        if r[0] == 'func':
            return mk('func', r[1].qual)
        if r[0] == 'class':
            return mk('cls', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return self.libs.ext_value(self, r[1])
        if r[0] == 'expr':
            return self.eval_in_module(r[2], r[1])
        return mk('name', name)

    def eval_in_module(self, module, node):
        key = ('modexpr', id(node))
        if key in self.fn_ids:
            return self.fn_ids[key]
        self.frames.append(Frame(module, {}))
        pc, self.pc = self.pc, TRUE
        try:
            v = self.eval(node)
        finally:
            self.frames.pop()
            self.pc = pc
        # module and class level values are shared objects with a fixed identity
        if v.op == 'ref' and v.args[0][0] == 'new':
            c = self.heap.pop(v.args[0])
            i = ('global', module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
            self.init[i] = c
            v = self.ref(i)
        self.fn_ids[key] = v
        return v

    def func_by_qual(self, q):
        if not hasattr(self.repo, '_by_qual'):
            self.repo._by_qual = {f.qual: f for f in self.repo.functions}
        return self.repo._by_qual[q]

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        self.sites += 1
        return self.split(f, lambda g: self._call(g, args, kwargs, node))

    def _call(self, f, args, kwargs, node):
        o = f.op
        if f is BOT or f is NONE:
            return BOT
        if o == 'func':
            if f.args[0].startswith('specs.api.'):
                return self.marker(f.args[0][10:], args, node)
            return self.invoke(self.func_by_qual(f.args[0]), args, kwargs, node)
        if o == 'meth':
            fi = self.func_by_qual(f.args[0])
            return self.call_method(fi, f.args[1], args, kwargs, node)
        if o == 'cls':
            return self.instantiate(self.repo.classes[f.args[0]], args, kwargs, node)
        if o == 'fn':
            fn = self.fns[f.args[0]]
            return self.call_closure(fn, args, kwargs, node)
        if o == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.call(f.args[0], list(f.args[1]) + list(args), kw, node)
        if o == 'ext':
            return self.libs.call_ext(self, f.args[0], args, kwargs, node)
        if o == 'bm':
            return self.libs.call_method(self, f.args[0], f.args[1], args, kwargs, node)
        if o == 'ref':
            i = f.args[0]
            c = self.cell(i)
            if isinstance(c, Obj):
                g = self.repo.find(c.cls, '__call__')
                if g is not None:
                    return self.call_method(g, f, args, kwargs, node)
            return self.lift(mk('apply', self.val(f), tuple(self.val(a) for a in args),
                                tuple(sorted((k, self.val(v)) for k, v in kwargs.items()))))
        if o in ('obj', 'with') or (f.typ is not None and f.typ.kind == 'cls'):
            l = self.lift(f)
            if l.op == 'ref':
                return self._call(l, args, kwargs, node)
        return mk('apply', self.val(f), tuple(self.val(a) for a in args),
                  tuple(sorted((k, self.val(v)) for k, v in kwargs.items())))

    def marker(self, name, args, node):
        """Statements of a contract harness about its own context"""
        if name == 'given':
            self.pc = b_and(self.pc, self.truth(args[0]))
            return NONE
        if name == 'same':
            self.aliases[self.val(args[0])] = self.val(args[1])
            return NONE
        raise Unsupported('unknown harness marker ' + name)

    def call_method(self, fi, recv, args, kwargs, node):
        """Method fi found on the static class of recv: virtual when it may be overridden"""
        decl = self.base_decl(fi)
        if recv.op == 'ref':
            c = self.cell(recv.args[0])
            if isinstance(c, Obj):
                opaque = self.opaque_name(fi) or self.opaque_name(decl)
                virtual = fi.is_abstract or (self.is_open(c) and fi.name != '__init__' and
                                             any(s is not None for s in self.repo.overridden(c.cls, fi.name)))
                if fi.is_abstract and not self.is_open(c) and c.base is not None:
                    virtual = True
                if opaque or virtual:
                    return self.libs.vcall(self, decl, fi, recv, args, kwargs, node)
        return self.invoke(fi, [recv] + list(args), kwargs, node)

    def bind_params(self, node_args, args, kwargs, module, fname, defaults_frame=None, skip_missing=False):
        a = node_args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env = {}
        args = list(args)
        extra = []
        for k, v in enumerate(args):
            if v.op == 'star':
                return None
            if k < len(names):
                env[names[k]] = v
            else:
                extra.append(v)
        if a.vararg is not None:
            env[a.vararg.arg] = mk('tuple', *extra)
        rest = {}
        symkw = []
        for n, v in kwargs.items():
            if n == '**':
                symkw.extend(v)
            elif n in names + kwonly:
                env[n] = v
            else:
                rest[n] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        for n in names + kwonly:
            if n in env:
                continue
            dv = None
            if n in defaults:
                dv = self.eval_default(module, defaults[n], defaults_frame)
            got = None
            for d in symkw:
                got = self.libs.dict_lookup(self, d, const(n), dv if dv is not None else UNDEF)
                dv = got
            if dv is not None:
                env[n] = dv
        if a.kwarg is not None:
            # keywords that were not consumed by named parameters
            base = None
            if symkw:
                v = self.val(symkw[0])
                consumed = sorted(n for n in names + kwonly if n in env and n != 'self')
                base = v if v.op in ('sym', 'fld', 'loop', 'index') else mk('kwrest', v, tuple(consumed))
            env[a.kwarg.arg] = self.new(Dct(tuple((const(n), v) for n, v in rest.items()), base))
        return env

    def eval_default(self, module, node, frame=None):
        if isinstance(node, ast.Constant):
            return self.eval_const(node)
        if frame is not None:
            self.frames.append(frame)
            try:
                return self.eval(node)
            finally:
                self.frames.pop()
        return self.eval_in_module(module, node)

    def invoke(self, fi, args, kwargs, node):
        """Inline a function of the package"""
        self.steps += 1
        recv = self.receiver_class(fi, args)
        active = [f for f in self.frames if f.func is fi and f.parent is None]
        if active and (recv is None or len(active) > 4 or any(f.recv is None or f.recv is recv for f in active)) or \
                len(self.frames) > 60:
            # recursion is followed only into a part of another class, which ends
            return self.libs.rcall(self, fi, args, kwargs, node)
        if fi.cls is not None and args and args[0].op == 'ref' and fi.kind not in ('static', 'class') and \
                self.opaque_name(fi) and fi.kind != 'property':
            return self.libs.vcall(self, self.base_decl(fi), fi, args[0], args[1:], kwargs, node)
        env = self.bind_params(fi.node.args, args, kwargs, fi.module, fi.name)
        if env is None:
            return self.libs.rcall(self, fi, args, kwargs, node)
        self.analysed[fi.qual] = self.analysed.get(fi.qual, 0) + 1
        fr = Frame(fi.module, env, None, fi, fi.cls)
        fr.recv = recv
        return self.run_body(fi, fi.node.body, fr, fi.is_generator)

    def receiver_class(self, fi, args):
        if fi.cls is None or fi.kind in ('static', 'class') or not args or args[0].op != 'ref':
            return None
        c = self.cell(args[0].args[0])
        return c.cls if isinstance(c, Obj) else None

    def call_closure(self, fn, args, kwargs, node):
        info = fn.info
        if isinstance(info, ast.Lambda):
            env = self.bind_params(info.args, args, kwargs, fn.frame.module, '<lambda>', fn.frame)
            if env is None:
                return self.unk('starred call of a lambda', node)
            fr = Frame(fn.frame.module, env, fn.frame, fn.frame.func, fn.frame.cls)
            self.frames.append(fr)
            try:
                return self.eval(info.body)
            finally:
                self.frames.pop()
        env = self.bind_params(info.node.args, args, kwargs, fn.frame.module, info.name, fn.frame)
        if env is None:
            return self.unk('starred call of a nested function', node)
        if sum(1 for f in self.frames if f.func is info) >= 1:
            return self.libs.rcall(self, info, args, kwargs, node)
        fr = Frame(fn.frame.module, env, fn.frame, info, fn.frame.cls)
        return self.run_body(info, info.node.body, fr, info.is_generator)

    def run_body(self, fi, body, fr, is_gen):
        self.frames.append(fr)
        pc0 = self.pc
        loc0 = tm.CUR_LOC[0]
        if is_gen:
            fr.yields = self.new(Lst(seq()))
        try:
            live = self.block(body)
        finally:
            self.frames.pop()
        raises = [e for e in fr.exits if e.kind == 'raise']
        rets = [e for e in fr.exits if e.kind == 'return']
        if live:
            rets.append(Exit('return', self.pc, NONE, self.heap, None, None))
        # exceptions propagate to the caller
        if raises:
            if self.frames:
                self.frames[-1].exits.extend(raises)
        if not rets:
            self.pc = FALSE
            tm.CUR_LOC[0] = loc0
            return BOT
        # join all normal exits
        v, heap, g = rets[-1].value, rets[-1].heap, rets[-1].guard
        for e in reversed(rets[:-1]):
            c = restrict_by(e.guard, pc0)
            heap = self.merge_heap(c, e.heap, heap)
            v = self.merge_val(c, e.value, v)
            g = b_or(e.guard, g)
        self.heap = heap
        self.pc = g
        tm.CUR_LOC[0] = loc0
        if is_gen:
            return self.ref(fr.yields.args[0])
        return v

    # ------------------------------------------------------------------ instances
    def instantiate(self, cls, args, kwargs, node):
        if self.repo.is_typeddict(cls):
            return self.new(Dct(tuple((const(k), v) for k, v in kwargs.items() if k != '**'), None))
        init = self.repo.find(cls, '__init__')
        if init is not None:
            r = self.new(Obj(cls, None, ()))
            self.invoke(init, [r] + list(args), kwargs, node)
            if self.pc is FALSE:
                return BOT
            return r
        if self.repo.is_model(cls):
            return self.build_model(cls, kwargs, node)
        if any('Exception' in str(b) or 'Error' in str(b) for k in self.repo.mro(cls) for b in k.ext_bases):
            return mk('exc', cls.name)
        return self.new(Obj(cls, None, ()))

    def build_model(self, cls, kwargs, node):
        out = []
        symkw = kwargs.get('**', [])
        validated = set(n for n in kwargs)
        for n, (ann, dflt, owner) in self.repo.model_fields(cls).items():
            ty = self.repo.type_of(owner.module, ann, owner)
            given = True
            if n in kwargs:
                v = kwargs[n]
            elif symkw:
                dv = self.field_default(owner, dflt)
                v = self.libs.dict_lookup(self, symkw[0], const(n), dv)
            else:
                v = self.field_default(owner, dflt)
                given = False
            if self.validators and given:
                for f in annotated_with(ann, 'BeforeValidator'):
                    v = self.call(self.eval_in_module(owner.module, f), [v], {}, None)
            v = self.store_model_field(v, ty, ann)
            out.append((n, v))
        r = self.new(Obj(cls, None, tuple(sorted(out, key=lambda kv: kv[0]))))
        if self.validators:
            self.run_validators(cls, r, validated, bool(symkw))
        return r

    def field_default(self, owner, dflt):
        if dflt is None:
            return mk('required')
        if isinstance(dflt, ast.Call) and (dotted(dflt.func) or '').split('.')[-1] in ('Field', 'PrivateAttr'):
            for k in dflt.keywords:
                if k.arg == 'default':
                    return self.eval_in_module(owner.module, k.value)
                if k.arg == 'default_factory':
                    f = self.eval_in_module(owner.module, k.value)
                    return self.call(f, [], {}, None)
            if dflt.args:
                return self.eval_in_module(owner.module, dflt.args[0])
            return mk('required')
        return self.eval_in_module(owner.module, dflt)

    def store_model_field(self, v, ty, ann):
        """What pydantic keeps: arrays with a dimension validator are copied, instances are kept as they are"""
        if ty.kind == 'arr' and ty.args and ty.args[0] in ('scalar', 'list'):
            def copy(x):
                if x is NONE or x is BOT:
                    return x
                w = self.val(x)
                if w.op == 'seq':
                    w = tm.arr(w)
                elif w.op == 'tuple':
                    w = tm.arr(seq(*[item(z) for z in w.args]))
                return self.new(Val(w))
            return self.split(v, copy)
        if ty.kind == 'seq' and v.op == 'ref':
            c = self.cell(v.args[0])
            if isinstance(c, Lst):
                return self.new(Lst(c.v)) if ty.list else c.v
        return self.box(v)

    def run_validators(self, cls, r, names, sym):
        for k in reversed(self.repo.mro(cls)):
            for m in k.methods.values():
                decs = [d for d in m.node.decorator_list if isinstance(d, ast.Call)]
                for d in decs:
                    nm = (dotted(d.func) or '').split('.')[-1]
                    if nm == 'field_validator':
                        mode = next((w.value.value for w in d.keywords if w.arg == 'mode'), 'after')
                        for a in d.args:
                            if isinstance(a, ast.Constant) and (a.value in names or sym):
                                cur = self.getattr(r, a.value)
                                if mode in ('after', 'before'):
                                    nv = self.invoke(m, [mk('cls', cls.qual), cur], {}, None)
                                    if nv is not BOT:
                                        self.set_field(r.args[0], a.value, self.box(nv))
        for k in reversed(self.repo.mro(cls)):
            for m in k.methods.values():
                for d in m.node.decorator_list:
                    if isinstance(d, ast.Call) and (dotted(d.func) or '').split('.')[-1] == 'model_validator':
                        mode = next((w.value.value for w in d.keywords if w.arg == 'mode'), None)
                        if mode == 'after':
                            self.invoke(m, [r], {}, None)

    def kinds(self, c):
        """The class, or its subclasses when it has no fields of its own"""
        if self.repo.model_fields(c):
            return [c]
        return [k for k in self.repo.classes.values() if self.repo.subclass_of(k, c) and k.module.name.split('.')[0] != 'specs']

    def copy_ref(self, v, deep):
        def one(x):
            if x.op != 'ref':
                return x
            c = self.cell(x.args[0])
            if isinstance(c, Obj):
                if deep:
                    s = self.reify(x)
                    base_exact = s
                    if s.typ is None and s.op not in ('obj', 'with'):
                        s.typ = Ty('cls', cls=c.cls)
                    return self.new(Obj(c.cls, base_exact, ()))
                if c.base is None:
                    return self.new(Obj(c.cls, None, c.fields))
                fs = dict(c.fields)
                for n in {n: 1 for k in self.kinds(c.cls) for n in self.repo.model_fields(k)}:
                    if n not in fs:
                        fs[n] = self.read_field_raw(x.args[0], c, n)
                # the members are shared: changes made through the copy show in the original
                self.heap[x.args[0]] = Obj(c.cls, c.base, tuple(sorted(fs.items())))
                return self.new(Obj(c.cls, c.base, tuple(sorted(fs.items()))))
            if isinstance(c, (Val, View)):
                return self.new(Val(self.read_ref(x.args[0])))
            if isinstance(c, Lst):
                return self.new(Lst(self.reify(c.v) if deep else c.v))
            if isinstance(c, Dct):
                if deep:
                    return self.new(Dct(tuple((k, self.reify(y)) for k, y in c.entries), c.base))
                return self.new(c)
            return x
        return self.split(v, one)

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if not self.stmt(s):
                return False
            if self.pc is FALSE:
                return False
        return True

    def exit(self, kind, value, node):
        f = self.frames[-1]
        f.exits.append(Exit(kind, self.pc, value, self.heap, f.env, loc_of(f, node)))

    def stmt(self, s):
        f = self.frames[-1]
        tm.CUR_LOC[0] = loc_of(f, s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unk('statement %s' % type(s).__name__, s)
            return True
        r = m(s)
        return r is not False

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return True
        self.eval(s.value)
        return self.pc is not FALSE

    def s_Pass(self, s):
        return True

    s_Import = s_ImportFrom = None

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            t = a.name if a.asname else a.name.split('.')[0]
            self.frames[-1].env[n] = mk('mod', t) if t in self.repo.modules else mk('ext', t)
        return True

    def s_ImportFrom(self, s):
        m = self.frames[-1].module
        mod = s.module or ''
        if s.level:
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            if mod in self.repo.modules:
                r = self.repo.lookup(self.repo.modules[mod], a.name)
                v = self.from_lookup(r, self.repo.modules[mod], a.name)
            else:
                v = self.libs.ext_value(self, mod + '.' + a.name)
            self.frames[-1].env[a.asname or a.name] = v
        return True

    def s_Global(self, s):
        self.unk('global', s)

    def s_Nonlocal(self, s):
        self.unk('nonlocal', s)

    def s_Assign(self, s):
        v = self.eval(s.value)
        if self.pc is FALSE:
            return False
        if len(s.targets) > 1:
            v = self.box(v)
        for t in s.targets:
            self.assign(t, v, s)
        return True

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.pc is FALSE:
                return False
            self.assign(s.target, v, s)
        return True

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.lookup_name(s.target.id, s)
        elif isinstance(s.target, ast.Attribute):
            base = self.eval(s.target.value)
            cur = self.getattr(base, s.target.attr, s)
        else:
            base = self.eval(s.target.value)
            ix = self.eval_index(s.target.slice)
            if base.op == 'ref' and base.args[0] in self.shallow:
                rhs = self.unk('a column of a shallow copy changed in place', s)
                self.store_item(base, ix, rhs, s)
                return True
            cur = self.subscript(base, ix)
        rhs = self.eval(s.value)
        if self.pc is FALSE:
            return False

        def inplace(x):
            if x.op == 'ref':
                i = x.args[0]
                c = self.cell(i)
                if isinstance(c, Val) or isinstance(c, View):
                    r = self.libs.binop(self, s.op, x, rhs)
                    if isinstance(c, View):
                        self.store_array(i, mk('slice', NONE, NONE, NONE), r)
                    else:
                        self.heap[i] = Val(r)
                    return x
                if isinstance(c, Lst) and isinstance(s.op, ast.Add):
                    self.heap[i] = Lst(tm.seq_concat(c.v, self.libs.as_seq(self, rhs)))
                    return x
            return self.libs.binop(self, s.op, x, rhs)
        r = self.split(cur, inplace)
        if isinstance(s.target, ast.Name):
            self.frames[-1].env[s.target.id] = self.box(r)
        elif isinstance(s.target, ast.Attribute):
            if r is not cur:
                self.store_attr(base, s.target.attr, r, s)
        else:
            if r is not cur or r.op != 'ref':
                self.store_item(base, ix, r, s)
        return True

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                ix = self.eval_index(t.slice)
                self.libs.call_method(self, base, 'pop', [ix], {}, s)
            else:
                self.unk('del', s)
        return True

    def s_Return(self, s):
        v = NONE if s.value is None else self.eval(s.value)
        if self.pc is FALSE:
            return False
        self.exit('return', v, s)
        return False

    def s_Raise(self, s):
        name = 'Exception'
        if s.exc is None:
            name = cval(self.handling) if self.handling is not None and self.handling.op == 'c' else 'reraise'
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            d = dotted(e)
            if d is not None:
                name = d.split('.')[-1]
        self.exit('raise', const(name), s)
        return False

    def s_Assert(self, s):
        c = restrict_by(b_not(self.truth(self.eval(s.test))), self.pc)
        if c is TRUE and not self.scalar_mode:
            return self.raise_if(c, 'AssertionError', s)
        # a sanity check is recorded, but what follows is analysed without relying on it
        if c is not FALSE and not self.scalar_mode:
            self.asserts.append((b_and(self.pc, c), loc_of(self.frames[-1], s)))
        return True

    def raise_if(self, c, name, node):
        """Leave with an exception when c holds; continues otherwise"""
        c = restrict_by(c, self.pc)
        if c is FALSE:
            return True
        pc = self.pc
        self.pc = b_and(pc, c)
        f = self.frames[-1]
        f.exits.append(Exit('raise', self.pc, const(name), self.heap, f.env, loc_of(f, node) if node is not None else
                            tm.CUR_LOC[0]))
        self.heap = dict(self.heap)
        f.env = dict(f.env)
        self.pc = b_and(pc, b_not(c))
        return self.pc is not FALSE

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        if self.pc is FALSE:
            return False
        live, _ = self.branch(c, lambda: (self.block(s.body), NONE), lambda: (self.block(s.orelse), NONE))
        return live

    def s_FunctionDef(self, s):
        info = FuncInfo(s, self.frames[-1].module)
        info.nested = True
        self.frames[-1].env[s.name] = self.new_fn(info)
        return True

    def new_fn(self, info):
        self.fns.append(Fn(info, self.frames[-1], None))
        return mk('fn', len(self.fns) - 1)

    def s_ClassDef(self, s):
        self.unk('nested class', s)
        return True

    def s_With(self, s):
        f = self.frames[-1]
        managers = []
        for it in s.items:
            m = self.eval(it.context_expr)
            if self.pc is FALSE:
                return False
            m = self.box(m)
            v = self.enter(m, s)
            managers.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        mark = len(f.exits)
        live = self.block(s.body)
        new = f.exits[mark:]
        del f.exits[mark:]
        # the exit method runs on every way out
        keep = (self.heap, self.pc, f.env)
        for e in new:
            self.heap, self.pc, f.env = dict(e.heap), e.guard, dict(e.env) if e.env is not None else f.env
            for m in reversed(managers):
                self.leave(m, s, e.kind == 'raise')
            e.heap, e.env = self.heap, f.env
            f.exits.append(e)
        self.heap, self.pc, f.env = keep
        if live:
            for m in reversed(managers):
                self.leave(m, s, False)
        return live

    def enter(self, m, node):
        def one(x):
            if x.op == 'ref':
                c = self.cell(x.args[0])
                if isinstance(c, Obj):
                    g = self.repo.find(c.cls, '__enter__')
                    if g is not None:
                        return self.call_method(g, x, [], {}, node)
            return x
        return self.split(m, one)

    def leave(self, m, node, raising):
        def one(x):
            if x.op == 'ref':
                c = self.cell(x.args[0])
                if isinstance(c, Obj):
                    g = self.repo.find(c.cls, '__exit__')
                    if g is not None:
                        e = mk('exc', 'any') if raising else NONE
                        self.call_method(g, x, [e, e, e], {}, node)
                        return NONE
            t = self.val(x)
            if t.op == 'call' and t.args[0] == 'contextlib.nullcontext' or t is NONE:
                return NONE
            self.effect(mk('exit', t))
            return NONE
        self.split(m, one)

    def s_Try(self, s):
        f = self.frames[-1]
        mark = len(f.exits)
        catches = 1 if s.handlers else 0
        self.try_depth += catches
        try:
            live = self.block(s.body)
        finally:
            self.try_depth -= catches
        new = f.exits[mark:]
        del f.exits[mark:]
        caught = []
        for e in new:
            if e.kind == 'raise' and s.handlers:
                h = self.match_handler(s.handlers, cval(e.value) if e.value.op == 'c' else 'Exception')
                if h is not None:
                    caught.append((h, e))
                    continue
            f.exits.append(e)
        if live and s.orelse:
            live = self.block(s.orelse)
        results = []
        if live:
            results.append((self.pc, self.heap, f.env))
        for h, e in caught:
            self.heap, self.pc, f.env = dict(e.heap), e.guard, dict(e.env if e.env is not None and
                                                                    f.func is f.func else f.env)
            if h.name:
                f.env[h.name] = mk('exc', cval(e.value))
            before, self.handling = self.handling, e.value
            if self.block(h.body):
                results.append((self.pc, self.heap, f.env))
            self.handling = before
        if s.finalbody:
            # the clean-up runs on every way out
            exits = f.exits[mark:]
            del f.exits[mark:]
            for e in exits:
                self.heap, self.pc, f.env = dict(e.heap), e.guard, dict(e.env) if e.env is not None else dict(f.env)
                if self.block(s.finalbody):
                    e.heap, e.env = self.heap, f.env
                    f.exits.append(e)
            out = []
            for pc, heap, env in results:
                self.heap, self.pc, f.env = heap, pc, env
                if self.block(s.finalbody):
                    out.append((self.pc, self.heap, f.env))
            results = out
        if not results:
            self.pc = FALSE
            return False
        pc, heap, env = results[-1]
        for p, h, e in reversed(results[:-1]):
            heap = self.merge_heap(p, h, heap)
            env = self.merge_env(p, e, env)
            pc = b_or(p, pc)
        self.heap, self.pc, f.env = heap, pc, env
        return True

    def match_handler(self, handlers, name):
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                d = (dotted(t) or '').split('.')[-1]
                if d == name or d in ('Exception', 'BaseException') or \
                        d in {'KeyError': ('LookupError',), 'IndexError': ('LookupError',)}.get(name, ()):
                    return h
        return None

    def s_While(self, s):
        # A loop without a domain: only its effects on variables matter, as an opaque iteration
        names = sorted({n.id for x in ast.walk(s) for n in [x] if isinstance(n, ast.Name) and
                        isinstance(n.ctx, ast.Store)})
        t = self.unk('while loop', s)
        for n in names:
            self.frames[-1].env[n] = mk('unknown', 'while', self.counter, n)
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                    and x.func.attr in ('append', 'extend', 'insert', 'pop'):
                v = self.frames[-1].env.get(x.func.value.id)
                if v is not None and v.op == 'ref':
                    self.heap[v.args[0]] = Lst(seq(splice(t)))
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                v = self.frames[-1].env.get(x.value.id)
                if v is not None and v.op == 'ref' and isinstance(self.cell(v.args[0]), Val):
                    self.heap[v.args[0]] = Val(t)
        return True

    def s_For(self, s):
        it = self.eval(s.iter)
        if self.pc is FALSE:
            return False

        def body(v):
            self.assign(s.target, v, s)
            return self.block(s.body)
        live = self.loop(it, body, s)
        if s.orelse and live:
            return self.block(s.orelse)
        return live

    def s_Continue(self, s):
        self.exit('continue', NONE, s)
        return False

    def s_Break(self, s):
        self.exit('break', NONE, s)
        return False

    # ------------------------------------------------------------------ loops
    def loop(self, it, body, node):
        segs = self.libs.iter_segments(self, it, node)
        return self.run_segments(segs, body, node)

    def run_segments(self, segs, body, node):
        """Run body over a domain: list of ('item', v) or ('rep', n, fn(k) -> segments)"""
        f = self.frames[-1]
        breaks = []
        for sg in segs:
            if sg[0] == 'item':
                mark = len(f.exits)
                live = body(sg[1])
                conts = [e for e in f.exits[mark:] if e.kind == 'continue']
                brk = [e for e in f.exits[mark:] if e.kind == 'break']
                f.exits[mark:] = [e for e in f.exits[mark:] if e.kind not in ('continue', 'break')]
                breaks.extend(brk)
                live = self.join_exits(live, conts)
                if not live:
                    break
            elif sg[0] == 'cond':
                # members present only under a condition
                _, c, s1, s2 = sg

                def side(x):
                    return lambda: (self.run_segments(x, body, node), NONE)
                live, _ = self.branch(c, side(s1), side(s2))
                if not live:
                    break
            else:
                live = self.sym_loop(sg[1], sg[2], body, node)
                if not live:
                    break
        else:
            live = True
        if breaks:
            return self.join_exits(live, breaks)
        return live

    def join_exits(self, live, exits):
        f = self.frames[-1]
        if not exits:
            return live
        if live:
            cur = (self.pc, self.heap, f.env)
            rest = exits
        else:
            e = exits[-1]
            cur = (e.guard, e.heap, e.env)
            rest = exits[:-1]
        pc, heap, env = cur
        for e in reversed(rest):
            heap = self.merge_heap(e.guard, e.heap, heap)
            env = self.merge_env(e.guard, e.env, env)
            pc = b_or(e.guard, pc)
        self.pc, self.heap, f.env = pc, heap, env
        return True

    def sym_loop(self, n, fn, body, node):
        """Summary of a loop over a domain of symbolic size"""
        f = self.frames[-1]
        n = self.restrict(n)
        if n is ZERO:
            return True
        self.loop_depth += 1
        try:
            return self._sym_loop(n, fn, body, node)
        finally:
            self.loop_depth -= 1

    def _once(self, k, fn, body, node):
        """One iteration; returns False when it cannot complete normally"""
        f = self.frames[-1]
        mark = len(f.exits)
        segs = fn(k)
        if len(segs) == 1 and segs[0][0] == 'item':
            live = body(segs[0][1])
            new = f.exits[mark:]
            conts = [e for e in new if e.kind == 'continue']
            other = [e for e in new if e.kind != 'continue']
            f.exits[mark:] = other
            live = self.join_exits(live, conts)
        else:
            live = self.run_segments(segs, body, node)
        return live

    def _sym_loop(self, n, fn, body, node):
        f = self.frames[-1]
        k = tm.fresh_loop('k')
        k.typ = INT
        entry_heap, entry_env, entry_pc = self.heap, f.env, self.pc
        mark = len(f.exits)
        counter0 = self.counter
        phis = {}         # location -> placeholder term

        def initial(l):
            if l[0] == 'env':
                return entry_env.get(l[1], UNDEF)
            if l[0] == 'cell':
                self.heap = entry_heap
                c = self.cell(l[1])
                return c
            if l[0] == 'field':
                self.heap = entry_heap
                c = self.cell(l[1])
                for nm, x in c.fields:
                    if nm == l[2]:
                        return x
                if c.base is not None:
                    return self.read_field_raw(l[1], c, l[2])
                return UNDEF

        def setup():
            self.heap = dict(entry_heap)
            f.env = dict(entry_env)
            self.pc = entry_pc
            for l, p in phis.items():
                if l[0] == 'env':
                    f.env[l[1]] = p
                elif l[0] == 'cell':
                    c = self.cell(l[1])
                    if isinstance(c, Lst):
                        self.heap[l[1]] = Lst(seq(splice(p), item(UNDEF)) if False else mk('seq', splice(p)))
                    elif isinstance(c, (Val, View)):
                        self.heap[l[1]] = Val(p)
                    elif isinstance(c, Dct):
                        self.heap[l[1]] = Dct((), p)
                    elif isinstance(c, Obj):
                        self.heap[l[1]] = Obj(c.cls, p, ())
                else:
                    c = self.cell(l[1])
                    d = dict(c.fields)
                    d[l[2]] = p
                    self.heap[l[1]] = Obj(c.cls, c.base, tuple(sorted(d.items())))

        def diff():
            """Locations which existed before the loop and have been changed by the iteration"""
            out = []
            for nme, v in f.env.items():
                if v is not entry_env.get(nme):
                    out.append(('env', nme))
            for i, c in self.heap.items():
                old = entry_heap.get(i)
                if old is None:
                    old = self.init.get(i)
                    if old is None:
                        continue          # allocated by the iteration
                    if i[0] in ('f', 'i', 'sym') and tm.free_loop_in_id(self, i, k):
                        if c is not old and c != old:
                            self.lost.append(loc_of(f, node))
                        continue
                if c is old or c == old:
                    continue
                if isinstance(c, Obj) and isinstance(old, Obj):
                    if c.base is not old.base:
                        out.append(('cell', i))
                    else:
                        d0 = dict(old.fields)
                        for nm, x in c.fields:
                            if x is not d0.get(nm):
                                out.append(('field', i, nm))
                else:
                    out.append(('cell', i))
            return out

        live = True
        for attempt in range(8):
            del f.exits[mark:]
            setup()
            live = self._once(k, fn, body, node)
            if not live:
                break
            changed = [l for l in diff() if l not in phis]
            # a whole-object change absorbs field changes
            if not changed:
                break
            for l in changed:
                if l[0] == 'cell':
                    for q in [q for q in phis if q[0] == 'field' and q[1] == l[1]]:
                        del phis[q]
                if l[0] == 'field' and ('cell', l[1]) in phis:
                    continue
                init = initial(l)
                if l[0] == 'env' and init is UNDEF:
                    phis[l] = UNDEF
                    continue
                p = tm.fresh_loop('phi')
                ty = None
                v0 = None
                if isinstance(init, T):
                    v0 = self.val(init)
                    ty = self.typ_of_term(v0) if v0.op != 'ite' else None
                    if ty is None and tm.is_scalar(v0):
                        ty = INT
                elif isinstance(init, Val):
                    v0 = init.v
                    ty = v0.typ
                    if self.scalar_mode and tm.is_scalar(v0):
                        ty = FLOAT
                elif isinstance(init, Obj):
                    ty = Ty('cls', cls=init.cls)
                if isinstance(init, T) and init.op == 'ref' and isinstance(self.cell(init.args[0]), Obj):
                    ty = Ty('cls', cls=self.cell(init.args[0]).cls)
                if ty is not None:
                    p.typ = ty
                phis[l] = self.lift(p) if isinstance(init, T) and ty is not None and ty.kind == 'cls' else p
        else:
            self.unk('loop does not stabilise', node)
        if not live:
            # no iteration completes: the loop body always leaves
            exits = f.exits[mark:]
            del f.exits[mark:]
            self.heap, f.env, self.pc = dict(entry_heap), dict(entry_env), entry_pc
            if all(e.kind == 'raise' for e in exits):
                return self.raise_if(b_not(tm.eq(n, ZERO)), cval(exits[0].value) if exits else 'Exception', node)
            self.unk('loop left in its first iteration', node)
            return True
        exits = f.exits[mark:]
        del f.exits[mark:]
        # results of one iteration as terms
        res = {}
        phi_terms = {}
        for l, p in phis.items():
            if l[0] == 'env':
                v = f.env.get(l[1], UNDEF)
                r = v if v is UNDEF else self.reify(v) if v.op in ('ref', 'ite', 'tuple', 'fn') else v
            elif l[0] == 'cell':
                c = self.cell(l[1])
                if isinstance(c, Lst):
                    r = self.reify(c.v)
                elif isinstance(c, (Val, View)):
                    r = self.read_ref(l[1])
                else:
                    r = self.reify(self.ref(l[1]))
            else:
                c = self.cell(l[1])
                r = self.reify(dict(c.fields)[l[2]])
            res[l] = r
            phi_terms[l] = self.phi_of(p)
        end_pc = self.pc
        # restore the entry state and compute initial values as terms
        self.heap, f.env, self.pc = dict(entry_heap), dict(entry_env), entry_pc
        inits = {}
        for l in phis:
            c = initial(l)
            self.heap = dict(entry_heap)
            if isinstance(c, Lst):
                inits[l] = self.reify(c.v)
            elif isinstance(c, (Val, View)):
                inits[l] = self.read_ref(l[1])
            elif isinstance(c, (Obj, Dct)):
                inits[l] = self.reify(self.ref(l[1]))
            elif c is UNDEF:
                inits[l] = UNDEF
            else:
                inits[l] = self.reify(c) if c.op in ('ref', 'ite', 'tuple') else c
        final, at = self.libs.summarise(self, n, k, phi_terms, res, inits, node)
        # exceptions raised in some iteration
        for e in exits:
            if e.kind == 'raise':
                g = tm.subst(restrict_by(e.guard, entry_pc), at)
                self.raise_if(tm.exists(n, k, g), cval(e.value) if e.value.op == 'c' else 'Exception', node)
            elif e.kind == 'return' or e.kind == 'break':
                self.unk('%s inside a loop' % e.kind, node)
                g = tm.subst(restrict_by(e.guard, entry_pc), at)
                if e.kind == 'return':
                    c = tm.exists(n, k, g)
                    pc = self.pc
                    self.pc = b_and(pc, c)
                    v = mk('unknown', 'first', n, tm.bind(k, tm.subst(self.reify(e.value), at))[0])
                    f.exits.append(Exit('return', self.pc, v, self.heap, f.env, e.loc))
                    self.heap = dict(self.heap)
                    f.env = dict(f.env)
                    self.pc = b_and(pc, b_not(c))
        for l, v in final.items():
            if l[0] == 'env':
                if v is UNDEF:
                    continue
                f.env[l[1]] = self.box(self.lift(v))
            elif l[0] == 'cell':
                c = self.cell(l[1])
                if isinstance(c, Lst):
                    self.heap[l[1]] = Lst(v)
                elif isinstance(c, (Val, View)):
                    self.heap[l[1]] = Val(v)
                elif isinstance(c, Dct):
                    if v.op == 'dict':
                        self.heap[l[1]] = Dct(tuple(v.args[0]), None)
                    else:
                        self.heap[l[1]] = Dct((), v)
                else:
                    self.heap[l[1]] = Obj(c.cls, v, ())
            else:
                self.set_field(l[1], l[2], self.box(self.lift(v)))
        return True

    def phi_of(self, p):
        if p.op == 'ref':
            c = self.init.get(p.args[0])
            return c.base
        return p

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        v = self.restrict(v)

        def one(x):
            if x.op == 'ite':
                return x if tm.is_bool(x) else tm.leafmap(x, one)
            if x is BOT:
                return TRUE
            if x.op == 'ref':
                c = self.cell(x.args[0])
                if isinstance(c, Lst):
                    return tm.truth(self.reify(c.v)) if c.v.op == 'seq' else b_not(tm.eq(tm.length(c.v), ZERO))
                if isinstance(c, Dct):
                    if c.base is None:
                        return TRUE if c.entries else FALSE
                    return TRUE if c.entries else tm.truth(c.base)
                if isinstance(c, Obj):
                    if self.repo.find(c.cls, '__bool__') or self.repo.find(c.cls, '__len__'):
                        return tm.truth(self.libs.call_len(self, x))
                    return TRUE
                w = self.read_ref(x.args[0])
                return one(w) if w.op == 'ite' else tm.truth(w)
            if x.op in ('fn', 'func', 'meth', 'cls', 'ext', 'mod', 'bm', 'partial'):
                return TRUE
            return tm.truth(x)
        return one(v)

    def eval_const(self, n):
        v = n.value
        return const(v)

    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.unk('expression %s' % type(n).__name__, n)
        r = m(n)
        return r

    def e_Constant(self, n):
        return self.eval_const(n)

    def e_Name(self, n):
        return self.lookup_name(n.id, n)

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def e_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = self.libs.as_seq(self, self.eval(e.value))
                if s.op == 'seq' and all(x.op == 'item' for x in s.args):
                    out.extend(x.args[0] for x in s.args)
                else:
                    out.append(mk('star', s))
            else:
                out.append(self.box(self.eval(e)))
        if any(x.op == 'star' for x in out):
            return seq(*[splice(x.args[0]) if x.op == 'star' else item(x) for x in out])
        return mk('tuple', *out)

    def e_List(self, n):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.append(splice(self.libs.as_seq(self, self.eval(e.value))))
            else:
                segs.append(item(self.box(self.eval(e))))
        return self.new(Lst(seq(*segs)))

    def e_Set(self, n):
        t = mk('set')
        for e in n.elts:
            t = self.libs.set_add(t, self.val(self.eval(e)))
        return self.new(Val(t))

    def e_Dict(self, n):
        es = []
        base = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v)
                r = self.libs.dict_entries(self, d)
                if r is None:
                    base = self.val(d)
                else:
                    for kk, vv in r:
                        es = [(a, b) for a, b in es if a is not kk] + [(kk, vv)]
            else:
                kk = self.val(self.eval(k))
                vv = self.box(self.eval(v))
                es = [(a, b) for a, b in es if a is not kk] + [(kk, vv)]
        return self.new(Dct(tuple(es), base))

    def e_Slice(self, n):
        f = lambda x: NONE if x is None else self.val(self.eval(x))
        return mk('slice', f(n.lower), f(n.upper), f(n.step))

    def eval_index(self, n):
        if isinstance(n, ast.Tuple):
            return mk('tuple', *[self.eval_index(e) if not isinstance(e, ast.Starred) else
                                 mk('star', self.val(self.eval(e.value))) for e in n.elts])
        return self.eval(n)

    def e_Subscript(self, n):
        b = self.eval(n.value)
        if b.op == 'cls' or (b.op == 'ext' and b.args[0].split('.')[0] in ('typing', 'builtins', 'typing_extensions')):
            return b
        ix = self.eval_index(n.slice)
        return self.subscript(b, ix, n)

    def subscript(self, b, ix, node=None):
        return self.split(b, lambda x: self.libs.subscript(self, x, ix, node))

    def e_Starred(self, n):
        return mk('star', self.libs.as_seq(self, self.eval(n.value)))

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.libs.binop(self, n.op, a, b, n)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return b_not(self.truth(v))
        v = self.val(v)
        if isinstance(n.op, ast.USub):
            if v.op == 'inf':
                return mk('neginf')
            return tm.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if tm.is_bool(v):
            return b_not(v)
        return op('invert', v)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isand:
                _, r = self.branch(c, lambda: (True, go(vals[1:])), lambda: (True, v))
            else:
                _, r = self.branch(c, lambda: (True, v), lambda: (True, go(vals[1:])))
            return r
        r = go(n.values)
        return r

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for o, c in zip(n.ops, n.comparators):
            right = self.eval(c)
            r = self.libs.compare(self, o, left, right, n)
            if res is None:
                res = r
            elif tm.is_bool(res) and tm.is_bool(r):
                res = b_and(res, r)
            else:
                res = ite(self.truth(res), r, res)
            left = right
        return res

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        if c is TRUE or c is FALSE:
            return self.eval(n.body if c is TRUE else n.orelse)
        return self.branch(c, lambda: (True, self.box(self.eval(n.body))), lambda: (True, self.box(self.eval(n.orelse))))[1]

    def e_Lambda(self, n):
        self.fns.append(Fn(n, self.frames[-1], None))
        return mk('fn', len(self.fns) - 1)

    def e_NamedExpr(self, n):
        v = self.box(self.eval(n.value))
        self.assign(n.target, v, n)
        return v

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(self.eval(v.value))
                if v.format_spec is not None:
                    x = mk('format', x, self.val(self.eval(v.format_spec)))
                parts.append(x)
        return self.libs.fmt(parts)

    def e_FormattedValue(self, n):
        return self.val(self.eval(n.value))

    def comp(self, n, emit):
        f = self.frames[-1]
        # comprehensions have their own scope
        sub = Frame(f.module, {}, f, f.func, f.cls)
        self.frames.append(sub)
        try:
            def gen(j):
                if j == len(n.generators):
                    emit()
                    return True
                g = n.generators[j]
                it = self.eval(g.iter)

                def body(v):
                    self.assign(g.target, v, n)
                    c = TRUE
                    for cond in g.ifs:
                        c = b_and(c, self.truth(self.eval(cond)))
                    self.branch(c, lambda: (gen(j + 1), NONE), lambda: (True, NONE))
                    return True
                self.loop(it, body, n)
                return True
            gen(0)
        finally:
            self.frames.pop()
            f.exits.extend(sub.exits)

    def e_ListComp(self, n):
        out = self.new(Lst(seq()))

        def emit():
            v = self.box(self.eval(n.elt))
            c = self.cell(out.args[0])
            self.heap[out.args[0]] = Lst(tm.seq_concat(c.v, seq(item(v))))
        self.comp(n, emit)
        return out

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n)

    def e_SetComp(self, n):
        return mk('setof', self.val(self.e_ListComp(n)))

    def e_DictComp(self, n):
        out = self.new(Lst(seq()))

        def emit():
            k = self.box(self.eval(n.key))
            v = self.box(self.eval(n.value))
            c = self.cell(out.args[0])
            self.heap[out.args[0]] = Lst(tm.seq_concat(c.v, seq(item(mk('tuple', k, v)))))
        self.comp(n, emit)
        return self.libs.dict_from_pairs(self, self.cell(out.args[0]).v)

    def e_Yield(self, n):
        v = NONE if n.value is None else self.box(self.eval(n.value))
        self.yield_seq(seq(item(v)))
        return NONE

    def e_YieldFrom(self, n):
        s = self.libs.as_seq(self, self.eval(n.value))
        self.yield_seq(s if s.op == 'seq' else seq(splice(s)))
        return NONE

    def yield_seq(self, s):
        f = self.frames[-1]
        while f is not None and f.yields is None:
            f = f.parent
        i = f.yields.args[0]
        c = self.cell(i)
        self.heap[i] = Lst(tm.seq_concat(c.v, s))

    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in self.frames[-1].env:
            f = self.frames[-1]
            while f is not None and f.cls is None:
                f = f.parent
            if f is None:
                return self.unk('super', n)
            first = f.func.params()[0] if f.func.params() else 'self'
            obj = f.env.get(first)
            start = f.cls
            if obj is not None and obj.op == 'ref':
                c = self.cell(obj.args[0])
                if isinstance(c, Obj) and c.cls is not None:
                    start = c.cls
            elif obj is not None and obj.op == 'cls':
                start = self.repo.classes[obj.args[0]]
            return mk('superv', f.cls.qual, obj, start.qual)
        fn = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.libs.as_seq(self, self.eval(a.value))
                if s.op == 'seq' and all(x.op == 'item' for x in s.args):
                    args.extend(x.args[0] for x in s.args)
                else:
                    args.append(mk('star', s))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                r = self.libs.dict_entries(self, v)
                if r is not None and all(is_str(kk) for kk, _ in r):
                    for kk, vv in r:
                        kwargs[cval(kk)] = vv
                else:
                    kwargs.setdefault('**', []).append(v)
            else:
                kwargs[k.arg] = v
        if self.pc is FALSE:
            return BOT
        loc = tm.CUR_LOC[0]
        tm.CUR_LOC[0] = loc_of(self.frames[-1], n)
        r = self.call(fn, args, kwargs, n)
        tm.CUR_LOC[0] = loc
        return r

    def e_Await(self, n):
        return self.unk('await', n)
