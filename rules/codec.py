"""What every field of a container becomes in JSON, and what reading makes of it."""
import ast

from engine.front import ClassInfo, dotted
from .common import Report, keyword, last, where

JSON_MODES = ('always', 'unless-none', 'json', 'json-unless-none')
PLAIN = {'int', 'float', 'str', 'bool', 'Number', 'None', 'Literal'}


def marks(ann, owner, repo, module, depth=0):
    """The annotation stripped of Annotated and aliases, with the markers met on the way"""
    out = []
    while depth < 10:
        depth += 1
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode='eval').body
        if isinstance(ann, ast.Subscript) and last(ann.value) == 'Annotated':
            els = ann.slice.elts
            out += [(m, module) for m in els[1:]]
            ann = els[0]
            continue
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = repo.resolve_expr(module, ann)
            if r is not None and r[0] == 'expr':
                ann, module = r[1], r[2]
                continue
        break
    return ann, module, out


def problem(repo, c, name, ann, module, given=()):
    """Why values of the annotation do not survive (None: they do), following members"""
    ann, module, ms = marks(ann, c, repo, module)
    ms = list(given) + ms
    if isinstance(ann, ast.Constant) and ann.value is None:
        return None
    if isinstance(ann, ast.BinOp):
        return problem(repo, c, name, ann.left, module, ms) or problem(repo, c, name, ann.right, module, ms)
    if isinstance(ann, ast.Subscript):
        h = last(ann.value)
        args = list(ann.slice.elts) if isinstance(ann.slice, ast.Tuple) else [ann.slice]
        if h == 'Literal':
            return None
        if h in ('Optional', 'Union', 'Tuple', 'tuple', 'List', 'list', 'Set', 'set', 'frozenset', 'Sequence', 'Dict', 'dict'):
            for a in args:
                if isinstance(a, ast.Constant) and a.value in (Ellipsis, None):
                    continue
                p = problem(repo, c, name, a, module, ms)
                if p:
                    return p
            return None
        if h == 'SerializeAsAny':
            return problem(repo, c, name, args[0], module, ms)
        return 'has a type of which the JSON form is unknown: %s' % ast.unparse(ann)
    n = last(ann)
    if n in PLAIN:
        return None
    if n == 'ndarray':
        enc = dec = False
        for m, mm in ms:
            k = last(m.func) if isinstance(m, ast.Call) else last(m)
            if k in ('WrapSerializer', 'PlainSerializer'):
                w = keyword(m, 'when_used')
                enc = enc or w is None or (isinstance(w, ast.Constant) and w.value in JSON_MODES)
            if k in ('BeforeValidator', 'PlainValidator', 'WrapValidator'):
                dec = True
        for k in repo.mro(c):
            for f in k.methods.values():
                for d in f.node.decorator_list:
                    if not isinstance(d, ast.Call):
                        continue
                    fields = {a.value for a in d.args if isinstance(a, ast.Constant)}
                    if name in fields or '*' in fields:
                        if last(d.func) == 'field_serializer':
                            w = keyword(d, 'when_used')
                            enc = enc or w is None or (isinstance(w, ast.Constant) and w.value in JSON_MODES)
                        if last(d.func) == 'field_validator':
                            w = keyword(d, 'mode')
                            dec = dec or (isinstance(w, ast.Constant) and w.value in ('before', 'plain', 'wrap'))
        if not enc:
            return 'is an array without a serializer to JSON'
        if not dec:
            return 'is an array without a validator which reads the list JSON has in its place'
        return None
    r = repo.resolve_expr(module, ann)
    if r is not None and r[0] == 'class':
        k = r[1]
        if not repo.is_model(k):
            return 'holds %s, which is not a model' % k.name
        wider = [s for s in repo.all_subs(k) if set(repo.model_fields(s)) - set(repo.model_fields(k))]
        if wider:
            return 'is declared as %s; fields of %s are neither written nor read' % (
                k.name, ', '.join(sorted(s.name for s in wider)))
        return None
    return 'has a type of which the JSON form is unknown: %s' % ast.unparse(ann)


def fields(repo, opts):
    rep = Report('fields')
    roots = [repo.classes['moirae.models.base.HealthVariable'], repo.classes['moirae.models.base.GeneralContainer']]
    for c in sorted(repo.classes.values(), key=lambda z: z.qual):
        if c.module.name.startswith('specs.') or not any(repo.subclass_of(c, k) for k in roots):
            continue
        rep.count('containers')
        for n, (ann, dflt, owner) in repo.model_fields(c).items():
            rep.count('fields')
            if owner is not c and n not in c.fields:
                # decided where it is declared, unless the declaring class itself is not a container
                if any(repo.subclass_of(owner, k) for k in roots):
                    continue
            p = problem(repo, c, n, ann, owner.module)
            if p is None and isinstance(dflt, ast.Call) and last(dflt.func) == 'Field':
                e = keyword(dflt, 'exclude')
                if e is not None and not (isinstance(e, ast.Constant) and not e.value):
                    p = 'is excluded from what is written'
                a = keyword(dflt, 'serialization_alias') or keyword(dflt, 'alias') or keyword(dflt, 'validation_alias')
                if p is None and a is not None:
                    p = 'is written or read under another name'
            if p:
                rep.add('%s.%s' % (c.name, n), where(owner.module, ann), 'Field %s of %s %s.' % (n, c.qual, p))
    return rep.result({'containers': 20, 'fields': 60})


RULES = {'fields': fields}
