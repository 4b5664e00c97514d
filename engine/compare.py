"""Obligations: the value a piece of the code computes against the value its contract demands.

Both sides are harness functions lowered by the same value-flow engine; the obligation is discharged when their
canonical terms are identical.
"""
import math
import os
import resource
import time
import traceback
from fractions import Fraction

from . import terms as tm
from .terms import T, TRUE, FALSE, b_and, b_or, b_not, restrict_by, mk
from .front import Repo, Ty
from .interp import Interp, Unsupported, AnchorMissing, Frame

# operators the engine gives a meaning to; any other operator that appears on one side only means that the
# two computations could not be related, not that they differ
MEANING = {
    'c', 'poly', 'ite', 'lt0', 'gt0', 'eq', 'isnone', 'truth', 'sym', 'fld', 'index', 'tuple', 'seq', 'item', 'rep',
    'splice', 'bound', 'pbound', 'mm', 'T', 'inv', 'abs', 'exp', 'sqrtc', 'pow', 'min', 'max', 'floordiv', 'mod',
    'obj', 'with', 'dict', 'dictwith', 'dictget', 'len', 'dim', 'arr', 'full', 'sum', 'sum_over', 'diagm', 'eye',
    'slice', 'cond', 'vcall', 'prop', 'nan', 'inf', 'lam', 'hcat', 'vcat', 'blockdiag', 'chol', 'store', 'loop',
    'isinstance', 'fmt', 'maxover', 'minover', 'exists', 'log', 'outer', 'recip0', 'keys', 'undef', 'absent', 'ext',
    'cls', 'ntup', 'setattr', 'getattr', 'meth', 'func', 'has', 'contains', 'in', 'dictof', 'set', 'setof',
    'scatter', 'foldout', 'post',
}



class Result:
    def __init__(self, name):
        self.name = name
        self.status = None       # ok | violation | undecided | anchor | error
        self.detail = ''
        self.where = ''
        self.key = ''
        self.stats = {}
        self.wall = 0.0

    def as_dict(self):
        return dict(self.__dict__)


class Side:
    """One lowered harness"""

    def __init__(self, repo, fi, opts):
        self.interp = I = Interp(repo, opaque=opts.get('opaque'), transparent=opts.get('transparent', ()),
                                 scalar_mode=opts.get('scalar', False), validators=opts.get('validators', False))
        I.pseudo = opts.get('pseudo', False)
        I.aliases = {}
        I.harness = True
        top = Frame(fi.module, {}, None, None, None)
        I.frames.append(top)
        args = []
        for a in fi.node.args.args:
            ty = repo.type_of(fi.module, a.annotation) if a.annotation is not None else Ty('any')
            args.append(I.param(a.arg, ty))
        v = I.invoke(fi, args, {}, None)
        self.pc = I.pc
        self.exits = [e for e in top.exits if e.kind == 'raise']
        self.value = I.reify(v) if self.pc is not FALSE else mk('bot')
        self.frame = mk('tuple', *[I.reify(a) for a in args]) if opts.get('frame') else None
        try:
            eff = I.heap.get(('new', 'effects'))
            self.effects = I.reify(eff.v) if eff is not None else None
        except Unsupported:
            self.effects = None


def apply_aliases(t, al):
    if not al or t is None:
        return t
    return tm.subst(t, al)


def diffs(a, b, out, seen, limit=12):
    """Smallest pairs of corresponding subterms that differ"""
    if a is b or len(out) >= limit:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            diffs(x, y, out, seen, limit)
        return
    if not isinstance(a, T) or not isinstance(b, T):
        if a != b:
            out.append((a, b))
        return
    if (a, b) in seen:
        return
    seen.add((a, b))
    if a.op == b.op and a.op not in ('c', 'poly', 'sym', 'bound', 'fld', 'vcall', 'prop', 'rep') and \
            len(a.args) == len(b.args):
        n = len(out)
        if a.op == 'ite' and a.args[0] is not b.args[0]:
            out.append((a, b))
            return
        if a.op in ('obj', 'with') and [k for k, _ in a.args[1]] != [k for k, _ in b.args[1]]:
            out.append((a, b))
            return
        for x, y in zip(a.args, b.args):
            if isinstance(x, tuple) != isinstance(y, tuple) or (isinstance(x, tuple) and len(x) != len(y)):
                out.append((a, b))
                return
            if not isinstance(x, (T, tuple)) and x != y:
                out.append((a, b))
                return
        for x, y in zip(a.args, b.args):
            diffs(x, y, out, seen, limit)
        if len(out) > n or True:
            return
    if a.op == 'rep' and b.op == 'rep' and a.args[0] is b.args[0] and a.args[2] == b.args[2]:
        diffs(a.args[1], b.args[1], out, seen, limit)
        return
    out.append((a, b))


def path_text(path):
    return ' and '.join(('' if v else 'not ') + show(c, 4) for c, v in path)


def single(p):
    """c + k*x with one plain quantity x: (x, c, k), else None"""
    x, c, k = None, 0, 0
    if p.op != 'poly':
        return p, 0, 1
    for q, m in p.args[0]:
        if not m:
            c = q
        elif x is None and len(m) == 1 and m[0][1] == 1:
            x, k = m[0][0], q
        else:
            return None
    return (x, c, k) if x is not None else None


COUNTS = ('ndim', 'len', 'dim')


def narrow(facts, atom, bit):
    """Bounds known for single quantities after one more decision; None when the decision contradicts them"""
    if atom.op == 'eq' and bit:
        x, y = atom.args
        if (x.op == 'c') == (y.op == 'c'):
            return facts
        x, y = (x, y) if y.op == 'c' else (y, x)
        if facts.get(('=', x), y) is not y:
            return None
        return facts | {('=', x): y}
    if atom.op not in ('lt0', 'gt0'):
        return facts
    s = single(atom.args[0])
    if s is None:
        return facts
    x, c, k = s
    try:
        bound = Fraction(-c) / Fraction(k)
    except (TypeError, ValueError):
        return facts
    below = (atom.op == 'lt0') == (k > 0)         # the atom says x < bound (otherwise x > bound)
    lo, los, hi, his = facts.get(x, (Fraction(0) if x.op in COUNTS else None, False, None, False))
    if bit:
        strict = True
    else:
        below, strict = not below, False
    if x.op in COUNTS:                            # whole numbers: use closed bounds
        if below:
            bound = Fraction(math.ceil(bound) - 1 if strict else math.floor(bound))
        else:
            bound = Fraction(math.floor(bound) + 1 if strict else math.ceil(bound))
        strict = False
    if below:
        if hi is None or bound < hi or bound == hi and strict:
            hi, his = bound, strict
    elif lo is None or bound > lo or bound == lo and strict:
        lo, los = bound, strict
    if lo is not None and hi is not None and (lo > hi or lo == hi and (los or his)):
        return None
    r = dict(facts)
    r[x] = (lo, los, hi, his)
    return r


def differ(a, b, care, memo=None, path=(), facts=None):
    """First pair of corresponding parts which differ under the condition ``care``: (x, y, path), else None"""
    if a is b or care is FALSE:
        return None
    if memo is None:
        memo = {}
    if facts is None:
        facts = {}
    k = (a, b, care, frozenset(facts.items()))
    if k in memo:
        return memo[k]
    r = None
    if a.op == 'ite' or b.op == 'ite' or care.op == 'ite':
        top = tm._tops((a, b, care))
        for bit in (1, 0):
            c = tm._br(care, top, bit)
            f = narrow(facts, top, bit) if c is not FALSE else None
            if f is not None:
                r = differ(tm._br(a, top, bit), tm._br(b, top, bit), c, memo, path + ((top, bit),), f)
                if r is not None:
                    break
    else:
        r = differ_parts(a, b, care, memo, path, facts)
    memo[k] = r
    return r


def differ_parts(a, b, care, memo, path, facts):
    whole = (a, b, path)
    if path:
        known = TRUE
        for c, v in path:
            known = b_and(known, tm.atom(c) if v else b_not(tm.atom(c)))
        care = known
    if {a.op, b.op} == {'tuple', 'seq'}:  # a sequence of known members
        a, b = as_tuple(a), as_tuple(b)
    if a.op != b.op or len(a.args) != len(b.args):
        return whole
    if a.op in ('c', 'sym', 'bound', 'pbound', 'fld', 'poly'):
        x, y = deep_restrict(a, care), deep_restrict(b, care)
        return None if x is y else (x, y, path)
    todo = list(zip(a.args, b.args))
    while todo:
        x, y = todo.pop(0)
        if isinstance(x, T) and isinstance(y, T):
            r = differ(x, y, care, {}, (), facts)
            if r is not None:
                return (r[0], r[1], path + r[2]) if a.op in ('tuple', 'seq', 'item', 'obj', 'with', 'dict', 'hcat',
                                                             'vcat') else whole
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return whole
            todo = list(zip(x, y)) + todo
        elif x != y:
            return whole
    return None


def as_tuple(t):
    if t.op == 'seq' and all(x.op == 'item' for x in t.args):
        return mk('tuple', *[x.args[0] for x in t.args])
    return t


def deep_restrict(t, care, memo=None):
    """Use the condition inside the operands too"""
    if not isinstance(t, T):
        return tuple(deep_restrict(x, care, memo) for x in t) if isinstance(t, tuple) else t
    if care is TRUE or t.op in ('c', 'sym'):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        if t.op == 'ite':
            r = restrict_by(t, care)
            if r.op != 'ite':
                r = deep_restrict(r, care, memo)
        elif t.op == 'poly':
            m = {}
            for x in tm.walk(t):
                if x.op == 'ite':
                    y = restrict_by(x, care)
                    if y is not x:
                        m[x] = y
            r = tm.subst(t, m) if m else t
        else:
            na = tuple(deep_restrict(x, care, memo) for x in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t, na)
        memo[t] = r
    return r


def sign_equal(a, b, care):
    """Compare two decision diagrams only where their sign conditions are consistent"""
    def same(u, v):
        return u is v or differ(u, v, TRUE) is None

    @tm.lifted
    def pair(x, y):
        return TRUE if same(x, y) else mk('tuple', x, y)

    def leaf(x, zero):
        if x is TRUE:
            return x
        u, v = x.args
        if zero and u is not v:
            u, v = tm.subst(u, zero), tm.subst(v, zero)
            if not same(u, v):
                return mk('tuple', u, v)
            return TRUE
        return TRUE if same(u, v) else x
    d = tm.prune(tm.ite(care, pair(a, b), TRUE), at_leaf=leaf)
    d = tm.prune(tm.leafmap(d, lambda x: TRUE if x is TRUE or same(*x.args) else x))
    if d is TRUE:
        return None
    path = []
    while d.op == 'ite':
        c, hi, lo = d.args
        if any(x is not TRUE for x in tm.leaves(hi)):
            path.append((c, 1))
            d = hi
        else:
            path.append((c, 0))
            d = lo
    u, v = d.args
    return differ(u, v, TRUE) [:2] + (tuple(path),)


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if isinstance(t, T) and t.op == 'ite' else [t]


def names(t, stop=None):
    """Operators of a term; uninterpreted library calls count by their name. What is inside those `stop` holds for is left out."""
    r = set()
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        own = key_of(x)
        r |= own
        if stop is None or not own or not all(stop(q) for q in own):
            todo.extend(x.args)
    return r


def key_of(x):
    r = set()
    o = x.op
    if o == 'apply':
        for f in leaves(x.args[0]):
            r.add((o, (f.op,) + tuple(z for z in f.args if isinstance(z, str)), len(x.args[1]) + len(x.args[2]),
                   tuple(z.args[0] if isinstance(z, T) and z.args else z[0] for z in x.args[2])))
    elif o in ('allclose', 'isclose'):
        r.add((o,) + tuple(k for k, _ in x.args[2]))
    elif o in ('call', 'mcall', 'apply', 'rcall', 'unknown', 'attr', 'op') and x.args and isinstance(x.args[0], str):
        r.add((o, x.args[0]))
    elif o == 'attr' and len(x.args) > 1 and isinstance(x.args[1], str):
        r.add((o, x.args[1]))
    else:
        r.add((o,))
    return r


# operators nothing familiar can stand for: when one is only in the contract, the code left it out
DROPPED = ('mcall', 'call', 'rcall', 'pinv', 'isinst', 'where', 'svdU', 'svdS', 'svdV', 'dictdel', 'attr', 'isnan',
           'isfinite')
# what is taken over a column of a table
REDUCTIONS = {'max', 'min', 'sum', 'mean', 'median', 'nunique', 'count', 'first', 'last', 'std', 'var', 'idxmax', 'idxmin'}
# operators over an unknown number of members
BINDING = {('rep',), ('scatter',), ('fold',), ('sum_over',), ('exists',), ('maxover',), ('minover',), ('loop',), ('lam',)}

# operators with the same arguments and different results
FAMILIES = [{('tile',), ('repeat',)}, {('arrmax',), ('arrmin',), ('sum',), ('mean',), ('op', 'mean'), ('median',)},
            {('argmax',), ('argmin',)}, {('zeros_like',), ('ones_like',)}, {('floor',), ('ceil',), ('round',)},
            {('mcall', 'min'), ('mcall', 'max'), ('mcall', 'mean'), ('mcall', 'sum'), ('mcall', 'median')},
            {('linspace',), ('arange',), ('logspace',)}, {('any',), ('all',)}, {('cumsum',), ('cumprod',), ('sum',)},
            {('arrmax',), ('attr', 'iloc')}, {('arrmin',), ('attr', 'iloc')}]


# operators which give other values than they are given: the contract either has them or has not
CHANGING = {'round', 'around', 'round_', 'rint', 'nanmean', 'nansum', 'nanmax', 'nanmin',
            'nanstd', 'nanmedian', 'nan_to_num', 'drop_duplicates', 'dropna', 'fillna', 'ffill', 'bfill', 'interpolate',
            'sample', 'sort_values', 'sort_index', 'arrnanmean', 'arrnansum', 'arrnanmax', 'arrnanmin', 'ordered', 'lastpart',
            'sorted', 'unique', 'tail', 'head', 'shift', 'float16', 'float32', 'half', 'single', 'int', 'trunc'}


def changing(q):
    """The name of the operator (or of the function it calls) is one of these"""
    last = [z for z in q if isinstance(z, str)] + [z[-1] for z in q if isinstance(z, tuple) and z and isinstance(z[-1], str)]
    return bool(last) and last[-1].split('.')[-1] in CHANGING


def parts_of(a, b, out, depth=0):
    """Corresponding members of structures, which are equal only when all their members are"""
    if a is b:
        return
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and depth < 6:
        if a.op == 'tuple' and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                parts_of(x, y, out, depth + 1)
            return
        if a.op == 'seq' and len(a.args) == len(b.args) and all(x.op == 'item' for x in a.args + b.args):
            for x, y in zip(a.args, b.args):
                parts_of(x.args[0], y.args[0], out, depth + 1)
            return
        if a.op == 'obj' and a.args[0] == b.args[0] and [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]]:
            for (_, x), (_, y) in zip(a.args[1], b.args[1]):
                parts_of(x, y, out, depth + 1)
            return
    out.append((a, b))


def unrelated(a, b):
    """Operators because of which the two sides cannot be compared: without a meaning here, and on one side only"""
    ps = []
    parts_of(a, b, ps)
    worst = set()
    for x, y in ps:
        if not isinstance(x, T) or not isinstance(y, T):
            return set()
        na, nb = names(x), names(y)
        # what is inside of an operator which is decided on by itself does not matter
        code = {q for q in names(x, lambda q: q not in nb and changing(q)) - nb if q[0] not in MEANING}
        contract = {q for q in names(y, lambda q: q not in na and q[0] in DROPPED) - na if q[0] not in MEANING}
        unknown = {q for q in na | nb if q[0] == 'unknown'}
        # the same function called with more or fewer arguments is called differently
        more = {q for q in code for z in contract if q[:2] == z[:2] and q[0] == 'apply' and q[2] != z[2]}
        code -= more
        contract = {z for z in contract if not any(z[:2] == q[:2] for q in more)}
        altered = {q for q in code if changing(q) or q == ('bot',)}
        if altered and altered == code and not unknown:
            # what the code does with the values cannot be undone by anything the contract does
            code, contract = set(), set()
        if not code and not unknown:
            # something of another library is no longer called, and nothing unfamiliar takes its place
            contract = {q for q in contract if q[0] not in DROPPED}
            if not na & BINDING:
                contract.discard(('fold',))
        if any(code | contract <= f for f in FAMILIES) or all(
                q[0] == 'apply' and q[1][0] == 'attr' and q[1][-1] in REDUCTIONS for q in code | contract):
            code, contract = set(), set()
        sus = code | contract | unknown
        if not sus:
            return set()
        worst |= sus
    return worst


def other_options(sus, a, b):
    """Both sides are made of the same operators, but one which decides between them has other options"""
    na, nb = names(a), names(b)
    d = na ^ nb
    return bool(d) and sus <= na & nb | d and all(q[0] in ('allclose', 'isclose') for q in d) and \
        all(any(z[0] == q[0] for z in nb - na) for q in na - nb)


def events(t):
    """Kinds of the events of a list, wherever they are in it"""
    r = set()
    for x in tm.walk(t):
        if x.op == 'item' and x.args[0].op in ('mcall', 'setitem'):
            r.add((x.args[0].op,) + x.args[0].args[:1] if x.args[0].op == 'mcall' else (x.args[0].op,))
    return r


def plain_logs(ds):
    """Some pair of event lists has a different number, or different kinds, of events"""
    for x, y in ds:
        if all(isinstance(z, T) and z.op in ('seq', 'ite') for z in (x, y)) and events(x) < events(y):
            return True
        if all(isinstance(z, T) and z.op == 'seq' and all(i.op == 'item' for i in z.args) for z in (x, y)):
            kinds = [[(i.args[0].op,) + i.args[0].args[:1] if i.args[0].op == 'mcall' else (i.args[0].op,)
                      for i in z.args] for z in (x, y)]
            if kinds[0] != kinds[1]:
                return True
    return False


def location(t):
    best = None
    for x in ([t] if isinstance(t, T) else list(t) if isinstance(t, tuple) else []):
        if isinstance(x, T) and x.loc:
            best = x.loc
    return '%s:%s' % tuple(best) if best else ''


def compare(repo, spec, name, opts):
    """Decide one obligation; spec is the harness module name"""
    r = Result(name)
    t0 = time.time()
    try:
        tm.SIGNS[0] = bool(opts.get('scalar'))
        m = repo.modules[spec]
        fo, fe = m.names['observe_' + name][1], m.names['expect_' + name][1]
        obs = Side(repo, fo, opts)
        n_obs = len(tm._table)
        exp = Side(repo, fe, opts)
        al = dict(obs.interp.aliases)
        al.update(exp.interp.aliases)
        pc_o, pc_e = apply_aliases(obs.pc, al), apply_aliases(exp.pc, al)
        parts = [('result', obs.value, exp.value)]
        if opts.get('frame') == 'only':
            parts = [('state', obs.frame, exp.frame)]
        elif opts.get('frame'):
            parts.append(('state', obs.frame, exp.frame))
        if opts.get('effects'):
            parts.append(('effects', obs.effects or mk('seq'), exp.effects or mk('seq')))
        live = b_and(pc_o, pc_e)
        bad, case, whole = None, '', None
        if opts.get('raises') == 'always':
            if pc_o is not FALSE:
                bad = ('exceptions', pc_o, FALSE)
            live, parts = TRUE, []
        elif opts.get('raises') == 'exact' and opts.get('frame') != 'only' and pc_o is not pc_e and differ(pc_o, pc_e, TRUE) is not None:
            bad = ('exceptions', pc_o, pc_e)
        elif opts.get('raises') == 'none' and restrict_by(pc_o, pc_e) is not TRUE:
            # nothing beyond the contract's own exceptions may be raised
            bad = ('exceptions', pc_o, pc_e)
        if live is FALSE:
            bad = ('exceptions', pc_o, pc_e)
        if bad is None:
            for what, a, b in parts:
                a, b = apply_aliases(a, al), apply_aliases(b, al)
                d = differ(a, b, live)
                if d is not None:
                    a, b = tm.hoist(a), tm.hoist(b)
                    d = differ(a, b, live)
                if d is not None and opts.get('scalar'):
                    d = sign_equal(a, b, live)
                if d is not None:
                    bad = (what, d[0], d[1])
                    whole = tm.prune(tm.ite(live, a, TRUE)), tm.prune(tm.ite(live, b, TRUE))
                    case = path_text(d[2])
                    break
        I = obs.interp
        r.stats = {
            'functions': sorted(I.analysed), 'call_sites': I.sites, 'terms': n_obs,
            'unknown': ['%s at %s' % u for u in I.unknown][:8], 'unknown_expect': [str(u) for u in exp.interp.unknown][:8],
            'size': sum(1 for _ in tm.walk(obs.value)),
        }
        lost = obs.interp.lost + exp.interp.lost
        if lost:
            r.status = 'undecided'
            r.detail = 'a loop writes to every member of a collection at %s' % sorted(set('%s:%s' % x for x in lost))
        elif bad is None:
            r.status = 'ok'
        else:
            what, a, b = bad
            ds = []
            diffs(a, b, ds, set())
            if not ds:
                ds = [(a, b)]
            na, nb = names(a), names(b)
            text = []
            for x, y in ds:
                text.append('%s%s\n    code:     %s\n    contract: %s' % (
                    what, ' (at %s)' % location(x) if location(x) else '', show(x), show(y)))
            sus = unrelated(a, b)
            if sus and opts.get('raises') == 'always' and what == 'exceptions' and not I.unknown and not obs.exits and pc_e is FALSE:
                # nothing is raised in any of the cases the contract is about
                sus = set()
            if sus and what == 'exceptions' and pc_o is FALSE and pc_e is not FALSE and not I.unknown and obs.exits:
                # always refused
                sus = set()
            if sus and whole is not None and other_options(sus, *whole):
                sus = set()
            if what == 'state' and sus:
                # the methods which change their object are known, and the contract leaves everything as it was
                sus = {q for q in sus if q[0] not in ('post', 'attr', 'mcall')} if ('post',) in na - nb else sus
            r.detail = ('case: %s\n' % case if case else '') + '\n'.join(text)
            r.where = ', '.join(sorted({w for w in (location(x) for x, _ in ds) if w}))
            if sus and what == 'effects' and not any(q[0] == 'unknown' for q in sus) and plain_logs(ds):
                sus = None
            if sus:
                r.status = 'undecided'
                r.detail = 'could not relate: %s\n' % sorted(sus) + r.detail
            else:
                r.status = 'violation'
            r.key = '%s:%s' % (name, what)
    except AnchorMissing as e:
        r.status, r.detail = 'anchor', str(e)
    except (Unsupported, tm.TooBig, RecursionError, MemoryError) as e:
        if os.environ.get("VDBG"): traceback.print_exc()
        r.status, r.detail = 'undecided', '%s: %s' % (type(e).__name__, e)
    except Exception:
        r.status, r.detail = 'undecided', 'analysis failed: ' + traceback.format_exc()[-1500:]
    r.wall = round(time.time() - t0, 2)
    return r


def show(t, depth=7):
    if isinstance(t, T):
        s = tm.show(t, depth)
    else:
        s = str(t)
    return s if len(s) < 1500 else s[:1500] + ' …'


def limits(gb=4):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass
