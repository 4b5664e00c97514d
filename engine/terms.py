"""Hash-consed value-graph terms and their canonical forms.

Terms are interned, so structural equality is identity.  Every constructor
returns a canonical form: numbers are rational polynomials over atoms,
conditions are reduced ordered decision diagrams, and conditional values
(gated phi nodes) are multi-terminal decision diagrams whose leaves are free of
conditions.  Nothing here enumerates program paths or calls a solver.
"""
from fractions import Fraction
import hashlib
import math
import re

MAX_EXPAND = 96        # product of monomial counts beyond which a sum stays factored
MAX_NODES = 400000     # safety bound for one run


class TooBig(Exception):
    pass


class T:
    __slots__ = ('op', 'args', '_k', 'typ', 'loc', '_free', '_h')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._k = None
        self.typ = None
        self.loc = None
        self._free = None
        self._h = None

    @property
    def key(self):
        if self._k is None:
            h = hashlib.sha1()
            h.update(self.op.encode())
            _feed(h, self.args)
            self._k = h.hexdigest()[:20]
        return self._k

    def __repr__(self):
        return show(self)


def _feed(h, a):
    if isinstance(a, T):
        h.update(b'<' + a.key.encode() + b'>')
    elif isinstance(a, tuple):
        h.update(b'(')
        for x in a:
            _feed(h, x)
        h.update(b')')
    else:
        h.update(('%s:%r;' % (type(a).__name__, a)).encode())


_table = {}
CUR_LOC = [None]   # (file, line) being interpreted, for diagnostics


def _ik(a):
    """Hashable interning key that keeps True and 1 apart"""
    if isinstance(a, T):
        return id(a)
    if isinstance(a, tuple):
        return tuple(_ik(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op, _ik(args))
    t = _table.get(k)
    if t is None:
        if len(_table) > MAX_NODES:
            raise TooBig('value graph too large')
        t = T(op, args)
        t.loc = CUR_LOC[0]
        _table[k] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, str) or isinstance(v, bytes) or v is Ellipsis:
        return mk('c', v if v is not Ellipsis else '...')
    if isinstance(v, int):
        return mk('c', Fraction(v))
    if isinstance(v, float):
        if math.isnan(v):
            return mk('nan')
        if math.isinf(v):
            return mk('inf') if v > 0 else neg(mk('inf'))
        return mk('c', Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk('c', v)
    if isinstance(v, complex):
        return mk('complex', repr(v))
    raise TypeError(v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)


def is_num(t):
    return t.op == 'c' and isinstance(t.args[0], Fraction)


def is_str(t):
    return t.op == 'c' and isinstance(t.args[0], str)


def cval(t):
    """Python value of a constant term, else raises"""
    if t.op != 'c':
        raise ValueError('not constant')
    v = t.args[0]
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


# ---------------------------------------------------------------- ite / BDD
_rank = {'lt0': 0, 'gt0': 1}


def atom_order(a):
    if a.op in _rank:
        return (a.args[0].key, _rank[a.op])
    return (a.key, 2)


def _tops(ts):
    best = None
    for t in ts:
        if isinstance(t, T) and t.op == 'ite':
            a = t.args[0]
            if best is None or atom_order(a) < atom_order(best):
                best = a
    return best


def _br(t, a, hi):
    if isinstance(t, T) and t.op == 'ite' and t.args[0] is a:
        return t.args[1] if hi else t.args[2]
    return t


def restrict(t, a, val, memo=None):
    """Cofactor of the decision diagram t with respect to atom a"""
    if not isinstance(t, T) or t.op != 'ite':
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        b, x, y = t.args
        if b is a:
            r = x if val else y
        elif atom_order(b) > atom_order(a):
            r = t
        else:
            r = _node(b, restrict(x, a, val, memo), restrict(y, a, val, memo))
        memo[t] = r
    return r


def _node(a, hi, lo):
    if a.op == 'lt0':
        pos = mk('gt0', a.args[0])
        hi = restrict(hi, pos, False)
        if SIGNS[0] and hi is not lo and not is_bool(hi) and not is_bool(lo) and a.args[0].op not in ('poly', 'ite'):
            # a value which is the same at zero belongs to the neighbouring case
            z = {a.args[0]: ZERO}
            b, c = restrict(lo, pos, True), restrict(lo, pos, False)
            c0 = subst(c, z)
            if c0 is subst(b, z):
                lo = b
            elif c0 is subst(hi, z):
                lo = hi if b is hi else mk('ite', pos, b, hi)
            elif c0 is not c:
                lo = b if b is c0 else mk('ite', pos, b, c0)
    elif a.op == 'gt0' and hi is not lo and not (is_bool(hi) and is_bool(lo)) and natural(a.args[0]):
        # nothing special happens for an empty collection
        z = {a.args[0]: ZERO}
        if subst(hi, z) is subst(lo, z):
            return hi
    elif a.op == 'eq':
        x = eq_subject(a)
        if x is not None:
            # x equals at most one of several constants
            l = lo
            for b in _eqs.get(x, ()):
                if b is not a:
                    hi, l = restrict(hi, b, False), restrict(l, b, False)
            if hi is l:
                return lo
    if hi is lo:
        return hi
    return mk('ite', a, hi, lo)


_eqs = {}


def eq_subject(a):
    """x of x == constant, else None"""
    x, y = a.args
    if x.op == 'c' and y.op != 'c':
        return y
    if y.op == 'c' and x.op != 'c':
        return x
    return None


def natural(p):
    return p.op in ('len', 'dim', 'ndim') or is_counter(p) or is_count(p)


def is_count(p):
    """A property that reports how many of something there are"""
    if p.op != 'prop':
        return False
    name = p.args[0].rpartition('.')[2].lstrip('_')
    return name.startswith(('num_', 'n_')) or name in ('batch_size', 'len')


SIGNS = [False]


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    top = _tops((c, a, b))
    if top is None:
        raise ValueError('condition is not boolean: %r' % c)
    r = _node(top, ite(_br(c, top, 1), _br(a, top, 1), _br(b, top, 1)),
              ite(_br(c, top, 0), _br(a, top, 0), _br(b, top, 0)))
    _ite_memo[k] = r
    return r


def atom(a):
    """Boolean term from an atomic proposition (a sign is always read as negative / positive / zero)"""
    if a.op == 'gt0':
        return mk('ite', mk('lt0', a.args[0]), FALSE, mk('ite', a, TRUE, FALSE)) if may_be_negative(a.args[0]) else \
            mk('ite', a, TRUE, FALSE)
    return mk('ite', a, TRUE, FALSE)


def may_be_negative(p):
    return not (p.op == 'abs' or natural(p))


_bool_memo = {}


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op != 'ite':
        return False
    r = _bool_memo.get(t)
    if r is None:
        r = _bool_memo[t] = is_bool(t.args[1]) and is_bool(t.args[2])
    return r


def leafmap(t, f, memo=None):
    """Apply f to the leaves of a decision diagram (each shared node once)"""
    if t.op != 'ite':
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = ite(atom(t.args[0]), leafmap(t.args[1], f, memo), leafmap(t.args[2], f, memo))
    return r


def leaves(t):
    """Distinct leaves of a decision diagram"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            stack.extend((x.args[2], x.args[1]))
        else:
            out.append(x)
    return out


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


_care_memo = {}


def restrict_by(t, c):
    """Simplify t knowing that the condition c holds"""
    if not isinstance(t, T) or t.op != 'ite' or c is TRUE or c is FALSE:
        return t
    k = (t, c)
    r = _care_memo.get(k)
    if r is None:
        if t is c:
            r = TRUE
        else:
            a = _tops((t, c))
            c1, c0 = _br(c, a, 1), _br(c, a, 0)
            if c1 is FALSE:
                r = restrict_by(_br(t, a, 0), c0)
            elif c0 is FALSE:
                r = restrict_by(_br(t, a, 1), c1)
            elif t.args[0] is not a:
                r = restrict_by(t, ite(c1, TRUE, c0))
            else:
                r = _node(a, restrict_by(t.args[1], c1), restrict_by(t.args[2], c0))
        _care_memo[k] = r
    return r


_MISS = object()


def lifted(fn):
    """Apply fn to the condition-free leaves of its term arguments"""
    memo = {}

    def go(*args):
        top = _tops(args)
        if top is None:
            return fn(*args)
        k = tuple(_ik(a) for a in args)
        r = memo.get(k, _MISS)
        if r is not _MISS:
            return r
        hi = go(*[_br(a, top, 1) for a in args])
        lo = go(*[_br(a, top, 0) for a in args])
        r = ite(atom(top), hi, lo)
        memo[k] = r
        return r
    go.__name__ = fn.__name__
    return go


def op(name, *args):
    """Uninterpreted operator, lifted over conditions in its direct term arguments"""
    memo = {}

    def go(args):
        top = _tops([a for a in args if isinstance(a, T)])
        if top is None:
            return mk(name, *args)
        k = _ik(args)
        r = memo.get(k)
        if r is None:
            hi = go(tuple(_br(a, top, 1) if isinstance(a, T) else a for a in args))
            lo = go(tuple(_br(a, top, 0) if isinstance(a, T) else a for a in args))
            r = memo[k] = ite(atom(top), hi, lo)
        return r
    return go(args)


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if is_num(t):
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args[0]}
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def _divisors(d):
    out = []
    for m in d:
        for a, e in m:
            if e < 0 and a.op == 'poly' and a not in out:
                out.append(a)
    return out


def _reduce(d):
    """Reduce numerators over a polynomial denominator to their remainder (unique for each denominator)"""
    divs = sorted(_divisors(d), key=lambda t: t.key)
    if not divs:
        return d
    for a in divs:
        ms = {m: c for c, m in a.args[0]}
        if any(e < 0 or e.denominator != 1 for m in ms for _, e in m):
            continue
        atoms = sorted({x for m in ms for x, _ in m}, key=lambda t: t.key)

        def order(m):
            e = dict(m)
            return (sum(e.values()), tuple(e.get(x, 0) for x in atoms))
        lm = max(ms, key=order)
        lc = ms[lm]
        if not lm:
            continue
        for _ in range(300):
            hit = None
            for m in d:
                e = dict(m)
                if e.get(a, 0) < 0 and all(e.get(x, 0) >= k for x, k in lm):
                    hit = m
                    break
            if hit is None:
                break
            c = d.pop(hit)
            q = _mono_mul(hit, tuple((x, -k) for x, k in lm))
            c = c / lc
            up = _mono_mul(q, ((a, Fraction(1)),))
            d[up] = d.get(up, 0) + c
            for m, k in ms.items():
                if m != lm:
                    t = _mono_mul(q, m)
                    d[t] = d.get(t, 0) - c * k
            d = {m: c for m, c in d.items() if c != 0}
    return d


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    d = _reduce(d)
    big = [m for m in d if any(a.op == 'poly' and e > 0 and e.denominator == 1 for a, e in m)]
    for m in big:
        # a sum which regained a positive power is expanded again
        r = {tuple((a, e) for a, e in m if not (a.op == 'poly' and e > 0 and e.denominator == 1)): d[m]}
        n = 1
        for a, e in m:
            if a.op == 'poly' and e > 0 and e.denominator == 1:
                n *= len(a.args[0]) ** int(e)
        if n > MAX_EXPAND:
            continue
        for a, e in m:
            if a.op == 'poly' and e > 0 and e.denominator == 1:
                for _ in range(int(e)):
                    r2 = {}
                    for m1, c1 in r.items():
                        for c2, m2 in a.args[0]:
                            t = _mono_mul(m1, m2)
                            r2[t] = r2.get(t, 0) + c1 * c2
                    r = r2
        del d[m]
        for t, c in r.items():
            d[t] = d.get(t, 0) + c
    if big:
        d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda x: _mono_key(x[1]))
    return mk('poly', tuple(items))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


@lifted
def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'arr' or b.op == 'arr':
        r = map_arr(add, a, b)
        if r is not None:
            return r
    if a.op == 'store' or b.op == 'store':
        r = _store_arith(add, a, b)
        if r is not None:
            return r
    if a.op == 'full' or b.op == 'full':
        r = _full_arith(add, a, b)
        if r is not None:
            return r
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def sub(a, b):
    return add(a, neg(b))


def neg(a):
    return mul(const(-1), a)


@lifted
def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'arr' or b.op == 'arr':
        r = map_arr(mul, a, b)
        if r is not None:
            return r
    if a.op == 'store' or b.op == 'store':
        r = _store_arith(mul, a, b)
        if r is not None:
            return r
    if a.op == 'full' or b.op == 'full':
        r = _full_arith(mul, a, b)
        if r is not None:
            return r
    p, q = to_poly(a), to_poly(b)
    if len(p) > 1 and len(q) > 1 and len(p) * len(q) > MAX_EXPAND:
        ca, a1 = _lead(a)
        cb, b1 = _lead(b)
        return from_poly({_mono_mul(((a1, Fraction(1)),), ((b1, Fraction(1)),)): ca * cb})
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    # an atom which is itself a sum may have regained a positive power
    return from_poly(d)


def _lead(t):
    """Factor t = c * t' such that t' is monic"""
    if is_num(t):
        return t.args[0], ONE
    if t.op != 'poly':
        return Fraction(1), t
    c = t.args[0][0][0]
    return c, from_poly({m: k / c for k, m in t.args[0]})


@lifted
def recip(a):
    if is_num(a):
        if a.args[0] == 0:
            return mk('recip0')
        return const(1 / a.args[0])
    if a.op == 'full':
        return full(a.args[0], recip(a.args[1]))
    if a.op == 'arr':
        r = map_arr(recip, a)
        if r is not None:
            return r
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    c, a1 = _lead(a)
    # common factor of all terms
    p1 = to_poly(a1)
    ms = [dict(m) for m in p1]
    content = {}
    for x in {x for m in ms for x in m}:
        e = min(m.get(x, 0) for m in ms)
        if e != 0 and e.denominator == 1:
            content[x] = e
    if content:
        inv_c = tuple(sorted(((x, -e) for x, e in content.items()), key=lambda z: z[0].key))
        rest = from_poly({_mono_mul(m, inv_c): k for m, k in p1.items()})
        return mul(from_poly({inv_c: 1 / c}), recip(rest))
    return from_poly({((a1, Fraction(-1)),): 1 / c})


def div(a, b):
    return mul(a, recip(b))


def power(a, b):
    return _power(a, b)


@lifted
def _power(a, b):
    if is_num(b):
        k = b.args[0]
        if k.denominator == 1 and 0 <= k <= 4:
            r = ONE
            for _ in range(int(k)):
                r = mul(r, a)
            return r
        if k.denominator == 1 and -4 <= k < 0:
            return recip(_power(a, const(-k)))
        if k == Fraction(1, 2):
            return sqrt(a)
    return mk('pow', a, b)


@lifted
def sqrt(a):
    if is_num(a):
        from math import isqrt
        n, d = a.args[0].numerator, a.args[0].denominator
        if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return const(Fraction(isqrt(n), isqrt(d)))
        return mk('sqrtc', a)
    if a.op == 'arr':
        r = map_arr(sqrt, a)
        if r is not None:
            return r
    return from_poly({((a, Fraction(1, 2)),): Fraction(1)})


@lifted
def absv(a):
    if is_num(a):
        return const(abs(a.args[0]))
    if a.op == 'arr':
        r = map_arr(absv, a)
        if r is not None:
            return r
    c, a1 = _lead(a)
    if a1.op == 'abs':
        return mul(const(abs(c)), a1)
    return mul(const(abs(c)), mk('abs', a1))


@lifted
def exp(a):
    if a is ZERO:
        return ONE
    if a.op == 'arr':
        r = map_arr(exp, a)
        if r is not None:
            return r
    return mk('exp', a)


@lifted
def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
    return mk('floordiv', a, b)


@lifted
def mod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return const(a.args[0] % b.args[0])
    if is_num(b) and b.args[0] == 1:
        return ZERO
    return mk('mod', a, b)


def minmax(which, args):
    args = list(args)
    if args and all(is_num(a) for a in args):
        return const((min if which == 'min' else max)(a.args[0] for a in args))
    flat = []
    for a in args:
        if a.op == which:
            flat.extend(a.args)
        else:
            flat.append(a)
    flat = sorted(set(flat), key=lambda t: t.key)
    if len(flat) == 1:
        return flat[0]
    return op(which, *flat)


def is_scalar(t):
    """Known to be a single number (so it broadcasts over any array)"""
    if is_num(t) or t.op in ('len', 'dim', 'sum_over') or (t.op == 'bound' and t.args[0] < 900):
        return True
    if t.op == 'poly':
        return all(is_scalar(a) for _, m in t.args[0] for a, _ in m)
    if t.op in ('abs', 'exp', 'sqrt', 'min', 'max', 'floordiv', 'mod'):
        return all(is_scalar(a) for a in t.args)
    if t.op == 'ite':
        return all(is_scalar(x) for x in leaves(t))
    if t.typ is not None and t.typ.kind == 'any' and t.typ.args:
        # a number, or a keyword in its place
        return all(x.kind in ('int', 'float', 'str', 'bool') for x in t.typ.args)
    return t.typ is not None and t.typ.kind in ('int', 'float')


_fresh = [0]
INT_TYPE = [None]      # static type of counters, set by the front end


def is_counter(t):
    """Loop counters and their bound forms: natural numbers"""
    return (t.op == 'bound' and t.args[0] < 900) or (t.op == 'loop' and t.typ is not None and t.typ is INT_TYPE[0])


def fresh_loop(*tag):
    _fresh[0] += 1
    t = mk('loop', _fresh[0], *tag)
    if not tag or tag[0] == 'k':
        t.typ = INT_TYPE[0]
    return t


def arr(s):
    """Array built from the members of a sequence"""
    return op('arr', s)


def map_arr(f, *args):
    """Elementwise application when an operand is an array built from a known sequence"""
    lead = next(a for a in args if a.op == 'arr')
    s = lead.args[0]
    if s.op != 'seq':
        return None
    segs = []
    offset = ZERO
    for j, sg in enumerate(s.args):
        if sg.op == 'item':
            sym = None
            pos = offset
        elif sg.op == 'rep' and sg.args[1].op == 'seq' and len(sg.args[1].args) == 1 and \
                sg.args[1].args[0].op == 'item':
            sym = fresh_loop()
            pos = add(offset, sym)
        else:
            return None
        vals = []
        for a in args:
            if is_scalar(a):
                vals.append(a)
            elif a.op == 'arr':
                t = a.args[0]
                if t.op != 'seq' or len(t.args) != len(s.args):
                    return None
                tg = t.args[j]
                if tg.op != sg.op or (tg.op == 'rep' and tg.args[0] is not sg.args[0]):
                    return None
                if tg.op == 'item':
                    vals.append(tg.args[0])
                elif tg.args[1].op == 'seq' and len(tg.args[1].args) == 1 and tg.args[1].args[0].op == 'item':
                    vals.append(unbind(tg.args[1].args[0].args[0], tg.args[2], sym))
                else:
                    return None
            elif a.op == 'full':
                vals.append(a.args[1])
            else:
                vals.append(index(a, pos))
        r = f(*vals)
        if sym is None:
            segs.append(item(r))
            offset = add(offset, ONE)
        else:
            segs.append(rep(sg.args[0], sym, seq(item(r))))
            offset = add(offset, sg.args[0])
    return arr(seq(*segs))


def sum_over(n, sym, body):
    """sum of body(sym) for sym in 0..n-1, with invariant factors pulled out"""
    if n is ZERO:
        return ZERO

    @lifted
    def go(b):
        r = ZERO
        for m, c in to_poly(b).items():
            out, inn = [], []
            for a, e in m:
                (inn if sym in free_loop(a) else out).append((a, e))
            co = from_poly({tuple(out): c})
            if not inn:
                r = add(r, mul(co, n))
            else:
                bb, bv = bind(sym, from_poly({tuple(inn): Fraction(1)}))
                r = add(r, mul(co, mk('sum_over', n, bb, bv.args[0])))
        return r
    if body.op == 'ite' and sym in free_loop(body):
        # conditions which depend on the summation variable stay inside
        bb, bv = bind(sym, body)
        return mk('sum_over', n, bb, bv.args[0])
    return go(body)


def sum_seq(s):
    """Sum of the members of a sequence term, or None"""
    r = ZERO
    for sg in s.args:
        if sg.op == 'item':
            r = add(r, sg.args[0])
        elif sg.op == 'rep':
            sym = fresh_loop()
            b = unbind(sg.args[1], sg.args[2], sym)
            if b.op == 'ite':
                def inner(t):
                    if t.op == 'ite':
                        return leafmap(t, inner)
                    return sum_seq(t) if t.op == 'seq' else mk('sum', t)
                v = inner(b)
            elif b.op == 'seq':
                v = sum_seq(b)
            else:
                v = mk('sum', b)
            r = add(r, sum_over(sg.args[0], sym, v))
        else:
            r = add(r, total(sg.args[0]))
    return r


@lifted
def total(t):
    if t.op == 'seq':
        return sum_seq(t)
    if t.op == 'arr':
        return sum_seq(t.args[0]) if t.args[0].op == 'seq' else mk('sum', t.args[0])
    if t.op == 'tuple':
        r = ZERO
        for x in t.args:
            r = add(r, x)
        return r
    return mk('sum', t)


def full(shape, v):
    return op('full', shape, v)


def _full_arith(f, a, b):
    if a.op == 'full' and b.op == 'full' and a.args[0] is b.args[0]:
        return full(a.args[0], f(a.args[1], b.args[1]))
    if a.op == 'full' and is_scalar(b):
        return full(a.args[0], f(a.args[1], b))
    if b.op == 'full' and is_scalar(a):
        return full(b.args[0], f(a, b.args[1]))
    # broadcasting a constant array over an array operand (shapes taken to agree)
    if a.op == 'full' and not is_scalar(b) and is_scalar(a.args[1]):
        return f(a.args[1], b) if a.args[1] is not ZERO or f is add else None
    if b.op == 'full' and not is_scalar(a) and is_scalar(b.args[1]):
        return f(a, b.args[1]) if b.args[1] is not ZERO or f is add else None
    return None


def _store_arith(f, a, b):
    if a.op == 'store' and is_scalar(b):
        base, ix, v = a.args
        return store(f(base, b), ix, f(v, b))
    if b.op == 'store' and is_scalar(a):
        base, ix, v = b.args
        return store(f(a, base), ix, f(a, v))
    return None


@lifted
def store(base, ix, v):
    if base.op == 'store' and base.args[1] is ix:
        base = base.args[0]
    return mk('store', base, ix, v)


# ---------------------------------------------------------------- comparisons
def _numeric(t):
    if is_num(t) or t.op in ('poly', 'len', 'dim', 'abs', 'exp', 'min', 'max', 'sum_over', 'floordiv', 'mod'):
        return True
    if t.op == 'ite':
        return all(_numeric(x) for x in leaves(t))
    return t.typ is not None and t.typ.kind in ('int', 'float')


def _nat(m):
    return all((a.op == 'abs' or natural(a)) and e > 0 for a, e in m)


def _extremum(p):
    """rest + k*max(xs) or rest + k*min(xs), if there is exactly one such term"""
    if p.op in ('max', 'min'):
        return p.op, ZERO, 1, p.args
    if p.op != 'poly':
        return None
    found = None
    for k, m in p.args[0]:
        if any(a.op in ('max', 'min') for a, _ in m):
            if found is not None or len(m) != 1 or m[0][1] != 1 or len(m[0][0].args) > 8:
                return None
            found = (m[0][0], k)
    if found is None:
        return None
    a, k = found
    return a.op, sub(p, mul(const(k), a)), k, a.args


@lifted
def _lt0(p):
    if is_num(p):
        return TRUE if p.args[0] < 0 else FALSE
    ex = _extremum(p)
    if ex is not None:
        # the least of several is negative when one of them is
        which, rest, k, xs = ex
        if (which == 'min') == (k > 0):
            return b_or(*[_lt0(add(rest, mul(const(k), x))) for x in xs])
        return b_and(*[_lt0(add(rest, mul(const(k), x))) for x in xs])
    c, q = _lead(p)
    if q.op == 'poly' and len(q.args[0]) == 1 and is_scalar(q):
        m = q.args[0][0][1]
        if len(m) <= 4 and all(e.denominator == 1 for _, e in m) and (len(m) > 1 or m[0][1] != 1):
            # sign of a product from the signs of its factors
            npos, nneg = (TRUE, FALSE) if c > 0 else (FALSE, TRUE)
            for x, e in m:
                xp, xn = _lt0(neg(x)), _lt0(x)
                if e % 2 == 0:
                    xp, xn = b_or(xp, xn), FALSE
                npos, nneg = b_or(b_and(npos, xp), b_and(nneg, xn)), b_or(b_and(npos, xn), b_and(nneg, xp))
            return nneg
    if q.op == 'exp' and is_scalar(q):
        return FALSE if c > 0 else TRUE
    if natural(q):
        return FALSE if c > 0 else atom(mk('gt0', q))
    if q.op == 'poly' and all(_nat(m) and k * c >= 0 for k, m in q.args[0]) and c > 0:
        return FALSE
    return atom(mk('lt0' if c > 0 else 'gt0', q))


def lt(a, b):
    return _lt0(sub(a, b))


def le(a, b):
    return b_not(lt(b, a))


@lifted
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] == b.args[0] and isinstance(a.args[0], bool) == isinstance(b.args[0], bool) else FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return b_and(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if _numeric(a) or _numeric(b):
        if not (is_str(a) or is_str(b)):
            d = sub(a, b)
            return b_and(b_not(_lt0(d)), b_not(_lt0(neg(d))))
        return FALSE
    a, b = sorted((a, b), key=lambda t: t.key)
    r = mk('eq', a, b)
    x = eq_subject(r)
    if x is not None:
        _eqs.setdefault(x, {})[r] = True
    return atom(r)


# ---------------------------------------------------------------- linear algebra
@lifted
def transpose(a):
    if a.op == 'T':
        return a.args[0]
    if a.op == 'mm':
        return _mm_chain([transpose(x) for x in reversed(a.args)])
    if a.op in ('diagm', 'eye') or is_scalar(a):
        return a
    if a.op == 'inv':
        return inv(transpose(a.args[0]))
    if a.op == 'poly':
        r = ZERO
        for c, m in a.args[0]:
            t = const(c)
            for x, e in m:
                t = mul(t, from_poly({((transpose(x), e),): Fraction(1)}) if e != 1 else transpose(x))
            r = add(r, t)
        return r
    if a.op == 'ntup':
        return a
    return mk('T', a)


def _split_scalar(a):
    """a = s * a' with s scalar"""
    if a.op == 'poly' and len(a.args[0]) == 1:
        c, m = a.args[0][0]
        s = {(): c}
        sc = tuple((x, e) for x, e in m if is_scalar(x))
        rest = tuple((x, e) for x, e in m if not is_scalar(x))
        if rest:
            return from_poly({sc: c}), from_poly({rest: Fraction(1)})
    elif a.op == 'poly':
        c, a1 = _lead(a)
        return const(c), a1
    return ONE, a


def _mm_chain(fs):
    flat = []
    s = ONE
    for f in fs:
        k, f = _split_scalar(f)
        s = mul(s, k)
        if f.op == 'mm':
            flat.extend(f.args)
        elif f.op == 'eye':
            continue
        else:
            flat.append(f)
    # cancel adjacent inverses
    i = 0
    while i + 1 < len(flat):
        a, b = flat[i], flat[i + 1]
        if (a.op == 'inv' and a.args[0] is b) or (b.op == 'inv' and b.args[0] is a):
            del flat[i:i + 2]
            i = max(0, i - 1)
        else:
            i += 1
    if not flat:
        return mul(s, mk('eye', const('?')))
    if len(flat) == 1:
        return mul(s, flat[0])
    return mul(s, mk('mm', *flat))


@lifted
def matmul(a, b):
    return _mm_chain([a, b])


@lifted
def inv(a):
    if a.op == 'inv':
        return a.args[0]
    return mk('inv', a)


@lifted
def diagm(a):
    """np.diag of a vector or of a matrix (the operand decides, exactly as numpy does)"""
    return mk('diagm', a)


# ---------------------------------------------------------------- binders
_free_memo = {}


def free_loop(t):
    """Set of loop symbols free in t"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            r = frozenset()
            for x in t:
                r |= free_loop(x)
            return r
        return frozenset()
    if t._free is None:
        if t.op == 'loop':
            t._free = frozenset((t,))
        else:
            r = frozenset()
            for x in t.args:
                r |= free_loop(x)
            t._free = r
    return t._free


def height(t):
    if isinstance(t, tuple):
        return max([height(x) for x in t], default=0)
    if not isinstance(t, T):
        return 0
    if t._h is None:
        if t.op in ('bound', 'pbound'):
            t._h = t.args[0] if t.args[0] < 900 else 0
        elif t.op in BINDERS:
            t._h = max([t.args[2] + BINDERS[t.op](t) - 1] + [height(x) for x in t.args])
        else:
            t._h = max([height(x) for x in t.args], default=0)
    return t._h


# binders: (count, body, height, ...): the body refers to bound(height); a fold also binds its accumulators
BINDERS = {'rep': lambda t: 1, 'sum_over': lambda t: 1, 'exists': lambda t: 1, 'scatter': lambda t: 1,
           'maxover': lambda t: 1, 'minover': lambda t: 1, 'fold': lambda t: 1 + len(t.args[3])}


def open_binder(t):
    """Fresh variables and the body of a binder over them"""
    h = t.args[2]
    k = fresh_loop('k')
    m = {mk('bound', h): k}
    phis = []
    if t.op == 'fold':
        for i, x in enumerate(t.args[3]):
            p = fresh_loop('phi')
            old = mk('pbound', h + 1 + i)
            p.typ = old.typ or x.typ
            phis.append(p)
            m[old] = p
    return k, phis, subst(t.args[1], m)


def close_binder(t, n, k, phis, body, rest):
    o = t.op
    if o == 'rep':
        return rep(n, k, body)
    if o == 'sum_over':
        return sum_over(n, k, body)
    if o == 'exists':
        return exists_body(n, k, body)
    if o == 'fold':
        return fold(n, k, phis, body, rest[0])
    b, bv = bind(k, body)
    return mk(o, n, b, bv.args[0], *rest)


def exists_body(n, k, body):
    return mk('exists', n, *_bind2(k, body))


def _bind2(k, body):
    b, bv = bind(k, body)
    return b, bv.args[0]


def exists(n, k, g):
    """Condition: g holds for some k in 0..n-1"""
    if g is FALSE:
        return FALSE
    if k not in free_loop(g):
        return b_and(b_not(eq(n, ZERO)), g)
    outer = TRUE
    # conjuncts free of k come out
    while g.op == 'ite' and k not in free_loop(g.args[0]) and (g.args[1] is FALSE or g.args[2] is FALSE):
        if g.args[2] is FALSE:
            outer = b_and(outer, atom(g.args[0]))
            g = g.args[1]
        else:
            outer = b_and(outer, b_not(atom(g.args[0])))
            g = g.args[2]
    if g is TRUE:
        return b_and(outer, b_not(eq(n, ZERO)))
    return b_and(outer, atom(exists_body(n, k, mk('cond', g))))


def fold(n, k, phis, bodies, inits):
    """State of a recurrence after n rounds"""
    h = max([height(bodies)] + [height(x) for x in inits]) + 1
    m = {k: mk('bound', h)}
    for i, p in enumerate(phis):
        b = mk('pbound', h + 1 + i)
        b.typ = p.typ
        m[p] = b
    return mk('fold', n, subst(tuple(bodies), m), h, tuple(inits))


_subst_memo = {}


def rebuild(t, args):
    """Rebuild a node with new arguments through the canonical constructors"""
    o = t.op
    if o == 'poly':
        r = ZERO
        for c, m in args[0]:
            x = const(c)
            for a, e in m:
                if e == 1:
                    x = mul(x, a)
                elif e == Fraction(1, 2):
                    x = mul(x, sqrt(a))
                elif e.denominator == 1 and e < 0:
                    x = mul(x, recip(_power(a, const(-e))))
                elif e.denominator == 1:
                    x = mul(x, _power(a, const(e)))
                else:
                    x = mul(x, from_poly({((a, e),): Fraction(1)}))
            r = add(r, x)
        return r
    if o == 'ite':
        return ite(_rebool(args[0]), args[1], args[2])
    if o in ('lt0', 'gt0', 'eq'):
        return mk('_raw', mk(o, *args)) if False else mk(o, *args)
    fn = REBUILD.get(o)
    if fn is not None:
        return fn(*args)
    return op(o, *args)


def _rebool(a):
    """atom (possibly with changed operands) to a boolean"""
    if is_bool(a):
        return a
    if a.op == 'lt0':
        return _lt0(a.args[0])
    if a.op == 'gt0':
        return _lt0(neg(a.args[0]))
    if a.op == 'eq':
        return eq(*a.args)
    if a.op == 'exists' and a.args[1].op != 'cond':
        return b_and(b_not(eq(a.args[0], ZERO)), a.args[1]) if is_bool(a.args[1]) else atom(a)
    if a.op == 'exists':
        k, _, b = open_binder(a)
        return exists(a.args[0], k, b.args[0])
    if a.op == 'isnone':
        return isnone(a.args[0])
    if a.op == 'truth':
        return truth(a.args[0])
    fl = [x for x in a.args if isinstance(x, T)]
    if _tops(fl) is not None:
        r = op(a.op, *a.args)

        def fix(t):
            if t.op == 'ite':
                return leafmap(t, fix)
            return _rebool(t) if t not in (TRUE, FALSE) else t
        return fix(r)
    return atom(a)


def subst(t, m, memo=None):
    """Simultaneous substitution of subterms (map T->T), rebuilding canonically"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        na = tuple(_subst(x, m, memo) for x in t.args)
        if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(na, t.args)):
            r = t
        elif t.op in BINDERS and na[1] is not t.args[1] and na[1] != t.args[1]:
            k, phis, body = open_binder(t)
            r = close_binder(t, na[0], k, phis, subst(body, m), na[3:])
        elif t.op in BINDERS:
            k, phis, body = open_binder(t)
            r = close_binder(t, na[0], k, phis, body, na[3:])
        else:
            r = rebuild(t, na)
            if r.typ is None and r.op == t.op:
                r.typ = t.typ
        memo[t] = r
    return r


def bind(loopsym, body):
    """Replace a loop symbol by a height-indexed bound variable (alpha-canonical)"""
    h = height(body) + 1
    b = mk('bound', h)
    return subst(body, {loopsym: b}), b


@lifted
def isnone(t):
    if t is NONE:
        return TRUE
    if t.op in NEVER_NONE or (t.typ is not None and not t.typ.opt and t.typ.kind in ('int', 'float', 'arr', 'cls', 'str', 'bool', 'seq',
                                                                  'tuple', 'ext', 'dict', 'set')):
        return FALSE
    if t.op == 'call' and isinstance(t.args[0], str) and t.args[0].split('.')[-1][:1].isupper():
        return FALSE                                  # an object of a library class
    if t.op in ('index', 'mcall') and HANDLE[0] is not None and HANDLE[0](t):
        return FALSE                                  # a member of a file
    return atom(mk('isnone', t))


HANDLE = [None]
NEVER_NONE = {'c', 'poly', 'obj', 'with', 'seq', 'tuple', 'exp', 'abs', 'mm', 'full', 'store', 'concat', 'T', 'diagm',
              'sum', 'inv', 'ndarr', 'dict', 'map', 'len', 'dim', 'sum_over', 'blockdiag', 'eye', 'chol', 'hcat', 'vcat',
              'arr', 'outer', 'minover', 'maxover', 'fmt', 'repeat', 'tile', 'linspace', 'sqrtc', 'cls', 'func', 'meth', 'lam'}


@lifted
def truth(t):
    if t.op == 'c':
        v = t.args[0]
        return TRUE if v else FALSE
    if t is TRUE or t is FALSE:
        return t
    if t.op == 'seq':
        if any(s.op == 'item' for s in t.args):
            return TRUE
        if not t.args:
            return FALSE
        return b_not(eq(length(t), ZERO))
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.typ is not None and t.typ.kind == 'seq':
        return b_not(eq(length(t), ZERO))
    if t.typ is not None and t.typ.kind in ('int', 'float') or t.op in ('poly', 'len', 'dim'):
        return b_not(eq(t, ZERO))
    if t.op in ('obj', 'with'):
        return TRUE
    return atom(mk('truth', t))


# ---------------------------------------------------------------- sequences
# seq(segment, ...): segment = item(v) | rep(n, bound, seq) | splice(seqterm) | alt(cond-ite of seqs is lifted)
def seq(*segs):
    out = []
    for s in segs:
        if s.op == 'splice' and s.args[0].op == 'seq':
            out.extend(s.args[0].args)
        elif s.op == 'splice' and s.args[0].op == 'tuple':
            out.extend(mk('item', x) for x in s.args[0].args)
        elif s.op == 'rep' and (s.args[0] is ZERO or s.args[1].op == 'seq' and not s.args[1].args):
            continue
        else:
            out.append(s)
    top = None
    for i, s in enumerate(out):
        if s.op in ('item', 'splice') and s.args[0].op == 'ite':
            pass
    if len(out) == 1 and out[0].op == 'splice':
        return out[0].args[0]
    # rep(len(xs), item(xs[i]))  ==  xs
    if len(out) == 1 and out[0].op == 'rep':
        n, body = out[0].args[0], out[0].args[1]
        if n.op == 'len' and body.op == 'seq' and len(body.args) == 1 and body.args[0].op == 'item':
            e = body.args[0].args[0]
            if e.op == 'index' and e.args[0] is n.args[0] and e.args[1] is mk('bound', out[0].args[2]):
                return n.args[0]
    return mk('seq', *out)


def item(v):
    return mk('item', v)


def splice(s):
    if s.op == 'ite':
        return mk('splice', s)
    return mk('splice', s)


def seq_concat(a, b):
    @lifted
    def f(x, y):
        xs = x.args if x.op == 'seq' else ((splice(x),) if x.op != 'tuple' else tuple(item(v) for v in x.args))
        ys = y.args if y.op == 'seq' else ((splice(y),) if y.op != 'tuple' else tuple(item(v) for v in y.args))
        return seq(*xs, *ys)
    return f(a, b)


def rep(n, sym, body):
    """Segment repeating the sequence `body` for sym in 0..n-1"""
    body, b = bind(sym, body)
    return mk('rep', n, body, b.args[0])


@lifted
def length(t):
    if t.op == 'tuple':
        return const(len(t.args))
    if is_str(t):
        return const(len(t.args[0]))
    if t.op == 'seq':
        r = ZERO
        for s in t.args:
            if s.op == 'item':
                r = add(r, ONE)
            elif s.op == 'splice':
                r = add(r, length(s.args[0]))
            elif s.op == 'rep' and s.args[1].op == 'seq' and all(x.op == 'item' for x in s.args[1].args):
                r = add(r, mul(s.args[0], const(len(s.args[1].args))))
            else:
                return mk('len', t)
        return r
    if t.op == 'range':
        a, b, st = t.args
        if st is ONE:
            return sub(b, a)
    if t.op == 'dict':
        return const(len(t.args))
    if t.op == 'arr':
        return length(t.args[0])
    if t.op == 'full' and t.args[0].op == 'tuple' and t.args[0].args:
        return t.args[0].args[0]
    return mk('len', t)


@lifted
def counting(i):
    """A position counted from the front: a number >= 0, a loop counter, or a sum of those"""
    if is_num(i):
        return i.args[0] >= 0
    if i.op in ('loop', 'bound'):
        return True
    return i.op == 'poly' and all(c >= 0 and all(a.op in ('loop', 'bound') for a, _ in m) for c, m in i.args[0])


def index(t, i):
    """t[i] for a single index along the first dimension"""
    if t.op == 'tuple' and is_num(i):
        k = int(i.args[0])
        if -len(t.args) <= k < len(t.args):
            return t.args[k]
    if t.op == 'seq':
        if is_num(i):
            k = int(i.args[0])
            if k >= 0:
                n = 0
                for s in t.args:
                    if s.op != 'item':
                        break
                    if n == k:
                        return s.args[0]
                    n += 1
            else:
                n = -1
                for s in reversed(t.args):
                    if s.op != 'item':
                        break
                    if n == k:
                        return s.args[0]
                    n -= 1
        if len(t.args) == 1 and t.args[0].op == 'rep':
            body = t.args[0].args[1]
            if body.op == 'seq' and len(body.args) == 1 and body.args[0].op == 'item':
                return unbind(body.args[0].args[0], t.args[0].args[2], i)
        if all(s.op == 'item' for s in t.args) and t.args and free_loop(i):
            pass
    if t.op == 'range':
        a, b, st = t.args
        return add(a, mul(st, i))
    if t.op == 'store' and is_num(i):
        base, ix, v = t.args
        if ix is i:
            return v
        if is_num(ix) and (ix.args[0] >= 0) == (i.args[0] >= 0):
            return index(base, i)
    if t.op == 'full' and t.args[0].op in ('tuple',) and len(t.args[0].args) == 1:
        return t.args[1]
    if t.op == 'dict' and t.args:
        for kv in t.args:
            if kv.args[0] is i:
                return kv.args[1]
    if t.op == 'arr':
        r = index(t.args[0], i)
        if r.op != 'index' or r.args[0] is not t.args[0]:
            return r
    if t.op == 'index' and t.args[1].op == 'slice':
        a, b, c = t.args[1].args
        if b is NONE and c is NONE and is_num(a) and a.args[0] >= 0 and counting(i):
            return index(t.args[0], add(a, i))
    r = mk('index', t, i)
    if r.typ is None and t.typ is not None:
        if t.typ.kind == 'seq' and t.typ.args:
            r.typ = t.typ.args[0]
        elif t.typ.kind == 'tuple' and is_num(i) and -len(t.typ.args) <= int(i.args[0]) < len(t.typ.args):
            r.typ = t.typ.args[int(i.args[0])]
    return r


def free_loop_in_id(interp, i, k):
    """The cell belongs to a value which depends on the loop counter (fresh in every iteration)"""
    if any(isinstance(x, T) and k in free_loop(x) for x in i):
        return True
    c = interp.init.get(i)
    for a in ('v', 'base'):
        t = getattr(c, a, None)
        if isinstance(t, T) and k in free_loop(t):
            return True
    return False


def unbind(body, h, value):
    """Instantiate bound variable of height h by value"""
    return subst(body, {mk('bound', h): value})


def fld(base, name):
    return _fld(base, name)


@lifted
def _fld(base, name):
    if base.op == 'obj':
        for kv in base.args[1]:
            if kv[0] == name:
                return kv[1]
    if base.op == 'with':
        for kv in base.args[1]:
            if kv[0] == name:
                return kv[1]
        return _fld(base.args[0], name)
    return mk('fld', base, name)


REBUILD = {
    'cond': lambda t: mk('cond', t), 'item': lambda t: mk('item', t), 'splice': lambda t: mk('splice', t),
    'lam': lambda *a: mk('lam', *a), 'tuple': lambda *a: mk('tuple', *a),
    'fld': fld, 'index': index, 'len': length, 'mm': lambda *a: _lift_chain(a), 'T': transpose, 'inv': inv,
    'abs': absv, 'exp': exp, 'full': full, 'store': store, 'seq': seq,
    'min': lambda *a: minmax('min', a), 'max': lambda *a: minmax('max', a),
    'floordiv': floordiv, 'mod': mod, 'pow': lambda a, b: power(a, b),
}


def _lift_chain(a):
    r = a[0]
    for x in a[1:]:
        r = matmul(r, x)
    return r


# ---------------------------------------------------------------- conditions and repetition
def _mentions_bound(t, h):
    return any(x.op == 'bound' and x.args[0] == h for x in walk(t))


def hoist(t, memo=None):
    """Final form: conditions stand outside every repetition they do not depend on"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(hoist(x, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'seq':
        r = _hoist_seq(t, memo)
    elif t.op == 'sum_over':
        k, _, body = open_binder(t)
        n, body = hoist(t.args[0], memo), hoist(body, memo)
        r = _lift_invariant([(n, k, body)], lambda bs: sum_over(n, k, bs[0]))
    elif t.op in BINDERS:
        k, phis, body = open_binder(t)
        r = close_binder(t, hoist(t.args[0], memo), k, phis, hoist(body, memo), hoist(t.args[3:], memo))
    elif not t.args:
        r = t
    else:
        na = tuple(hoist(x, memo) for x in t.args)
        if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t, na)
            if r.typ is None and r.op == t.op:
                r.typ = t.typ
    memo[t] = r
    return r


def _invariant_top(bodies):
    """First condition, in diagram order, that does not depend on the counter of its body"""
    best = None
    for k, b in bodies:
        stack, seen = [b], set()
        while stack:
            x = stack.pop()
            if x.op != 'ite' or x in seen:
                continue
            seen.add(x)
            a = x.args[0]
            if (k is None or k not in free_loop(a)) and (best is None or atom_order(a) < atom_order(best)):
                best = a
            stack.extend(x.args[1:])
    return best


def _lift_invariant(parts, build, depth=0):
    a = _invariant_top([(k, b) for _, k, b in parts])
    if a is None or depth > 8:
        return build([b for _, _, b in parts])

    def side(v):
        def cut(b):
            b = restrict(b, a, v)
            if v and a.op == 'lt0':
                b = restrict(b, mk('gt0', a.args[0]), False)
            return b
        return _lift_invariant([(n, k, cut(b)) for n, k, b in parts], build, depth + 1)
    return ite(atom(a), side(True), side(False))


def _hoist_seq(t, memo):
    parts = []
    for sg in t.args:
        if sg.op == 'item':
            parts.append(('item', None, hoist(sg.args[0], memo)))
        elif sg.op == 'splice':
            parts.append(('splice', None, hoist(sg.args[0], memo)))
        elif sg.op == 'rep':
            k, _, body = open_binder(sg)
            parts.append((hoist(sg.args[0], memo), k, hoist(body, memo)))
        else:
            return t

    def build(bs):
        out = []
        for (n, k, _), b in zip(parts, bs):
            if k is not None:
                out.append(rep(n, k, b))
            else:
                out.append(mk(n, b))
        return seq(*out)
    return _lift_invariant(parts, build)


# ---------------------------------------------------------------- sign domain
NEG, ZER, POS = 1, 2, 4


def _sign_of(t, facts):
    """Possible signs of a term under the known signs of other terms"""
    if is_num(t):
        v = t.args[0]
        return NEG if v < 0 else POS if v > 0 else ZER
    s = facts.get(t, NEG | ZER | POS)
    if natural(t) or t.op == 'abs':
        s &= ZER | POS
    if t.op == 'exp':
        s &= POS
    if t.op == 'poly':
        r = 0
        for c, m in t.args[0]:
            q = NEG if c < 0 else POS
            for a, e in m:
                if e.denominator != 1:
                    q = _smul(q, POS | ZER)
                    continue
                x = _sign_of(a, facts)
                if e < 0:
                    x &= ~ZER
                if e % 2 == 0:
                    x = (x & ZER) | (POS if x & (NEG | POS) else 0)
                q = _smul(q, x)
            r = _sadd(r, q) if r else q
        s &= r
    return s


def _smul(a, b):
    r = 0
    if (a | b) & ZER and (a & ZER or b & ZER):
        r |= ZER
    if a & NEG and b & NEG or a & POS and b & POS:
        r |= POS
    if a & NEG and b & POS or a & POS and b & NEG:
        r |= NEG
    return r


def _sadd(a, b):
    r = 0
    for x in (NEG, ZER, POS):
        for y in (NEG, ZER, POS):
            if a & x and b & y:
                if x == y or y == ZER:
                    r |= x
                elif x == ZER:
                    r |= y
                else:
                    r |= NEG | ZER | POS
    return r


def prune(t, budget=20000, at_leaf=None):
    """Remove branches of a decision diagram whose sign conditions contradict each other

    ``at_leaf(leaf, zero)`` may replace a leaf given the quantities known to be zero there
    """
    count = [0]
    memo = {}
    sup = {}

    def support(x):
        r = sup.get(x)
        if r is None:
            if x.op != 'ite':
                r = frozenset()
            else:
                r = support(x.args[1]) | support(x.args[2])
                a = x.args[0]
                if a.op in ('lt0', 'gt0'):
                    r = r | {a.args[0]} | {y for y in walk(a.args[0]) if y.op not in ('c',)}
            sup[x] = r
        return r

    def ok(facts, changed):
        # a sum of known sign bounds the sign of each of its terms
        for _ in range(3):
            more = False
            for p in list(facts):
                if p.op != 'poly' or len(p.args[0]) > 6:
                    continue
                for j, (c, m) in enumerate(p.args[0]):
                    if len(m) != 1 or m[0][1] != 1:
                        continue
                    x = m[0][0]
                    r = facts[p]
                    for i, (c2, m2) in enumerate(p.args[0]):
                        if i != j:
                            r = _sadd(r, _sign_of(neg(from_poly({m2: c2})), facts))
                    s = _smul(NEG if c < 0 else POS, r)
                    old = _sign_of(x, facts)
                    if old & s != old:
                        facts[x] = old & s
                        if not old & s:
                            return False
                        more = True
            if not more:
                break
        for p in facts:
            if not _sign_of(p, facts):
                return False
        return True

    def go(x, facts):
        if x.op != 'ite':
            if at_leaf is None:
                return x
            return at_leaf(x, {p: ZERO for p, v in facts.items() if v == ZER and p.op not in ('poly', 'ite')})
        count[0] += 1
        if count[0] > budget:
            raise TooBig('too many sign cases')
        su = support(x)
        k = (x, frozenset((p, s) for p, s in facts.items()))
        r = memo.get(k)
        if r is not None:
            return r
        a, hi, lo = x.args
        if a.op not in ('lt0', 'gt0'):
            h, l = go(hi, facts), go(lo, facts)
            r = h if l is None else l if h is None else _node(a, h, l)
        else:
            p = a.args[0]
            cur = _sign_of(p, facts)
            bit = NEG if a.op == 'lt0' else POS
            h = l = None
            if cur & bit:
                f = dict(facts)
                f[p] = cur & bit
                if ok(f, p):
                    h = go(hi, f)
            if cur & ~bit:
                f = dict(facts)
                f[p] = cur & ~bit
                if ok(f, p):
                    l = go(lo, f)
            r = h if l is None else l if h is None else _node(a, h, l)
        if r is not None:
            memo[k] = r
        return r
    try:
        return go(t, {}) or t
    except TooBig:
        return t


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'c':
        v = a[0]
        if isinstance(v, Fraction):
            return str(v) if v.denominator == 1 or len(str(v)) < 12 else repr(float(v))
        return repr(v)
    if o == 'sym':
        return a[0]
    if o == 'fld':
        return show(a[0], depth) + '.' + a[1]
    if o == 'poly':
        out = []
        for c, m in a[0]:
            fs = []
            for x, e in m:
                s = show(x, d)
                if x.op in ('poly', 'ite'):
                    s = '(' + s + ')'
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            cs = '' if (c == 1 and fs) else ('-' if c == -1 and fs else show(const(c)) + ('*' if fs else ''))
            out.append(cs + '*'.join(fs))
        return ' + '.join(out).replace('+ -', '- ')
    if o == 'ite':
        return 'if[%s](%s else %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == 'lt0':
        return show(a[0], d) + ' < 0'
    if o == 'gt0':
        return show(a[0], d) + ' > 0'
    if o == 'isnone':
        return show(a[0], d) + ' is None'
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'index':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if o == 'seq':
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    if o == 'item':
        return show(a[0], depth)
    if o == 'rep':
        return '*for #%d<%s: %s' % (a[2], show(a[0], d), show(a[1], d))
    if o == 'bound':
        return '#%d' % a[0]
    if o == 'mm':
        return ' @ '.join(('(%s)' if x.op in ('poly', 'ite') else '%s') % show(x, d) for x in a)
    if o == 'T':
        return show(a[0], d) + '.T'
    if o in ('obj', 'with'):
        return '%s{%s}' % (show(a[0], d), ', '.join('%s=%s' % (k, show(v, d)) for k, v in a[1]))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))


def walk(t, seen=None):
    """All distinct subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
