"""Meaning of the library operations the package uses: Python builtins and containers, numpy, pandas, h5py.

Every function returns a canonical term (or a reference to an abstract cell); operations that are not modelled
become uninterpreted applications, and constructs that cannot be followed are recorded as unknown.
"""
import ast
import builtins as _b

from . import terms as tm
from .terms import (mk, const, ite, TRUE, FALSE, NONE, ZERO, ONE, b_not, b_and, b_or, atom, T, seq, item, splice,
                    is_num, is_str, cval, lifted, op, is_bool)
from .front import Ty, ANY, INT, FLOAT, STR, BOOL, ARR

BUILTINS = set(dir(_b))


def _I():
    from . import interp
    return interp


FULL = mk('slice', ZERO, NONE, NONE)

ALIASES = {
    'numpy.absolute': 'numpy.abs', 'numpy.concat': 'numpy.concatenate', 'numpy.divide': 'numpy.true_divide',
    'math.fabs': 'numpy.abs', 'math.exp': 'numpy.exp', 'math.sqrt': 'numpy.sqrt', 'math.log': 'numpy.log',
    'numpy.power': 'numpy.power', 'math.pow': 'numpy.power', 'numpy.linalg.multi_dot': 'numpy.linalg.multi_dot',
    'math.isfinite': 'numpy.isfinite', 'math.isnan': 'numpy.isnan', 'math.isclose': 'numpy.isclose',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'builtins.pow': 'numpy.power', 'numpy.inner': 'numpy.inner',
    'scipy.linalg.inv': 'numpy.linalg.inv', 'scipy.linalg.pinv': 'numpy.linalg.pinv',
    'scipy.linalg.svd': 'numpy.linalg.svd', 'numpy.row_stack': 'numpy.vstack', 'numpy.permute_dims': 'numpy.transpose',
    'numpy.matrix_transpose': 'numpy.transpose', 'numpy.linalg.matmul': 'numpy.matmul',
    'numpy.linalg.diagonal': 'numpy.diagonal',
}


def ext_value(interp, name):
    for long in ('numpy.newaxis',):
        if name == long:
            return NONE
    if name in ('numpy.inf', 'math.inf', 'numpy.Inf'):
        return mk('inf')
    if name in ('numpy.nan', 'math.nan', 'numpy.NaN'):
        return mk('nan')
    return mk('ext', ALIASES.get(name, name))


# ---------------------------------------------------------------- small helpers
def unk_if(interp, v, node=None):
    return v


def typed(t, ty):
    if isinstance(t, T) and t.op != 'ite' and t.typ is None and ty is not None:
        t.typ = ty
    return t


def pull(names, args, kwargs):
    d = dict(zip(names, args))
    for k, v in kwargs.items():
        if k != '**':
            d[k] = v
    return d


def as_cond(t):
    """Boolean term used as a value without splitting the surrounding expression"""
    return mk('cond', t)


def uncond(t):
    return t.args[0] if t.op == 'cond' else t


def num_of_bool(t):
    """Booleans used in arithmetic count as 1 and 0"""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == 'ite' and is_bool(t):
        return ite(t, ONE, ZERO)
    if t.op == 'cond':
        return ite(t.args[0], ONE, ZERO)
    return t


def is_handle(t):
    """Object of an external library with state of its own (files, groups, data sets)"""
    if t.op == 'ite':
        return is_handle(t.args[1]) or is_handle(t.args[2])
    if t.typ is not None and t.typ.kind == 'ext' and t.typ.args[0].split('.')[0] in ('h5py', 'tables'):
        return True
    if t.typ is not None and t.typ.kind == 'any' and any(
            x.kind == 'ext' and x.args[0].split('.')[0] == 'h5py' for x in t.typ.args if isinstance(x, Ty)):
        return True
    if t.op == 'call' and isinstance(t.args[0], str) and t.args[0].split('.')[0] == 'h5py':
        return True
    if t.op == 'mcall' and t.args[0] in ('create_group', 'create_dataset', 'require_group', 'require_dataset', 'get'):
        return is_handle(t.args[2])
    if t.op in ('index', 'attr') and isinstance(t.args[0], T):
        return is_handle(t.args[0])
    return False


tm.HANDLE[0] = is_handle


def resource(e):
    """Path of the thing in a file which an event changes, or None"""
    if e.op == 'setitem':
        h, last = e.args[0], []
        if h.op == 'attr' and h.args[1] == 'attrs':
            h, last = h.args[0], [mk('attr', 'attrs'), e.args[1]]
    elif e.op == 'mcall' and e.args[0] == 'resize':
        h, last = e.args[2], []
    elif e.op == 'mcall' and e.args[0] in ('create_dataset', 'create_group') and len(e.args) > 3:
        h, last = e.args[2], [e.args[3]]
    else:
        return None
    path = []
    while True:
        if h.op == 'index':
            path.append(h.args[1])
            h = h.args[0]
        elif h.op == 'mcall' and h.args[0] in ('create_group', 'get', 'require_group') and len(h.args) > 3:
            path.append(h.args[3])
            h = h.args[2]
        else:
            break
    if not is_handle(h):
        return None
    return [h] + path[::-1] + last


def independent(p, q):
    """Events on these two things can be exchanged"""
    if p is None or q is None or p[0] is not q[0]:
        return False
    for x, y in zip(p, q):
        if x is not y:
            return all(z.op == 'c' or z.op == 'attr' for z in (x, y))
    return False


def log_event(log, e):
    """The log with one more event; neighbouring events on different things are kept in one fixed order"""
    r = resource(e)
    if log.op == 'ite':
        return tm.leafmap(log, lambda l: log_event(l, e))
    if log.op != 'seq' or r is None:
        return tm.seq_concat(log, seq(item(e)))
    xs = list(log.args)
    at, j = len(xs), len(xs)
    while j > 0 and xs[j - 1].op == 'item' and independent(resource(xs[j - 1].args[0]), r):
        j -= 1
        if tuple(z.key for z in r[1:]) < tuple(z.key for z in resource(xs[j].args[0])[1:]):
            at = j
    return mk('seq', *(xs[:at] + [item(e)] + xs[at:]))


# ---------------------------------------------------------------- shapes
RANK1 = ('get_mean',)


def rank(t):
    """Number of dimensions when it is known from the construction"""
    o = t.op
    if o in ('vcall', 'prop', 'call', 'mcall'):
        n = t.args[0].split('.')[-1] if isinstance(t.args[0], str) else ''
        if n == 'get_mean':
            return 1
        if n in ('get_covariance', 'to_numpy', 'get_parameters', 'predict_measurement', 'update_hidden_states'):
            return 2
    if t.typ is not None and t.typ.kind == 'arr' and t.typ.args and t.typ.args[0] in ('scalar', 'list'):
        return 2
    if t.typ is not None and t.typ.kind == 'arr' and t.typ.args and isinstance(t.typ.args[0], int):
        return t.typ.args[0]
    if o == 'fld' and t.args[1] in ('mean', 'mean_weights', 'cov_weights'):
        return 1
    if o == 'fld' and t.args[1] == 'covariance':
        return 2
    if o in ('mm',):
        r0, r1 = rank(t.args[0]), rank(t.args[-1])
        if r0 is None or r1 is None:
            return None
        if r0 == 2 and r1 == 2:
            return 2
        if r0 == 1 and r1 == 1:
            return 0
        return 1
    if o in ('eye', 'blockdiag', 'inv', 'chol', 'vcat', 'outer', 'pinv'):
        return 2
    if o == 'diagm':
        r = rank(t.args[0])
        return None if r is None else 3 - r
    if o == 'T':
        return rank(t.args[0])
    if o == 'full':
        s = t.args[0]
        if s.op == 'tuple':
            return len(s.args)
        return 1 if tm.is_scalar(s) else None
    if o == 'hcat':
        s = t.args[0]
        if s.op == 'seq':
            rs = {rank(x.args[0]) for x in s.args if x.op == 'item'}
            if rs & {0, 1}:
                # single numbers are joined as vectors of one element
                return 1
            if len(rs) == 1 and len(s.args):
                return rs.pop()
        return None
    if o == 'poly':
        rs = [rank(a) for _, m in t.args[0] for a, _ in m if not tm.is_scalar(a)]
        rs = [r for r in rs if r is not None]
        return max(rs) if rs else None
    if o == 'store':
        return rank(t.args[0])
    if o == 'index':
        r = rank(t.args[0])
        if r is None:
            return None
        ix = t.args[1]
        parts = ix.args if ix.op == 'tuple' else (ix,)
        n = 0
        for p in parts:
            if p.op == 'slice':
                continue
            if tm.is_scalar(p) or p.op == 'loop':
                n += 1
            else:
                return None
        return r - n
    if o == 'arr':
        return None
    return None


def block_rank(interp, t):
    """Number of dimensions of a block of a join"""
    return 0 if not interp.scalar_mode and tm.is_scalar(t) else rank(t)


def end_to_end(interp, t):
    """Is the join one of vectors and single numbers?"""
    return rank(t) == 1 or any(x.op == 'item' and block_rank(interp, x.args[0]) in (0, 1) for x in t.args[0].args)


def flip(t):
    """Transposed; arrays of one dimension stay as they are"""
    if t.op == 'ite':
        return tm.leafmap(t, flip)
    return t if rank(t) in (0, 1) else tm.transpose(t)


def dim(interp, v, k):
    """Size of the array v along axis k"""
    if interp.scalar_mode and all(tm.is_scalar(x) for x in tm.leaves(v)):
        return typed(mk('dim', const('scalar'), k), INT)

    def f(t):
        o = t.op
        kk = k
        r = rank(t)
        if kk < 0 and r is not None:
            kk += r
        elif kk == -1:
            kk = 1
        if o in ('vcall',) and t.args[0].endswith('.to_numpy') or o == 'vcall' and t.args[0].endswith('.get_parameters'):
            if t.args[0] == 'GeneralContainer.to_numpy':
                return typed(mk('len', t.args[2]), INT) if kk == 1 else typed(mk('prop', 'GeneralContainer.batch_size', t.args[2]), INT)
        if o == 'full' and t.args[0].op == 'tuple' and kk < len(t.args[0].args):
            return t.args[0].args[kk]
        if o == 'T' and kk in (0, 1):
            return dim(interp, t.args[0], 1 - kk)
        if o == 'eye':
            return t.args[0]
        if o == 'hcat' and t.args[0].op == 'seq':
            rr = 1 if end_to_end(interp, t) else rank(t)
            if rr == 1 or kk == 1:
                s = ZERO
                for sg in t.args[0].args:
                    if sg.op != 'item':
                        return typed(mk('dim', t, kk), INT)
                    s = tm.add(s, ONE if block_rank(interp, sg.args[0]) == 0 else dim(interp, sg.args[0], 0 if rr == 1 else 1))
                return s
            if kk == 0:
                for sg in t.args[0].args:
                    if sg.op == 'item':
                        return dim(interp, sg.args[0], 0)
        if o == 'vcat' and t.args[0].op == 'seq':
            if kk == 1:
                for sg in t.args[0].args:
                    if sg.op == 'item':
                        return dim(interp, sg.args[0], -1)
            if kk == 0:
                s = ZERO
                for sg in t.args[0].args:
                    if sg.op == 'item':
                        s = tm.add(s, ONE if rank(sg.args[0]) == 1 else dim(interp, sg.args[0], 0))
                    elif sg.op == 'rep' and sg.args[1].op == 'seq' and len(sg.args[1].args) == 1:
                        e = sg.args[1].args[0].args[0]
                        if rank(e) == 1:
                            s = tm.add(s, sg.args[0])
                        else:
                            return typed(mk('dim', t, kk), INT)
                    else:
                        return typed(mk('dim', t, kk), INT)
                return s
        if o == 'store':
            return dim(interp, t.args[0], kk)
        if o == 'mm':
            return dim(interp, t.args[0], 0) if kk == 0 else dim(interp, t.args[-1], 1)
        if o == 'arr' and kk == 0:
            return tm.length(t.args[0])
        if o == 'poly' and kk == 0 and False:
            return None
        if kk == 0:
            return length_of(t)
        return typed(mk('dim', t, kk), INT)
    return lifted(f)(v)


def length_of(t):
    if t.op == 'index' and t.args[1].op == 'slice' and t.args[1].args[2] is NONE:
        lo, hi = t.args[1].args[0], t.args[1].args[1]
        n = tm.length(t.args[0])
        if is_num(lo) and lo.args[0] >= 0 and hi is NONE:
            return tm.sub(n, lo)
        if lo is ZERO and is_num(hi) and hi.args[0] < 0:
            return tm.add(n, hi)
        if lo is NONE and hi is NONE:
            return n
    r = tm.length(t)
    return typed(r, INT) if r.op == 'len' else r


def ndim(interp, v):
    if interp.scalar_mode and all(tm.is_scalar(x) for x in tm.leaves(v)):
        return typed(mk('ndim', const('scalar')), INT)

    def f(t):
        r = rank(t)
        if r is not None:
            return const(r)
        return typed(mk('ndim', t), INT)
    return lifted(f)(v)


def shape_term(interp, v):
    if interp.scalar_mode and all(tm.is_scalar(x) for x in tm.leaves(v)):
        return mk('shape', const('scalar'))
    if v.op == 'full' and v.args[0].op == 'tuple':
        return v.args[0]
    return op('shape', v)


# ---------------------------------------------------------------- sequences and iteration
def segs_of_seq(interp, s):
    """Iteration domain of a sequence term"""
    def f(t):
        if t.op == 'tuple':
            return [('item', x) for x in t.args]
        if t.op == 'seq':
            out = []
            for sg in t.args:
                if sg.op == 'item':
                    out.append(('item', sg.args[0]))
                elif sg.op == 'splice':
                    out.extend(segs_of_seq(interp, sg.args[0]))
                elif sg.op == 'rep':
                    def fn(k, sg=sg):
                        return segs_of_seq(interp, tm.unbind(sg.args[1], sg.args[2], k))
                    out.append(('rep', sg.args[0], fn))
            return out
        if t.op == 'ite':
            return [('cond', atom(t.args[0]), f(t.args[1]), f(t.args[2]))]
        if t.op == 'arr':
            return f(t.args[0])
        if t.op in ('undef', 'bot', 'absent'):
            return []
        n = length_of(t)

        def fn(k, t=t):
            return [('item', interp.lift(tm.index(t, k)))]
        return [('rep', n, fn)]
    return f(s)


def iter_segments(interp, it, node=None):
    it = interp.restrict(it)
    o = it.op
    if it is interp_bot() or it is NONE:
        return []
    if o == 'ite':
        return [('cond', atom(it.args[0]), iter_segments(interp, it.args[1], node),
                 iter_segments(interp, it.args[2], node))]
    if o == 'ref':
        c = interp.cell(it.args[0])
        I = _I()
        if isinstance(c, I.Lst):
            return segs_of_seq(interp, c.v)
        if isinstance(c, I.Dct):
            return [s for s in map_segs(interp, dict_items(interp, it), lambda kv: interp.subscript(kv, ZERO))]
        if isinstance(c, I.Obj):
            f = interp.repo.find(c.cls, '__iter__')
            if f is not None:
                return iter_segments(interp, interp.call_method(f, it, [], {}, node), node)
            t = interp.reify(it)
            return segs_of_seq(interp, mk('iterobj', t))
        t = interp.read_ref(it.args[0])
        if t.op in ('set', 'setof', 'setunion', 'setadd') or (t.typ is not None and t.typ.kind == 'set'):
            interp.rng.append(('iteration over a set', tm.CUR_LOC[0]))
        return segs_of_seq(interp, t)
    if o in ('set', 'setof', 'setunion', 'setadd'):
        interp.rng.append(('iteration over a set', tm.CUR_LOC[0]))
    if o == 'range':
        a, b, st = it.args
        if is_num(a) and is_num(b) and is_num(st) and abs(int((b.args[0] - a.args[0]) / (st.args[0] or 1))) <= 64:
            return [('item', const(x)) for x in range(cval(a), cval(b), cval(st))]
        if st is ONE:
            n = tm.sub(b, a)
            return [('rep', n, lambda k: [('item', tm.add(a, k))])]
        if is_num(st) and st.args[0] == -1:
            n = tm.sub(a, b)
            return [('rep', n, lambda k: [('item', tm.sub(a, k))])]
        return [('rep', mk('rangelen', a, b, st), lambda k: [('item', tm.add(a, tm.mul(st, k)))])]
    if o == 'lazy':
        return lazy_segs(interp, it, node)
    if o == 'tuple' or o == 'seq' or o == 'star':
        return segs_of_seq(interp, it.args[0] if o == 'star' else it)
    return segs_of_seq(interp, it)


def interp_bot():
    return mk('bot')


def map_segs(interp, segs, fn):
    out = []
    for s in segs:
        if s[0] == 'item':
            out.append(('item', fn(s[1])))
        elif s[0] == 'cond':
            out.append(('cond', s[1], map_segs(interp, s[2], fn), map_segs(interp, s[3], fn)))
        else:
            out.append(('rep', s[1], (lambda k, s=s: map_segs(interp, s[2](k), fn))))
    return out


def lazy_segs(interp, it, node):
    kind = it.args[0]
    if kind == 'enumerate':
        segs = iter_segments(interp, it.args[1], node)
        return enum_segs(interp, segs, it.args[2], node)
    if kind == 'zip':
        return zip_segs(interp, [iter_segments(interp, x, node) for x in it.args[1]], it.args[1], node)
    if kind == 'reversed':
        segs = iter_segments(interp, it.args[1], node)
        return reverse_segs(interp, segs)
    if kind == 'map':
        f = it.args[1]
        segs = iter_segments(interp, it.args[2], node)
        return map_segs(interp, segs, lambda v: interp.call(f, [v], {}, node))
    if kind == 'filter':
        return [('item', interp.unk('filter', node))]
    if kind == 'chain':
        out = []
        for x in it.args[1]:
            out.extend(iter_segments(interp, x, node))
        return out
    if kind == 'items':
        return dict_items(interp, it.args[1])
    if kind == 'keys':
        return map_segs(interp, dict_items(interp, it.args[1]), lambda kv: interp.subscript(kv, ZERO))
    if kind == 'values':
        return map_segs(interp, dict_items(interp, it.args[1]), lambda kv: interp.subscript(kv, ONE))
    return segs_of_seq(interp, it)


def single(seg):
    return seg[0] == 'item'


def enum_segs(interp, segs, start, node):
    out = []
    pos = start
    for s in segs:
        if s[0] == 'item':
            out.append(('item', mk('tuple', pos, s[1])))
            pos = tm.add(pos, ONE)
        elif s[0] == 'rep':
            def fn(k, s=s, pos=pos):
                inner = s[2](k)
                if len(inner) != 1 or inner[0][0] != 'item':
                    # several members per round: the position is not affine
                    p = interp.unk('enumerate over nested sequence', node)
                    return map_segs(interp, inner, lambda v: mk('tuple', p, v))
                return [('item', mk('tuple', tm.add(pos, k), inner[0][1]))]
            out.append(('rep', s[1], fn))
            pos = tm.add(pos, s[1])
        else:
            _, c, s1, s2 = s
            out.append(('cond', c, enum_segs(interp, s1, pos, node), enum_segs(interp, s2, pos, node)))
            l1, l2 = seg_len(s1), seg_len(s2)
            pos = ite(c, tm.add(pos, l1), tm.add(pos, l2))
    return out


def seg_len(segs):
    n = ZERO
    for s in segs:
        if s[0] == 'item':
            n = tm.add(n, ONE)
        elif s[0] == 'rep':
            n = tm.add(n, s[1])
        else:
            n = tm.add(n, ite(s[1], seg_len(s[2]), seg_len(s[3])))
    return n


def zip_segs(interp, lists, values, node):
    lists = [list(l) for l in lists]
    if not lists:
        return []
    for j, l in enumerate(lists):
        # conditional members: lift the condition out of the whole loop
        for s in l:
            if s[0] == 'cond':
                _, c, s1, s2 = s
                q = l.index(s)
                a = [list(x) for x in lists]
                b = [list(x) for x in lists]
                a[j] = l[:q] + list(s1) + l[q + 1:]
                b[j] = l[:q] + list(s2) + l[q + 1:]
                return [('cond', c, zip_segs(interp, a, values, node), zip_segs(interp, b, values, node))]
    out = []
    offs = [ZERO] * len(lists)
    pos = [0] * len(lists)
    while all(pos[j] < len(lists[j]) for j in range(len(lists))):
        heads = [lists[j][pos[j]] for j in range(len(lists))]
        if all(h[0] == 'item' for h in heads):
            out.append(('item', mk('tuple', *[h[1] for h in heads])))
            for j in range(len(lists)):
                pos[j] += 1
            continue
        reps = [j for j, h in enumerate(heads) if h[0] == 'rep']
        if len(reps) == len(heads):
            ns = [tm.sub(h[1], offs[j]) for j, h in enumerate(heads)]
            n = ns[0]
            for m in ns[1:]:
                if m is not n:
                    n = tm.minmax('min', [n, m])

            def fn(k, heads=heads, offs=tuple(offs)):
                vs = []
                for h, o in zip(heads, offs):
                    inner = h[2](tm.add(k, o))
                    if len(inner) != 1 or inner[0][0] != 'item':
                        vs.append(interp.unk('zip over nested sequence', node))
                    else:
                        vs.append(inner[0][1])
                return [('item', mk('tuple', *vs))]
            out.append(('rep', n, fn))
            if any(m is not ns[0] for m in ns):
                break
            for j in range(len(lists)):
                pos[j] += 1
                offs[j] = ZERO
            continue
        # members against a symbolic domain: consume one member at a time
        vs = []
        for j, h in enumerate(heads):
            if h[0] == 'item':
                vs.append(h[1])
                pos[j] += 1
            else:
                inner = h[2](offs[j])
                vs.append(inner[0][1] if len(inner) == 1 and inner[0][0] == 'item' else interp.unk('zip', node))
                offs[j] = tm.add(offs[j], ONE)
        out.append(('item', mk('tuple', *vs)))
    return out


def reverse_segs(interp, segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'item':
            out.append(s)
        elif s[0] == 'rep':
            n, fn = s[1], s[2]
            out.append(('rep', n, (lambda k, n=n, fn=fn: reverse_segs(interp, fn(tm.sub(tm.sub(n, ONE), k))))))
        else:
            out.append(('cond', s[1], reverse_segs(interp, s[2]), reverse_segs(interp, s[3])))
    return out


def segs_to_seq(interp, segs):
    parts = []
    for s in segs:
        if s[0] == 'item':
            parts.append(item(s[1]))
        elif s[0] == 'cond':
            parts.append(splice(ite(s[1], segs_to_seq(interp, s[2]), segs_to_seq(interp, s[3]))))
        else:
            k = tm.fresh_loop('k')
            k.typ = INT
            b = interp.reify(segs_to_seq(interp, s[2](k)))
            parts.append(tm.rep(s[1], k, b))
    return seq(*parts)


def as_seq(interp, v):
    """Sequence term with the members of an iterable"""
    v = interp.restrict(v)
    o = v.op
    if o == 'ite':
        return tm.leafmap(v, lambda z: as_seq(interp, z))
    if o == 'tuple':
        return seq(*[item(x) for x in v.args])
    if o == 'seq':
        return v
    if o == 'ref':
        c = interp.cell(v.args[0])
        if isinstance(c, _I().Lst):
            s = c.v
            return s if s.op != 'tuple' else as_seq(interp, s)
        if isinstance(c, (_I().Val, _I().View)):
            t = interp.read_ref(v.args[0])
            if t.op == 'arr':
                return t.args[0]
            return t
    if o in ('lazy', 'range') or o == 'ref':
        return segs_to_seq(interp, iter_segments(interp, v))
    if o == 'arr':
        return v.args[0]
    return v


def slice_of(interp, v, lo, hi):
    return subscript(interp, v, mk('slice', lo, hi, NONE), None)


# ---------------------------------------------------------------- dictionaries
def contains_key(interp, c, k):
    known = [a for a, _ in c.entries]
    if k in known:
        return TRUE
    r = FALSE
    for a in known:
        r = b_or(r, tm.eq(a, k))
    if c.base is not None:
        r = b_or(r, contains(interp, c.base, k))
    return r


@lifted
def _contains(base, k):
    if base.op == 'dictwith':
        r = _contains(base.args[0], k)
        for a, _ in base.args[1]:
            r = b_or(r, tm.eq(a, k))
        return r
    if base.op == 'dict':
        r = FALSE
        for a, _ in base.args[0]:
            r = b_or(r, tm.eq(a, k))
        return r
    if base.op in ('tuple',):
        return b_or(*[tm.eq(a, k) for a in base.args])
    if base.op == 'seq' and all(s.op == 'item' for s in base.args):
        return b_or(*[tm.eq(a.args[0], k) for a in base.args])
    if base.op == 'set':
        return b_or(*[tm.eq(a, k) for a in base.args])
    if base.op == 'setadd':
        return b_or(_contains(base.args[0], k), tm.eq(base.args[1], k))
    if is_str(base) and is_str(k):
        return TRUE if cval(k) in cval(base) else FALSE
    return atom(mk('in', k, base))


def contains(interp, base, k):
    return _contains(base, k)


def dict_get_base(interp, base, k):
    def f(b, kk):
        if b.op == 'dictwith':
            for a, v in b.args[1]:
                if a is kk:
                    return v
            return f(b.args[0], kk)
        if b.op == 'dict':
            for a, v in b.args[0]:
                if a is kk:
                    return v
        t = mk('dictget', b, kk)
        if t.typ is None and b.typ is not None and b.typ.kind == 'dict' and len(b.typ.args) == 2:
            t.typ = b.typ.args[1]
        if t.typ is None and b.typ is not None and b.typ.kind == 'cls' and is_str(kk):
            fd = interp.repo.field(b.typ.cls, cval(kk))
            if fd is not None:
                t.typ = interp.repo.type_of(fd[0].module, fd[1][0], fd[0])
        return t
    return lifted(f)(base, k)


def dict_lookup(interp, d, k, default):
    """Value stored under k; default UNDEF when a missing key is an error"""
    I = _I()
    d = interp.restrict(d)
    if d.op == 'ite':
        return tm.leafmap(d, lambda z: dict_lookup(interp, z, k, default))
    k = interp.val(k)
    if d.op == 'ref':
        c = interp.cell(d.args[0])
        if isinstance(c, I.Dct):
            r = None
            if c.base is not None:
                g = interp.lift(dict_get_base(interp, c.base, k))
                if default is not I.UNDEF:
                    r = ite(contains(interp, c.base, k), g, default)
                else:
                    r = g
            else:
                r = default
            for a, v in c.entries:
                if a is k:
                    if v is I.ABSENT or (v.op == 'ite' and I.ABSENT in list(interp.leaves(v))):
                        r = absent_or(v, r)
                    else:
                        r = v
                    return r
            for a, v in c.entries:
                e = tm.eq(a, k)
                if e is not FALSE:
                    r = ite(e, v, r) if r is not I.UNDEF else v
            return r
        t = interp.read_ref(d.args[0])
    else:
        t = d
    g = dict_get_base(interp, t, k)
    if default is not I.UNDEF:
        return ite(contains(interp, t, k), interp.lift(g), default)
    return interp.lift(g)


def absent_or(v, r):
    I = _I()
    if v is I.ABSENT:
        return r
    if v.op == 'ite':
        return tm.leafmap(v, lambda z: absent_or(z, r))
    return v


def dict_entries(interp, d):
    """[(key, value)] of a dictionary whose keys are known, else None"""
    d = interp.restrict(d)
    if d.op == 'ref':
        c = interp.cell(d.args[0])
        if isinstance(c, _I().Dct) and c.base is None and \
                not any(_I().ABSENT in list(interp.leaves(v)) for _, v in c.entries if v.op == 'ite'):
            return list(c.entries)
        return None
    if d.op == 'dict':
        return list(d.args[0])
    return None


def dict_items(interp, d):
    """Iteration domain over (key, value)"""
    d = interp.restrict(d)
    I = _I()
    if d.op == 'ite':
        return [('cond', atom(d.args[0]), dict_items(interp, d.args[1]), dict_items(interp, d.args[2]))]
    if d.op == 'ref':
        c = interp.cell(d.args[0])
        if isinstance(c, I.Dct):
            out = []
            if c.base is not None:
                out.extend(base_items(interp, c.base))
            for a, v in c.entries:
                if v.op == 'ite' and I.ABSENT in list(interp.leaves(v)):
                    cond = present(v)
                    out.append(('cond', cond, [('item', mk('tuple', a, absent_or(v, mk('bot'))))], []))
                elif v is not I.ABSENT:
                    out.append(('item', mk('tuple', a, v)))
            return out
        d = interp.read_ref(d.args[0]) if isinstance(c, (I.Val, I.View)) else interp.reify(d)
    return base_items(interp, d)


def present(v):
    I = _I()
    if v is I.ABSENT:
        return FALSE
    if v.op == 'ite':
        return tm.leafmap(v, lambda z: present(z))
    return TRUE


def base_items(interp, b):
    if b.op == 'ite':
        return [('cond', atom(b.args[0]), base_items(interp, b.args[1]), base_items(interp, b.args[2]))]
    if b.op == 'dict':
        return [('item', mk('tuple', a, interp.lift(v))) for a, v in b.args[0]]
    if b.op == 'dictwith':
        return base_items(interp, b.args[0]) + [('item', mk('tuple', a, interp.lift(v))) for a, v in b.args[1]]
    if b.op == 'dictof' and b.args[0].op == 'seq':
        return segs_of_seq(interp, b.args[0])
    ks = typed(mk('keys', b), None)

    def fn(k):
        key = tm.index(ks, k)
        if key.typ is None and b.typ is not None and b.typ.kind == 'dict' and len(b.typ.args) == 2:
            key.typ = b.typ.args[0]
        return [('item', mk('tuple', interp.lift(key), interp.lift(dict_get_base(interp, b, key))))]
    return [('rep', typed(mk('len', b), INT), fn)]


def dict_from_pairs(interp, s):
    """dict(...) of a sequence of pairs"""
    I = _I()
    s0 = s
    if s.op == 'seq':
        es = []
        for sg in s.args:
            if sg.op == 'item' and sg.args[0].op == 'tuple' and len(sg.args[0].args) == 2:
                k = interp.val(sg.args[0].args[0])
                es = [(a, b) for a, b in es if a is not k] + [(k, interp.box(sg.args[0].args[1]))]
            else:
                es = None
                break
        if es is not None:
            return interp.new(I.Dct(tuple(es), None))
    r = interp.reify(s)
    return interp.new(I.Dct((), typed(mk('dictof', r), Ty('dict', (ANY, ANY)))))


def set_add(t, v):
    if t.op == 'set':
        xs = set(t.args) | {v}
        return mk('set', *sorted(xs, key=lambda x: x.key))
    vs = {v}
    while t.op == 'setadd':
        vs.add(t.args[1])
        t = t.args[0]
    for x in sorted(vs, key=lambda x: x.key):
        t = op('setadd', t, x)
    return t


@lifted
def set_union(a, b):
    if a.op == 'set':
        a, b = b, a
    if b.op == 'set':
        for x in b.args:
            a = set_add(a, x)
        return a
    return op('setunion', *sorted((a, b), key=lambda t: t.key))


# ---------------------------------------------------------------- strings
def fmt(parts):
    out = []
    for p in parts:
        if p.op == 'c':
            v = p.args[0]
            s = v if isinstance(v, str) else str(cval(p))
            if out and out[-1].op == 'c':
                out[-1] = const(cval(out[-1]) + s)
            else:
                out.append(const(s))
        elif p.op == 'fmt':
            for q in p.args:
                if q.op == 'c' and out and out[-1].op == 'c':
                    out[-1] = const(cval(out[-1]) + cval(q))
                else:
                    out.append(q)
        else:
            out.append(p)
    out = [p for p in out if not (p.op == 'c' and p.args[0] == '')]
    if not out:
        return const('')
    if len(out) == 1 and (out[0].op == 'c' or (out[0].typ is not None and out[0].typ.kind == 'str')):
        return out[0]
    r = op('fmt', *out)
    return typed(r, STR)


def is_strish(t):
    return is_str(t) or t.op == 'fmt' or (t.typ is not None and t.typ.kind == 'str')


# ---------------------------------------------------------------- operators
_BIN = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow', ast.FloorDiv: 'floordiv',
    ast.Mod: 'mod', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
    ast.LShift: 'lshift', ast.RShift: 'rshift',
}


def binop(interp, o, a, b, node=None):
    name = _BIN[type(o)]
    a, b = interp.restrict(a), interp.restrict(b)
    I = _I()

    def go(x, y):
        if x is I.BOT or y is I.BOT or x is NONE or y is NONE:
            return I.BOT
        # containers
        lx, ly = list_of(interp, x), list_of(interp, y)
        if name == 'add' and (lx is not None or x.op == 'tuple' or x.op == 'seq') and \
                (ly is not None or y.op in ('tuple', 'seq') or (y.typ is not None and y.typ.kind in ('seq', 'tuple'))
                 or True) and (lx is not None or ly is not None or x.op in ('tuple', 'seq') or y.op in ('tuple', 'seq')):
            if x.op == 'tuple' and y.op == 'tuple':
                return mk('tuple', *(x.args + y.args))
            r = tm.seq_concat(as_seq(interp, x), as_seq(interp, y))
            return interp.new(I.Lst(r)) if lx is not None else r
        if name == 'add' and y.op in ('tuple', 'seq') and x.typ is not None and x.typ.kind == 'seq':
            return tm.seq_concat(x, as_seq(interp, y))
        if name == 'mul' and (lx is not None or x.op == 'tuple') and not (ly is not None):
            n = interp.val(y)
            s = as_seq(interp, x)
            if is_num(n):
                parts = list(s.args if s.op == 'seq' else [splice(s)]) * max(0, int(n.args[0]))
                if x.op == 'tuple':
                    return mk('tuple', *[p.args[0] for p in parts])
                return interp.new(I.Lst(seq(*parts)))
            k = tm.fresh_loop('k')
            r = seq(tm.rep(n, k, interp.reify(s)))
            return r if x.op == 'tuple' else interp.new(I.Lst(r))
        if name == 'mul' and (ly is not None or y.op == 'tuple'):
            return go(y, x)
        for p, q, m in ((x, y, '__%s__'), (y, x, '__r%s__')):
            if p.op == 'ref' and isinstance(interp.cell(p.args[0]), I.Obj):
                c = interp.cell(p.args[0])
                f = interp.repo.find(c.cls, m % {'div': 'truediv', 'and': 'and', 'or': 'or'}.get(name, name))
                if f is not None:
                    return interp.call_method(f, p, [q], {}, node)
        return arith(interp, name, interp.val(x), interp.val(y), node)
    hasref = lambda v: v.op == 'ite' and any(z.op in ('ref', 'tuple', 'seq') or z is NONE for z in interp.leaves(v))
    if hasref(a):
        return interp.split(a, lambda x: binop(interp, o, x, b, node))
    if hasref(b):
        return interp.split(b, lambda y: binop(interp, o, a, y, node))
    return go(a, b)


def list_of(interp, v):
    if v.op == 'ref':
        c = interp.cell(v.args[0])
        if isinstance(c, _I().Lst):
            return c
    return None


def arith(interp, name, a, b, node=None):
    if a.op == 'ite' or b.op == 'ite' or a.op == 'cond' or b.op == 'cond':
        if is_bool(a) and is_bool(b) and name in ('and', 'or', 'xor'):
            return {'and': b_and, 'or': b_or}.get(name, lambda p, q: ite(p, b_not(q), q))(a, b)
        a, b = num_of_bool(a), num_of_bool(b)
    elif a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if is_bool(a) and is_bool(b) and name in ('and', 'or'):
            return {'and': b_and, 'or': b_or}[name](a, b)
        a, b = num_of_bool(a), num_of_bool(b)
    if name == 'add':
        if any(is_strish(x) for x in interp.leaves(a)) or any(is_strish(x) for x in interp.leaves(b)):
            return lifted(lambda x, y: fmt([x, y]))(a, b)
        if any(x.typ is not None and x.typ.kind == 'seq' for x in list(interp.leaves(a)) + list(interp.leaves(b))):
            return tm.seq_concat(a, b)
        return addt(a, b)
    if name == 'sub':
        if is_setlike(a):
            return op('setminus', a, b)
        return addt(a, tm.neg(b))
    if name == 'mul':
        return tm.mul(a, b)
    if name == 'div':
        if any(t.typ is not None and t.typ.kind == 'ext' and 'Path' in t.typ.args[0] for t in (a, b)):
            return op('pathdiv', a, b)
        return tm.div(a, b)
    if name == 'pow':
        return tm.power(a, b)
    if name == 'floordiv':
        return tm.floordiv(a, b)
    if name == 'mod':
        if is_str(a):
            return op('strmod', a, b)
        return tm.mod(a, b)
    if name == 'matmul':
        return mmul(interp, a, b, node)
    if name == 'or' and (is_setlike(a) or is_setlike(b)):
        return set_union(a, b)
    if name in ('and', 'or'):
        # elementwise logic on comparison arrays
        x, y = sorted((a, b), key=lambda t: t.key)
        return op('bit' + name, x, y)
    return op(name, a, b)


def addt(a, b):
    """Sum; a vector added to stacked rows is added to each of them"""
    return lifted(_addt)(a, b)


def _addt(a, b):
    if a.op == 'vcat' or b.op == 'vcat':
        v, o = (a, b) if a.op == 'vcat' else (b, a)
        if o.op == 'vcat' and len(o.args[0].args if o.args[0].op == 'seq' else ()) == \
                len(v.args[0].args if v.args[0].op == 'seq' else ()):
            pass
        elif v.args[0].op == 'seq' and all(s.op == 'item' for s in v.args[0].args) and \
                (tm.is_scalar(o) or rank(o) in (0, 1)):
            return vcat(seq(*[item(addt(s.args[0], o)) for s in v.args[0].args]))
    return tm.add(a, b)


def mmul(interp, a, b, node=None):
    if interp.scalar_mode:
        return interp.unk('matrix product of batched scalars', node)
    return tm.matmul(a, b)


def is_setlike(t):
    return t.op in ('set', 'setof', 'setunion', 'setadd', 'setminus') or (t.typ is not None and t.typ.kind == 'set')


def compare(interp, o, a, b, node=None):
    k = type(o)
    I = _I()
    if k in (ast.Is, ast.IsNot):
        r = identical(interp, a, b)
        return r if k is ast.Is else b_not(r)
    if k in (ast.In, ast.NotIn):
        r = in_test(interp, a, b)
        return r if k is ast.In else b_not(r)
    x, y = interp.val(a), interp.val(b)
    return compare_terms(interp, k, x, y, node)


def compare_terms(interp, k, x, y, node=None):
    if is_bool(x) and x.op == 'ite' or is_bool(y) and y.op == 'ite':
        if k in (ast.Eq, ast.NotEq) and is_bool(x) and is_bool(y):
            r = ite(x, y, b_not(y))
            return r if k is ast.Eq else b_not(r)
        x, y = num_of_bool(x), num_of_bool(y)
    if k in (ast.Eq, ast.NotEq):
        r = eq_terms(interp, x, y)
        return r if k is ast.Eq else b_not(r)

    def f(p, q):
        if p.op in ('nan',) or q.op == 'nan':
            return FALSE
        if p.op in ('inf', 'neginf') or q.op in ('inf', 'neginf'):
            return atom(mk('cmp', k.__name__, p, q))
        if k is ast.Lt:
            return tm.lt(p, q)
        if k is ast.Gt:
            return tm.lt(q, p)
        if k is ast.LtE:
            return tm.le(p, q)
        return tm.le(q, p)
    return lifted(f)(x, y)


def eq_terms(interp, x, y):
    def f(p, q):
        if p.op == 'shape' or q.op == 'shape':
            s, o = (p, q) if p.op == 'shape' else (q, p)
            if o.op == 'tuple':
                r = tm.eq(ndim(interp, s.args[0]), const(len(o.args)))
                for j, d in enumerate(o.args):
                    r = b_and(r, tm.eq(dim(interp, s.args[0], j), d))
                return r
        if p is NONE or q is NONE:
            return tm.isnone(q if p is NONE else p)
        return tm.eq(p, q)
    return lifted(f)(x, y)


def identical(interp, a, b):
    a, b = interp.restrict(a), interp.restrict(b)
    I = _I()

    def f(x, y):
        if x is y:
            return TRUE
        if x is I.BOT or y is I.BOT:
            return FALSE
        if x is NONE or y is NONE:
            z = y if x is NONE else x
            if z.op == 'ref':
                c = interp.cell(z.args[0])
                if isinstance(c, I.Val):
                    w = interp.read_ref(z.args[0])
                    return lifted(tm.isnone)(w) if w.op != 'ref' else FALSE
                return FALSE
            if z.op in ('fn', 'func', 'meth', 'cls', 'ext', 'tuple', 'seq', 'bm', 'partial', 'lazy', 'mod'):
                return FALSE
            return tm.isnone(z)
        if x.op == 'ref' and y.op == 'ref':
            return FALSE if (x.args[0][0] == 'new' or y.args[0][0] == 'new') else atom(mk('is', *sorted((interp.val(x), interp.val(y)), key=lambda t: t.key)))
        return tm.eq(interp.val(x), interp.val(y))
    if a.op == 'ite':
        return tm.leafmap(a, lambda z: identical(interp, z, b))
    if b.op == 'ite':
        return tm.leafmap(b, lambda z: identical(interp, a, z))
    return f(a, b)


def in_test(interp, a, b):
    b = interp.restrict(b)
    I = _I()
    if b.op == 'ite':
        return tm.leafmap(b, lambda z: in_test(interp, a, z))
    k = interp.val(a)
    if b.op == 'lazy' and b.args[0] in ('keys', 'items') and isinstance(b.args[1], T):
        return in_test(interp, a, b.args[1])
    if b.op == 'ref':
        c = interp.cell(b.args[0])
        if isinstance(c, I.Dct):
            return contains_key(interp, c, k)
        if isinstance(c, I.Lst):
            return contains(interp, interp.reify(c.v), k)
        if isinstance(c, I.Obj):
            f = interp.repo.find(c.cls, '__contains__')
            if f is not None:
                return interp.truth(interp.call_method(f, b, [a], {}, None))
            return atom(mk('in', k, interp.reify(b)))
    return contains(interp, interp.val(b), k)


# ---------------------------------------------------------------- indexing
def norm_slice(s):
    lo, hi, st = s.args
    if st is ONE:
        st = NONE
    if lo is NONE and not (is_num(st) and st.args[0] < 0):
        lo = ZERO
    return mk('slice', lo, hi, st)


WIDE = mk('tuple', NONE)


def norm_index(interp, ix):
    """Canonical index: new axes dropped, full slices normalised, trailing full slices removed"""
    def f(ix):
        if ix.op == 'seq':
            # a tuple put together from pieces, ending in full slices
            ss = list(ix.args)
            while ss and (ss[-1].op == 'item' and ss[-1].args[0].op == 'slice' and norm_slice(ss[-1].args[0]) is FULL or
                          ss[-1].op == 'rep' and ss[-1].args[1].op == 'seq' and all(
                              z.op == 'item' and z.args[0].op == 'slice' and norm_slice(z.args[0]) is FULL
                              for z in ss[-1].args[1].args)):
                ss.pop()
            if len(ss) < len(ix.args) and all(z.op == 'item' for z in ss):
                ix = mk('tuple', *[z.args[0] for z in ss])
        if ix.op == 'tuple':
            parts = []
            for p in ix.args:
                if p is NONE:
                    continue
                if p.op == 'c' and p.args[0] == '...':
                    p = FULL
                if p.op == 'ite':
                    p = p
                parts.append(norm_slice(p) if p.op == 'slice' else p)
            while parts and parts[-1] is FULL:
                parts.pop()
            if not parts:
                return FULL
            if len(parts) == 1:
                return parts[0]
            return mk('tuple', *parts)
        if ix.op == 'slice':
            return norm_slice(ix)
        if ix is NONE or (ix.op == 'c' and ix.args[0] == '...'):
            return FULL
        return ix
    return lifted(f)(ix)


def index_val(interp, val, ix):
    ix = norm_index(interp, ix)
    return lifted(lambda v, i: _index_val(interp, v, i))(val, ix)


def one_wide(p):
    """k:k+1 -> k"""
    if p.op == 'slice' and p.args[2] is NONE and p.args[1] is not NONE and tm.sub(p.args[1], p.args[0]) is ONE:
        return p.args[0]
    if p.op in ('seq',) and len(p.args) == 1 and p.args[0].op == 'item':
        return p.args[0].args[0]
    return p


def _index_val(interp, v, ix):
    I = _I()
    if ix is FULL:
        return v
    if v is I.BOT or v is NONE:
        return I.BOT
    if v.op == 'shape':
        if is_num(ix):
            return dim(interp, v.args[0], int(ix.args[0]))
        return op('index', v, ix)
    if v.op == 'cond':
        return v
    if interp.scalar_mode:
        return scalar_index(interp, v, ix)
    if v.op == 'where':
        a = only_array(v)
        if a is not None:
            return tm.subst(v, {a: _index_val(interp, a, ix)})
    if ix.op == 'tuple':
        parts = [p for p in ix.args]
        if parts[0] is FULL and len(parts) == 2:
            r = col_index(interp, v, parts[1])
            if r is not None:
                return r
        if len(parts) == 2 and parts[0].op != 'slice' and tm.is_scalar(parts[0]):
            # row then element
            row = tm.index(v, parts[0])
            if row.op != 'index':
                return _index_val(interp, row, parts[1])
        if v.op == 'full' and v.args[0].op == 'tuple' and len(v.args[0].args) == len(parts) and \
                all(tm.is_scalar(p) for p in parts):
            return v.args[1]
        return op('index', v, ix)
    if ix.op == 'slice':
        lo, hi, st = ix.args
        if v.op == 'index' and v.args[1].op == 'slice' and st is NONE:
            a, b, c = v.args[1].args
            if c is NONE and b is NONE and is_num(a) and is_num(lo) and lo.args[0] >= 0 and a.args[0] >= 0:
                hi2 = NONE if hi is NONE else (tm.add(a, hi) if not (is_num(hi) and hi.args[0] < 0) else hi)
                return _index_val(interp, v.args[0], mk('slice', tm.add(a, lo), hi2, NONE))
        if v.op in ('seq', 'tuple'):
            r = seq_slice(v, ix)
            if r is not None:
                return r
        if v.op == 'arr':
            r = seq_slice(v.args[0], ix) if v.args[0].op == 'seq' else None
            if r is not None:
                return tm.arr(r)
        return slice_type(op('index', v, ix), v)
    if v.op == 'index' and v.args[1].op == 'slice' and tm.is_scalar(ix):
        a, b, c = v.args[1].args
        if c is NONE and not (is_num(ix) and ix.args[0] < 0) and not (is_num(a) and a.args[0] < 0) and a is not NONE:
            return tm.index(v.args[0], tm.add(a, ix))
    if tm.is_scalar(ix):
        r = element(interp, v, ix)
        if r is not None:
            return r
    if v.op == 'arr' or v.op in ('seq', 'tuple') or tm.is_scalar(ix) or ix.op in ('loop', 'sym', 'fld', 'index'):
        if ix.op in ('c', 'loop', 'bound', 'poly') or tm.is_scalar(ix):
            return tm.index(v, ix)
    return op('index', v, ix)


def only_array(t):
    """The array of an elementwise choice between numbers, if there is just one"""
    found = set()

    def look(x):
        if is_num(x) or tm.is_scalar(x) or x is TRUE or x is FALSE:
            return
        if x.op == 'poly':
            for _, m in x.args[0]:
                for a, _ in m:
                    look(a)
        elif x.op in ('abs', 'exp', 'sqrt', 'lt0', 'gt0', 'cond', 'where', 'ite', 'eq', 'min', 'max'):
            for a in x.args:
                look(a)
        else:
            found.add(x)
    look(t)
    if len(found) == 1:
        a = found.pop()
        return a if a.op in ('sym', 'fld', 'index') else None
    return None


def element(interp, v, ix):
    """One element of an elementwise expression over a single array, or None"""
    if v.op == 'full' and (tm.is_scalar(v.args[0]) or v.args[0].op == 'tuple' and len(v.args[0].args) == 1):
        return v.args[1]
    if v.op == 'store' and tm.is_scalar(v.args[1]):
        base, k, x = v.args
        if not (is_num(k) and is_num(ix)):
            b = element(interp, base, ix)
            b = tm.index(base, ix) if b is None else b
            return ite(eq_terms(interp, ix, k), x, b)
        if ix is k:
            return x
        if (k.args[0] >= 0) == (ix.args[0] >= 0):
            b = element(interp, base, ix)
            return tm.index(base, ix) if b is None else b
    if v.op == 'hcat' and v.args[0].op == 'seq' and end_to_end(interp, v) and not (is_num(ix) and ix.args[0] < 0):
        at, parts = ZERO, []
        for s in v.args[0].args:
            if s.op != 'item':
                return None
            x = s.args[0]
            r = block_rank(interp, x)
            n = ONE if r == 0 else dim(interp, x, 0) if r == 1 else None
            if n is None:
                return None
            off = tm.sub(ix, at)
            e = x if r == 0 else element(interp, x, off)
            last = tm.sub(tm.add(at, n), ONE)
            parts.append((last, tm.index(x, off) if e is None else e))
            at = tm.add(at, n)
        out = parts[-1][1]
        for last, e in reversed(parts[:-1]):
            out = ite(tm.le(ix, last), e, out)
        return out
    if v.op == 'poly':
        arrays = {a for _, m in v.args[0] for a, _ in m if not tm.is_scalar(a)}
        if len(arrays) == 1:
            a = arrays.pop()
            if a.op in ('store', 'full', 'hcat'):
                e = element(interp, a, ix)
                if e is not None:
                    return tm.subst(v, {a: e})
    return None


def slice_type(t, v):
    if t.op == 'index' and v.typ is not None and t.typ is None and v.typ.kind in ('seq',):
        t.typ = v.typ
    return t


def col_index(interp, v, c):
    """v[:, c]"""
    if v.op == 'full' and v.args[0].op == 'tuple' and len(v.args[0].args) == 2 and c.op == 'slice':
        return None
    if v.op == 'T':
        return tm.transpose(_index_val(interp, v.args[0], c)) if c.op == 'slice' else _index_val(interp, v.args[0], c)
    if v.op == 'hcat' and v.args[0].op == 'seq' and c.op == 'slice' and c.args[2] is NONE and \
            all(s.op == 'item' for s in v.args[0].args):
        # cut at the seams of the concatenation
        lo, hi = c.args[0], c.args[1]
        pos, a, b = ZERO, None, None
        parts = v.args[0].args
        for j, s in enumerate(parts):
            if pos is lo:
                a = j
            pos = tm.add(pos, dim(interp, s.args[0], 1))
            if pos is hi:
                b = j + 1
        if hi is NONE:
            b = len(parts)
        if a is not None and b is not None and b > a:
            return hcat(seq(*parts[a:b]))
    return None


def seq_slice(s, ix):
    lo, hi, st = ix.args
    if s.op == 'tuple':
        if all(x is NONE or is_num(x) for x in (lo, hi, st)):
            g = lambda x: None if x is NONE else cval(x)
            return mk('tuple', *s.args[slice(g(lo), g(hi), g(st))])
        return None
    if st is not NONE:
        return None
    if all(x.op == 'item' for x in s.args) and all(x is NONE or is_num(x) for x in (lo, hi)):
        g = lambda x: None if x is NONE else cval(x)
        return seq(*s.args[slice(g(lo), g(hi))])
    if is_num(lo) and lo.args[0] >= 0 and hi is NONE:
        n = int(lo.args[0])
        if len(s.args) >= n and all(x.op == 'item' for x in s.args[:n]):
            return seq(*s.args[n:])
    if lo is ZERO and is_num(hi) and hi.args[0] < 0:
        n = -int(hi.args[0])
        if len(s.args) >= n and all(x.op == 'item' for x in s.args[-n:]):
            return seq(*s.args[:-n])
    return None


def scalar_index(interp, v, ix):
    """Batched numbers: batch axes are not tracked"""
    parts = list(ix.args) if ix.op == 'tuple' else [ix]
    parts = [one_wide(p) for p in parts]
    ty = v.typ
    keep = [(j, p) for j, p in enumerate(parts) if p is not FULL and not (p.op == 'slice')]
    if v.op == 'arr' or (ty is not None and ty.kind in ('seq', 'tuple')) or v.op in ('seq', 'tuple'):
        if not keep:
            if len(parts) == 1 and parts[0].op == 'slice':
                r = seq_slice(v.args[0] if v.op == 'arr' else v, parts[0]) if v.op in ('arr', 'seq', 'tuple') else None
                if r is not None:
                    return tm.arr(r) if v.op == 'arr' else r
                return slice_type(op('index', v, parts[0]), v)
            return interp.unk('slice of an assembled array')
        if len(keep) == 1:
            return tm.index(v, keep[0][1])
        return interp.unk('index of an assembled array')
    if ty is not None and ty.kind == 'arr' and ty.args and ty.args[0] == 'list' or v.op in ('store', 'scatter', 'full') \
            or v.op == 'poly' and any(has_list(a) for _, m in v.args[0] for a, _ in m):
        if len(parts) >= 2:
            p = parts[1]
            if p is FULL:
                return v
            if p.op == 'slice':
                return op('index', v, p)
            return tm.index(v, p)
        if parts[0].op == 'slice':
            return v
        return interp.unk('batch index')
    if all(p.op == 'slice' or is_num(p) for p in parts):
        return v
    return op('index', v, ix)


def has_list(a):
    return a.typ is not None and a.typ.kind == 'arr' and a.typ.args and a.typ.args[0] == 'list'


def store_val(interp, base, ix, v):
    ix = norm_index(interp, ix)
    if ix.op == 'ite' and all(z is TRUE or z is FALSE for z in tm.leaves(ix)):
        # a mask, not a choice between ways to store
        ix = as_cond(ix)
    return lifted(lambda b, i, w: _store_val(interp, b, i, w))(base, ix, v)


def _store_val(interp, b, ix, v):
    I = _I()
    if ix is FULL:
        if tm.is_scalar(v) and not interp.scalar_mode:
            return tm.full(shape_key(interp, b), v)
        return v
    if interp.scalar_mode:
        parts = [one_wide(p) for p in (ix.args if ix.op == 'tuple' else (ix,))]
        if len(parts) >= 2 and parts[0] is FULL and not parts[1].op == 'slice':
            return tm.store(b, parts[1], v)
        if ix.op == 'cond' or is_bool(ix):
            return ite(uncond(ix), v, b)
        if (b.typ is not None and b.typ.kind in ('float',)) and all(p.op == 'slice' or is_num(p) for p in parts):
            return v
        if b.op == 'full' or b.op == 'store' or has_list(b):
            if len(parts) == 1 and not parts[0].op == 'slice':
                return tm.store(b, parts[0], v)
        return interp.unk('store into a batched array')
    if is_bool(ix) or ix.op == 'cond':
        return where(interp, uncond(ix), v, b)
    # complementary column blocks make up the whole array
    if ix.op == 'tuple' and len(ix.args) == 2 and ix.args[0] is FULL and ix.args[1].op == 'slice':
        r = block_store(interp, b, ix.args[1], v)
        if r is not None:
            return r
    if ix.op == 'slice' and ix.args[2] is NONE:
        r = row_block_store(interp, b, ix, v)
        if r is not None:
            return r
    return tm.store(b, ix, v)


def shape_key(interp, b):
    if b.op == 'full':
        return b.args[0]
    return mk('shape', b)


def block_store(interp, b, sl, v):
    """[:, :n] = a followed by [:, n:] = c is the concatenation of a and c"""
    if sl.args[2] is not NONE:
        return None
    if b.op == 'store' and b.args[1].op == 'tuple' and b.args[1].args[0] is FULL and b.args[1].args[1].op == 'slice':
        s0 = b.args[1].args[1]
        if s0.args[2] is NONE and s0.args[0] is ZERO and sl.args[1] is NONE and s0.args[1] is sl.args[0]:
            return hcat(seq(item(b.args[2]), item(v)))
        if sl.args[0] is ZERO and s0.args[1] is NONE and sl.args[1] is s0.args[0]:
            return hcat(seq(item(v), item(b.args[2])))
    return None


def row_block_store(interp, b, sl, v):
    return None


def where(interp, c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if interp.scalar_mode:
        return ite(c, a, b)
    n = b_not(c)
    if n.key < c.key:
        c, a, b = n, b, a
    if a is b:
        return a
    return op('where', as_cond(c), a, b)


def widened(ix):
    """Is the index a new first axis, and everything?"""
    return ix.op == 'tuple' and len(ix.args) > 1 and ix.args[0] is NONE and \
        all(p.op == 'slice' and norm_slice(p) is FULL for p in ix.args[1:])


def subscript(interp, x, ix, node=None):
    I = _I()
    if x is I.BOT or x is NONE:
        return I.BOT
    if not interp.scalar_mode and x.op == 'ref' and isinstance(interp.cell(x.args[0]), I.View) and \
            interp.cell(x.args[0]).ix is WIDE and ix.op == 'tuple' and len(ix.args) > 1 and (
            ix.args[0].op == 'slice' and norm_slice(ix.args[0]) is FULL or ix.args[0] is ZERO):
        # columns of the only row
        return subscript(interp, interp.ref(interp.cell(x.args[0]).parent),
                         ix.args[1] if len(ix.args) == 2 else mk('tuple', *ix.args[1:]), node)
    if not interp.scalar_mode and widened(ix) and (
            all(y.op in ('attr', 'index', 'mcall', 'vcall', 'apply', 'fld', 'poly', 'sym') and
                (y.typ is None or y.typ.kind == 'arr') and not is_handle(y) for y in tm.leaves(x)) or
            x.op == 'ref' and isinstance(interp.cell(x.args[0]), (I.Val, I.View))):
        if x.op != 'ref':
            x = interp.new(I.Val(x))
        return interp.new(I.View(x.args[0], WIDE))
    if x.op == 'ref':
        i = x.args[0]
        c = interp.cell(i)
        if isinstance(c, I.Lst):
            k = interp.val(ix)
            if k.op == 'slice':
                k = norm_slice(k)
                r = seq_slice(c.v, k) if c.v.op == 'seq' else None
                if k is FULL:
                    r = c.v
                if r is None:
                    r = _index_val(interp, interp.reify(c.v), k)
                return interp.new(I.Lst(r))
            r = seq_item(interp, c.v, k)
            return r
        if isinstance(c, I.Dct):
            k = interp.val(ix)
            maybe_raise_key(interp, x, k, node)
            return dict_lookup(interp, x, k, I.UNDEF)
        if isinstance(c, I.Obj):
            f = interp.repo.find(c.cls, '__getitem__')
            if f is not None:
                return interp.call_method(f, x, [ix], {}, node)
            return interp.lift(op('index', interp.reify(x), interp.val(ix)))
        t = interp.read_ref(i)
        k = norm_index(interp, interp.val(ix))
        if is_handle(t):
            maybe_raise_key(interp, t, k, node)
            return op('index', t, k)
        if t.typ is not None and t.typ.kind in ('dict',):
            return dict_lookup(interp, t, k, I.UNDEF)
        if basic_slice(k) and not interp.scalar_mode and t.op != 'ite':
            r = index_val(interp, t, k)
            if r.op == 'index' and r.args[0] is t:
                interp.counter += 1
                vi = ('new', interp.counter)
                interp.heap[vi] = I.View(i, k)
                return interp.ref(vi)
            return r
        return interp.lift(index_val(interp, t, k))
    k = interp.val(ix)
    if x.op in ('tuple', 'seq'):
        if k.op == 'slice':
            r = seq_slice(x, norm_slice(k))
            return r if r is not None else op('index', interp.reify(x), norm_slice(k))
        return seq_item(interp, x, k)
    if is_str(x) and k.op == 'slice':
        g = lambda z: None if z is NONE else cval(z)
        if all(z is NONE or is_num(z) for z in k.args):
            return const(cval(x)[slice(*[g(z) for z in k.args])])
    if x.op == 'dict' or (x.typ is not None and x.typ.kind == 'dict') or x.op in ('dictof', 'dictwith'):
        return dict_lookup(interp, x, k, I.UNDEF)
    if is_handle(x):
        k = norm_index(interp, k)
        maybe_raise_key(interp, x, k, node)
        return op('index', x, k)
    if is_strish(x):
        return typed(op('index', x, norm_index(interp, k)), STR)
    if x.op == 'mcall' and x.args[0] in ('split', 'rsplit', 'rpartition') and is_num(k) and len(x.args) > 3 and \
            k.args[0] == (-1 if x.args[0] != 'rpartition' else 2) and is_str(x.args[3]) and (
                x.args[0] != 'split' or len(x.args) == 4):
        return typed(op('lastpart', x.args[2], x.args[3]), STR)
    if x.op == 'mcall' and x.args[0] in ('split', 'rsplit', 'partition', 'rpartition'):
        return typed(op('index', x, norm_index(interp, k)), STR) if k.op != 'slice' else op('index', x, norm_index(interp, k))
    return interp.lift(index_val(interp, interp.val(x), k))


def basic_slice(k):
    parts = k.args if k.op == 'tuple' else (k,)
    return any(p.op == 'slice' for p in parts) and all(
        p.op in ('slice', 'c', 'loop', 'bound', 'poly', 'len', 'dim') or tm.is_scalar(p) for p in parts)


def seq_item(interp, s, k):
    """Member k of a sequence value; the members may be references"""
    if s.op == 'seq' and not all(x.op == 'item' for x in s.args) or s.op not in ('seq', 'tuple'):
        r = tm.index(s, k) if s.op != 'index' else _index_val(interp, s, k)
        if r.op == 'index' and r.args[0].op == 'seq':
            r = tm.index(interp.reify(s), k)
        return interp.lift(r)
    if not is_num(k) and s.op in ('seq', 'tuple'):
        return interp.lift(tm.index(interp.reify(s), k))
    return interp.lift(tm.index(s, k))


def maybe_raise_key(interp, x, k, node):
    """A missing key leaves through an exception handler when there is one around"""
    if interp.try_depth <= 0:
        return
    I = _I()
    c = None
    if x.op == 'ref':
        cell = interp.cell(x.args[0])
        if isinstance(cell, I.Dct):
            c = contains_key(interp, cell, k)
    else:
        c = contains(interp, x, k)
    if c is not None and is_str(k):
        interp.raise_if(b_not(c), 'KeyError', node)


# ---------------------------------------------------------------- calls to overridable methods
def vcall(interp, decl, fi, recv, args, kwargs, node):
    I = _I()
    env = interp.bind_params(fi.node.args, [recv] + list(args), kwargs, fi.module, fi.name)
    qual = '%s.%s' % (decl.cls.name if decl.cls else '', decl.name)
    rt = interp.reify(recv)
    if env is None:
        return interp.unk('call of %s' % qual, node)
    names, vals = [], []
    a = fi.node.args
    order = [x.arg for x in a.posonlyargs + a.args][1:]
    if a.vararg:
        order.append(a.vararg.arg)
    order += [x.arg for x in a.kwonlyargs]
    if a.kwarg:
        order.append(a.kwarg.arg)
    for n in order:
        if n in env:
            names.append(n)
            vals.append(interp.val(env[n]))
    if interp.loop_depth == 0 or True:
        interp.analysed.setdefault('virtual:' + qual, 0)
        interp.analysed['virtual:' + qual] += 1
    name = decl.name
    if name == '__len__':
        return typed(mk('len', rt), INT)
    t = op('vcall', qual, tuple(names), rt, *vals)
    ty = interp.repo.type_of(fi.module, fi.node.returns, fi.cls)
    if fi.node.returns is not None and is_self_type(fi.node.returns):
        c = interp.cell(recv.args[0])
        ty = Ty('cls', cls=c.cls, exact=not interp.is_open(c))
    if name in I.MUTATORS or name in I.STATEFUL_ABSTRACT:
        p = op('post', qual, tuple(names), rt, *vals)
        c = interp.cell(recv.args[0])
        cty = Ty('cls', cls=c.cls, exact=not interp.is_open(c))
        set_type(p, cty)
        if name in I.STATEFUL_ABSTRACT:
            # a step changes what the object knows, but not the attributes which are only set at construction
            kept = [(n, x) for n, x in c.fields if n != '$' and interp.steady(c.cls, n)]
            interp.heap[recv.args[0]] = I.Obj(c.cls, c.base, tuple(sorted(kept + [('$', p)])))
        else:
            interp.heap[recv.args[0]] = I.Obj(c.cls, p, ())
        # field cells of the old state are no longer those of the object
    set_type(t, ty)
    return interp.lift(t)


def set_type(t, ty):
    if t.op == 'ite':
        set_type(t.args[1], ty)
        set_type(t.args[2], ty)
    elif t.typ is None and ty is not None and ty.kind != 'none' and t.op != 'c':
        t.typ = ty


def is_self_type(ann):
    return (isinstance(ann, ast.Name) and ann.id == 'Self') or \
        (isinstance(ann, ast.Constant) and ann.value == 'Self')


def vprop(interp, decl, v, ty):
    qual = '%s.%s' % (decl.cls.name if decl.cls else '', decl.name)
    t = op('prop', qual, interp.reify(v))
    set_type(t, ty)
    return interp.lift(t)


def rcall(interp, fi, args, kwargs, node):
    """Recursive (or otherwise not inlined) call inside the package"""
    env = interp.bind_params(fi.node.args, args, kwargs, fi.module, fi.name)
    if env is None:
        return interp.unk('call of %s' % fi.qual, node)
    order = fi.params()
    names = tuple(n for n in order if n in env)
    t = op('rcall', fi.name, names, *[interp.val(env[n]) for n in names])
    ty = interp.repo.type_of(fi.module, fi.node.returns, fi.cls)
    set_type(t, ty)
    return interp.lift(t)


def call_len(interp, x):
    I = _I()
    x = interp.restrict(x)
    if x.op == 'ite':
        return tm.leafmap(x, lambda z: call_len(interp, z))
    if x is I.BOT or x is NONE:
        return I.BOT
    if x.op == 'ref':
        c = interp.cell(x.args[0])
        if isinstance(c, I.Lst):
            return lifted(length_of)(interp.reify(c.v))
        if isinstance(c, I.Dct):
            if c.base is None:
                n = ZERO
                for _, v in c.entries:
                    n = tm.add(n, ite(present(v), ONE, ZERO))
                return n
            return typed(mk('len', interp.reify(x)), INT)
        if isinstance(c, I.Obj):
            f = interp.repo.find(c.cls, '__len__')
            if f is not None:
                return interp.call_method(f, x, [], {}, None)
            return typed(mk('len', interp.reify(x)), INT)
        t = interp.read_ref(x.args[0])
    elif x.op in ('lazy', 'range'):
        return seg_len(iter_segments(interp, x))
    else:
        t = interp.val(x)

    def f(t):
        if t.op == 'shape':
            return ndim(interp, t.args[0])
        if t.op in ('seq', 'tuple', 'range') or is_str(t):
            return tm.length(t)
        if t.op == 'set':
            return const(len(t.args))
        return dim(interp, t, 0) if not (t.typ is not None and t.typ.kind in ('seq', 'str', 'dict')) else length_of(t)
    return lifted(f)(t)


# ---------------------------------------------------------------- concatenation
def _flatten_cat(kind, s):
    out = []
    for sg in s.args:
        if sg.op == 'item':
            a = sg.args[0]
            if a.op == kind and a.args[0].op == 'seq':
                out.extend(a.args[0].args)
                continue
            # adjacent constant vectors merge
            if out and a.op == 'full' and kind == 'hcat' and out[-1].op == 'item' and out[-1].args[0].op == 'full' and \
                    out[-1].args[0].args[1] is a.args[1]:
                s0, s1 = out[-1].args[0].args[0], a.args[0]
                if s0.op == 'tuple' and s1.op == 'tuple' and len(s0.args) == len(s1.args) == 1:
                    out[-1] = item(tm.full(mk('tuple', tm.add(s0.args[0], s1.args[0])), a.args[1]))
                    continue
            out.append(sg)
        else:
            out.append(sg)
    return out


def hcat(s):
    """Blocks side by side (or vectors end to end)"""
    def f(s):
        if s.op != 'seq':
            return mk('hcat', s)
        parts = _flatten_cat('hcat', s)
        if len(parts) == 1 and parts[0].op == 'item':
            return parts[0].args[0]
        return mk('hcat', seq(*parts))
    return lifted(f)(lift_items(s))


def vcat(s):
    """Rows (or blocks of rows) stacked"""
    def f(s):
        if s.op != 'seq':
            return mk('vcat', s)
        parts = _flatten_cat('vcat', s)
        if len(parts) == 1 and parts[0].op == 'item' and rank(parts[0].args[0]) != 1:
            return parts[0].args[0]
        return mk('vcat', seq(*parts))
    return lifted(f)(lift_items(s))


def lift_items(s):
    """Conditions inside plain members of a sequence become conditions on the sequence"""
    if s.op != 'seq':
        return s
    tops = [x.args[0] for x in s.args if x.op in ('item', 'splice')]
    top = tm._tops(tops)
    if top is None:
        return s
    def side(hi):
        return lift_items(seq(*[mk(x.op, tm._br(x.args[0], top, hi)) if x.op in ('item', 'splice') else x
                                for x in s.args]))
    return ite(atom(top), side(1), side(0))


tm.REBUILD['hcat'] = hcat
tm.REBUILD['vcat'] = vcat


def members(interp, v):
    """Sequence of the arrays passed to a concatenation"""
    s = as_seq(interp, v)
    if s.op == 'tuple':
        s = seq(*[item(x) for x in s.args])
    flat = s.op == 'seq' and any(x.op == 'item' and x.args[0].op == 'ref' and x.args[0].args[0] in interp.flat
                                 for x in s.args)
    s = interp.reify(s)
    if s.op == 'tuple':
        s = seq(*[item(x) for x in s.args])
    return s, flat


def concat_axis(interp, s, axis):
    """axis: 0, 1, -1 or None"""
    if interp.scalar_mode:
        return tm.arr(s)
    if axis == 0:
        def f(s):
            if s.op == 'seq':
                rs = [rank(x.args[0]) for x in s.args if x.op == 'item']
                if rs and any(r == 1 for r in rs):
                    return hcat(s)
                if rs and any(r == 2 for r in rs):
                    return vcat(s)
            return lifted(lambda z: mk('cat0', z))(s)
        return lifted(f)(lift_items(s))
    return hcat(s)


# ---------------------------------------------------------------- numpy
def np_sum(interp, v, axis):
    if interp.scalar_mode:
        def f(t):
            if t.op in ('arr', 'seq', 'tuple'):
                return tm.total(t)
            if has_list(t) or (t.op == 'poly' and any(has_list(a) for _, m in t.args[0] for a, _ in m)):
                return mk('sum', t)
            return t
        return lifted(f)(v)
    if axis is None:
        def g(t):
            if t.op in ('arr', 'seq', 'tuple'):
                return tm.total(t)
            return np_reduce('sum', t, None)
        return lifted(g)(v)
    return lifted(lambda t: np_reduce('sum', t, axis))(v)


def np_reduce(name, t, axis):
    if isinstance(axis, tuple):
        # several axes: from the last to the first (a sum and a mean do not depend on the order)
        r = rank(t)
        if any(not isinstance(a, int) for a in axis) or (r is None and any(a < 0 for a in axis)) \
                or name not in ('sum', 'mean'):
            return mk(name, t, axis)
        for a in sorted({a + r if a < 0 else a for a in axis}, reverse=True):
            t = np_reduce(name, t, a)
        return t
    if axis is not None and axis < 0:
        r = rank(t)
        if r is not None:
            axis += r
    if rank(t) == 1:
        axis = None
    if name == 'sum':
        # linear: pull scalar factors out
        s, b = tm._split_scalar(t)
        if s is not ONE:
            return tm.mul(s, np_reduce(name, b, axis))
        if t.op == 'poly' and len(t.args[0]) > 1:
            pass
    if axis is None:
        return mk(name, t)
    return mk(name, t, axis)


def axis_of(v, default=None):
    if v is None:
        return default
    if v is NONE:
        return None
    if is_num(v):
        return cval(v)
    if v.op == 'tuple' and all(is_num(x) for x in v.args):
        return tuple(cval(x) for x in v.args)
    return 'sym'


def shape_arg(interp, s):
    """Canonical shape"""
    def f(t):
        if t.op == 'seq' and all(x.op == 'item' for x in t.args):
            t = mk('tuple', *[x.args[0] for x in t.args])
        if t.op == 'tuple':
            return t
        if tm.is_scalar(t) or t.op in ('sym', 'fld', 'vcall', 'prop', 'index', 'loop') and not (t.typ and t.typ.kind in ('seq', 'tuple')):
            return mk('tuple', t)
        return t
    return lifted(f)(interp.val(s))


def like_shape(interp, v):
    if v.op == 'full':
        return v.args[0]
    if v.op == 'ite':
        return tm.leafmap(v, lambda z: like_shape(interp, z))
    r = rank(v)
    if r is not None:
        return mk('tuple', *[dim(interp, v, j) for j in range(r)])
    return mk('shape', v)


def np_array(interp, v):
    """np.array / np.asarray of a nested sequence or array"""
    def f(t):
        if t.op == 'op' and t.args[0] == 'tolist' or t.op == 'tolist':
            return t.args[-1]
        if t.op == 'tuple':
            t = seq(*[item(x) for x in t.args])
        if t.op == 'seq':
            its = [x.args[0] for x in t.args if x.op == 'item']
            rws = [x for x in t.args if x.op == 'rep']
            if not interp.scalar_mode:
                # sequence of vectors is a stack of rows
                inner = its + [x.args[1].args[0].args[0] for x in rws
                               if x.args[1].op == 'seq' and len(x.args[1].args) == 1 and x.args[1].args[0].op == 'item']
                if inner and all(rank(x) == 1 for x in inner):
                    return vcat(t)
                if len(t.args) == 1 and its and its[0].op == 'seq' or len(t.args) == 1 and its and its[0].op == 'tuple':
                    return f(its[0])
            elif len(t.args) == 1 and its and (its[0].op in ('seq', 'tuple') or tm.is_scalar(its[0])):
                return f(its[0])
            return tm.arr(t)
        return t
    return lifted(f)(interp.val(v))


NARROW = {'int', 'int_', 'intp', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32',
          'float16', 'half', 'single', 'f4', 'f2', 'i4', 'i8'}


def narrow(d):
    """Name of a type of arrays which cannot hold every floating point number"""
    if d is None or not isinstance(d, T):
        return None
    n = cval(d) if is_str(d) else d.args[0].split('.')[-1] if d.op in ('ext', 'builtin') and isinstance(d.args[0], str) else None
    return n if n in NARROW else None


def cast(t, d):
    """Values kept as this type"""
    if 'int' in d or d[0] == 'i':
        return lifted(lambda x: x if integral(x) else typed(mk('int', x), x.typ))(t)
    return lifted(lambda x: x if is_num(x) else typed(mk('op', 'float32', x), x.typ))(t)


def literal_int(e):
    """Written out as integers"""
    if isinstance(e, ast.Constant):
        return type(e.value) is int
    if isinstance(e, ast.UnaryOp):
        return literal_int(e.operand)
    if isinstance(e, (ast.List, ast.Tuple)):
        return bool(e.elts) and all(literal_int(x) for x in e.elts)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List):
        return literal_int(e.left)
    return False


def of_type(interp, r, n, args, kwargs, node):
    """Arrays made with integers or with less precision lose what is stored in them later"""
    I = _I()
    place = {'array': 1, 'asarray': 1, 'zeros': 1, 'ones': 1, 'empty': 1, 'full': 2, 'zeros_like': 1, 'ones_like': 1, 'empty_like': 1,
             'full_like': 2}.get(n)
    if n in NARROW and len(args) == 1:
        return cast(interp.val(r), n)
    if place is None:
        return r
    d = kwargs.get('dtype', args[place] if len(args) > place else None)
    d = interp.val(d) if d is not None else None
    k = narrow(d)
    if k is None and d in (None, NONE) and isinstance(node, ast.Call):
        at = {'array': 0, 'asarray': 0, 'full': 1}.get(n)
        e = node.args[at] if at is not None and len(node.args) > at else next(
            (x.value for x in node.keywords if x.arg in ('object', 'fill_value')), None)
        k = 'int' if e is not None and at is not None and literal_int(e) else None
    if k is None:
        return r
    v = interp.val(r)
    if not isinstance(v, T) or v.op == 'ref':
        return r
    r = interp.new(I.Val(cast(v, k)))
    interp.narrow[r.args[0]] = k
    return r


def np_clip(interp, v, lo, hi):
    r = v
    if lo is not NONE and lo is not None:
        r = tm.minmax('max', [r, lo])
    if hi is not NONE and hi is not None:
        r = tm.minmax('min', [r, hi])
    return r


def np_isclose(interp, a, b, d, kind):
    extra = tuple((k, interp.val(d[k])) for k in ('rtol', 'atol', 'equal_nan', 'rel_tol', 'abs_tol') if k in d)

    def f(x, y):
        if interp.scalar_mode and not extra:
            return tm.eq(x, y)
        x, y = sorted((x, y), key=lambda t: t.key)
        return atom(mk(kind, x, y, extra))
    return lifted(f)(a, b)


def np_all(interp, v, axis=None):
    if is_bool(v):
        if interp.scalar_mode or v in (TRUE, FALSE):
            return v
        return atom(mk('all', as_cond(v)))
    if v.op == 'cond':
        return np_all(interp, v.args[0])
    if interp.scalar_mode:
        return interp.truth(v)
    return lifted(lambda t: atom(mk('all', t)))(v)


def np_any(interp, v):
    if is_bool(v):
        return b_not(np_all(interp, b_not(v)))
    if v.op == 'cond':
        return np_any(interp, v.args[0])
    if interp.scalar_mode:
        return interp.truth(v)
    return lifted(lambda t: atom(mk('any', t)))(v)


def sign(v):
    return lifted(lambda t: ite(tm.lt(t, ZERO), const(-1), ite(tm.lt(ZERO, t), ONE, ZERO)))(v)


SAME = {'copy', 'ascontiguousarray', 'asfortranarray', 'squeeze', 'ravel', 'atleast_1d', 'atleast_2d', 'atleast_3d',
        'expand_dims', 'float64', 'double', 'float32', 'asanyarray', 'require', 'reshape', 'broadcast_to', 'real'}
MATH1 = {'log', 'log10', 'log2', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'tanh', 'floor', 'ceil', 'rint', 'cumsum',
         'cumprod', 'arctan', 'arcsinh', 'sinh', 'cosh', 'trunc', 'argsort', 'unique', 'diff'}
RANDOMS = ('numpy.random.', 'random.', 'time.', 'uuid.', 'secrets.', 'os.urandom', 'datetime.datetime.now',
           'datetime.datetime.utcnow', 'datetime.date.today', 'os.getpid')


def np_call(interp, name, args, kwargs, node):
    """numpy function `name` (without prefix); returns None when it is not modelled"""
    val = interp.val
    n = name
    scalar = interp.scalar_mode

    def arg(names):
        d = pull(names, args, kwargs)
        return d
    if n in ('array', 'asarray'):
        d = arg(['object', 'dtype'])
        v = d.get('object', d.get('a'))
        if v is None:
            return None
        if n == 'asarray' and v.op == 'ref' and isinstance(interp.cell(v.args[0]), (_I().Val, _I().View)):
            return v
        return np_array(interp, v)
    if n in SAME:
        v = args[0] if args else next(iter(kwargs.values()))
        if n == 'broadcast_to' and not scalar:
            d = arg(['array', 'shape'])
            s = shape_arg(interp, d['shape'])
            return lifted(lambda t: tm.full(s, t) if tm.is_scalar(t) else t)(val(d['array']))
        if n == 'copy':
            return np_array(interp, v)
        if not (v.op == 'ref' and isinstance(interp.cell(v.args[0]), (_I().Val, _I().View))):
            v = np_array(interp, v)
        return flattened(interp, v) if n == 'ravel' and not scalar and v.op in ('ref', 'vcall') else v
    if n in ('zeros', 'ones', 'empty'):
        d = arg(['shape', 'dtype', 'order'])
        fill = ZERO if n == 'zeros' else ONE if n == 'ones' else mk('uninit')
        return tm.full(shape_arg(interp, d['shape']), fill) if not scalar else scalar_full(interp, d['shape'], fill)
    if n == 'full':
        d = arg(['shape', 'fill_value', 'dtype'])
        if scalar:
            return scalar_full(interp, d['shape'], val(d['fill_value']))
        return tm.full(shape_arg(interp, d['shape']), val(d['fill_value']))
    if n in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
        d = arg(['a', 'fill_value'] if n == 'full_like' else ['a', 'dtype'])
        fill = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': mk('uninit')}.get(n)
        if fill is None:
            fill = val(d['fill_value'])
        if scalar:
            a = val(d['a'])
            if tm.is_scalar(a):
                return fill
            return tm.full(mk('shape', a), fill)
        return tm.full(like_shape(interp, val(d['a'])), fill)
    if n in ('eye', 'identity'):
        d = arg(['N', 'M'])
        return op('eye', val(d.get('N', d.get('n'))))
    if n == 'arange':
        a = [val(x) for x in args]
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a[:3])
        return tm.arr(op('range', lo, hi, st))
    if n == 'linspace':
        d = arg(['start', 'stop', 'num', 'endpoint'])
        return op('linspace', val(d['start']), val(d['stop']), val(d.get('num', const(50))),
                  val(d.get('endpoint', TRUE)))
    if n in ('sum',):
        d = arg(['a', 'axis'])
        return np_sum(interp, np_array(interp, d['a']), axis_of(d.get('axis')))
    if n in ('mean', 'average'):
        d = arg(['a', 'axis', 'weights'] if n == 'average' else ['a', 'axis'])
        a = np_array(interp, d['a'])
        ax = axis_of(d.get('axis'))
        w = d.get('weights')
        if w is not None and w is not NONE:
            w = val(w)
            if ax == 0:
                # weights are normalised by their sum
                return tm.div(tm.matmul(w, a), np_sum(interp, w, None)) if not sums_to_one(w) else tm.matmul(w, a)
            return op('average', a, w, const(str(ax)))
        s = np_sum(interp, a, ax)
        if ax is None:
            return lifted(lambda t, q: tm.div(q, length_of(t)) if rank(t) == 1 or t.op in ('arr',) else mk('mean', t))(a, s)
        return tm.div(s, dim(interp, a, ax)) if isinstance(ax, int) else op('mean', a)
    if n in ('max', 'min', 'prod', 'std', 'var', 'median', 'ptp', 'argmax', 'argmin', 'nanmax', 'nanmin', 'nansum',
             'nanmean'):
        d = arg(['a', 'axis'])
        a = np_array(interp, d['a'])
        if scalar and n in ('max', 'min', 'nanmax', 'nanmin', 'median'):
            return lifted(lambda t: t if tm.is_scalar(t) else mk(n, t))(a)
        ax = axis_of(d.get('axis'))
        return lifted(lambda t: np_reduce('arr' + n, t, ax if isinstance(ax, int) else None))(a)
    if n in ('maximum', 'minimum', 'fmax', 'fmin'):
        return tm.minmax('max' if 'max' in n else 'min', [val(args[0]), val(args[1])])
    if n == 'clip':
        d = arg(['a', 'a_min', 'a_max'])
        lo, hi = (val(d.get('a_' + w, d.get(w, NONE))) for w in ('min', 'max'))
        v = val(d['a'])

        def one(z):
            m = as_seq(interp, z) if z.op in ('tuple', 'seq', 'arr') else z
            if m.op == 'seq' and m.args and all(x.op == 'item' and tm.is_scalar(x.args[0]) for x in m.args) and \
                    all(b is NONE or tm.is_scalar(b) for b in (lo, hi)):
                return mk('arr', seq(*[item(np_clip(interp, x.args[0], lo, hi)) for x in m.args]))
            return np_clip(interp, z, lo, hi)
        return lifted(one)(v)
    if n in ('abs',):
        return absv(interp, val(args[0]))
    if n == 'sqrt':
        return tm.sqrt(val(args[0]))
    if n == 'exp':
        return tm.exp(val(args[0]))
    if n == 'square':
        return tm.mul(val(args[0]), val(args[0]))
    if n in ('power', 'float_power'):
        return tm.power(val(args[0]), val(args[1]))
    if n in ('add', 'subtract', 'multiply', 'true_divide', 'floor_divide', 'mod', 'remainder'):
        d = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'true_divide': 'div', 'floor_divide': 'floordiv',
             'mod': 'mod', 'remainder': 'mod'}
        return arith(interp, d[n], val(args[0]), val(args[1]), node)
    if n == 'negative':
        return tm.neg(val(args[0]))
    if n == 'reciprocal':
        return tm.recip(val(args[0]))
    if n == 'sign':
        if scalar:
            return sign(val(args[0]))
        a = val(args[0])
        return where(interp, tm.lt(ZERO, a), ONE, where(interp, tm.lt(a, ZERO), const(-1), ZERO))
    if n in ('greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal'):
        k = {'greater': ast.Gt, 'less': ast.Lt, 'greater_equal': ast.GtE, 'less_equal': ast.LtE, 'equal': ast.Eq,
             'not_equal': ast.NotEq}[n]
        return compare_terms(interp, k, val(args[0]), val(args[1]))
    if n in ('logical_and', 'logical_or'):
        x, y = [cond_of(interp, val(a)) for a in args[:2]]
        return b_and(x, y) if n == 'logical_and' else b_or(x, y)
    if n == 'logical_not':
        return b_not(cond_of(interp, val(args[0])))
    if n == 'where':
        c = cond_of(interp, val(args[0]))
        if len(args) == 1:
            return op('nonzero', as_cond(c))
        return where(interp, c, val(args[1]), val(args[2]))
    if n in ('all', 'any'):
        d = arg(['a', 'axis'])
        a = val(d['a'])
        return np_all(interp, a) if n == 'all' else np_any(interp, a)
    if n in ('allclose', 'isclose'):
        d = arg(['a', 'b', 'rtol', 'atol', 'equal_nan'])
        return np_isclose(interp, val(d['a']), val(d['b']), d, n)
    if n in ('array_equal', 'array_equiv'):
        return np_all(interp, eq_terms(interp, val(args[0]), val(args[1])))
    if n in ('isnan', 'isfinite', 'isinf', 'iscomplex', 'isreal'):
        return lifted(lambda t: FALSE if is_num(t) and n in ('isnan', 'isinf') else TRUE if is_num(t) and n == 'isfinite'
                      else TRUE if t.op == 'nan' and n == 'isnan' else FALSE if t.op == 'nan' and n == 'isfinite'
                      else atom(mk(n, t)))(val(args[0]))
    if n in ('matmul', 'dot', 'inner', 'vdot'):
        return mmul(interp, val(args[0]), val(args[1]), node)
    if n in ('linalg.multi_dot',):
        s = members(interp, args[0])[0]
        if s.op == 'seq' and all(x.op == 'item' for x in s.args):
            r = s.args[0].args[0]
            for x in s.args[1:]:
                r = tm.matmul(r, x.args[0])
            return r
        return None
    if n == 'outer':
        return op('outer', val(args[0]), val(args[1]))
    if n == 'einsum':
        return interp.unk('einsum', node)
    if n == 'transpose':
        d = arg(['a', 'axes'])
        if scalar:
            return d['a']
        return flip(val(d['a']))
    if n in ('swapaxes', 'moveaxis'):
        d = arg(['a', 'axis1', 'axis2'])
        if scalar:
            return d['a']
        return flip(val(d['a']))
    if n in ('diag', 'diagonal', 'diagflat'):
        if scalar:
            return args[0]
        return tm.diagm(val(args[0]))
    if n == 'trace':
        return op('sum', tm.diagm(val(args[0])))
    if n in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'append', 'block'):
        if n == 'append':
            d = arg(['arr', 'values', 'axis'])
            s = seq(item(val(d['arr'])), item(val(d['values'])))
            ax = axis_of(d.get('axis'))
        else:
            d = arg(['arrays', 'axis'])
            v = d.get('arrays', d.get('tup'))
            s, flat = members(interp, v)
            ax = axis_of(d.get('axis'), 0)
            if n == 'hstack' or n == 'concatenate' and flat and ax == 0:
                ax = 1
            elif n == 'column_stack':
                ax = 1
        if scalar:
            return tm.arr(s)
        if n == 'vstack' or (n == 'stack' and ax == 0):
            return vcat(s)
        if n == 'stack' or n == 'block':
            return lifted(lambda z: mk('stack', z, str(ax)))(lift_items(s))
        return concat_axis(interp, s, ax)
    if n in ('repeat', 'tile'):
        d = arg(['a', 'repeats', 'axis'] if n == 'repeat' else ['A', 'reps'])
        a = val(d.get('a', d.get('A')))
        r = val(d.get('repeats', d.get('reps')))
        if scalar:
            return a
        if n == 'repeat':
            ax = axis_of(d.get('axis'))
            return lifted(lambda t, q: mk('repeat', t, q, str(ax)))(a, r)
        r = lifted(lambda q: mk('tuple', q) if tm.is_scalar(q) else q)(r)
        return lifted(lambda t, q: mk('tile', t, q))(a, r)
    if n == 'broadcast_arrays':
        return mk('tuple', *[val(x) if x.op != 'star' else x for x in args]) if not any(x.op == 'star' for x in args) \
            else (args[0].args[0] if len(args) == 1 else interp.unk('broadcast_arrays', node))
    if n == 'interp':
        return op('interp', *[val(a) for a in args])
    if n in ('linalg.inv',):
        return op('inv', val(args[0])) if val(args[0]).op == 'ite' else tm.inv(val(args[0]))
    if n == 'linalg.pinv':
        if len(args) > 1 or kwargs:
            return op('pinv', val(args[0]), *[val(x) for x in args[1:]], mk('tuple', *[val(kwargs[k]) for k in sorted(kwargs)]))
        # of a square matrix which has an inverse, it is that; the contract says which matrices are not
        return op('pinv', val(args[0])) if interp.pseudo else tm.inv(val(args[0]))
    if n == 'linalg.solve':
        return tm.matmul(tm.inv(val(args[0])), val(args[1]))
    if n == 'linalg.lstsq':
        return mk('tuple', tm.matmul(tm.inv(val(args[0])), val(args[1])), mk('lstsq', ONE), mk('lstsq', const(2)), mk('lstsq', const(3)))
    if n == 'linalg.cholesky':
        a = val(args[0])
        if interp.try_depth > 0:
            interp.raise_if(lifted(lambda t: atom(mk('notpd', t)))(a), 'LinAlgError', node)
        return op('chol', a)
    if n == 'linalg.svd':
        a = val(args[0])
        fm = val(kwargs.get('full_matrices', TRUE))
        return mk('tuple', op('svdU', a), op('svdS', a), op('svdV', a))
    if n in ('linalg.eigh', 'linalg.eig'):
        a = val(args[0])
        return mk('tuple', op('eigval', a), op('eigvec', a))
    if n in ('linalg.eigvals', 'linalg.eigvalsh'):
        return op('eigval', val(args[0]))
    if n == 'linalg.norm':
        return op('norm', *[val(a) for a in args])
    if n == 'linalg.det':
        return op('det', val(args[0]))
    if n == 'linalg.matrix_power':
        k = val(args[1])
        if is_num(k) and 0 < k.args[0] <= 4:
            r = a = val(args[0])
            for _ in range(int(k.args[0]) - 1):
                r = tm.matmul(r, a)
            return r
        return None
    if n in MATH1:
        return op(n, *[val(a) for a in args])
    if n == 'shape':
        return shape_term(interp, val(args[0]))
    if n == 'ndim':
        return ndim(interp, val(args[0]))
    if n == 'size':
        return size_of(interp, val(args[0]))
    if n == 'nan_to_num':
        return op('nan_to_num', val(args[0]))
    if n == 'may_share_memory':
        return atom(mk('shares', val(args[0]), val(args[1])))
    return None


def sums_to_one(w):
    return False


def cond_of(interp, v):
    if is_bool(v):
        return v
    if v.op == 'cond':
        return v.args[0]
    return interp.truth(v) if interp.scalar_mode or v.op == 'ite' else tm.truth(v)


def scalar_full(interp, shape, v):
    """Constant array in batch algebra: constant, or list of constants when the shape has a second dimension"""
    s = shape_arg(interp, shape)

    def f(t):
        if t.op == 'tuple' and len(t.args) == 2:
            w = t.args[1]
            if w is ONE:
                return v
            return tm.full(mk('tuple', w), v)
        if t.op == 'tuple' and len(t.args) == 1 and t.args[0] is ONE:
            return v
        if t.op == 'shape':
            return v if tm.is_scalar(t.args[0]) else tm.full(t, v)
        return tm.full(t, v)
    return lifted(f)(s)


def absv(interp, v):
    if interp.scalar_mode:
        def f(t):
            if t.op == 'arr' or has_list(t):
                return tm.absv(t)
            return ite(tm.lt(t, ZERO), tm.neg(t), t)
        return lifted(f)(v)
    return tm.absv(v)


def size_of(interp, v):
    def f(t):
        r = rank(t)
        if r == 1 or t.op == 'arr':
            return dim(interp, t, 0)
        if r == 2:
            return tm.mul(dim(interp, t, 0), dim(interp, t, 1))
        return typed(mk('size', t), INT)
    return lifted(f)(v)


# ---------------------------------------------------------------- external calls
# parameter names (and constant defaults) of the library functions the code calls
SIGNATURES = {
    'scipy.integrate.trapezoid': [('y',), ('x', None), ('dx', 1), ('axis', -1)],
    'scipy.interpolate.interp1d': [('x',), ('y',), ('kind', 'linear'), ('axis', -1), ('copy', True),
                                   ('bounds_error', None), ('fill_value',), ('assume_sorted', False)],
    'scipy.interpolate.LSQUnivariateSpline': [('x',), ('y',), ('t',), ('w', None), ('bbox',), ('k', 3), ('ext', 0),
                                              ('check_finite', False)],
    'scipy.optimize.minimize': [('fun',), ('x0',), ('args',), ('method', None), ('jac', None), ('hess', None),
                                ('hessp', None), ('bounds', None), ('constraints',), ('tol', None),
                                ('callback', None), ('options', None)],
    'h5py.File': [('name',), ('mode', 'r'), ('driver', None)],
    'pandas.DataFrame': [('data', None), ('index', None), ('columns', None), ('dtype', None), ('copy', None)],
    'pandas.concat': [('objs',), ('axis', 0), ('join', 'outer'), ('ignore_index', False)],
    '.create_dataset': [('name',), ('shape', None), ('dtype', None), ('data', None)],
    '.create_group': [('name',)],
    '.require_group': [('name',)],
    '.get': [('key',), ('default', None)],
    '.model_dump': [],
    '.sort_values': [('by',), ('axis', 0), ('ascending', True), ('inplace', False), ('kind', 'quicksort'),
                     ('na_position', 'last'), ('ignore_index', False), ('key', None)],
    '.groupby': [('by', None), ('axis', 0), ('level', None), ('as_index', True), ('sort', True), ('group_keys', True)],
    '.drop': [('labels', None), ('axis', 0), ('index', None), ('columns', None), ('level', None), ('inplace', False)],
    '.rename': [('mapper', None), ('index', None), ('columns', None), ('axis', None), ('copy', None),
                ('inplace', False)],
    '.get_storer': [('key',)],
    '.add_step': [('mode',), ('value',), ('tspan',), ('limits', None)],
    '.resize': [('size',), ('axis', None)],
}


def by_name(name, args, kwargs):
    """Name the positional arguments of a known library function and drop those at their default"""
    sig = SIGNATURES.get(name)
    if sig is None or len(args) > len(sig) or any(a.op == 'star' for a in args):
        return args, kwargs
    kw = dict(kwargs)
    for a, p in zip(args, sig):
        if p[0] in kw:
            return args, kwargs
        kw[p[0]] = a
    for p in sig:
        if len(p) > 1 and p[0] in kw and isinstance(kw[p[0]], T):
            d = kw[p[0]]
            if d is NONE and p[1] is None or (d.op == 'c' and p[1] is not None and d is tm.const(p[1])):
                del kw[p[0]]
    return [], kw


def ext_args(interp, args, kwargs, name=None):
    args, kwargs = by_name(name, args, kwargs)
    ks = sorted(k for k in kwargs if k != '**')
    vals = [interp.val(a) for a in args] + [interp.val(kwargs[k]) for k in ks]
    names = tuple(ks)
    if '**' in kwargs:
        names += ('**',) * len(kwargs['**'])
        vals += [interp.val(x) for x in kwargs['**']]
    return len(args), names, vals


def call_ext(interp, name, args, kwargs, node=None):
    I = _I()
    if any(a is I.BOT for a in args):
        return I.BOT
    if name.startswith('builtins.'):
        return call_builtin(interp, name[9:], args, kwargs, node)
    if name.startswith('numpy.') and not name.startswith('numpy.random'):
        if not any(a.op == 'star' for a in args) or name == 'numpy.broadcast_arrays':
            # choose between alternatives before the arguments are flattened
            alt = [j for j, a in enumerate(args) if a.op == 'ite' and any(
                z.op in ('ref', 'tuple', 'seq') for z in interp.leaves(a)) and any(
                    z.op == 'ref' and isinstance(interp.cell(z.args[0]), I.Lst) or z.op in ('tuple', 'seq')
                    for z in interp.leaves(a))]
            if alt:
                j = alt[0]
                return interp.split(args[j], lambda x: call_ext(interp, name, args[:j] + [x] + args[j + 1:], kwargs, node))
            out = kwargs.get('out')
            kw = {k: v for k, v in kwargs.items() if k not in ('out', 'dtype', 'copy', 'keepdims')}
            r = np_call(interp, name[6:], list(args), kw, node)
            if r is not None:
                r = of_type(interp, r, name[6:], args, kwargs, node)
                if out is not None and out is not NONE and out.op == 'ref':
                    interp.store_array(out.args[0], FULL, interp.val(r))
                    return out
                return r
    if any(name == r or (r.endswith('.') and name.startswith(r)) for r in RANDOMS):
        interp.rng.append((name, tm.CUR_LOC[0]))
    if name in ('copy.deepcopy', 'copy.copy'):
        return interp.copy_ref(args[0], name.endswith('deepcopy'))
    if name == 'functools.partial':
        return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    if name == 'functools.reduce':
        acc = {'v': args[2] if len(args) > 2 else None}
        return interp.unk('reduce', node)
    if name in ('itertools.chain',):
        return mk('lazy', 'chain', tuple(args))
    if name == 'itertools.chain.from_iterable':
        segs = []
        return segs_to_seq(interp, chain_segs(interp, args[0], node))
    if name == 'itertools.islice':
        a = [interp.val(x) for x in args[1:]]
        lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        return subscript(interp, as_list_ref(interp, args[0]), mk('slice', lo, hi, NONE), node)
    if name == 'flatten_dict.flatten':
        r = flatten_dict(interp, args, kwargs)
        if r is not None:
            return r
    if name == 'itertools.count':
        return mk('lazy', 'count', args[0] if args else ZERO)
    if name in ('tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.trange'):
        return args[0] if args else kwargs.get('iterable', NONE)
    if name == 'contextlib.nullcontext':
        return mk('call', 'contextlib.nullcontext', (), *[interp.val(a) for a in args])
    if name in ('scipy.linalg.block_diag',):
        s = seq(*[splice(a.args[0]) if a.op == 'star' else item(interp.val(a)) for a in args])
        s = interp.reify(s)
        return lifted(lambda z: mk('blockdiag', z))(lift_items(s))
    if name.startswith('logging.') or name.startswith('warnings.'):
        if name == 'logging.getLogger':
            return mk('ext', 'logger')
        return NONE
    if name.startswith('logger.'):
        return NONE
    if name.startswith('scipy.linalg.') :
        r = np_call(interp, 'linalg.' + name.split('.')[-1], list(args), kwargs, node)
        if r is not None:
            return r
    if name in ('numpy.vectorize',):
        return interp.unk('vectorize', node)
    if name == 'json.loads':
        pass
    if name.split('.')[-1] in ('Field', 'PrivateAttr'):
        return mk('field')
    if name.split('.')[-1].endswith('Error') or name.split('.')[-1].endswith('Exception'):
        return mk('exc', name.split('.')[-1])
    n, names, vals = ext_args(interp, args, kwargs, name)
    t = op('call', name, names, *vals)
    if name.split('.')[-1] in ('iterate_records_from_file', 'iterate_cycles_from_file'):
        return interp.new(I.Val(t))
    if is_handle(t):
        interp.effect(mk('open', t))
    elif name == 'pandas.HDFStore':
        interp.effect(mk('open', t))
    return t


def chain_segs(interp, it, node):
    out = []
    for s in iter_segments(interp, it, node):
        if s[0] == 'item':
            out.extend(iter_segments(interp, s[1], node))
        elif s[0] == 'rep':
            def fn(k, s=s):
                r = []
                for x in s[2](k):
                    if x[0] == 'item':
                        r.extend(iter_segments(interp, x[1], node))
                    else:
                        r.append(('item', interp.unk('chain', node)))
                return r
            out.append(('rep', s[1], fn))
        else:
            out.append(('item', interp.unk('chain', node)))
    return out


def as_list_ref(interp, v):
    if v.op == 'ref' and isinstance(interp.cell(v.args[0]), _I().Lst):
        return v
    return interp.new(_I().Lst(as_seq(interp, v)))


def integral(t):
    """Known to be an integer: int() leaves it"""
    if is_num(t):
        return t.args[0] == int(t.args[0])
    if t.typ is not None and t.typ.kind == 'int' or t.op in ('len', 'dim', 'loop', 'bound'):
        return True
    if t.op == 'poly':
        return all(c == int(c) and all(e > 0 and e == int(e) and integral(a) for a, e in m) for c, m in t.args[0])
    return False


def call_builtin(interp, n, args, kwargs, node):
    I = _I()
    val = interp.val
    if n == 'len':
        return call_len(interp, args[0])
    if n in ('float', 'int', 'round', 'bool', 'complex'):
        if not args:
            return ZERO
        v = val(args[0])
        if n == 'bool':
            return interp.truth(args[0])
        if n == 'float':
            if is_str(v):
                return mk('nan') if cval(v) == 'nan' else mk('inf') if cval(v) == 'inf' else const(float(cval(v)))
            if interp.scalar_mode or (v.typ is not None and v.typ.kind in ('int', 'float')) or tm.is_scalar(v):
                return v
            return lifted(lambda t: typed(mk('float', t), FLOAT) if not tm.is_scalar(t) else t)(v)
        if n == 'int':
            def f(t):
                if is_num(t):
                    return const(int(t.args[0]))
                if is_str(t):
                    try:
                        return const(int(t.args[0]))
                    except ValueError:
                        pass
                return t if integral(t) else typed(mk('int', t), INT)
            return lifted(f)(v)
        return op('round', *[val(a) for a in args])
    if n == 'str':
        if not args:
            return const('')
        v = val(args[0])
        return lifted(lambda t: fmt([t]))(v)
    if n == 'repr':
        return typed(op('repr', val(args[0])), STR)
    if n == 'abs':
        return absv(interp, num_of_bool(val(args[0])))
    if n == 'sum':
        s = as_seq(interp, args[0])
        s = interp.reify(s)
        start = val(args[1]) if len(args) > 1 else val(kwargs['start']) if 'start' in kwargs else ZERO

        def f(t):
            if t.op == 'seq':
                return tm.sum_seq(bool_items(t))
            return tm.total(t)
        if start.op in ('seq', 'tuple'):
            return interp.unk('sum of sequences', node)
        return tm.add(start, lifted(f)(s))
    if n in ('min', 'max'):
        if len(args) == 1 and 'key' not in kwargs:
            s = interp.reify(as_seq(interp, args[0]))

            def f(t):
                if t.op == 'seq' and t.args and all(x.op == 'item' for x in t.args):
                    return tm.minmax(n, [x.args[0] for x in t.args])
                return mk(n + 'of', t)
            return lifted(f)(s)
        if 'key' in kwargs:
            return interp.unk(n + ' with key', node)
        return lifted(lambda *ts: tm.minmax(n, ts))(*[val(a) for a in args])
    if n in ('list', 'tuple'):
        s = seq() if not args else as_seq(interp, args[0])
        if s.op == 'ite':
            if n == 'tuple':
                return s
            return interp.split(s, lambda x: interp.new(I.Lst(x)) if x.op not in ('ref', 'tuple') else
                                call_builtin(interp, n, [x], {}, node))
        if n == 'tuple':
            if s.op == 'seq' and all(x.op == 'item' for x in s.args):
                return mk('tuple', *[x.args[0] for x in s.args])
            return s
        return interp.new(I.Lst(s))
    if n in ('set', 'frozenset'):
        if not args:
            return interp.new(I.Val(mk('set')))
        s = interp.reify(as_seq(interp, args[0]))
        if s.op == 'seq' and all(x.op == 'item' for x in s.args):
            t = mk('set')
            for x in s.args:
                t = set_add(t, x.args[0])
            return interp.new(I.Val(t))
        return interp.new(I.Val(s if is_setlike(s) else op('setof', s)))
    if n == 'dict':
        if args:
            a = args[0]
            es = dict_entries(interp, a)
            if es is not None:
                r = interp.new(I.Dct(tuple(es), None))
            elif a.op == 'ref' and isinstance(interp.cell(a.args[0]), I.Dct):
                r = interp.new(interp.cell(a.args[0]))
            elif a.typ is not None and a.typ.kind == 'dict':
                r = interp.new(I.Dct((), val(a)))
            else:
                s = as_seq(interp, a)
                r = interp.split(s, lambda x: dict_from_pairs(interp, x))
                if r.op != 'ref':
                    return r
        else:
            r = interp.new(I.Dct((), None))
        c = interp.cell(r.args[0])
        es = list(c.entries)
        for k, v in kwargs.items():
            if k == '**':
                for d in v:
                    dict_update(interp, r, d)
                es = list(interp.cell(r.args[0]).entries)
            else:
                kk = const(k)
                es = [(a, b) for a, b in es if a is not kk] + [(kk, interp.box(v))]
        interp.heap[r.args[0]] = I.Dct(tuple(es), interp.cell(r.args[0]).base)
        return r
    if n == 'range':
        a = [num_of_bool(val(x)) for x in args]
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)
        return op('range', lo, hi, st)
    if n == 'enumerate':
        d = pull(['iterable', 'start'], args, kwargs)
        return mk('lazy', 'enumerate', d['iterable'], val(d.get('start', ZERO)))
    if n == 'zip':
        if any(a.op == 'star' for a in args):
            if len(args) == 1:
                s = args[0].args[0]
                if s.op == 'tuple' or s.op == 'seq' and all(x.op == 'item' for x in s.args):
                    return mk('lazy', 'zip', tuple(s.args if s.op == 'tuple' else [x.args[0] for x in s.args]))
            return mk('apply', mk('ext', 'builtins.zip'), tuple(val(a) for a in args), ())
        return mk('lazy', 'zip', tuple(args))
    if n == 'reversed':
        return mk('lazy', 'reversed', args[0])
    if n == 'map':
        if len(args) == 2:
            return mk('lazy', 'map', args[0], args[1])
        return interp.unk('map', node)
    if n == 'filter':
        return interp.unk('filter', node)
    if n == 'iter':
        return args[0] if args[0].op in ('lazy', 'range') else as_list_ref(interp, args[0]) if args[0].op != 'ref' or \
            not isinstance(interp.cell(args[0].args[0]), I.Lst) else interp.new(interp.cell(args[0].args[0]))
    if n == 'next':
        return call_next(interp, args, node)
    if n == 'sorted':
        if args[0].op == 'lazy' and args[0].args[0] in ('items', 'keys') and isinstance(args[0].args[1], T):
            # the members of a dictionary, in another order
            d = args[0].args[1]
            t = typed(mk('ordered', val(d), *[val(v) for _, v in sorted(kwargs.items())]), interp.val(d).typ)
            if t.typ is not None and t.typ.kind == 'dict':
                return interp.new(I.Lst(as_seq(interp, mk('lazy', args[0].args[0], t))))
        s = interp.reify(as_seq(interp, args[0]))
        if not kwargs and s.op == 'seq' and len(s.args) == 2 and all(x.op == 'item' and tm.is_scalar(x.args[0]) for x in s.args):
            x, y = s.args[0].args[0], s.args[1].args[0]
            return interp.new(I.Lst(seq(item(tm.minmax('min', [x, y])), item(tm.minmax('max', [x, y])))))
        extra = tuple((k, val(v)) for k, v in sorted(kwargs.items()))
        r = op('sorted', s, *[x for _, x in extra])
        return interp.new(I.Lst(r))
    if n in ('all', 'any'):
        s = interp.reify(as_seq(interp, args[0]))

        def f(t):
            if t.op == 'seq' and all(x.op == 'item' for x in t.args):
                cs = [interp.truth(x.args[0]) for x in t.args]
                return b_and(*cs) if n == 'all' else b_or(*cs)
            if t.op == 'seq':
                r = TRUE if n == 'all' else FALSE
                for x in t.args:
                    if x.op == 'item':
                        c = interp.truth(x.args[0])
                    elif x.op == 'rep' and x.args[1].op == 'seq' and len(x.args[1].args) == 1 and x.args[1].args[0].op == 'item':
                        k = tm.fresh_loop('k')
                        c = interp.truth(tm.unbind(x.args[1].args[0].args[0], x.args[2], k))
                        c = tm.exists(x.args[0], k, b_not(c) if n == 'all' else c)
                        if n == 'all':
                            c = b_not(c)
                    else:
                        c = atom(mk(n + 'of', x))
                    r = b_and(r, c) if n == 'all' else b_or(r, c)
                return r
            return atom(mk(n + 'of', t)) if not (t.op in ('arr',)) else (np_all(interp, t) if n == 'all' else np_any(interp, t))
        v = args[0]
        if v.op == 'ref' and isinstance(interp.cell(v.args[0]), (I.Val, I.View)):
            t = interp.read_ref(v.args[0])
            return np_all(interp, t) if n == 'all' else np_any(interp, t)
        return lifted(f)(s)
    if n == 'isinstance':
        return is_instance(interp, args[0], args[1])
    if n == 'issubclass':
        if args[0].op == 'cls' and args[1].op == 'cls':
            return TRUE if interp.repo.subclass_of(interp.repo.classes[args[0].args[0]],
                                                   interp.repo.classes[args[1].args[0]]) else FALSE
        return lifted(lambda a, b: atom(mk('issub', a, b)))(val(args[0]), val(args[1]))
    if n == 'hasattr':
        return has_attr(interp, args[0], val(args[1]))
    if n == 'getattr':
        nm = val(args[1])
        return interp.split(args[0], lambda x: get_attr(interp, x, nm, args[2] if len(args) > 2 else None, node))
    if n == 'setattr':
        nm = val(args[1])
        if is_str(nm):
            interp.store_attr(args[0], cval(nm), args[2])
        else:
            set_attr_sym(interp, args[0], nm, args[2])
        return NONE
    if n == 'type':
        x = args[0]

        def f(x):
            if x.op == 'ref':
                c = interp.cell(x.args[0])
                if isinstance(c, I.Obj) and not interp.is_open(c) and c.cls is not None:
                    return mk('cls', c.cls.qual)
            return op('attr', val(x), '__class__')
        return interp.split(x, f)
    if n in ('print', 'breakpoint', 'input', 'exec', 'eval', 'compile'):
        if n != 'print':
            return interp.unk(n, node)
        return NONE
    if n == 'id' or n == 'hash':
        interp.rng.append((n + '()', tm.CUR_LOC[0]))
        return op(n, val(args[0]))
    if n == 'divmod':
        a, b = val(args[0]), val(args[1])
        return mk('tuple', tm.floordiv(a, b), tm.mod(a, b))
    if n == 'slice':
        a = [val(x) for x in args]
        lo, hi, st = (NONE, a[0], NONE) if len(a) == 1 else (a[0], a[1], NONE) if len(a) == 2 else tuple(a)
        return mk('slice', lo, hi, st)
    if n == 'super':
        return interp.unk('super', node)
    if n == 'callable':
        return TRUE if args[0].op in ('fn', 'func', 'meth', 'cls') else atom(mk('callable', val(args[0])))
    if n == 'vars':
        return op('attr', val(args[0]), '__dict__')
    if n == 'object':
        return mk('obj', 'object', ())
    if n == 'open':
        t = op('call', 'open', tuple(sorted(kwargs)), *([val(a) for a in args] + [val(kwargs[k]) for k in sorted(kwargs)]))
        interp.effect(mk('open', t))
        return t
    if n.endswith('Error') or n.endswith('Exception') or n in ('StopIteration', 'Warning'):
        return mk('exc', n)
    m, names, vals = ext_args(interp, args, kwargs)
    return op('call', n, names, *vals)


def bool_items(t):
    """Booleans summed as numbers"""
    out = []
    for s in t.args:
        if s.op == 'item' and is_bool(s.args[0]):
            out.append(item(num_of_bool(s.args[0])))
        elif s.op == 'rep' and s.args[1].op == 'seq':
            out.append(mk('rep', s.args[0], bool_items(s.args[1]), s.args[2]))
        else:
            out.append(s)
    return mk('seq', *out)


def call_next(interp, args, node):
    I = _I()
    v = args[0]

    def one(x):
        if x.op == 'ref':
            i = x.args[0]
            c = interp.cell(i)
            if isinstance(c, I.Lst):
                s = c.v
                first = seq_item(interp, s, ZERO)
                if s.op == 'seq' and s.args and s.args[0].op == 'item':
                    rest = seq(*s.args[1:])
                else:
                    rest = _index_val(interp, interp.reify(s), mk('slice', ONE, NONE, NONE))
                interp.heap[i] = I.Lst(rest)
                return first
            if isinstance(c, (I.Val, I.View)):
                t = interp.read_ref(i)
                interp.heap[i] = I.Val(_index_val(interp, t, mk('slice', ONE, NONE, NONE)))
                return interp.lift(tm.index(t, ZERO))
        if len(args) > 1:
            return interp.unk('next with default', node)
        segs = iter_segments(interp, x, node)
        if segs and segs[0][0] == 'item':
            return segs[0][1]
        return interp.lift(tm.index(interp.val(x), ZERO))
    if len(args) > 1:
        # first member satisfying a condition
        return interp.unk('next with default', node)
    return interp.split(v, one)


EXT_CLASS = {
    'numpy.ndarray': ('arr', 'num'), 'builtins.str': ('str',), 'builtins.int': ('int',), 'builtins.float': ('float', 'int'),
    'builtins.list': (), 'numbers.Number': ('int', 'float'), 'builtins.bool': ('bool',), 'builtins.tuple': ('tuple',),
}


def is_instance(interp, v, c):
    I = _I()
    c = interp.restrict(c)
    if c.op == 'tuple':
        return b_or(*[is_instance(interp, v, x) for x in c.args])
    if c.op == 'ref' and isinstance(interp.cell(c.args[0]), I.Lst):
        return is_instance(interp, v, interp.cell(c.args[0]).v)
    if c.op == 'seq':
        return b_or(*[is_instance(interp, v, x.args[0]) for x in c.args if x.op == 'item'])
    v = interp.restrict(v)
    if v.op == 'ite':
        return tm.leafmap(v, lambda z: is_instance(interp, z, c))
    if v is I.BOT:
        return FALSE
    cname = c.args[0] if c.op in ('cls', 'ext') else None
    short = cname.split('.')[-1] if cname else ''
    if v is NONE:
        return TRUE if short in ('NoneType', 'object') else FALSE
    if c.op == 'cls':
        cls = interp.repo.classes[c.args[0]]
        if v.op == 'ref':
            cell = interp.cell(v.args[0])
            if isinstance(cell, I.Obj):
                if interp.repo.subclass_of(cell.cls, cls):
                    return TRUE
                if interp.is_open(cell) and interp.repo.subclass_of(cls, cell.cls):
                    return atom(mk('isinst', interp.reify(v), cls.qual))
                return FALSE
            if isinstance(cell, (I.Lst, I.Dct)):
                return FALSE
            t = interp.read_ref(v.args[0])
            if t.op == 'ite':
                return is_instance(interp, t, c)
            return term_instance(interp, t, cname)
        if v.op in ('tuple', 'seq', 'c', 'lazy', 'fn', 'func'):
            return FALSE
        return term_instance(interp, v, cname)
    if cname is None:
        return lifted(lambda a, b: atom(mk('isinst', a, b)))(interp.val(v), interp.val(c))
    if v.op == 'ref':
        cell = interp.cell(v.args[0])
        if isinstance(cell, I.Obj):
            if any(str(b).split('.')[-1] == short for k in interp.repo.mro(cell.cls) for b in k.ext_bases):
                return TRUE
            return FALSE
        if isinstance(cell, I.Lst):
            return TRUE if short in ('list', 'List', 'Sequence', 'MutableSequence', 'Iterable', 'Collection', 'Sized', 'Container') else FALSE
        if isinstance(cell, I.Dct):
            return TRUE if short in ('dict', 'Dict', 'Mapping', 'MutableMapping', 'Sized', 'Iterable', 'Collection', 'Container') else FALSE
        t = interp.read_ref(v.args[0])
        if t.op == 'ite':
            return is_instance(interp, t, c)
        return term_instance(interp, t, cname)
    if v.op == 'tuple':
        return TRUE if short in ('tuple', 'Tuple', 'Sequence', 'Iterable', 'Collection', 'Sized', 'Container') else FALSE
    if v.op == 'seq':
        return TRUE if short in ('tuple', 'Tuple', 'Sequence', 'Iterable', 'Collection', 'Sized', 'Container') else FALSE
    if v is TRUE or v is FALSE:
        return TRUE if short in ('bool', 'int', 'Number', 'object') else FALSE
    if is_str(v):
        return TRUE if short in ('str', 'Sized', 'Iterable', 'Collection', 'Container', 'Sequence') else FALSE
    if is_num(v):
        return TRUE if short in ('float', 'int', 'Number', 'integer', 'floating', 'Real') else FALSE
    return term_instance(interp, v, cname)


SHAPED = {'full', 'eye', 'hcat', 'vcat', 'mm', 'T', 'diagm', 'inv', 'arr', 'blockdiag', 'chol', 'repeat', 'tile', 'linspace'}


def term_instance(interp, t, cname):
    short = cname.split('.')[-1]
    ty = t.typ
    if t.op in SHAPED:
        return TRUE if short in ('ndarray', 'Sized', 'Iterable', 'Collection', 'Container') else FALSE
    if is_setlike(t):
        return TRUE if short in ('set', 'Set', 'Iterable', 'Collection', 'Sized', 'Container') else FALSE
    if ty is not None and ty.kind not in ('any', 'num', 'cls'):
        k = ty.kind
        if k == 'ext':
            if ty.args[0].split('.')[-1] == short:
                return TRUE
            if ty.args[0].split('.')[0] != cname.split('.')[0]:
                return FALSE
            if short in ('str', 'int', 'float', 'list', 'tuple', 'dict', 'ndarray', 'List', 'Tuple', 'Dict') or \
                    cname in interp.repo.classes:
                return FALSE
        elif k == 'arr':
            return TRUE if short in ('ndarray', 'Sized', 'Iterable', 'Collection', 'Container') else FALSE
        elif k == 'str':
            return TRUE if short in ('str', 'Sized', 'Iterable', 'Collection', 'Container', 'Sequence') else FALSE
        elif k in ('int', 'float'):
            if interp.scalar_mode and short in ('ndarray', 'float', 'int', 'Number', 'list', 'List'):
                return atom(mk('isinst', t, cname)) if short != 'list' and short != 'List' else FALSE
            if short in ('float', 'int', 'Number'):
                return TRUE if short in ('Number', k) else FALSE
            return FALSE
        elif k in ('seq', 'tuple'):
            if short in ('tuple', 'Tuple'):
                return TRUE if not ty.list else FALSE
            if short in ('list', 'List'):
                return TRUE if ty.list else FALSE
            if short in ('Sequence', 'Iterable', 'Collection', 'Sized', 'Container'):
                return TRUE
            return FALSE
        elif k == 'dict':
            return TRUE if short in ('dict', 'Dict', 'Mapping', 'MutableMapping', 'Sized', 'Iterable', 'Collection', 'Container') else FALSE
        elif k == 'bool':
            return TRUE if short == 'bool' else FALSE
        elif k == 'set':
            return TRUE if short in ('set', 'Set', 'Iterable', 'Collection', 'Sized', 'Container') else FALSE
    if cname == 'h5py.Group' and is_handle(t):
        return atom(mk('isinst', t, cname))
    short = {'List': 'list', 'Tuple': 'tuple', 'Dict': 'dict'}.get(short, short)
    return atom(mk('isinst', t, 'builtins.' + short if short in ('list', 'tuple', 'dict') else cname))


def has_attr(interp, v, n):
    I = _I()
    v = interp.restrict(v)
    if v.op == 'ite':
        return tm.leafmap(v, lambda z: has_attr(interp, z, n))
    if v.op == 'ref' and is_str(n):
        c = interp.cell(v.args[0])
        if isinstance(c, I.Obj):
            name = cval(n)
            if any(f == name for f, _ in c.fields) or interp.repo.find(c.cls, name) or interp.repo.field(c.cls, name):
                return TRUE
            if c.base is None:
                return FALSE
    return atom(mk('hasattr', interp.val(v), n))


def get_attr(interp, x, nm, default, node):
    I = _I()
    if x is I.BOT:
        return I.BOT
    if nm.op == 'ite':
        return tm.leafmap(nm, lambda z: get_attr(interp, x, z, default, node))
    if is_str(nm):
        if default is not None:
            c = has_attr(interp, x, nm)
            if c is FALSE:
                return default
            v = interp.getattr(x, cval(nm), node)
            return ite(c, v, default)
        return interp.getattr(x, cval(nm), node)
    t = interp.reify(x) if x.op == 'ref' else interp.val(x)
    return interp.lift(op('getattr', t, nm))


def set_attr_sym(interp, x, nm, v):
    """setattr with a computed name"""
    I = _I()

    def one(r):
        if r.op == 'ref' and isinstance(interp.cell(r.args[0]), I.Obj):
            c = interp.cell(r.args[0])
            t = op('setattr', interp.reify(r), nm, interp.val(v))
            set_type(t, Ty('cls', cls=c.cls, exact=not interp.is_open(c)))
            interp.heap[r.args[0]] = I.Obj(c.cls, t, ())
            return NONE
        if r.op in ('obj', 'with') or (r.typ is not None and r.typ.kind == 'cls'):
            l = interp.lift(r)
            if l.op == 'ref':
                return one(l)
        interp.effect(mk('setattr', interp.val(r), nm, interp.val(v)))
        return NONE
    interp.split(x, one)


@lifted
def dict_merge(a, b):
    """Members of b after, and in place of, those of a"""
    parts = []
    for x in (a, b):
        parts.extend(x.args if x.op == 'dictmerge' else [x])
    out = []
    for x in parts:
        if x.op == 'dict' and out and out[-1].op == 'dict' and not x.args[0]:
            continue
        out.append(x)
    return out[0] if len(out) == 1 else typed(mk('dictmerge', *out), Ty('dict', (ANY, ANY)))


def dict_update(interp, r, d):
    """r.update(d) for a dictionary cell"""
    I = _I()
    i = r.args[0]

    def one(d):
        c = interp.cell(i)
        es = dict_entries(interp, d)
        if es is None and d.op == 'ref':
            dc = interp.cell(d.args[0])
            if isinstance(dc, I.Dct):
                base = dc.base
                if base is not None:
                    if c.base is None and not c.entries:
                        interp.heap[i] = I.Dct(dc.entries, base)
                    else:
                        interp.heap[i] = I.Dct((), dict_merge(interp.reify(r), interp.reify(d)))
                    return NONE
                es = list(dc.entries)
        if es is None and not (d.op == 'ref' and isinstance(interp.cell(d.args[0]), I.Dct)):
            s = as_seq(interp, d)
            if s.op == 'seq' and all(x.op == 'item' and x.args[0].op == 'tuple' for x in s.args):
                es = [(interp.val(x.args[0].args[0]), x.args[0].args[1]) for x in s.args]
            else:
                if c.base is None and not c.entries:
                    interp.heap[i] = I.Dct((), interp.val(d))
                else:
                    interp.heap[i] = I.Dct((), dict_merge(interp.reify(r), interp.val(d)))
                return NONE
        out = list(c.entries)
        for k, v in es:
            old = [b for a, b in out if a is k]
            if v.op == 'ite' and I.ABSENT in list(interp.leaves(v)):
                prev = old[0] if old else I.ABSENT
                v = absent_or(v, prev)
            if old:
                out = [(a, (v if a is k else b)) for a, b in out]
            else:
                out.append((k, v))
        interp.heap[i] = I.Dct(tuple(out), c.base)
        return NONE
    interp.split(d, one)


# ---------------------------------------------------------------- attributes of arrays and opaque objects
METHOD_NAMES = {
    'copy', 'reshape', 'flatten', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'astype', 'sum', 'mean', 'max', 'min',
    'all', 'any', 'item', 'tolist', 'repeat', 'diagonal', 'dot', 'clip', 'fill', 'round', 'std', 'var', 'cumsum',
    'prod', 'argmax', 'argmin', 'conj', 'trace', 'sort', 'view', 'nonzero', 'tobytes', 'resize', 'put', 'take',
}


def array_attr(interp, v, name):
    I = _I()
    ref = v
    t = interp.val(v) if v.op == 'ref' else v
    if t is I.BOT:
        return t
    if name == 'shape':
        return lifted(lambda x: shape_term(interp, x))(t)
    if name == 'ndim':
        return ndim(interp, t)
    if name == 'size':
        return size_of(interp, t)
    if name == 'T':
        if interp.scalar_mode:
            return ref
        return flip(t)
    if name in ('flat', 'real'):
        return ref
    if name == 'values' and t.op == 'call' and t.args[0].startswith('pandas.'):
        return op('attr', t, 'values')
    if name == 'dtype':
        k = interp.narrow.get(ref.args[0]) if ref.op == 'ref' else None
        return mk('ext', 'numpy.' + k) if k is not None else op('attr', t, 'dtype')
    if name == 'args' and t.op == 'exc':
        return op('attr', t, 'args')
    if t.op in ('lazy', 'range', 'set', 'setof', 'setadd', 'setunion', 'fmt', 'seq', 'tuple') or t.op == 'c':
        return mk('bm', ref, name)
    if t.op == 'ite' and all(x.op in ('c', 'fmt') for x in interp.leaves(t)):
        return mk('bm', ref, name)
    if name in ALL_METHODS:
        return mk('bm', ref, name)
    r = lifted(lambda x: attr_of(interp, x, name))(t)
    return interp.lift(r)


def attr_of(interp, x, name):
    if x.op == 'call' and x.args[0] == 'model_validate':
        pass
    if x.op == 'setattr' and isinstance(x.args[1], str):
        if x.args[1] == name:
            return x.args[2]
        return attr_of(interp, x.args[0], name)
    if x.op in ('sym', 'fld', 'obj', 'with') and (x.typ is None or x.typ.kind != 'cls'):
        return mk('attr', x, name)
    return mk('attr', x, name)


STR_METHODS = {'format', 'join', 'startswith', 'endswith', 'split', 'rsplit', 'lower', 'upper', 'strip', 'replace', 'count', 'lstrip',
               'rstrip', 'removeprefix', 'removesuffix', 'partition', 'encode', 'decode', 'title', 'find'}
SET_METHODS = {'add', 'update', 'discard', 'remove', 'union', 'intersection', 'difference', 'issubset', 'issuperset',
               'isdisjoint', 'clear', 'pop'}
DICT_METHODS = {'get', 'items', 'keys', 'values', 'pop', 'update', 'setdefault', 'copy', 'clear'}
LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'copy', 'index', 'count', 'sort', 'reverse', 'clear'}
OBJ_METHODS = {'assign', 'iterrows', 'itertuples', 'reset_index', 'rename', 'drop', 'groupby', 'sort_values', 'to_numpy', 'head',
               'to_hdf', 'to_csv', 'create_group', 'create_dataset', 'require_group', 'resize', 'close', 'get_storer',
               'query', 'compute_features', 'add_summaries', 'tolist', 'isnull', 'notnull', 'dropna', 'fillna',
               'model_copy', 'model_dump', 'model_dump_json', 'cumsum', 'interpolate', 'apply', 'agg', 'flush', 'write', 'read', 'cache_clear', 'run',
               'solve', 'get_coeffs', 'pre', 'add_step', 'setdefault', 'unlink', 'exists', 'debug', 'info', 'warning', 'error'}
ALL_METHODS = METHOD_NAMES | STR_METHODS | SET_METHODS | DICT_METHODS | LIST_METHODS | OBJ_METHODS
MODEL_METHODS = {'model_copy', 'copy', 'model_dump', 'model_dump_json', 'dict', 'json', 'model_fields_set',
                 'model_post_init', 'model_validate', 'model_construct', '__eq__'}


def is_model_method(name):
    return name in MODEL_METHODS


def call_method(interp, recv, name, args, kwargs, node=None):
    I = _I()
    recv = interp.restrict(recv)
    if recv is I.BOT or any(a is I.BOT for a in args):
        return I.BOT
    if recv.op == 'ite' and any(z.op in ('ref', 'tuple', 'seq', 'lazy') or z is NONE for z in interp.leaves(recv)):
        return interp.split(recv, lambda r: call_method(interp, r, name, args, kwargs, node))
    if recv.op == 'ext':
        if recv.args[0] == 'object':
            return NONE
        return call_ext(interp, recv.args[0] + '.' + name, args, kwargs, node)
    if recv.op == 'cls':
        cls = interp.repo.classes[recv.args[0]]
        if name == 'model_construct':
            return interp.build_model(cls, kwargs, node)
        if name == 'model_validate' and len(args) == 1 and not kwargs:
            es = dict_entries(interp, args[0])
            if es is not None and all(is_str(k) for k, _ in es):
                return interp.instantiate(cls, [], {cval(k): v for k, v in es}, node)
        n, names, vals = ext_args(interp, args, kwargs)
        t = op('call', name, names, recv, *vals)
        set_type(t, Ty('cls', cls=cls, exact=True))
        return interp.lift(t)
    if recv.op == 'ref':
        c = interp.cell(recv.args[0])
        if isinstance(c, I.Lst):
            return list_method(interp, recv, c, name, args, kwargs, node)
        if isinstance(c, I.Dct):
            return dict_method(interp, recv, c, name, args, kwargs, node)
        if isinstance(c, I.Obj):
            return obj_method(interp, recv, c, name, args, kwargs, node)
        t = interp.read_ref(recv.args[0])
        return val_method(interp, recv, t, name, args, kwargs, node)
    if recv.op == 'tuple' or recv.op == 'seq':
        if name == 'index' or name == 'count':
            return op(name + 'of', interp.val(recv), interp.val(args[0]))
        return interp.unk('method %s of a tuple' % name, node)
    if recv.op == 'fmt' or is_str(recv) or (recv.op == 'ite' and all(is_strish(x) for x in interp.leaves(recv))):
        return str_method(interp, recv, name, args, kwargs, node)
    if recv.typ is not None and recv.typ.kind == 'seq' and name in ('index', 'count', 'copy'):
        if name == 'copy':
            return interp.new(I.Lst(recv))
        return op(name + 'of', recv, interp.val(args[0]))
    return val_method(interp, recv, recv, name, args, kwargs, node)


def str_method(interp, s, name, args, kwargs, node):
    vals = [interp.val(a) for a in args]
    kw = {k: interp.val(v) for k, v in kwargs.items() if k != '**'}
    if name == 'join':
        ms = interp.reify(as_seq(interp, args[0]))
        if ms.op == 'seq' and all(x.op == 'item' for x in ms.args):
            parts = []
            for j, x in enumerate(ms.args):
                if j:
                    parts.append(s)
                parts.append(x.args[0])
            return fmt(parts)
        return typed(op('join', s, ms), STR)
    if name == 'format' and is_str(s):
        import string
        parts = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(cval(s)):
                if lit:
                    parts.append(const(lit))
                if fld is None:
                    continue
                if fld == '':
                    x = vals[auto]
                    auto += 1
                elif fld.isdigit():
                    x = vals[int(fld)]
                else:
                    x = kw[fld]
                parts.append(x if not spec else mk('format', x, const(spec)))
            return fmt(parts)
        except (KeyError, IndexError, ValueError):
            pass

    if is_str(s) and all(is_str(v) or is_num(v) for v in list(vals) + list(kw.values())) and name in STR_METHODS:
        try:
            r = getattr(cval(s), name)(*[cval(v) for v in vals], **{k: cval(v) for k, v in kw.items()})
        except Exception:
            r = None
        if isinstance(r, (str, bool, int)):
            return const(r)
        if isinstance(r, list):
            return interp.new(_I().Lst(seq(*[item(const(x)) for x in r])))
    if name in ('startswith', 'endswith'):
        return lifted(lambda a, b: atom(mk(name, a, b)))(s, vals[0])
    if not is_str(s) and s.op != 'ite' and vals and is_str(vals[0]) and not (set(kw) - {'maxsplit'}):
        cut = cut_at(interp, s, name, cval(vals[0]), vals[1:] + list(kw.values()))
        if cut is not None:
            return cut
    ks = tuple(sorted(kw))
    r = op('mcall', name, ks, s, *(vals + [kw[k] for k in ks]))
    if name in ('lower', 'upper', 'strip', 'replace', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix', 'format'):
        typed(r, STR)
    if name == 'count':
        typed(r, INT)
    return r


def cut_at(interp, s, name, sep, more):
    """Splitting a text whose beginning is known where that beginning ends"""
    if name not in ('removeprefix', 'split', 'partition') or len(more) > 1 or sep == '':
        return None
    tests = [x for x in tm.walk(interp.pc) if x.op == 'startswith' and x.args[0] is s] + [
        mk('truth', x) for x in tm.walk(interp.pc) if x.op == 'mcall' and x.args[0] == 'startswith' and
        len(x.args) == 4 and x.args[2] is s]
    for x in tests:
        h = x.args[1] if x.op == 'startswith' else x.args[0].args[3]
        if not is_str(h) or tm.restrict_by(atom(x), interp.pc) is not TRUE:
            continue
        p = cval(h)
        rest = typed(op('index', s, norm_slice(mk('slice', const(len(p)), NONE, NONE))), STR)
        if name == 'removeprefix' and sep == p:
            return rest
        if p.endswith(sep) and p.count(sep) == 1:
            if name == 'partition':
                return mk('tuple', const(p[:-len(sep)]), const(sep), rest)
            if name == 'split' and more and more[0] is ONE:
                return interp.new(_I().Lst(seq(item(const(p[:-len(sep)])), item(rest))))
    return None


def list_method(interp, ref, c, name, args, kwargs, node):
    I = _I()
    i = ref.args[0]

    def put(s):
        interp.heap[i] = I.Lst(s)
        return NONE
    if name == 'append':
        return put(tm.seq_concat(c.v, seq(item(interp.box(args[0])))))
    if name == 'extend':
        return put(tm.seq_concat(c.v, as_seq(interp, args[0])))
    if name == 'insert':
        k = interp.val(args[0])
        x = item(interp.box(args[1]))
        if k is ZERO:
            return put(tm.seq_concat(seq(x), c.v))
        s = c.v
        if s.op == 'seq' and is_num(k) and all(z.op == 'item' for z in s.args[:int(abs(k.args[0]))]) and k.args[0] >= 0:
            l = list(s.args)
            l.insert(int(k.args[0]), x)
            return put(seq(*l))
        return put(seq(splice(interp.unk('insert', node))))
    if name == 'pop':
        k = interp.val(args[0]) if args else const(-1)
        s = c.v
        if s.op == 'seq' and s.args:
            if k is ZERO and s.args[0].op == 'item':
                put(seq(*s.args[1:]))
                return s.args[0].args[0]
            if is_num(k) and k.args[0] == -1 and s.args[-1].op == 'item':
                put(seq(*s.args[:-1]))
                return s.args[-1].args[0]
        r = interp.lift(tm.index(interp.reify(s), k))
        if k is ZERO:
            put(_index_val(interp, interp.reify(s), mk('slice', ONE, NONE, NONE)))
        elif is_num(k) and k.args[0] == -1:
            put(_index_val(interp, interp.reify(s), mk('slice', ZERO, const(-1), NONE)))
        else:
            put(op('popped', interp.reify(s), k))
        return r
    if name == 'copy':
        return interp.new(I.Lst(c.v))
    if name == 'clear':
        return put(seq())
    if name == 'reverse':
        return put(segs_to_seq(interp, reverse_segs(interp, segs_of_seq(interp, c.v))))
    if name == 'sort':
        return put(op('sorted', interp.reify(c.v), *[interp.val(v) for v in kwargs.values()]))
    if name == 'remove':
        return put(op('removed', interp.reify(c.v), interp.val(args[0])))
    if name in ('index', 'count'):
        return typed(op(name + 'of', interp.reify(c.v), interp.val(args[0])), INT)
    return interp.unk('method %s of a list' % name, node)


def dict_method(interp, ref, c, name, args, kwargs, node):
    I = _I()
    i = ref.args[0]
    if name == 'get':
        return dict_lookup(interp, ref, interp.val(args[0]), args[1] if len(args) > 1 else kwargs.get('default', NONE))
    if name in ('items', 'keys', 'values'):
        return mk('lazy', name, ref)
    if name == 'copy':
        return interp.new(c)
    if name == 'pop':
        k = interp.val(args[0])
        r = dict_lookup(interp, ref, k, args[1] if len(args) > 1 else I.UNDEF)
        es = tuple((a, b) for a, b in c.entries if a is not k)
        if c.base is not None and len(es) == len(c.entries):
            interp.heap[i] = I.Dct((), op('dictdel', interp.reify(ref), k))
        else:
            interp.heap[i] = I.Dct(es, c.base)
        return r
    if name == 'update':
        if args:
            dict_update(interp, ref, args[0])
        if kwargs:
            c = interp.cell(i)
            es = list(c.entries)
            for k, v in kwargs.items():
                if k == '**':
                    for d in v:
                        dict_update(interp, ref, d)
                    es = list(interp.cell(i).entries)
                    continue
                kk = const(k)
                es = [(a, b) for a, b in es if a is not kk] + [(kk, interp.box(v))]
            interp.heap[i] = I.Dct(tuple(es), interp.cell(i).base)
        return NONE
    if name == 'setdefault':
        k = interp.val(args[0])
        r = dict_lookup(interp, ref, k, args[1])
        interp.store_item(ref, k, r)
        return r
    if name == 'clear':
        interp.heap[i] = I.Dct((), None)
        return NONE
    return interp.unk('method %s of a dict' % name, node)


def dump_model(interp, ref):
    """Fields of a model of a known class as a dictionary, or None"""
    I = _I()
    c = interp.cell(ref.args[0])
    if interp.is_open(c) or not interp.repo.is_model(c.cls) or interp.repo.is_typeddict(c.cls):
        return None
    out = []
    for n, (ann, dflt, k) in interp.repo.model_fields(c.cls).items():
        if isinstance(dflt, ast.Call) and any(w.arg == 'exclude' for w in dflt.keywords):
            if not any(w.arg == 'exclude' and isinstance(w.value, ast.Constant) and w.value.value is True
                       for w in dflt.keywords):
                return None
            continue
        v = interp.getattr(ref, n)
        ls = list(interp.leaves(v))
        if any(x.op == 'ref' and isinstance(interp.cell(x.args[0]), (I.Obj, I.Dct, I.Lst)) or
               x.op in ('obj', 'with', 'tuple', 'seq', 'dict') or
               x.typ is not None and x.typ.kind in ('cls', 'dict', 'seq', 'tuple', 'any') for x in ls):
            return None
        out.append((const(n), v))
    return interp.new(I.Dct(tuple(out), None))


def flatten_dict(interp, args, kwargs):
    """flatten_dict.flatten of a dictionary which is already flat, or None"""
    I = _I()
    red = kwargs.get('reducer', args[1] if len(args) > 1 else None)
    if len(args) != 1 and len(args) != 2 or red is None or not is_str(interp.val(red)) or set(kwargs) - {'reducer'}:
        return None
    es = dict_entries(interp, args[0])
    if es is None or not all(is_str(k) for k, _ in es):
        return None
    for _, v in es:
        for x in interp.leaves(v):
            if x.op == 'ref' and not isinstance(interp.cell(x.args[0]), (I.Val, I.View)) or x.op in ('obj', 'with', 'dict'):
                return None
    return interp.new(I.Dct(tuple(es), None))


def obj_method(interp, ref, c, name, args, kwargs, node):
    """Methods the pydantic base class provides"""
    I = _I()
    if name in ('model_copy', 'copy'):
        deep = interp.val(kwargs.get('deep', args[1] if len(args) > 1 else FALSE))
        upd = kwargs.get('update', args[0] if args and name == 'model_copy' else NONE)
        if is_bool(deep):
            r = interp.branch(deep, lambda: (True, interp.copy_ref(ref, True)),
                              lambda: (True, interp.copy_ref(ref, False)))[1]
        else:
            r = interp.copy_ref(ref, False)
        if upd is not NONE and upd is not None:
            es = dict_entries(interp, upd)
            if es is None:
                return interp.unk('model_copy with computed update', node)
            for k, v in es:
                interp.set_field(r.args[0], cval(k), v)
        return r
    if name == 'model_dump' and not args and not kwargs:
        r = dump_model(interp, ref)
        if r is not None:
            return r
    if name in ('model_dump', 'model_dump_json', 'dict', 'json'):
        n, names, vals = ext_args(interp, args, kwargs)
        t = op('mcall', name, names, interp.reify(ref), *vals)
        if name in ('model_dump', 'dict'):
            set_type(t, Ty('dict', (STR, ANY)))
        else:
            set_type(t, STR)
        return interp.lift(t)
    n, names, vals = ext_args(interp, args, kwargs)
    return interp.lift(op('mcall', name, names, interp.reify(ref), *vals))


def val_method(interp, ref, t, name, args, kwargs, node):
    """Methods of arrays, sets and objects of other libraries"""
    I = _I()
    i = ref.args[0] if ref.op == 'ref' else None
    if is_strish(t) and name in STR_METHODS:
        return str_method(interp, t, name, args, kwargs, node)
    if name in ('removeprefix', 'split', 'partition') and args and t.op != 'ite' and not (set(kwargs) - {'maxsplit'}):
        sep = interp.val(args[0])
        cut = cut_at(interp, t, name, cval(sep), [interp.val(x) for x in list(args[1:]) + list(kwargs.values())]) \
            if is_str(sep) else None
        if cut is not None:
            return cut
    if is_setlike(t) or name in ('add', 'discard') and i is not None:
        r = set_method(interp, i, t, name, args, node)
        if r is not None:
            return r
    if t.op == 'ite' and any(is_handle(x) for x in interp.leaves(t)) or is_handle(t):
        return handle_method(interp, t, name, args, kwargs, node)
    if t.typ is not None and t.typ.kind == 'dict':
        if name in ('items', 'keys', 'values'):
            return mk('lazy', name, t)
        if name == 'get':
            return dict_lookup(interp, t, interp.val(args[0]), args[1] if len(args) > 1 else NONE)
    if name == 'get' and len(args) == 1 and not kwargs and t.op != 'ite' and interp.val(args[0]).op in ('c', 'fmt'):
        # a mapping of another library
        k = interp.val(args[0])
        return ite(in_test(interp, k, t), interp.lift(index_val(interp, t, k)), NONE)
    if name == 'copy' and (t.typ is not None and t.typ.kind == 'ext' and t.typ.args[0].startswith('pandas.') or
                           'deep' in kwargs):
        # a table of its own; only changes in place of a column of a shallow copy would reach the original
        r = interp.new(I.Val(t))
        deep = args[0] if args else kwargs.get('deep', TRUE)
        if deep is not TRUE:
            interp.shallow.add(r.args[0])
        return r
    if name == 'assign' and kwargs and not args:
        # a table of its own with some columns replaced, one after another
        for k, x in kwargs.items():
            if x.op in ('fn', 'lam', 'func', 'bm', 'meth') or x.op == 'ref' and not isinstance(
                    interp.cell(x.args[0]), (I.Val, I.View)):
                x = interp.call(x, [interp.new(I.Val(t))], {}, node)
            t = store_val(interp, t, const(k), interp.val(x))
        return interp.new(I.Val(t))
    if name in METHOD_NAMES and not (t.typ is not None and t.typ.kind == 'ext'):
        r = array_method(interp, ref, t, name, args, kwargs, node)
        if r is not None:
            return r
    if name in ('debug', 'info', 'warning', 'error', 'exception', 'critical') and t.op in ('call', 'ext'):
        return NONE
    n, names, vals = ext_args(interp, args, kwargs, "." + name)
    inplace = kwargs.get('inplace')
    if inplace is not None and inplace is TRUE and i is not None:
        ks = [k for k in sorted(kwargs) if k != 'inplace']
        r = op('mcall', name, tuple(ks), t, *([interp.val(a) for a in args] + [interp.val(kwargs[k]) for k in ks]))
        if r.op == 'mcall':
            r.typ = r.typ or t.typ
        interp.heap[i] = I.Val(r)
        return NONE
    r = op('mcall', name, names, t, *vals)
    if name in ('iterrows', 'itertuples'):
        # an iterator, which whoever takes its first member consumes
        return interp.new(I.Val(typed(r, Ty('seq', (ANY,)))))
    if name == 'groupby':
        typed(r, Ty('seq', (ANY,)))
    if name in I.EFFECT_METHODS and not name.startswith('require'):
        interp.effect(r)
        if i is not None and name not in ('close', 'flush'):
            interp.heap[i] = I.Val(op('after', t, name, *vals))
    if name in ('append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'sort', 'reverse', 'setdefault') \
            and i is not None:
        # a container whose kind is not known statically
        interp.heap[i] = I.Val(op('after', t, name, *vals))
    return interp.lift(r)


def set_method(interp, i, t, name, args, node):
    I = _I()
    if name == 'add':
        if i is not None:
            interp.heap[i] = I.Val(lifted(set_add)(t, interp.val(args[0])))
        return NONE
    if name in ('discard', 'remove'):
        if i is not None:
            interp.heap[i] = I.Val(op('setdel', t, interp.val(args[0])))
        return NONE
    if name == 'clear':
        if i is not None:
            interp.heap[i] = I.Val(mk('set'))
        return NONE
    if name == 'update' or name == 'union':
        s = interp.reify(as_seq(interp, args[0]))
        r = t
        if s.op == 'seq' and all(x.op == 'item' for x in s.args):
            for x in s.args:
                r = lifted(set_add)(r, x.args[0])
        else:
            r = op('setunion', *sorted((t, s if is_setlike(s) else op('setof', s)), key=lambda z: z.key))
        if name == 'union':
            return interp.new(I.Val(r))
        if i is not None:
            interp.heap[i] = I.Val(r)
        return NONE
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return lifted(lambda a, b: atom(mk(name, a, b)))(t, interp.val(args[0]))
    if name == 'copy':
        return interp.new(I.Val(t))
    return None


def handle_method(interp, t, name, args, kwargs, node):
    """Calls on files, groups and data sets are recorded in order"""
    I = _I()
    if name == 'get' and len(args) == 1 and not kwargs:
        # what is missing shows up as an error where it is used
        return op('index', t, interp.val(args[0]))
    n, names, vals = ext_args(interp, args, kwargs, "." + name)
    if name == 'require_group' and len(vals) == 1:
        # the group of this name, which is made when it is missing
        def create():
            interp.effect(op('mcall', 'create_group', names, t, *vals))
            return True, NONE
        interp.branch(b_not(in_test(interp, vals[0], t)), create, lambda: (True, NONE))
        return op('index', t, vals[0])
    r = op('mcall', name, names, t, *vals)
    if name in ('keys', 'items', 'values'):
        return typed(r, Ty('seq', (STR if name == 'keys' else ANY,)))
    if name not in ('get', '__contains__', 'keys', 'flush', 'len'):
        interp.effect(r)
    return r


def flattened(interp, v):
    """A vector: arrays joined along their first dimension are then joined end to end"""
    if v.op != 'ref':
        v = interp.new(_I().Val(interp.reify(v)))
    interp.flat.add(v.args[0])
    return v


def array_method(interp, ref, t, name, args, kwargs, node):
    I = _I()
    val = interp.val
    kw = {k: v for k, v in kwargs.items() if k not in ('dtype', 'order', 'keepdims', 'out', 'copy')}
    if name in ('flatten', 'ravel') and not interp.scalar_mode and not tm.is_scalar(t):
        return flattened(interp, ref if name == 'ravel' else t)
    if name in ('copy', 'flatten'):
        return t
    if name in ('reshape', 'ravel', 'squeeze', 'view', 'conj'):
        return ref
    if name == 'astype':
        k = narrow(val(args[0] if args else kwargs.get('dtype', NONE)))
        if k is not None:
            r = interp.new(I.Val(cast(t, k)))
            interp.narrow[r.args[0]] = k
            return r
        return t
    if name == 'item' or name == 'tolist':
        if name == 'tolist':
            if t.op == 'arr':
                return interp.new(I.Lst(t.args[0]))
            return typed(op('tolist', t), Ty('seq', (ANY,), lst=True))
        if interp.scalar_mode or tm.is_scalar(t):
            return t
        if args:
            return lifted(lambda x: tm.index(x, val(args[0])) if False else mk('index', x, val(args[0])))(t)
        return lifted(lambda x: typed(mk('item0', x), FLOAT))(t)
    if name in ('transpose', 'swapaxes'):
        return ref if interp.scalar_mode else flip(t)
    if name == 'fill':
        v = val(args[0])
        if ref.op == 'ref':
            interp.store_array(ref.args[0], FULL, v)
        return NONE
    if name == 'sort':
        if ref.op == 'ref':
            interp.heap[ref.args[0]] = I.Val(op('arrsort', t))
        return NONE
    if name == 'dot':
        return mmul(interp, t, val(args[0]), node)
    if name in ('sum', 'mean', 'max', 'min', 'all', 'any', 'repeat', 'diagonal', 'clip', 'std', 'var', 'cumsum', 'prod',
                'argmax', 'argmin', 'trace'):
        return np_call(interp, name, [t] + list(args), kw, node)
    if name == 'round':
        return op('round', t, *[val(a) for a in args])
    return None


# ---------------------------------------------------------------- loop summaries
_leaves = tm.leaves


def _map_leaves(t, f):
    if t.op == 'ite':
        return tm.leafmap(t, lambda z: _map_leaves(z, f))
    return f(t)


def _conds(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            out.add(x.args[0])
            stack.extend(x.args[1:])
    return out


def _numlike(t, p):
    return t is p or is_num(t) or t.op == 'poly'


def _sccs(nodes, edges):
    index, low, stack, on, out = {}, {}, [], set(), []

    def go(v):
        index[v] = low[v] = len(index)
        stack.append(v)
        on.add(v)
        for w in edges[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w is v:
                    break
            out.append(c)
    for v in nodes:
        if v not in index:
            go(v)
    return out


def summarise(interp, n, k, phi_terms, res, inits, node):
    """Closed forms of the locations a loop changes.

    Returns (value after the loop by location, value before iteration k by accumulator)."""
    I = _I()
    final, at = {}, {}
    carried = {l: p for l, p in phi_terms.items() if p is not I.UNDEF}
    by_p = {p: l for l, p in carried.items()}
    edges = {p: [q for q in by_p if q in tm.free_loop(res[l])] for p, l in by_p.items()}
    nonzero = b_not(tm.eq(n, ZERO))
    for comp in _sccs(list(by_p), edges):
        comp = sorted(comp, key=lambda p: list(by_p).index(p))
        if len(comp) == 1:
            p = comp[0]
            l = by_p[p]
            r = tm.subst(res[l], at)
            v = summarise_one(n, k, p, r, inits[l], nonzero)
            if v is not None:
                final[l], at[p] = v
                continue
        rs = {p: tm.subst(res[by_p[p]], at) for p in comp}
        anon = {p: mk('phi?') for p in comp}
        comp.sort(key=lambda p: (inits[by_p[p]].key, tm.bind(k, tm.subst(rs[p], anon))[0].key))
        ini = [inits[by_p[p]] for p in comp]
        for m, dst in ((n, final), (k, at)):
            f = tm.fold(m, k, comp, [rs[p] for p in comp], ini)
            for i, p in enumerate(comp):
                x = mk('foldout', f, i)
                if x.typ is None:
                    x.typ = p.typ
                dst[by_p[p] if dst is final else p] = x
    for l, p in phi_terms.items():
        if p is I.UNDEF:
            r = tm.subst(res[l], at) if res[l] is not I.UNDEF else I.UNDEF
            final[l] = r if r is I.UNDEF else tm.subst(r, {k: tm.sub(n, ONE)})
    return final, at


def summarise_one(n, k, p, r, init, nonzero):
    fl = tm.free_loop(r)
    if r is p:
        return init, init
    if p not in fl:
        last = tm.subst(r, {k: tm.sub(n, ONE)})
        prev = tm.subst(r, {k: tm.sub(k, ONE)})
        return ite(nonzero, last, init), ite(tm.eq(k, ZERO), init, prev)
    if any(p in tm.free_loop(c) for c in _conds(r)):
        return summarise_max(n, k, p, r, init)
    ls = _leaves(r)
    j = tm.fresh_loop('k')
    # growing list
    if any(x.op == 'seq' for x in ls):
        def rest(x):
            if x is p:
                return seq()
            if x.op == 'seq' and x.args and x.args[0].op == 'splice' and x.args[0].args[0] is p:
                return seq(*x.args[1:])
            return None
        parts = [rest(x) for x in ls]
        if all(x is not None and p not in tm.free_loop(x) for x in parts):
            body = _map_leaves(r, rest)
            out = tm.seq_concat(init, seq(tm.rep(n, k, body)))
            bj = tm.subst(body, {k: j})
            return out, tm.seq_concat(init, seq(tm.rep(k, j, bj)))
        return None
    # one entry stored per iteration
    if any(x.op == 'store' for x in ls):
        def one(x):
            if x is p:
                return None
            if x.op == 'store' and x.args[0] is p:
                return x.args[1], x.args[2]
            return False
        parts = [one(x) for x in ls]
        ixs = {x[0] for x in parts if x}
        if False in parts or len(ixs) != 1:
            return None
        ix = ixs.pop()
        if p in tm.free_loop(ix):
            return None
        v = _map_leaves(r, lambda x: tm.index(p, ix) if x is p else x.args[2])
        if k in tm.free_loop(ix):
            # every iteration visits its own entry, whose old value is the initial one
            v = tm.subst(v, {tm.index(p, ix): tm.index(init, ix)})
        if p in tm.free_loop(v):
            return None
        vj, ij = tm.subst(v, {k: j}), tm.subst(ix, {k: j})
        return scatter(n, k, ix, v, init), scatter(k, j, ij, vj, init)
    # sets
    if all(x is p or (x.op == 'setadd' and x.args[0] is p and p not in tm.free_loop(x.args[1])) for x in ls):
        body = _map_leaves(r, lambda x: seq() if x is p else seq(item(x.args[1])))

        def un(m, kk, b):
            s = mk('setof', seq(tm.rep(m, kk, b)))
            if init.op == 'set' and not init.args:
                return s
            return mk('setunion', *sorted((init, s), key=lambda z: z.key))
        return un(n, k, body), un(k, j, tm.subst(body, {k: j}))
    # dictionaries
    if all(x is p or (x.op == 'dictwith' and x.args[0] is p and p not in tm.free_loop(x.args[1])) for x in ls):
        body = _map_leaves(r, lambda x: seq() if x is p else seq(
            *[item(mk('tuple', a, b)) for a, b in sorted(x.args[1], key=lambda e: shape_key(e[0]))]))

        def upd(m, kk, b):
            new = mk('dictof', seq(tm.rep(m, kk, b)))
            if init.op == 'dict' and not init.args[0]:
                return new
            if init.op == 'dict':
                return mk('dictof', seq(*[item(mk('tuple', a, b2)) for a, b2 in init.args[0]],
                                        tm.rep(m, kk, b)))
            return mk('dictupd', init, new)
        return upd(n, k, body), upd(k, j, tm.subst(body, {k: j}))
    # tuples put together
    if init.op in ('tuple', 'seq') and all(x is p or x.op == 'poly' for x in ls):
        def added(x):
            if x is p:
                return seq()
            d = tm.sub(x, p)
            d = mk('seq', *[item(y) for y in d.args]) if d.op == 'tuple' else d
            return d if d.op == 'seq' and p not in tm.free_loop(d) else None
        parts = [added(x) for x in ls]
        if all(x is not None for x in parts):
            first = seq(*[item(y) for y in init.args]) if init.op == 'tuple' else init
            body = _map_leaves(r, added)
            return tm.seq_concat(first, seq(tm.rep(n, k, body))), \
                tm.seq_concat(first, seq(tm.rep(k, j, tm.subst(body, {k: j}))))
    # running sums
    if all(_numlike(x, p) for x in ls):
        d = tm.sub(r, p)
        if p not in tm.free_loop(d):
            return tm.add(init, tm.sum_over(n, k, d)), tm.add(init, tm.sum_over(k, j, tm.subst(d, {k: j})))
    return summarise_max(n, k, p, r, init)


def shape_key(t):
    """An order of terms that does not depend on the names of loop counters"""
    out = []
    for x in tm.walk(t):
        out.append(x.op if x.op in ('loop', 'bound') else ':'.join([x.op] + [str(a) for a in x.args if not isinstance(a, (tm.T, tuple))]))
    return sorted(out)


def summarise_max(n, k, p, r, init):
    """Running maximum or minimum"""
    which = None
    v = None
    if r.op in ('max', 'min') and p in r.args:
        rest = [x for x in r.args if x is not p]
        v = rest[0] if len(rest) == 1 else tm.minmax(r.op, rest)
        which = r.op
    else:
        ls = [x for x in _leaves(r) if x is not p]
        if len(set(ls)) == 1 and r.op == 'ite':
            v = ls[0]
            gt = tm.lt(p, v)
            for w, c in (('max', gt), ('max', tm.le(p, v)), ('min', tm.lt(v, p)), ('min', tm.le(v, p))):
                if ite(c, v, p) is r:
                    which = w
    if which is None or p in tm.free_loop(v):
        return None
    o = which + 'over'
    j = tm.fresh_loop('k')

    def mkover(m, kk, b):
        bb, bv = tm.bind(kk, b)
        return tm.minmax(which, [init, mk(o, m, bb, bv.args[0])])
    return mkover(n, k, v), mkover(k, j, tm.subst(v, {k: j}))


def scatter(n, k, ix, v, init):
    """Array `init` after the entries ix(k) := v(k) for all k in 0..n-1"""
    if ix is k and (tm.length(init) is n or (init.op == 'full' and init.args[0] is n)):
        return tm.arr(seq(tm.rep(n, k, seq(item(v)))))
    b, bv = tm.bind(k, mk('tuple', ix, v))
    return mk('scatter', n, b, bv.args[0], init)
