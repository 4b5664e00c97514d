"""Cells of a batch do not influence one another: every row of a result is computed from the same row of the inputs."""
from engine import cells as ce
from .common import Report

B, N = 3, 4                  # rows of a batch, points of an interpolated parameter


class Case:
    def __init__(self, title, batch, values, members, absent=()):
        self.title, self.batch, self.values, self.members, self.absent = title, batch, values, members, set(absent)

    def sizes(self, alone=False):
        r = ce.Sizes((lambda p: 1) if alone else self.batch, self.values, lambda p: self.members, self.absent)
        if not alone:
            self.used = r
        return r

    def rows_of(self, name):
        return self.batch(name) if name in self.used.rows else 1


def leaves(repo, c, path, members):
    out = []
    for n, (ann, dflt, owner) in repo.model_fields(c).items():
        p = '%s.%s' % (path, n)
        ty = repo.type_of(owner.module, ann, owner)
        if ty.kind == 'arr' and ty.args:
            out.append(p)
        elif ty.kind == 'cls':
            out += leaves(repo, ty.cls, p, members)
        elif ty.kind == 'seq' and ty.args and ty.args[0].kind == 'cls':
            for k in range(members):
                out += leaves(repo, ty.args[0].cls, '%s.%d' % (p, k), members)
    return out


def expected(deps, sizes_of, row):
    """What the row depends on, given what the only row of an unbatched evaluation depends on"""
    out = set()
    for s in deps:
        name, idx = s[0], s[1:]
        if idx and sizes_of(name) > 1:
            idx = (row,) + idx[1:]
        out.add((name,) + idx)
    return frozenset(out)


def rename(element, sizes_of, row):
    return frozenset(expected(p, sizes_of, row) for p in element)


def show(element):
    ps = sorted(sorted('%s[%s]' % (s[0], ', '.join(map(str, s[1:]))) for s in p) for p in element)
    out = ' + '.join('*'.join(p) for p in ps)
    return out if len(out) < 600 else out[:600] + ' …'


def outputs(v, prefix=''):
    """The arrays of a result"""
    if isinstance(v, ce.Obj):
        out = []
        for k, x in v.fields.items():
            out += outputs(x, '%s.%s' % (prefix, k) if prefix else k)
        return out
    if isinstance(v, (tuple, list)):
        return [o for k, x in enumerate(v) for o in outputs(x, '%s[%d]' % (prefix, k))]
    return [(prefix or 'value', v)]


def entry(repo, cls, method):
    for m in repo.modules.values():
        r = repo.lookup(m, cls)
        if r is not None and r[0] == 'class':
            fi = repo.find(r[1], method)
            if fi is not None:
                return r[1], fi
    return None, None


def check(repo, rep, title, cases, call, axis, functions):
    """Compare the rows of batched evaluations with the evaluation of one cell, on all paths

    call(machine, sizes) -> result;  axis: what the leading axes of the results are
    """
    undecided = []
    for case in cases:
        def run(d, case=case):
            # evaluating the row alone makes the same decisions
            m = ce.Machine(repo, d)
            m.module = None
            try:
                try:
                    whole = call(m, case.sizes(), d)
                except ce.Refused as e:
                    whole = e
                m2 = ce.Machine(repo, d)
                m2.alone = True
                try:
                    alone = call(m2, case.sizes(True), d)
                except ce.Refused as e:
                    alone = e
            except ce.Broken as e:
                return e
            finally:
                functions.update(m.functions)
                rep.count('call sites', m.calls)
            return whole, alone
        try:
            for d, out in ce.paths(run):
                rep.count('paths')
                bad = judge(out, case, axis)
                if bad:
                    key, where, text = bad
                    if not any(i['key'].endswith(':' + key) for i in rep.items):
                        rep.add(key, where, '%s, %s: %s' % (title, case.title, text))
                    break
        except ce.Undecided as e:
            undecided.append('%s: %s' % (case.title, e))
        except RecursionError:
            undecided.append('%s: depth' % case.title)
        rep.count('cases')
    return undecided


def judge(out, case, axis):
    if isinstance(out, ce.Broken):
        return 'shape', out.where, out.what
    whole, alone = out
    if isinstance(whole, ce.Refused) or isinstance(alone, ce.Refused):
        if type(whole) is not type(alone):
            return 'refused', str(whole if isinstance(whole, ce.Refused) else alone), 'only one of the batch and the cell is refused'
        return None
    a, b = dict(outputs(whole)), dict(outputs(alone))
    if set(a) != set(b):
        return 'fields', '', 'the batch has %s, a cell %s' % (sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if not isinstance(x, ce.Arr) or not isinstance(y, ce.Arr):
            if (x is None) != (y is None):
                return k, '', '%s is only present for %s' % (k, 'a cell' if x is None else 'the batch')
            continue
        r = axis(k, x, y, case)
        if r:
            return k, '', '%s %s' % (k, r)
    return None


def rows(k, x, y, case):
    """Two-dimensional results, rows first"""
    if x.ndim != 2 or y.ndim != 2:
        return 'has shape %s, %s for one cell' % (x.shape, y.shape)
    if y.shape[0] != 1:
        return 'has %d rows for one cell' % y.shape[0]
    if x.shape[0] not in (1, B) or x.shape[1] != y.shape[1]:
        return 'has shape %s for a batch of %d, %s for one cell' % (x.shape, B, y.shape)
    for b in range(B):
        for j in range(x.shape[1]):
            got = x.at((b if x.shape[0] > 1 else 0, j))
            want = rename(y.at((0, j)), case.rows_of, b)
            if got != want:
                return 'of row %d is made of %s instead of %s' % (b, show(got), show(want))
    return None


def grid(strict):
    """Three-dimensional values: rows of the parameters, rows of the states of charge, states of charge

    strict: one value for every pair of rows, else only rows of the same cell are looked at
    """
    def axis(k, x, y, case):
        if x.ndim != 3 or y.ndim != 3:
            return 'has shape %s, %s for one cell' % (x.shape, y.shape)
        if y.shape[:2] != (1, 1):
            return 'has shape %s for one cell' % (y.shape,)
        if x.shape[2] != y.shape[2] or x.shape[0] not in (1, B) or x.shape[1] not in (1, B):
            return 'has shape %s for a batch of %d, %s for one cell' % (x.shape, B, y.shape)
        if strict:
            shape = (max([case.batch(n) for n in case.used.rows if n.endswith('.base_values')]), case.batch('soc'))
            if x.shape[:2] != shape:
                return 'has shape %s for %d rows of parameters and %d of states of charge' % ((x.shape,) + shape)
        for i in range(B):
            for j in range(B):
                if i != j and not strict:
                    continue
                for c in range(x.shape[2]):
                    got = x.at((i if x.shape[0] > 1 else 0, j if x.shape[1] > 1 else 0, c))
                    e = y.at((0, 0, c))
                    want = frozenset(
                        expected([s for s in p if s[0] != 'soc'], case.rows_of, i) |
                        expected([s for s in p if s[0] == 'soc'], case.rows_of, j) for p in e)
                    if got != want:
                        return 'for parameters %d and state of charge %d is made of %s instead of %s' % (
                            i, j, show(got), show(want))
        return None
    return axis


def circuit_cases(repo, thorough, inputs):
    a, x, u = [repo_class(repo, n) for n in ('ECMASOH', 'ECMTransientVector', 'ECMInput')]
    out = []

    def case(title, batch, values, members, absent=()):
        def wide(p):
            return members if p.endswith('.i_rc') else values
        out.append(Case(title, batch, wide, members, absent))
    for values in (1, N):
        for members in (0, 1, 2, B):
            for ba in (1, B):
                for bx, bu in ((1, 1), (B, 1), (1, B), (B, B)):
                    if ba == bx == bu == 1 or bu > 1 and not inputs:
                        continue
                    for absent in ((), ('x.q0', 'a.c0')):
                        if absent and (values != N or members != 2):
                            continue
                        case('%s health, %s state, %s inputs, %d RC elements, %d points%s' % (
                            'batched' if ba > 1 else 'one', 'batched' if bx > 1 else 'one',
                            'batched' if bu > 1 else 'one', members, values, ', no capacitor' if absent else ''),
                            lambda p, ba=ba, bx=bx, bu=bu: {'a': ba, 'x': bx}.get(p[0], bu),
                            values, members, absent)
    for leaf in leaves(repo, a, 'a', 2) + leaves(repo, x, 'x', 2) + (leaves(repo, u, 'u1', 2) if inputs else []):
        for values in (1, N):
            for other in ((1,) if not thorough else (1, B)):
                def batch(p, leaf=leaf, other=other):
                    if p == leaf:
                        return B
                    return other if p[0] in 'ax' and p[0] != leaf[0] else 1
                case('only %s batched%s, %d points' % (leaf, '' if other == 1 else ' and the other side', values),
                     batch, values, 2)
    return out


def repo_class(repo, name):
    for m in repo.modules.values():
        for n, e in m.names.items():
            if n == name and e[0] == 'class':
                return e[1]
    return None


def circuit(method, argument, shard=0, shards=1):
    def rule(repo, opts):
        rep = Report('batch_' + method)
        model, fi = entry(repo, 'EquivalentCircuitModel', method)
        if fi is None:
            return rep.result({'paths': 1})
        u, x, a = repo_class(repo, 'ECMInput'), repo_class(repo, 'ECMTransientVector'), repo_class(repo, 'ECMASOH')

        def call(m, sizes, d):
            obj = make_model(repo, model)
            kw = {'new_inputs': ce.make(repo, u, 'u1', sizes), 'transient_state': ce.make(repo, x, 'x', sizes),
                  'asoh': ce.make(repo, a, 'a', sizes)}
            if argument:
                kw['previous_inputs'] = ce.make(repo, u, 'u0', sizes)
            return m.call_function(fi, [], kw, recv=obj)
        cases = circuit_cases(repo, opts.get('thorough'), not argument)
        und = check(repo, rep, method, cases[shard::shards], call, rows, rep.functions)
        return finish(rep, und, {'paths': 2})
    return rule


def make_model(repo, model):
    o = ce.Obj(model, {})
    init = repo.find(model, '__init__')
    if init is not None:
        for n in init.node.args.args[1:] + init.node.args.kwonlyargs:
            ty = repo.type_of(init.module, n.annotation)
            o.fields[n.arg] = ce.Cond(('flag', n.arg)) if ty.kind == 'bool' else ce.Text('model.' + n.arg)
    return o


def finish(rep, und, need):
    r = rep.result(need)
    if und and r.status in ('ok', 'anchor'):
        r.status, r.detail = 'undecided', '; '.join(und[:6])
    return r


def component(cls, method, args, strict=False):
    def rule(repo, opts):
        rep = Report('batch_%s_%s' % (cls, method))
        c, fi = entry(repo, cls, method)
        if fi is None:
            return rep.result({'paths': 1})
        cases = []
        for values in (1, N):
            for soc in ((), (2,), (1, 1), (1, 2), (B, 1), (B, 2)):
                for leaf in [None, '*'] + leaves(repo, c, 'c', 0):
                    def batch(p, leaf=leaf, soc=soc):
                        if p == 'soc':
                            return soc[0] if len(soc) == 2 else 1
                        return B if leaf == '*' or p == leaf else 1
                    absent = ('c.soc_pinpoints',) if leaf == '*' and values > 1 and len(soc) < 2 else ()
                    k = Case('%s, %d points, state of charge of shape %s' % (
                        'one component' if leaf is None else 'batched' if leaf == '*' else 'only %s batched' % leaf,
                        values, soc), batch, lambda p, values=values: values, 0, absent)
                    k.soc = soc
                    cases.append(k)

        und = []
        for k in cases:
            def call(m, sizes, d, k=k):
                o = ce.make(repo, c, 'c', sizes)
                soc = ce.source('soc', k.soc) if len(k.soc) < 2 else sizes.source('soc', k.soc[1:])
                kw = {'soc': soc}
                if 'temp' in args:
                    kw['temp'] = ce.source('temp', (1, 1)) if m.decide(('given', 'temp')) else None
                return m.call_function(fi, [], {n: v for n, v in kw.items() if n in args}, recv=o)
            und += check(repo, rep, '%s.%s' % (cls, method), [k], call, grid(strict), rep.functions)
        return finish(rep, und, {'paths': 20})
    return rule


def energy(repo, opts):
    rep = Report('batch_energy')
    c, fi = entry(repo, 'ECMASOH', 'get_theoretical_energy')
    if fi is None:
        return rep.result({'paths': 1})
    cases = []
    for values in (1, N):
        for leaf in ['*'] + [x for x in leaves(repo, c, 'a', 0)]:
            cases.append(Case('batched' if leaf == '*' else 'only %s batched' % leaf,
                              lambda p, leaf=leaf: B if leaf == '*' or p == leaf else 1,
                              lambda p, values=values: values, 0))

    def call(m, sizes, d):
        o = ce.make(repo, c, 'a', sizes)
        kw = {'temperature': ce.source('temp', ())} if m.decide(('given', 'temp')) else {}
        return m.call_function(fi, [], kw, recv=o)
    und = check(repo, rep, 'get_theoretical_energy', cases, call, rows, rep.functions)
    return finish(rep, und, {'paths': 4})


SHARDS = 8
RULES = {
    'voltage': circuit('calculate_terminal_voltage', False),
    'interpolated': component('SOCInterpolatedHealth', 'get_value', ('soc',), True),
    'resistance': component('Resistance', 'get_value', ('soc', 'temp')),
    'ocv': component('OpenCircuitVoltage', 'get_value', ('soc', 'temp')),
    'time_constant': component('RCComponent', 'time_constant', ('soc', 'temp')),
    'energy': energy,
}
RULES.update(('update_%d' % k, circuit('update_transient_state', True, k, SHARDS)) for k in range(SHARDS))
