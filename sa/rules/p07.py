"""P07: samples and models survive saving and loading in any unit."""

from __future__ import annotations

from ..degree import ANY, UNK, Degree, L, name, options, uses
from ..flow import alts, callee, cval, is_const, show, walk
from ..peval import guard_value
from ..repo import AnalysisError
from .p06 import found

EXPLANATION = (
    'Dimension analysis of the two file functions (the factor on saving has degree -1, on loading +1 in the factor of the '
    'unit recorded with the data, applied at one place per path), of the unit helpers, and a def-use check of every call '
    'site: a table loaded with factors is not converted again, a parameter table loaded without factors is converted '
    'exactly once with the units loaded with it, and the units of a column are looked up with the identifiers of that '
    'column.'
)
OPAQUE = ('Logger',)


def run(ctx, res):
    res.rule('save', 'saving divides by the factor of the unit written with the data, at one place per path', 2)
    res.rule('load', 'loading multiplies by the factor of the unit read with the data, at one place per path', 2)
    res.rule('helper', 'unit helpers combine factors with the right powers', 2)
    res.rule('once', 'loaded tables are converted exactly once', 4)
    res.rule('caller', 'callers pass the factors of the assessment and the units of the data', 6)
    res.rule('own', 'the unit of a column is looked up with the identifiers of that column', 2)
    res.rule('source', 'every part of a model given as a table is loaded', 1)
    for o in (0, 1):
        save_rule(ctx, res, o)
        load_rule(ctx, res, o)
    helpers(ctx, res)
    callers(ctx, res)
    source(ctx, res)


def params(f):
    return [a.arg for a in (*f.node.args.posonlyargs, *f.node.args.args, *f.node.args.kwonlyargs)]


def factor_seed(p):
    """Item of the factor table handed in as parameter ``p``."""
    def seed(n):
        if n.op == 'index' and n.args[0].op == 'param' and n.args[0].args[1] == p:
            return L(f=1)
        if n.op == 'call' and callee(n) == ('method', 'get') and n.args[0].args[0].op == 'param' and n.args[0].args[0].args[1] == p:
            return L(f=1)
        return UNK
    return seed


def data_stores(ip, seed):
    """Stores whose value or operand carries a unit factor."""
    out = []
    for e in ip.events:
        if e.kind != 'store_index':
            continue
        v = e.ctx if e.aug else e.value
        if v is None:
            continue
        if uses_deep(ip, v, lambda x: seed(x) is not UNK):
            out.append(e)
    return out


def uses_deep(ip, n, pred):
    return any(pred(x) for x in walk(n, ip))


def save_rule(ctx, res, o):
    f = ctx.repo.func('pelicun.file_io.save_to_csv')
    ps = params(f)
    if 'unit_conversion_factors' not in ps or 'orientation' not in ps:
        raise AnalysisError('save_to_csv parameters changed')
    ip = ctx.interp(f.qual, args=lambda ip: {'orientation': ip.const(o)}, key=('save', o), opaque=OPAQUE)
    seed = factor_seed('unit_conversion_factors')
    D = Degree(ip, seed)
    where = f'{f.module.relpath}:{f.node.lineno}'
    sts = data_stores(ip, seed)
    if not sts:
        res.bad('save', f'orientation {o}', where, f'data are saved without unit conversion (orientation {o})')
        return
    for e in sts:
        d = D.deg(e.ctx) if e.aug else D.deg(e.value)
        if e.aug == '/' and d is not UNK and d != ANY:
            d = Degree(ip, seed).bin(e.node, '/', L(), d) if d[0] == 'L' else UNK
        if d is UNK:
            continue
        res.check('save', d == L(f=-1), f'orientation {o}: power', e.where(),
                  f'values are scaled by {name(d)} of the unit factor when saving instead of f^-1')
    sites = {(e.frame, e.where()) for e in sts}
    res.check('save', len(sites) == 1, f'orientation {o}: once', sts[0].where(), 'values are scaled at more than one place when saving')
    # numeric columns of every kind are scaled
    for e in sts:
        for c in found(e.node, lambda x: x.op == 'comp'):
            els = found(c, lambda x: x.op == 'elem' and x.args[0].op == 'attr' and x.args[0].args[1] == 'dtypes')
            for ty in (float, int):
                v = guard_value(c.args[1], {x: ty for x in els}) if els else None
                if v is not None:
                    res.check('save', v, f'orientation {o}: {ty.__name__} columns', e.where(),
                              f'{ty.__name__} columns are not converted when saving')
    # the recorded unit is the one used
    keys = [x.args[1] for e in sts for x in found(e.ctx if e.aug else e.value, lambda x: seed(x) is not UNK) if x.op == 'index']
    for k in keys:
        res.check('save', from_param(ip, k, 'units'), f'orientation {o}: unit', sts[0].where(),
                  'the factor is not the one of the unit written with the data')


def from_param(ip, k, p):
    return uses_deep(ip, k, lambda x: x.op == 'param' and x.args[1] == p)


def load_rule(ctx, res, o):
    f = ctx.repo.func('pelicun.file_io.load_data')
    if 'unit_conversion_factors' not in params(f) or 'orientation' not in params(f):
        raise AnalysisError('load_data parameters changed')
    ip = ctx.interp(f.qual, args=lambda ip: {'orientation': ip.const(o)}, key=('load', o), opaque=OPAQUE)
    seed = factor_seed('unit_conversion_factors')
    D = Degree(ip, lambda n: L() if raw(n) else seed(n))
    where = f'{f.module.relpath}:{f.node.lineno}'
    sts = data_stores(ip, seed)
    if not sts:
        res.bad('load', f'orientation {o}', where, f'data are loaded without unit conversion (orientation {o})')
        return
    n = 0
    for e in sts:
        ds = {x for x in options(D, e.ctx if e.aug else e.value) if x != ANY}
        if UNK in ds:
            continue
        if e.aug == '/':
            ds = {Degree(ip, seed).bin(e.node, '/', L(), x) for x in ds}
        n += 1
        good = ds <= {L(), L(f=1)} and L(f=1) in ds
        bad = sorted(name(x) for x in ds)
        res.check('load', good, f'orientation {o}: power', e.where(),
                  f'values are scaled by {" or ".join(bad)} of the unit factor when loading instead of f')
    sites = {(e.frame, e.where()) for e in sts}
    res.check('load', len(sites) == 1, f'orientation {o}: once', sts[0].where(), 'values are scaled at more than one place when loading')


def raw(n):
    """Data as found in the source."""
    return n.op == 'param' and n.args[1] == 'data_source' or n.op == 'call' and callee(n)[1] == 'pandas.read_csv'


def helpers(ctx, res):
    f = ctx.repo.func('pelicun.base.convert_units')
    ip = ctx.interp(f.qual, args={}, key='helper', opaque=('Logger', 'parse_units'))
    ps = params(f)

    def seed(n):
        if n.op == 'index' and n.args[1].op == 'param':
            if n.args[1].args[1] == ps[1]:
                return L(f=1)
            if n.args[1].args[1] == ps[2]:
                return L(t=1)
        if n.op == 'param' and n.args[1] == ps[0]:
            return L()
        return UNK

    D = Degree(ip, seed)
    for r in alts(ip.ret, ip):
        ds = {x for x in options(D, r) if x != ANY}
        if UNK in ds or not ds:
            continue
        res.check('helper', ds == {L(f=1, t=-1)}, 'convert_units', f'{f.module.relpath}:{f.node.lineno}',
                  f'values are converted by {"/".join(map(name, ds))} instead of from/to')
    for q in ('calc_unit_scale_factor', 'scale_factor'):
        f = next((x for k, x in ctx.repo.funcs.items() if k.endswith('.AssessmentBase.' + q)), None)
        if f is None:
            raise AnalysisError(f'{q} not found')
        ip = ctx.interp(f.qual, args={}, key='helper', opaque=OPAQUE)

        def seed2(n):
            if n.op == 'index' and n.args[0].op == 'attr' and n.args[0].args[1] == 'unit_conversion_factors':
                return L(f=1)
            if n.op == 'call' and callee(n)[1] == 'builtins.float':
                return L(c=1)
            return UNK

        D = Degree(ip, seed2)
        ds = {x for x in options(D, ip.ret) if x != ANY}
        if UNK in ds or not ds:
            continue
        ok = {L(f=1), L(f=1, c=1)} if q.startswith('calc') else {L(f=1), L()}
        res.check('helper', ds <= ok and L(f=1) in ds and (len(ds) == 2), q, f'{f.module.relpath}:{f.node.lineno}',
                  f'{q} returns {"/".join(sorted(map(name, ds)))}')


DIMENSIONLESS = {'correlation'}


def held_as(ip, n):
    """Receiver attributes that end up holding (data derived from) ``n``."""
    out = {}
    for e in ip.events:
        if e.kind == 'store_attr' and hasattr(e.value, 'op') and is_const(e.node) and uses(e.value, lambda x: x is n):
            out[cval(e.node)] = e
    return out


def saved_attr(n):
    """Receiver attribute written to the file."""
    while n.op == 'call' and callee(n)[0] == 'method':
        n = n.args[0].args[0]
    return n.args[1] if n.op == 'attr' else None


def pairing(res, table):
    """What one method writes in user units another one reads back as such."""
    for (cls, attr), uses_ in sorted(table.items()):
        if attr in DIMENSIONLESS:
            continue
        w = [u for u in uses_ if u[0] == 'save']
        r = [u for u in uses_ if u[0] == 'load']
        unit = any(u[1] for u in w) or any(u[1] for u in r)
        for _k, has, q, where in w + r if unit else []:
            verb = 'saved without its units' if _k == 'save' else 'loaded without converting its units'
            res.check('caller', has, f'{q}:{attr}', where, f'{attr} of {cls} is {verb}')


def callers(ctx, res):
    """Every use of the file functions with units."""
    table = {}
    for q, f in sorted(ctx.repo.funcs.items()):
        if f.parent is not None or not q.startswith('pelicun.') or f.cls is None or f.is_abstract:
            continue
        if not mentions(f):
            continue
        ip = ctx.interp(q, self_cls=f.cls.qual, args={}, key='caller',
                        opaque=('Logger', 'load_data', 'save_to_csv', '_convert_marginal_params', 'calc_unit_scale_factor', 'scale_factor'))
        loads, saves, convs = {}, [], []
        for e in ip.events:
            if e.kind != 'call' or e.node is None or e.node.op != 'call':
                continue
            nm = str(callee(e.node)[1] or '')
            if nm.endswith('file_io.load_data'):
                loads[e.node] = e
            elif nm.endswith('file_io.save_to_csv'):
                saves.append(e)
            elif nm.endswith('_convert_marginal_params'):
                convs.append(e)
        first = set()
        for ev in ip.events:
            if ev.kind == 'store_attr' and hasattr(ev.value, 'op'):
                first |= set(found(ev.value, lambda x: x.op == 'index' and is_const(x.args[1], 0)))
        for n, e in loads.items():
            a = bound_args(ctx, 'pelicun.file_io.load_data', n)
            fac, ret = a.get('unit_conversion_factors'), a.get('return_units')
            if e.func is not f:
                continue
            parts = [x for x in first if x.args[0] is n]
            for m in [n] if not (ret is not None and is_const(ret, True)) else parts:
                for at in held_as(ip, m):
                    if not any(uses_deep(ip, c.node, lambda x, m=m: x is m) for c in convs):
                        table.setdefault((f.cls.name, at), []).append(
                            ('load', fac is not None and not is_const(fac, None), q, e.where()))
            used = [c for c in convs if c.node.args[1] and uses_deep(ip, c.node.args[1][0], lambda x, n=n: x is n)]
            if fac is None or is_const(fac, None):
                if ret is not None and is_const(ret, True) and len(loads) and any(uses_deep(ip, c.node, lambda x, n=n: x is n) for c in convs):
                    sites = {(c.frame, c.where()) for c in used}
                    res.check('once', len(sites) == 1, f'{q}:parameters', e.where(),
                              f'parameters loaded with their units are converted {len(sites)} times')
                    for c in used:
                        ca = bound_args(ctx, 'pelicun.model.pelicun_model.PelicunModel._convert_marginal_params', c.node, skip=1)
                        u = ca.get('units')
                        if u is not None:
                            res.check('once', uses_deep(ip, u, lambda x, n=n: x is n), f'{q}:units', c.where(),
                                      'parameters are converted with units that were not loaded with them')
                elif ret is not None and is_const(ret, True) and not keeps_raw(ip, n):
                    res.bad('once', f'{q}:parameters', e.where(), 'parameters are loaded with their units but never converted')
            else:
                res.check('caller', is_table(fac), f'{q}:factors', e.where(),
                          f'the factors passed to load_data are {show(fac, 3)} instead of those of the assessment')
                res.check('once', not used, f'{q}:again', e.where(), 'data converted on loading are converted again')
        for e in saves:
            if e.func is not f:
                continue
            a = bound_args(ctx, 'pelicun.file_io.save_to_csv', e.node)
            u, fac = a.get('units'), a.get('unit_conversion_factors')
            at = saved_attr(a['data']) if 'data' in a else None
            if at:
                table.setdefault((f.cls.name, at), []).append(('save', u is not None and not is_const(u, None), q, e.where()))
            if u is None or is_const(u, None):
                continue
            res.check('caller', fac is not None and is_table(fac), f'{q}:save', e.where(),
                      'units are passed to save_to_csv without the factors of the assessment')
        own(res, ip, f, q)
    pairing(res, table)


def keeps_raw(ip, n):
    return False if any(e.kind == 'store_attr' and e.value is not None and uses_deep(ip, e.value, lambda x: x is n) for e in ip.events) else True


def is_table(n):
    return all(x.op == 'attr' and x.args[1] == 'unit_conversion_factors' or x.op in ('param', 'call') for x in alts(n))


def mentions(f):
    import ast

    return any(isinstance(x, (ast.Attribute, ast.Name)) and (getattr(x, 'attr', None) or getattr(x, 'id', None)) in ('load_data', 'save_to_csv')
               for x in ast.walk(f.node))


def bound_args(ctx, q, n, skip=0):
    f = ctx.repo.func(q)
    ps = [a.arg for a in (*f.node.args.posonlyargs, *f.node.args.args)][skip:]
    out = dict(zip(ps, n.args[1]))
    out.update({k: v for k, v in n.args[2] if isinstance(k, str)})
    return out


def loop_atoms(n):
    """Loop variables taking part in a key."""
    out = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x.op in ('tuple', 'list'):
            todo += list(x.args)
        elif x.op == 'slice' or x.op == 'const':
            continue
        else:
            out.add(x)
    return out


def own(res, ip, f, q):
    for e in ip.events:
        if e.kind != 'store_index' or e.value is None or e.aug or e.func is not f:
            continue
        # unit table filled per identifier
        v = e.value
        if v.op != 'index' or not base_has(v.args[0], ('cmp_units', 'loss_params', 'dv_units', 'user_units')):
            continue
        a, b = loop_atoms(e.node), loop_atoms(v.args[1])
        if a and not b and not any(x.op not in ('elem', 'index', 'attr') for x in a):
            res.bad('own', f'{q}:units', e.where(), f'the unit of {show(e.node, 3)} is taken from a fixed row of the unit table')
            continue
        if not a or not b or any(x.op not in ('elem', 'index', 'attr') for x in a | b):
            continue
        res.check('own', a == b, f'{q}:units', e.where(),
                  f'the unit of {show(e.node, 3)} is taken from {show(v.args[1], 3)}')


def base_has(n, names):
    while True:
        if n.op == 'attr':
            if n.args[1] in names:
                return True
            n = n.args[0]
        elif n.op == 'index':
            n = n.args[0]
        elif n.op == 'call' and callee(n)[0] == 'method':
            n = n.args[0].args[0]
        else:
            return False


def source(ctx, res):
    """Tables passed in a dictionary reach the loader like files do."""
    for q in ('pelicun.model.demand_model.DemandModel.load_model', 'pelicun.model.asset_model.AssetModel.load_cmp_model'):
        f = ctx.repo.func(q)
        p = params(f)[1]
        ip = ctx.interp(q, self_cls=f.cls.qual, args={}, key='caller',
                        opaque=('Logger', 'load_data', 'save_to_csv', '_convert_marginal_params', 'calc_unit_scale_factor', 'scale_factor'))
        keys = {}
        for e in ip.events:
            for n in (e.node, e.value, *(g for g, _p, _k in e.guards)):
                if n is None or not hasattr(n, 'op'):
                    continue
                for x in walk(n, ip):
                    k = dict_read(x, p)
                    if k is not None:
                        keys.setdefault(k, set()).add(x)
        for k, ns in sorted(keys.items()):
            hit = False
            for e in ip.events:
                if e.kind == 'call' and e.node is not None and e.node.op == 'call' and str(callee(e.node)[1] or '').endswith('load_data'):
                    src = e.node.args[1][0] if e.node.args[1] else None
                    if src is None or not any(uses(src, lambda x, n=n: x is n) for n in ns):
                        continue
                    if not any(only_str(g, pol, src, ns) for g, pol, _k in e.guards):
                        hit = True
            res.check('source', hit, f'{q}:{k}', f'{f.module.relpath}:{f.node.lineno}',
                      f'the "{k}" table of a model given as tables is never loaded')


def dict_read(x, p):
    if x.op == 'call' and callee(x) == ('method', 'get') and x.args[1] and is_const(x.args[1][0]):
        b = x.args[0].args[0]
        if b.op == 'param' and b.args[1] == p:
            return cval(x.args[1][0])
    if x.op == 'index' and is_const(x.args[1]) and x.args[0].op == 'param' and x.args[0].args[1] == p:
        return cval(x.args[1])
    return None


def only_str(g, pol, src, ns):
    """The guard lets only file names through."""
    if g.op == 'and' and pol:
        return any(only_str(x, True, src, ns) for x in g.args)
    if g.op == 'not':
        return only_str(g.args[0], not pol, src, ns)
    if g.op == 'call' and callee(g)[1] == 'builtins.isinstance' and pol:
        t = g.args[1][1]
        ts = [t] if t.op != 'tuple' else list(t.args)
        subj = g.args[1][0]
        if subj is src or subj in ns:
            return all(x.op == 'ext' and x.args[0] == 'builtins.str' for x in ts)
    return False
