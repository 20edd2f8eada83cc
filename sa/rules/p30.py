"""P30: the calibrated parameters describe the data in the random variable that uses them."""

from __future__ import annotations

from ..avn import AVN, NAN, Arr, Cmp, H, Undecided, num
from ..flow import alts, callee, children, cval, is_const, show
from ..peval import guard_value

EXPLANATION = (
    'The calibration function is followed for each distribution family: the transformation of the data and of the limits, '
    'the likelihood, the limit probabilities and the conversion of the fitted parameters are turned into algebraic terms and '
    'compared with the cdf of the random variable class registered for the family.'
)
FIT = 'pelicun.uq.fit_distribution_to_sample'
X, M, S = H('datum'), H('fitted location'), H('fitted scale')
T0, T1 = H('lower limit'), H('upper limit')
D0, D1 = H('lower detection limit'), H('upper detection limit')
LIMS = [(T0, T1), (T0, NAN), (NAN, T1), (NAN, NAN)]


def run(ctx, res):
    repo = ctx.repo
    res.rule('roundtrip', 'the returned parameters reproduce, in the class of the family, the distribution fitted to the data', 2)
    res.rule('limits', 'truncation and detection limits are transformed like the data, on both sides', 2)
    res.rule('probability', 'limit probabilities are those of the fitted distribution, 0 and 1 where no limit is set', 0)
    res.rule('standard', 'the transformation to standard normal space uses the fitted, truncated distribution', 0)
    res.rule('likelihood', 'the likelihood uses the fitted, truncated distribution; detection limits are rescaled alike', 0)
    res.rule('arguments', 'every argument of the objective function receives the data of the same name', 2)
    res.rule('own', 'a variable is fitted with the bounds, data and limits of that variable', 1)
    res.rule('wiring', 'calibration passes the limits of each demand as lower and upper, censoring as detection and truncation as such', 2)
    res.rule('filter', 'data is kept when it is above the lower and below the upper limits, and counted as censored otherwise', 0)
    res.rule('percentiles', 'percentile fitting compares the quantiles of the family with the given values and keeps the best family', 0)
    skipped = []
    fit = ctx.interp(FIT)
    ctx_map = rv_map(ctx)
    fams = [f for f in ctx_map if accepted(ctx, f)]
    for fam in fams:
        one_family(ctx, res, fit, fam, ctx_map[fam], skipped)
        helpers(ctx, res, fam, skipped)
    arguments(ctx, res, fit)
    own(res, fit)
    wiring(ctx, res)
    percentiles(ctx, res, ctx_map, skipped)
    res.analysed['families'] = fams
    res.analysed['not_judged'] = skipped


def rv_map(ctx):
    """family -> class, by following the class map for every string constant in it."""
    f = ctx.repo.func('pelicun.uq.rv_class_map')
    import ast

    keys = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    out = {}
    for k in sorted(keys):
        if not k.replace('_', '').isalnum():
            continue
        ip = ctx.interp(f.qual, args=lambda ip, k=k: {'distribution_name': ip.const(k)}, key=('p30', k))
        r = ip.ret
        rs = [x for x in alts(r, ip) if x.op == 'clsref']
        if len(rs) == 1:
            out[k] = ctx.repo.cls(rs[0].args[0])
    return out


def walk(n):
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def family_nodes(ip, events):
    """Nodes compared with family names."""
    names = {'normal', 'lognormal', 'normal_std', 'normal_cov'}
    out = set()
    conds = [g for e in events for g, _p, _k in e.guards] + [e.value for e in events if hasattr(e.value, 'op')]
    for c in conds:
        for n in walk(c):
            if n.op == 'cmp' and n.args[0] in ('==', '!=', 'in', 'not in'):
                a, b = n.args[1], n.args[2]
                for x, y in ((a, b), (b, a)):
                    lits = [y] if y.op == 'const' else list(y.args) if y.op in ('set', 'tuple', 'list') else []
                    if any(z.op == 'const' and cval(z) in names for z in lits) and x.op != 'const':
                        out.update(z for z in alts(x, ip))
                        out.add(x)
    return out


def accepted(ctx, fam):
    """The family survives every family check of the fit."""
    ip = ctx.interp(FIT)
    dn = family_nodes(ip, ip.events)
    env = dict.fromkeys(dn, fam)
    for e in ip.events:
        if e.kind == 'raise':
            br = [(g, p) for g, p, k in e.guards if k != 'noraise']
            if not br or not any(n in dn for n in walk(br[-1][0])):
                continue
            rel = [(g, p) for g, p in br if any(n in dn for n in walk(g))]
            vals = [guard_value(g, env) for g, p in rel]
            if rel and None not in vals and all(v == p for v, (g, p) in zip(vals, rel)):
                return False
    return True


def active(e, avn, env):
    """The event happens for the family; generic values (nothing tiny)."""
    for g, p, _k in e.guards:
        v = guard_value(g, env)
        if v is None:
            v = generic(g, avn)
        if v is not None and v != p:
            return False
    return True


def generic(g, avn):
    try:
        c = avn.ev(g)
    except Undecided:
        return None
    if isinstance(c, bool):
        return c
    if isinstance(c, Cmp) and c.op in ('<', '<='):
        for n in (g.args[2],) if g.op == 'cmp' else ():
            if is_const(n) and isinstance(cval(n), float) and abs(cval(n)) < 1e-9:
                return False
    if isinstance(c, Cmp) and c.op == '==' and 0 in (c.a, c.b):
        return False
    return None


def one_family(ctx, res, fit, fam, cls, skipped):
    where = fit.entry.loc()
    dn = family_nodes(fit, [e for e in fit.events if e.kind in ('store_index', 'aug', 'raise')])
    env = dict.fromkeys(dn, fam)
    theta_alts = set()
    r = fit.ret
    if r.op == 'tuple':
        theta_alts = set(alts(r.args[0], fit)) | {r.args[0]}
    pair = [M, S]
    if not theta_alts:
        skipped.append(f'{fam}: result')
        return
    last_alt = r.args[0]
    for e in fit.events:
        if e.kind != 'store_index' or e.func is not fit.entry:
            continue
        t, k = e.target, e.node
        comp = None
        if t.op == 'index' and (t.args[0] is last_alt):
            comp = k
        elif t is last_alt and k.op == 'tuple' and len(k.args) == 2:
            comp = k.args[1]
        if comp is None:
            continue
        av = AVN(fit, {a: Arr('fitted', list(pair), 'rows') for a in theta_alts}, consts=env, stores=False)
        if not active(e, av, env):
            continue
        if not is_const(comp) or cval(comp) not in (0, 1):
            skipped.append(f'{fam}: store to {show(t, 2)}')
            return
        try:
            pair[cval(comp)] = av.ev(e.value)
        except Undecided as exc:
            skipped.append(f'{fam}: {exc}')
            return
    # transformation of data and limits
    g, where_g = {}, {}
    for e in fit.events:
        if e.kind != 'store_index' or e.func is not fit.entry:
            continue
        for root in ('raw_sample', 'truncation_limits', 'detection_limits'):
            if any(n.op == 'param' and n.args[1] == root for n in access_root(e.target, fit)):
                av = AVN(fit, {}, consts=env, stores=False)
                if not active(e, av, env):
                    continue
                side = None
                if root != 'raw_sample':
                    side = sides(e, env)
                    foreign = roots_of(e.value) - {root}
                    if foreign and root not in roots_of(e.value):
                        res.check('limits', False, f'{fam}, {root}', e.where(), f'the limits are set from the {", ".join(sorted(foreign))}')
                    for gd, _p, _k in e.guards:
                        if any(z.op == 'cmp' and z.args[0] in ('<', '>', '<=', '>=') and roots_of(z) for z in walk(gd)):
                            res.check('limits', False, f'{fam}, {root}', e.where(), 'whether the limits are transformed depends on their values')
                cell = fit.N('index', e.target, e.node)
                av = AVN(fit, {cell: X}, consts=env, stores=False)
                try:
                    v = av.flat(av.ev(e.value))
                except Undecided as exc:
                    skipped.append(f'{fam} {root}: {exc}')
                    v = None
                g.setdefault(root, {}).setdefault(v, set()).update(side or {0, 1})
                where_g[root] = e.where()

    def transform(root):
        d = g.get(root, {})
        if not d:
            return {0: X, 1: X}
        out = {0: X, 1: X}
        for v, ss in d.items():
            for s in ss:
                out[s] = v
        return out

    data = transform('raw_sample')[0]
    for root in ('truncation_limits', 'detection_limits'):
        tr = transform(root)
        if None in (data, tr[0], tr[1]):
            continue
        res.check('limits', tr[0] == data and tr[1] == data, f'{fam}, {root}', where_g.get(root, where),
                  'the limits are not transformed in the same way as the data')
    # the class of the family, with the returned parameters
    inv = {}
    ini = cls.lookup('__init__')
    cip = ctx.interp(ini.qual, self_cls=cls.qual, key=('p08', cls.qual))
    th = cip.N('param', ini.qual, 'theta')
    stored = [e for e in cip.events if e.kind == 'store_attr' and is_const(e.node, 'theta')]
    cdf = cls.lookup('cdf')
    if not stored or cdf is None or data is None:
        skipped.append(f'{fam}: class')
        return
    av = AVN(cip, {th: Arr('theta', list(pair))})
    try:
        v = av.ev(stored[-1].value)
    except Undecided as exc:
        skipped.append(f'{fam} constructor: {exc}')
        return
    if not isinstance(v, Arr):
        return
    dip = ctx.interp(cdf.qual, self_cls=cls.qual, key=('p08', cls.qual))
    a = cdf.node.args
    arg = dip.N('param', cdf.qual, [*a.posonlyargs, *a.args][1].arg)
    av = AVN(dip, {arg: X}, attrs={'theta': v, 'truncation_limits': Arr('limits', [NAN, NAN])}, insupport=True)
    # the exponential of a fitted log-median is undone by the logarithm in the class
    av.inv = inv
    for p in pair:
        pass
    ref = AVN(dip, {})
    for val in (M,):
        e = ref.expv(val)
        av.inv[e] = ('exp', (val,))
    try:
        got = av.ev(dip.ret)
        z = ref.arith('/', ref.arith('-', data, M), S)
        want = ref._cdf('norm', (), z)
    except Undecided as exc:
        skipped.append(f'{fam} cdf: {exc}')
        return
    res.check('roundtrip', got == want, fam, where, 'the returned parameters do not describe the fitted distribution when '
              f'they are used in {cls.name}')


def access_root(n, ip):
    """Storage the target of a store belongs to (views and rows followed)."""
    out, todo, seen = set(), [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('ite', 'phi', 'mu'):
            todo.extend(y for y in alts(x, ip) if y is not x)
        elif x.op == 'index':
            todo.append(x.args[0])
        elif x.op == 'call':
            kind, nm = callee(x)
            if kind == 'method' and nm in ('copy', 'astype'):
                todo.append(x.args[0].args[0])
            elif kind == 'ext' and nm.rsplit('.', 1)[-1] in ('atleast_2d', 'array', 'asarray', 'tile', 'copy', 'atleast_1d') and x.args[1]:
                todo.append(x.args[1][0])
        elif x.op == 'param':
            out.add(x)
    return out


def roots_of(v):
    return {n.args[1] for n in walk(v) if n.op == 'param' and n.args[1] in ('raw_sample', 'truncation_limits', 'detection_limits')
            and not inside_shape(v, n)}


def sides(e, env):
    k = e.node.args[-1] if e.node.op == 'tuple' else e.node
    return {s for s in all_sides(k) if not any(guard_value(g, {**env, k: s}) not in (None, p) for g, p, _k in e.guards)}


def all_sides(k):
    if is_const(k) and cval(k) in (0, 1):
        return {cval(k)}
    if k.op == 'elem' and k.args[0].op in ('tuple', 'list'):
        return {cval(x) for x in k.args[0].args if is_const(x)}
    if k.op == 'elem' and k.args[0].op == 'call' and callee(k.args[0])[1] == 'builtins.range':
        a = k.args[0].args[1]
        if all(is_const(x) for x in a):
            return set(range(*[cval(x) for x in a])) & {0, 1}
    return {0, 1}


def phi(av, lim):
    if lim == NAN:
        return None
    return av._cdf('norm', (), av.arith('/', av.arith('-', lim, M), S))


def expected_p(av, lims):
    pa = 0 if lims[0] == NAN else phi(av, lims[0])
    pb = num(1) if lims[1] == NAN else phi(av, lims[1])
    return pa, pb


def elem_env(ip, n, fam, lims, det):
    """Row variables of the loops over the variables."""
    env, consts = {}, {}
    for x in walk(n):
        if x.op not in ('elem', 'index') or x.op == 'index' and x.args[1].op not in ('pos', 'elem', 'mu'):
            continue
        b = x.args[0]
        nm = b.args[1] if b.op == 'param' else None
        if nm is None and x.op == 'index':
            continue
        if nm == 'samples':
            env[x] = X
        elif nm == 'tr_limits':
            env[x] = Arr('tr', list(lims))
        elif nm == 'det_limits':
            env[x] = Arr('det', list(det))
        elif nm == 'dist_list':
            consts[x] = fam
        elif nm == 'theta' or nm is None and b.op != 'call' or nm is None and callee(b)[1] == 'numpy.zeros':
            env[x] = Arr('theta', [M, S])
    return env, consts


def helpers(ctx, res, fam, skipped):
    repo = ctx.repo
    q = 'pelicun.uq._get_limit_probs'
    if q in repo.funcs:
        ip = ctx.interp(q, args=lambda ip: {'distribution': ip.const(fam)}, key=('p30', fam))
        f = repo.func(q)
        ps = [p.arg for p in f.node.args.args]
        if {'limits', 'theta'} <= set(ps):
            for lims in LIMS:
                av = AVN(ip, {ip.N('param', q, 'limits'): Arr('lim', list(lims)), ip.N('param', q, 'theta'): Arr('theta', [M, S])})
                try:
                    v = av.ev(ip.ret)
                    got = tuple(v.comps)
                except (Undecided, AttributeError, TypeError) as exc:
                    skipped.append(f'{fam} limit probabilities: {exc}')
                    break
                res.check('probability', got == expected_p(av, lims), f'{fam}, {pattern(lims)}', f.loc(),
                          'the probability at a limit is not that of the fitted distribution')
    for q, rid in (('pelicun.uq._get_std_samples', 'standard'), ('pelicun.uq._neg_log_likelihood', 'likelihood')):
        if q not in repo.funcs:
            continue
        ip = ctx.interp(q)
        for e in ip.events:
            if e.kind != 'store_index' or e.value is None or e.aug or e.func.qual != q:
                continue
            kinds = {callee(n)[1] for n in walk(e.value) if n.op == 'call'}
            what = None
            if 'scipy.stats.norm.pdf' in kinds:
                what = 'pdf'
            elif 'scipy.stats.norm.ppf' in kinds:
                what = 'ppf'
            if what is None:
                continue
            dn = family_nodes(ip, [e])
            for lims in LIMS:
                for det in ([(D0, D1)] if q.endswith('samples') or what == 'pdf' else [(D0, D1), (D0, NAN), (NAN, D1)]):
                    env, consts = elem_env(ip, e.value, fam, lims, det)
                    for g, _p, _k in e.guards:
                        env2, c2 = elem_env(ip, g, fam, lims, det)
                        env.update(env2)
                        consts.update(c2)
                    consts.update(dict.fromkeys(dn, fam))
                    if any(guard_value(g, consts) not in (None, p) for g, p, _k in e.guards):
                        continue
                    av = AVN(ip, env, consts=consts)
                    pa, pb = expected_p(av, lims)
                    d = av.arith('-', pb, pa)
                    has_det = any(isinstance(v, Arr) and v.name == 'det' for v in env.values())
                    try:
                        got = av.ev(e.value)
                        z = av.arith('/', av.arith('-', X, M), S)
                        if what == 'pdf':
                            want = av.arith('/', av.arith('/', av.fn('norm.pdf', z), S), d)
                        elif not has_det:
                            want = av.rv('norm', 'ppf', [av.arith('/', av.arith('-', av._cdf('norm', (), z), pa), d)], [])
                        else:
                            side = component(e)
                            if side is None:
                                continue
                            pl, pu = expected_p(av, det)
                            p = (pl, pu)[side]
                            p = av.mini(av.maxi(p, pa), pb)
                            want = av.rv('norm', 'ppf', [av.arith('/', av.arith('-', p, pa), d)], [])
                        got = av.flat(got)
                        want = av.flat(want)
                    except Undecided as exc:
                        skipped.append(f'{fam} {q} {what}: {exc} {av.unknown[:1]}')
                        continue
                    res.check(rid, got == want, f'{fam}, {q.rsplit(".", 1)[-1]}, {pattern(lims)}', e.where(),
                              'the value is not that of the fitted distribution restricted to its truncation limits')


def component(e):
    v = e.value
    if v.op == 'index' and is_const(v.args[1]) and cval(v.args[1]) in (0, 1):
        return cval(v.args[1])
    return None


def pattern(lims):
    return {(True, True): 'no limits', (False, True): 'lower limit', (True, False): 'upper limit',
            (False, False): 'both limits'}[lims[0] == NAN, lims[1] == NAN]


def arguments(ctx, res, fit):
    """minimize(objective, x0, args=(...)): each argument carries the data its parameter is named after."""
    want = {'samples': {'raw_sample'}, 'dist_list': {'distribution'}, 'det_limits': {'detection_limits'},
            'tr_limits': {'truncation_limits', 'detection_limits'}, 'censored_count': {'censored_count'}}
    roots = {'raw_sample', 'distribution', 'detection_limits', 'truncation_limits', 'censored_count'}
    for e in fit.events:
        if e.kind != 'call' or e.node is None or callee(e.node)[1] != 'scipy.optimize.minimize':
            continue
        kw = dict(e.node.args[2])
        f = e.node.args[1][0] if e.node.args[1] else None
        args = kw.get('args')
        if f is None or f.op != 'fn' or args is None or args.op != 'tuple':
            continue
        fn = ctx.repo.funcs.get(f.args[0])
        if fn is None:
            continue
        names = [p.arg for p in fn.node.args.args][1:]
        for nm, a in zip(names, args.args):
            if nm not in want:
                continue
            got = {n.args[1] for n in walk(a) if n.op == 'param' and n.args[1] in roots and not inside_shape(a, n)}
            if nm == 'tr_limits' and got:
                ok = 'truncation_limits' in got
            else:
                ok = got <= want[nm]
            res.check('arguments', ok, f'{nm} <- {sorted(got)}', e.where(),
                      f'the objective function receives {", ".join(sorted(got))} as `{nm}`')


def inside_shape(a, p):
    """p is only used for its size."""
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x is p:
            return False
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'attr' and x.args[1] in ('shape', 'size', 'ndim'):
            continue
        if x.op == 'ite':
            todo.extend(x.args[1:])
            continue
        todo.extend(children(x))
    return True


def own(res, fit):
    """Arrays with several entries per variable are not indexed by the number of the variable."""
    for e in fit.events:
        if e.kind != 'call' or e.node is None or callee(e.node)[1] != 'scipy.optimize.minimize':
            continue
        args = dict(e.node.args[2]).get('args')
        if args is None or args.op != 'tuple':
            continue
        loopvars = {x for a in args.args for x in walk(a) if x.op == 'elem'}
        bad = []
        for a in args.args:
            if a.op == 'index' and a.args[1] in loopvars and flattened(a.args[0]):
                bad.append(show(a, 3))
            elif e.loops and per_variable(fit, a):
                parts = [a] if not any(x in loopvars for x in reach(fit, a)) else [
                    val for x in reach(fit, a) if x.op == 'list' for _k, val, _g in fit.stores.get(x, ())
                    if per_variable(fit, val) and not any(y in loopvars for y in reach(fit, val))]
                bad.extend(show(x, 3) for x in parts)
        res.check('own', not bad, f'minimize at {"the loop" if loopvars else "the end"}', e.where(),
                  f'{"; ".join(bad)}: not the entries of the variable that is fitted')


def reach(ip, v):
    """Values v is made of, with the values stored in it."""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))
        if x.op == 'list':
            todo.extend(val for _k, val, _g in ip.stores.get(x, ()))


def per_variable(ip, a):
    return any(roots_of(x) for x in reach(ip, a) if x.op != 'const')


def flattened(b):
    """flatten() of an array with more than one entry per row."""
    if b.op == 'call' and callee(b) in (('method', 'flatten'), ('method', 'ravel')):
        src = b.args[0].args[0]
        if src.op == 'call' and (callee(src)[1] or '').rsplit('.', 1)[-1] in ('array', 'asarray') and src.args[1]:
            c = src.args[1][0]
            return c.op == 'comp' and c.args[1].op in ('list', 'tuple') and len(c.args[1].args) > 1
    return False


COLS = {'CensorLower', 'CensorUpper', 'TruncateLower', 'TruncateUpper', 'Family'}


def columns(v):
    """Calibration columns a value is read from, in order of appearance in its selection."""
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'index' or x.op == 'call':
            ks = [x.args[1]] if x.op == 'index' else list(x.args[1])
            for k in ks:
                for z in literals(k):
                    if z in COLS:
                        out.append(z)
            if out and x.op == 'index':
                return out
        todo.extend([x.args[0]] if x.op == 'index' else x.args[1:] if x.op == 'ite' else children(x))
    return out


def literals(k):
    if is_const(k) and isinstance(cval(k), str):
        return [cval(k)]
    if k.op in ('tuple', 'list'):
        return [z for x in k.args for z in literals(x)]
    return []


def wiring(ctx, res):
    q = 'pelicun.model.demand_model.DemandModel.calibrate_model'
    if q not in ctx.repo.funcs:
        return
    ip = ctx.interp(q, opaque=('Logger', 'fit_distribution_to_sample'))
    want = {'detection_limits': ['CensorLower', 'CensorUpper'], 'truncation_limits': ['TruncateLower', 'TruncateUpper'],
            'distribution': ['Family']}
    for e in ip.events:
        if e.kind != 'call' or not e.ctx or e.ctx[1] is None or e.ctx[1].name != 'fit_distribution_to_sample':
            continue
        names = [a.arg for a in ctx.repo.func(FIT).node.args.args]
        d = dict(zip(names, e.node.args[1]))
        d.update(dict(e.node.args[2]))
        for nm, cols in want.items():
            if nm not in d:
                res.check('wiring', False, nm, e.where(), f'the {nm} of the calibration are not passed on')
                continue
            got = columns(d[nm])
            if got:
                res.check('wiring', got == cols, f'{nm} <- {got}', e.where(), f'{nm} receives the columns {got}')
        if 'censored_count' in d:
            count(res, ip, e, d['censored_count'])
    seen, used = set(), set()
    for e in ip.events:
        for v in (e.value, e.node, e.target):
            if not hasattr(v, 'op') or q not in e.frame:
                continue
            for n in walk(v):
                if n.op == 'index' and n not in seen and n.args[0].op == 'attr' and n.args[0].args[1] in ('loc', 'iloc'):
                    seen.add(n)
                    k = n.args[1]
                    k = k.args[0] if k.op == 'tuple' and k.args else k
                    polarity(res, ip, k, True, e.where(), 'kept', used=used)
    for c in sorted(COLS - {'Family'}):
        if used:
            res.check('filter', c in used, f'{c} applied', ctx.repo.func(q).loc(), f'the data is not filtered by {c}')


def count(res, ip, e, v):
    for x in alts(v, ip):
        if x.op == 'call' and (callee(x)[1] or '').rsplit('.', 1)[-1] in ('sum', 'count_nonzero'):
            arg = x.args[1][0] if callee(x)[0] == 'ext' else x.args[0].args[0]
            polarity(res, ip, arg, False, e.where(), 'censored')


def polarity(res, ip, n, pos, where, what, depth=0, used=None):
    """Comparisons a mask is made of."""
    if depth > 12:
        return
    if n.op == 'cmp' and n.args[0] in ('<', '<=', '>', '>='):
        a, b = columns(n.args[1]), columns(n.args[2])
        if bool(a) == bool(b):
            return
        op = n.args[0]
        if a:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        cols = set(a or b)
        if len(cols) != 1:
            return
        col = cols.pop()
        if used is not None:
            used.add(col)
        below = (op[0] == '<') == pos
        res.check('filter', below == col.endswith('Upper'), f'{what} by {col}', where,
                  f'data is {what} when it is on the wrong side of {col}')
    elif n.op == 'unop' and n.args[0] == '~' or n.op == 'not':
        polarity(res, ip, n.args[-1], not pos, where, what, depth + 1, used)
    elif n.op in ('and', 'or', 'list', 'tuple', 'phi') or n.op == 'binop' and n.args[0] in ('&', '|'):
        for x in n.args:
            if hasattr(x, 'op'):
                polarity(res, ip, x, pos, where, what, depth + 1, used)
    elif n.op == 'call':
        kind, nm = callee(n)
        b = (nm or '').rsplit('.', 1)[-1]
        if b in ('all', 'any', 'array', 'to_numpy', 'logical_and', 'logical_or', 'vstack', 'logical_not', 'invert'):
            src = [n.args[0].args[0]] if kind == 'method' else list(n.args[1][:2])
            for x in src:
                polarity(res, ip, x, pos != (b in ('logical_not', 'invert')), where, what, depth + 1, used)


def percentiles(ctx, res, classes, skipped):
    q = 'pelicun.uq._OLS_percentiles'
    if q not in ctx.repo.funcs:
        return
    f = ctx.repo.func(q)
    ps = [a.arg for a in f.node.args.args]
    for fam, as_cls in (('normal', 'normal_std'), ('lognormal', 'lognormal')):
        ip = ctx.interp(q, args=lambda ip, fam=fam: {ps[3]: ip.const(fam)}, key=('p30', fam))
        cls = classes.get(as_cls)
        inv = cls and cls.lookup('inverse_transform')
        if inv is None:
            continue
        par = Arr('params', [M, S])
        p_ = H('percentile')
        terms = []
        for x in alts(ip.ret, ip):
            if is_const(x):
                continue
            for y in walk(x):
                if y.op == 'call' and (callee(y)[1] or '').rsplit('.', 1)[-1] in ('sum', 'dot'):
                    terms.append(y)
        if len(terms) != 1:
            continue
        t = terms[0]
        arg = t.args[1][0] if callee(t)[0] == 'ext' else t.args[0].args[0]
        av = AVN(ip, {ip.N('param', q, ps[0]): par, ip.N('param', q, ps[1]): X, ip.N('param', q, ps[2]): p_})
        vip = ctx.interp(inv.qual, self_cls=cls.qual, key=('p08', cls.qual))
        a = inv.node.args
        arg2 = vip.N('param', inv.qual, [*a.posonlyargs, *a.args][1].arg)
        ref = AVN(vip, {arg2: p_}, attrs={'theta': par, 'truncation_limits': Arr('limits', [NAN, NAN])}, insupport=True)
        try:
            got = av.flat(av.ev(arg))
            want = ref.arith('**', ref.arith('-', ref.ev(vip.ret), X), num(2))
        except Undecided as exc:
            skipped.append(f'{fam} percentiles: {exc}')
            continue
        res.check('percentiles', got == want, fam, f.loc(), 'the quantiles compared with the values are not those of the family')
    q2 = 'pelicun.uq.fit_distribution_to_percentiles'
    if q2 not in ctx.repo.funcs:
        return
    ip = ctx.interp(q2)
    for r in alts(ip.ret, ip):
        if r.op != 'tuple' or len(r.args) != 2:
            continue
        picks = [{n for n in walk(x) if n.op == 'call' and (callee(n)[1] or '') in ('numpy.argmin', 'numpy.argmax', 'numpy.nanargmin')
                  and any(m.op == 'attr' and m.args[1] == 'fun' for m in walk(n))} for x in r.args]
        if len(picks[0]) == 1 and (len(picks[1]) == 1 or not picks[1] and any(n.op == 'attr' and n.args[1] == 'x' for n in walk(r.args[1]))):
            a, b = (next(iter(p), None) for p in picks)
            res.check('percentiles', a is b and 'argmin' in callee(a)[1], 'choice of the family', ctx.repo.func(q2).loc(),
                      'the family and the parameters are not those with the smallest error')
