"""P06: unit conversion of distribution parameters preserves their meaning."""

from __future__ import annotations

from itertools import product

from ..degree import ANY, ONE, UNK, Degree, L, live_guards, name, options, uses
from ..flow import alts, callee, cval, is_const
from ..peval import guard_value
from ..repo import AnalysisError
from .scales import scaled

EXPLANATION = (
    'Dimension analysis. (class) For each family of rv_class_map the constructor, cdf and inverse_transform are '
    'walked and the degree of each parameter in the unit of the variable is inferred as the only assignment under '
    'which cdf has degree 0, inverse_transform degree 1 and no sum, minimum or distribution call mixes degrees. '
    '(scale) scale_distribution, walked once per family and followed for every kind of limits, must multiply each parameter and the truncation limits by '
    'exactly that power of the factor. (factor) at every conversion of a parameter table the factor has degree one in '
    'the unit of the parameter and minus one in the unit it refers to where applicable, tabulated function arguments '
    'degree one in their own unit, inverted when saving. (once) each table is converted once. (limit) calibration '
    'limits get their unit factor exactly once.'
)
U = L(u=1)


def family_map(ctx):
    """family literal -> class, from rv_class_map by constant folding."""
    f = ctx.repo.func('pelicun.uq.rv_class_map')
    probe = ctx.interp(f.qual)
    names = set()
    for e in probe.events:
        for n in (e.node, e.value, e.target):
            collect_str(n, names)
        for g, _p, _k in e.guards:
            collect_str(g, names)
    collect_str(probe.ret, names)
    out = {}
    p = f.node.args.args[0].arg
    for nm in sorted(names):
        if not nm.replace('_', '').isalnum() or ' ' in nm:
            continue
        ip = ctx.interp(f.qual, args=lambda ip, nm=nm: {p: ip.const(nm)}, key=('fam', nm))
        cl = [x for x in alts(ip.ret, ip) if x.op == 'clsref']
        if cl and len(alts(ip.ret, ip)) == 1:
            out[nm] = ctx.repo.cls(cl[0].args[0])
    return out


def collect_str(n, out):
    if n is None or not hasattr(n, 'op'):
        return
    from ..flow import walk

    for x in walk(n):
        if x.op == 'const' and isinstance(cval(x), str):
            out.add(cval(x))
        if x.op == 'dict':
            for k, _v in x.args:
                if is_const(k) and isinstance(cval(k), str):
                    out.add(cval(k))


def infer(ctx, K):
    """Degrees of the parameters of a random variable class; None if undecided."""
    init = ctx.interp(K.lookup('__init__').qual, self_cls=K.qual)
    theta = None
    for e in init.events:
        if e.kind == 'store_attr' and is_const(e.node, 'theta') and e.target.op == 'param':
            theta = e.value
    methods = [m for m in ('cdf', 'inverse_transform') if K.lookup(m) is not None and not K.lookup(m).is_abstract]
    if theta is None or not methods:
        return None, [], []
    good, notes = [], []
    for spec in product((0, 1), repeat=2):
        sp = [L(u=x) for x in spec]

        def se(n, k, sp=sp):
            if n.op == 'param' and n.args[1] == 'theta' and k in (0, 1):
                return sp[k]
            return UNK

        D = Degree(init, lambda n: UNK, se)
        el = [D.elem(theta, 0), D.elem(theta, 1)]
        okm, bad = True, []
        for m in methods:
            f = K.lookup(m)
            ip = ctx.interp(f.qual, self_cls=K.qual)
            v = f.node.args.args[1].arg

            def seed(n, m=m, v=v):
                if n.op == 'param' and n.args[1] == v:
                    return U if m == 'cdf' else ONE
                if n.op == 'attr' and n.args[1] == 'truncation_limits' and n.args[0].op == 'param':
                    return U
                return UNK

            def se2(n, k, el=el):
                if n.op == 'attr' and n.args[1] == 'theta' and n.args[0].op == 'param' and k in (0, 1):
                    return el[k]
                return UNK

            DD = Degree(ip, seed, se2)
            r = DD.deg(ip.ret)
            for e in ip.events:
                if e.kind == 'aug' or e.kind == 'store_index':
                    pass
            want = ONE if m == 'cdf' else U
            if DD.bad or r != want:
                okm = False
                bad.append((m, DD.bad[0][1] if DD.bad else f'{m} has degree {name(r)}', r, bool(DD.bad)))
        if okm:
            good.append(spec)
        notes.append((spec, bad))
    return good, notes, methods


def run(ctx, res):
    res.rule('class', 'cdf and inverse_transform of a family interpret its parameters with consistent dimensions', 5)
    res.rule('scale', 'scale_distribution multiplies each parameter by the power of the factor its family requires', 6)
    res.rule('factor', 'the conversion factor combines the parameter and reference units with the right powers', 3)
    res.rule('once', 'converted parameters and limits are written back, once per table', 3)
    res.rule('limit', 'calibration limits carry their unit factor exactly once', 1)
    fams = family_map(ctx)
    if len(fams) < 5:
        raise AnalysisError(f'rv_class_map resolves only {sorted(fams)}')
    specs = {}
    seen_cls = {}
    for fam, K in fams.items():
        if K.qual not in seen_cls:
            seen_cls[K.qual] = infer(ctx, K)
        good, notes, methods = seen_cls[K.qual]
        where = f'{K.module.relpath}:{K.node.lineno}'
        if good is None:
            continue
        if not good:
            # every assignment contradicts: only a violation if each one fails through a definite mismatch
            definite = all(any(b[3] or (b[2] is not UNK and b[2] != ANY) for b in bad) for _s, bad in notes)
            if definite and len(methods) == 2:
                best = min(notes, key=lambda t: len(t[1]))
                res.bad('class', K.name, where,
                        f'no assignment of dimensions to the parameters of {K.name} makes {" and ".join(methods)} consistent; '
                        f'closest: {best[1][0][1]}')
            continue
        specs[fam] = good
        if len(methods) == 2:
            res.ok('class', f'{fam}: parameters have degrees {good} @ {where}')
    scale_rule(ctx, res, specs)
    skipped = []
    scaled(ctx, res, skipped, specs, truncation_unsupported)
    if skipped:
        res.analysed['not_judged'] = skipped
    factor_rule(ctx, res)
    limit_rule(ctx, res)
    res.analysed['families'] = {f: [list(s) for s in g] for f, g in specs.items()}


def scale_rule(ctx, res, specs):
    f = ctx.repo.func('pelicun.uq.scale_distribution')
    ps = [a.arg for a in f.node.args.args]
    if len(ps) < 4:
        raise AnalysisError('scale_distribution has fewer than four parameters')
    pf, pfam, pth, plim = ps[:4]
    where = f'{f.module.relpath}:{f.node.lineno}'
    for fam, good in sorted(specs.items()):
        ip = ctx.interp(f.qual, args=lambda ip, fam=fam: {pfam: ip.const(fam)}, key=('scale', fam))
        if ip.ret is None or ip.ret.op == 'never':
            continue  # rejected with an error
        D = Degree(
            ip,
            lambda n: U if n.op == 'param' and n.args[1] == pf else (ONE if n.op == 'param' and n.args[1] == plim else UNK),
            lambda n, k: ONE if n.op == 'param' and n.args[1] == pth else UNK,
        )
        r = ip.ret
        if r.op != 'tuple' or len(r.args) != 2:
            continue
        got = [D.final(r.args[0], k) for k in (0, 1)]
        lim = D.deg(r.args[1])
        wants = [[L(u=x) for x in s] for s in good]
        for k in (0, 1):
            w = {s[k] for s in wants}
            if got[k] is UNK:
                continue
            # an element left undefined (NaN) is only fine where the family does not use it
            if got[k] == ANY and len(w) == 1 and k == 0:
                res.bad('scale', f'{fam}:Theta_{k}', where, f'parameter {k} of {fam} is lost in the conversion')
                continue
            if got[k] == ANY and len({s[k] for s in wants}) == 1 and fam not in ('multilinear_CDF', 'deterministic'):
                res.bad('scale', f'{fam}:Theta_{k}', where, f'parameter {k} of {fam} is lost in the conversion')
                continue
            res.check('scale', got[k] == ANY or got[k] in w, f'{fam}:Theta_{k}', where,
                      f'parameter {k} of {fam} is scaled by {name(got[k])}, its class requires {"/".join(sorted(map(name, w)))}')
        if lim is not UNK and not truncation_unsupported(ctx, fam):
            res.check('scale', lim == U, f'{fam}:limits', where,
                      f'truncation limits of {fam} are scaled by {name(lim)} instead of u')


def truncation_unsupported(ctx, fam):
    return fam in ('deterministic', 'multilinear_CDF')


LABELS = {'DV': 'U', 'Demand': 'U', 'Units': 'U', 'user_units': 'U', 'Quantity': 'A'}
# converting entry -> expected power of (parameter unit, reference unit)
EXPECT = {
    'pelicun.model.damage_model.DamageModel_DS.convert_damage_parameter_units': ({'u': 1}, None),
    'pelicun.model.loss_model.RepairModel_DS.convert_loss_parameter_units': ({'u': 1, 'a': -1}, {'a': 1}),
    'pelicun.model.loss_model.RepairModel_LF.convert_loss_parameter_units': ({'u': 1}, {'a': 1}),
    'pelicun.model.demand_model.DemandModel.save_model': ({'u': -1}, None),
    'pelicun.model.demand_model.DemandModel.load_model': ({'u': 1}, None),
    'pelicun.model.asset_model.AssetModel.load_cmp_model': ({'u': 1}, None),
}


def unit_atom(conv, n):
    """Which unit the factor belongs to: resolved through the parameters of the conversion."""
    return conv.get(n)


def factor_rule(ctx, res):
    for q, (want, want_arg) in EXPECT.items():
        if q not in ctx.repo.funcs:
            # the method may have moved to a base class
            cq, m = q.rsplit('.', 1)
            K = ctx.repo.cls(cq)
            f = K.lookup(m)
            if f is None:
                raise AnalysisError(f'{q} not found')
        else:
            f = ctx.repo.funcs[q]
        cq = q.rsplit('.', 1)[0]
        ip = ctx.interp(f.qual, self_cls=cq, key='conv', args={},
                        opaque=('Logger', 'calc_unit_scale_factor', 'scale_distribution', 'load_data', 'save_to_csv'))

        def seed(n, q=q):
            if n.op == 'call' and callee(n)[1] and str(callee(n)[1]).endswith('calc_unit_scale_factor'):
                return atom(q, n)
            return UNK

        D = Degree(ip, seed)
        calls = []
        for e in ip.events:
            if e.kind == 'call' and e.node is not None and e.node.op == 'call':
                nm = callee(e.node)[1]
                if nm and str(nm).endswith('scale_distribution'):
                    calls.append(e)
        if not calls:
            res.bad('factor', q, f'{f.module.relpath}:{f.node.lineno}', 'parameters are no longer converted to base units')
            continue
        sites = {e.where() for e in calls}
        for e in calls:
            a = dict(e.node.args[2])
            sf = e.node.args[1][0] if e.node.args[1] else a.get('scale_factor')
            full, part = L(**want), L(u=want['u'])
            ds = {x for x in options(D, sf) if x != ANY} if sf is not None else {UNK}
            # references of one unit need no factor
            if UNK in ds or not ds:
                continue
            good = ds <= {full, part} and full in ds
            wrong = sorted(name(x) for x in (ds - {full, part} or ds))
            res.check('factor', good, f'{q}:scale', e.where(),
                      f'parameters converted in {q} are scaled by {" or ".join(wrong)}, expected {name(full)}')
        # tabulated arguments
        if want_arg:
            got = set()
            for e in ip.events:
                if e.kind == 'store_index' and e.value is not None:
                    d = D.deg(e.value)
                    if d is not UNK and d not in (ANY, ONE) and uses(e.value, lambda x: atom(q, x) is not UNK):
                        got.add((d, e.where()))
                if e.kind == 'aug' and e.node is not None:
                    d = D.deg(e.node)
                    if d not in (UNK, ANY, ONE) and uses(e.node, lambda x: atom(q, x) is not UNK):
                        got.add((d, e.where()))
            bad = [g for g in got if g[0] not in (L(a=1), L(u=1), L(**want))]
            res.check('factor', not bad, f'{q}:args', bad[0][1] if bad else next(iter(sites)),
                      f'tabulated arguments are scaled by {name(bad[0][0]) if bad else ""}')
        # written back, once
        outs = set()
        for e in ip.events:
            if e.kind != 'store_index' or e.value is None:
                continue
            for c in calls:
                if uses(e.value, lambda x, c=c: x is c.node):
                    for k in (0, 1):
                        if uses(e.value, lambda x, c=c, k=k: x.op == 'index' and x.args[0] is c.node and is_const(x.args[1], k)):
                            outs.add(k)
                    if uses(e.value, lambda x, c=c: x.op == 'rest'):
                        outs |= {0, 1}
        res.check('once', outs == {0, 1}, f'{q}:write-back', next(iter(sites)),
                  f'scaled {"truncation limits" if 0 in outs else "parameters"} are not written back to the table')
        carried(res, q, ip, calls)
        columns(res, q, ip, calls)
        row_rule(ctx, res, q, ip)
        repeat(res, q, ip, f, calls)
        entries = conversions(ip, f)
        res.check('once', entries <= 1, f'{q}:once', next(iter(sites)),
                  f'the same parameters are converted {entries} times in {q}')


def carried(res, q, ip, calls):
    """The factor of one variable must not depend on the variable before it."""
    for e in calls:
        a = dict(e.node.args[2])
        sf = e.node.args[1][0] if e.node.args[1] else a.get('scale_factor')
        if sf is None:
            continue
        mus = []
        uses(sf, lambda x: mus.append(x) if x.op == 'mu' else False)
        stale = [
            m for m in mus
            if m in ip.mu_back and uses(ip.mu_back[m], lambda x: atom(q, x) is not UNK)
        ]
        res.check('factor', not stale, f'{q}:carried', e.where(),
                  'the unit factor of one variable carries over to the next one')


NAMES = {'LS': ('LS1', 'LS2', 'LS3', 'LS10'), 'DS': ('DS1', 'DS2', 'DS5', 'DS10')}


def columns(res, q, ip, calls):
    """Every limit state / damage state column set is converted."""
    pre = 'LS' if 'convert_damage' in q else 'DS' if 'RepairModel_DS.convert' in q else None
    if pre is None:
        return
    for nm in NAMES[pre]:
        lost = True
        for e in calls:
            its = [g for g, _p, k in e.guards if g.op == 'iter' and uses(g, lambda x: x.op == 'attr' and x.args[1] == 'columns')]
            blocked = False
            for g, p, k in e.guards:
                for it in its:
                    el = [x for x in found(g, lambda x, it=it: x.op == 'elem' and x.args[0] is it.args[0])]
                    v = guard_value(g, {x: nm for x in el}) if el else None
                    if k != 'loop' and v is not None and v != p:
                        blocked = True
            lost = lost and blocked
        res.check('once', not lost, f'{q}:{nm}', calls[0].where(), f'parameters of {nm} are never converted to base units')


def found(n, pred):
    out = []
    uses(n, lambda x: out.append(x) if pred(x) else False)
    return out


def repeat(res, q, ip, f, calls):
    """A table kept by the model must not be converted again by the next call."""
    sel = set()
    for e in calls:
        a = dict(e.node.args[2])
        sf = e.node.args[1][0] if e.node.args[1] else a.get('scale_factor')
        if sf is None:
            continue

        def see(x):
            if x.op == 'attr' and x.args[0].op == 'param' and x.args[0].args[1] == 'self':
                sel.add(x.args[1])
            return False

        todo = []
        uses(sf, lambda x: todo.append(x) if atom(q, x) is not UNK and x.op == 'call' else False)
        for c in todo:
            for y in c.args[1]:
                uses(y, see)
    tables = {cval(e.node) for e in ip.events if e.kind == 'store_attr' and e.target.op == 'param' and is_const(e.node)}
    kept = any(
        e.kind == 'store_index' and own_table(e.target) in sel
        for e in ip.events
    )
    if not sel or not kept:
        return
    res.check('once', bool(sel & tables), f'{q}:repeat', f'{f.module.relpath}:{f.node.lineno}',
              'the units of converted rows stay marked for conversion, so converting again scales them twice')


def own_table(n):
    """Receiver attribute whose storage ``n`` denotes, through .loc and items."""
    while n.op in ('attr', 'index'):
        if n.op == 'attr' and n.args[0].op == 'param' and n.args[0].args[1] == 'self':
            return n.args[1]
        n = n.args[0]
    return None


def conversions(ip, f):
    """Number of distinct call sites of the conversion in one walk."""
    keys = set()
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and e.node.op == 'call':
            nm = callee(e.node)[1]
            if nm and str(nm).endswith('scale_distribution'):
                keys.add((e.frame, e.where()))
    return len(keys)


def atom(q, n):
    if n.op != 'call' or not str(callee(n)[1] or '').endswith('calc_unit_scale_factor'):
        return UNK
    arg = n.args[1][-1] if n.args[1] else None
    for k, v in n.args[2]:
        if k == 'unit':
            arg = v
    if arg is None:
        return UNK
    lf = q.endswith('RepairModel_LF.convert_loss_parameter_units')
    labels = {spine_label(x, lf) for x in branches(arg)} - {None}
    if len(labels) == 1:
        return L(**{labels.pop(): 1})
    return UNK


def branches(n):
    """Alternatives of ``n``, through joins at the top of a data spine."""
    out, todo, seen = [], [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo += x.args[1:]
        elif x.op == 'phi':
            todo += x.args
        elif x.op == 'index' and not key_labels(x.args[1]):
            todo.append(x.args[0])
        elif x.op in ('elem', 'rest', 'mu'):
            todo.append(x.args[1] if x.op == 'mu' else x.args[0])
        elif x.op == 'attr' and x.args[1] not in ('user_units',):
            todo.append(x.args[0])
        elif x.op == 'call' and callee(x)[0] == 'method' and not str(callee(x)[1]).endswith('load_data'):
            todo.append(x.args[0].args[0])
        else:
            out.append(x)
    return out


def key_labels(k):
    out = set()
    collect_str(k, out)
    return out & {'DV', 'Demand', 'Units', 'Quantity'}


def spine_label(x, lf):
    if x.op == 'attr':
        return 'u'
    if x.op == 'index':
        ks = key_labels(x.args[1])
        if len(ks) != 1:
            return None
        k = ks.pop()
        return 'a' if k == 'Quantity' or (k == 'Demand' and lf) else 'u'
    if x.op == 'call' and str(callee(x)[1] or '').endswith('load_data'):
        return 'u'
    return None


LIMITS = {'CensorLower', 'CensorUpper', 'TruncateLower', 'TruncateUpper'}


def limit_rule(ctx, res):
    q = 'pelicun.model.demand_model.DemandModel.calibrate_model'
    ip = ctx.interp(q, opaque=('Logger', 'scale_factor', 'calc_unit_scale_factor', 'fit_distribution_to_sample', 'save_sample'), key='lim', args={})

    def seed(n):
        if n.op == 'call' and str(callee(n)[1] or '').endswith(('.scale_factor', '.calc_unit_scale_factor')):
            return U
        if n.op == 'call' and callee(n)[1] == 'builtins.float':
            return ONE
        return UNK

    D = Degree(ip, seed)
    n = 0
    aug = False
    for e in ip.events:
        if e.kind != 'store_index' or e.node is None:
            continue
        labs = set()
        collect_str(e.node, labs)
        if not labs & LIMITS:
            continue
        if e.aug:
            if uses(e.ctx, lambda x: seed(x) == U):
                aug = True
                res.bad('limit', 'calibrate_model:rescaled', e.where(),
                        'limits already in base units are multiplied by a unit factor again when settings for another demand type apply')
            continue
        d = D.deg(e.value)
        if d in (UNK, ANY):
            if not uses(e.value, lambda x: seed(x) == U):
                if uses(e.value, lambda x: x.op == 'call' and callee(x)[1] == 'builtins.float'):
                    n += 1
                    if not aug:
                        res.bad('limit', 'calibrate_model:unscaled', e.where(), 'limits are stored without their unit factor')
            continue
        n += 1
        res.check('limit', d == U, 'calibrate_model:limits', e.where(), f'limits are scaled by {name(d)} instead of u')


    sigma_rule(res, ip)


def sigma_rule(res, ip):
    """Additional uncertainty (in the unit of the demand) meets a coefficient of variation only after division by the mean."""
    def has(n, t):
        return uses(n, lambda x: is_const(x, t))

    divided = {
        e.target for e in ip.events
        if e.kind == 'store_index' and e.value is not None and (e.aug == '/' and has(e.ctx, 'Theta_0') or e.aug is None and ratio(e.value))
    }
    for e in ip.events:
        if e.kind != 'store_index' or e.value is None or e.node is None:
            continue
        if not has(e.node, 'Theta_1') or not combined(e.value):
            continue
        good = ratio(e.value) or uses(e.value, lambda x: x in divided)
        res.check('limit', good, 'calibrate_model:SigIncrease', e.where(),
                  'a standard deviation is combined with the coefficient of variation of normal demands')


def ratio(n):
    return uses(n, lambda x: x.op == 'binop' and x.args[0] == '/' and labelled(x.args[2], 'Theta_0'))


def combined(n):
    """The dispersion and its increase are operands of one expression."""
    def sides(x):
        if x.op == 'binop' and x.args[0] in ('+', '-'):
            return x.args[1:3]
        if x.op == 'call' and callee(x)[0] == 'ext' and str(callee(x)[1]).endswith(('.hypot', '.add')):
            return x.args[1][:2]
        return ()

    def pred(x):
        s = sides(x)
        return len(s) == 2 and any(labelled(a, 'SigIncrease') and labelled(b, 'Theta_1') for a, b in (s, s[::-1]))

    return uses(n, pred)


def labelled(n, t):
    """Some item access with label ``t`` takes part in ``n``."""
    return uses(n, lambda x: x.op == 'index' and uses(x.args[1], lambda y: is_const(y, t)))


def row_rule(ctx, res, q, ip):
    """The unit of a row is not looked up by a label that several rows may share."""
    from ..flow import walk

    bad = None
    seen = set()
    for e in ip.events:
        for n in (e.node, e.value, e.target):
            if n is None or not hasattr(n, 'op') or n in seen:
                continue
            seen.add(n)
            for x in walk(n):
                if x.op == 'index' and x.args[1].op == 'attr' and x.args[1].args[1] == 'Index':
                    b = x.args[0]
                    while b.op in ('attr', 'index', 'elem', 'rest') or (b.op == 'call' and callee(b)[0] == 'method'
                                                                       and not str(callee(b)[1]).endswith('load_data')):
                        b = b.args[0].args[0] if b.op == 'call' else b.args[0]
                    if b.op == 'call' and str(callee(b)[1] or '').endswith('load_data'):
                        bad = bad or e.where()
    res.check('factor', bad is None, f'{q}:row-unit', bad or 'load_cmp_model',
              'the unit of a row is looked up by its label, which is ambiguous when the label repeats')


_ = live_guards
