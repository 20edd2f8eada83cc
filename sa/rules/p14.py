"""P14: the damage state of a component block follows its own fragility functions."""

from __future__ import annotations

from ..avn import AVN, H, P, Undecided
from ..flow import alts, callee, children, cval, is_const, show
from .. import vq
from ..vq import arg, branches, fields, leaves, reach, vwalk, walk
from . import p42
from .backed import Backed, follow

EXPLANATION = (
    'The damage calculation is followed with its helpers inlined. The names, parameters, anchors and damage state numbers of the '
    'random variables created for each limit state, and the comparison and replacement that turn demands and capacities into '
    'damage states, are read off the value-flow graph and compared with each other.'
)
CALC = 'pelicun.model.damage_model.DamageModel.calculate'
OPAQUE = (
    'Logger', 'RandomVariableRegistry', 'rv_class_map', 'DeterministicRandomVariable', 'MultinomialRandomVariable',
    'convert_to_MultiIndex', '_get_pg_batches', '_clean_up_expression', '_verify_edps_available', 'perform_dmg_task',
)
LEVELS = {'cmp': 0, 'loc': 1, 'dir': 2, 'uid': 3}


def calc(ctx):
    return ctx.interp(CALC, opaque=OPAQUE, key='p14')


def run(ctx, res):
    res.rule('label', 'capacities and damage state choices carry the component, location, direction, uid, block and limit state', 0)
    res.rule('own', 'a limit state uses its own family, parameters, truncation limits and weights', 0)
    res.rule('anchor', 'limit states of a block are anchored to the first one defined for that block', 0)
    res.rule('number', 'damage states are numbered consecutively over the limit states of a component', 0)
    res.rule('weights', 'limit states with weights choose among their damage states, others have a single one', 0)
    res.rule('adjust', 'capacity adjustments apply the given operation to the median of the given limit state', 0)
    res.rule('exceed', 'a limit state is exceeded when the demand is larger than the capacity', 0)
    res.rule('replace', 'the damage state of an exceeded limit state replaces the one of lower limit states', 0)
    for k in ('variable', 'capacity', 'evaluate'):
        res.rule(k, p42.RULES[k], 0)
    skipped = []
    made = follow(ctx, res, (p42.variables, p42.capacities), skipped)
    used = follow(ctx, res, (p42.evaluated,), skipped)
    res = Backed(res, {**dict.fromkeys(('label', 'own', 'anchor', 'number', 'weights', 'adjust'), made), **dict.fromkeys(('exceed', 'replace'), used)})
    ip = calc(ctx)
    variables = find_variables(ip)
    names(ctx, res, ip, variables, skipped)
    own(ctx, res, ip, variables, skipped)
    anchors(ctx, res, ip, variables, skipped)
    number(ctx, res, ip, variables, skipped)
    adjust(ctx, res, ip, skipped)
    evaluate(ctx, res, ip, skipped)
    res.analysed['not_judged'] = skipped


class Var:
    """A random variable created for a limit state."""

    def __init__(self, e, kind, fs):
        self.e, self.kind, self.fields = e, kind, fs
        c = e.node
        self.theta = arg(c, 'theta', 1)
        self.trunc = arg(c, 'truncation_limits', 2)
        self.f_map = arg(c, 'f_map', 3)
        self.anchor = arg(c, 'anchor', 4)
        self.ls = fs[6] if len(fs) == 7 else None
        self.block = fs[5] if len(fs) == 7 else None
        self.pg = fs[1].args[0] if len(fs) == 7 and getattr(fs[1], 'op', None) == 'index' else None
        self.cls = vq.ename(e)


def find_variables(ip):
    out = []
    for e in ip.events:
        if e.kind != 'call' or e.node is None or e.node.op != 'call':
            continue
        nm, th = arg(e.node, 'name', 0), arg(e.node, 'theta', 1)
        if nm is None or th is None:
            continue
        fs = fields(nm)
        if fs and fs[0] in ('FRG', 'LSDS'):
            out.append(Var(e, fs[0], fs))
    return out


def level_names(ip, key):
    """Names given to the columns of the sample taken under ``key``."""
    for e in ip.events:
        if e.kind == 'store_attr' and is_const(e.node, 'names') and e.value.op in ('list', 'tuple'):
            t = e.target
            if t.op == 'attr' and t.args[1] == 'columns' and t.args[0].op == 'index' and is_const(t.args[0].args[1], key):
                return [cval(x) if is_const(x) else None for x in e.value.args]
    return None


def names(ctx, res, ip, variables, skipped):
    for v in variables:
        where = v.e.where()
        if len(v.fields) != 7 or any(f is None or isinstance(f, str) for f in v.fields[1:]):
            if any(isinstance(f, str) for f in v.fields[1:]) or len(v.fields) != 7:
                res.bad('label', f'{v.kind} name', where, 'the name does not identify the block and limit state')
            else:
                skipped.append(f'{v.kind} name')
            continue
        lv = level_names(ip, v.kind)
        if lv is None or len(lv) != 6:
            skipped.append(f'{v.kind} column names')
            continue
        ls_ok = any('LS' in [p for p in vq.text(k) if isinstance(p, str)] for k, _b in reads(v.theta) + holders(v.theta))
        for i, level in enumerate(lv):
            f = v.fields[i + 1]
            if level in LEVELS:
                if f.op == 'index' and is_const(f.args[1]):
                    ok = cval(f.args[1]) == LEVELS[level] and f.args[0] is v.pg
                    res.check('label', ok, f'{v.kind}: {level}', where, f'the {level} of the sample is not that of the performance group')
                else:
                    skipped.append(f'{v.kind} {level}')
            elif level == 'block':
                ok = block_number(f)
                if ok is None:
                    skipped.append(f'{v.kind} block {show(f, 3)}')
                else:
                    res.check('label', ok, f'{v.kind}: block', where, 'blocks are not numbered 1, 2, ...')
            elif level == 'ls':
                pass
        _ = ls_ok
    by = {}
    for v in variables:
        by.setdefault(v.kind, []).append(v)
    for a in by.get('FRG', []):
        for b in by.get('LSDS', []):
            if len(a.fields) == len(b.fields) == 7:
                for i in range(1, 7):
                    x, y = a.fields[i], b.fields[i]
                    if x is not y and getattr(x, 'op', '') == getattr(y, 'op', ''):
                        res.bad('label', f'FRG and LSDS field {i}', b.e.where(), 'the capacity and its damage state are named differently')


def block_number(f):
    """Position + 1 of the loop over the blocks."""
    ps = tops(f)
    if len(ps) != 1:
        return None
    x = ps[0]
    try:
        d = (AVN(None, {x: H('p')}, stores=False).ev(f) - H('p')) % P
    except (Undecided, AttributeError):
        return None
    start = xrange_start(x.args[0]) if x.op == 'elem' else 0
    if x.op == 'pos':
        start = 0
    return None if start is None else (d + start) % P == 1


def tops(n):
    """Loop variables a value is computed from directly."""
    out, todo = [], [n]
    while todo:
        x = todo.pop()
        if x.op in ('pos', 'elem'):
            if x not in out:
                out.append(x)
        elif x.op in ('index', 'call', 'attr'):
            todo.extend(y for y in x.args if getattr(y, 'op', None) and x.op != 'call')
            if x.op == 'call':
                todo.extend(x.args[1])
        else:
            todo.extend(children(x))
    return out


def xrange_start(n):
    if vq.xcall(n, 'range'):
        a = n.args[1]
        return 0 if len(a) == 1 else cval(a[0]) if is_const(a[0]) else None
    return None


def reads(n, cond=False):
    """(key, table) of every named value read; conditions of choices are left out unless asked for."""
    out = []
    for x in (walk if cond else vwalk)(n):
        if vq.mcall(x, 'get') and x.args[1]:
            out.append((x.args[1][0], vq.recv(x)))
        elif x.op == 'index':
            k = x.args[1]
            if k.op == 'tuple' and k.args and k.args[-1].op in ('const', 'fstr'):
                out.append((k.args[-1], x))
            elif k.op in ('const', 'fstr'):
                out.append((k, x.args[0]))
    return out


def holders(n):
    return []


def key_text(k):
    return ''.join(p if isinstance(p, str) else '#' for p in vq.text(k))


def limit_state_of(t):
    """Limit state a row of parameters was selected with."""
    out = set()
    for x in walk_table(t):
        if x.op == 'index':
            for k in x.args[1].args if x.args[1].op == 'tuple' else (x.args[1],):
                p = vq.text(k)
                if len(p) == 2 and p[0] == 'LS':
                    out.add(p[1])
                elif len(p) == 1 and isinstance(p[0], str) and p[0].startswith('LS') and p[0][2:].isdigit():
                    out.add(p[0])
    return out


def component_of(t):
    out = set()
    for x in walk_table(t):
        if x.op == 'index':
            for k in x.args[1].args if x.args[1].op == 'tuple' else (x.args[1],):
                if k.op == 'index' and is_const(k.args[1]):
                    out.add(k)
    return out


def walk_table(t):
    """The chain of selections of a row."""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op in ('index', 'attr'):
            todo.append(x.args[0])
        elif x.op == 'call' and vq.recv(x) is not None:
            todo.append(vq.recv(x))
        elif x.op == 'ite':
            todo.extend(x.args[1:3])


PARAMS = ('Theta_', 'Truncate', 'Family', 'DamageStateWeights')


def own_reads(res, v, value, what, wanted):
    """Every parameter read for ``value`` belongs to the limit state and component of the variable."""
    got = [(key_text(k), b) for k, b in reads(value, cond=False) if key_text(k).startswith(PARAMS)]
    for k, b in got:
        ls, cm = limit_state_of(b), component_of(b)
        if len(ls) == 1:
            x = next(iter(ls))
            res.check('own', x is v.ls, f'{what}: limit state of {k}', v.e.where(), f'{k} is read from another limit state')
        if len(cm) == 1:
            x = next(iter(cm))
            res.check('own', x is v.fields[1], f'{what}: component of {k}', v.e.where(), f'{k} is read from another component')
        ok = any(k.startswith(w) for w in wanted)
        res.check('own', ok, f'{what}: {k}', v.e.where(), f'the {what} is taken from {k}')
    return got


def own(ctx, res, ip, variables, skipped):
    for v in variables:
        if len(v.fields) != 7:
            continue
        where = v.e.where()
        if v.kind == 'FRG':
            own_reads(res, v, v.theta, 'parameters', ('Theta_',))
            ordered(res, v, v.theta, skipped)
            if v.trunc is not None:
                own_reads(res, v, v.trunc, 'truncation limits', ('Truncate',))
                for conds, leaf in leaves(v.trunc):
                    if is_const(leaf) or any(key_text(k).startswith('Trunc') for k, _b in reads(leaf, cond=False)):
                        continue
                    for g, p in conds:
                        if not any(key_text(k).startswith('Trunc') for k, _b in reads(g, cond=True)):
                            continue
                        calls = {vq.bname(y) for y in walk(g) if y.op == 'call'}
                        if p and 'any' in calls and 'all' not in calls and not any(y.op in ('not', 'unop') for y in walk(g)):
                            res.bad('own', 'truncation limits: one-sided', where, 'a limit is dropped when the other one is missing')
                lists = [x for x in vwalk(v.trunc) if x.op in ('list', 'tuple') and len(x.args) == 2]
                for x in lists:
                    ks = [[key_text(k) for k, _b in reads(y) if key_text(k).startswith('Trunc')] for y in x.args]
                    if all(len(k) == 1 for k in ks):
                        res.check('own', ks == [['TruncateLower'], ['TruncateUpper']], 'truncation limits: lower and upper', where,
                                  f'the limits are {ks}')
            else:
                res.check('own', False, 'truncation limits', where, 'the truncation limits are not used')
            fn = v.e.node.args[0]
            if fn.op == 'call':
                got = own_reads(res, v, fn, 'family', ('Family',))
                if not got:
                    skipped.append('family')
        elif 'Multinomial' in str(v.cls):
            own_reads(res, v, v.theta, 'weights', ('DamageStateWeights',))
            for x in data(v.theta, ip):
                if x.op == 'index' and x.args[1].op == 'slice' and vq.mcall(x.args[0], 'split'):
                    res.bad('own', 'weights: order', where, 'not all weights are used, or they are not used in their order')
                if vq.xcall(x, 'sorted', 'flip', 'sort', 'unique', 'reversed', 'roll'):
                    res.bad('own', 'weights: order', where, 'the weights are not used in their order')
        if v.kind == 'LSDS':
            weights = [(g, p) for g, p in branches(v.e) if any(key_text(k) == 'DamageStateWeights' for k, _b in reads(g, cond=True))]
            for g, p in weights[-1:]:
                na = missing_test(g)
                if na is None:
                    skipped.append(f'weights test {show(g, 3)}')
                    continue
                single = 'Deterministic' in str(v.cls)
                res.check('weights', (na == p) == single, f'{v.cls}', where,
                          'a limit state with weights has a single damage state, or one without weights is random')
                for k, b in reads(g, cond=True):
                    if key_text(k) == 'DamageStateWeights':
                        ls = limit_state_of(b)
                        if len(ls) == 1:
                            res.check('weights', next(iter(ls)) is v.ls, f'{v.cls}: limit state', where, 'the weights of another limit state decide')


def missing_test(g):
    """True if the condition holds when the value is missing, False if it holds when it is given."""
    if g.op == 'not':
        r = missing_test(g.args[0])
        return None if r is None else not r
    if vq.xcall(g, 'isna', 'isnull'):
        return True
    if vq.xcall(g, 'notna', 'notnull'):
        return False
    if g.op == 'cmp' and is_const(g.args[2]) and cval(g.args[2]) in (True, False) and cval(g.args[2]) is not None and g.args[0] in ('is', '=='):
        r = missing_test(g.args[1])
        return None if r is None else r == bool(cval(g.args[2]))
    if g.op == 'cmp' and is_const(g.args[2]) and cval(g.args[2]) is None:
        return {'is': True, 'is not': False, '==': True, '!=': False}.get(g.args[0])
    if vq.xcall(g, 'isinstance') and any(x.op == 'ext' and x.args[0] == 'builtins.str' for x in walk(g)):
        return False
    return None


def ordered(res, v, theta, skipped):
    for x in vwalk(theta):
        ks = []
        if x.op in ('list', 'tuple') and len(x.args) > 1:
            for y in x.args:
                k = [key_text(k) for k, _b in reads(y) if key_text(k).startswith('Theta_')]
                ks.append(k[0] if len(k) == 1 else None)
            if any(ks) and None not in ks and all('#' not in k for k in ks):
                res.check('own', ks == [f'Theta_{i}' for i in range(len(ks))], 'parameters: order', v.e.where(), f'the parameters are {ks}')
        if x.op == 'comp':
            for k, _b in reads(x.args[1]):
                p = vq.text(k)
                if len(p) == 2 and p[0] == 'Theta_' and getattr(p[1], 'op', '') == 'elem':
                    it = p[1].args[0]
                    if vq.xcall(it, 'range'):
                        a = [cval(z) if is_const(z) else None for z in it.args[1]]
                        if None not in a:
                            r = list(range(*a))
                            res.check('own', len(r) >= 2 and r == list(range(len(r))), 'parameters: order', v.e.where(), f'parameters {r} are used')
    # multilinear: capacities first, then probabilities
    for x in vwalk(theta):
        if vq.xcall(x, 'column_stack', 'stack', 'vstack', 'transpose') and x.args[1] and x.args[1][0].op in ('tuple', 'list'):
            ks = []
            for y in x.args[1][0].args:
                k = [cval(z.args[1]) for z in vwalk(y) if z.op == 'index' and vq.mcall(z.args[0], 'split') and is_const(z.args[1])
                     and z.args[0].args[1] and is_const(z.args[0].args[1][0], '|')]
                ks.append(k[0] if len(k) == 1 else None)
            if None not in ks:
                res.check('own', ks == [0, 1], 'multilinear: values, then probabilities', v.e.where(), f'parts {ks} are used')


def loop_of(ip, e, node):
    """The loop whose iteration provides ``node`` as (part of) its element."""
    for g, _p, k in e.guards:
        if k == 'loop' and g.op == 'iter':
            its = {g.args[0]}
            if any(x.op in ('elem', 'pos') and (x.args[0] in its) for x in walk(node)):
                return g
    return None


def in_ast(loop, n):
    """The value was created inside the loop body."""
    site = n.site
    if not site:
        return None
    node = loop.node
    return node.lineno < site[1] <= node.end_lineno


def anchors(ctx, res, ip, variables, skipped):
    frg = [v for v in variables if v.kind == 'FRG' and len(v.fields) == 7]
    for v in frg:
        where = v.e.where()
        if v.anchor is None:
            res.bad('anchor', 'anchor', where, 'limit states of a block are sampled independently')
            continue
        found = False
        for _c, x in leaves(v.anchor):
            if is_const(x):
                continue
            found = True
            y = x
            if vq.mcall(y, 'get') and y.args[1]:
                base, key = vq.recv(y), y.args[1][0]
            elif y.op == 'index':
                base, key = y.args
            else:
                skipped.append(f'anchor {show(y, 3)}')
                continue
            b = v.block
            pos = [z for z in walk(b) if z.op in ('pos', 'elem')] if b is not None else []
            mine = key is b or key in pos or bool(set(walk(key)) & set(pos))
            res.check('anchor', mine, 'anchor of the same block', where, f'the anchor of block {show(b, 2)} is taken at {show(key, 2)}')
            # what is stored there
            kept = [(a[1], a[2]) for a in ip.appends.get(base, ())]
            kept += [(s[1], s[2] if len(s) > 2 else ()) for s in ip.stores.get(base, ())]
            rvs = [k for k in kept if k[0] is v.e.node or v.e.node in set(alts(k[0], ip))]
            if not kept:
                skipped.append(f'contents of {show(base, 2)}')
            elif not rvs and all(k[0].op in ('call', 'const') for k in kept):
                res.bad('anchor', 'anchor variable', where, 'the anchor is not a capacity of the block')
            for _val, guards in rvs:
                for gd in guards:
                    g = gd[0]
                    if v.ls is not None and g.op == 'cmp' and any(z is v.ls or z in (v.ls,) for z in g.args[1:3]) and any(is_const(z) for z in g.args[1:3]):
                        res.bad('anchor', 'first limit state', where, f'capacities are only anchored to the limit state with {show(g, 3)}')
            loops = [lp for lp in v.e.loops]
            pgl = pg_loop(v)
            if pgl is not None and base.site is not None:
                inside = in_ast(pgl, base)
                same = base.site[0] == loops_key(v.e, pgl)
                if same and inside is False:
                    res.bad('anchor', 'anchors of the performance group', where, 'capacities are anchored to those of another performance group')
                elif same:
                    res.ok('anchor', 'anchors of the performance group')
            _ = loops
        if not found:
            res.bad('anchor', 'anchor', where, 'limit states of a block are sampled independently')


def loops_key(e, loop):
    return loop.key[0] if loop.key else None


def pg_loop(v):
    """The loop over performance groups around the creation of a variable."""
    for lp in v.e.loops:
        it = lp.iter
        if it is not None and v.pg is not None and any(x.op == 'elem' and x.args[0] is it for x in walk(v.pg)) and not any(
            x.op == 'elem' and x.args[0] is not it and x in set(walk(v.pg)) and False for x in ()
        ):
            if v.pg.op == 'elem' and v.pg.args[0] is it:
                return lp
    return None


def ls_loop(ip, v):
    """The loop over limit states: the innermost one before the loop over blocks."""
    out = None
    for lp in v.e.loops:
        it = lp.iter
        if it is None:
            continue
        if v.block is not None and any(x.args[0] is base_iter(it) for x in tops(v.block)):
            break
        out = lp
    return out


def base_iter(it):
    while vq.xcall(it, 'enumerate', 'list') and it.args[1]:
        it = it.args[1][0]
    return it


def number(ctx, res, ip, variables, skipped):
    lsds = [v for v in variables if v.kind == 'LSDS' and len(v.fields) == 7]
    mus = {}
    D = H('damage state counter')
    weights = None
    for v in lsds:
        where = v.e.where()
        lp = ls_loop(ip, v)
        if lp is not None:
            res.check('number', not lp.breaks, f'{v.cls}: every limit state', where, 'later limit states are skipped')
            inc = vq.increasing(ip, lp.iter, v.e.seq)
            if inc is not None:
                res.check('number', inc, f'{v.cls}: order of limit states', where, 'limit states are not numbered in increasing order')
        single = 'Deterministic' in str(v.cls)
        x = v.theta if single else v.f_map
        if x is None:
            res.bad('number', f'{v.cls}', where, 'the choice among damage states is not mapped to damage state numbers')
            continue
        for y in walk(x):
            late = vq.late_captures(ip, y) if y.op in ('closure', 'lambda') else []
            if late:
                res.bad('number', f'{v.cls}: mapping', where, f'{", ".join(late)} is read when the sample is drawn and changes before that')
        mm = [n for n in walk(x) if n.op == 'mu']
        if not single and x.op in ('closure', 'lambda'):
            skipped.append(f'{v.cls}: mapping')
            continue
        if len(set(mm)) != 1:
            if len(set(mm)) > 1 and all(n.args[0] == mm[0].args[0] for n in mm):
                res.bad('number', f'{v.cls}: counter', where, 'the counter is advanced for every block')
            elif not mm and not any(True for n in walk(x) if n.op in ('phi', 'ite')):
                res.bad('number', f'{v.cls}: counter', where, 'the damage state number does not depend on the previous limit states')
            else:
                skipped.append(f'{v.cls}: counter')
            continue
        mu = mm[0]
        mus.setdefault(mu, v)
        if lp is not None and mu.site and lp.key:
            res.check('number', mu.site == lp.key, f'{v.cls}: counter of the limit states', where,
                      'the counter is not advanced once for each limit state')
        try:
            if single:
                got = scalar(AVN(ip, {mu: D}), x)
                want = (D + 1) % P
            else:
                got = mapped(ip, v, x, mu, D)
                want = (H('choice') + D + 1) % P
                weights = v.theta
        except Undecided as exc:
            skipped.append(f'{v.cls}: {exc}')
            continue
        if got is None:
            skipped.append(f'{v.cls}: mapping')
            continue
        res.check('number', got == want, f'{v.cls}: number', where, 'the damage state number does not follow the previous one')
    for mu, v in mus.items():
        where = v.e.where()
        init = mu.args[1]
        res.check('number', is_const(init, 0), 'first damage state', where, f'numbering starts after {show(init, 2)}')
        back = ip.mu_back.get(mu)
        for b in back if isinstance(back, (list, tuple, set)) else [back]:
            if b is None:
                continue
            for conds, leaf in leaves(b):
                if leaf is mu or leaf.op == 'unbound' or leaf.op == 'mu' and leaf.args[1].op == 'unbound':
                    continue
                lens = [z for z in walk(leaf) if vq.xcall(z, 'len') or z.op == 'attr' and z.args[1] == 'size']
                try:
                    got = AVN(ip, {mu: D, **{z: H('count') for z in lens}}).ev(leaf)
                except Undecided as exc:
                    skipped.append(f'next damage state: {exc}')
                    continue
                na = None
                for g, p in conds:
                    if any(key_text(k) == 'DamageStateWeights' for k, _b in reads(g, cond=True)):
                        t = missing_test(g)
                        na = 'unknown' if t is None else t == p
                one = (D + 1) % P
                if got == one:
                    res.check('number', na in (True, 'unknown') or na is None and weights is None, 'next damage state', where, 'only one damage state is counted for several weights')
                    continue
                if len(lens) == 1:
                    d = (got - D - H('count')) % P
                    of = lens[0].args[1][0] if lens[0].op == 'call' else lens[0].args[0]
                    if na is True:
                        res.bad('number', 'next damage state', where, 'the number of damage states is not that of the limit state')
                    else:
                        res.check('number', d == 0 and (weights is None or of is weights or weights_list(of)), 'next damage state', where,
                                  'the counter is not advanced by the number of damage states of the limit state')
                else:
                    skipped.append(f'next damage state {show(leaf, 4)}')
                    if got == D:
                        res.bad('number', 'next damage state', where, 'the counter is not advanced')


def weights_list(n):
    """A list with one item for each weight."""
    sp = [x for x in walk(n) if vq.mcall(x, 'split')]
    return any(x.args[1] and is_const(x.args[1][0], '|') for x in sp) and not any(x.op == 'index' and x.args[1].op == 'slice' and x.args[0] in sp for x in walk(n))


def scalar(av, x):
    while True:
        if vq.xcall(x, 'array', 'asarray', 'atleast_1d') and x.args[1]:
            x = x.args[1][0]
        elif x.op in ('tuple', 'list') and len(x.args) == 1:
            x = x.args[0]
        else:
            v = av.ev(x)
            return v if isinstance(v, int) else None


def mapped(ip, v, x, mu, D):
    """Value of the mapping for a choice."""
    env = {mu: D}
    rets = []
    for e in ip.events:
        if e.kind == 'ireturn' and e.value is not None or e.kind == 'ireturn':
            r = e.node if e.node is not None else e.value
            if r is None:
                continue
            cbs = [n for n in walk(r) if n.op == 'cbparam']
            if cbs and all(n.args[0] is x for n in cbs):
                rets.append((r, cbs))
    if len({r for r, _ in rets}) != 1:
        return None
    r, cbs = rets[0]
    kw = dict(x.args[2]) if x.op == 'call' else {}
    names_ = {}
    for n in cbs:
        names_[n.args[1]] = n
    bound = set()
    for n in cbs:
        nm = n.args[2] if len(n.args) > 2 else None
        if nm in kw:
            env[n] = AVN(ip, {mu: D}).ev(kw[nm])
            bound.add(n)
    free = [n for n in cbs if n not in bound]
    if x.op == 'call' and len(x.args[1]) > 1:
        pos = sorted(free, key=lambda n: n.args[1])
        for n, a in zip(pos, x.args[1][1:]):
            env[n] = AVN(ip, {mu: D}).ev(a)
        free = pos[len(x.args[1]) - 1:]
    if len(set(free)) != 1:
        return None
    env[free[0]] = H('choice')
    return AVN(ip, env).ev(r)


def adjust(ctx, res, ip, skipped):
    """Operations applied to the medians."""
    seen = set()
    variables = find_variables(ip)
    for e in ip.events:
        if e.kind not in ('store_index',) or e.value is None or e.func.module.name != 'pelicun.model.damage_model':
            continue
        val = e.value
        tops_ = choices(val)
        if not tops_:
            continue
        where = e.where()
        k = e.node
        col = k.args[-1] if k.op == 'tuple' else k
        if is_const(col):
            res.check('adjust', cval(col) == 0, 'median replaced', where, f'parameter {cval(col)} is changed')
        for top, item in tops_:
            if top in seen:
                continue
            seen.add(top)
            spec = item.args[0]
            env, other = {}, set()
            for x in walk(top):
                if x.op == 'index' and is_const(x.args[1]) and x is not item:
                    if x.args[0] is spec:
                        env[x] = H('operand') if cval(x.args[1]) == 1 else H('wrong', cval(x.args[1]))
                    elif spec not in set(walk(x)) and any(key_text(q).startswith('Theta_') for q, _b in reads(x)):
                        env[x] = H('median') if cval(x.args[1]) == 0 else H('parameter', cval(x.args[1]))
            _ = other
            for sym in '+-*/':
                av = AVN(ip, env, consts={item: sym})
                try:
                    got = av.ev(top)
                except Undecided as exc:
                    skipped.append(f'operation {sym}: {exc}')
                    continue
                m, o = H('median'), H('operand')
                want = av.arith(sym, m, o)
                res.check('adjust', got == want, f'operation {sym}', where, f'the median is not adjusted by {sym}')
        # which entry of the specification
        for _conds, leaf in leaves(val):
            ents = [x for x in walk(leaf) if x.op == 'index' and entry_key(x.args[1])]
            keys = {x.args[1] for x in ents}
            for kk in keys:
                t = vq.text(kk)
                own = len(t) == 1 and t[0] == 'ALL'
                if own:
                    continue
                ls = t[1] if len(t) == 2 else None
                lv = [v.ls for v in variables if v.kind == 'FRG']
                if ls is not None and lv:
                    res.check('adjust', ls in lv, 'limit state of the adjustment', where, 'the adjustment of another limit state is used')
    # key of the specification
    for e in ip.events:
        if e.kind != 'call' or e.node is None or not vq.mcall(e.node, 'get') or not e.node.args[1]:
            continue
        k = e.node.args[1][0]
        pgs = [v.pg for v in find_variables(ip) if v.pg is not None]
        if not pgs or not any(x is pgs[0] for x in walk(k)):
            continue
        if not any(x.op == 'param' and 'scaling' in str(x.args[1]) for x in walk(vq.recv(e.node))):
            continue
        got = pieces(k, pgs[0])
        if got is None:
            skipped.append(f'specification key {show(k, 3)}')
            continue
        res.check('adjust', got == [0, 1, 2], 'component, location and direction', e.where(), f'the adjustment is looked up with levels {got}')
    # parsing
    for e in ip.events:
        if e.kind != 'call' or e.node is None or not vq.mcall(e.node, 'append') or not e.node.args[1]:
            continue
        v = e.node.args[1][0]
        if v.op != 'tuple' or len(v.args) != 2 or not any(x.op == 'param' and 'scaling' in str(x.args[1]) for x in walk(v)):
            continue
        first = [x for _c, x in leaves(v.args[0])]
        sl = [x.args[1] for x in vwalk(v.args[1]) if x.op == 'index' and x.args[1].op == 'slice']
        if all(x.op == 'index' and is_const(x.args[1]) for x in first) and sl:
            for x in first:
                res.check('adjust', is_const(x.args[1], 0), 'symbol of the operation', e.where(), 'the operation is not the first character')
            for z in sl:
                ok = is_const(z.args[0], 1) and all(is_const(y) and cval(y) in (None, 1) for y in z.args[1:])
                res.check('adjust', ok, 'number of the operation', e.where(), 'the number is not the text after the operation')
        for x in vwalk(v.args[1]):
            if vq.xcall(x, 'abs', 'int', 'round') or x.op in ('binop', 'unop'):
                res.bad('adjust', 'number of the operation', e.where(), f'the number is changed by {show(x, 2)}')


def entry_key(k):
    t = vq.text(k)
    return t == ['ALL'] or len(t) == 2 and t[0] == 'LS'


def pieces(k, pg):
    if vq.mcall(k, 'join') and is_const(vq.recv(k), '-') and k.args[1]:
        a = k.args[1][0]
        if a.op == 'index' and a.args[0] is pg and a.args[1].op == 'slice':
            s = [cval(z) if is_const(z) else 'x' for z in a.args[1].args]
            if 'x' not in s:
                return list(range(4))[slice(*s)]
        if a.op not in ('list', 'tuple'):
            return None
    fs = fields(k)
    out = []
    for f in fs:
        if f is None or isinstance(f, str) or f.op != 'index' or f.args[0] is not pg or not is_const(f.args[1]):
            return None
        out.append(cval(f.args[1]))
    return out


def choices(val):
    """Outermost values chosen by comparing an item with an operation symbol."""
    out = []

    def item_of(x):
        c = x.args[0]
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            for i, z in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if is_const(z) and cval(z) in ('+', '-', '*', '/') and i.op == 'index':
                    return i
        return None

    todo, seen = [val], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite' and item_of(x) is not None:
            out.append((x, item_of(x)))
            continue
        todo.extend(children(x))
    return out


def side(ip, n):
    """'capacity' or 'demand'."""
    has = {'capacity': False, 'demand': False}
    for x in data(n, ip):
        if x.op == 'index' and is_const(x.args[1], 'FRG'):
            has['capacity'] = True
        if x.op == 'attr' and x.args[1] == 'sample' and x.args[0].op == 'attr' and x.args[0].args[1] == 'demand':
            has['demand'] = True
    s = [k for k, v in has.items() if v]
    return s[0] if len(s) == 1 else None


LABELS = {'columns', 'index', 'keys', 'names', 'axis', 'dtype'}


def data(n, ip):
    """Values (not labels) a table is made of."""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'attr' and x.args[1] in ('columns', 'index', 'names', 'shape', 'size'):
            continue
        if x.op == 'index':
            todo.append(x.args[0])
            if x.args[0].op in ('dict', 'list') or vq.xcall(x.args[0], 'defaultdict'):
                pass
        elif x.op == 'call':
            if vq.xcall(x, 'len', 'range', 'enumerate'):
                continue
            if vq.recv(x) is not None:
                todo.append(vq.recv(x))
            todo.extend(x.args[1])
            todo.extend(v for k, v in x.args[2] if k not in LABELS)
        elif x.op == 'ite':
            todo.extend(x.args[1:3])
        elif x.op == 'comp':
            todo.append(x.args[1])
        elif x.op == 'elem':
            todo.append(x.args[0])
        else:
            todo.extend(children(x))
        for a in ip.appends.get(x, ()):
            todo.append(a[1])
        for s in ip.stores.get(x, ()):
            if getattr(s[1], 'op', None):
                todo.append(s[1])
        if x in ip.mu_back:
            b = ip.mu_back[x]
            todo.extend(b if isinstance(b, (list, set, tuple)) else [b])


def exceeds(ip, c):
    """'<' when the condition is capacity < demand, and so on."""
    neg = False
    while True:
        if c.op == 'not' or c.op == 'unop' and c.args[0] in ('~', 'not'):
            neg = not neg
            c = c.args[-1]
        elif c.op == 'cmp' or vq.mcall(c, 'lt', 'le', 'gt', 'ge'):
            break
        elif c.op == 'index':
            c = c.args[0]
        elif c.op == 'attr' and c.args[1] in ('loc', 'iloc', 'values'):
            c = c.args[0]
        elif c.op == 'call' and vq.recv(c) is not None and vq.bname(c) in vq.VIEW_METHODS | {'xs', 'droplevel'}:
            c = vq.recv(c)
        elif vq.xcall(c, 'less', 'less_equal', 'greater', 'greater_equal', 'logical_not'):
            if vq.bname(c) == 'logical_not':
                neg = not neg
                c = c.args[1][0]
                continue
            break
        else:
            return None
    if c.op == 'cmp':
        op, a, b = c.args
    else:
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}[vq.bname(c)]
        a, b = (vq.recv(c), c.args[1][0]) if vq.recv(c) is not None and vq.mcall(c, 'lt', 'le', 'gt', 'ge') else c.args[1][:2]
    if op not in ('<', '<=', '>', '>='):
        return None
    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
    if is_const(a, 0):
        a, b, op = b, a, flip[op]
    if is_const(b, 0):
        while a.op != 'binop' and (vq.mcall(a, *vq.VIEW_METHODS) or a.op == 'index'):
            a = vq.recv(a) if a.op == 'call' else a.args[0]
        if vq.mcall(a, 'sub', 'subtract'):
            a, b = vq.recv(a), a.args[1][0]
        elif a.op == 'binop' and a.args[0] == '-':
            a, b = a.args[1:3]
        else:
            return None
    sa_, sb = side(ip, a), side(ip, b)
    if sa_ == 'demand' and sb == 'capacity':
        op = flip[op]
    elif not (sa_ == 'capacity' and sb == 'demand'):
        return None
    if neg:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
    return op


def evaluate(ctx, res, ip, skipped):
    found = False
    for e in ip.events:
        if e.kind != 'store_index' or e.func.module.name != 'pelicun.model.damage_model':
            continue
        v = e.value
        c = new = old = None
        if vq.mcall(v, 'mask') and len(v.args[1]) == 2:
            c, new, old = v.args[1][0], v.args[1][1], vq.recv(v)
        elif vq.mcall(v, 'where') and len(v.args[1]) == 2:
            c, new, old = v.args[1][0], v.args[1][1], vq.recv(v)
            c = ip.N('not', c)
        elif vq.xcall(v, 'where') and len(v.args[1]) == 3:
            c, new, old = v.args[1]
        if c is None:
            continue
        srcs = {k for n in (new, old) for x in data(n, ip) if x.op == 'index' and is_const(x.args[1]) and (k := cval(x.args[1])) in ('FRG', 'LSDS')}
        if 'LSDS' not in srcs:
            continue
        if not any(x.op == 'index' and is_const(x.args[1], 'LSDS') for x in data(new, ip)):
            new, old = old, new
            c = ip.N('not', c)
        found = True
        where = e.where()
        op = exceeds(ip, c)
        if op is None:
            skipped.append(f'exceedance {show(c, 4)}')
        else:
            res.check('exceed', op == '<', 'capacity < demand', where, f'a limit state counts as exceeded when its capacity is {op} the demand')
        # start from the undamaged state
        tgt = e.target
        base = vq.root(tgt, ip)
        if vq.xcall(base, 'DataFrame') or base.op == 'call':
            first = base.args[1][0] if base.args[1] else dict(base.args[2]).get('data')
            if first is not None and is_const(first):
                res.check('replace', cval(first) == 0, 'undamaged at first', where, f'blocks start in damage state {cval(first)}')
        ob = vq.root(old, ip)
        res.check('replace', ob is base or ob.op == 'mu' or not vq.xcall(ob, 'DataFrame'), 'previous damage state is kept', where,
                  'the damage state of lower limit states is not kept when a limit state is not exceeded')
        # increasing limit states
        lps = [lp for lp in e.loops if lp.iter is not None and any(x.op == 'elem' and x.args[0] is lp.iter for n in (c, new, e.node) for x in walk(n))]
        done = False
        for lp in lps[-1:]:
            inc = vq.increasing(ip, lp.iter, e.seq)
            if inc is not None:
                res.check('replace', inc, 'limit states in increasing order', where, 'limit states are not evaluated in increasing order')
                done = True
        if not done:
            skipped.append('order of evaluation')
        # the damage states of the same limit state
        cols = selector(new)
        ccols = selector(c)
        if cols is not None and cols.op == 'attr' and cols.args[1] == 'columns':
            r = cols.args[0]
            same = exceeds(ip, r) is not None or any(x.op == 'cmp' for x in data(r, ip))
            if not same and r.op == 'index':
                skipped.append('columns of the damage states')
            else:
                res.check('replace', r is strip(c) or exceeds(ip, r) == op, 'damage states of the exceeded limit states', where,
                          'damage states of other columns are assigned')
        elif cols is not None and ccols is not None:
            ls_c = last_level(ccols)
            ls_n = last_level(cols)
            if ls_c is not None and ls_n is not None:
                res.check('replace', ls_c is ls_n, 'damage states of the exceeded limit states', where, 'damage states of another limit state are assigned')
        sel = last_level(ccols) if ccols is not None else None
        if sel is not None and lps:
            res.check('exceed', any(x.op == 'elem' and x.args[0] is lps[-1].iter for x in walk(sel)), 'limit state selected by its level', where,
                      'the exceedance of the limit state is not selected by the limit state level')
        for g, _p, k in e.guards:
            if k == 'br':
                if any(x.op == 'index' and is_const(x.args[1]) and cval(x.args[1]) in ('LSDS', 'FRG') for x in walk(g)):
                    skipped.append(f'condition {show(g, 3)}')
    if not found:
        skipped.append('replacement of damage states')
    # nothing but the capacity itself is compared
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.ename(e) == 'convert_to_MultiIndex':
            x = e.node.args[1][0] if e.node.args[1] else None
            if x is None:
                continue
            for z in vwalk(x):
                if vq.mcall(z, 'clip', 'abs', 'round', 'mul', 'add', 'sub', 'shift', 'cumsum', 'cummax', 'cummin', 'sort_values') or (
                    z.op == 'binop' and any(y.op == 'attr' and y.args[1] == 'RV_sample' for y in walk(z))
                ):
                    res.bad('exceed', 'sampled values are used as they are', e.where(), f'the sample is changed by {show(z, 2)}')


def strip(c):
    while c.op == 'not':
        c = c.args[0]
    return c


def selector(n):
    """Column selection of the outermost .loc of a table."""
    while True:
        if n.op == 'not':
            n = n.args[0]
        elif n.op == 'index' and n.args[0].op == 'attr' and n.args[0].args[1] in ('loc',):
            k = n.args[1]
            return k.args[1] if k.op == 'tuple' and len(k.args) == 2 else None
        elif n.op == 'call' and vq.recv(n) is not None:
            n = vq.recv(n)
        elif n.op == 'index':
            n = n.args[0]
        else:
            return None


def last_level(k):
    t = [x for x in walk(k) if x.op == 'tuple' and len(x.args) == 6]
    return t[0].args[5] if t else None


_ = callee
