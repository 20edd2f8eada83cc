"""P31: a component is checked against the demand its parameters name, at its own location and direction."""

from __future__ import annotations

from ..avn import AVN, H, P, Undecided
from ..flow import alts, children, cval, is_const, show
from .. import vq
from ..vq import fields, leaves, vwalk, walk
from . import demands, p42
from .backed import Backed, follow
from .p14 import calc

EXPLANATION = (
    'The demand name built for each performance group, the values selected for a demand name and the assignment of these values '
    'to the performance groups are read off the value-flow graph of the damage calculation. The functions that find, collect and '
    'verify the demands are followed on small tables of parameters, performance groups and demand samples.'
)


def run(ctx, res):
    res.rule('name', 'the demand name joins the type, the location with all offsets and the direction of the component', 0)
    res.rule('own', 'type, offset and directionality come from the same entry of the same component', 0)
    res.rule('negative', 'a location below zero is refused', 0)
    res.rule('direction', 'the direction is that of the component when it is directional, any direction otherwise', 0)
    res.rule('value', 'a directional demand is the sample of its type, location and direction', 0)
    res.rule('envelope', 'a non-directional demand is the largest over the directions times the multiplier of its type', 0)
    res.rule('expression', 'X1, X2, ... of an expression are the demands in the order they are listed', 0)
    res.rule('paired', 'each demand value is assigned to the performance groups that asked for it', 0)
    for k, v in {**demands.RULES, 'evaluate': p42.RULES['evaluate']}.items():
        res.rule(k, v, 0)
    skipped = []
    named = follow(ctx, res, (demands.required,), skipped)
    valued = follow(ctx, res, (demands.assembled,), skipped)
    follow(ctx, res, (demands.available,), skipped)
    used = follow(ctx, res, (p42.evaluated,), skipped)
    res = Backed(res, {**dict.fromkeys(('name', 'own', 'negative', 'direction'), named), **dict.fromkeys(('value', 'envelope', 'expression'), valued), 'paired': named and valued and used})
    ip = calc(ctx)
    required(res, ip, skipped)
    assembled(res, ip, skipped)
    paired(res, ip, skipped)
    res.analysed['not_judged'] = skipped


def is_pg(n):
    """Element of the index of a table of performance groups."""
    return n.op == 'elem' and n.args[0].op == 'attr' and n.args[0].args[1] == 'index'


def edp_names(ip):
    """(event, name node) of the demand names listed for a performance group."""
    out = []
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and vq.mcall(e.node, 'append') and e.node.args[1]:
            v = e.node.args[1][0]
            fs = fields(v)
            if len(fs) == 3 and any(f is not None and not isinstance(f, str) and any(x.op == 'glob' or 'EDP_to_demand_type' in show(x, 1)
                                    for x in walk(f)) for f in fs):
                out.append((e, fs))
    return out


def level0(t):
    """First level of a two-level key read from the parameters."""
    return t.args[1].args[1].args[0] if t.op == 'index' and t.args[1].op == 'tuple' and len(t.args[1].args) == 2 and t.args[1].args[1].op == 'tuple' and len(t.args[1].args[1].args) == 2 else None


def extra_offset(x):
    """Offset looked up by demand type."""
    return x.op == 'index' and any(y.op == 'attr' and y.args[1] == 'demand_offset' for y in walk(x.args[0]))


def nodes(n, extra):
    """The value without its conditions, optionally without the keys of the offsets of demand types."""
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'ite':
            todo.extend(x.args[1:3])
        elif not extra and (extra_offset(x) or vq.mcall(x, 'get')):
            continue
        else:
            todo.extend(children(x))


def demand_reads(n, extra=True):
    """(field, first level, component) of every demand parameter read."""
    out = []
    for x in nodes(n, extra):
        if x.op == 'index' and x.args[1].op == 'tuple':
            ks = x.args[1].args
            if len(ks) == 2 and ks[1].op == 'tuple' and len(ks[1].args) == 2 and is_const(ks[1].args[1]):
                out.append((cval(ks[1].args[1]), ks[1].args[0], ks[0]))
            elif len(ks) == 2 and is_const(ks[1]) and isinstance(cval(ks[1]), str):
                out.append((cval(ks[1]), ks[0], None))
        elif x.op == 'index' and is_const(x.args[1]) and cval(x.args[1]) in ('Type', 'Offset', 'Directional') and x.args[0].op == 'index':
            out.append((cval(x.args[1]), x.args[0].args[1], None))
    return out


WANT = {0: 'Type', 1: 'Offset', 2: 'Directional'}


def required(res, ip, skipped):
    for e, fs in edp_names(ip):
        where = e.where()
        if any(f is None or isinstance(f, str) for f in fs):
            skipped.append('demand name')
            continue
        typ, loc, dr = fs
        cond = conditions(dr)
        groups = {'Type': typ, 'Offset': loc, 'Directional': cond}
        levels = {}
        for want, n in groups.items():
            rs = demand_reads(n) if n is not None else []
            rs = [r for r in rs if r[0] in WANT.values()]
            if not rs:
                skipped.append(f'{want} of the demand')
                continue
            if want == 'Offset':
                rs = [r for r in demand_reads(n, extra=False) if r[0] in WANT.values()]
            for f, lv, cm in rs:
                res.check('own', f == want, f'{want}', where, f'{f} is used in place of the {want} of the demand')
                if cm is not None and cm.op == 'index' and is_const(cm.args[1]):
                    res.check('own', is_pg(cm.args[0]) and cval(cm.args[1]) == 0, f'{want}: component', where, 'the parameters of another component are used')
                levels.setdefault(want, set()).add(lv)
        if len(levels) == 3:
            a = levels['Type']
            for w in ('Offset', 'Directional'):
                res.check('own', levels[w] == a, f'{w} of the same demand', where, f'the {w} is taken from another demand than the type')
        for lv in {x for s in levels.values() for x in s}:
            for c, leaf in leaves(lv):
                numbered(res, leaf, c, where, skipped)
        # type
        for c, leaf in leaves(typ):
            t = vq.text(leaf)
            has = None
            for g, p in c:
                while g.op == 'not':
                    g, p = g.args[0], not p
                if g.op == 'cmp' and g.args[0] in ('in', 'not in') and is_const(g.args[1], '|'):
                    has = p == (g.args[0] == 'in')
            kinds = [x if isinstance(x, str) else type_part(x) for x in t]
            if None in kinds or has is None:
                skipped.append(f'type {show(leaf, 3)}')
            elif has:
                res.check('name', kinds == [('base', 0), '_', ('sub', 1)], 'subtype', where, 'type and subtype are not joined in order')
            else:
                res.check('name', kinds == [('base', None)], 'type', where, 'the type is not that of the demand')
        location(res, ip, loc, where, skipped)
        # direction
        if dr.op == 'index' and is_pg(dr.args[0]):
            res.bad('direction', 'no direction', where, 'a component that is not directional gets a direction')
        for c, leaf in leaves(dr):
            if is_const(leaf):
                d = truth(c)
                if d is not None:
                    res.check('direction', cval(leaf) == '0' and not d, 'no direction', where, 'the direction is left out for a directional component')
                continue
            d = truth(c)
            if leaf.op == 'index' and is_const(leaf.args[1]) and is_pg(leaf.args[0]):
                res.check('direction', cval(leaf.args[1]) == 2 and d is not False, 'direction of the component', where,
                          'the direction is not that of the performance group')
            else:
                skipped.append(f'direction {show(leaf, 3)}')
        # refused when negative
        raises = [r for r in ip.events if r.kind == 'raise' and r.func is e.func]
        ok = False
        for r in raises:
            br = [(g, p) for g, p, k in r.guards if k == 'br']
            for g, p in br[-1:]:
                if g.op == 'cmp' and g.args[0] in ('<', '<=', '>', '>=') and is_const(g.args[2]):
                    same = eq(ip, g.args[1], loc)
                    if same:
                        ok = True
                        good = (g.args[0], cval(g.args[2]), p) in {('<', 0, True), ('<=', -1, True), ('>=', 0, False), ('>', -1, False)}
                        res.check('negative', good and r.seq < e.seq, 'location', r.where(), 'a location below zero is used')
                    elif same is False:
                        ok = True
                        res.bad('negative', 'location', r.where(), 'another value than the location is tested')
                    else:
                        skipped.append('negative location')
                        ok = True
        if not ok:
            res.bad('negative', 'location', where, 'a location below zero is not refused')
        # the list belongs to the performance group
        for a in ip.events:
            if a.kind == 'call' and a.node is not None and vq.mcall(a.node, 'append') and a.seq > e.seq and a.func is e.func and a.node.args[1]:
                v = a.node.args[1][0]
                if is_pg(v) or any(is_pg(x) for x in vwalk(v)):
                    res.check('paired', is_pg(v), 'performance group of the demand', a.where(), 'the demand is not assigned to the performance group that needs it')
                    break


def table_of_types(x):
    return x.op != 'index' and show(x, 1).endswith('EDP_to_demand_type')


def type_part(x):
    """The demand type of a name, or the subtype after the bar, with the part of the name it is taken from."""
    if x.op == 'index' and table_of_types(x.args[0]):
        k = x.args[1]
        if bar_part(k) is not None:
            return 'base', bar_part(k)
        return 'base', None
    if bar_part(x) is not None:
        return 'sub', bar_part(x)
    return None


def bar_part(k):
    if k.op == 'index' and is_const(k.args[1]) and vq.mcall(k.args[0], 'split') and k.args[0].args[1] and is_const(k.args[0].args[1][0], '|'):
        return cval(k.args[1])
    return None


def conditions(dr):
    if dr.op == 'ite':
        return dr.args[0]
    return None


def truth(conds):
    """Directional (True), not (False)."""
    out = None
    for g, p in conds:
        neg = False
        while g.op == 'not':
            g, neg = g.args[0], not neg
        if g.op == 'cmp':
            if is_const(g.args[2]) and cval(g.args[2]) in (1, True):
                if g.args[0] in ('!=', 'is not'):
                    neg = not neg
                elif g.args[0] not in ('==', 'is'):
                    return None
            elif is_const(g.args[2]) and cval(g.args[2]) in (0, False):
                if g.args[0] in ('==', 'is'):
                    neg = not neg
                elif g.args[0] not in ('!=', 'is not', '>'):
                    return None
            else:
                return None
        out = p != neg
    return out


def numbered(res, leaf, conds, where, skipped):
    """Demand, Demand2, Demand3, ... by position."""
    t = vq.text(leaf)
    if t == ['Demand']:
        for g, p in conds:
            if g.op == 'cmp' and g.args[0] in ('==', '!=') and is_const(g.args[2]) and isinstance(cval(g.args[2]), int):
                res.check('own', cval(g.args[2]) == 0 and (g.args[0] == '==') == p, 'first demand', where, 'the first demand is not the one without a number')
        return
    if len(t) == 2 and t[0] == 'Demand':
        n = t[1]
        vs = [x for x in walk(n) if x.op in ('elem', 'pos')]
        vs = [x for x in vs if not any(x is not y and x in set(walk(y)) for y in vs)]
        if len(vs) != 1:
            return
        x = vs[0]
        start = 0
        if x.op == 'elem' and vq.xcall(x.args[0], 'range') and len(x.args[0].args[1]) > 1:
            a = x.args[0].args[1][0]
            if not is_const(a):
                return
            start = 0
        try:
            d = (AVN(None, {x: H('i')}, stores=False).ev(n) - H('i')) % P
        except (Undecided, AttributeError):
            skipped.append('number of the demand')
            return
        ok = d == 1 if start == 0 and not (x.op == 'elem' and len(x.args[0].args[1]) > 1) else d in (0, 1)
        res.check('own', ok, 'numbered demands', where, 'further demands are not numbered from 2')


def location(res, ip, loc, where, skipped):
    """int(location) + int(offset [+ offset of the demand type])."""
    lv = list(leaves_deep(loc))
    for conds, env in lv:
        terms = {}
        for x in vwalk(loc):
            if x.op == 'index' and is_const(x.args[1]) and is_pg(x.args[0]):
                terms[x] = H('pg', cval(x.args[1]))
            elif x.op == 'index' and any(y.op == 'attr' and y.args[1] == 'demand_offset' for y in walk(x.args[0])) and not demand_reads_direct(x):
                terms[x] = H('extra')
                key = x.args[1]
                tested = [g for g, _p in conds if g.op == 'cmp' and g.args[0] in ('in', 'not in') and any(
                    y.op == 'attr' and y.args[1] == 'demand_offset' for y in walk(g.args[2]))]
                for g in tested:
                    res.check('name', g.args[1] is key, 'offset of the demand type', where, 'the offset of another demand type is added')
                for _c, kl in leaves(key):
                    if kl.op == 'index' and not table_of_types(kl.args[0]) or len(vq.text(kl)) > 1:
                        res.check('name', False, 'offset of the demand type', where, 'the offset is not looked up by the demand type')
            elif demand_reads_direct(x):
                terms[x] = H('offset')
        given = None
        for g, p in conds:
            if g.op == 'cmp' and g.args[0] in ('in', 'not in') and any(y.op == 'attr' and y.args[1] == 'demand_offset' for y in walk(g.args[2])):
                given = p == (g.args[0] == 'in')
        if given is None:
            skipped.append('location offsets')
            continue
        for x in walk(loc):
            if x.op == 'call' and vq.xcall(x, 'int', 'float') and len(x.args[1]) == 1:
                terms.setdefault(('int', x), None)
        try:
            got = affine(ip, loc, terms, conds)
        except Undecided as exc:
            skipped.append(f'location: {exc}')
            continue
        want = (H('pg', 1) + H('offset') + (H('extra') if given else 0)) % P
        res.check('name', got == want, 'location' + (' with offset of the type' if given else ''), where,
                  'the location is not that of the performance group with all offsets')


def leaves_deep(n):
    """Combinations of the conditions that decide whether an offset of the type applies."""
    conds = []
    for x in walk(n):
        if x.op == 'ite' and x.args[0].op == 'cmp' and x.args[0].args[0] in ('in', 'not in') and any(
            y.op == 'attr' and y.args[1] == 'demand_offset' for y in walk(x.args[0].args[2])
        ):
            conds.append(x.args[0])
    c = list(dict.fromkeys(conds))
    if len(c) != 1:
        if not c:
            yield (), None
        return
    yield ((c[0], True),), None
    yield ((c[0], False),), None


def demand_reads_direct(x):
    if x.op != 'index' or x.args[1].op != 'tuple':
        return False
    ks = x.args[1].args
    return len(ks) == 2 and ks[1].op == 'tuple' and len(ks[1].args) == 2 and is_const(ks[1].args[1])


def affine(ip, n, terms, conds):
    """Integer sum; conversions to int are transparent and other conditions must not matter."""
    if n in terms:
        return terms[n]
    if is_const(n):
        v = cval(n)
        if isinstance(v, (int, float)):
            return int(v) % P
        raise Undecided('constant')
    if vq.xcall(n, 'int', 'float', 'str') and len(n.args[1]) == 1:
        return affine(ip, n.args[1][0], terms, conds)
    if vq.xcall(n, 'abs'):
        return H(vq.bname(n), *(affine(ip, x, terms, conds) for x in n.args[1]))
    if n.op == 'binop' and n.args[0] in '+-':
        a, b = (affine(ip, x, terms, conds) for x in n.args[1:3])
        return (a + b) % P if n.args[0] == '+' else (a - b) % P
    if n.op == 'binop' and n.args[0] == '*':
        a, b = (affine(ip, x, terms, conds) for x in n.args[1:3])
        return a * b % P
    if n.op == 'unop' and n.args[0] == '-':
        return -affine(ip, n.args[1], terms, conds) % P
    if n.op == 'ite':
        for g, p in conds:
            if n.args[0] is g:
                return affine(ip, n.args[1 if p else 2], terms, conds)
        a, b = (affine(ip, x, terms, conds) for x in n.args[1:3])
        if a == b:
            return a
        raise Undecided('condition')
    if n.op == 'index' and n.args[0].op in ('elem',) or n.op == 'index':
        vs = {affine(ip, x, terms, conds) for x in alts(n, ip) if x is not n}
        if len(vs) == 1:
            return next(iter(vs))
    raise Undecided(show(n, 2))


def eq(ip, a, b):
    """Equal sums of the same values (None: not known)."""
    if a is b:
        return True
    try:
        t = {}
        for x in (*vwalk(a), *vwalk(b)):
            if x.op in ('index', 'ite'):
                t[x] = H(x.op, id(x))
        return affine(ip, a, t, ()) == affine(ip, b, t, ())
    except Undecided:
        return None


def split_of(k):
    """(index, whole) of an item of a demand name split at '-'."""
    if k.op == 'index' and is_const(k.args[1]) and vq.mcall(k.args[0], 'split') and k.args[0].args[1] and is_const(k.args[0].args[1][0], '-'):
        i = cval(k.args[1])
        return (i + 3 if isinstance(i, int) and i < 0 else i), vq.recv(k.args[0])
    return None


def demand_sample(n):
    return n.op == 'attr' and n.args[1] == 'sample' and n.args[0].op == 'attr' and n.args[0].args[1] == 'demand'


def assembled(res, ip, skipped):
    done = False
    for e in ip.events:
        if e.kind != 'store_index' or e.value is None:
            continue
        if e.node is None or not any(split_of(x) for x in vwalk(e.value)):
            continue
        for conds, leaf in leaves(e.value):
            if not any(demand_sample(x) for x in vwalk(leaf)):
                continue
            zero = None
            for g, p in conds:
                z = zero_direction(g)
                if z is not None:
                    zero = z == p
            if zero is None:
                continue
            for g, _p in conds:
                if zero_direction(g) is not None:
                    for x in walk(g):
                        if split_of(x):
                            res.check('value', split_of(x)[0] == 2, 'demands without direction', e.where(), 'the direction is not the last part of the name')
            done = True
            (envelope if zero else directional)(res, ip, e, leaf, skipped)
        # named by the same demand
        k = e.node
        wholes = {split_of(x)[1] for x in vwalk(e.value) if split_of(x)}
        if len(wholes) == 1 and split_of(k):
            res.bad('paired', 'value of a demand name', e.where(), 'the value is kept under a part of the name')
        if len(wholes) == 1 and k.op == 'elem':
            res.check('paired', k in wholes, 'value of a demand name', e.where(), 'the value is kept under another demand name')
    if not done:
        skipped.append('demand values')
    # errors
    for e in ip.events:
        if e.kind == 'store_index' and e.node is not None:
            t = vq.text(e.node)
            if len(t) == 2 and t[0] == 'X' and not isinstance(t[1], str):
                n = t[1]
                vs = [x for x in walk(n) if x.op == 'pos'] or [x for x in walk(n) if x.op == 'elem']
                if not vs:
                    continue
                x = vs[0]
                try:
                    d = (AVN(None, {x: H('i')}, stores=False).ev(n) - H('i')) % P
                except (Undecided, AttributeError):
                    skipped.append('X number')
                    continue
                if x.op == 'pos':
                    res.check('expression', d == 1, 'X1, X2, ...', e.where(), 'the terms of the expression are not numbered from 1')
                it = x.args[0]
                for y in wrappers(it):
                    if vq.xcall(y, 'reversed', 'sorted', 'set'):
                        res.bad('expression', 'X1, X2, ...', e.where(), 'the terms are not in the order of the demands')
                v = e.value
                if v.op == 'index' and v.args[0].op == 'call':
                    res.bad('expression', 'X1, X2, ...', e.where(), 'the terms do not get their own demand')


def wrappers(n):
    """The iterable and what it is made from."""
    while True:
        yield n
        if n.op == 'call' and n.args[1] and not vq.mcall(n, 'split'):
            n = n.args[1][0]
        elif n.op == 'call' and vq.recv(n) is not None:
            n = vq.recv(n)
        else:
            return


def zero_direction(g):
    """True when the condition holds for demands without a direction."""
    if g.op == 'not':
        r = zero_direction(g.args[0])
        return None if r is None else not r
    if g.op == 'cmp' and g.args[0] in ('==', '!='):
        for a, b in ((g.args[1], g.args[2]), (g.args[2], g.args[1])):
            if is_const(b) and cval(b) == '0':
                if split_of(a):
                    return g.args[0] == '=='
    return None


def selection(n):
    """Column keys of a selection from the demand sample, whole demand name."""
    for x in walk(n):
        if x.op == 'index':
            k = x.args[1]
            if x.args[0].op == 'attr' and x.args[0].args[1] == 'loc' and k.op == 'tuple' and len(k.args) == 2:
                k = k.args[1]
                base = x.args[0].args[0]
            else:
                base = x.args[0]
            if demand_sample(base):
                ks = k.args if k.op == 'tuple' else (k,)
                s = [split_of(y) or (show(y, 1), None) for y in ks]
                if any(y[1] is not None for y in s):
                    return [y[0] for y in s], {y[1] for y in s}, x
    return None


def directional(res, ip, e, leaf, skipped):
    s = selection(leaf)
    if s is None:
        skipped.append(f'directional demand {show(leaf, 3)}')
        return
    res.check('value', s[0] == [0, 1, 2] and len(s[1]) == 1, 'type, location and direction', e.where(),
              f'the demand is selected by the parts {s[0]} of its name')
    n = leaf
    while n is not s[2]:
        if vq.mcall(n, 'to_numpy', 'copy', 'astype', 'squeeze', 'ravel') or n.op == 'attr' and n.args[1] == 'values':
            n = n.args[0].args[0] if n.op == 'call' else n.args[0]
        elif vq.xcall(n, 'array', 'asarray'):
            n = n.args[1][0]
        else:
            if n.op == 'binop':
                res.bad('value', 'directional demand', e.where(), f'the demand is changed: {show(n, 3)}')
            else:
                skipped.append(f'directional demand {show(n, 3)}')
            return


def envelope(res, ip, e, leaf, skipped):
    where = e.where()
    s = selection(leaf)
    if s is None:
        skipped.append(f'non-directional demand {show(leaf, 3)}')
        return
    res.check('envelope', s[0] == [0, 1] and len(s[1]) == 1, 'type and location', where, f'the demand is selected by the parts {s[0]} of its name')
    stat = [x for x in walk(leaf) if x.op == 'call' and s[2] in set(walk(x)) and vq.bname(x) in
            ('max', 'min', 'mean', 'sum', 'median', 'nanmax', 'amax', 'std', 'prod', 'first')]
    if stat:
        for x in stat:
            ax = vq.arg(x, 'axis', 0 if vq.mcall(x, 'max') else 1)
            ok = vq.bname(x) in ('max', 'amax', 'nanmax')
            res.check('envelope', ok, 'largest over the directions', where, f'{vq.bname(x)} of the directions is used')
            if ax is None or is_const(ax):
                res.check('envelope', ax is not None and cval(ax) in (1, 'columns'), 'over the directions', where,
                          'the largest value over the realizations is used')
    else:
        skipped.append('envelope')
    mult = [x for x in vwalk(leaf) if x.op == 'index' and any(y.op == 'attr' and y.args[1] == 'nondir_multi_dict' for y in walk(x.args[0]))]
    if not mult:
        gets = [x for x in vwalk(leaf) if vq.mcall(x, 'get') and any(y.op == 'attr' and y.args[1] == 'nondir_multi_dict' for y in walk(vq.recv(x)))]
        if gets:
            skipped.append('multiplier')
        else:
            res.bad('envelope', 'multiplier', where, 'the demand is not multiplied')
        return
    # product of the two
    top = leaf
    env = {}
    for x in vwalk(leaf):
        if x in stat:
            env[x] = H('largest')
    for x in walk(leaf):
        if x.op == 'ite' and any(m in set(walk(x)) for m in mult):
            env[x] = H('multiplier')
    for m in mult:
        env.setdefault(m, H('multiplier'))
    try:
        av = AVN(ip, env)
        got = av.flat(av.ev(unwrap(top)))
        res.check('envelope', got == H('largest') * H('multiplier') % P, 'multiplied', where, 'the demand is not multiplied by the multiplier')
    except Undecided as exc:
        skipped.append(f'product: {exc}')
    for x in vwalk(leaf):
        if x.op == 'ite' and any(m in set(walk(x)) for m in mult):
            for c, m in leaves(x):
                if m.op != 'index':
                    if is_const(m):
                        res.bad('envelope', 'multiplier', where, 'a fixed multiplier is used for a type without one')
                    continue
                k = m.args[1]
                tests = [(g, p == (g.args[0] == 'in')) for g, p in c if g.op == 'cmp' and g.args[0] in ('in', 'not in')]
                if is_const(k, 'ALL'):
                    spec = [(g, p) for g, p in tests if split_of(g.args[1])]
                    if spec:
                        res.check('envelope', all(not p for g, p in spec), 'multiplier of the type first', where,
                                  'the general multiplier is used although the type has its own')
                    elif tests:
                        res.bad('envelope', 'multiplier of the type first', where, 'the general multiplier is used although the type has its own')
                elif split_of(k):
                    res.check('envelope', split_of(k)[0] == 0, 'multiplier of the type', where, 'the multiplier of another demand is used')
            break


def unwrap(n):
    while vq.mcall(n, 'to_numpy', 'copy', 'astype'):
        n = vq.recv(n)
    return n


def paired(res, ip, skipped):
    """Values and performance groups meet under the same name."""
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and vq.xcall(e.node, 'concat'):
            keys = vq.arg(e.node, 'keys', 3)
            if keys is None or not e.node.args[1] or not any(demand_sample(x) for x in vwalk(e.node.args[1][0])):
                continue
            if any(vq.xcall(g.args[0], 'zip') and sum(1 for y in g.args[0].args[1] if vq.mcall(y, 'values', 'items', 'keys')) > 1
                   for g, _p, k in e.guards if k == 'loop' and g.op == 'iter') and by_set(ip):
                res.bad('paired', 'demand and performance groups', e.where(), 'demands and performance groups are matched by position but are not in the same order')
            else:
                res.ok('paired', 'demand and performance groups')
        if e.kind == 'store_index' and e.node is not None and e.node.op == 'tuple' and len(e.node.args) == 2 and e.value is not None:
            a, b = e.node.args
            if not any(demand_sample(x) for x in vwalk(e.value)):
                continue
            ev = [x for x in vwalk(e.value) if vq.xcall(x, 'evaluate')]
            if all(x.op == 'index' and x.args[0].op == 'elem' and is_const(x.args[1]) for x in (a, b)) and a.args[0] is b.args[0]:
                res.check('paired', (cval(a.args[1]), cval(b.args[1])) == (0, 1), 'demands and expression', e.where(), 'the value is kept under another demand')
                for x in ev:
                    u = {y for y in walk(x.args[1][0]) if y.op == 'index' and y.args[0] is a.args[0]}
                    if u:
                        res.check('paired', u == {b}, 'expression of the demand', e.where(), 'the expression of another demand is evaluated')
            elif ev and is_const(b):
                res.bad('paired', 'expression of the demand', e.where(), 'the value of an expression is kept under the demand without it')
        if e.kind == 'call' and e.node is not None and vq.mcall(e.node, 'append') and e.node.args[1] and is_pg(e.node.args[1][0]):
            r = vq.recv(e.node)
            if r.op == 'index' and r.args[1].op == 'tuple' and len(r.args[1].args) == 2:
                x = r.args[1].args[1]
                if is_const(x) or reads_expression(x):
                    res.check('paired', not is_const(x), 'expression of the component', e.where(), 'the expression of the component is not used')


def by_set(ip):
    """The demands are collected from a set."""
    return any(vq.xcall(g.args[0], 'set') for e in ip.events if e.kind == 'store_index' and e.value is not None and any(
        demand_sample(x) for x in vwalk(e.value)) for g, _p, k in e.guards if k == 'loop' and g.op == 'iter')


def reads_expression(n):
    return any(x.op == 'const' and cval(x) == 'Expression' for x in walk(n))
