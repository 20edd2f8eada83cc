"""P32: damaged quantities are the component quantities, split among the damage states of the blocks."""

from __future__ import annotations

from ..avn import AVN, NAN, H, P, Undecided
from ..flow import cval, is_const, show
from .. import vq
from ..vq import arg, leaves, walk
from . import p14, p42
from .backed import Backed, follow

EXPLANATION = (
    'The values stored as damaged quantities are evaluated algebraically for each possible damage state of a block in a realization, '
    'together with the keys they are stored under, the aggregation over the blocks and the completion of the damage states.'
)
CALC = 'pelicun.model.damage_model.DamageModel.calculate'


def run(ctx, res):
    res.rule('value', 'a damage state has the quantity divided by the number of blocks where the block is in it, zero elsewhere, none where cleared', 0)
    res.rule('key', 'a quantity is stored under the performance group and block of its damage states and the state itself', 0)
    res.rule('every', 'all damage states of all blocks are included, the undamaged state too', 0)
    res.rule('sum', 'quantities are summed over the blocks only', 0)
    res.rule('complete', 'when all damage states are listed, the missing ones are added with zeros', 0)
    res.rule('batches', 'the damage states of all batches are joined side by side', 0)
    for k in ('quantity', 'complete', 'states'):
        res.rule({'complete': 'listed'}.get(k, k), p42.RULES[k], 0)
    skipped = []
    shared = follow(ctx, res, (p42.quantities,), skipped)
    listed = follow(ctx, Renamed(res), (p42.completed,), skipped)
    joined = follow(ctx, res, (p42.states,), skipped)
    res = Backed(res, {**dict.fromkeys(('value', 'key', 'every', 'sum'), shared), 'complete': listed, 'batches': joined})
    ip = ctx.interp(CALC, opaque=('Logger', 'obtain_ds_sample'), key='p15')
    quantities(ip, res, skipped)
    totals(ip, res, skipped)
    completed(ip, res, skipped)
    batches(ctx, res, skipped)
    res.analysed['not_judged'] = skipped


class Renamed:
    """The rule of the other property has another name here."""

    def __init__(self, res):
        self.res, self.analysed = res, res.analysed

    def check(self, _rid, *a):
        return self.res.check('listed', *a)

    def ok(self, _rid, *a):
        self.res.ok('listed', *a)


def is_dss(n):
    return n.op == 'attr' and n.args[1] == 'ds_sample'


def strip(n):
    while True:
        if vq.mcall(n, 'to_numpy', 'copy', 'astype', 'tolist', 'to_list', 'ravel', 'flatten', 'unique', 'dropna', 'items', 'keys', 'to_dict'):
            n = vq.recv(n)
        elif n.op == 'attr' and n.args[1] in ('values', 'columns', 'array'):
            n = n.args[0]
        elif vq.xcall(n, 'set', 'sorted', 'list', 'tuple', 'unique', 'asarray', 'array', 'frozenset', 'Series', 'iter', 'to_numpy') and n.args[1]:
            n = n.args[1][0]
        else:
            return n


def colkey(n):
    """The element the node is when it runs over the columns of the damage state sample."""
    if n.op == 'elem' and is_dss(strip(n.args[0])):
        return n
    if n.op == 'index' and is_const(n.args[1], 0) and n.args[0].op == 'elem' and vq.mcall(n.args[0].args[0], 'items') and is_dss(strip(n.args[0].args[0])):
        return n
    return None


def series(n):
    """Column of the damage state sample."""
    n = strip(n)
    if n.op == 'index':
        b, k = n.args
        if b.op == 'attr' and b.args[1] == 'loc' and k.op == 'tuple' and len(k.args) == 2 and k.args[0].op == 'slice':
            b, k = b.args[0], k.args[1]
        if is_dss(strip(b)):
            return colkey(k)
        if b.op == 'elem' and is_const(k, 1) and vq.mcall(b.args[0], 'items') and is_dss(strip(b.args[0])):
            return b
    return None


def same(a, b):
    return a is b or (a.op == 'index' and a.args[0] is b) or (b.op == 'index' and b.args[0] is a)


def parts(n):
    """(column key, positions) of a key made of parts of a column key."""
    if n.op == 'index' and colkey(n) is None:
        k = colkey(n.args[0])
        i = n.args[1]
        if k is not None and is_const(i) and isinstance(cval(i), int):
            return k, (cval(i) % 5,)
        if k is not None and i.op == 'slice':
            lo, hi = (cval(x) if is_const(x) else '?' for x in i.args[:2])
            if '?' not in (lo, hi):
                return k, tuple(range(5))[lo:hi]
    if colkey(n) is not None:
        return colkey(n), (0, 1, 2, 3, 4)
    if n.op in ('tuple', 'list'):
        out, key = (), None
        for x in n.args:
            p = parts(x.args[0] if x.op == 'star' else x)
            if p is None or (key is not None and not same(key, p[0])):
                return None
            key = key or p[0]
            out += p[1]
        return (key, out) if key is not None else None
    if n.op == 'binop' and n.args[0] == '+':
        a, b = parts(n.args[1]), parts(n.args[2])
        if a and b and same(a[0], b[0]):
            return a[0], a[1] + b[1]
    if vq.xcall(n, 'tuple') and n.args[1]:
        return parts(n.args[1][0])
    return None


def current(n):
    """Damage state running over those of a block."""
    return n.op == 'elem' and series(n.args[0]) is not None


def ints(n):
    if n.op == 'unop' and n.args[0] == '-' and is_const(n.args[1]):
        return -cval(n.args[1])
    if is_const(n) and isinstance(cval(n), (int, float)):
        return cval(n)
    return None


COMPARE = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
           '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}


class Quantity(AVN):
    """Value of a damaged quantity in a realization where the block has a given damage state."""

    def __init__(self, ip, cur, state, everything, blocks):
        super().__init__(ip, {})
        self.cur, self.state, self.all_states, self.blocks = cur, state, everything, blocks

    def truth(self, n):
        return bool(self.cur) if current(n) else super().truth(n)

    def number(self, n):
        if current(n):
            return self.cur
        if series(n) is not None and not vq.xcall(n, 'set', 'frozenset', 'sorted', 'list', 'unique'):
            return self.state
        if vq.xcall(n, 'int', 'float') and n.args[1]:
            return self.number(n.args[1][0])
        return ints(n)

    def members(self, n):
        if n.op in ('tuple', 'list', 'set'):
            xs = [self.number(x) for x in n.args]
            return None if None in xs else set(xs)
        if series(n) is not None:
            return self.all_states
        return None

    def ev(self, n):
        if n.op == 'cmp':
            o = n.args[0]
            if o in ('in', 'not in'):
                if is_const(n.args[1], 'Blocks') and has_marginals(n.args[2]):
                    return self.blocks == (o == 'in')
                a, b = self.number(n.args[1]), self.members(n.args[2])
                if a is not None and b is not None:
                    return COMPARE[o](a, b)
            elif o in ('is', 'is not') and is_const(n.args[2], None) and has_marginals(n.args[1]):
                return (o == 'is not') == True  # noqa: E712
            elif o in ('==', '!=') and (series(n.args[1]) is None) != (series(n.args[2]) is None) and any(x.op == 'set' for x in n.args[1:3]):
                a, b = self.members(n.args[1]), self.members(n.args[2])
                if a is not None and b is not None:
                    return COMPARE[o](a, b)
            elif o in COMPARE:
                a, b = self.number(n.args[1]), self.number(n.args[2])
                if a is not None and b is not None:
                    return COMPARE[o](a, b)
            raise Undecided('comparison')
        if n.op == 'elem' and current(n):
            raise Undecided('damage state')
        if vq.mcall(n, 'any') and vq.recv(n).op == 'cmp' and not n.args[1]:
            c = vq.recv(n)
            for i, j in ((1, 2), (2, 1)):
                if series(c.args[i]) is not None and ints(c.args[j]) is not None and c.args[0] == '==':
                    return ints(c.args[j]) in self.all_states
        if n.op == 'binop' and n.args[0] in ('&', '|'):
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            if isinstance(a, bool) and isinstance(b, bool):
                return (a and b) if n.args[0] == '&' else (a or b)
        if n.op == 'unop' and n.args[0] == '~':
            a = self.ev(n.args[1])
            if isinstance(a, bool):
                return not a
        if n.op == 'index' or vq.mcall(n, 'get'):
            b, k = (n.args if n.op == 'index' else (vq.recv(n), n.args[1][0]))
            loc = b.op == 'attr' and b.args[1] in ('loc', 'at')
            if loc:
                b = b.args[0]
            if loc and k.op == 'tuple' and len(k.args) == 2:
                a0, a1 = k.args
                if a0.op == 'slice':
                    k = a1
                elif is_const(a1, 'Blocks'):
                    k = a0
            p = parts(k)
            if p is not None:
                t = strip(b)
                what = table(t) or table(b)
                if what is None and any(is_const(x, 'Blocks') for x in walk(n)) and has_marginals(b):
                    what = 'blocks'
                if what is not None:
                    return H(what, p[1])
            elif k.op == 'tuple' and len(k.args) == 4 and all(parts(x) or is_const(x) for x in k.args) and (table(strip(b)) or table(b)):
                return H('another key', show(k, 4))
        if vq.mcall(n, 'to_numpy', 'copy', 'astype', 'reset_index', 'item', 'squeeze', 'ravel', 'flatten') or n.op == 'attr' and n.args[1] == 'values':
            return self.ev(vq.recv(n) if n.op == 'call' else n.args[0])
        if vq.xcall(n, 'Series', 'to_numeric') and n.args[1]:
            return self.ev(n.args[1][0])
        if vq.mcall(n, 'where', 'mask') and n.args[1]:
            c = self.ev(n.args[1][0])
            if isinstance(c, bool):
                keep = c == (vq.bname(n) == 'where')
                o = arg(n, 'other', 1)
                return self.ev(vq.recv(n)) if keep else NAN if o is None else self.ev(o)
        return super().ev(n)


def table(t):
    if t.op == 'attr' and t.args[1] == 'cmp_sample':
        return 'quantity'
    if t.op == 'index' and is_const(t.args[1], 'Blocks') and has_marginals(t.args[0]):
        return 'blocks'
    if t.op == 'attr' and t.args[1] == 'Blocks' and has_marginals(t.args[0]):
        return 'blocks'
    if t.op == 'ite':
        # defined when it is needed
        xs = {table(strip(x)) for _c, x in leaves(t) if strip(x).op != 'unbound'}
        return xs.pop() if len(xs) == 1 else None
    return None


def has_marginals(n):
    return any(x.op == 'attr' and x.args[1] == 'cmp_marginal_params' for x in walk(n))


def quantities(ip, res, skipped):
    found = False
    for e in ip.events:
        v = k = None
        if e.kind == 'store_index' and e.value is not None and hasattr(e.value, 'op'):
            v, k = e.value, e.node
        elif e.kind == 'call' and e.node is not None and vq.mcall(e.node, 'append') and e.node.args[1]:
            v = e.node.args[1][0]
        if v is None or not any(x.op == 'attr' and x.args[1] == 'cmp_sample' for x in walk(v)) or not any(series(x) for x in walk(v) if x.op == 'index'):
            continue
        found = True
        value(ip, res, e, v, skipped)
        every(ip, res, e, skipped)
        if k is not None:
            key(res, e, k, v, skipped)
    if not found:
        skipped.append('no damaged quantities')


def value(ip, res, e, v, skipped):
    want = {'in it': None, 'elsewhere': 0, 'above': 0, 'cleared': NAN}
    q, b = H('quantity', (0, 1, 2, 3)), H('blocks', (0, 1, 2, 3))
    for cur in (5, 0):
        for what, want_v in want.items():
            state = {'in it': cur, 'elsewhere': 2, 'above': 7, 'cleared': -1}[what]
            for blocks in (True, False):
                for others in ({5}, {5, 0}, {5, 0, 2, 7, -1}):
                    try:
                        av = Quantity(ip, cur, state, others | {state, cur}, blocks)
                        got = av.flat(av.ev(v))
                    except Undecided as exc:
                        skipped.append(f'{what}: {exc} {av.unknown[:1]}')
                        continue
                    w = want_v if want_v is not None else q * pow(b, -1, P) % P if blocks else q
                    res.check('value', got == w, f'state {cur}, {what}{"" if blocks else ", no number of blocks"}', e.where(), {
                        'in it': 'the quantity of a block in the damage state is not the component quantity divided by the number of blocks',
                        'above': 'a block in a higher damage state is counted',
                        'elsewhere': 'a block in another damage state is counted',
                        'cleared': 'the quantity of a block with a cleared damage state is not empty'}[what])


def holds(g, cur, e):
    """Truth of a guard for a damage state."""
    if g.op == 'not':
        x = holds(g.args[0], cur, e)
        return None if x is None else not x
    if g.op in ('and', 'or'):
        xs = [holds(x, cur, e) for x in g.args]
        if g.op == 'and':
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    if g.op == 'cmp' and g.args[0] in COMPARE:
        f = COMPARE[g.args[0]]
        a, b = (cur if current(x) or vq.xcall(x, 'int') and current(x.args[1][0]) else ints(x) for x in g.args[1:3])
        if g.args[2].op in ('tuple', 'list', 'set'):
            b = [ints(x) for x in g.args[2].args]
        if a is not None and b is not None:
            return f(a, b)
    if current(g):
        return bool(cur)
    return None


def every(ip, res, e, skipped):
    for lp in e.loops:
        if lp.iter is not None and any(is_dss(x) for x in walk(lp.iter)):
            res.check('every', not lp.breaks, 'loop', e.where(), 'the rest is skipped')
            if lp.iter.op == 'index' and lp.iter.args[1].op == 'slice':
                res.bad('every', 'loop', e.where(), 'some are left out')
    for cur in (0, 1, 7):
        for g, p, k in e.guards:
            if k not in ('br', 'noret') or not any(current(x) for x in walk(g)):
                continue
            h = holds(g, cur, e)
            if h is None:
                skipped.append(f'guard {show(g, 3)}')
            else:
                res.check('every', h == p, f'damage state {cur}', e.where(), f'damage state {cur} is left out')
    drop = [holds(g, -1, e) != p for g, p, k in e.guards if k in ('br', 'noret') and any(current(x) for x in walk(g)) and holds(g, -1, e) is not None]
    if any(current(x) for x in walk(e.value) if hasattr(e.value, 'op')) and not any(g.op == 'cmp' and holds(g, -1, e) is None and any(current(x) for x in walk(g)) for g, p, k in e.guards):
        res.check('every', any(drop), 'cleared', e.where(), 'cleared damage states are listed as a damage state')


def key(res, e, k, v, skipped):
    if k.op != 'tuple' or len(k.args) < 5:
        skipped.append(f'key {show(k, 3)}')
        return
    src = {series(x) for x in walk(v) if x.op == 'index'} - {None}
    p, last = split_parts(k.args[:-1]), k.args[-1]
    if p is None:
        skipped.append(f'key {show(k, 3)}')
        return
    res.check('key', p[1] == (0, 1, 2, 3, 4), 'performance group and block', e.where(),
              'the quantity is stored under another performance group or block')
    if len(src) == 1:
        res.check('key', same(p[0], next(iter(src))), 'column', e.where(), 'the quantity is stored under the key of another column')
    t = vq.text(last)
    if len(t) == 1 and hasattr(t[0], 'op'):
        x = t[0]
        while vq.xcall(x, 'int', 'str') and x.args[1]:
            x = x.args[1][0]
        if current(x):
            res.check('key', last.op == 'fstr' or vq.xcall(last, 'str'), 'damage state', e.where(), 'the damage state is not stored as text')
        elif any(current(y) for y in walk(x)):
            res.bad('key', 'damage state', e.where(), 'the quantity is stored under another damage state')


def split_parts(args):
    out, key_ = (), None
    for x in args:
        p = parts(x.args[0] if x.op == 'star' else x)
        if p is None or (key_ is not None and not same(key_, p[0])):
            return None
        key_ = key_ or p[0]
        out += p[1]
    return key_, out


REDUCE = ('sum', 'mean', 'max', 'min', 'first', 'last', 'median', 'agg', 'aggregate', 'prod', 'count')


def final(ip):
    """Values stored as the damaged quantity sample."""
    return [e for e in ip.events if e.kind == 'store_attr' and is_const(e.node, 'sample') and hasattr(e.value, 'op') and 'ds_model' in show(e.target, 2)]


def totals(ip, res, skipped):
    seen = set()
    for e in final(ip):
        for n in walk(e.value):
            if n in seen or not vq.mcall(n, *REDUCE):
                continue
            g = vq.recv(n)
            if not vq.mcall(g, 'groupby'):
                continue
            lv = arg(g, 'level', 2) or arg(g, 'by', 0)
            if lv is None or lv.op not in ('list', 'tuple') or not all(is_const(x) for x in lv.args):
                continue
            names = [cval(x) for x in lv.args]
            if 'ds' not in names and 5 not in names and len(names) < 5:
                continue
            seen.add(n)
            res.check('sum', vq.bname(n) == 'sum', 'blocks', e.where(), f'{vq.bname(n)} of the blocks is used')
            if vq.bname(n) == 'sum':
                m = arg(n, 'min_count')
                res.check('sum', m is not None and is_const(m) and cval(m) == 1, 'cleared', e.where(),
                          'cleared damage states do not stay empty in the sum over the blocks')
            good = names in (['cmp', 'loc', 'dir', 'uid', 'ds'], [0, 1, 2, 3, 5])
            res.check('sum', good, 'levels', e.where(), f'quantities are summed for each {names}')
    if not seen:
        skipped.append('sum over the blocks')


class States(AVN):
    """Number of damage states after a limit state."""

    def __init__(self, ip, count, defined, weights):
        super().__init__(ip, {})
        self.count, self.defined, self.weights = count, defined, weights

    def ev(self, n):
        if n is self.count:
            return H('n')
        if vq.xcall(n, 'isna', 'isnull', 'notna', 'notnull') or vq.mcall(n, 'isna', 'isnull', 'notna', 'notnull'):
            x = n.args[1][0] if n.args[1] else vq.recv(n)
            c = {cval(y) for y in walk(x) if is_const(y)} & {'Theta_0', 'DamageStateWeights', 'Family'}
            if len(c) == 1:
                has = self.weights if c == {'DamageStateWeights'} else self.defined
                return has == vq.bname(n).startswith('not')
            raise Undecided('missing')
        if n.op == 'cmp' and n.args[0] in ('is', 'is not') and is_const(n.args[2], None) and any(is_const(y, 'DamageStateWeights') for y in walk(n.args[1])):
            raise Undecided('missing weights')
        if vq.xcall(n, 'len') and vq.mcall(n.args[1][0], 'split') and is_const(arg(n.args[1][0], 'sep', 0), '|'):
            return H('k') if self.weights else H('no weights')
        if n.op == 'binop' and n.args[0] == '+' and any(is_const(x, 1) for x in n.args[1:3]):
            c = next((x for x in n.args[1:3] if vq.mcall(x, 'count')), None)
            if c is not None and c.args[1] and is_const(c.args[1][0], '|'):
                return H('k')
        return super().ev(n)


def completed(ip, res, skipped):
    n = 0
    for mu in sorted((m for m in ip.mu_back if 'ds_count' in str(m.args[0]) or grows(ip, m)), key=str):
        back = ip.mu_back[mu]
        back = back if isinstance(back, (list, tuple, set)) else [back]
        if len(back) != 1:
            continue
        v = next(iter(back))
        where = next((e.where() for e in ip.events if any(x is mu for y in (e.node, e.value, e.target) if hasattr(y, 'op') for x in walk(y))), 'complete_ds_cols')
        if any(y.op == 'const' and cval(y) in ('DamageStateWeights',) for y in walk(v)):
            n += 1
            init = mu.args[1]
            offset = cval(init) if is_const(init) and isinstance(cval(init), int) else None
            if offset is None:
                if init.op in ('mu', 'phi'):
                    res.bad('complete', 'count', where, 'the damage states of previous components are counted')
                continue
            for what, d, w in (('undefined limit state', False, False), ('limit state', True, False), ('limit state with weights', True, True)):
                av = States(ip, mu, d, w)
                try:
                    got = av.flat(av.ev(v))
                except Undecided as exc:
                    skipped.append(f'count {what}: {exc} {av.unknown[:1]}')
                    continue
                want = (H('n') + (0 if not d else H('k') if w else 1)) % P
                res.check('complete', got == want, what, where, f'the number of damage states of a {what} is wrong')
            ranges = {x for e in ip.events for y in (e.node,) if hasattr(y, 'op') for x in walk(y)
                      if vq.xcall(x, 'range') and any(z is mu for z in walk(x))}
            for r in sorted(ranges, key=str):
                a = r.args[1]
                lo, hi = (None, a[0]) if len(a) == 1 else (a[0], a[1])
                av = States(ip, mu, True, False)
                try:
                    got = av.flat(av.ev(hi))
                except Undecided:
                    continue
                ok = got == (H('n') + 1 - offset) % P and (lo is None or is_const(lo, 0))
                res.check('complete', ok, 'all damage states', where, 'not all damage states from the undamaged one are listed')
    if not n:
        skipped.append('number of damage states')
    last = final(ip)
    done = [any(vq.xcall(v, 'DataFrame') or not plain(v) for _c, v in leaves(e.value)) for e in last]
    if last and not any(done):
        res.bad('complete', 'requested', last[-1].where(), 'the damage states are never completed')
    for e in last:
        for conds, v in leaves(e.value):
            on = None
            for g, p in (*conds, *vq.branches(e)):
                neg = g.op == 'not'
                g = g.args[0] if neg else g
                if g.op == 'attr' and g.args[1] == 'list_all_ds':
                    on = p != neg
            frame = vq.xcall(v, 'DataFrame')
            if on is None:
                continue
            if on and plain(v):
                res.bad('complete', 'requested', e.where(), 'the damage states are not completed although requested')
            if not on and frame:
                res.bad('complete', 'requested', e.where(), 'the damage states are completed although not requested')
            if on and frame:
                data = v.args[1][0] if v.args[1] else arg(v, 'data')
                if data is not None and is_const(data):
                    res.check('complete', cval(data) == 0, 'zeros', e.where(), 'missing damage states are not zero')
                st = [s for s in ip.events if s.kind == 'store_index' and s.target is not None and vq.root(s.target) is v]
                res.check('complete', bool(st) or bool(ip.stores.get(v)), 'existing', e.where(), 'the existing quantities are not kept')
                for s in st:
                    k = s.node.args[-1] if s.node.op == 'tuple' else s.node
                    src = vq.root(strip(k)) if k.op != 'slice' else None
                    if src is not None and hasattr(s.value, 'op') and s.value.op == 'attr' and s.value.args[1] == 'T':
                        res.check('complete', any(x is s.value for x in walk(k)), 'existing', s.where(), 'the existing quantities are stored under other columns')


def plain(v):
    """Sums over the blocks, as they are."""
    while v.op == 'attr' and v.args[1] == 'T' or vq.mcall(v, 'copy', 'transpose'):
        v = v.args[0] if v.op == 'attr' else vq.recv(v)
    return vq.mcall(v, *REDUCE) and vq.mcall(vq.recv(v), 'groupby')


def grows(ip, m):
    b = ip.mu_back[m]
    b = b if isinstance(b, (list, tuple, set)) else [b]
    return any(is_const(y, 'DamageStateWeights') for x in b for y in walk(x)) and is_const(m.args[1]) and isinstance(cval(m.args[1]), int)


def batches(ctx, res, skipped):
    ip = p14.calc(ctx)
    done = False
    for e in ip.events:
        if e.kind != 'store_attr' or not is_const(e.node, 'ds_sample') or not hasattr(e.value, 'op'):
            continue
        for n in walk(e.value):
            if not vq.xcall(n, 'concat') or not n.args[1]:
                continue
            lst = n.args[1][0]
            apps = [a for a in ip.events if a.kind == 'call' and a.node is not None and vq.mcall(a.node, 'append') and vq.recv(a.node) is lst]
            if not apps or vq.recv(apps[0].node).op != 'list':
                continue
            done = True
            ax = arg(n, 'axis', 1)
            res.check('batches', ax is not None and is_const(ax) and cval(ax) in (1, 'columns'), 'side by side', e.where(), 'the batches are not joined side by side')
            for a in apps:
                lp = a.loops[-1] if a.loops else None
                res.check('batches', lp is not None and not lp.breaks and not lp.continues, 'every batch', a.where(), 'some batches are left out')
                for g, _p, k in a.guards:
                    if k in ('br', 'noret') and lp is not None and any(x.op == 'elem' and x.args[0] is lp.iter for x in walk(g)):
                        res.bad('batches', 'every batch', a.where(), 'some batches are left out')
                if lp is not None and lp.iter is not None and lp.iter.op == 'index' and lp.iter.args[1].op == 'slice':
                    res.bad('batches', 'every batch', a.where(), 'some batches are left out')
    if not done:
        skipped.append('batches')
    for e in ip.events:
        if vq.ename(e) == '_get_pg_batches' and e.node is not None and e.node.args[1]:
            for conds, v in leaves(e.node.args[1][0]):
                on = None
                for g, p in conds:
                    if g.op == 'cmp' and g.args[0] in ('in', 'not in') and is_const(g.args[1], 'Blocks'):
                        on = p == (g.args[0] == 'in')
                if on is None:
                    continue
                has = any(is_const(x, 'Blocks') for x in walk(v)) and has_marginals(v)
                if on:
                    res.check('batches', has, 'blocks', e.where(), 'the number of blocks is not the one given')
                elif vq.xcall(v, 'DataFrame', 'Series') and (arg(v, 'data', 0) is not None):
                    d = arg(v, 'data', 0)
                    if d.op == 'dict' or not (vq.xcall(d, 'ones', 'zeros', 'full') or is_const(d)):
                        continue
                    ones = is_const(d, 1) or vq.xcall(d, 'ones') or vq.xcall(d, 'full') and is_const(arg(d, 'fill_value', 1), 1)
                    res.check('batches', ones, 'blocks', e.where(), 'components without a number of blocks do not have one block')
