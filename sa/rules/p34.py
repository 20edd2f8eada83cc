"""P34: consequence scaling multiplies exactly the losses that meet the conditions."""

from __future__ import annotations

import ast
import itertools

from ..flow import cval, is_const, show
from .. import vq
from ..vq import arg, walk
from . import scaled
from .backed import Backed, follow

EXPLANATION = (
    'The rows of the scaling specification are followed to the conditions and the factor they become, and the entries of the location '
    'and direction are evaluated for single values, ranges and missing values. The selection of the scaled losses is evaluated for every '
    'number of conditions and every outcome of each of them. The whole scaling is followed on small specifications and losses.'
)
ENTRY = 'pelicun.model.loss_model.LossModel.consequence_scaling'
MULT = 'pelicun.base.multiply_factor_multiple_levels'
SPEC = {'dv': 'Decision Variable', 'dmg': 'Component', 'loc': 'Location', 'dir': 'Direction'}
FACTOR = 'Scale Factor'
MISSING = object()


class Undecided(Exception):
    pass


def run(ctx, res):
    res.rule('select', 'the losses that meet all conditions are scaled, and no others', 0)
    res.rule('factor', 'the losses are multiplied by the factor', 0)
    res.rule('condition', 'each condition has the value the specification gives for it', 0)
    res.rule('range', 'ranges stand for all their members, in all combinations', 0)
    res.rule('every', 'every row of the specification is applied to the losses of both models', 0)
    res.rule('scaled', scaled.RULE, 0)
    skipped = []
    proved = follow(ctx, res, (scaled.scaled,), skipped)
    res = Backed(res, dict.fromkeys(('select', 'factor', 'condition', 'range', 'every'), proved))
    for what, f, q, kw in (('multiplication', multiply, MULT, {}),
                           ('specification', specification, ENTRY, {'opaque': ('Logger', 'multiply_factor_multiple_levels'), 'key': 'p34'})):
        try:
            ip = ctx.interp(q, **kw)
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{what}: {exc}')
        else:
            f(ip, res, skipped)
    res.analysed['not_judged'] = skipped


# -- selection and multiplication -------------------------------------------------
class Selection:
    """Truth of a mask when the conditions have the given outcomes."""

    def __init__(self, ip, outcomes):
        self.ip, self.outcomes, self.env, self.cur = ip, outcomes, {}, None

    def is_conditions(self, n):
        return n.op in ('param', 'arg') and n.args[-1] == 'conditions'

    def over(self, c):
        return len(c.args[2]) == 1 and not c.args[3] and self.is_conditions(strip(c.args[2][0]))

    def level(self, n):
        return n.op == 'elem' and self.is_conditions(strip(n.args[0]))

    def ev(self, n):
        if n in self.env:
            return self.env[n]
        if is_const(n) and isinstance(cval(n), bool):
            return cval(n)
        if vq.mcall(n, 'to_numpy', 'copy', 'astype', 'tolist') or n.op == 'attr' and n.args[1] == 'values':
            return self.ev(n.args[0] if n.op == 'attr' else vq.recv(n))
        if vq.xcall(n, 'Series', 'full', 'full_like') and (arg(n, 'data', 0) if vq.xcall(n, 'Series') else arg(n, 'fill_value', 1)) is not None:
            return self.ev(arg(n, 'data', 0) if vq.xcall(n, 'Series') else arg(n, 'fill_value', 1))
        if vq.xcall(n, 'ones', 'zeros'):
            return vq.xcall(n, 'ones')
        if n.op == 'mu':
            init = self.ev(n.args[1])
            back = self.ip.mu_back.get(n)
            if back is None:
                raise Undecided('loop')
            acc = init
            for o in self.outcomes:
                saved, self.cur = dict(self.env), o
                self.env[n] = acc
                try:
                    acc = self.ev(back)
                finally:
                    self.env, self.cur = saved, None
            return acc
        if n.op == 'binop' and n.args[0] in ('&', '|', '*', '^'):
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            return (a and b) if n.args[0] in '&*' else (a or b) if n.args[0] == '|' else a != b
        if n.op == 'unop' and n.args[0] in ('~', 'not') or n.op == 'not':
            return not self.ev(n.args[-1])
        if vq.xcall(n, 'logical_and', 'logical_or') and len(n.args[1]) == 2:
            a, b = (self.ev(x) for x in n.args[1])
            return (a and b) if vq.bname(n) == 'logical_and' else (a or b)
        if n.op == 'ite' and n.args[0].op == 'comp' and self.over(n.args[0]):
            return self.ev(n.args[1 if self.outcomes else 2])
        if (vq.mcall(n, 'reduce') or vq.xcall(n, 'reduce')) and n.args[1] and n.args[1][0].op == 'list' and not n.args[1][0].args:
            return True
        if ((vq.mcall(n, 'reduce') or vq.xcall(n, 'reduce')) and n.args[1] and n.args[1][0].op == 'comp') or vq.xcall(n, 'all', 'any') and n.args[1] and n.args[1][0].op == 'comp':
            how = vq.bname(n)
            if how == 'reduce':
                t = show(n, 3)
                how = 'all' if 'logical_and' in t or 'and_' in t else 'any' if 'logical_or' in t or 'or_' in t else None
            c = n.args[1][0]
            if how is None or not self.over(c):
                raise Undecided(show(n, 3))
            vals = []
            for o in self.outcomes:
                self.cur = o
                vals.append(self.ev(c.args[1]))
            self.cur = None
            return all(vals) if how == 'all' else any(vals)
        if vq.mcall(n, 'reduce') or vq.xcall(n, 'reduce'):
            raise Undecided('reduce')
        if n.op == 'cmp' and n.args[0] in ('==', '!=') and self.cur is not None:
            a, b = n.args[1:3]
            if not vq.mcall(a, 'get_level_values'):
                a, b = b, a
            if self.matches(a, b):
                return self.cur == (n.args[0] == '==')
        if vq.mcall(n, 'isin') and self.cur is not None and n.args[1] and n.args[1][0].op in ('list', 'tuple', 'set') and len(n.args[1][0].args) == 1:
            if self.matches(vq.recv(n), n.args[1][0].args[0]):
                return self.cur
        raise Undecided(show(n, 3))

    def matches(self, a, b):
        """The level of a condition against the value of the same condition."""
        if vq.mcall(a, 'get_level_values') and a.args[1] and self.level(a.args[1][0]):
            if b.op == 'index' and self.is_conditions(b.args[0]) and b.args[1] is a.args[1][0]:
                return True
        return False


def strip(n):
    while vq.mcall(n, 'keys', 'items') or vq.xcall(n, 'list', 'tuple', 'iter') and n.args[1]:
        n = vq.recv(n) if vq.mcall(n, 'keys', 'items') else n.args[1][0]
    return n


def whole(n):
    return n.op == 'slice' and all(is_const(x, None) for x in n.args) or vq.xcall(n, 'slice') and all(is_const(x, None) for x in n.args[1])


def multiply(ip, res, skipped):
    done = set()
    for e in ip.events:
        if e.kind != 'store_index' or e.target is None or e.target.op != 'attr' or e.target.args[1] not in ('loc', 'iloc') or not hasattr(e.value, 'op'):
            continue
        df = e.target.args[0]
        if not (df.op in ('param', 'arg') and df.args[-1] == 'df'):
            continue
        k = e.node
        rows, cols = k.args if k.op == 'tuple' and len(k.args) == 2 else (k, None)
        axis = axis_of(e)
        sel, other = (rows, cols) if axis == 0 else (cols, rows)
        if axis is None or sel is None or other is not None and not whole(other):
            if axis is not None and (sel is None or whole(sel)) and other is not None and not whole(other):
                res.bad('select', f'axis {axis}', e.where(), 'the conditions are applied to the other axis')
            else:
                skipped.append(f'selection {show(k, 3)}')
            continue
        done.add(axis)
        # the levels are those of the axis
        want = {0: 'index', 1: 'columns'}[axis]
        for x in walk_loops(ip, sel):
            if vq.mcall(x, 'get_level_values'):
                for b in branch_values(vq.recv(x), axis):
                    if b.op == 'attr' and b.args[0] is df and b.args[1] in ('index', 'columns'):
                        res.check('select', b.args[1] == want, f'axis {axis}', e.where(), 'the conditions are compared with the levels of the other axis')
        try:
            for n in range(4):
                for outcomes in itertools.product((True, False), repeat=n):
                    r = Selection(ip, outcomes).ev(sel)
                    res.check('select', r == all(outcomes), f'axis {axis}: conditions met {outcomes}', e.where(),
                              'losses that do not meet all conditions are scaled' if r else 'losses that meet all conditions are not scaled')
        except (Undecided, RecursionError) as exc:
            skipped.append(f'selection: {exc}')
        # the factor
        v = e.value
        if v.op == 'binop' and v.args[0] in ('*', '+', '/', '-', '**'):
            f = [x for x in v.args[1:3] if x.op in ('param', 'arg') and x.args[-1] == 'factor']
            same = [x for x in v.args[1:3] if x.op == 'index' and x.args[0].op == 'attr' and x.args[0].args[1] in ('loc', 'iloc')
                    and x.args[0].args[0] is df and show(x.args[1], 12) == show(e.node, 12)]
            if not f and not same:
                skipped.append(f'factor {show(v, 3)}')
            else:
                res.check('factor', v.args[0] == '*' and len(f) == 1 and len(same) == 1, f'axis {axis}', e.where(), 'the losses are not multiplied by the factor')
        elif v.op in ('param', 'arg') and v.args[-1] == 'factor':
            res.check('factor', e.aug == '*', f'axis {axis}', e.where(), 'the losses are not multiplied by the factor')
        else:
            skipped.append(f'factor {show(v, 3)}')


def axis_of(e):
    for g, p, k in e.guards:
        if k in ('br', 'noret') and g.op == 'cmp' and g.args[0] in ('==', '!=') and g.args[1].op in ('param', 'arg') and g.args[1].args[-1] == 'axis' and is_const(g.args[2]):
            yes = p == (g.args[0] == '==')
            if yes:
                return cval(g.args[2])
    for g, p, k in e.guards:
        if k in ('br', 'noret') and g.op == 'cmp' and g.args[0] in ('==', '!=') and g.args[1].op in ('param', 'arg') and g.args[1].args[-1] == 'axis' and is_const(g.args[2]):
            return 1 - cval(g.args[2]) if cval(g.args[2]) in (0, 1) else None
    return None


def branch_values(n, axis):
    """Values of a node that depends on the axis, for that axis."""
    if n.op == 'ite':
        g = n.args[0]
        if g.op == 'cmp' and g.args[0] == '==' and g.args[1].op in ('param', 'arg') and g.args[1].args[-1] == 'axis' and is_const(g.args[2]):
            return branch_values(n.args[1 if cval(g.args[2]) == axis else 2], axis)
        return []
    return [n]


def walk_loops(ip, n):
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo += vq.children(x)
        if x in ip.mu_back:
            todo.append(ip.mu_back[x])


# -- specification ------------------------------------------------------------------
class Entry:
    """Members an entry of the specification stands for."""

    def __init__(self, ip, source, text):
        self.ip, self.source, self.text, self.env = ip, source, text, {}

    def ev(self, n):
        if n in self.env:
            return self.env[n]
        if n is self.source:
            return self.text
        if is_const(n):
            return cval(n)
        if n.op == 'ite':
            return self.ev(n.args[1 if self.ev(n.args[0]) else 2])
        if n.op in ('and', 'or'):
            r = None
            for x in n.args:
                r = self.ev(x)
                if bool(r) != (n.op == 'and'):
                    return r
            return r
        if n.op == 'not' or n.op == 'unop' and n.args[0] == 'not':
            return not self.ev(n.args[-1])
        if n.op == 'unop' and n.args[0] == '-':
            return -self.ev(n.args[1])
        if n.op == 'cmp':
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            if b is MISSING and n.args[0] in ('in', 'not in'):
                raise Undecided('missing value')
            return {'in': lambda: a in b, 'not in': lambda: a not in b, '==': lambda: a == b and a is not MISSING, '!=': lambda: a != b or a is MISSING,
                    '>': lambda: a > b, '<': lambda: a < b, '>=': lambda: a >= b, '<=': lambda: a <= b, 'is': lambda: a is b, 'is not': lambda: a is not b}[n.args[0]]()
        if vq.xcall(n, 'isna', 'isnull', 'notna', 'notnull') and len(n.args[1]) == 1:
            return (self.ev(n.args[1][0]) is MISSING) == vq.xcall(n, 'isna', 'isnull')
        if vq.xcall(n, 'isinstance') and len(n.args[1]) == 2:
            return isinstance(self.ev(n.args[1][0]), str) == ('str' in show(n.args[1][1], 2))
        if vq.mcall(n, 'split', 'partition', 'strip', 'count', 'find', 'index', 'replace', 'startswith', 'isdigit', 'rsplit', 'rpartition'):
            return getattr(self.ev(vq.recv(n)), vq.bname(n))(*[self.ev(x) for x in n.args[1]])
        if vq.xcall(n, 'int', 'str', 'range', 'list', 'tuple', 'len', 'sorted', 'set', 'map') and n.args[1]:
            if vq.bname(n) == 'map':
                f = n.args[1][0]
                if f.op == 'ext' and f.args[0] in ('builtins.int', 'builtins.str'):
                    return [{'builtins.int': int, 'builtins.str': str}[f.args[0]](x) for x in self.ev(n.args[1][1])]
                raise Undecided('map')
            xs = [self.ev(x) for x in n.args[1]]
            return {'int': int, 'str': str, 'range': range, 'list': list, 'tuple': tuple, 'len': len, 'sorted': sorted, 'set': set}[vq.bname(n)](*xs)
        if n.op in ('list', 'tuple') and n not in self.ip.appends:
            return [self.ev(x) for x in n.args]
        if n.op == 'fstr':
            return ''.join(x if isinstance(x, str) else str(self.ev(x)) for x in n.args)
        if n.op == 'comp' and len(n.args[2]) == 1:
            it = n.args[2][0]
            var = self.ip.N('elem', it)
            out = []
            for x in self.ev(it):
                self.env[var] = x
                if all(self.ev(c) for c in n.args[3]):
                    out.append(self.ev(n.args[1]))
            self.env.pop(var, None)
            return out
        if n.op == 'index':
            b = self.ev(n.args[0])
            k = n.args[1]
            if k.op == 'slice':
                return b[slice(*[self.ev(x) for x in k.args])]
            return b[self.ev(k)]
        if n.op == 'binop' and n.args[0] in ('+', '-', '*'):
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            return a + b if n.args[0] == '+' else a - b if n.args[0] == '-' else a * b
        raise Undecided(show(n, 3))


ENTRIES = [('2--4', ['2', '3', '4']), ('3--3', ['3']), ('9--11', ['9', '10', '11']), ('5', ['5']), ('roof', ['roof']), ('12', ['12']), ('all', ['all']), ('wing-2', ['wing-2'])]


def renames(ip):
    """Names given to the columns of the specification."""
    out = {}
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and vq.mcall(e.node, 'rename'):
            d = arg(e.node, 'columns')
            if d is not None and d.op == 'dict':
                for k, v in d.args:
                    if is_const(k) and is_const(v):
                        out[cval(v)] = cval(k)
    return out


def rowkey(n):
    """Constant key of an entry of a row."""
    return cval(n.args[1]) if n.op == 'index' and is_const(n.args[1]) and isinstance(cval(n.args[1]), str) else None


class Rows:
    def __init__(self, ip):
        self.ip, self.names = ip, renames(ip)
        self.tables = []
        for e in ip.events:
            n = e.node
            if e.kind == 'call' and n is not None and vq.xcall(n, 'DataFrame') and n.args[1] and arg(n, 'columns') is not None and arg(n, 'columns').op in ('list', 'tuple'):
                p = n.args[1][0]
                while vq.xcall(p, 'list', 'tuple') and p.args[1]:
                    p = p.args[1][0]
                if vq.xcall(p, 'product', 'zip'):
                    self.tables.append((e, p, [cval(x) for x in arg(n, 'columns').args if is_const(x)]))
        self.assigned = {k: v for e in ip.events if e.kind == 'call' and e.node is not None and vq.mcall(e.node, 'assign') for k, v in e.node.args[2]}

    def source(self, key):
        """(specification columns, expansion) of an entry of the rows applied."""
        for _e, p, cols in self.tables:
            if key in cols and cols.index(key) < len(p.args[1]):
                x = p.args[1][cols.index(key)]
                return self.columns(x), x
        if key in self.assigned:
            return self.columns(self.assigned[key]), self.assigned[key]
        return {self.names.get(key, key)}, None

    def expanded(self, v):
        """Collection a value of a row is taken from, if it is a member of one."""
        if v.op == 'index' and v.args[0].op == 'elem' and is_const(v.args[1]) and isinstance(cval(v.args[1]), int):
            p = strip(v.args[0].args[0])
            if vq.xcall(p, 'product', 'zip') and cval(v.args[1]) < len(p.args[1]):
                return p.args[1][cval(v.args[1])], p
        if v.op == 'elem':
            p = v.args[0]
            if p.op == 'ite' or vq.xcall(p, 'list') or p.op in ('list', 'phi', 'comp'):
                return p, None
        return None, None

    def value(self, v):
        """(columns, expansion, product) of a value of a condition."""
        x, p = self.expanded(v)
        if x is not None:
            return self.columns(x), x, p
        if rowkey(v):
            if v.args[0].op == 'row':
                src, y = self.source(rowkey(v))
                return src, y, None
            return {self.names.get(rowkey(v), rowkey(v))}, None, None
        return self.columns(v) or None, None, None

    def columns(self, n):
        return {self.names.get(rowkey(x), rowkey(x)) for x in walk(n) if rowkey(x) is not None and x.args[0].op in ('cbparam', 'row', 'elem', 'index', 'param', 'arg')}


def specification(ip, res, skipped):
    rows = Rows(ip)
    calls = [e for e in ip.events if e.kind == 'call' and e.node is not None and vq.ename(e) == 'multiply_factor_multiple_levels' or e.kind == 'call' and e.node is not None and vq.bname(e.node) == 'multiply_factor_multiple_levels']
    models = set()
    for e in calls:
        args, kw = call_args(e)
        df, conds, factor = (args.get(i) for i in ('df', 'conditions', 'factor'))
        where = e.where()
        if df is None or conds is None or factor is None:
            skipped.append('arguments')
            continue
        for x in walk(df):
            if x.op == 'attr' and x.args[1] in ('ds_model', 'lf_model'):
                models.add(x.args[1])
        ax = args.get('axis')
        if ax is None or is_const(ax):
            res.check('select', ax is not None and cval(ax) == 1, 'axis', where, 'the conditions are compared with the realizations')
        for lp in e.loops:
            res.check('every', not lp.breaks, 'rows', where, 'some rows of the specification are not applied')
        for lp in e.loops:
            for r in ip.events:
                if r.kind in ('return', 'ireturn') and lp.node is not None and isinstance(r.pos[1], ast.Return) and any(x is r.pos[1] for x in inside(lp.node)):
                    res.bad('every', 'rows', r.where(), 'the losses of the other models and rows are not scaled')
        for g, p, k in e.guards:
            if k == 'loop' and any(vq.mcall(x, 'drop_duplicates', 'head', 'groupby', 'unique') for x in walk(g)):
                res.bad('every', 'rows', where, 'identical rows of the specification are applied once')
            if k in ('br', 'noret') and not any(x.op == 'attr' and x.args[1] in ('sample', 'columns') for x in walk(g)):
                if any(rowkey(x) is not None or x.op == 'row' for x in walk(g)) and not any(is_const(x, 'dv') for x in walk(g)):
                    skipped.append(f'rows applied {show(g, 3)}')
        # the factor
        ks = {rows.names.get(rowkey(x), rowkey(x)) for x in ([factor] if rowkey(factor) else [])}
        if ks and factor.op == 'index':
            src, _x = rows.source(rowkey(factor))
            res.check('factor', src == {FACTOR}, 'factor', where, f'the losses are multiplied by {sorted(map(str, src))}')
        else:
            skipped.append(f'factor {show(factor, 3)}')
        conditions(ip, res, rows, conds, where, skipped)
    if calls:
        for m in ('ds_model', 'lf_model'):
            if models:
                res.check('every', m in models, m, calls[0].where(), f'the losses of the {m} are not scaled')
    for e, p, cols in rows.tables:
        res.check('range', vq.bname(p) == 'product', 'combinations', e.where(), 'the members of the ranges are not combined')
        for c, x in zip(cols, p.args[1]):
            expansion(ip, res, c, x, e.where(), skipped)


def inside(loop):
    todo = list(getattr(loop, 'body', ()))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))


def call_args(e):
    names = ['df', 'conditions', 'factor', 'axis', 'raise_missing']
    n = e.node
    if n.op != 'call':
        vals = e.value if isinstance(e.value, tuple) else ()
        return dict(zip(names, vals)), {}
    out = dict(zip(names, n.args[1]))
    out.update(dict(n.args[2]))
    return out, dict(n.args[2])


def taken(ip, res, rows, name, v, where, skipped):
    src, x, p = rows.value(v)
    if x is not None and not rows.tables:
        if p is not None:
            res.check('range', vq.bname(p) == 'product', 'combinations', where, 'the members of the ranges are not combined')
        expansion(ip, res, name, x, where, skipped)
    return src


def entries_of(conds):
    """Entries of a dictionary filtered from a literal one, with its filter."""
    k, v, its, cs = conds.args
    src = strip(its[0])
    if src.op == 'dict' and k.op == 'elem' and strip(k.args[0]) is src:
        vals = [x for _k, x in src.args]
        if v.op == 'index' and v.args[0] is src and v.args[1] is k or v.op == 'phi' and set(v.args) == set(vals):
            return src.args, cs
    return None


def conditions(ip, res, rows, conds, where, skipped):
    found = {}
    ent = entries_of(conds) if conds.op == 'dcomp' and len(conds.args[2]) == 1 else None
    if ent is not None:
        for k, v in ent[0]:
            if not is_const(k):
                skipped.append(f'condition {show(k, 3)}')
                return
            found[cval(k)] = taken(ip, res, rows, cval(k), v, where, skipped)
        missing = [missing_left_out(c) for c in ent[1]]
        if None in missing:
            skipped.append('missing values')
        else:
            res.check('condition', any(missing), 'missing values', where, 'missing values are used as conditions')
        judge(res, found, where, skipped)
        return
    if conds.op == 'dcomp' and len(conds.args[2]) == 1:
        k, v, its, cs = conds.args
        it = its[0]
        names = [cval(x) for x in it.args if is_const(x)] if it.op in ('tuple', 'list', 'set') else None
        if names is None or v.op != 'index' or v.args[1] is not k:
            skipped.append(f'conditions {show(conds, 3)}')
            return
        for nm in names:
            found[nm] = rows.source(nm)[0]
        missing = [missing_left_out(c) for c in cs]
        if None in missing:
            skipped.append('missing values')
        else:
            res.check('condition', any(missing), 'missing values', where, 'missing values are used as conditions')
    elif conds.op == 'dict':
        entries = list(conds.args) + [(k, v) for k, v, _g in ip.stores.get(conds, ())]
        for k, v in entries:
            if k.op == 'phi' and v.op == 'index' and v.args[1] is k:
                for x in k.args:
                    if getattr(x, 'op', None) and is_const(x):
                        found[cval(x)] = rows.source(cval(x))[0]
            elif is_const(k):
                found[cval(k)] = taken(ip, res, rows, cval(k), v, where, skipped)
            else:
                skipped.append(f'condition {show(k, 3)}')
                return
        for k, v, gs in ip.stores.get(conds, ()):
            m = [missing_left_out(g if p else ip.N('not', g)) for g, p, kk in gs if kk in ('br', 'noret')]
            if True not in m:
                skipped.append('missing values')
    else:
        skipped.append(f'conditions {show(conds, 3)}')
        return
    judge(res, found, where, skipped)


def judge(res, found, where, skipped):
    for nm, src in SPEC.items():
        got = found.get(nm, set())
        if got is None:
            skipped.append(f'condition {nm}')
            continue
        if not got and nm in found:
            skipped.append(f'condition {nm}')
            continue
        res.check('condition', got == {src}, nm, where, f'the condition {nm} is not that of the column {src}')
    for nm in found:
        if nm not in SPEC:
            res.bad('condition', str(nm), where, f'there is a condition on {nm}')


def missing_left_out(c):
    pol = True
    while c.op == 'not' or c.op == 'unop' and c.args[0] == 'not':
        c, pol = c.args[-1], not pol
    if vq.xcall(c, 'isna', 'isnull'):
        return not pol
    if vq.xcall(c, 'notna', 'notnull', 'isinstance'):
        return pol
    return None


def expansion(ip, res, col, x, where, skipped):
    if col not in ('loc', 'dir'):
        return
    src = [y for y in walk(x) if rowkey(y) is not None and y.args[0].op in ('cbparam', 'row', 'param', 'arg', 'elem')]
    if len(src) != 1:
        skipped.append(f'range {col}')
        return
    for text, want in [*ENTRIES, (MISSING, [MISSING])]:
        try:
            got = list(Entry(ip, src[0], text).ev(x))
        except Undecided as exc:
            skipped.append(f'range {col}: {exc}')
            return
        except Exception:  # noqa: BLE001
            got = None
        nm = 'a missing value' if text is MISSING else text
        res.check('range', got is not None and sorted(map(str, got)) == sorted(map(str, want)), f'{col}: {nm}', where,
                  f'{nm} stands for {got if text is not MISSING else "another value"}')
