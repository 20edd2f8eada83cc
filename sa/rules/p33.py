"""P33: aggregated losses are the sums of the losses of their decision variable."""

from __future__ import annotations

from collections import Counter

from ..flow import cval, is_const, show
from .. import aggworld, vq
from ..vq import arg, walk

EXPLANATION = (
    'Each value stored in the table of aggregated losses is evaluated on tables with symbolic losses of two decision variables, '
    'several components, damage states and locations in both loss models, and compared with the sum that its column stands for. The '
    'units are evaluated for decision variables with different names.'
)
ENTRY = 'pelicun.model.loss_model.LossModel.aggregate_losses'
OPAQUE = (
    'Logger', '_validate_input_replacement_thresholds', '_validate_input_loss_combination', '_apply_replacement_thresholds',
    '_apply_loss_combinations', '_make_replacement_exclusive', 'save_to_csv', 'convert_to_MultiIndex',
)
DS = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LF = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
NAMES = ('Cost', 'Carbon', 'Energy', 'CO2', 'embodied carbon', 'Downtime')


class Undecided(Exception):
    pass


def keep_keys(ip, b, k, _st, _pos):
    return ip.N('index', b, k) if b.op == 'dcomp' else None


def run(ctx, res):
    res.rule('sum', 'the aggregated losses are the sum of all losses of the decision variable', 0)
    res.rule('time', 'the sequential time is the sum over all locations and the parallel time the largest sum of a location', 0)
    res.rule('every', 'every decision variable with losses is aggregated', 0)
    res.rule('unit', 'the aggregated losses have the unit of their decision variable', 0)
    skipped = []
    try:
        ip = ctx.interp(ENTRY, opaque=OPAQUE, key='p33', hooks={'index': keep_keys})
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'aggregation: {exc}')
    else:
        sums(ip, res, skipped)
        units(ip, res, skipped)
    try:
        samples(ctx, res, skipped)
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'samples: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


def samples(ctx, res, skipped):
    """Small samples of every kind."""
    def values(k):
        return [float((7 * k + 3 * i * k + i) % 23) + 0.25 * k for i in range(3)]

    def ds(*dvs):
        cols = [(v, 'L' + c, c, st, loc, way, uid) for v in dvs for c in ('A', 'B') for st in ('1', '2') for loc in ('1', '2') for way, uid in ((('1', '0'), ('2', '0'), ('1', '1')) if c == 'A' else (('1', '0'),))]
        return {c: values(j + 1) for j, c in enumerate(cols)}

    def lf(*dvs):
        return {c: values(3 * j + 2) for j, c in enumerate((v, 'L' + c, c, loc, way, '0') for v in dvs for c in ('A', 'C') for loc in ('1', '3') for way in ('1', '2'))}

    for what, a, b, dvs in (
        ('both models', ds('Cost', 'Time'), lf('Cost', 'Time'), ['Cost', 'Time']), ('damage states', ds('Cost', 'Time', 'Carbon'), None, ['Cost', 'Time', 'Carbon']),
        ('loss functions', None, lf('Time', 'Cost'), ['Cost', 'Time']), ('no losses', None, None, ['Cost', 'Time', 'Energy']),
        ('each model another variable', ds('Cost'), lf('Time'), ['Time', 'Cost']), ('no time', ds('Cost'), lf('Cost'), ['Cost', 'Time']),
        ('no cost', ds('Time'), lf('Time'), ['Cost', 'Carbon', 'Time']), ('one variable', ds('Energy'), lf('Energy'), ['Energy']),
    ):
        aggworld.judge(ctx, res, skipped, 'sum', what, a, b, dvs, unit='unit')


def variable(n):
    """The node is the decision variable of a loop over all of them."""
    if n.op == 'elem':
        b = n.args[0]
        while vq.xcall(b, 'list', 'tuple', 'sorted', 'set', 'reversed') and b.args[1]:
            b = b.args[1][0]
        return b.op == 'attr' and b.args[1] == 'decision_variables'
    return False


# -- symbolic tables ------------------------------------------------------------
def add(exprs):
    c = Counter()
    for x in exprs:
        for a, w in x:
            c[a] += w
    return tuple(sorted(((a, w) for a, w in c.items() if w), key=str))


def atom(*a):
    return ((a, 1),)


class Table:
    def __init__(self, levels, cols, flipped=False):
        self.levels, self.cols, self.flipped = list(levels), cols, flipped

    def make(self, levels=None, cols=None, flipped=None):
        return Table(self.levels if levels is None else levels, self.cols if cols is None else cols, self.flipped if flipped is None else flipped)


class Groups:
    def __init__(self, table, levels):
        self.table, self.levels = table, levels


class Cell:
    def __init__(self, expr):
        self.expr = expr


def combine(how, exprs):
    if how == 'sum':
        return add(exprs)
    exprs = list(exprs)
    if len(exprs) == 1 and how in ('max', 'min', 'mean', 'median', 'first', 'last'):
        return exprs[0]
    return atom(how, frozenset(exprs) if how in ('max', 'min') else tuple(exprs))


def models(dvs):
    """Tables of both models, with the same component in two locations and in both models."""
    ds, lf = [], []
    for dv in dvs:
        for dmg in ('A', 'B'):
            for st in ('1', '2'):
                for loc in ('1', '2'):
                    for way, uid in (('1', '0'), ('2', '0'), ('1', '1')) if dmg == 'A' else (('1', '0'),):
                        k = (dv, 'L' + dmg, dmg, st, loc, way, uid)
                        ds.append((k, atom('ds', k)))
        for dmg in ('A', 'C'):
            for loc in ('1', '2', '3'):
                for way in ('1', '2'):
                    k = (dv, 'L' + dmg, dmg, loc, way, '0')
                    lf.append((k, atom('lf', k)))
    return Table(DS, ds), Table(LF, lf)


class Evaluator:
    def __init__(self, ip, dv, ds, lf):
        self.ip, self.dv, self.ds, self.lf, self.env = ip, dv, ds, lf, {}

    def key(self, n):
        if is_const(n):
            return cval(n)
        if variable(n):
            return self.dv
        if n.op == 'tuple':
            return tuple(self.key(x) for x in n.args)
        raise Undecided(show(n, 3))

    def names(self, n):
        if n is None:
            raise Undecided('levels')
        if n.op in ('list', 'tuple'):
            return [cval(x) for x in n.args if is_const(x)] if all(is_const(x) for x in n.args) else self.fail(n)
        return [cval(n)] if is_const(n) else self.fail(n)

    def fail(self, n):
        raise Undecided(show(n, 3))

    def axis(self, n, pos=0):
        a = arg(n, 'axis', pos)
        if a is None:
            return 0
        if is_const(a):
            return 1 if cval(a) in (1, 'columns') else 0
        raise Undecided('axis')

    def truth(self, c):
        if c.op in ('and', 'or'):
            xs = [self.truth(x) for x in c.args]
            return all(xs) if c.op == 'and' else any(xs)
        if c.op == 'not' or c.op == 'unop' and c.args[0] == 'not':
            return not self.truth(c.args[-1])
        if c.op == 'cmp':
            op, a, b = c.args
            if op in ('is', 'is not') and is_const(b, None):
                if a.op in ('param', 'arg'):
                    return op == 'is'
                return (self.ev(a) is None) == (op == 'is')
            if op in ('==', '!='):
                return (self.key(a) == self.key(b)) == (op == '==')
            if op in ('in', 'not in') and (is_const(a) or variable(a)):
                return op == 'in'
        raise Undecided(show(c, 3))

    def ev(self, n):
        if n in self.env:
            return self.env[n]
        if is_const(n, None):
            return None
        if n.op == 'attr' and n.args[1] == 'sample' and n.args[0].op == 'attr' and n.args[0].args[1] in ('ds_model', 'lf_model'):
            return self.ds if n.args[0].args[1] == 'ds_model' else self.lf
        if n.op == 'ite':
            return self.ev(n.args[1 if self.truth(n.args[0]) else 2])
        if n.op == 'phi':
            vals = [self.ev(x) for x in n.args if getattr(x, 'op', None)]
            if vals and all(v is vals[0] for v in vals):
                return vals[0]
            raise Undecided(show(n, 2))
        if n.op == 'attr' and n.args[1] == 'T':
            t = self.table(n.args[0])
            return t.make(flipped=not t.flipped)
        if n.op in ('list', 'tuple') and n not in self.ip.appends:
            return [self.ev(x) for x in n.args]
        if n.op == 'comp':
            return self.comp(n)
        if n.op == 'index':
            return self.index(n)
        if n.op == 'binop' and n.args[0] == '+':
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            if isinstance(a, Cell) and isinstance(b, Cell):
                return Cell(add([a.expr, b.expr]))
            raise Undecided('+')
        if n.op == 'binop' and n.args[0] in ('*', '/'):
            a = self.ev(n.args[1])
            if isinstance(a, Cell) and is_const(n.args[2]):
                if cval(n.args[2]) == 1:
                    return a
                return Cell(atom(n.args[0], a.expr, cval(n.args[2])))
        if n.op == 'call':
            return self.call(n)
        raise Undecided(show(n, 3))

    def table(self, n):
        t = self.ev(n)
        if not isinstance(t, Table):
            raise Undecided(f'not a table: {show(n, 3)}')
        return t

    def comp(self, n):
        return [self.within(env, n.args[1]) for env in self.items(n.args[2], n.args[3], n.args[1])]

    def within(self, env, n):
        saved = self.env
        self.env = {**saved, **env}
        try:
            return self.ev(n)
        finally:
            self.env = saved

    def items(self, iters, conds, elt):
        """Values of the loop variable for each item that meets the conditions."""
        if len(iters) != 1:
            raise Undecided('comprehension')
        it = iters[0]
        if it.op == 'comp':
            if it.args[1].op != 'phi':
                raise Undecided('comprehension')
            envs = self.items(it.args[2], it.args[3], it.args[1])
        elif it.op in ('tuple', 'list') and it not in self.ip.appends:
            phis = [x for x in walk(elt) if x.op == 'phi' and set(x.args) == set(it.args)]
            if not phis and len(set(it.args)) > 1:
                raise Undecided('comprehension')
            envs = [dict.fromkeys(phis, self.ev(x)) for x in it.args]
        else:
            raise Undecided('comprehension')
        out = []
        for env in envs:
            saved = self.env
            self.env = {**saved, **env}
            try:
                if all(self.truth(c) for c in conds):
                    out.append(env)
            finally:
                self.env = saved
        return out

    def select(self, t, key):
        ks = key if isinstance(key, tuple) else (key,)
        cols = [(c[len(ks):], x) for c, x in t.cols if c[:len(ks)] == ks]
        if len(t.levels) == len(ks):
            if len(cols) != 1:
                raise Undecided('selection')
            return Cell(cols[0][1])
        return t.make(levels=t.levels[len(ks):], cols=cols)

    def mask(self, t, m):
        pol = True
        while m.op == 'unop' and m.args[0] == '~':
            m, pol = m.args[1], not pol
        if m.op == 'cmp' and m.args[0] in ('==', '!=') and vq.mcall(m.args[1], 'get_level_values') and m.args[1].args[1]:
            lv = cval(m.args[1].args[1][0])
            lv = t.levels[lv] if isinstance(lv, int) else lv
            i = t.levels.index(lv)
            k = self.key(m.args[2])
            want = (m.args[0] == '==') == pol
            return t.make(cols=[(c, x) for c, x in t.cols if (c[i] == k) == want])
        raise Undecided('mask')

    def index(self, n):
        b, k = n.args
        if b.op == 'call' and vq.bname(b) == '_apply_replacement_thresholds' and is_const(k, 0):
            return self.ev(b.args[1][0])
        if b.op == 'attr' and b.args[1] in ('loc', 'iloc'):
            t = self.table(b.args[0])
            ks = k.args if k.op == 'tuple' else (k,)
            rows, cols = (ks[0], ks[1] if len(ks) > 1 else None)
            whole = lambda x: x is None or x.op == 'slice' and all(is_const(y, None) for y in x.args) or vq.xcall(x, 'slice')  # noqa: E731
            sel, other = (cols, rows) if not t.flipped else (rows, cols)
            if not whole(other) or sel is None or b.args[1] == 'iloc' and is_const(sel):
                raise Undecided('selection')
            if sel.op in ('cmp', 'unop'):
                return self.mask(t, sel)
            return self.select(t, self.key(sel))
        t = self.ev(b)
        if isinstance(t, Groups):
            raise Undecided('groups')
        if not isinstance(t, Table) or t.flipped:
            raise Undecided('selection')
        if k.op in ('list', 'slice', 'cmp'):
            raise Undecided('selection')
        return self.select(t, self.key(k))

    def call(self, n):
        if vq.bname(n) == '_apply_loss_combinations':
            return self.ev(n.args[1][1] if len(n.args[1]) > 1 else self.fail(n))
        if vq.mcall(n, 'copy', 'sort_index', 'astype', 'fillna', 'rename_axis', 'infer_objects', 'reset_index'):
            return self.ev(vq.recv(n))
        if vq.mcall(n, 'transpose'):
            t = self.table(vq.recv(n))
            return t.make(flipped=not t.flipped)
        if vq.mcall(n, 'groupby'):
            t = self.table(vq.recv(n))
            if (self.axis(n, 9) == 1) == t.flipped:
                raise Undecided('groups of realizations')
            lv = [t.levels[x] if isinstance(x, int) else x for x in self.names(arg(n, 'level') if arg(n, 'level') is not None else arg(n, 'by', 0))]
            if any(x not in t.levels for x in lv):
                raise Undecided('levels')
            return Groups(t, lv)
        if vq.mcall(n, 'sum', 'max', 'min', 'mean', 'median', 'first', 'last', 'agg', 'aggregate', 'prod', 'nunique', 'count'):
            how = vq.bname(n)
            b = self.ev(vq.recv(n))
            if how in ('agg', 'aggregate'):
                how = cval(n.args[1][0]) if n.args[1] and is_const(n.args[1][0]) else self.fail(n)
            if isinstance(b, Groups):
                groups = {}
                idx = [b.table.levels.index(x) for x in b.levels]
                for c, x in b.table.cols:
                    groups.setdefault(tuple(c[i] for i in idx), []).append(x)
                return b.table.make(levels=b.levels, cols=[(k, combine(how, xs)) for k, xs in sorted(groups.items())])
            if isinstance(b, Table):
                if (self.axis(n, 1 if vq.bname(n).startswith('agg') else 0) == 1) == b.flipped:
                    raise Undecided('over the realizations')
                lv = arg(n, 'level')
                if lv is not None:
                    raise Undecided('level')
                return Cell(combine(how, [x for _c, x in b.cols]))
            if isinstance(b, Cell):
                raise Undecided('over the realizations')
        if vq.xcall(n, 'concat') and n.args[1]:
            ts = [t for t in self.ev(n.args[1][0]) if t is not None]
            flipped = self.axis(n, 1) == 0
            if not ts or any(not isinstance(t, Table) or t.flipped != flipped or t.levels != ts[0].levels for t in ts):
                raise Undecided('concat')
            return ts[0].make(cols=[c for t in ts for c in t.cols])
        if vq.mcall(n, 'add') and len(n.args[1]) == 1:
            a, b = self.ev(vq.recv(n)), self.ev(n.args[1][0])
            if isinstance(a, Cell) and isinstance(b, Cell):
                return Cell(add([a.expr, b.expr]))
            f = arg(n, 'fill_value', 3)
            if isinstance(a, Table) and isinstance(b, Table) and a.levels == b.levels and a.flipped == b.flipped and f is not None and is_const(f) and cval(f) == 0:
                out = dict(a.cols)
                for c, x in b.cols:
                    out[c] = add([out[c], x]) if c in out else x
                return a.make(cols=sorted(out.items()))
        if vq.mcall(n, 'xs') and n.args[1]:
            t = self.table(vq.recv(n))
            lv = arg(n, 'level', 2)
            if (self.axis(n, 1) == 1) == t.flipped:
                raise Undecided('xs')
            k = self.key(n.args[1][0])
            if lv is None:
                return self.select(t, k)
            i = t.levels.index(self.names(lv)[0])
            return t.make(levels=t.levels[:i] + t.levels[i + 1:], cols=[(c[:i] + c[i + 1:], x) for c, x in t.cols if c[i] == k])
        if vq.xcall(n, 'maximum', 'minimum') and len(n.args[1]) == 2:
            a, b = self.ev(n.args[1][0]), self.ev(n.args[1][1])
            if isinstance(a, Cell) and isinstance(b, Cell):
                return Cell(combine('max' if vq.bname(n) == 'maximum' else 'min', [a.expr, b.expr]))
        raise Undecided(show(n, 3))


# -- sums ------------------------------------------------------------------------
def expected(kind, dv, tabs):
    locs = {}
    for t in tabs:
        if t is None:
            continue
        i = t.levels.index('loc')
        for c, x in t.cols:
            if c[0] == dv:
                locs.setdefault(c[i], []).append(x)
    if kind == 'parallel':
        return combine('max', [add(xs) for xs in locs.values()])
    return add([x for xs in locs.values() for x in xs])


def column(k):
    """(kind, decision variable node or name) of a column of the aggregated losses."""
    if is_const(k) and isinstance(cval(k), str):
        s = cval(k)
        if s.startswith('repair_time'):
            return ('parallel' if 'parallel' in s else 'sequential' if 'sequential' in s else None), None
        return None, None
    if any(variable(x) for x in walk(k)):
        return 'sum', next(x for x in walk(k) if variable(x))
    return None, None


def sums(ip, res, skipped):
    both = models(('Cost', 'Time'))
    found = {}
    for e in ip.events:
        if e.kind != 'store_index' or not hasattr(e.value, 'op') or e.target is None or e.aug:
            continue
        k = e.node
        if k.op == 'tuple' and len(k.args) == 2 and e.target.op == 'attr' and e.target.args[1] == 'loc':
            k = k.args[1]
        kind, _dv = column(k)
        if kind is None:
            if 'repair_' in show(k, 3):
                skipped.append(f'column {show(k, 3)}')
            continue
        rule = 'time' if kind != 'sum' else 'sum'
        decided = True
        for tabs in (both, (both[0], None), (None, both[1])):
            dv = 'Time' if kind != 'sum' else 'Cost'
            try:
                v = Evaluator(ip, dv, *tabs).ev(e.value)
            except (Undecided, ValueError, IndexError) as exc:
                skipped.append(f'{kind}: {exc}')
                decided = False
                break
            if not isinstance(v, Cell):
                skipped.append(f'{kind}: not a value for each realization')
                decided = False
                break
            what = {'sum': 'the aggregated losses are not the sum of the losses of the decision variable',
                    'sequential': 'the sequential time is not the sum of all times', 'parallel': 'the parallel time is not the largest sum of the times of a location'}[kind]
            res.check(rule, v.expr == expected(kind, dv, tabs), kind + (': both models' if None not in tabs else ': one model'), e.where(), what)
        if decided:
            found[kind] = e
        for lp in e.loops:
            res.check('every', not lp.breaks, kind, e.where(), 'some decision variables are left out')
        for g, p, kk in e.guards:
            if kk == 'loop' and g.op == 'iter' and g.args[0].op == 'index':
                res.bad('every', kind, e.where(), 'some decision variables are left out')
            if kk in ('br', 'noret'):
                for name in NAMES:
                    t = excludes(g, p, name)
                    if t and kind == 'sum':
                        res.bad('every', kind, e.where(), f'the decision variable {name} is left out')
    res.analysed['columns'] = sorted(found)


def excludes(g, p, name):
    """The condition does not hold for the decision variable, whatever the losses."""
    if g.op == 'and' and p:
        return any(excludes(x, True, name) for x in g.args)
    if g.op == 'and':
        return all(always(x, name) for x in g.args)
    if g.op == 'or' and not p:
        return any(excludes(x, False, name) for x in g.args)
    if g.op == 'not' or g.op == 'unop' and g.args[0] == 'not':
        return excludes(g.args[-1], not p, name)
    if g.op == 'cmp' and g.args[0] in ('==', '!=') and variable(g.args[1]) and is_const(g.args[2]):
        return ((name == cval(g.args[2])) == (g.args[0] == '==')) != p
    if g.op == 'cmp' and g.args[0] in ('in', 'not in') and variable(g.args[1]) and g.args[2].op in ('list', 'tuple', 'set') and all(is_const(x) for x in g.args[2].args):
        return ((name in [cval(x) for x in g.args[2].args]) == (g.args[0] == 'in')) != p
    return False


def always(g, name):
    return g.op == 'cmp' and g.args[0] in ('==', '!=') and variable(g.args[1]) and is_const(g.args[2]) and (
        (name == cval(g.args[2])) == (g.args[0] == '=='))


# -- units -------------------------------------------------------------------------
class Text:
    """Strings made from the name of a column."""

    def __init__(self, dv, col, dvs):
        self.dv, self.col, self.dvs = dv, col, dvs

    def ev(self, n):
        if is_const(n):
            return cval(n)
        if variable(n):
            return self.dv
        if n.op == 'elem':
            b = n.args[0]
            while vq.mcall(b, 'get_level_values', 'to_list', 'tolist') or vq.xcall(b, 'list', 'tuple') and b.args[1]:
                b = vq.recv(b) if vq.mcall(b, 'get_level_values', 'to_list', 'tolist') else b.args[1][0]
            if b.op == 'attr' and b.args[1] == 'columns' and self.col is not None:
                return self.col
            raise Undecided(show(n, 2))
        if n.op == 'fstr':
            return ''.join(x if isinstance(x, str) else str(self.ev(x)) for x in n.args)
        if n.op == 'binop' and n.args[0] == '+':
            return self.ev(n.args[1]) + self.ev(n.args[2])
        if vq.mcall(n, 'replace', 'title', 'lower', 'upper', 'capitalize', 'removeprefix', 'removesuffix', 'split', 'strip', 'casefold', 'rsplit', 'partition', 'rpartition', 'lstrip', 'rstrip'):
            return getattr(self.ev(vq.recv(n)), vq.bname(n))(*[self.ev(x) for x in n.args[1]])
        if n.op == 'index':
            b = n.args[0]
            if b.op == 'dcomp':
                return self.lookup(b, self.ev(n.args[1]))
            x, k = self.ev(b), n.args[1]
            if k.op == 'slice' and all(is_const(y) for y in k.args):
                return x[slice(*[cval(y) for y in k.args])]
            return x[self.ev(k)]
        if vq.mcall(n, 'get') and vq.recv(n).op == 'dcomp':
            return self.lookup(vq.recv(n), self.ev(n.args[1][0]))
        if n.op == 'phi' and len(n.args) == 1:
            return self.ev(n.args[0])
        if n.op == 'ite':
            g = n.args[0]
            if g.op == 'cmp' and g.args[0] in ('==', '!=', 'in', 'not in'):
                a, b = self.ev(g.args[1]), self.ev(g.args[2])
                t = {'==': a == b, '!=': a != b, 'in': a in b if isinstance(b, str) else None, 'not in': a not in b if isinstance(b, str) else None}[g.args[0]]
                if t is not None:
                    return self.ev(n.args[1 if t else 2])
            if vq.mcall(g, 'startswith', 'endswith'):
                return self.ev(n.args[1 if getattr(self.ev(vq.recv(g)), vq.bname(g))(self.ev(g.args[1][0])) else 2])
        raise Undecided(show(n, 3))

    def lookup(self, d, k):
        for dv in self.dvs:
            if Text(dv, None, self.dvs).ev(d.args[0]) == k:
                return Text(dv, None, self.dvs).ev(d.args[1])
        raise KeyError(k)


def units(ip, res, skipped):
    calls = [e for e in ip.events if e.kind == 'call' and e.node is not None and vq.bname(e.node) == 'save_to_csv']
    stored = [k for e in ip.events if e.kind == 'store_index' and hasattr(e.value, 'op') for k in [e.node.args[-1] if e.node.op == 'tuple' else e.node] if column(k)[0]]
    for e in calls:
        u = arg(e.node, 'units', 2)
        if u is None:
            skipped.append('units')
            continue
        ks = {x for x in walk(u) if x.op == 'index' and x.args[0].op == 'attr' and x.args[0].args[1] == 'dv_units'}
        if len(ks) != 1:
            skipped.append(f'units {show(u, 3)}')
            continue
        x = ks.pop()
        for k in stored:
            kind, _v = column(k)
            for dv in (('Time',) if kind != 'sum' else NAMES):
                dvs = ('Time', *NAMES)
                try:
                    col = Text(dv, None, dvs).ev(k)
                    got = Text(None, col, dvs).ev(x.args[1])
                except KeyError:
                    got = None
                except Exception as exc:  # noqa: BLE001
                    skipped.append(f'unit of {dv}: {exc}')
                    break
                res.check('unit', got == dv, f'{kind}: {dv}', e.where(), f'the losses of {dv} do not have the unit of their decision variable')
