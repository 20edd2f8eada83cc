"""P16: replacement excludes all other losses of the realization."""

from __future__ import annotations

from .. import aggworld
from ..avn import AVN, H, P, Undecided
from ..flow import cval, is_const, show
from .. import vq
from ..vq import arg, leaves, vwalk, walk

EXPLANATION = (
    'The aggregation of losses is followed with its helpers inlined. The rows and columns of every assignment to a loss table, and the '
    'rows and columns of the sum compared with a replacement threshold, are evaluated for realizations with and without replacement '
    'and for replacement and other losses. The decision variables that select the parts of each comparison and assignment are compared.'
)
MOD = 'pelicun.model.loss_model.'
OPAQUE = ('Logger', '_validate_input_replacement_thresholds', '_validate_input_loss_combination', '_apply_loss_combinations', '_aggregate_sample')
LEVELS = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']


def run(ctx, res):
    res.rule('exclusive', 'where a replacement loss is not zero, all other losses are set to zero', 0)
    res.rule('used', 'the losses after the exclusion are the ones aggregated', 0)
    res.rule('threshold', 'replacement is triggered where the sum of the other losses of a decision variable exceeds its threshold', 0)
    res.rule('assign', 'where replacement is triggered, every decision variable has its replacement consequence', 0)
    res.rule('zero', 'where replacement is triggered, all other losses are set to zero', 0)
    res.rule('report', 'the decision variables that triggered replacement are returned', 0)
    skipped = []
    try:
        ip = ctx.interp(MOD + 'LossModel.aggregate_losses', opaque=OPAQUE, key='p16')
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'aggregation: {exc}')
    else:
        exclusive(ip, res, skipped)
        thresholds(ip, res, skipped)
    for f in (replaced, exceeded):
        try:
            f(ctx, res, skipped)
        except Exception as exc:  # noqa: BLE001
            skipped.append(f'{f.__name__}: {type(exc).__name__} {exc}')
    res.analysed['not_judged'] = skipped


# -- small samples ---------------------------------------------------------------
OTHER = {
    ('Cost', 'LA', 'A', '1', '1', '1', '0'): [1.0, 2.0, 3.0], ('Cost', 'LA', 'A', '2', '1', '1', '0'): [0.0, 20.0, 30.0], ('Cost', 'LA', 'A', '2', '2', '1', '0'): [4.0, 0.25, 0.5],
    ('Time', 'LA', 'A', '2', '2', '1', '0'): [7.0, 8.0, 9.0], ('Time', 'LA', 'A', '2', '1', '1', '0'): [1.0, 10.0, 1.0],
}
FUNCTIONS = {('Cost', 'LC', 'C', '1', '1', '0'): [100.0, 200.0, 300.0], ('Time', 'LC', 'C', '3', '1', '0'): [0.5, 0.25, 40.0], ('Cost', 'LA', 'A', '1', '1', '0'): [0.0, 5.0, 6.0]}


def gone(dv, dmg, values):
    return {(dv, 'replacement', dmg, '1', '0', '1', '0'): values}


def replaced(ctx, res, skipped):
    for what, ds, lf in (
        ('small consequences', {**OTHER, **gone('Cost', 'collapse', [0.0, 0.25, 0.0])}, FUNCTIONS),
        ('one decision variable', {**OTHER, **gone('Cost', 'collapse', [0.0, 50.0, 0.0]), **gone('Time', 'collapse', [0.0, 0.0, 60.0])}, FUNCTIONS),
        ('two drivers', {**OTHER, **gone('Cost', 'collapse', [70.0, 0.0, 0.0]), **gone('Cost', 'irreparable', [0.0, 0.0, 80.0]), **gone('Time', 'irreparable', [0.0, 0.0, 90.0])}, FUNCTIONS),
        ('no loss functions', {**OTHER, **gone('Cost', 'collapse', [0.0, 0.0, 2.0])}, None),
        ('never', {**OTHER, **gone('Cost', 'collapse', [0.0, 0.0, 0.0])}, FUNCTIONS),
        ('always', {**OTHER, **gone('Cost', 'collapse', [1.0, 2.0, 0.5]), **gone('Time', 'collapse', [3.0, 4.0, 5.0])}, FUNCTIONS),
        ('no other losses', {**gone('Cost', 'collapse', [1.0, 0.0, 0.5]), **gone('Time', 'collapse', [3.0, 0.0, 5.0])}, None),
    ):
        aggworld.judge(ctx, res, skipped, 'exclusive', f'replacement, {what}', ds, lf, ['Cost', 'Time'], kept='exclusive')


def exceeded(ctx, res, skipped):
    both = {**OTHER, **gone('Cost', 'collapse', [0.0, 50.0, 0.0]), **gone('Time', 'collapse', [0.0, 60.0, 0.0])}
    value = {'Cost': [210.0, 400.0, 100.0], 'Time': [40.0, 50.0, 60.0]}
    for what, ds, lf, values, ratios in (
        ('one threshold', both, FUNCTIONS, value, {'Cost': 0.5}),
        ('the other threshold', both, FUNCTIONS, value, {'Time': 0.25}),
        ('two thresholds', both, FUNCTIONS, value, {'Cost': 0.25, 'Time': 0.2}),
        ('a loss that equals the threshold', OTHER, FUNCTIONS, value, {'Cost': 0.5}),
        ('no threshold', both, FUNCTIONS, value, {}),
        ('no replacement losses', OTHER, FUNCTIONS, value, {'Cost': 0.75}),
        ('no loss functions', both, None, value, {'Time': 0.1}),
        ('only loss functions', None, FUNCTIONS, value, {'Cost': 0.75, 'Time': 0.5}),
        ('a decision variable without losses', {k: v for k, v in OTHER.items() if k[0] == 'Cost'}, None, value, {'Cost': 0.05, 'Time': 0.1}),
        ('only replacement', {**gone('Cost', 'collapse', [1.0, 2.0, 0.5])}, None, value, {'Cost': 0.001}),
        ('one realization left', {**OTHER, **gone('Cost', 'collapse', [10.0, 50.0, 0.0]), **gone('Time', 'collapse', [0.0, 60.0, 0.0])}, FUNCTIONS, value, {'Cost': 0.5}),
        ('one realization left, of time', {**OTHER, **gone('Cost', 'collapse', [0.0, 50.0, 0.0]), **gone('Time', 'collapse', [10.0, 60.0, 0.0])}, FUNCTIONS, value, {'Time': 0.01}),
        ('replacement of one decision variable', {**OTHER, **gone('Cost', 'collapse', [0.0, 50.0, 0.0])}, FUNCTIONS, value, {'Cost': 0.75, 'Time': 0.5}),
    ):
        if what == 'a loss that equals the threshold':
            ds = {k: v for k, v in ds.items() if k[0] == 'Cost'}
            lf = {('Cost', 'LC', 'C', '1', '1', '0'): [100.0, 177.75, 300.0]}
        aggworld.judge(ctx, res, skipped, 'threshold', f'thresholds, {what}', ds, lf, ['Cost', 'Time'], values, ratios, report='report')


# -- tables and masks -------------------------------------------------------
def model(n):
    """The loss model whose sample the node is, possibly copied: ds_model, lf_model, both."""
    while True:
        if vq.mcall(n, 'copy', 'sort_index', 'fillna', 'astype') or vq.xcall(n, 'DataFrame', 'deepcopy', 'copy') and n.args[1]:
            n = n.args[1][0] if vq.xcall(n, 'DataFrame', 'deepcopy', 'copy') else vq.recv(n)
        elif n.op == 'attr' and n.args[1] in ('loc', 'iloc'):
            n = n.args[0]
        else:
            break
    if n.op == 'attr' and n.args[1] in ('sample', '_sample') and n.args[0].op == 'attr' and n.args[0].args[1] in ('ds_model', 'lf_model'):
        return n.args[0].args[1]
    return None


def tables(n):
    """Ways a table that is set in some branches only can come about, without None."""
    return [x for _c, x in leaves(n) if not is_const(x, None)]


def is_zero(n):
    return is_const(n) and not isinstance(cval(n), (bool, str)) and cval(n) == 0


def is_replacement(n):
    return is_const(n, 'replacement')


def level(n):
    """Name of the level of the columns the node holds."""
    if vq.mcall(n, 'get_level_values') and n.args[1]:
        return cval(n.args[1][0]) if is_const(n.args[1][0]) else None
    return None


class Mask:
    """Truth of a mask for a kind of row and a kind of column.

    row: the realization has replacement; col: the column is a replacement loss, or a dictionary of level values.
    """

    def __init__(self, row, col, present=True):
        self.row, self.col, self.present, self.part = row, col, present or row or col is True, None

    def ev(self, n):
        if n.op == 'slice' or vq.xcall(n, 'slice'):
            return True if all(is_const(x, None) for x in n.args) else None
        if is_const(n) and isinstance(cval(n), bool):
            return cval(n)
        if n.op == 'unop' and n.args[0] in ('~', 'not') or n.op in ('not', 'inv', '~'):
            r = self.ev(n.args[-1])
            return None if r is None else not r
        if vq.xcall(n, 'logical_not', 'invert') and n.args[1]:
            r = self.ev(n.args[1][0])
            return None if r is None else not r
        if n.op == 'cmp' and n.args[0] in ('==', '!='):
            lv = level(n.args[1])
            if lv is not None and is_const(n.args[2]):
                r = self.equal(lv, cval(n.args[2]))
                return None if r is None else r == (n.args[0] == '==')
            if is_const(n.args[2], False) or is_const(n.args[2], True):
                r = self.ev(n.args[1])
                return None if r is None else (r == cval(n.args[2])) == (n.args[0] == '==')
            r = self.positive(n.args[1]) if n.args[0] == '!=' and is_zero(n.args[2]) else None
            if r is not None:
                return r
        if vq.mcall(n, 'isin') and n.args[1] and n.args[1][0].op in ('list', 'tuple', 'set'):
            lv = level(vq.recv(n))
            rs = [self.equal(lv, cval(x)) for x in n.args[1][0].args if is_const(x)] if lv is not None else []
            return None if not rs or None in rs else any(rs)
        if n.op == 'cmp' and n.args[0] == '>' and is_zero(n.args[2]):
            return self.positive(n.args[1])
        if n.op == 'cmp' and n.args[0] == '<' and is_zero(n.args[1]):
            return self.positive(n.args[2])
        if vq.mcall(n, 'gt', 'ne') and n.args[1] and is_zero(n.args[1][0]):
            return self.positive(vq.recv(n))
        if vq.mcall(n, 'any') and is_const(arg(n, 'axis', 0), 1) or vq.xcall(n, 'any') and is_const(arg(n, 'axis', 1), 1):
            return self.ev(n.args[1][0] if vq.xcall(n, 'any') else vq.recv(n))
        if vq.mcall(n, 'all') and is_const(arg(n, 'axis', 0), 1) or vq.xcall(n, 'all') and is_const(arg(n, 'axis', 1), 1):
            r = self.ev(n.args[1][0] if vq.xcall(n, 'all') else vq.recv(n))
            if r is not None:
                self.part = 'realizations where some replacement losses are zero are left out'
            return r
        if vq.xcall(n, 'full') and len(n.args[1]) + len(n.args[2]) >= 2:
            v = arg(n, 'fill_value', 1)
            return cval(v) if v is not None and is_const(v) and isinstance(cval(v), bool) else None
        if vq.xcall(n, 'ones', 'zeros') and arg(n, 'dtype') is not None:
            return vq.xcall(n, 'ones')
        if n.op in ('list', 'tuple') and not n.args:
            return False
        if vq.xcall(n, 'argwhere', 'where', 'flatnonzero', 'nonzero', 'asarray', 'array', 'list') and len(n.args[1]) == 1:
            return self.ev(n.args[1][0])
        if n.op == 'index' and is_const(n.args[1], 0) and vq.xcall(n.args[0], 'where', 'nonzero'):
            return self.ev(n.args[0])
        if n.op == 'index' and n.args[0].op == 'attr' and n.args[0].args[1] == 'index':
            return self.ev(n.args[1])
        if n.op == 'attr' and n.args[1] in ('values', 'index'):
            return self.ev(n.args[0])
        if vq.mcall(n, 'to_numpy', 'tolist', 'reshape', 'ravel', 'flatten', 'squeeze', 'astype', 'copy', 'to_list', 'nonzero'):
            return self.ev(vq.recv(n))
        if n.op == 'ite':
            c = self.cond(n.args[0])
            if c is not None:
                return self.ev(n.args[1 if c else 2])
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            return a if a == b else None
        return None

    def equal(self, lv, v):
        if isinstance(self.col, dict):
            return self.col.get(lv) == v
        if lv == 'loss' and v == 'replacement':
            return self.col
        if lv in LEVELS and v == 'replacement':
            return False
        return None

    def positive(self, n):
        """Some selected value is above zero."""
        if vq.mcall(n, 'to_numpy', 'copy', 'fillna', 'astype') or n.op == 'attr' and n.args[1] == 'values':
            return self.positive(n.args[0] if n.op == 'attr' else vq.recv(n))
        if (vq.mcall(n, 'sum', 'max') and is_const(arg(n, 'axis', 0), 1)):
            return self.positive(vq.recv(n))
        if vq.mcall(n, 'prod', 'min') and is_const(arg(n, 'axis', 0), 1) or vq.xcall(n, 'prod', 'min') and is_const(arg(n, 'axis', 1), 1):
            r = self.positive(n.args[1][0] if vq.xcall(n, 'prod', 'min') else vq.recv(n))
            if r is not None:
                self.part = 'realizations where some replacement losses are zero are left out'
            return r
        if vq.xcall(n, 'sum', 'max') and n.args[1] and is_const(arg(n, 'axis', 1), 1):
            return self.positive(n.args[1][0])
        if replacement_columns(n):
            return self.row
        if n.op == 'index' and replacement_columns(n.args[0].args[0] if n.args[0].op == 'attr' else n.args[0]):
            k = n.args[1].args[-1] if n.args[1].op == 'tuple' and n.args[1].args else n.args[1]
            if is_const(k) or k.op == 'slice' and any(not is_const(x, None) for x in k.args):
                self.part = 'only some of the replacement losses are considered'
                return self.row
        return None

    def cond(self, n):
        """Conditions on the presence of replacement."""
        if n.op in ('not',) or n.op == 'unop' and n.args[0] == 'not':
            r = self.cond(n.args[-1])
            return None if r is None else not r
        if n.op == 'cmp' and n.args[0] in ('in', 'not in') and is_replacement(n.args[1]):
            return (n.args[0] == 'in') == self.present
        if n.op == 'attr' and n.args[1] == 'empty' and replacement_columns(n.args[0]):
            return not self.present
        if (vq.mcall(n, 'any') or vq.xcall(n, 'any', 'bool')) and any(is_replacement(x) for x in walk(n)):
            return True if self.row else None
        return None


def replacement_columns(n):
    """The value is the replacement losses of a table."""
    while vq.mcall(n, 'to_numpy', 'copy'):
        n = vq.recv(n)
    if vq.mcall(n, 'xs', 'get') and n.args[1] and is_replacement(n.args[1][0]):
        return True
    if vq.mcall(n, 'filter') or n.op != 'index':
        return False
    b, k = n.args
    if is_replacement(k):
        return True
    if b.op == 'attr' and b.args[1] in ('loc', 'iloc') and k.op == 'tuple':
        for x in k.args:
            if is_replacement(x) or x.op == 'tuple' and any(is_replacement(y) for y in x.args):
                return True
            m = [Mask(False, c).ev(x) for c in (True, False)]
            if m == [True, False]:
                return True
    return False


def settings(n):
    return any(x.op in ('param', 'arg') and x.args and x.args[-1] in ('replacement_configuration', 'loss_combination', 'future') for x in walk(n))


# -- exclusion --------------------------------------------------------------
def exclusive(ip, res, skipped):
    excluded = {}
    for e in ip.events:
        if e.kind != 'store_index' or e.target is None or not hasattr(e.value, 'op') or e.aug:
            continue
        if e.target.op != 'attr' or e.target.args[1] not in ('loc', 'iloc'):
            continue
        for t in tables(e.target.args[0]):
            m = model(t)
            if m is None:
                continue
            k = e.node
            rows, cols = k.args if k.op == 'tuple' and len(k.args) == 2 else (k, None)
            ms, part = {}, None
            for r in (True, False):
                for c in (True, False):
                    for present in (True, False):
                        x = Mask(r, c, present)
                        if x.present != present:
                            continue
                        a, b = x.ev(rows), True if cols is None else x.ev(cols)
                        part = part or x.part
                        y = False if a is False or b is False else None if None in (a, b) else True
                        ms[r, c] = y if ms.get((r, c), y) == y else None if None in (y, ms[r, c]) else True
            if None in ms.values():
                skipped.append(f'rows and columns of {m}: {show(k, 3)}')
                excluded.setdefault(m, set()).add(t)
                continue
            res.check('exclusive', is_zero(e.value), f'{m}: value', e.where(), f'other losses are set to {show(e.value, 2)}')
            if part:
                res.bad('exclusive', f'{m}: realizations', e.where(), part)
            res.check('exclusive', ms[True, False], f'{m}: losses with replacement', e.where(), 'other losses remain where there is replacement')
            res.check('exclusive', m == 'lf_model' or not ms[True, True], f'{m}: replacement', e.where(), 'the replacement loss is removed')
            res.check('exclusive', not ms[False, False], f'{m}: losses without replacement', e.where(), 'losses are removed where there is no replacement')
            for g, _p, kk in e.guards:
                if kk in ('br', 'noret', 'noraise') and settings(g):
                    res.bad('exclusive', f'{m}: always', e.where(), f'other losses remain depending on the settings: {show(g, 3)}')
            excluded.setdefault(m, set()).add(t)
    # the losses aggregated
    for e in ip.events:
        if e.kind != 'return' or e.node is None and not hasattr(e.value, 'op'):
            continue
        v = e.value if hasattr(e.value, 'op') else e.node
        calls = [x for x in walk(v) if vq.bname(x) == '_aggregate_sample']
        src = calls or [v]
        raw, other = set(), False
        todo, seen = list(src), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if any(x is t for ts in excluded.values() for t in ts):
                continue
            if vq.mcall(x, 'where', 'mask') or x.op == 'binop' and x.args[0] == '*':
                if any(is_replacement(y) for y in walk(x)):
                    other = True
                    continue
            if x.op == 'attr' and model(x):
                raw.add(model(x))
                continue
            if x.op == 'ite':
                todo += x.args[1:3]
            elif x.op == 'mu':
                todo.append(x.args[1])
            elif x.op == 'call' and vq.xcall(x, 'DataFrame') and not x.args[1]:
                continue
            elif x.op == 'comp':
                todo += [x.args[1]]
            else:
                todo += [y for y in vq.children(x)]
        for m in sorted(raw):
            res.bad('used', m, e.where(), f'the losses of the {m} are aggregated without excluding those of realizations with replacement')
        if not raw and any(t in seen for ts in excluded.values() for t in ts):
            res.check('used', True, 'sample', e.where(), '')
        if other:
            skipped.append('exclusion')


# -- thresholds -------------------------------------------------------------
def config(n, i):
    """The node is part i of the replacement configuration."""
    return n.op == 'index' and is_const(n.args[1], i) and n.args[0].op in ('param', 'arg') or (
        n.op == 'elem' and False)


def variables(n):
    """Keys of the replacement variables whose sample the value has."""
    return {x.args[1] for x in vwalk(n) if x.op == 'index' and x.args[0].op == 'attr' and x.args[0].args[1] in ('_variables', 'RV') and config(x.args[0].args[0], 0)}


def ratio_keys(n):
    out = set()
    for x in vwalk(n):
        if x.op == 'index' and config(x.args[0], 1):
            out.add(x.args[1])
        if vq.mcall(x, 'get') and config(vq.recv(x), 1) and x.args[1]:
            out.add(x.args[1][0])
    return out


def has_ratio(n):
    return any(config(x, 1) for x in vwalk(n))


def dv_keys(n):
    """Decision variables selected from the table under a value."""
    out = set()
    while True:
        if n.op == 'index':
            b, k = n.args
            if b.op == 'attr' and b.args[1] in ('loc', 'iloc'):
                if k.op == 'tuple' and k.args and b.args[1] == 'loc':
                    c = k.args[-1]
                    c = c.args[0] if c.op == 'tuple' and c.args else c
                    if c.op in ('elem', 'const', 'index'):
                        out.add(c)
                n = b.args[0]
            else:
                out.add(k)
                n = b
        elif vq.mcall(n, 'xs') and n.args[1]:
            out.add(n.args[1][0])
            n = vq.recv(n)
        elif n.op == 'call' and vq.recv(n) is not None and vq.bname(n) in ('sum', 'copy', 'to_numpy', 'drop', 'sort_index'):
            n = vq.recv(n)
        else:
            return out, n


def iterates_variables(n):
    """The value is each replacement variable in turn."""
    if n.op != 'elem':
        return False
    x = n.args[0]
    while vq.mcall(x, 'keys', 'copy') or vq.xcall(x, 'list', 'tuple', 'sorted') and x.args[1]:
        x = vq.recv(x) if vq.mcall(x, 'keys', 'copy') else x.args[1][0]
    return x.op == 'attr' and x.args[1] in ('_variables', 'RV') and config(x.args[0], 0)


class Threshold(AVN):
    def ev(self, n):
        ks = ratio_keys(n) if n.op == 'index' or vq.mcall(n, 'get') else set()
        if ks:
            return H('ratio')
        if n.op == 'index' and not ratio_keys(n) and variables(n):
            return H('value')
        if variables(n) and not ratio_keys(n) and n.op in ('ite', 'call', 'attr'):
            return H('value')
        return super().ev(n)


def thresholds(ip, res, skipped):
    frames, anys = set(), set()
    found = False
    for e in ip.events:
        if e.kind != 'store_index' or e.node is None or not hasattr(e.value, 'op'):
            continue
        cmps = [x for x in vwalk(e.value) if x.op == 'cmp' and x.args[0] in ('>', '<', '>=', '<=') and has_ratio(x)]
        cmps += [x for x in vwalk(e.value) if vq.mcall(x, 'gt', 'lt', 'ge', 'le') and has_ratio(x)]
        if len(cmps) != 1:
            continue
        found = True
        key = e.node.args[-1] if e.node.op == 'tuple' else e.node
        frames.add(e.target.args[0] if e.target.op == 'attr' else e.target)
        compare(ip, res, e, key, cmps[0], skipped)
    if not found:
        skipped.append('threshold')
    # columns assigned and rows
    assigned = {}
    for e in ip.events:
        if e.kind == 'store_index' and e.node is not None and e.node.op == 'tuple' and len(e.node.args) == 2 and hasattr(e.value, 'op') and variables(e.value):
            assign(ip, res, e, frames, assigned, anys, skipped)
    zeros = 0
    for e in ip.events:
        if e.kind == 'store_index' and e.node is not None and e.node.op == 'tuple' and len(e.node.args) == 2 and is_const(e.value) and any(
                strip(e.node.args[0]) is strip(a) for a in anys):
            zeros += 1
            zero(res, e, assigned, skipped)
    if assigned and anys and not zeros:
        e = next(iter(assigned))
        if any(x.kind == 'store_index' and x.node is not None and is_zero(x.value) and any(y in frames for y in walk(x.node)) for x in ip.events) or any(
                x.kind == 'call' and x.node is not None and vq.mcall(x.node, 'where', 'mask', 'mul', 'multiply') and any(y in frames for y in walk(x.node)) for x in ip.events) or any(
                x.kind == 'return' and any(y.op == 'binop' and any(z in frames for z in walk(y)) for y in walk(x.value if hasattr(x.value, 'op') else x.node)) for x in ip.events
                if hasattr(x.value, 'op') or x.node is not None):
            skipped.append('other losses where replacement is triggered')
        else:
            res.bad('zero', 'other losses', e.where(), 'other losses remain where replacement is triggered')
    if found and not assigned:
        if any(e.kind == 'store_index' and e.target is not None and hasattr(e.value, 'op') and variables(e.value) for e in ip.events):
            skipped.append('replacement consequences')
        else:
            skipped.append('replacement consequences')
    report(ip, res, frames, skipped)


def compare(ip, res, e, key, c, skipped):
    where = e.where()
    if c.op == 'cmp':
        o, a, b = c.args[0], c.args[1], c.args[2]
    else:
        o, a, b = {'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<='}[vq.bname(c)], vq.recv(c), c.args[1][0]
    if has_ratio(a):
        a, b, o = b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}[o]
    res.check('threshold', o == '>', 'comparison', where, f'replacement is triggered where the losses are {o} the threshold')
    res.check('threshold', iterates_variables(key), 'every decision variable', where, 'not every decision variable is compared') if key.op == 'elem' else skipped.append(
        'decision variables of the thresholds')
    ks, base = dv_keys(a)
    for what, got in (('losses', {k for k in ks if k.op == 'elem' or is_const(k) and not is_replacement(k)}), ('consequence', variables(b)), ('ratio', ratio_keys(b))):
        if got:
            res.check('threshold', got == {key}, f'decision variable: {what}', where, f'the {what} is of another decision variable ({", ".join(show(x, 2) for x in got)})')
        elif what == 'ratio' and any((vq.xcall(x, 'max', 'min', 'sum') or vq.mcall(x, 'max', 'min', 'mean')) and has_ratio(x) for x in vwalk(b)):
            res.bad('threshold', 'decision variable: ratio', where, 'the ratio is not that of the decision variable')
        else:
            skipped.append(f'threshold: {what}')
    av = Threshold(ip, {})
    try:
        got = av.flat(av.ev(b))
        res.check('threshold', got == H('value') * H('ratio') % P, 'value', where, 'the threshold is not the replacement consequence times the ratio')
    except Undecided as exc:
        skipped.append(f'threshold: {exc}')
    # the sum of the other losses
    if not (vq.mcall(a, 'sum') and is_const(arg(a, 'axis', 0)) and cval(arg(a, 'axis', 0)) in (1, 'columns')):
        if vq.mcall(a, 'max', 'mean', 'min', 'median', 'prod'):
            res.bad('threshold', 'sum', where, f'the {vq.bname(a)} of the losses is compared with the threshold')
        else:
            skipped.append('sum of losses')
        return
    x = vq.recv(a)
    rowsel = [None]
    ms = {}
    for r in (True, False):
        for col in (True, False):
            for present in (True, False):
                m = Mask(r, col, present)
                if m.present == present:
                    y = selected(x, m, rowsel)
                    ms[r, col] = y if ms.get((r, col), y) == y else None if None in (y, ms[r, col]) else False
    if None in ms.values():
        skipped.append(f'losses compared: {show(x, 3)}')
        return
    res.check('threshold', ms[False, False], 'all losses', where, 'some losses are left out of the sum compared with the threshold')
    res.check('threshold', not ms[True, True], 'no replacement', where, 'the replacement loss itself is compared with the threshold')
    # rows of the consequence
    idx = {y.args[1] for y in vwalk(b) if y.op == 'index' and variables(y.args[0]) and not ratio_keys(y) and y.args[1].op not in ('elem', 'const')}
    if rowsel[0] is not None and len(idx) <= 1:
        res.check('threshold', rowsel[0] in idx, 'realizations', where, 'the losses are compared with the consequence of other realizations')


def selected(x, m, rowsel):
    """Truth of a cell being in the selection."""
    out = True
    while x.op == 'index':
        b, k = x.args
        if b.op == 'attr' and b.args[1] in ('loc', 'iloc') and k.op == 'tuple' and len(k.args) == 2:
            r, c = k.args
            a = m.ev(r)
            if r.op != 'slice':
                rowsel[0] = r
            d = True if c.op in ('elem', 'const') else m.ev(c)
            if a is None or d is None:
                return None
            out = out and a and d
            x = b.args[0]
        elif b.op == 'attr' and b.args[1] in ('loc', 'iloc'):
            a = m.ev(k)
            if a is None:
                return None
            rowsel[0] = k
            out = out and a
            x = b.args[0]
        elif k.op == 'elem':
            x = b
        else:
            a = m.ev(k)
            if a is None:
                return None
            rowsel[0] = k
            out = out and a
            x = b
    if vq.mcall(x, 'drop'):
        return None
    return out


def triggered(n, frames):
    """The rows are those where some decision variable triggers replacement."""
    while vq.mcall(n, 'to_numpy', 'copy', 'astype') or n.op == 'attr' and n.args[1] == 'values':
        n = n.args[0] if n.op == 'attr' else vq.recv(n)
    if n.op == 'index' and (n.args[0] in frames or n.args[0].op == 'attr' and n.args[0].args[0] in frames):
        return False
    if vq.mcall(n, 'any', 'all', 'max', 'min') and any(x in frames for x in walk(vq.recv(n))):
        return vq.bname(n) in ('any', 'max') and is_const(arg(n, 'axis', 0)) and cval(arg(n, 'axis', 0)) in (1, 'columns') and vq.recv(n) in frames
    return None


def assign(ip, res, e, frames, assigned, anys, skipped):
    where = e.where()
    rows, col = e.node.args
    t = triggered(rows, frames)
    if t is None:
        skipped.append(f'rows assigned: {show(rows, 3)}')
        return
    res.check('assign', t, 'realizations', where, 'the replacement consequence is assigned to other realizations')
    anys.add(rows)
    ks = variables(e.value)
    dv = col.args[0] if col.op == 'tuple' else None
    if dv is None:
        skipped.append('column assigned')
        return
    assigned[e] = col
    res.check('assign', ks == {dv}, 'decision variable', where, 'the replacement consequence of another decision variable is assigned')
    if dv.op == 'elem':
        res.check('assign', iterates_variables(dv), 'every decision variable', where, 'the replacement consequence of some decision variables is not assigned')
    res.check('assign', len(col.args) == 6 and is_replacement(col.args[1]), 'column', where, 'the replacement consequence is not stored as replacement')
    v = e.value
    if v.op == 'index' and variables(v.args[0]):
        res.check('assign', v.args[1] is rows or strip(v.args[1]) is strip(rows), 'realizations of the consequence', where, 'the consequence of other realizations is assigned')
    elif v.op == 'binop':
        res.bad('assign', 'value', where, f'the replacement consequence is changed: {show(v, 2)}')
    for g, p, k in e.guards:
        if k in ('br', 'noret') and any(x in frames for x in walk(g)) and dv in set(walk(g)):
            res.bad('assign', 'every decision variable', where, 'only decision variables that triggered replacement have their replacement consequence')
        if k in ('br', 'noret') and ratio_keys(g) | {x for x in walk(g) if config(x, 1)} and dv in set(walk(g)):
            res.bad('assign', 'every decision variable', where, 'only decision variables that have a threshold have their replacement consequence')
    for lp in e.loops:
        res.check('assign', not lp.breaks, 'loop', where, 'some decision variables are left out')


def strip(n):
    while vq.mcall(n, 'to_numpy', 'copy') or n.op == 'attr' and n.args[1] == 'values':
        n = n.args[0] if n.op == 'attr' else vq.recv(n)
    return n


def zero(res, e, assigned, skipped):
    where = e.where()
    cols = e.node.args[1]
    res.check('zero', is_zero(e.value), 'value', where, f'other losses are set to {show(e.value, 2)}')
    for col in assigned.values():
        own = {lv: cval(x) if is_const(x) else ('variable', i) for i, (lv, x) in enumerate(zip(LEVELS, col.args))}
        a, b = Mask(True, own).ev(cols), Mask(True, {'loss': 'other', 'dmg': 'other', 'dv': 'Cost', 'loc': '1', 'dir': '1', 'uid': '0'}).ev(cols)
        if a is None or b is None:
            skipped.append(f'columns set to zero: {show(cols, 3)}')
            continue
        res.check('zero', b, 'other losses', where, 'other losses remain where replacement is triggered')
        res.check('zero', not a, 'replacement', where, 'the replacement consequence is removed')
        # no loss of a component at the same place is kept
        for lv in ('loc', 'dir', 'uid', 'dv'):
            c = Mask(True, {'loss': 'other', 'dmg': 'other', lv: own[lv]}).ev(cols)
            if c is False:
                res.bad('zero', 'other losses', where, f'other losses with the same {lv} remain where replacement is triggered')


def report(ip, res, frames, skipped):
    for e in ip.events:
        if e.kind != 'return':
            continue
        v = e.value if hasattr(e.value, 'op') else e.node
        if v is None or v.op != 'tuple' or len(v.args) != 2:
            continue
        for conds, x in leaves(v.args[1]):
            if any(settings(c) and c.op == 'cmp' and c.args[0] in ('is', 'is not') and p == (c.args[0] == 'is') for c, p in conds):
                continue
            if not frames or not any(y is f for y in walk(x) for f in frames):
                if any(k == 'br' and g.op == 'and' for g, _p, k in e.guards):
                    continue  # no losses
                if frames:
                    res.bad('report', 'thresholds', e.where(), 'the decision variables that exceed their thresholds are not returned')
                else:
                    skipped.append('report')
            else:
                res.check('report', x in frames, 'thresholds', e.where(), 'the decision variables that exceed their thresholds are changed')
