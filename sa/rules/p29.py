"""P29: combined losses replace the losses of the combined components."""

from __future__ import annotations

import itertools

from ..flow import cval, is_const, show
from .. import vq
from ..vq import arg, leaves, walk

EXPLANATION = (
    'The aggregation of losses is followed with its helpers inlined, down to the table of combined losses. The decision variable, '
    'component order and location in the column stored, in the columns read, in the combination array and its domains, and in the '
    'columns removed are compared. The domains are evaluated as selections of array axes for arrays of two to four components.'
)
ENTRY = 'pelicun.model.loss_model.LossModel.aggregate_losses'
OPAQUE = (
    'Logger', '_validate_input_replacement_thresholds', '_validate_input_loss_combination', '_apply_replacement_thresholds',
    '_aggregate_sample', '_make_replacement_exclusive',
)


def keep_keys(ip, b, k, _st, _pos):
    return ip.N('index', b, k) if b.op == 'dcomp' else None


def run(ctx, res):
    res.rule('case', 'the losses of one decision variable and location are combined, under that decision variable and location', 0)
    res.rule('order', 'the losses of the components are given in the order of the axes of the combination array', 0)
    res.rule('array', 'the combination array and the domain of each of its axes belong to the components combined', 0)
    res.rule('everywhere', 'the losses are combined wherever the location has losses of all the components', 0)
    res.rule('replace', 'the combined losses replace those of the components and the other losses are kept', 0)
    skipped = []
    try:
        ip = ctx.interp(ENTRY, opaque=OPAQUE, key='p29', hooks={'index': keep_keys})
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'aggregation: {exc}')
    else:
        Rule(ip, res, skipped).run()
    res.analysed['not_judged'] = skipped


def peel(n):
    while vq.mcall(n, 'squeeze', 'reshape', 'ravel', 'flatten', 'to_numpy', 'copy', 'tolist', 'astype') or vq.xcall(
            n, 'asarray', 'array', 'list', 'tuple', 'squeeze', 'ravel') and len(n.args[1]) == 1:
        n = vq.recv(n) if vq.mcall(n, 'squeeze', 'reshape', 'ravel', 'flatten', 'to_numpy', 'copy', 'tolist', 'astype') else n.args[1][0]
    return n


class Rule:
    def __init__(self, ip, res, skipped):
        self.ip, self.res, self.skipped, self.memo = ip, res, skipped, {}

    # -- identity of keys ------------------------------------------------
    def canon(self, n):
        """Identity of a key, looking through tables filled with the same keys."""
        if n not in self.memo:
            self.memo[n] = n
            self.memo[n] = self._canon(n)
        return self.memo[n]

    def _canon(self, n):
        if n.op == 'elem':
            b = n.args[0]
            if vq.mcall(b, 'keys') or vq.xcall(b, 'list', 'iter', 'tuple') and len(b.args[1]) == 1:
                b = vq.recv(b) if vq.mcall(b, 'keys') else b.args[1][0]
                if vq.mcall(b, 'keys'):
                    b = vq.recv(b)
            if b.op == 'dcomp':
                return self.canon(b.args[0])
            if b.op == 'dict':
                ks = {self.canon(k) for k, _v, _g in self.ip.stores.get(b, ())} | {self.canon(k) for k, _v in b.args}
                if len(ks) == 1:
                    return ks.pop()
            return ('elem', self.canon(b))
        if n.op == 'index':
            return ('index', self.canon(n.args[0]), self.canon(n.args[1]))
        if n.op == 'ite':
            xs = {self.canon(x) for _c, x in leaves(n)}
            if len(xs) == 1:
                return xs.pop()
        return n

    def is_dv(self, n):
        c = self.canon(n)
        return c[0] == 'elem' and self.is_param(c[1]) if isinstance(c, tuple) else False

    @staticmethod
    def is_param(c):
        return getattr(c, 'op', None) in ('param', 'arg') and c.args[-1] == 'loss_combination'

    def is_array(self, n):
        """(decision variable, components) of a combination array."""
        c = self.canon(peel(n))
        if isinstance(c, tuple) and c[0] == 'index' and isinstance(c[1], tuple) and c[1][0] == 'index' and self.is_param(c[1][1]):
            return c[1][2], c[2]
        return None

    def is_components(self, n):
        """Decision variable of a tuple of components to combine."""
        c = self.canon(n)
        if isinstance(c, tuple) and c[0] == 'elem' and isinstance(c[1], tuple) and c[1][0] == 'index' and self.is_param(c[1][1]):
            return c[1][2]
        return None

    def column(self, n):
        """Entries of a column name, a shared location expanded."""
        if n.op == 'binop' and n.args[0] == '+':
            a, b = self.column(n.args[1]), self.column(n.args[2])
            if a is not None and b is None:
                b = [('part', self.canon(n.args[2]), i) for i in range(6 - len(a))]
            return a + b if a is not None and b is not None else None
        if n.op not in ('tuple', 'list'):
            return None
        out = []
        for x in n.args:
            if x.op == 'star':
                out += [('part', self.canon(x.args[0]), i) for i in range(6 - (len(n.args) - 1))]
            elif x.op == 'index' and is_const(x.args[1]) and isinstance(cval(x.args[1]), int):
                out.append(('part', self.canon(x.args[0]), cval(x.args[1])))
            else:
                out.append(self.canon(x))
        return out

    def order(self, n):
        """What the values come from, one after the other, and their abstract element."""
        if n.op == 'comp':
            it = n.args[2]
            if len(it) != 1 or n.args[3]:
                return None, n.args[1]
            src = it[0]
            if src.op == 'comp' or src.op == 'list' and src in self.ip.appends:
                src = self.order(src)[0]
            return src, n.args[1]
        if n.op == 'list' and len(self.ip.appends.get(n, ())) == 1 and not n.args:
            kind, v, guards = self.ip.appends[n][0]
            its = [g.args[0] for g, _p, k in guards if k == 'loop' and g.op == 'iter']
            if kind == 'append' and its:
                src = its[-1]
                if src.op == 'comp' or src.op == 'list' and src in self.ip.appends:
                    src = self.order(src)[0]
                return src, v
        return None, None

    # -- obligations -------------------------------------------------------
    def run(self):
        ip, res = self.ip, self.res
        self.removed = False
        for e in ip.events:
            if e.kind != 'store_index' or not hasattr(e.value, 'op') or e.target is None:
                continue
            calls = self.evaluations(e.value)
            if calls and e.node.op in ('tuple', 'binop'):
                self.combined(e, calls)
        for d, entries in list(ip.stores.items()):
            for k, v, _g in entries:
                if d.op == 'dict' and any(vq.xcall(x, 'RegularGridInterpolator') for _c, x in leaves(v)):
                    self.cache(d, k, v)
        for x in {x for e in ip.events for x in (e.node,) if x is not None and vq.xcall(x, 'RegularGridInterpolator', 'interpn')}:
            self.array(x)

    def evaluations(self, v):
        """(call, values) of the interpolations a combined loss comes from."""
        out = []
        for _c, x in leaves(v):
            x = peel(x)
            for _c2, y in leaves(x):
                y = peel(y)
                if y.op != 'call':
                    continue
                if vq.xcall(y, 'interpn'):
                    out.append((y, arg(y, 'xi', 2)))
                elif any(vq.xcall(z, 'RegularGridInterpolator') for z in self.interpolators(y.args[0])) and y.args[1]:
                    out.append((y, y.args[1][0]))
        return out

    def interpolators(self, n):
        out = []
        for _c, x in leaves(n):
            if vq.xcall(x, 'RegularGridInterpolator'):
                out.append(x)
            b = vq.recv(x) if vq.mcall(x, 'get', 'setdefault') else x.args[0] if x.op == 'index' else None
            if b is not None:
                out += [y for _k, v, _g in self.ip.stores.get(b, ()) for _c2, y in leaves(v) if vq.xcall(y, 'RegularGridInterpolator')]
        return out

    def combined(self, e, calls):
        res, where = self.res, e.where()
        key = self.column(e.node)
        if key is None or len(key) != 6:
            self.skipped.append(f'column {show(e.node, 3)}')
            return
        dv = key[0]
        own = set()
        for call, values in calls:
            # the columns read
            items = self.stacked(values)
            if items is None:
                self.skipped.append(f'values {show(values, 3)}')
                continue
            src, elt = self.order(items)
            if elt is None:
                self.skipped.append(f'values {show(items, 3)}')
                continue
            if elt.op != 'index':
                self.skipped.append(f'values {show(elt, 3)}')
                continue
            col = self.column(elt.args[1])
            if col is None or len(col) != 6:
                self.skipped.append(f'column read {show(elt.args[1], 3)}')
                continue
            res.check('case', col[0] == dv, 'decision variable', where, 'the combined losses are stored under another decision variable')
            res.check('case', col[3:] == key[3:], 'location', where, 'the combined losses are stored at another location, direction or unit')
            # the order of the components
            ordered = None
            if src is not None:
                dvs = self.is_components(src)
                if dvs is not None:
                    ordered = True
                    res.check('case', dvs == dv, 'components', where, 'the components are those of another decision variable')
                elif vq.xcall(src, 'sorted', 'set', 'frozenset', 'reversed', 'unique') and any(self.is_components(x) is not None for x in walk(src)):
                    ordered = False
                elif src.op == 'index' and self.is_components(src.args[0]) is not None:
                    ordered = False
                elif src.op == 'elem' or src.op in ('set',):
                    # a group of components found together
                    if any(vq.xcall(x, 'frozenset', 'set') for x in walk(src)) or self.grouped(src) is not None:
                        ordered = False
            if ordered is None:
                self.skipped.append(f'components {show(src, 3) if src is not None else ""}')
            else:
                res.check('order', ordered, 'components', where, f'the losses are not in the order of the components of the array: {show(src, 2)}')
                if ordered:
                    x = col[2]
                    res.check('order', x == ('elem', self.canon(src)), 'component', where, 'the losses of another component are combined')
                    own.add(self.canon(src))
            for z in self.interpolators(call.args[0]) or ([call] if vq.xcall(call, 'interpn') else []):
                refs = arg(z, 'values', 1)
                a = self.is_array(refs) if refs is not None else None
                if a is not None and src is not None:
                    res.check('case', a[0] == dv, 'array', where, 'the combination array of another decision variable is used')
                    if ordered:
                        res.check('array', a[1] == self.canon(src), 'components', where, 'the combination array of other components is used')
            self.columns = elt.args[1]
            self.remove(e, items, elt.args[1])
        self.where(e, key, own)

    def stacked(self, n):
        """The values side by side in an array."""
        n0 = n
        n = peel(n) if not vq.xcall(n, 'array') else n
        if n.op == 'attr' and n.args[1] == 'T' or vq.mcall(n, 'transpose') or vq.xcall(n, 'transpose'):
            b = n.args[0] if n.op == 'attr' else vq.recv(n) if vq.mcall(n, 'transpose') else n.args[1][0]
            if vq.xcall(b, 'vstack', 'array', 'stack', 'row_stack', 'asarray') and b.args[1]:
                return b.args[1][0]
            return None
        if vq.xcall(n, 'column_stack') and n.args[1]:
            return n.args[1][0]
        if vq.xcall(n, 'stack', 'concat') and n.args[1] and is_const(arg(n, 'axis')) and cval(arg(n, 'axis')) in (1, -1):
            return n.args[1][0]
        return None if n0 is n or True else n0

    # -- where the losses are combined ---------------------------------------
    def where(self, e, key, own):
        res, where = self.res, e.where()
        conds = list(e.guards)
        loops = list(e.loops)
        # lists the locations are taken from
        locs = {k[1] for k in key[3:] if isinstance(k, tuple) and k[0] == 'part'}
        nodes = [n for n, c in self.memo.items() if c in locs] + [n for n in walk(e.node)]
        groups = set()
        for n in nodes:
            for x in walk(n):
                groups.add(x)
        for g, _p, k in e.guards:
            if k == 'loop' and g.op == 'iter':
                groups |= set(walk(g))
        for d, entries in self.ip.appends.items():
            for _kind, v, gs in entries:
                if v in groups and d.op == 'list':
                    conds += list(gs)
                    for e2 in self.ip.events:
                        if e2.kind == 'call' and e2.node is not None and vq.mcall(e2.node, 'append', 'add', 'extend') and vq.recv(e2.node) is d:
                            loops += list(e2.loops)
        for n in groups:
            if n.op == 'comp':
                conds += [(c, True, 'br') for c in n.args[3]]
        found = False
        seen = set()
        for g, p, k in conds:
            if k not in ('br', 'noret') or (g, p) in seen:
                continue
            seen.add((g, p))
            r = self.subset(g, p)
            if r is None:
                continue
            found = True
            res.check('everywhere', r is True, 'components', where, r if r is not True else '')
        for lp in loops:
            if lp.breaks:
                res.bad('everywhere', 'locations', where, 'only the first locations where the components are found are combined')
        if any(not lp.breaks for lp in loops):
            res.check('everywhere', True, 'locations', where, '')
        if not found:
            self.skipped.append('condition for combining')
        for part in locs:
            r = self.grouping(part)
            if r is None:
                self.skipped.append('locations')
            else:
                res.check('everywhere', r is True, 'grouping', where, r if r is not True else '')

    def comps(self, n):
        while vq.xcall(n, 'frozenset', 'set', 'list', 'tuple', 'sorted', 'len') and len(n.args[1]) == 1:
            n = n.args[1][0]
        return self.is_components(n) is not None

    def subset(self, g, p):
        """Whether the condition is that all components are found at a location."""
        op = None
        while g.op == 'not' or g.op == 'unop' and g.args[0] == 'not':
            g, p = g.args[-1], not p
        if g.op == 'cmp' and g.args[0] in ('<=', '>=', '<', '>', '==', '!='):
            op, a, b = g.args
            ca, cb = self.comps(a), self.comps(b)
            if ca == cb or vq.xcall(a, 'len') or vq.xcall(b, 'len'):
                return None
            if cb:
                op = {'<=': '>=', '>=': '<=', '<': '>', '>': '<'}.get(op, op)
        elif vq.mcall(g, 'issubset', 'issuperset', 'isdisjoint', 'intersection') and g.args[1]:
            ca, cb = self.comps(vq.recv(g)), self.comps(g.args[1][0])
            if ca == cb:
                return None
            op = {'issubset': '<=', 'issuperset': '>='}.get(vq.bname(g), 'any')
            if cb:
                op = {'<=': '>=', '>=': '<='}.get(op, op)
            if vq.bname(g) == 'isdisjoint':
                p = not p
        elif vq.xcall(g, 'all', 'any') and g.args[1] and g.args[1][0].op == 'comp':
            c = g.args[1][0]
            if len(c.args[2]) != 1 or c.args[1].op != 'cmp' or c.args[1].args[0] != 'in':
                return None
            if self.comps(c.args[2][0]):
                op = '<=' if vq.xcall(g, 'all') else 'any'
            else:
                op = '>=' if vq.xcall(g, 'all') else 'any'
        else:
            return None
        if not p:
            return 'losses are combined where the components are not all found'
        return {
            '<=': True, '<': 'losses are not combined where only the components are found',
            '==': 'losses are combined only where no other components are found',
            '>=': 'losses are combined where some of the components are missing', '>': 'losses are combined where some of the components are missing',
            'any': 'losses are combined where some of the components are missing',
        }.get(op)

    # -- grouping of locations ---------------------------------------------
    def entries(self, base, depth):
        """(keys, value, kind) stored in a nested table at a depth."""
        out = []
        for e in self.ip.events:
            if e.kind != 'call' or e.node is None or not vq.mcall(e.node, 'append', 'add') or not e.node.args[1]:
                continue
            keys, b = [], vq.recv(e.node)
            while b.op == 'index':
                keys.insert(0, b.args[1])
                b = b.args[0]
            if keys and self.canon(b) == base and len(keys) == depth:
                out.append((keys, e.node.args[1][0], 'append'))
        for n, xs in self.ip.stores.items():
            for k, v, _g in xs:
                keys, b = [k], n
                while b.op == 'index':
                    keys.insert(0, b.args[1])
                    b = b.args[0]
                if self.canon(b) == base and len(keys) == depth:
                    out.append((keys, v, 'store'))
        return out

    def field(self, c):
        """Position in the column name of the losses."""
        if isinstance(c, tuple) and c[0] == 'index' and is_const(c[2]) and isinstance(cval(c[2]), int):
            b = c[1]
            if getattr(b, 'op', None) == 'elem' or isinstance(b, tuple) and b[0] == 'elem':
                return cval(c[2])
        return None

    def grouped(self, n):
        c = self.canon(n)
        return c if isinstance(c, tuple) and c[0] == 'elem' and isinstance(c[1], tuple) and c[1][0] == 'index' else None

    def grouping(self, part):
        """Whether a location holds the location, direction and unit of the columns of the same decision variable."""
        c = part
        for _ in range(4):
            if not (isinstance(c, tuple) and c[0] == 'elem' and isinstance(c[1], tuple) and c[1][0] == 'index'):
                return None
            base, keys = c[1], []
            while isinstance(base, tuple) and base[0] == 'index':
                keys.insert(0, base[2])
                base = base[1]
            found = self.entries(base, len(keys))
            vals = {self.canon(v) for _k, v, kind in found if kind == 'append'}
            single = [v for _k, v, kind in found if kind == 'store' and v.op in ('list', 'tuple', 'set') and len(v.args) == 1 and v not in self.ip.appends]
            if single and not vals and len(single) == len(found):
                return 'only one of the locations with the same components is combined'
            if len(vals) == 1 and all(kind == 'append' or v.op in ('list', 'set', 'call') for _k, v, kind in found):
                c = vals.pop()
                continue
            found = self.entries(base, len(keys) + 1)
            ks = {tuple(self.fields(k)) if k.op == 'tuple' else None for k in [f[0][-1] for f in found]}
            if len(ks) != 1 or None in ks:
                return None
            f = ks.pop()
            first = self.field(self.canon(found[0][0][0]))
            comp = self.field(self.canon(found[0][1])) if found[0][2] in ('append', 'store') else None
            if None in f or first is None:
                return None
            if f != (3, 4, 5):
                return 'components are grouped by other parts of the column name'
            if first != 0:
                return 'components of all decision variables are grouped together'
            if comp is not None and comp != 2:
                return 'the names grouped are not those of the components'
            return True
        return None

    def fields(self, k):
        return [self.field(self.canon(x)) for x in k.args]

    # -- removal ------------------------------------------------------------
    def remove(self, e, items, col):
        ip, res, where = self.ip, self.res, e.where()
        # the losses copied
        target = e.target
        copies = [x for x in ip.events if x.kind == 'store_index' and x.target is target and x is not e and hasattr(x.value, 'op')
                  and not self.evaluations(x.value)]
        updates = [x for x in ip.events if x.kind == 'call' and x.node is not None and vq.mcall(x.node, 'update') and vq.recv(x.node) is target]
        pops = [x for x in ip.events if x.kind in ('call', 'del_index', 'delete') and x.node is not None and (
            vq.mcall(x.node, 'pop') and x.node.args[1] and x.node.args[1][0] is col or x.kind != 'call' and x.node is col)]
        if not copies and not updates:
            self.skipped.append('other losses')
            return
        for c in [*copies, *updates]:
            guards = [(g, p) for g, p, k in c.guards if k in ('br', 'noret') and (g, p, k) not in e.guards]
            own = guards
            if any(self.field(self.canon(x)) is not None for g, _p in own for x in walk(g)):
                res.bad('replace', 'other losses', c.where(), 'some of the other losses are left out')
            if own:
                self.skipped.append(f'condition of the other losses {show(own[-1][0], 3)}')
                return
            if c.kind == 'store_index':
                res.check('replace', not any(lp.breaks for lp in c.loops), 'other losses', c.where(), 'some of the other losses are left out')
                if any(g.op == 'iter' and g.args[0].op in ('call', 'index') and vq.xcall(g.args[0], 'islice') for g, _p, k in c.guards if k == 'loop'):
                    res.bad('replace', 'other losses', c.where(), 'some of the other losses are left out')
        if not pops:
            if any(x.kind not in ('call', 'store_index', 'store_attr', 'return', 'ireturn', 'jump', 'raise') for x in ip.events if 'loss_model' in x.where()
                   and x.node is not None and col in set(walk(x.node))):
                self.skipped.append('removal')
                return
            res.bad('replace', 'components', where, 'the losses of the components are added to the combined losses')
            return
        for x in pops:
            extra = [(g, p) for g, p, k in x.guards if k in ('br', 'noret') and (g, p, k) not in e.guards]
            res.check('replace', not extra, 'components', x.where(), 'some of the losses of the components are added to the combined losses')
            res.check('replace', all(x.seq < c.seq for c in [*copies, *updates]), 'components', x.where(), 'the losses of the components are copied before they are removed')
            its = vq.iters(x)
            if its:
                src = self.order(its[-1])[0] if its[-1].op in ('comp', 'list') else its[-1]
                if src is not None and src.op == 'index' and self.is_components(src.args[0]) is not None:
                    res.bad('replace', 'components', x.where(), 'some of the losses of the components are added to the combined losses')
                if its[-1].op == 'index':
                    res.bad('replace', 'components', x.where(), 'some of the losses of the components are added to the combined losses')

    # -- interpolation --------------------------------------------------------
    def cache(self, d, k, v):
        parts = {self.canon(x) for x in walk(k)}
        has_dv = any(isinstance(c, tuple) and c[0] == 'elem' and self.is_param(c[1]) for c in parts)
        cs = [c for c in parts if isinstance(c, tuple) and c[0] == 'elem' and isinstance(c[1], tuple) and c[1][0] == 'index' and self.is_param(c[1][1])]
        if not has_dv and not cs:
            self.skipped.append('interpolation functions')
            return
        # a cache made for each decision variable needs no decision variable in its keys
        loops = next((e.loops for e in self.ip.events if e.kind == 'store_index' and e.target is d), ())
        site = getattr(d, 'site', None)
        if not has_dv and any(self.inside(site, lp) for lp in loops):
            return
        self.res.check('array', has_dv and bool(cs), 'interpolation functions', str(self.site(d, v)), 'the interpolation function of another decision variable is used')

    def site(self, d, v):
        for e in self.ip.events:
            if e.kind == 'store_index' and e.target is d:
                return e.where()
        return show(v, 2)

    @staticmethod
    def inside(site, lp):
        n = getattr(lp, 'node', None)
        if n is None or site is None:
            return False
        line = next((x for x in (site if isinstance(site, tuple) else (site,)) if isinstance(x, int)), None)
        return line is not None and n.lineno <= line <= n.end_lineno

    def array(self, z):
        res = self.res
        where = next((e.where() for e in self.ip.events if e.kind == 'call' and e.node is z), '')
        points, refs = arg(z, 'points', 0), arg(z, 'values', 1)
        a = self.is_array(refs) if refs is not None else None
        if a is None:
            self.skipped.append(f'combination array {show(refs, 3) if refs is not None else ""}')
            return
        m = arg(z, 'method', 2 if vq.xcall(z, 'RegularGridInterpolator') else 3)
        if m is not None and is_const(m):
            res.check('array', cval(m) == 'linear', 'interpolation', where, f'the combination array is interpolated with the method {cval(m)}')
        b = arg(z, 'bounds_error', 3)
        f = arg(z, 'fill_value', 4)
        if b is not None and is_const(b, False) and not (f is not None and is_const(f, None)):
            res.bad('array', 'interpolation', where, 'losses beyond the combination array are replaced')
        points = peel(points)
        if points.op == 'comp':
            if len(points.args[2]) != 1 or points.args[3]:
                self.skipped.append('domains')
                return
            it = points.args[2][0]
            if not self.axes(it, a):
                self.skipped.append(f'axes {show(it, 3)}')
                return
            var = self.ip.N('elem', it)
            dom = {axis: points.args[1] for axis in range(4)}
            dims = (2, 3, 4)
        elif points.op in ('tuple', 'list') and points not in self.ip.appends and not any(x.op == 'star' for x in points.args):
            var = None
            dom = dict(enumerate(points.args))
            dims = (2, 3)
            if points.args and len(points.args) == 2:
                res.bad('array', 'domains', where, 'only two components can be combined')
                dims = (2,)
        elif points.op == 'list' and len(self.ip.appends.get(points, ())) == 1:
            _k, v, gs = self.ip.appends[points][0]
            its = [g.args[0] for g, _p, k in gs if k == 'loop' and g.op == 'iter']
            if not its or not self.axes(its[-1], a):
                self.skipped.append('axes')
                return
            var = self.ip.N('elem', its[-1])
            dom = {axis: v for axis in range(4)}
            dims = (2, 3, 4)
        else:
            self.skipped.append(f'domains {show(points, 3)}')
            return
        for nd in dims:
            for axis in range(nd):
                if axis not in dom:
                    res.bad('array', 'domains', where, 'a component has no domain')
                    continue
                r = Axes(self, a, nd, var, axis).view(dom[axis])
                if r is None:
                    self.skipped.append(f'domain {show(dom[axis], 4)}')
                    return
                free = [x for x, i in r if i is None]
                fixed = [i for x, i in r if i is not None]
                res.check('array', free == [axis], f'domain of component {axis + 1} of {nd}', where, 'the domain of a component is taken along another axis of the array')
                res.check('array', all(i == 0 for i in fixed), f'domain of component {axis + 1} of {nd}', where, 'the domain of a component is not taken where the others have no losses')

    def axes(self, it, a):
        if vq.xcall(it, 'range') and len(it.args[1]) == 1:
            n = it.args[1][0]
            if n.op == 'attr' and n.args[1] == 'ndim' and self.is_array(n.args[0]) == a:
                return True
            if vq.xcall(n, 'len') and n.args[1]:
                x = n.args[1][0]
                return x.op == 'attr' and x.args[1] == 'shape' and self.is_array(x.args[0]) == a or self.canon(x) == a[1]
        return False


class Axes:
    """Axes of the combination array an expression selects, in order: (axis, index) with index None when the axis is kept."""

    def __init__(self, rule, array, nd, var, axis):
        self.rule, self.array, self.nd, self.var, self.axis = rule, array, nd, var, axis

    def num(self, n):
        if n is self.var:
            return self.axis
        if is_const(n) and isinstance(cval(n), int) and not isinstance(cval(n), bool):
            return cval(n)
        if n.op == 'attr' and n.args[1] == 'ndim' and self.rule.is_array(n.args[0]) == self.array:
            return self.nd
        if vq.xcall(n, 'len') and n.args[1] and (self.rule.canon(n.args[1][0]) == self.array[1] or n.args[1][0].op == 'attr' and n.args[1][0].args[1] == 'shape'):
            return self.nd
        if n.op == 'unop' and n.args[0] == '-':
            x = self.num(n.args[1])
            return None if x is None else -x
        if n.op == 'binop' and n.args[0] in ('+', '-', '*'):
            x, y = self.num(n.args[1]), self.num(n.args[2])
            if None in (x, y):
                return None
            return {'+': x + y, '-': x - y, '*': x * y}[n.args[0]]
        return None

    def truth(self, c, j):
        if c.op == 'cmp' and c.args[0] in ('==', '!='):
            x, y = (j[z] if z in j else self.num(z) for z in c.args[1:3])
            if None not in (x, y):
                return (x == y) == (c.args[0] == '==')
        return None

    def selectors(self, n, j=None):
        """A list of selectors: 'all' or an index."""
        j = j or {}
        if n.op in ('tuple', 'list') and n not in self.rule.ip.appends:
            out = []
            for x in n.args:
                r = self.selectors(x.args[0], j) if x.op == 'star' else self.selector(x, j)
                if r is None:
                    return None
                out += r if isinstance(r, list) else [r]
            return out
        if n.op == 'binop' and n.args[0] == '*':
            for a, b in (n.args[1:3], n.args[:0:-1]):
                if a.op in ('list', 'tuple'):
                    x, k = self.selectors(a, j), self.num(b)
                    return None if x is None or k is None else x * k
        if n.op == 'binop' and n.args[0] == '+':
            x, y = self.selectors(n.args[1], j), self.selectors(n.args[2], j)
            return None if x is None or y is None else x + y
        if vq.xcall(n, 'tuple', 'list') and len(n.args[1]) == 1:
            return self.selectors(n.args[1][0], j)
        if n.op == 'comp' and len(n.args[2]) == 1 and not n.args[3] and self.rule.axes(n.args[2][0], self.array):
            v = self.rule.ip.N('elem', n.args[2][0])
            if v is self.var:
                return None
            out = [self.selector(n.args[1], {**j, v: k}) for k in range(self.nd)]
            return None if None in out else out
        r = self.selector(n, j)
        return None if r is None else [r]

    def selector(self, n, j):
        if n.op == 'slice' or vq.xcall(n, 'slice'):
            xs = n.args if n.op == 'slice' else n.args[1]
            return 'all' if all(is_const(x, None) for x in xs) else None
        if n.op == 'ite':
            t = self.truth(n.args[0], j)
            return None if t is None else self.selector(n.args[1 if t else 2], j)
        return self.num(n)

    def view(self, n):
        n = peel(n)
        if self.rule.is_array(n) is not None:
            return [(i, None) for i in range(self.nd)] if self.rule.is_array(n) == self.array else None
        if vq.xcall(n, 'moveaxis', 'swapaxes') and len(n.args[1]) == 3 or vq.mcall(n, 'swapaxes') and len(n.args[1]) == 2:
            b = n.args[1][0] if len(n.args[1]) == 3 else vq.recv(n)
            v, s, d = self.view(b), self.num(n.args[1][-2]), self.num(n.args[1][-1])
            if None in (s, d) or v is None:
                return None
            free = [x for x in v if x[1] is None]
            fixed = [x for x in v if x[1] is not None]
            if not (-len(free) <= s < len(free) and -len(free) <= d < len(free)):
                return None
            s, d = s % len(free), d % len(free)
            if vq.bname(n) == 'swapaxes':
                free[s], free[d] = free[d], free[s]
            else:
                free.insert(d, free.pop(s))
            return fixed + free
        if n.op == 'attr' and n.args[1] == 'T':
            v = self.view(n.args[0])
            return None if v is None else [x for x in v if x[1] is not None] + [x for x in v if x[1] is None][::-1]
        if n.op == 'index':
            v, s = self.view(n.args[0]), self.selectors(n.args[1])
            if v is None or s is None:
                return None
            free = [x for x in v if x[1] is None]
            if len(s) > len(free):
                return None
            out = [x for x in v if x[1] is not None]
            for x, k in itertools.zip_longest(free, s, fillvalue='all'):
                out.append((x[0], None if k == 'all' else k))
            return out
        return None
