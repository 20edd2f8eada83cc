"""P17: component losses are damaged quantity (or quantity) times consequence times deviation of the same case."""

from __future__ import annotations

from ..avn import AVN, H, P, Undecided, num
from ..flow import alts, cval, is_const, show
from .. import lossworld, vq
from ..vq import arg, fields, leaves, text, walk

EXPLANATION = (
    'The loss calculations are followed with their helpers inlined. Every stored loss is evaluated algebraically for each setting of the '
    'economies of scale and each kind of loss parameter, and the keys that select its factors, the parameters of the random '
    'variables, their names and the keys of the results are compared with each other. The calculations are also followed on small tables of '
    'damage, demands and consequences, and every loss and every random variable is compared with the one that the tables ask for.'
)
MOD = 'pelicun.model.loss_model.'
OPAQUE = ('Logger', 'RandomVariableRegistry', 'rv_class_map', 'RandomVariableSet', 'convert_to_MultiIndex')
LF_OPAQUE = (*OPAQUE, '_get_required_demand_type', '_assemble_required_demand_data', '_verify_edps_available', 'invert_mapping')
ORIGINAL = ('cmp', 'loc', 'dir', 'uid', 'ds')
FLOORS, STATES = 'AcrossFloors', 'AcrossDamageStates'


def run(ctx, res):
    res.rule('product', 'a loss is the damaged quantity times the median consequence times the deviation of the same case', 1)
    res.rule('key', 'a loss is stored under its decision variable, assigned consequence, component, damage state and location', 0)
    res.rule('every', 'no damage state, location or decision variable is left out', 0)
    res.rule('scale', 'quantities are aggregated for economies of scale as set in the options, damaged states only', 0)
    res.rule('median', 'the median is the constant, one with a distribution, or the bounded interpolation at the aggregated quantity', 0)
    res.rule('own', 'parameters are those of the consequence assigned to the component, the decision variable and the damage state', 2)
    res.rule('deviation', 'a deviation has its own name, family and parameters, and cannot be negative', 0)
    res.rule('pair', 'cost and time of the same case are correlated as set in the options', 0)
    res.rule('function', 'a loss function is evaluated at the demand of its performance group, times the quantity over the blocks', 0)
    res.rule('sum', 'losses are summed over the blocks only', 0)
    skipped = []
    ds(ctx, res, skipped)
    lf(ctx, res, skipped)
    same_names = {r: r for r in ('product', 'key', 'every', 'deviation', 'pair', 'function')}
    lossworld.losses(ctx, res, skipped, same_names)
    lossworld.functions(ctx, res, skipped, same_names)
    res.analysed['not_judged'] = skipped


# -- shared -----------------------------------------------------------------
def option(n):
    """Name of the economies of scale setting the node reads."""
    if n.op == 'index' and is_const(n.args[1]) and cval(n.args[1]) in (FLOORS, STATES):
        return cval(n.args[1])
    if vq.mcall(n, 'get') and n.args[1] and is_const(n.args[1][0]) and cval(n.args[1][0]) in (FLOORS, STATES):
        return cval(n.args[1][0])
    return None


def decide(n, case):
    """Truth of a condition on the settings; None when it depends on something else."""
    o = option(n)
    if o is not None:
        return case[o]
    if n.op == 'cmp' and n.args[0] in ('is', '==', 'is not', '!=') and is_const(n.args[2]) and cval(n.args[2]) in (True, False):
        r = decide(n.args[1], case)
        return None if r is None else (r == cval(n.args[2])) == (n.args[0] in ('is', '=='))
    if n.op == 'not' or n.op == 'unop' and n.args[0] == 'not':
        r = decide(n.args[-1], case)
        return None if r is None else not r
    if n.op in ('and', 'or'):
        xs = [decide(x, case) for x in n.args]
        if (n.op == 'or') in xs:
            return n.op == 'or'
        return None if None in xs else n.op == 'and'
    if n.op == 'ite':
        c = decide(n.args[0], case)
        if c is not None:
            return decide(n.args[1 if c else 2], case)
    if is_const(n) and isinstance(cval(n), bool):
        return cval(n)
    if case.get('pos') is not None and n.op == 'cmp' and is_const(n.args[2]) and n.args[1].op == 'pos':
        a, b = case['pos'], cval(n.args[2])
        f = {'>': a > b, '>=': a >= b, '<': a < b, '<=': a <= b, '==': a == b, '!=': a != b}
        return f.get(n.args[0])
    if case.get('pos') is not None and n.op == 'pos':
        return bool(case['pos'])
    return None


def pick(n, case):
    """The value under the settings."""
    while n.op == 'ite':
        c = decide(n.args[0], case)
        if c is None:
            return n
        n = n.args[1 if c else 2]
    return n


CASES = [{FLOORS: f, STATES: s} for f in (True, False) for s in (True, False)]


def casename(c):
    return ('across' if c[FLOORS] else 'by') + ' floors, ' + ('across' if c[STATES] else 'by') + ' damage states'


def members(n, ip, case, seen=None):
    """Values a list may hold."""
    seen = seen if seen is not None else set()
    if n in seen:
        return
    seen.add(n)
    if n.op in ('list', 'tuple', 'set'):
        for x in n.args:
            if x.op == 'star':
                yield from members(x.args[0], ip, case, seen)
            else:
                yield x
    for how, v, *g in ip.appends.get(n, ()):
        if case and g and any(k in ('br', 'noret') and decide(c, case) == (not p) for c, p, k in g[0]):
            continue
        if how == 'append':
            yield v
        else:
            yield from members(v, ip, case, seen)
    if n.op == 'comp':
        yield n.args[1]
    elif n.op == 'mu':
        yield from members(n.args[1], ip, case, seen)
        if n in ip.mu_back:
            yield from members(ip.mu_back[n], ip, case, seen)
    elif n.op == 'ite':
        d = decide(n.args[0], case) if case else None
        if d is not False:
            yield from members(n.args[1], ip, case, seen)
        if d is not True:
            yield from members(n.args[2], ip, case, seen)
    elif n.op == 'phi':
        for x in n.args:
            yield from members(x, ip, case, seen)
    elif n.op == 'binop' and n.args[0] == '+':
        yield from members(n.args[1], ip, case, seen)
        yield from members(n.args[2], ip, case, seen)
    elif vq.xcall(n, 'list', 'tuple', 'sorted') and n.args[1]:
        yield from members(n.args[1][0], ip, case, seen)


def resolve(n, ip, case, depth=0):
    """Values of an element of a list built earlier."""
    if depth > 8:
        return [n]
    if n.op == 'elem':
        ms = list(members(n.args[0], ip, case))
        if ms:
            return [y for m in ms for y in resolve(m, ip, case, depth + 1)]
    if n.op == 'index' and is_const(n.args[1]) and isinstance(cval(n.args[1]), int):
        out = []
        for b in resolve(n.args[0], ip, case, depth + 1):
            i = cval(n.args[1])
            if b.op == 'tuple' and not any(x.op == 'star' for x in b.args):
                if -len(b.args) <= i < len(b.args):
                    out += resolve(b.args[i], ip, case, depth + 1)
            elif b is n.args[0]:
                return [n]
            else:
                return [n]
        return out or [n]
    return [n]


def tuples(n, ip, case):
    """Tuples a key may be, with their parts resolved together."""
    if n.op == 'binop' and n.args[0] == '+':
        return [a + b for a in tuples(n.args[1], ip, case) for b in tuples(n.args[2], ip, case)]
    if n.op == 'index' and n.args[1].op == 'slice':
        lo, hi = (cval(x) if is_const(x) else '?' for x in n.args[1].args[:2])
        return [] if '?' in (lo, hi) else [t[lo:hi] for t in tuples(n.args[0], ip, case)]
    if n.op == 'elem':
        return [t for m in members(n.args[0], ip, case) for t in tuples(m, ip, case)]
    if n.op not in ('tuple', 'list'):
        return []
    # elements of one list come from the same member
    bases = []
    for x in n.args:
        b = x.args[0] if x.op == 'star' else x.args[0] if x.op == 'index' else x
        if b.op == 'elem' and list(members(b.args[0], ip, case)) and b not in bases:
            bases.append(b)
    if not bases:
        out = [()]
        for x in n.args:
            if x.op == 'star':
                out = [o + t for o in out for t in tuples(x.args[0], ip, case)]
            else:
                out = [(*o, r) for o in out for r in resolve(x, ip, case)]
        return out
    b = bases[0]
    out = []
    for m in members(b.args[0], ip, case):
        xs = []
        for x in n.args:
            if x is b:
                xs.append(m)
            elif x.op == 'star' and x.args[0] is b and m.op == 'tuple':
                xs += m.args
            elif x.op == 'index' and x.args[0] is b and is_const(x.args[1]) and m.op == 'tuple' and -len(m.args) <= cval(x.args[1]) < len(m.args):
                xs.append(m.args[cval(x.args[1])])
            elif x.op == 'index' and x.args[0] is b:
                xs = None
                break
            else:
                xs.append(x)
        if xs is not None:
            out += tuples(Tup(xs), ip, case)
    return out


def unresolved(n, ip):
    """The value is a part of an element of a list built earlier."""
    b = n
    while b.op == 'index' and is_const(b.args[1]):
        b = b.args[0]
    return b is not n and b.op == 'elem' and b.args[0].op in ('mu', 'phi', 'list', 'ite')


class Tup:
    """A tuple of nodes made here."""

    op = 'tuple'

    def __init__(self, args):
        self.args = tuple(args)


def is_map(n):
    """The loss map, its column of consequences, or a dictionary of it."""
    while vq.mcall(n, 'to_dict', 'copy', 'dropna'):
        n = vq.recv(n)
    if n.op == 'index' and is_const(n.args[1]):
        n = n.args[0]
        while vq.mcall(n, 'to_dict', 'copy', 'dropna'):
            n = vq.recv(n)
    return n.op == 'attr' and n.args[1] == 'loss_map' or n.op == 'param' and n.args[-1] == 'loss_map'


def mapped(n):
    """The component whose consequence the value is."""
    if n.op == 'index':
        b, k = n.args
        if b.op == 'attr' and b.args[1] in ('loc', 'at'):
            b = b.args[0]
            if k.op == 'tuple' and len(k.args) == 2 and is_const(k.args[1]):
                k = k.args[0]
        if is_map(b) and not is_const(k):
            return k
    if vq.mcall(n, 'get') and n.args[1] and is_map(vq.recv(n)):
        return n.args[1][0]
    return None


def flatkey(k):
    if k.op in ('tuple', 'list'):
        return [y for x in k.args for y in flatkey(x)]
    return [k]


def selection(n):
    """(table, keys) of a value selected from the table by keys, outermost first."""
    keys = []
    while True:
        if n.op == 'index':
            keys = [x for x in flatkey(n.args[1]) if x.op != 'slice'] + keys
            n = n.args[0]
        elif n.op == 'attr' and n.args[1] in ('loc', 'at', 'iloc'):
            n = n.args[0]
        elif vq.mcall(n, 'get') and n.args[1]:
            keys = [x for x in flatkey(n.args[1][0]) if x.op != 'slice'] + keys
            n = vq.recv(n)
        elif vq.mcall(n, 'to_dict', 'dropna', 'copy', 'squeeze', 'to_numpy', 'astype', 'sort_index'):
            n = vq.recv(n)
        else:
            return n, keys


def params(n):
    """Keys of a loss parameter read."""
    if n.op == 'index' or vq.mcall(n, 'get'):
        t, ks = selection(n)
        if t.op == 'attr' and t.args[1] == 'loss_params':
            return ks
    return None


def state_id(k):
    """Damage state of a parameter key or damage state name."""
    t = text(k)
    if len(t) == 2 and t[0] == 'DS' and hasattr(t[1], 'op'):
        return state_id(t[1])
    if k.op == 'index' and k.args[1].op == 'slice' and is_const(k.args[1].args[0], 2) and is_const(k.args[1].args[1], None):
        return k.args[0]
    if vq.mcall(k, 'replace', 'removeprefix', 'lstrip') and is_const(k.args[1][0], 'DS'):
        return vq.recv(k)
    return k


def key_text(k):
    return ''.join(p if isinstance(p, str) else '#' for p in text(k))


def own(res, n, want, e, what):
    """Every parameter the value reads is that of the case: want = {consequence of, dv, ds}; the names of the parameters read."""
    names = []
    for x in walk(n):
        ks = params(x)
        if not ks:
            continue
        name = key_text(ks[-1])
        if not name.startswith(('Theta_', 'Family')):
            continue
        names.append(name)
        cs = [mapped(k) for k in ks if mapped(k) is not None]
        rest = [k for k in ks[:-1] if mapped(k) is None]
        if 'cons' in want:
            # identified by the consequence itself
            res.check('own', want['cons'] in ks, f'{what}: consequence', e.where(), f'{name} of another consequence is used')
        else:
            res.check('own', len(cs) == 1 and cs[0] is want['cmp'], f'{what}: consequence', e.where(),
                      f'{name} is not that of the consequence assigned to the component')
        res.check('own', want['dv'] in rest, f'{what}: decision variable', e.where(), f'{name} of another decision variable is used')
        if want.get('ds') is not None:
            res.check('own', any(state_id(k) is want['ds'] for k in rest), f'{what}: damage state', e.where(),
                      f'{name} of another damage state is used')
        if want.get('group'):
            res.check('own', any(is_const(k, want['group']) for k in rest), f'{what}: {want["group"]}', e.where(), f'{name} is not read from {want["group"]}')
    return names


def constants(res, rule, e, elems, what):
    """No particular element is left out by comparing it with a constant."""
    for g, p, k in e.guards:
        if k not in ('br', 'noret'):
            continue
        for x in walk(g):
            if x.op == 'cmp' and x.args[0] in ('==', '!=', 'in', 'not in', '<', '>', '<=', '>='):
                for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    if any(a is y for y in elems) and (is_const(b) and cval(b) not in (None, '0', 0) or b.op in ('list', 'tuple', 'set') and b.args and all(
                            is_const(z) and cval(z) != '0' for z in b.args)):
                        res.bad(rule, what, e.where(), f'only some are included: {show(x, 3)}')
    for lp in e.loops:
        if lp.iter is not None and lp.iter.op == 'index' and lp.iter.args[1].op == 'slice' and lp.iter.args[1].args and not all(is_const(z, None) for z in lp.iter.args[1].args):
            res.bad(rule, what, e.where(), f'only part of {show(lp.iter.args[0], 3)} is included')


# -- damage states ----------------------------------------------------------
class Loss(AVN):
    """Value of a loss under given settings."""

    def __init__(self, model, case):
        super().__init__(model.ip, {})
        self.m, self.case = model, case

    def truth(self, n):
        r = decide(n, self.case)
        if r is not None:
            return r
        if n.op == 'cmp' and n.args[0] in ('in', 'not in'):
            c = self.m.covers(n, self.case)
            if c is not None:
                return c == (n.args[0] == 'in')
        if n.op == 'cmp' and n.args[0] in ('is', 'is not') and is_const(n.args[2], None):
            # a value that is set in one branch only
            x = n.args[1]
            while x.op == 'ite':
                t = self.cond(x.args[0])
                if t is None:
                    break
                x = x.args[1 if t else 2]
            if is_const(x, None):
                return n.args[0] == 'is'
            if self.m.access(x) is not None:
                return n.args[0] == 'is not'
            if deviates(x):
                return self.case['any'] == (n.args[0] == 'is not')
        return super().truth(n)

    def ev(self, n):
        a = self.m.access(n, self.case)
        if a is not None:
            t, roles = a
            self.m.used.append((t, roles, dict(self.case)))
            return H(t)
        if vq.mcall(n, 'mul', 'multiply', 'rmul') and n.args[1]:
            return self.arith('*', self.ev(vq.recv(n)), self.ev(n.args[1][0]))
        if vq.mcall(n, 'add', 'sub', 'div', 'truediv', 'divide') and n.args[1]:
            return self.arith({'a': '+', 's': '-'}.get(vq.bname(n)[0], '/'), self.ev(vq.recv(n)), self.ev(n.args[1][0]))
        if vq.mcall(n, 'fillna', 'sort_index') or vq.xcall(n, 'DataFrame'):
            return self.ev(vq.recv(n) if vq.recv(n) is not None and n.args[0].op == 'attr' else n.args[1][0])
        return super().ev(n)


def deviates(n):
    return any(x.op == 'attr' and x.args[1] == 'RV_sample' or x.op == 'call' and vq.bname(x) == '_create_DV_RVs' for x in walk(n))


class Tables:
    """Tables read by the loss calculation of components with damage states."""

    def __init__(self, ip):
        self.ip = ip
        self.used = []
        self.dmg_reorder = []
        self.std_names = None
        for e in ip.events:
            if e.kind != 'store_attr' or not hasattr(e.value, 'op'):
                continue
            if is_const(e.node, 'columns') and self.kind(e.target) == 'damage':
                for x in walk(e.value):
                    if vq.mcall(x, 'reorder_levels') and x.args[1] and x.args[1][0].op in ('list', 'tuple'):
                        ks = [cval(y) if is_const(y) else None for y in x.args[1][0].args]
                        ks = [ORIGINAL[k] if isinstance(k, int) and -5 <= k < 5 else k for k in ks]
                        self.dmg_reorder.append((e.seq, ks))
            if is_const(e.node, 'names') and e.value.op in ('list', 'tuple') and deviates(e.target):
                self.std_names = [cval(y) if is_const(y) else None for y in e.value.args]
        self.seq = 10 ** 9

    def kind(self, n):
        n = self.base(n)
        if n.op == 'param' and n.args[1] == 'dmg_quantities' or n.op == 'param' and n is self.first_param():
            return 'damage'
        if n.op == 'call' and vq.bname(n) == '_calc_median_consequence':
            return 'median'
        if deviates(n):
            return 'deviation'
        return None

    def first_param(self):
        for x in self.ip.params_of_entry() if hasattr(self.ip, 'params_of_entry') else ():
            return x
        return None

    @staticmethod
    def base(n):
        while True:
            if vq.mcall(n, 'sort_index', 'copy', 'astype', 'reorder_levels', 'convert_dtypes'):
                n = vq.recv(n)
            elif n.op == 'attr' and n.args[1] in ('loc', 'columns', 'T'):
                n = n.args[0]
            elif n.op == 'ite':
                bs = {Tables.base(n.args[1]), Tables.base(n.args[2])}
                bs = {b for b in bs if not is_const(b, None)}
                if len(bs) != 1:
                    return n
                n = next(iter(bs))
            else:
                return n

    def levels(self, kind):
        if kind == 'damage':
            r = [ks for s, ks in self.dmg_reorder if s < self.seq]
            return r[-1] if r else list(ORIGINAL)
        if kind == 'median':
            return ['dv', 'cmp', 'ds', 'loc']
        return self.std_names or []

    def access(self, n, case=None):
        """(table, {level: key}) of a selection of columns."""
        if n.op != 'index' and not vq.mcall(n, 'xs', 'get'):
            return None
        keys = {}
        pos = []
        x = n
        while True:
            if x.op == 'index':
                k = x.args[1]
                if k.op == 'tuple' and k.args and k.args[0].op == 'slice':
                    k = k.args[1] if len(k.args) == 2 else None
                elif x.args[0].op == 'attr' and x.args[0].args[1] == 'loc':
                    return None
                if k is None:
                    return None
                ts = self.split(k, case)
                if ts is None:
                    return None
                pos = ts + pos
                x = x.args[0]
            elif x.op == 'attr' and x.args[1] == 'loc':
                x = x.args[0]
            elif vq.mcall(x, 'get') and x.args[1] and self.kind(vq.recv(x)) == 'median':
                pos = [x.args[1][0], *pos]
                x = vq.recv(x)
            elif vq.mcall(x, 'xs') and x.args[1]:
                lv = arg(x, 'level', 2)
                ks = self.split(x.args[1][0], case)
                if ks is None:
                    return None
                if lv is None:
                    pos = ks + pos
                else:
                    ls = lv.args if lv.op in ('list', 'tuple') else (lv,)
                    if len(ls) != len(ks) or not all(is_const(z) for z in ls):
                        return None
                    keys.update({cval(a): b for a, b in zip(ls, ks)})
                x = vq.recv(x)
            elif vq.mcall(x, 'sort_index', 'copy'):
                x = vq.recv(x)
            elif x.op == 'ite' and case is not None and decide(x.args[0], case) is not None:
                x = pick(x, case)
            else:
                break
        t = self.kind(x)
        if t is None or not pos and not keys:
            return None
        lv = self.levels(t)
        if len(pos) > len(lv):
            return None
        return t, {**dict(zip(lv, pos)), **keys}

    def split(self, k, case=None):
        if case is not None:
            k = pick(k, case)
        if k.op == 'tuple':
            if any(x.op in ('slice', 'star') for x in k.args):
                out = []
                for x in k.args:
                    if x.op == 'slice':
                        return None
                    s = self.split(x.args[0], case) if x.op == 'star' else [x]
                    if s is None:
                        return None
                    out += s
                return out
            return list(k.args)
        if k.op == 'binop' and k.args[0] == '+':
            a, b = self.split(k.args[1], case), self.split(k.args[2], case)
            return None if a is None or b is None else a + b
        if k.op in ('slice', 'comp', 'list', 'cmp', 'unop'):
            return None
        return [k]

    def covers(self, n, case):
        """Truth of a membership test of the deviations."""
        s = n.args[2]
        if not deviates(s):
            s = pick(s, case)
            if s.op in ('set', 'list', 'tuple') and not s.args or vq.xcall(s, 'set', 'list') and not s.args[1]:
                return False
            return None
        keys = n.args[1].args if n.args[1].op == 'tuple' else (n.args[1],)
        self.tests = getattr(self, 'tests', [])
        self.tests.append((keys, s, n))
        return case['own'] if len(keys) > 1 or not is_dv(keys[0]) else case['any']


def is_dv(n):
    if n.op != 'elem':
        return False
    x = n.args[0]
    while vq.xcall(x, 'list', 'tuple', 'sorted', 'set', 'enumerate', 'iter', 'reversed') and x.args[1]:
        x = x.args[1][0]
    if x.op == 'index' and x.args[1].op == 'slice':
        x = x.args[0]
    return x.op == 'attr' and x.args[1] == 'decision_variables'


def ds(ctx, res, skipped):
    try:
        ip = ctx.interp(MOD + 'RepairModel_DS.calculate', opaque=(*OPAQUE, '_calc_median_consequence', '_create_DV_RVs'), key='p17')
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'damage state losses: {exc}')
        return
    m = Tables(ip)
    found = []
    for e in ip.events:
        v = None
        if e.kind == 'store_index' and hasattr(e.value, 'op'):
            v = e.value
        elif e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.mcall(e.node, 'append') and e.node.args[1]:
            v = e.node.args[1][0]
        if v is None or v.op not in ('call', 'binop', 'ite', 'phi'):
            continue
        ks = {m.kind(x) for x in walk(v) if x.op in ('param', 'call', 'ite')}
        if {'damage', 'median'} <= ks and any(m.access(x) for x in walk(v) if x.op == 'index'):
            found.append((e, v))
    if not found:
        skipped.append('no damage state losses')
    for e, v in found:
        product(m, res, e, v, skipped)
    coverage(m, res, found, skipped)
    keys(m, res, found, skipped)
    scale(m, res, skipped)
    finish(ip, res, skipped)
    medians(ctx, res, skipped)
    deviations(ctx, res, m, skipped)


def live(m, e, case):
    """Whether the event happens under the settings (None: not known)."""
    av = Loss(m, case)
    out = True
    for g, p, k in e.guards:
        if k not in ('br', 'noret'):
            continue
        d = decide(g, case)
        if d is None and any(deviates(x) for x in (g,)):
            d = av.cond(g)
        if d is None:
            continue
        if d != p:
            return False
    return out


def product(m, res, e, v, skipped):
    for base in CASES:
        for any_, own_ in ((True, True), (True, False), (False, False)):
            case = {**base, 'any': any_, 'own': own_, 'pos': 0}
            if not live(m, e, case):
                continue
            m.used = []
            m.seq = e.seq
            try:
                av = Loss(m, case)
                got = av.flat(av.ev(v))
            except Undecided as exc:
                skipped.append(f'loss value: {exc} {av.unknown[:1]}')
                continue
            want = H('damage') * H('median') % P
            if own_:
                want = want * H('deviation') % P
            what = casename(case) + (', with a deviation' if own_ else ', without one')
            res.check('product', got == want, what, e.where(),
                      'the loss is not the damaged quantity times the median' + (' times the deviation' if own_ else ''))
            roles = {}
            for t, r, _c in m.used:
                for lv, k in r.items():
                    roles.setdefault(lv, []).append((t, k))
                if t == 'deviation':
                    res.check('product', 'dv' in r, 'deviation: decision variable', e.where(), 'the deviation is not selected by the decision variable')
                need = {'cmp', 'ds'} if case[FLOORS] else {'cmp', 'ds', 'loc'}
                if t in ('damage', 'deviation') or t == 'median':
                    miss = need - set(r)
                    if t == 'median' and case[FLOORS]:
                        miss -= {'loc'}
                    res.check('product', not miss, f'{t}: {"/".join(sorted(need))}', e.where(), f'{t} is selected without {sorted(miss)}')
            for lv, xs in roles.items():
                first = xs[0]
                for t, k in xs[1:]:
                    res.check('product', same(k, first[1]), f'{lv} of {first[0]} and {t}', e.where(),
                              f'{first[0]} and {t} of different {lv} are multiplied ({show(first[1], 3)}, {show(k, 3)})')
    for ks, s, n in getattr(m, 'tests', []):
        if len(ks) == 1 and not is_dv(ks[0]):
            lv = role_of(m, ks[0])
            if lv == 'cmp':
                res.bad('product', 'which deviations exist', e.where(), 'whether there is a deviation is decided without the damage state')


def same(a, b):
    return a is b


def role_of(m, k):
    for _t, r, _c in m.used:
        for lv, x in r.items():
            if x is k:
                return lv
    return None


def coverage(m, res, found, skipped):
    for e, v in found:
        m.used = []
        m.seq = e.seq
        case = {FLOORS: False, STATES: False, 'any': True, 'own': True, 'pos': 0}
        try:
            Loss(m, case).ev(v)
        except Undecided:
            pass
        elems = {k for _t, r, _c in m.used for k in r.values()}
        constants(res, 'every', e, elems, 'damage states and locations')
        for lp in e.loops:
            if lp.breaks:
                for b in lp.breaks if isinstance(lp.breaks, (list, tuple)) else ():
                    _ = b
    for base in CASES:
        for any_, own_ in ((True, True), (True, False), (False, False)):
            hits = []
            for pos in (0, 1, 2):
                case = {**base, 'any': any_, 'own': own_, 'pos': pos}
                hits.append(sum(bool(live(m, e, case)) for e, _v in found))
            if not found:
                continue
            where = found[0][0].where()
            want = [1, 0, 0] if base[FLOORS] else [1, 1, 1]
            uses_pos = any(x.op == 'pos' for e, _v in found for g, _p, k in e.guards if k in ('br', 'noret') for x in walk(g))
            what = casename(base) + (', with a deviation' if own_ else ', without one')
            if base[FLOORS] and not uses_pos:
                continue
            res.check('every', hits == want, what, where, f'the locations of a damage state are counted {hits} times')


def keys(m, res, found, skipped):
    """Keys of the results."""
    ip = m.ip
    acc = {}
    for e, v in found:
        for f in (True, False):
            m.used = []
            m.seq = e.seq
            try:
                Loss(m, {FLOORS: f, STATES: False, 'any': True, 'own': True, 'pos': 0}).ev(v)
            except Undecided:
                continue
            for _t, r, _c in m.used:
                acc.setdefault(f, {}).update(r)
    for e in ip.events:
        if e.kind != 'call' or e.node is None or not vq.xcall(e.node, 'concat') or e.node.op != 'call':
            continue
        src = e.node.args[1][0] if e.node.args[1] else None
        ks = arg(e.node, 'keys', 3)
        nm = arg(e.node, 'names', 5)
        if src is None:
            continue
        if ks is None and src.op == 'dict' and ip.stores.get(src):
            cand = [(f, t) for f in (True, False) for k, _v, g in ip.stores[src]
                    if not any(kk in ('br', 'noret') and decide(c, {FLOORS: f, STATES: False}) == (not p) for c, p, kk in g)
                    for t in tuples(k, ip, {FLOORS: f, STATES: False})]
        elif ks is not None:
            cand = [(f, t) for f in (True, False) for x in members(ks, ip, {FLOORS: f, STATES: False}) for t in tuples(x, ip, {FLOORS: f, STATES: False})]
        else:
            continue
        lv = [cval(x) if is_const(x) else None for x in nm.args] if nm is not None and nm.op in ('list', 'tuple') else None
        if lv is not None:
            res.check('key', lv == ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], 'level names', e.where(), f'the levels are {lv}')
        if not cand:
            skipped.append('result keys')
        for f, t in cand:
            if not acc.get(f) or len(t) != (4 if f else 5):
                skipped.append(f'key of {len(t)} parts')
                continue
            a = acc[f]
            what = 'all locations' if f else 'one location'
            if any(unresolved(x, ip) for x in t):
                skipped.append('key of a list of keys')
                continue
            for i, level in ((0, 'dv'), (2, 'cmp'), (3, 'ds'), (4, 'loc')):
                if i < len(t) and level in a:
                    res.check('key', same(t[i], a[level]), f'{what}: {level}', e.where(), f'the loss is stored under another {level} ({show(t[i], 3)})')
            c = mapped(t[1])
            res.check('key', c is not None and same(c, a.get('cmp')), f'{what}: loss', e.where(),
                      'the loss is not stored under the consequence assigned to its component')
    # keys and losses are listed together
    for e, v in found:
        if e.kind != 'call':
            continue


def scale(m, res, skipped):
    ip = m.ip
    call = [e for e in ip.events if e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) == '_calc_median_consequence']
    if not call or not call[0].node.args[1] and not call[0].node.args[2]:
        skipped.append('economies of scale')
        return
    a = call[0].node.args[1][0] if call[0].node.args[1] else call[0].node.args[2][0][1]
    groups = {x for x in walk(a) if vq.mcall(x, 'groupby')}
    if not groups:
        skipped.append('economies of scale')
    where = call[0].where()
    for case in CASES:
        b = pick(a, case)
        gs = [x for x in walk(b) if vq.mcall(x, 'groupby')]
        for g in gs:
            lv = arg(g, 'level', 2)
            if lv is None:
                continue
            got = settle(lv, case)
            seq = min((e.seq for e in ip.events if e.node is g), default=0)
            m.seq = seq
            order = m.levels('damage')
            if got is None:
                skipped.append(f'levels {show(lv, 3)}')
                continue
            got = {order[k] if isinstance(k, int) and -5 <= k < 5 else k for k in got}
            want = {'cmp'} | (set() if case[FLOORS] else {'loc'}) | (set() if case[STATES] else {'ds'})
            res.check('scale', got == want, casename(case), where, f'quantities are aggregated by {sorted(map(str, got))} instead of {sorted(want)}')
            src = vq.recv(g)
            if not any(is_const(x, '0') for x in walk(src)):
                res.check('scale', not case[STATES], f'{casename(case)}: undamaged', where, 'undamaged quantities are included')
            for x in walk(src):
                if x.op == 'cmp' and x.args[0] in ('==', '!=') and any(is_const(y, '0') for y in x.args[1:3]):
                    inv = any(y.op in ('unop', 'not') and x in y.args for y in walk(src))
                    res.check('scale', (x.args[0] == '!=') != inv, f'{casename(case)}: undamaged', where, 'the undamaged quantities are used')
    for x in walk(a):
        if vq.mcall(x, 'mean', 'max', 'min', 'prod', 'median', 'count', 'first', 'last', 'size', 'nunique') and vq.mcall(vq.recv(x), 'groupby') and vq.bname(x) != 'count':
            res.bad('scale', 'sum', where, f'quantities are aggregated with {vq.bname(x)}')


def settle(lv, case):
    lv = pick(lv, case)
    if lv.op in ('list', 'tuple'):
        xs = [pick(x, case) for x in lv.args]
        return [cval(x) for x in xs] if all(is_const(x) for x in xs) else None
    if is_const(lv):
        return [cval(lv)]
    if lv.op == 'binop' and lv.args[0] == '+':
        a, b = settle(lv.args[1], case), settle(lv.args[2], case)
        return None if a is None or b is None else a + b
    return None


def finish(ip, res, skipped):
    for e in ip.events:
        if e.kind == 'store_attr' and is_const(e.node, 'sample') and hasattr(e.value, 'op') and any(vq.xcall(x, 'concat') for x in walk(e.value)):
            fills = [x for x in walk(e.value) if vq.mcall(x, 'fillna')]
            if fills:
                f = fills[0].args[1][0] if fills[0].args[1] else arg(fills[0], 'value')
                res.check('product', f is not None and is_const(f) and cval(f) == 0, 'cleared damage', e.where(), 'cleared damage has a loss')
            ax = [arg(x, 'axis', 1) for x in walk(e.value) if vq.xcall(x, 'concat')]
            res.check('key', any(x is not None and is_const(x) and cval(x) in (1, 'columns') for x in ax), 'side by side', e.where(),
                      'the losses are not joined side by side')


# -- median consequences ----------------------------------------------------
class Median(AVN):
    def __init__(self, ip, numeric, family, q, theta):
        super().__init__(ip, {})
        self.numeric_, self.family, self.q, self.theta = numeric, family, q, theta

    def truth(self, n):
        if n.op == 'const' or n.op in ('and', 'or', 'not'):
            return super().truth(n)
        if show(n, 1).startswith('try('):
            return self.numeric_
        names = {key_text(params(x)[-1]) for x in walk(n) if params(x)}
        names = {x for x in names if x.startswith(('Theta_', 'Family'))}
        if n.op == 'call' and vq.xcall(n, 'isna', 'isnull') and names == {'Family'}:
            return not self.family
        if n.op == 'call' and vq.xcall(n, 'notna', 'notnull') and names == {'Family'}:
            return self.family
        if n.op == 'cmp' and n.args[0] in ('is', 'is not', '==') and is_const(n.args[2], None) and names == {'Family'}:
            return self.family == (n.args[0] == 'is not')
        if n.op == 'cmp' and n.args[0] in ('is', 'is not', '==', '!=') and is_const(n.args[2]) and isinstance(cval(n.args[2]), bool):
            r = self.truth(n.args[1])
            return (r == cval(n.args[2])) == (n.args[0] in ('is', '=='))
        if names == {'Theta_0'}:
            if vq.xcall(n, 'isinstance'):
                s = any(x.op == 'ext' and x.args[0] == 'builtins.str' for x in walk(n))
                return self.numeric_ != s
            if n.op == 'cmp' and n.args[0] in ('in', 'not in') and is_const(n.args[1]):
                return self.numeric_ == (n.args[0] == 'not in')
            if vq.xcall(n, 'isna', 'isnull'):
                return False
            if vq.xcall(n, 'notna', 'notnull'):
                return True
        return super().truth(n)

    def ev(self, n):
        ks = params(n)
        if ks and key_text(ks[-1]) == 'Theta_0':
            return H('theta_0')
        if n.op == 'phi' and all(any(params(y) for y in walk(x)) for x in n.args):
            return H('theta_0')
        if vq.xcall(n, 'interp') and len(n.args[1]) + len(n.args[2]) >= 3:
            x, xs, ys = arg(n, 'x', 0), arg(n, 'xp', 1), arg(n, 'fp', 2)
            if any(o is not None and not is_const(o, None) for o in (arg(n, 'left', 3), arg(n, 'right', 4), arg(n, 'period', 5))):
                return H('interpolation with other bounds')
            if not self.q(x):
                raise Undecided('argument of the interpolation')
            return H('interp', part(xs), part(ys))
        if vq.xcall(n, 'interp1d'):
            raise Undecided('interp1d')
        if vq.xcall(n, 'full_like', 'full') and len(n.args[1]) >= 2:
            return self.ev(n.args[1][1])
        return super().ev(n)


def part(n):
    """Which part of the function definition the values are: 0 before the bar, 1 after it."""
    todo = [n]
    while todo:
        x = todo.pop(0)
        if x.op == 'index' and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) and any(
                vq.mcall(y, 'split') and y.args[1] and is_const(y.args[1][0], '|') for y in walk(x.args[0])):
            return cval(x.args[1]) % 2
        if x.op == 'attr':
            todo.append(x.args[0])
        elif x.op == 'call':
            todo.extend(x.args[1])
            if vq.recv(x) is not None:
                todo.append(vq.recv(x))
        elif x.op == 'comp':
            todo.append(x.args[1])
            todo.extend(x.args[2])
        elif x.op == 'elem':
            todo.append(x.args[0])
    return None


def medians(ctx, res, skipped):
    try:
        ip = ctx.interp(MOD + 'RepairModel_DS._calc_median_consequence', opaque=OPAQUE, key='p17')
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'medians: {exc}')
        return
    found = False
    for e in ip.events:
        v = None
        if e.kind == 'store_index' and hasattr(e.value, 'op'):
            v, tgt = e.value, e.target
        if v is None or not any(params(x) for x in walk(v)):
            continue
        found = True
        eco = [x for x in walk(e.target) if x.op == 'index' and is_eco(x.args[0])]
        ks = {tuple(flatkey(k)) for x in eco for k in [x.args[1].args[1] if x.args[1].op == 'tuple' and len(x.args[1].args) == 2 else x.args[1]]}
        cm = {k[0] for k in ks}
        dss = {k[1] for k in ks if len(k) > 1}
        if len(cm) != 1 or len(dss) > 1:
            skipped.append('aggregated quantities')
            continue
        comp = next(iter(cm))
        dsid = next(iter(dss)) if dss else None
        dv = [x for x in walk(v) if is_dv(x)]
        dvn = [lp for lp in e.loops if lp.iter is not None and any(x.op == 'attr' and x.args[1] == 'decision_variables' for x in walk(lp.iter))]
        if len(set(dv)) != 1 or not dvn or dv[0].args[0] is not dvn[0].iter:
            if len(set(dv)) != 1:
                res.bad('own', 'median: decision variable', e.where(), 'the median is not that of the decision variable')
            continue
        own(res, v, {'cmp': comp, 'dv': dv[0], 'ds': state_id(dsid) if dsid is not None else None}, e, 'median')
        for g, p, k in e.guards:
            if k in ('br', 'noret', 'noraise'):
                own(res, g, {'cmp': comp, 'dv': dv[0], 'ds': state_id(dsid) if dsid is not None else None}, e, 'median: conditions')
        base = set(eco)

        def is_q(x, base=base):
            return any(y in base for y in walk(x)) and not any(y.op == 'binop' for y in walk(x) if any(z in base for z in walk(y)))

        for numeric in (True, False):
            for fam in (True, False):
                av = Median(ip, numeric, fam, is_q, None)
                try:
                    got = av.flat(av.ev(v))
                except Undecided as exc:
                    skipped.append(f'median: {exc} {av.unknown[:1]}')
                    continue
                want = H('interp', 1, 0) if not numeric else num(1) if fam else H('theta_0')
                res.check('median', got == want, f'{"constant" if numeric else "function"}, {"with" if fam else "without"} a distribution', e.where(),
                          'the median is not ' + ('the bounded interpolation at the aggregated quantity' if not numeric else 'one' if fam else 'the constant'))
        constants(res, 'every', e, {comp, dsid, state_id(dsid) if dsid is not None else None, dv[0]}, 'medians')
        # listed under its own component, damage state and decision variable
        for a in ip.events:
            if a.kind == 'call' and a.node is not None and a.node.op == 'call' and vq.mcall(a.node, 'append') and a.node.args[1]:
                x = a.node.args[1][0]
                same_loops = len(a.loops) == len(e.loops) and all(p is q for p, q in zip(a.loops, e.loops))
                if same_loops and dsid is not None and not any(y in base for y in walk(x)):
                    res.check('key', state_id(x) is state_id(dsid), 'median: damage state', a.where(), 'the median is listed under another damage state')
            if a.kind == 'call' and a.node is not None and a.node.op == 'call' and vq.mcall(a.node, 'update') and a.node.args[1] and a.node.args[1][0].op == 'dict':
                for k, _x in a.node.args[1][0].args:
                    res.check('key', k is dv[0], 'median: decision variable', a.where(), 'the medians are stored under another decision variable')
        for lp in e.loops:
            res.check('every', not lp.breaks, 'medians: loop', e.where(), 'some are left out')
    if not found:
        skipped.append('no medians')


def is_eco(b):
    if b.op == 'attr' and b.args[1] == 'loc':
        b = b.args[0]
    return b.op == 'param' and b.args[1] == 'eco_qnt'


# -- deviations -------------------------------------------------------------
def new_variables(ip):
    for e in ip.events:
        if e.kind == 'call' and e.node is not None and e.node.op == 'call':
            nm, th = arg(e.node, 'name', 0), arg(e.node, 'theta', 1)
            if nm is not None and th is not None and len(fields(nm)) > 3 and vq.bname(e.node) != 'RandomVariableSet' and vq.ename(e) != 'RandomVariableSet':
                yield e, nm, th


def deviations(ctx, res, m, skipped):
    try:
        ip = ctx.interp(MOD + 'RepairModel_DS._create_DV_RVs', opaque=OPAQUE, key='p17')
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'deviations: {exc}')
        return
    n = 0
    for e, nm, th in new_variables(ip):
        n += 1
        fs = fields(nm)
        lv = m.std_names or ['dv', 'cmp', 'ds', 'loc', 'dir', 'uid']
        if len(fs) != len(lv):
            res.bad('deviation', 'name', e.where(), f'the name has {len(fs)} parts for the levels {lv}')
            continue
        d = dict(zip(lv, fs))
        if any(not hasattr(f, 'op') for f in fs):
            if any(isinstance(f, str) for f in fs):
                res.bad('deviation', 'name', e.where(), 'the name does not identify the case')
            else:
                skipped.append('names of the deviations')
            continue
        res.check('deviation', is_dv(d['dv']), 'name: dv', e.where(), 'the decision variable is not in its place')
        got = own(res, th, {'cmp': d['cmp'], 'dv': d['dv'], 'ds': state_id(d['ds'])}, e, 'parameters')
        if not got:
            skipped.append('parameters of the deviations')
        order(res, th, e, lambda k: key_text(k).startswith('Theta_'))
        fn = e.node.args[0]
        if fn.op == 'call':
            fam = own(res, fn, {'cmp': d['cmp'], 'dv': d['dv'], 'ds': state_id(d['ds'])}, e, 'family')
            res.check('deviation', set(fam) <= {'Family'}, 'family', e.where(), f'the family is taken from {fam}')
        places(ip, res, d, e, skipped)
        first(ip, res, th, e, 'function', skipped)
        limits(res, e, skipped)
        constants(res, 'every', e, set(fs), 'deviations')
        for lp in e.loops:
            res.check('every', not lp.breaks, 'deviations: loop', e.where(), 'some are left out')
    if not n:
        skipped.append('no deviations')
    pairs(ip, res, 6, skipped)


def places(ip, res, d, e, skipped):
    """Location, direction and uid of the deviations."""
    for lv in ('loc', 'dir', 'uid'):
        f = d[lv]
        if f.op != 'index' or not is_const(f.args[1]) or not isinstance(cval(f.args[1]), int):
            skipped.append(f'{lv} of the deviations')
            continue
        i = cval(f.args[1])
        b = f.args[0]
        if b.op == 'elem' and b.args[0].op == 'param':
            res.check('deviation', ORIGINAL[i % 5] == lv, f'name: {lv}', e.where(), f'the {lv} is not in its place')
            continue
        if b.op != 'elem':
            skipped.append(f'{lv} of the deviations')
            continue
        src = b.args[0]
        ks = flatkey(src.args[1]) if src.op == 'index' else []
        if len(ks) == 2:
            res.check('deviation', ks[0] is d['cmp'] and state_id(ks[1]) is state_id(d['ds']), 'performance groups', e.where(),
                      'the performance groups are those of another component or damage state')
            for g in walk(src.args[0]):
                if vq.mcall(g, 'groupby') and g.args[1] and g.args[1][0].op == 'list':
                    lvs = [cval(x) if is_const(x) else None for x in g.args[1][0].args]
                    res.check('deviation', lvs == ['cmp', 'ds'], 'performance groups: levels', e.where(), f'the performance groups are grouped by {lvs}')
        cols = None
        for x in ip.events:
            if x.kind == 'call' and x.node is not None and vq.xcall(x.node, 'zip') and x.node.op == 'call':
                cs = [cval(y.args[1]) if y.op == 'index' and is_const(y.args[1]) else None for y in x.node.args[1]]
                if None not in cs and set(cs) & {'loc', 'dir', 'uid'}:
                    cols = cs
        if cols is None or not -len(cols) <= i < len(cols):
            skipped.append(f'{lv} of the deviations')
            continue
        res.check('deviation', cols[i] == lv, f'name: {lv}', e.where(), f'the {lv} is that of {cols[i]}')


def order(res, th, e, wanted):
    for x in walk(th):
        if x.op == 'comp':
            for y in walk(x.args[1]):
                ks = params(y)
                if not ks:
                    continue
                p = text(ks[-1])
                if len(p) == 2 and p[0] == 'Theta_' and getattr(p[1], 'op', '') == 'elem' and vq.xcall(p[1].args[0], 'range'):
                    a = [cval(z) if is_const(z) else None for z in p[1].args[0].args[1]]
                    if None not in a:
                        r = list(range(*a))
                        res.check('deviation', len(r) >= 2 and r == list(range(len(r))), 'parameters: order', e.where(), f'parameters {r} are used')
        if x.op in ('list', 'tuple') and len(x.args) > 1:
            ks = [[key_text(params(z)[-1]) for z in walk(y) if params(z) and key_text(params(z)[-1]).startswith('Theta_')] for y in x.args]
            if all(len(set(k)) == 1 for k in ks):
                ks = [k[0] for k in ks]
                res.check('deviation', ks == [f'Theta_{i}' for i in range(len(ks))], 'parameters: order', e.where(), f'the parameters are {ks}')


def first(ip, res, th, e, when, skipped):
    """The first parameter is one where it is a function."""
    done = False
    for x in walk(th):
        for k, v, g in ip.stores.get(x, ()):
            if x.op != 'comp' and x.op != 'list':
                continue
            done = True
            if not is_const(k) or not isinstance(cval(k), int):
                skipped.append('first parameter')
                continue
            res.check('deviation', cval(k) == 0, 'function: parameter', e.where(), f'parameter {cval(k)} is replaced')
            if is_const(v):
                res.check('deviation', cval(v) == 1, 'function: value', e.where(), 'the deviation is not relative to one')
            if when == 'function':
                cond = [(a, p) for a, p, kind in g if kind in ('br', 'noret') and any(is_const(y, '|') for y in walk(a)) or kind in ('br', 'noret') and vq.xcall(a, 'isinstance')]
                res.check('deviation', bool(cond) and all(p for _a, p in cond), 'function: condition', e.where(), 'the first parameter is replaced when it is not a function')
    if not done:
        skipped.append('first parameter')


def limits(res, e, skipped):
    t = arg(e.node, 'truncation_limits', 2)
    if t is None:
        res.bad('deviation', 'not negative', e.where(), 'deviations can be negative')
        return
    for conds, x in leaves(t):
        if is_const(x, None):
            ok = any(any(is_const(y, 'deterministic') for y in walk(c)) for c, _p in conds)
            for c, p in conds:
                if c.op == 'cmp' and any(is_const(y, 'deterministic') for y in walk(c)):
                    res.check('deviation', p == (c.args[0] in ('==', 'in', 'is')), 'not negative', e.where(), 'deviations can be negative')
            res.check('deviation', ok, 'not negative', e.where(), 'deviations can be negative')
            continue
        ls = [y for y in walk(x) if y.op in ('list', 'tuple') and len(y.args) == 2]
        if not ls:
            skipped.append('limits')
            continue
        lo, hi = ls[0].args
        res.check('deviation', is_const(lo) and cval(lo) == 0, 'lower limit', e.where(), f'the lower limit is {show(lo, 3)}')
        if is_const(hi) and cval(hi) is not None and cval(hi) == cval(hi):
            res.bad('deviation', 'upper limit', e.where(), f'the upper limit is {show(hi, 3)}')


def pairs(ip, res, size, skipped):
    sets = [e for e in ip.events if e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) == 'RandomVariableSet'
            or e.kind == 'call' and vq.ename(e) == 'RandomVariableSet']
    sets = [e for e in sets if e.node is not None and e.node.op == 'call' and arg(e.node, 'rho', 2) is not None]
    if not sets:
        skipped.append('no correlation of cost and time')
    for e in sets:
        nm, rvs, rho = arg(e.node, 'name', 0), arg(e.node, 'rv_list', 1), arg(e.node, 'rho', 2)
        tags = []
        for x in walk(rvs):
            if x.op == 'call' and vq.bname(x) == 'RVs' and x.args[1] and x.args[1][0].op in ('list', 'tuple'):
                tags = list(x.args[1][0].args)
        if not tags:
            tags = [x.args[1] for x in walk(rvs) if x.op == 'index' and any(y.op == 'attr' and y.args[1] == 'RV' for y in walk(x.args[0]))]
        if len(tags) != 2:
            skipped.append('pair')
        else:
            a, b = tags
            base = [x for x in (a, b) if x.op == 'elem']
            other = [x for x in (a, b) if x.op != 'elem']
            if len(base) == 1 and vq.mcall(other[0], 'replace') and len(other[0].args[1]) >= 2:
                c = other[0].args[1]
                res.check('pair', vq.recv(other[0]) is base[0] and is_const(c[0]) and is_const(c[1]) and {cval(c[0]), cval(c[1])} == {'Cost', 'Time'}, 'case', e.where(),
                          'cost and time of different cases are correlated')
                res.check('pair', len(c) > 2 and is_const(c[2], 1), 'components with Cost in their name', e.where(), 'the name of the component is changed too')
                for g, p, k in e.guards:
                    if k in ('br', 'noret') and g.op == 'cmp' and g.args[0] in ('in', 'not in') and g.args[1] is other[0]:
                        res.check('pair', p == (g.args[0] == 'in'), 'both exist', e.where(), 'cost and time are correlated when one of them does not exist')
            elif len(base) == 2 and base[0] is base[1]:
                res.bad('pair', 'case', e.where(), 'a variable is correlated with itself')
            else:
                skipped.append('pair')
        for x in walk(rho):
            if x.op in ('list', 'tuple') and len(x.args) == 2 and all(y.op in ('list', 'tuple') and len(y.args) == 2 for y in x.args):
                (p, q), (r, s) = x.args[0].args, x.args[1].args
                ok = is_const(p) and is_const(s) and cval(p) == 1 and cval(s) == 1
                res.check('pair', ok and q is r and q.op == 'attr' and q.args[1] == 'rho_cost_time', 'correlation', e.where(), 'the correlation is not the one given')
        # each case has its own set
        ids = set()
        whole = False
        for x in walk(nm):
            if x.op == 'index' and vq.mcall(x.args[0], 'split', 'rsplit', 'partition', 'rpartition'):
                if vq.bname(x.args[0]) == 'split' and len(x.args[0].args[1]) == 1 and not x.args[0].args[2] and is_const(x.args[1]) and isinstance(cval(x.args[1]), int):
                    ids.add(cval(x.args[1]))
                else:
                    whole = True
            elif x.op == 'elem':
                whole = whole or not any(y.op == 'index' and x in list(walk(y)) for y in walk(nm))
        if ids and not whole:
            res.check('pair', set(range(1, size)) <= ids, 'own set', e.where(), f'pairs that share parts {sorted(ids)} of the name share one set')
        for lp in e.loops:
            res.check('pair', not lp.breaks, 'every pair', e.where(), 'some pairs are left out')
        for g, p, k in e.guards:
            if k in ('br', 'noret') and g.op == 'cmp' and any(x.op == 'attr' and x.args[1] == 'rho_cost_time' for x in walk(g)) and is_const(g.args[2]):
                v = cval(g.args[2])
                keep = {'!=': v == 0, '==': False, '>': False, '<': False, '>=': False, '<=': False}
                if p and g.args[0] in keep:
                    res.check('pair', keep[g.args[0]], 'any correlation', e.where(), f'some correlations are ignored: {show(g, 3)}')


# -- loss functions ---------------------------------------------------------
class Function(AVN):
    def __init__(self, ip, found):
        super().__init__(ip, {})
        self.found = found

    def ev(self, n):
        if n.op == 'call' and n.args[0].op == 'call' and vq.xcall(n.args[0], 'interp1d'):
            f = n.args[0]
            x, y = arg(f, 'x', 0), arg(f, 'y', 1)
            self.found['x'], self.found['y'], self.found['at'] = x, y, n.args[1][0]
            self.found['fill'] = arg(f, 'fill_value'), arg(f, 'bounds_error')
            return H('function')
        if vq.xcall(n, 'interp') and len(n.args[1]) >= 3:
            self.found['x'], self.found['y'], self.found['at'] = n.args[1][1], n.args[1][2], n.args[1][0]
            return H('function')
        t, ks = selection(n)
        if t.op == 'param' and t.args[1] == 'cmp_sample' and ks:
            self.found['quantity'] = ks
            return H('quantity')
        b = blocks(n)
        if b is not None:
            self.found['blocks'] = b
            return H('blocks')
        return super().ev(n)


def blocks(n):
    """The performance group whose number of blocks the node is."""
    while vq.xcall(n, 'float', 'int') and n.args[1]:
        n = n.args[1][0]
    if n.op == 'index' and n.args[0].op == 'index' and is_const(n.args[0].args[1], 'Blocks'):
        return n.args[1]
    if n.op == 'index' and n.args[1].op == 'tuple' and len(n.args[1].args) == 2 and is_const(n.args[1].args[1], 'Blocks'):
        return n.args[1].args[0]
    return None


def lf(ctx, res, skipped):
    try:
        ip = ctx.interp(MOD + 'RepairModel_LF.calculate', opaque=LF_OPAQUE, key='p17')
    except Exception as exc:  # noqa: BLE001
        skipped.append(f'loss function losses: {exc}')
        return
    found = False
    for e in ip.events:
        if e.kind != 'store_index' or not hasattr(e.value, 'op') or not any(x.op == 'param' and x.args[1] == 'cmp_sample' for x in walk(e.value)):
            continue
        found = True
        d = {}
        av = Function(ip, d)
        try:
            got = av.flat(av.ev(e.value))
        except Undecided as exc:
            skipped.append(f'loss function: {exc} {av.unknown[:1]}')
            continue
        want = H('function') * H('quantity') % P * pow(H('blocks'), -1, P) % P
        res.check('function', got == want, 'value', e.where(), 'the loss of a block is not the loss function times the quantity over the number of blocks')
        if 'at' not in d:
            continue
        function_case(ip, res, e, d, skipped)
    if not found:
        skipped.append('no loss functions')
    groups(ip, res, skipped)
    for e, nm, th in new_variables(ip):
        fs = fields(nm)
        lv = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid', 'block']
        if any(not hasattr(f, 'op') for f in fs) or len(fs) != 7:
            if len(fs) != 7:
                res.bad('deviation', 'loss function: name', e.where(), f'the name has {len(fs)} parts for the levels {lv}')
            else:
                skipped.append('loss function: name')
            continue
        for i, f in enumerate(fs):
            if f.op == 'index' and is_const(f.args[1]) and f.args[0].op == 'elem':
                res.check('deviation', cval(f.args[1]) % 7 == i, f'loss function: {lv[i]}', e.where(), f'the {lv[i]} is not in its place')
            else:
                skipped.append(f'loss function: {lv[i]}')
        own(res, th, {'cons': fs[1], 'dv': fs[0], 'group': 'LossFunction'}, e, 'loss function: parameters')
        own(res, e.node.args[0], {'cons': fs[1], 'dv': fs[0], 'group': 'LossFunction'}, e, 'loss function: family')
        order(res, th, e, None)
        first(ip, res, th, e, 'always', skipped)
        limits(res, e, skipped)
        constants(res, 'every', e, set(fs), 'loss function: deviations')
        for lp in e.loops:
            res.check('every', not lp.breaks, 'loss function: loop', e.where(), 'some are left out')
    pairs(ip, res, 7, skipped)
    totals(ip, res, skipped)


def function_case(ip, res, e, d, skipped):
    k = e.node
    if k.op != 'tuple' or len(k.args) != 7:
        skipped.append('loss function: key')
        return
    dv, cons, comp, loc, dr, uid, block = k.args
    res.check('key', mapped(cons) is comp, 'loss function: consequence', e.where(), 'the loss is not stored under the consequence assigned to its component')
    q = d.get('quantity', [])
    res.check('function', len(q) == 4 and all(a is b for a, b in zip(q, (comp, loc, dr, uid))), 'quantity', e.where(),
              'the quantity is that of another performance group')
    # the function
    for what, i in (('x', 1), ('y', 0)):
        p = part(d[what])
        if p is None:
            skipped.append(f'loss function: {what}')
        else:
            res.check('function', p == i, f'{what} values', e.where(), 'the demands and losses of the function are exchanged')
        own(res, d[what], {'cmp': comp, 'dv': dv, 'group': 'LossFunction'}, e, 'loss function')
    # its demand
    at = d['at']
    t, ks = selection(at)
    if vq.bname(t) == '_assemble_required_demand_data' and len(ks) == 1:
        t2, k2 = selection(ks[0])
        if k2 and t2.op == 'call':
            flat = [y for x in k2 for y in flatkey(x)]
            res.check('function', flat == [comp, dv, loc, dr, uid] or group_of(k2, comp, dv), 'demand', e.where(), 'the demand is that of another performance group')
        else:
            skipped.append('loss function: demand')
    elif any(x.op == 'call' and vq.bname(x) == '_assemble_required_demand_data' for x in walk(at)) and at.op == 'binop':
        res.bad('function', 'demand', e.where(), 'the demand is changed')
    else:
        skipped.append('loss function: demand')
    # its blocks
    b = d.get('blocks')
    if b is not None:
        pg = {x.args[0] for x in (loc, dr, uid) if x.op == 'index'}
        res.check('function', b in pg or [y for y in flatkey(b)] == [comp, dv, loc, dr, uid], 'blocks', e.where(), 'the number of blocks is that of another performance group')
    bt = text(block)
    if len(bt) == 1 and getattr(bt[0], 'op', '') == 'elem' and vq.xcall(bt[0].args[0], 'range'):
        ra = bt[0].args[0].args[1]
        n = ra[-1] if len(ra) <= 2 else None
        if n is not None and len(ra) == 1:
            res.check('function', blocks(n) is b, 'every block', e.where(), 'not all blocks are included')
        elif n is not None:
            skipped.append('blocks')
    constants(res, 'every', e, {dv, comp, loc, dr, uid}, 'loss functions')
    for lp in e.loops:
        res.check('every', not lp.breaks, 'loss functions: loop', e.where(), 'some are left out')


def group_of(ks, comp, dv):
    if len(ks) != 1:
        return False
    k = ks[0]
    return comp.op == 'index' and any(x is k for x in walk(comp)) and dv.op == 'index' and any(x is k for x in walk(dv))


def groups(ip, res, skipped):
    """Performance groups with loss functions and their demands."""
    for e in ip.events:
        if e.kind == 'store_index' and e.node is not None and e.node.op == 'tuple' and len(e.node.args) == 4 and e.node.args[0].op == 'tuple' and hasattr(e.value, 'op'):
            fk = flatkey(e.node)
            if len(fk) != 5:
                continue
            comp, dv, loc, dr, uid = fk
            if not is_dv(dv):
                continue
            ok = all(x.op == 'index' and is_const(x.args[1], i) and x.args[0] is comp.args[0] for i, x in ((0, comp), (1, loc), (2, dr), (3, uid)) if comp.op == 'index')
            res.check('function', ok, 'performance group', e.where(), 'the performance group is mixed up')
            t, ks = selection(e.value)
            if ks and any(is_const(x, 'Blocks') for x in walk(e.value)):
                res.check('function', comp.op == 'index' and ks[-1] is comp.args[0], 'performance group: blocks', e.where(), 'the number of blocks is that of another performance group')
            for g, p, k in e.guards:
                if k in ('br', 'noret') and g.op == 'cmp' and g.args[0] in ('in', 'not in') and any(x.op == 'attr' and x.args[1] == 'missing' for x in walk(g.args[2])):
                    parts = flatkey(g.args[1])
                    res.check('own', len(parts) == 2 and mapped(parts[0]) is comp and parts[1] is dv, 'missing parameters', e.where(),
                              'parameters are taken to be missing for another case')
                    res.check('every', p == (g.args[0] == 'not in'), 'missing parameters', e.where(), 'only cases without parameters are included')
            constants(res, 'every', e, set(fk), 'performance groups')
        if e.kind == 'call' and e.node is not None and e.node.op == 'call' and vq.bname(e.node) == '_get_required_demand_type' and e.node.args[1]:
            t = e.node.args[1][0]
            sel = [x for x in walk(t) if x.op == 'index' and x.args[0].op == 'attr' and x.args[0].args[1] == 'loc' and x.args[0].args[0].op == 'attr'
                   and x.args[0].args[0].args[1] == 'loss_params']
            for x in sel:
                for c in walk(x.args[1]):
                    if c.op == 'comp':
                        b = c.args[1]
                        if b.op == 'tuple' and len(b.args) == 2:
                            cm = mapped(b.args[0])
                            res.check('own', cm is not None and cm.op == 'index' and is_const(cm.args[1], 0) and b.args[1].op == 'index' and is_const(b.args[1].args[1], 1)
                                      and cm.args[0] is b.args[1].args[0], 'demand of the loss function', e.where(),
                                      'the demand is not that of the consequence assigned to the component')
            if not sel and any(x.op == 'attr' and x.args[1] == 'loss_params' for x in walk(t)) and not any(mapped(x) for x in walk(t) if x.op == 'index'):
                res.bad('own', 'demand of the loss function', e.where(), 'the demand is looked up with the component instead of the consequence assigned to it')


def totals(ip, res, skipped):
    for e in ip.events:
        if e.kind != 'store_attr' or not is_const(e.node, 'sample') or not hasattr(e.value, 'op') or is_const(e.value):
            continue
        gs = [x for x in walk(e.value) if vq.mcall(x, 'groupby')]
        if not gs:
            skipped.append('sum over blocks')
            continue
        for g in gs:
            lv = arg(g, 'level', 2)
            if lv is not None and lv.op in ('list', 'tuple') and all(is_const(x) for x in lv.args):
                names = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid', 'block']
                got = [names[cval(x)] if isinstance(cval(x), int) else cval(x) for x in lv.args]
                res.check('sum', got == names[:-1], 'levels', e.where(), f'losses are summed by {got}')
            for x in walk(e.value):
                if vq.mcall(x, 'mean', 'max', 'min', 'prod', 'first', 'last', 'median', 'count') and vq.recv(x) is g:
                    res.bad('sum', 'sum', e.where(), f'losses of the blocks are combined with {vq.bname(x)}')
        # losses with and without a deviation
        for x in walk(e.value):
            if x.op == 'binop' and any(deviates(y) for y in x.args[1:3]):
                res.check('product', x.args[0] == '*', 'loss function: deviation', e.where(), 'the loss is not multiplied by the deviation')
            if vq.mcall(x, 'mul', 'multiply') and any(deviates(y) for y in walk(x)):
                fv = arg(x, 'fill_value')
                if fv is not None and is_const(fv):
                    res.check('product', cval(fv) == 1, 'loss function: deviation', e.where(), 'losses without a deviation are changed')
        if not any(vq.mcall(x, 'combine_first', 'fillna', 'reindex', 'update', 'mul', 'where') for x in walk(e.value)) and any(
                x.op == 'binop' and x.args[0] == '*' and any(deviates(y) for y in x.args[1:3]) for x in walk(e.value)):
            res.bad('product', 'loss function: without a deviation', e.where(), 'losses without a deviation are lost')


_ = alts
