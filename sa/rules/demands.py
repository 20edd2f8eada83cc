"""The demands of components, followed from the source of the functions that find and collect them."""

from __future__ import annotations

import ast
import re

from .. import vq
from ..ceval import NO, Raised, Undecided
from ..flow import callee
from ..lframe import NAN, Arr, FTrace, Frame, Ix, Obj, Ser, isnan
from ..trace import Stopped
from .p38 import World
from .p39 import alike, own_entry
from .p40 import judged, result

MOD = 'pelicun.model.demand_model.'
LEVELS = ['cmp', 'loc', 'dir', 'uid']
EXPRESSION = re.compile(r'X\d+')


def text(s):
    if not isinstance(s, str):
        raise Raised('TypeError', 'TypeError')
    return s


class Pattern(Obj):
    def __init__(self, p):
        self.p = re.compile(p)

    def m_match(self, s):
        return self.p.match(text(s))

    def m_fullmatch(self, s):
        return self.p.fullmatch(text(s))

    def m_search(self, s):
        return self.p.search(text(s))


class Parsed(Obj):
    def __init__(self, text):
        try:
            self.a_input_names = tuple(sorted({x.id for x in ast.walk(ast.parse(text, mode='eval')) if isinstance(x, ast.Name)}))
        except SyntaxError:
            raise Raised('SyntaxError', 'SyntaxError') from None


def arithmetic(formula, values):
    """An expression of the values, element by element."""
    ops = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a**b}

    def ev(x, i):
        if isinstance(x, ast.BinOp) and type(x.op) in ops:
            return ops[type(x.op)](ev(x.left, i), ev(x.right, i))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            return -ev(x.operand, i)
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.Name):
            return values[x.id].flat[i]
        raise Undecided('expression')
    tree = ast.parse(formula, mode='eval').body
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and x.id not in values:
            raise Raised('KeyError', 'KeyError')
        if isinstance(x, (ast.BitXor, ast.BitOr, ast.BitAnd)):
            raise Raised('NotImplementedError', 'NotImplementedError')
    n = {len(v.flat) for v in values.values()}
    if len(n) != 1:
        raise Undecided('sizes')
    return Arr((*n,), [ev(tree, i) for i in range(*n)])


class Expressions(World):
    """With numerical expressions and patterns."""

    def __call__(self, tr, n):
        if n.op == 'call':
            c = callee(n)
            full = str(c[1]) if c else ''
            if full.startswith('numexpr.'):
                a, kw = tr.args(n)
                if full == 'numexpr.NumExpr' and len(a) == 1 and not kw:
                    return Parsed(a[0])
                if full == 'numexpr.evaluate' and a and not set(kw) - {'local_dict', 'global_dict'}:
                    d = {**(kw.get('global_dict') or {}), **(kw.get('local_dict') or {})}
                    return arithmetic(a[0], {k: v.m_to_numpy() if isinstance(v, Ser) else v for k, v in d.items()})
                raise Undecided(full)
            if full == 're.compile' and len(n.args[1]) == 1 and not n.args[2]:
                return Pattern(tr.ev(n.args[1][0]))
        return super().__call__(tr, n)


def trace(ctx, name, params):
    w = Expressions(params)
    w.must = ('evaluate', 'NumExpr')
    return FTrace(ctx.interp(MOD + name, opaque=('Logger',), key='demands', hooks={'index': own_entry}), w).run()


def plain(v):
    return [plain(x) for x in (v.flat if isinstance(v, Arr) else v.vals if isinstance(v, Ser) else v)] if isinstance(v, (Arr, Ser, list, tuple)) else v


# -- demand of each performance group --------------------------------------------------------
HEAD = [('Demand', 'Directional'), ('Demand', 'Offset'), ('Demand', 'Type'), ('LS1', 'Theta_0')]
MORE = [('Demand2', 'Type'), ('Demand2', 'Offset'), ('Demand2', 'Directional'), ('Demand', 'Expression'), ('Demand3', 'Offset'), ('Demand3', 'Directional'), ('Demand3', 'Type')]
PARAMS = {
    'A.1': ([1, 0, 'Peak Interstory Drift Ratio', 7.0], []),
    'B.1': ([0, 1, 'Peak Floor Acceleration', 8.0], []),
    'C.1': ([1.0, -1.0, 'Peak Spectral Acceleration|1.13', 9.0], []),
    'D.1': ([0, 0, 'Peak Spectral Acceleration|0.5', 1.0], []),
    'E.1': ([1, 2, 'Peak Floor Velocity', 2.0], ['Peak Ground Acceleration', 0, 0, '(X1+X2)^2', NAN, NAN, NAN]),
    'F.1': ([0, 0, 'Peak Ground Velocity', 2.0], ['Peak Floor Acceleration', 1, 1, 'X3*X1-X2', -1, 0, 'Roof Drift Ratio|top']),
    'G.1': ([True, 0.0, 'Peak Floor Acceleration', 2.0], ['Peak Floor Velocity', 3, 1, '3*X1', 1, 1, 'Peak Floor Velocity']),
    'H.1': ([False, 1, 'Peak Floor Acceleration', 8.0], ['Peak Floor Velocity', 3, 1, NAN, 1, 1, 'Peak Floor Velocity']),
    'I.1': ([1, 2, 'Peak Floor Velocity', 2.0], ['Peak Ground Acceleration', 0, 0, 'X1+X2', NAN, NAN, NAN]),
}
CODES = {
    'Peak Interstory Drift Ratio': 'PID', 'Peak Floor Acceleration': 'PFA', 'Peak Floor Velocity': 'PFV', 'Peak Ground Acceleration': 'PGA', 'Peak Ground Velocity': 'PGV',
    'Peak Spectral Acceleration': 'SA', 'Roof Drift Ratio': 'PRD',
}
GROUPS = [
    ('E.1', '1', '2', '0'), ('A.1', '1', '1', '0'), ('A.1', '2', '1', '0'), ('A.1', '1', '2', '0'), ('A.1', '1', '1', '1'), ('B.1', '1', '1', '0'), ('B.1', '1', '2', '0'), ('B.1', '0', '2', '0'),
    ('C.1', '3', '2', '0'), ('C.1', '1', '1', '0'), ('D.1', '2', '1', '0'), ('F.1', '1', '2', '0'), ('F.1', '1', '1', '0'), ('F.1', '11', '1', '0'), ('G.1', '1', '2', '0'), ('H.1', '1', '2', '0'), ('I.1', '1', '2', '0'),
]
OFFSETS = {'none': None, 'empty': {}, 'up': {'PFA': 1}, 'several': {'PFA': -1, 'SA': 2, 'PID': 0, 'PGV': 3}, 'of a subtype': {'SA_1.13': 5, 'PFV': 1}, 'of the description': {'Peak Floor Velocity': 4, 'PRD': 2}}


def table(more, cmps, order):
    head = (MORE + HEAD) if more else list(HEAD)
    if order:
        head = head[::-1]
    rows = []
    for c in cmps:
        base, extra = PARAMS[c]
        d = {**dict(zip(HEAD, base)), **dict(zip(MORE, extra or [NAN] * len(MORE)))}
        rows.append([d[h] for h in head])
    return Frame(Ix(list(cmps)), Ix(head), rows)


def demands_of(pg, more, shift):
    base, extra = PARAMS[pg[0]]
    d = {**dict(zip(HEAD, base)), **(dict(zip(MORE, extra)) if more and extra else {})}
    e = d.get(('Demand', 'Expression'))
    e = None if e is None or isnan(e) else e
    names = ['Demand', 'Demand2', 'Demand3'][: len(set(EXPRESSION.findall(e)))] if e else ['Demand']
    out = []
    for nm in names:
        typ, _bar, sub = d[nm, 'Type'].partition('|')
        code = CODES[typ]
        at = int(pg[1]) + int(d[nm, 'Offset']) + shift.get(code, 0)
        out.append(f'{code}{"_" + sub if sub else ""}-{at}-{pg[2] if d[nm, "Directional"] else "0"}')
    return tuple(out), e


def required(ctx, res, skipped):
    at = MOD + '_get_required_demand_type'
    for what, shift in OFFSETS.items():
        for more in (False, True):
            pgs = [g for g in GROUPS if more or not PARAMS[g[0]][1]]
            if shift and shift.get('PFA', 0) < 0:
                pgs = [g for g in pgs if g[1] != '0']
            label = f'offsets: {what}{", expressions" if more else ""}'
            params = {'model_parameters': table(more, sorted({g[0] for g in pgs} | {'D.1'}, reverse=more), what == 'up'), 'pgb': Frame(Ix(list(pgs), LEVELS), Ix(['Blocks']), [[1] for _ in pgs]), 'demand_offset': dict(shift) if shift is not None else None}
            tr = judged(skipped, res, 'required', label, at, lambda: trace(ctx, '_get_required_demand_type', params))
            if tr is None:
                continue
            got = result(tr)
            if not isinstance(got, dict):
                res.check('required', False, label, at, f'{label}: there are no demands')
                continue
            exp = {}
            for g in pgs:
                exp.setdefault(demands_of(g, more, shift or {}), []).append(g)
            for k, v in exp.items():
                res.check('required', got.get(k) == v, f'{label}: {k}', at, f'{label}: {k} is of {got.get(k)}, not {v}')
            res.check('required', set(got) == set(exp), f'{label}: demands', at, f'{label}: {sorted(map(str, set(got) - set(exp)))[:3]} are not needed')
            res.check('required', params['demand_offset'] == (dict(shift) if shift is not None else None), f'{label}: given offsets', at, f'{label}: the given offsets are changed')
    for what, pg, shift, ok in (
        ('below zero', ('C.1', '0', '1', '0'), {}, False), ('below zero by the type', ('B.1', '0', '1', '0'), {'PFA': -2}, False), ('zero', ('C.1', '1', '1', '0'), {}, True), ('zero by the type', ('B.1', '1', '2', '0'), {'PFA': -2}, True),
        ('second demand', ('E.1', '1', '1', '0'), {'PGA': -2}, False), ('far below', ('C.1', '0', '0', '0'), {'SA': -9}, False),
    ):
        params = {'model_parameters': table(True, ['E.1', 'B.1', 'C.1'], False), 'pgb': Frame(Ix([('B.1', '5', '1', '0'), pg], LEVELS), Ix(['Blocks']), [[1], [1]]), 'demand_offset': dict(shift)}
        refuse(ctx, res, skipped, 'required', f'location {what}', at, '_get_required_demand_type', params, not ok)
    params = {'model_parameters': table(True, ['E.1', 'B.1', 'C.1'], False), 'pgb': Frame(Ix([('E.1', '5', '1', '0')], LEVELS), Ix(['Blocks']), [[1]]), 'demand_offset': None}
    bad = params['model_parameters']
    j = bad.columns.vals.index(('Demand', 'Expression'))
    for formula in ("__import__('os')", 'X1;X2', 'X1.real', 'X1[0]+X2', 'X1+"X2"', 'X1=X2'):
        for r, c in zip(bad.rows, bad.index.vals):
            if c == 'E.1':
                r[j] = formula
        refuse(ctx, res, skipped, 'required', f'expression {formula}', at, '_get_required_demand_type', params, True)


def refuse(ctx, res, skipped, rule, what, at, name, params, wrong, errors=('ValueError',)):
    try:
        tr = trace(ctx, name, params)
        raised = tr.raised.name if tr.raised else None
        if raised is None:
            tr.ev(tr.ip.ret)
    except Raised as exc:
        raised = exc.name
    except (Undecided, Stopped) as exc:
        skipped.append(f'{what}: {exc}')
        return
    res.check(rule, raised in errors if wrong else raised is None, what, at, f'{what}: {raised or "no exception"} is raised')


# -- values of the demands -------------------------------------------------------------------
SAMPLE = {
    ('PFA', '1', '2'): [0.5, 0.25, 2.0], ('PFA', '0', '1'): [9.0, 0.5, 4.0], ('PFA', '1', '1'): [1.5, 0.125, 1.0], ('PFA', '10', '1'): [7.0, 8.0, 6.0], ('PFA', '10', '2'): [1.0, 8.5, 9.0], ('PFV', '3', '1'): [2.0, 3.0, 4.0],
    ('SA_1.13', '0', '1'): [0.75, 0.5, 0.25], ('SA_1.13', '0', '3'): [0.5, 0.75, 0.125], ('SA_0.5', '0', '1'): [3.0, 6.0, 5.0], ('PFA_x', '1', '1'): [77.0, 78.0, 79.0], ('PGV', '0', '5'): [4.0, 5.0, 6.0], ('PID', '1', '1'): [-0.5, -2.0, 0.5], ('PID', '1', '2'): [-1.0, -1.5, -0.75],
}
WANT = [
    (('PFA-1-2',), None), (('PFA-1-1',), None), (('PFA-1-0',), None), (('PFA-10-0',), None), (('PFA-0-0',), None), (('PFV-3-1',), None), (('PFV-3-0',), None), (('SA_1.13-0-0',), None), (('SA_1.13-0-3',), None), (('SA_0.5-0-0',), None), (('PGV-0-5',), None),
    (('PID-1-0',), None), (('PFV-3-1', 'PFA-1-0'), '(X1-X2)^2'), (('PFA-1-0', 'PFV-3-1'), '(X1-X2)^2'), (('PFA-1-2', 'PGV-0-5', 'SA_0.5-0-0'), 'X3*X1-X2'), (('PFA-1-2',), '3*X1'), (('PFA-1-2',), '2*X1+1'),
]
FACTORS = {'all': {'ALL': 1.25}, 'own': {'PFA': 2.0, 'PFV': 1.5, 'SA_1.13': 0.5, 'SA_0.5': 3.0, 'PID': 4.0}, 'own and all': {'PFA': 2.0, 'ALL': 0.75, 'SA_1.13': 5.0}, 'all first': {'ALL': 3.0, 'PFV': 0.5}}


def value_of(e, factors):
    typ, loc, d = e.split('-')
    if d != '0':
        return list(SAMPLE[typ, loc, d])
    cols = [v for k, v in SAMPLE.items() if k[:2] == (typ, loc)]
    f = factors[typ] if typ in factors else factors['ALL']
    return [max(x) * f for x in zip(*cols)]


def sample(keys=None):
    keys = list(SAMPLE) if keys is None else keys
    return Frame(Ix([0, 1, 2]), Ix(list(keys), ['type', 'loc', 'dir']), [[SAMPLE[k][i] for k in keys] for i in range(3)])


def assembled(ctx, res, skipped):
    at = MOD + '_assemble_required_demand_data'
    for what, factors in FACTORS.items():
        for order, want in (('', WANT), (', other order', WANT[::-1])):
            keys = sorted(SAMPLE) if order else list(SAMPLE)
            given = sample(keys)
            params = {'required_edps': list(want), 'nondirectional_multipliers': dict(factors), 'demand_sample': given}
            label = f'multipliers: {what}{order}'
            tr = judged(skipped, res, 'value of demand', label, at, lambda: trace(ctx, '_assemble_required_demand_data', params))
            if tr is None:
                continue
            got = result(tr)
            if not isinstance(got, dict):
                res.check('value of demand', False, label, at, f'{label}: there are no demands')
                continue
            for edps, e in want:
                vs = [value_of(x, factors) for x in edps]
                exp = vs[0] if e is None else arithmetic(e.replace('^', '**'), {f'X{i + 1}': Arr((3,), v) for i, v in enumerate(vs)}).flat
                have = plain(got.get((edps, e)))
                res.check('value of demand', isinstance(have, list) and len(have) == 3 and alike(have, exp), f'{label}: {edps} {e or ""}', at, f'{label}: {edps} {e or ""} is {have}, not {exp}')
            res.check('value of demand', set(got) == set(want), f'{label}: demands', at, f'{label}: {len(got)} demands are collected')
            res.check('value of demand', given.rows == sample(keys).rows, f'{label}: sample', at, f'{label}: the sample of demands is changed')
    for what, edp, factors, wrong in (('no multiplier', 'PFA-1-0', {'PFV': 2.0}, True), ('multiplier of a subtype', 'SA_1.13-0-0', {'SA': 2.0}, True), ('multiplier of a type', 'PFA-1-0', {'PFA': 2.0}, False), ('no multiplier needed', 'PFA-1-2', {}, False)):
        refuse(ctx, res, skipped, 'value of demand', what, at, '_assemble_required_demand_data', {'required_edps': [((edp,), None)], 'nondirectional_multipliers': dict(factors), 'demand_sample': sample()}, wrong)


def available(ctx, res, skipped):
    at = MOD + '_verify_edps_available'
    have = {}
    for t, loc, d in SAMPLE:
        have.setdefault((t, loc), []).append(d)
    have['PGD', '0'] = []
    for what, want, wrong in (
        ('all', WANT, False), ('none', [], False), ('a location', [*WANT, (('PFA-2-1',), None)], True), ('first location', [(('PFA-2-0',), None), *WANT], True), ('a type', [(('PGA-0-1',), None)], True), ('a subtype', [(('SA-0-1',), None)], True),
        ('second of an expression', [(('PFA-1-1', 'PWS-0-1'), 'X1+X2')], True), ('no direction', [(('PGD-0-0',), None)], True), ('directions', [(('PGD-0-1',), None)], True),
    ):
        refuse(ctx, res, skipped, 'available', f'missing: {what}', at, '_verify_edps_available', {'available_edps': {k: list(v) for k, v in have.items()}, 'required': list(want)}, wrong)


RULES = {
    'required': 'a performance group needs the demands its parameters name, at its own location and direction',
    'value of demand': 'the value of a demand is the sample, the envelope times the multiplier, or the expression of its demands',
    'available': 'a demand that is missing from the sample is an error',
}
