"""Consequence scaling, followed from the source on small specifications and losses."""

from __future__ import annotations

from ..ceval import Raised, Undecided
from ..lframe import NAN, FTrace, Frame, Ix, isnan
from ..trace import Stopped
from .p38 import Any, World
from .p39 import alike, own_entry
from .p40 import Model, judged

AT = 'pelicun.model.loss_model.LossModel.consequence_scaling'
DS = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
LF = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
HEAD = ['Decision Variable', 'Component', 'Location', 'Direction', 'Scale Factor']


def losses():
    ds = [(dv, 'con.' + c, c, s, loc, d, '0') for c in ('B.1', 'A.1') for s in ('2', '1') for loc in ('0', '1', '2', '3', '11') for d in ('1', '0', '2') for dv in ('Cost', 'Time')]
    lf = [(dv, c, c, loc, d, u) for dv in ('Time', 'Cost', 'Energy') for c in ('A.1', 'C.1') for loc in ('2', '0', '1') for d in ('0', '1') for u in ('0', '1')]
    return tuple(Frame(Ix([0, 1]), Ix(list(k), list(names)), [[1.0 + i + j / 8 for j in range(len(k))] for i in range(2)]) for k, names in ((ds, DS), (lf, LF)))


SPECS = {
    'decision variable': (HEAD[:1] + HEAD[4:], [['Cost', 2.0]]),
    'all decision variables': (HEAD[:1] + HEAD[4:], [['Time', 3.0], ['Energy', 0.5], ['Cost', 5.0]]),
    'component': (HEAD[:2] + HEAD[4:], [['Cost', 'A.1', 2.0], ['Time', 'C.1', 3.0], ['Time', NAN, 7.0]]),
    'places': (HEAD, [['Cost', 'A.1', '1', '2', 2.0], ['Time', 'A.1', '0', '0', 3.0], ['Time', NAN, '11', NAN, 5.0], ['Energy', 'C.1', NAN, '1', 7.0], ['Cost', 'B.1', '0', NAN, 1.5], ['Cost', NAN, NAN, '0', 0.25]]),
    'ranges': (HEAD, [['Cost', 'A.1', '1--3', '0--1', 2.0], ['Time', 'B.1', '2--11', NAN, 3.0], ['Time', NAN, NAN, '1--2', 5.0], ['Cost', NAN, '0--2', '2', 7.0], ['Energy', NAN, '1--1', NAN, 0.5]]),
    'repeated': (HEAD, [['Cost', 'A.1', '1', '1', 2.0], ['Cost', 'A.1', '1', '1', 2.0], ['Cost', NAN, '0--1', NAN, 2.0], ['Cost', NAN, '1--2', NAN, 2.0]]),
    'no match': (HEAD, [['Cost', 'X.9', NAN, NAN, 2.0], ['Energy', 'B.1', '1', NAN, 3.0], ['Time', 'A.1', '77', '1', 3.0], ['Cost', 'A.1', '2', NAN, 5.0]]),
    'zero': (HEAD[:3] + HEAD[4:], [['Cost', 'A.1', '1', 0.0], ['Time', NAN, '2', -1.0], ['Cost', NAN, '1', 1.0]]),
    'other order of columns': (['Scale Factor', 'Direction', 'Component', 'Decision Variable'], [[2.0, '1', 'A.1', 'Cost'], [4.0, NAN, 'C.1', 'Time'], [8.0, '0--2', NAN, 'Time']]),
    'location': (['Decision Variable', 'Location', 'Scale Factor'], [['Cost', '0--11', 3.0]]),
}
WRONG = {
    'no decision variable': (HEAD[1:], [['A.1', '1', '1', 2.0]]), 'no factor': (HEAD[:4], [['Cost', 'A.1', '1', '1']]),
    'missing decision variable': (HEAD, [['Cost', NAN, NAN, NAN, 2.0], [NAN, 'A.1', NAN, NAN, 2.0]]), 'missing factor': (HEAD, [['Cost', NAN, NAN, NAN, NAN], ['Cost', 'A.1', NAN, NAN, 2.0]]),
}


def spec(head, rows):
    return Frame(Ix(list(range(len(rows)))), Ix(list(head)), [list(r) for r in rows])


def members(v):
    if not isinstance(v, str):
        return None
    if '--' in v:
        a, b = v.split('--')
        return {str(x) for x in range(int(a), int(b) + 1)}
    return {v}


def factor_of(k, names, head, rows):
    at = dict(zip(names, k))
    f = 1.0
    for r in rows:
        d = dict(zip(head, r))
        sel = {'dv': d['Decision Variable'], 'dmg': d.get('Component', NAN), 'loc': d.get('Location', NAN), 'dir': d.get('Direction', NAN)}
        if all(isnan(v) or at[x] in (members(v) if x in ('loc', 'dir') else {v}) for x, v in sel.items()):
            f *= d['Scale Factor']
    return f


def trace(ctx, me, table, calls):
    def read(path, **kw):
        calls.append((path, kw.get('dtype')))
        return table
    w = World({'self': me, 'scaling_specification': 'specification.csv'}, {'read_csv': read})
    return FTrace(ctx.interp(AT, opaque=('Logger',), key='scaled', hooks={'index': own_entry}, self_cls='pelicun.model.loss_model.LossModel'), w).run()


def scaled(ctx, res, skipped):
    for what, (head, rows) in SPECS.items():
        for which in ('both', 'damage states', 'loss functions') if what in ('places', 'component') else ('both',):
            ds, lf = losses()
            given = dict(zip(('damage states', 'loss functions'), (ds, lf)))
            use = {k: v if which in ('both', k) else None for k, v in given.items()}
            calls = []
            me = Any(a__loss_models=tuple(Model(a_sample=v) for v in use.values()), a_ds_model=Model(a_sample=use['damage states']), a_lf_model=Model(a_sample=use['loss functions']))
            label = f'{what}{"" if which == "both" else ": only " + which}'
            tr = judged(skipped, res, 'scaled', label, AT, lambda: trace(ctx, me, spec(head, rows), calls))
            if tr is None:
                continue
            res.check('scaled', [c[0] for c in calls] == ['specification.csv'], f'{label}: specification', AT, f'{label}: {[c[0] for c in calls]} is read')
            fresh = losses()
            for m, old, names, model in zip(me.a__loss_models, fresh, (DS, LF), use):
                if use[model] is None:
                    res.check('scaled', m.a_sample is None, f'{label}: no {model}', AT, f'{label}: there are losses of {model}')
                    continue
                got = m.a_sample
                bad = []
                for j, k in enumerate(old.columns.vals):
                    f = factor_of(k, names, head, rows)
                    i = got.columns.vals.index(k) if k in got.columns.vals else None
                    if i is None or not alike([r[i] for r in got.rows], [r[j] * f for r in old.rows]):
                        bad.append((k, f))
                res.check('scaled', not bad and len(got.columns) == len(old.columns), f'{label}: losses of {model}', AT, f'{label}: {bad[:2]} are not multiplied by this factor')
    for what, (head, rows) in WRONG.items():
        ds, lf = losses()
        me = Any(a__loss_models=(Model(a_sample=ds), Model(a_sample=lf)), a_ds_model=Model(a_sample=ds), a_lf_model=Model(a_sample=lf))
        try:
            tr = trace(ctx, me, spec(head, rows), [])
            raised = tr.raised.name if tr.raised else None
        except Raised as exc:
            raised = exc.name
        except (Undecided, Stopped) as exc:
            skipped.append(f'{what}: {exc}')
            continue
        res.check('scaled', raised == 'ValueError', what, AT, f'{what}: {raised or "no exception"} is raised')
        fresh = losses()
        res.check('scaled', ds.rows == fresh[0].rows and lf.rows == fresh[1].rows, f'{what}: losses', AT, f'{what}: losses are scaled before the specification is rejected')


RULE = 'every loss is multiplied by the factors of exactly the rows whose conditions it meets'
