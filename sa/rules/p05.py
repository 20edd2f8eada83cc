"""P05: an option value outside its vocabulary is rejected, never replaced by a default."""

from __future__ import annotations

from ..flow import show, walk

EXPLANATION = (
    'Exhaustiveness analysis: each option is bound to an abstract value that is unequal to '
    'every string the source compares it with and absent from every literal table; the '
    'entry is then walked (repository calls inlined) and must reach a raise that no '
    'condition unrelated to the option can bypass.'
)


def scalar(p):
    return lambda ip: {p: ip.N('other', p)}


def listed(p):
    return lambda ip: {p: ip.N('list', ip.N('other', p), site='option')}


# entry -> how the option is bound
OPTIONS = [
    ('pelicun.uq.RandomVariableRegistry.generate_sample', 'method', scalar),
    ('pelicun.uq.fit_distribution_to_sample', 'distribution', scalar),
    ('pelicun.uq.fit_distribution_to_sample', 'distribution', listed),
    ('pelicun.uq.fit_distribution_to_percentiles', 'families', listed),
    ('pelicun.uq.scale_distribution', 'family', scalar),
    ('pelicun.uq.rv_class_map', 'distribution_name', scalar),
    ('pelicun.model.demand_model.DemandModel.estimate_RID', 'method', scalar),
    ('pelicun.model.demand_model.DemandModel.estimate_RID_and_adjust_sample', 'method', scalar),
    ('pelicun.model.loss_model.LossModel.add_loss_map', 'loss_map_policy', scalar),
    ('pelicun.assessment.AssessmentBase.scale_factor', 'unit', scalar),
    ('pelicun.assessment.AssessmentBase.calc_unit_scale_factor', 'unit', scalar),
    ('pelicun.base.convert_to_SimpleIndex', 'axis', scalar),
    ('pelicun.base.convert_to_MultiIndex', 'axis', scalar),
    ('pelicun.tools.NNR.NNR', 'weight', scalar),
    ('pelicun.assessment.DLCalculationAssessment.calculate_damage', 'damage_process_approach', scalar),
    ('pelicun.assessment.DLCalculationAssessment.calculate_loss', 'loss_map_approach', scalar),
    ('pelicun.uq._get_limit_probs', 'distribution', scalar),
    ('pelicun.model.pelicun_model.PelicunModel._get_locations', 'loc_str', scalar),
    ('pelicun.model.pelicun_model.PelicunModel._get_directions', 'dir_str', scalar),
]
PRIVATE_OK_MISSING = '._'


def option_guard(g):
    return any(x.op in ('other', 'otherattr') for x in walk(g))


def rejects(ip):
    if ip.ret.op == 'never':
        return next((e for e in reversed(ip.events) if e.kind == 'raise'), True)
    for e in ip.events:
        if e.kind != 'raise':
            continue
        if e.node is not None and show(e.node).startswith('builtins.StopIteration'):
            continue
        ok = True
        for g, _p, k in e.guards:
            if k in ('br',) and not option_guard(g):
                ok = False
                break
        if ok and mentions(ip, e):
            return e
    return None


def mentions(ip, e):
    """The raise depends on the option: a guard or the message mentions it."""
    if any(k in ('br', 'try', 'noraise') and option_guard(g) for g, _p, k in e.guards):
        return True
    if e.node is not None and option_guard(e.node):
        return True
    return bool(e.guards) and e.guards[-1][2] == 'try' and e.guards[-1][1] is False


def run(ctx, res):
    res.rule('closed', 'an unknown option value ends in an exception', 10)
    for q, p, bind in OPTIONS:
        f = ctx.repo.funcs.get(q)
        if f is None and '._' in q:
            continue
        f = f or ctx.repo.func(q)
        names = [a.arg for a in (*f.node.args.posonlyargs, *f.node.args.args, *f.node.args.kwonlyargs)]
        if p not in names:
            from ..repo import AnalysisError

            raise AnalysisError(f'{q} has no parameter {p}')
        ip = ctx.interp(q, args=bind(p), key=('opt', p, bind.__name__))
        e = rejects(ip)
        where = f'{f.module.relpath}:{f.node.lineno}'
        res.check(
            'closed', e is not None, f'{q}:{p}', where,
            f'`{p}` may be any other value and the call still returns a result',
        )
