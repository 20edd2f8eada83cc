"""P04: reading, saving and aggregating leave the models unchanged."""

from __future__ import annotations

from .. import alias, api, effects
from ..flow import show

EXPLANATION = (
    'Frame analysis: for every read-only public entry (property getters, save_*, '
    'aggregate_*, list_*, get_*, unit lookups) no effect may be rooted at the receiver; '
    'for every stage model no effect may reach another stage through the assessment '
    'object, neither directly nor through a reference kept in an attribute; '
    'calculation entries may not change the parameter tables they are driven by.'
)

READ_PREFIX = ('save_', 'list_', 'get_', 'aggregate_', 'estimate_')
READ_NAMES = {'calc_unit_scale_factor', 'scale_factor', 'query_error_setup', 'load_consequence_info', 'probabilities', 'cdf', 'inverse_transform'}
READ_EXCEPT = {'estimate_RID_and_adjust_sample'}

CALC = {'generate_sample', 'generate_cmp_sample', 'calculate', 'consequence_scaling'}
PARAMS = {
    '.marginal_params', '.correlation', '.empirical_data', '.cmp_marginal_params', '.cmp_units',
    '.damage_params', '.loss_params', '.loss_map', '._loss_map', '.missing', '.missing_components',
    '.decision_variables',
}


def read_only(f):
    if f.name in READ_EXCEPT or f.name == '__init__':
        return False
    if f.cls is None:
        return False
    return effects.is_property(f) or f.name.startswith(READ_PREFIX) or f.name in READ_NAMES


def stage_functions(ctx):
    base = ctx.repo.cls('pelicun.model.pelicun_model.PelicunModel')
    out = []
    for k in [base, *base.all_subclasses()]:
        for f in k.methods.values():
            if not f.is_abstract:
                out.append(f)
    return out


def run(ctx, res):
    res.rule('read-only', 'a read-only entry has no effect on its receiver', 30)
    res.rule('stage', 'a stage has no effect on another stage or on the assessment', 60)
    res.rule('alias', 'data another stage owns is not modified through a kept reference', 0)
    res.rule('params', 'calculations do not change the parameter tables they use', 5)
    for f, ip in effects.public_runs(ctx):
        if not read_only(f):
            continue
        eff = effects.self_effects(ctx, ip)
        if not eff:
            res.ok('read-only', f.qual)
        for path, m in eff:
            res.bad(
                'read-only', f'{f.qual}:{m.event.func.qual}:{"".join(path)}', m.event.where(),
                f'{m.how} changes self{"".join(path)} although {f.qual} only reads',
            )
    foreign = {}
    runs = []
    for f in stage_functions(ctx):
        ip = ctx.interp(f.qual)
        eff = effects.self_effects(ctx, ip)
        runs.append((f, ip, eff))
        bad = [(p, m) for p, m in eff if '._asmnt' in p[:-1] or (p and p[-1] == '._asmnt' and f.name != '__init__')]
        if not bad:
            res.ok('stage', f.qual)
        for p, m in bad:
            res.bad(
                'stage', f'{m.event.func.qual}:{"".join(p)}', m.event.where(),
                f'{m.how} changes self{"".join(p)}, which belongs to another stage (from {f.qual})',
            )
        for cls, attr, e in effects.attr_stores(ip):
            for root, path in alias.roots(ip, e.value, 'storage'):
                if root.op == 'param' and '._asmnt' in path and attr not in ('log', '_asmnt'):
                    foreign.setdefault((cls.qual, attr), (f, e, path))
    for key, (f, e, path) in sorted(foreign.items()):
        hit = None
        for _g, _ip, eff in runs:
            for p, m in eff:
                if '.' + key[1] in p and (m.event.kind != 'store_attr' or p[-1] != '.' + key[1]):
                    hit = (p, m)
        if hit is None:
            res.ok('alias', f'{key}')
        else:
            p, m = hit
            res.bad(
                'alias', f'{key[0]}.{key[1]}:{m.event.func.qual}', m.event.where(),
                f'{m.how} on self{"".join(p)}, which shares storage with self{"".join(path)} '
                f'since {e.where()}',
            )
    for f, ip in effects.public_runs(ctx):
        if f.cls is None or f.name not in CALC or 'model' not in f.module.name:
            continue
        bad = [(p, m) for p, m in effects.self_effects(ctx, ip) if PARAMS & set(p)]
        if not bad:
            res.ok('params', f.qual)
        for p, m in bad:
            res.bad(
                'params', f'{f.qual}:{m.event.func.qual}:{"".join(p)}', m.event.where(),
                f'{m.how} changes the parameters self{"".join(p)} during a calculation',
            )
