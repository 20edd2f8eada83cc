"""The public surface of the library, as resolved from the source."""

from __future__ import annotations

# Sub-models that only their owner (DamageModel / LossModel) drives; their
# arguments are produced by the owner, never by the user.
INTERNAL_CLASSES = {
    'DamageModel_Base', 'DamageModel_DS', 'RepairModel_Base', 'RepairModel_DS',
    'RepairModel_LF', 'LoggerRegistry', 'Logger',
}

# Documented in-place helpers: (function, parameter) -> reason.
IN_PLACE = {
    ('pelicun.base.update', 'd'): 'documented: "The dictionary to update."',
    ('pelicun.base.update_vals', 'update_value'): 'documented: dictionary to be updated',
    ('pelicun.base.multiply_factor_multiple_levels', 'df'): 'documented: modified in place',
}

# A keyword that makes in-place modification the caller's explicit choice.
IN_PLACE_FLAGS = {'inplace'}


def public_functions(repo):
    out = []
    for q, f in sorted(repo.funcs.items()):
        if f.parent is not None:
            continue
        if f.cls is not None:
            if f.cls.name in INTERNAL_CLASSES or f.cls.name.startswith('_'):
                continue
            if f.is_abstract:
                continue
            if f.name.startswith('_') and f.name != '__init__':
                continue
        elif f.name.startswith('_'):
            continue
        out.append(f)
    return out


def params(f):
    a = f.node.args
    ps = [*a.posonlyargs, *a.args, *a.kwonlyargs]
    if f.cls and f.parent is None and not f.is_static and ps:
        ps = ps[1:]
    return ps
