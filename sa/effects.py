"""Rooted effects of public entries, shared by several checks."""

from __future__ import annotations

from . import alias, api
from .flow import cval


def rooted(ctx, ip):
    """[(mutation, root, path)] for every effect with a known origin."""
    c = getattr(ip, '_rooted', None)
    if c is None:
        c = []
        for m in alias.mutations(ip):
            for root, path in alias.roots(ip, m.target, m.level):
                c.append((m, root, path))
        ip._rooted = c
    return c


def attr_of(m):
    """Name of the attribute written by an attribute store, else None."""
    if m.event.kind in ('store_attr', 'del_attr'):
        return m.how.rsplit('.', 1)[-1]
    return None


def self_effects(ctx, ip):
    """Effects on the receiver: [(path incl. written attribute, mutation)]."""
    out = []
    for m, root, path in rooted(ctx, ip):
        if root.op == 'param' and root.args[1] == 'self':
            a = attr_of(m)
            out.append(((*path, '.' + a) if a else path, m))
    return out


def attr_stores(ip):
    """Attribute stores on library objects: [(class, attr, event)]."""
    out = []
    for e in ip.events:
        if e.kind == 'store_attr' and e.value is not None and not e.aug:
            cls = ip.type_cls(e.target)
            if cls is not None:
                out.append((cls, cval(e.node), e))
    return out


def is_property(f):
    return any(
        (getattr(d, 'id', None) == 'property') or (getattr(d, 'attr', None) in ('getter', 'cached_property'))
        for d in f.node.decorator_list
    )


def public_runs(ctx):
    return [(f, ctx.interp(f.qual)) for f in api.public_functions(ctx.repo)]
