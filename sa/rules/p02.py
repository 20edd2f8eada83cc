"""P02: data passed in by the caller is never modified."""

from __future__ import annotations

from .. import alias, api
from ..flow import show

EXPLANATION = (
    'Mutation/alias analysis of every public entry point: all stores, in-place '
    'operators and mutating calls reachable from the entry (repository calls '
    'inlined) are traced back through references and views to their origin; an '
    'origin that is a caller-supplied data parameter is a violation. Caller data '
    'retained in an attribute is followed into the methods that later modify it.'
)


def attr_owner(ip, root, path):
    """(class name, attr) pairs met along an attribute path from a typed root."""
    cls = ip.type_cls(root)
    out = []
    for st in path:
        if cls is None or not st.startswith('.'):
            break
        out.append((cls, st[1:]))
        t = ip.attr_type(cls, st[1:])
        cls = t[1] if t and t[0] in ('exact', 'decl') else None
    return out


def data_param(ip, n):
    if n.op != 'param' or n.args[1] in ('self', 'cls'):
        return False
    return not alias.immutable_type(ip, n) and ip.type_cls(n) is None


def flag_guarded(e):
    return any(
        p and g.op == 'param' and g.args[1] in api.IN_PLACE_FLAGS for g, p, _ in e.guards
    )


# ways to add or replace an entry
HOW = {'.setdefault()': 'item assignment', '.update()': 'item assignment'}


def run(ctx, res):
    repo = ctx.repo
    res.rule('direct', 'no data parameter of a public entry is mutated', 150)
    res.rule('retained', 'caller data kept in an attribute is not mutated later', 1)
    funcs = api.public_functions(repo)
    retained = {}
    runs = []
    nmut = 0
    for f in funcs:
        ip = ctx.interp(f.qual)
        muts = alias.mutations(ip)
        nmut += len(muts)
        runs.append((f, ip, muts))
        dp = [p.arg for p in api.params(f)]
        hits = {}
        for m in muts:
            if ip.type_cls(m.target) is not None:
                continue  # objects of the library have their own protocol
            if m.event.kind in ('store_attr', 'del_attr') and attr_name(m) not in alias.DATA_ATTRS:
                continue
            for root, path in alias.roots(ip, m.target, m.level):
                if not data_param(ip, root):
                    continue
                if any(s.startswith('.') and s[1:] not in ('index', 'columns') for s in path):
                    # attribute of a library object inside a container
                    continue
                if (f.qual, root.args[1]) in api.IN_PLACE or flag_guarded(m.event):
                    continue
                if m.how.startswith('in-place') and nonnegative_scalar(m):
                    continue
                hits.setdefault(root.args[1], []).append(m)
        for p in dp:
            if p in hits:
                m = hits[p][0]
                res.bad(
                    'direct',
                    f'{f.qual}:{p}:{HOW.get(m.how, m.how)}',
                    m.event.where(),
                    f'{m.how} on {show(m.target, 3)} modifies parameter `{p}` of public '
                    f'entry {f.qual}',
                )
            else:
                res.ok('direct', f'{f.qual}({p})')
        for e in ip.events:
            if e.kind != 'store_attr' or e.value is None or e.aug:
                continue
            cls = ip.type_cls(e.target)
            if cls is None:
                continue
            for root, path in alias.roots(ip, e.value, 'storage'):
                if data_param(ip, root) and not any(s.startswith('.') for s in path):
                    from ..flow import cval

                    for k in [cls]:
                        retained.setdefault((k.qual, cval(e.node)), (f.qual, root.args[1], e))
    hits = {}
    for f, ip, muts in runs:
        for m in muts:
            for root, path in alias.roots(ip, m.target, m.level):
                owners = attr_owner(ip, root, path)
                for i, (cls, attr) in enumerate(owners):
                    rest = path[i + 1 :]
                    if any(s.startswith('.') and s[1:] not in ('index', 'columns') for s in rest):
                        continue
                    for k in [cls, *cls.mro(), *cls.all_subclasses()]:
                        r = retained.get((k.qual, attr))
                        if r:
                            hits[k.qual, attr] = (m, r)
    for key, (fq, p, e) in sorted(retained.items()):
        if key in hits:
            m, r = hits[key]
            res.bad(
                'retained',
                f'{key[0]}.{key[1]}:{m.event.func.qual}:{m.how}',
                m.event.where(),
                f'{m.how} on {show(m.target, 3)} modifies data that {fq} retained from its '
                f'parameter `{p}` ({e.where()})',
            )
        else:
            res.ok('retained', f'{key[0]}.{key[1]} from {fq}({p})')
    res.analysed['public_entries'] = len(funcs)
    res.analysed['mutation_events'] = nmut


def attr_name(m):
    return m.how.rsplit('.', 1)[-1]


def nonnegative_scalar(m):
    """`x += 1`-style counters are not in-place data updates."""
    v = m.event.value
    return v is not None and v.op == 'const' and m.event.aug in ('+', '-') and m.target.op == 'mu'
