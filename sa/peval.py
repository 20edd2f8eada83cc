"""Partial evaluation of a value node under an assignment of constants to some nodes."""

from __future__ import annotations

import re

from .flow import callee, cval, is_const


class Unknown(Exception):
    """The value depends on something not assigned."""


STR_METHODS = {
    'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'isdigit', 'isnumeric',
    'isalpha', 'find', 'count', 'title', 'removeprefix', 'removesuffix', 'partition', 'capitalize', 'rsplit',
}
CMP = {
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
    '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b,
    'is': lambda a, b: a is b, 'is not': lambda a, b: a is not b,
}
BIN = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
    '//': lambda a, b: a // b, '%': lambda a, b: a % b, '**': lambda a, b: a**b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
}


def peval(n, env):
    """Value of ``n``; raises Unknown when it cannot be determined."""
    if n in env:
        return env[n]
    o, a = n.op, n.args
    if o == 'const':
        return cval(n)
    if o == 'ext' and a[0] in ('builtins.float', 'builtins.int', 'builtins.str', 'builtins.bool'):
        return {'float': float, 'int': int, 'str': str, 'bool': bool}[a[0][9:]]
    if o in ('list', 'tuple'):
        return tuple(peval(x, env) for x in a) if o == 'tuple' else [peval(x, env) for x in a]
    if o == 'set':
        return {peval(x, env) for x in a}
    if o == 'not':
        return not peval(a[0], env)
    if o in ('and', 'or'):
        try:
            x = peval(a[0], env)
        except Unknown:
            y = peval(a[1], env)
            if (o == 'and') != bool(y):
                return y
            raise
        if (o == 'and') != bool(x):
            return x
        return peval(a[1], env)
    if o == 'ite':
        return peval(a[1], env) if peval(a[0], env) else peval(a[2], env)
    try:
        if o == 'cmp' and a[0] in CMP:
            return CMP[a[0]](peval(a[1], env), peval(a[2], env))
        if o == 'binop' and a[0] in BIN:
            return BIN[a[0]](peval(a[1], env), peval(a[2], env))
        if o == 'unop':
            v = peval(a[1], env)
            return -v if a[0] == '-' else v
        if o == 'index':
            if a[1].op == 'slice':
                return peval(a[0], env)[slice(*(peval(x, env) for x in a[1].args))]
            return peval(a[0], env)[peval(a[1], env)]
        if o == 'call':
            kind, nm = callee(n)
            if kind == 'method' and nm in STR_METHODS and not a[2]:
                r = peval(a[0].args[0], env)
                if isinstance(r, str):
                    return getattr(r, nm)(*(peval(x, env) for x in a[1]))
            if kind == 'ext' and not a[2]:
                b = nm.rsplit('.', 1)[-1]
                if nm.startswith('builtins.') and b in ('int', 'str', 'len', 'float', 'bool', 'abs', 'min', 'max'):
                    return {'int': int, 'str': str, 'len': len, 'float': float, 'bool': bool, 'abs': abs,
                            'min': min, 'max': max}[b](*(peval(x, env) for x in a[1]))
                if nm in ('re.match', 're.search', 're.fullmatch') and len(a[1]) == 2:
                    return getattr(re, b)(peval(a[1][0], env), peval(a[1][1], env))
    except Unknown:
        raise
    except Exception as exc:  # noqa: BLE001
        raise Unknown from exc
    raise Unknown


def guard_value(g, env):
    """True / False / None (unknown) for a guard condition."""
    try:
        return bool(peval(g, env))
    except Unknown:
        return None


_ = is_const
