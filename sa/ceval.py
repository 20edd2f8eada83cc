"""Values of value-flow nodes for given values of their inputs."""

from __future__ import annotations

import os.path
import re

from . import vq
from .flow import cval, is_const, show

NO = object()


class Undecided(Exception):
    """The value cannot be determined from the given inputs."""


class Raised(Exception):
    """The evaluated expression raises an exception (of the type `name`)."""

    def __init__(self, what, name=None):
        super().__init__(what)
        self.name = name or str(what).split(':', 1)[0]


STR = (
    'replace title lower upper capitalize removeprefix removesuffix split strip casefold rsplit partition rpartition lstrip rstrip startswith '
    'endswith isdigit isnumeric isdecimal isalpha isalnum join find rfind count index format zfill splitlines swapcase encode'
).split()
DICT = 'get keys values items copy'.split()
SEQ = 'count index copy union intersection difference issubset issuperset isdisjoint'.split()
FUNCS = {
    'int': int, 'str': str, 'range': range, 'list': list, 'tuple': tuple, 'len': len, 'sorted': sorted, 'set': set, 'min': min, 'max': max,
    'any': any, 'all': all, 'zip': zip, 'enumerate': enumerate, 'float': float, 'bool': bool, 'dict': dict, 'abs': abs, 'sum': sum,
    'frozenset': frozenset, 'reversed': reversed, 'repr': repr, 'round': round,
}
TYPES = {'str': str, 'int': int, 'float': float, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'bool': bool}
BIN = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '%': lambda a, b: a % b, '/': lambda a, b: a / b,
    '//': lambda a, b: a // b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '**': lambda a, b: a**b,
}
CMP = {
    'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '>': lambda a, b: a > b,
    '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b, 'is': lambda a, b: a is b or a == b and isinstance(a, bool),
    'is not': lambda a, b: not (a is b or a == b and isinstance(a, bool)),
}


class Eval:
    """Evaluates nodes; `leaf(ev, node)` gives the values of the inputs (or NO)."""

    def __init__(self, ip, leaf, tries=None):
        self.ip, self.leaf, self.tries, self.env, self.busy = ip, leaf, tries or {}, {}, set()

    def ev(self, n):
        if n in self.env:
            return self.env[n]
        v = self.leaf(self, n)
        if v is not NO:
            return v
        if n in self.busy:
            raise Undecided(f'cycle {show(n, 2)}')
        self.busy.add(n)
        try:
            return self.node(n)
        except (Undecided, Raised):
            raise
        except RecursionError as exc:
            raise Undecided('recursion') from exc
        except Exception as exc:  # noqa: BLE001
            raise Raised(f'{type(exc).__name__}: {exc}', type(exc).__name__) from exc
        finally:
            self.busy.discard(n)

    def node(self, n):  # noqa: C901
        if is_const(n):
            return cval(n)
        op = n.op
        if op == 'snap':
            return self.ev(n.args[0])
        if op == 'ite':
            return self.ev(n.args[1 if self.truth(n.args[0]) else 2])
        if op in ('and', 'or'):
            r = None
            for x in n.args:
                r = self.ev(x)
                if bool(r) != (op == 'and'):
                    return r
            return r
        if op == 'not' or op == 'unop' and n.args[0] == 'not':
            return not self.ev(n.args[-1])
        if op == 'unop' and n.args[0] in ('-', '+', '~'):
            v = self.ev(n.args[1])
            return -v if n.args[0] == '-' else v if n.args[0] == '+' else ~v
        if op == 'cmp' and n.args[0] in CMP:
            return CMP[n.args[0]](self.ev(n.args[1]), self.ev(n.args[2]))
        if op == 'binop' and n.args[0] in BIN:
            return BIN[n.args[0]](self.ev(n.args[1]), self.ev(n.args[2]))
        if op == 'fstr':
            return ''.join(x if isinstance(x, str) else str(self.ev(x)) for x in n.args)
        if op in ('list', 'tuple', 'set'):
            out = self.items(n.args)
            for kind, v, gs in self.ip.appends.get(n, ()):
                if any(k == 'loop' for _g, _p, k in gs):
                    raise Undecided('list built in a loop')
                if self.holds(gs):
                    if kind == 'extend':
                        out.extend(self.ev(v))
                    else:
                        out.append(self.ev(v))
            return {'list': list, 'tuple': tuple, 'set': set}[op](out)
        if op == 'dict':
            return self.dictionary(n)
        if op == 'comp':
            out = []
            self.comp(n.args[2], n.args[3], lambda: out.append(self.ev(n.args[1])))
            return set(out) if n.args[0] == 'set' else out
        if op == 'dcomp':
            d = {}
            self.comp(n.args[2], n.args[3], lambda: d.__setitem__(self.ev(n.args[0]), self.ev(n.args[1])))
            return d
        if op == 'index':
            b, k = self.ev(n.args[0]), n.args[1]
            if k.op == 'slice':
                return b[slice(*[self.ev(x) for x in k.args])]
            return b[self.ev(k)]
        if op == 'phi' and len(n.args) == 1:
            return self.ev(n.args[0])
        if op == 'try':
            return self.tries.get(n, True)
        if op == 'call':
            return self.call(n)
        if op == 'glob':
            m, expr = self.ip.glob_expr(n)
            if expr is None:
                raise Undecided(show(n, 3))
            self.env[n] = v = self.ev(self.ip.eval_static(m, expr))
            return v
        if op == 'ext' and re.fullmatch(r're\.[A-Z]+', n.args[0]):
            return getattr(re, n.args[0][3:])
        raise Undecided(show(n, 3))

    def items(self, nodes):
        out = []
        for x in nodes:
            if x.op == 'star':
                out.extend(self.ev(x.args[0]))
            else:
                out.append(self.ev(x))
        return out

    def truth(self, g):
        if g.op == 'try':
            return self.tries.get(g, True)
        return bool(self.ev(g))

    def holds(self, guards):
        for g, p, k in guards:
            if k == 'loop':
                continue
            if k == 'try' or g.op == 'try':
                if self.tries.get(g, True) != p:
                    return False
            elif bool(self.ev(g)) != p:
                return False
        return True

    def dictionary(self, n):
        d = {}
        for k, v in n.args:
            if k is None or getattr(k, 'op', None) == 'star':
                d.update(self.ev(v))
            else:
                d[self.ev(k)] = self.ev(v)
        for k, v, gs in self.ip.stores.get(n, ()):
            if self.holds(gs):
                d[self.ev(k)] = self.ev(v)
        return d

    def comp(self, its, conds, emit):
        def rec(i, acc):
            if i == len(its):
                if all(self.ev(c) for c in conds):
                    self.acc = acc
                    emit()
                return
            for _x, binds in self.members(its[i]):
                old = {k: self.env.get(k, NO) for k in binds}
                self.env.update(binds)
                rec(i + 1, {**acc, **binds})
                self.restore(old)

        rec(0, {})

    def restore(self, old):
        for k, v in old.items():
            if v is NO:
                self.env.pop(k, None)
            else:
                self.env[k] = v

    def sort_key(self, n, f):
        raise Undecided(show(n, 3))

    def members(self, n):
        """Members of a collection with the values they give to nodes."""
        if n.op == 'comp' and n not in self.ip.appends:
            out = []

            def emit():
                acc = self.acc
                x = self.ev(n.args[1])
                if n.args[0] != 'set' or all(x != y for y, _b in out):
                    out.append((x, acc))

            self.comp(n.args[2], n.args[3], emit)
        elif vq.xcall(n, 'list', 'tuple', 'iter', 'sorted', 'reversed', 'tqdm') and n.args[1]:
            out = self.members(n.args[1][0])
            if vq.bname(n) == 'sorted':
                kw = dict(n.args[2])
                f = self.sort_key(n, kw['key']) if 'key' in kw else lambda x: x
                out = sorted(out, key=lambda x: f(x[0]), reverse=bool('reverse' in kw and self.ev(kw['reverse'])))
            if vq.bname(n) == 'reversed':
                out = out[::-1]
        else:
            out = [(x, {}) for x in self.ev(n)]
        var = self.ip.N('elem', n)
        return [(x, {**b, var: x}) for x, b in out]

    def call(self, n):  # noqa: C901
        nm = vq.bname(n)
        args, kws = n.args[1], n.args[2]
        if vq.xcall(n, nm or ''):
            full = vq.callee(n)[1]
            if nm == 'isinstance' and len(args) == 2:
                t = args[1]
                names = [x.args[0].rsplit('.', 1)[-1] for x in (t.args if t.op == 'tuple' else (t,)) if x.op in ('ext', 'fn')]
                if names and all(x in TYPES for x in names):
                    return isinstance(self.ev(args[0]), tuple(TYPES[x] for x in names))
                raise Undecided(show(n, 3))
            if nm == 'next' and full in ('next', 'builtins.next') and args and args[0].op == 'comp':
                got = self.ev(args[0])
                if not got and len(args) == 1:
                    raise Raised('StopIteration', 'StopIteration')
                return got[0] if got else self.ev(args[1])
            if nm == 'map' and len(args) == 2 and args[0].op == 'ext':
                f = FUNCS.get(args[0].args[0].rsplit('.', 1)[-1])
                if f is not None:
                    return [f(x) for x in self.ev(args[1])]
            if full.startswith('re.') and nm in ('fullmatch', 'match', 'search', 'split', 'findall', 'sub'):
                return getattr(re, nm)(*[self.ev(x) for x in args])
            if full.startswith(('os.path.', 'posixpath.')) and nm in ('isabs', 'normpath', 'join', 'basename', 'dirname', 'splitext', 'commonpath', 'split'):
                return getattr(os.path, nm)(*[self.ev(x) for x in args])
            if nm in FUNCS and (full == nm or full == 'builtins.' + nm):
                kw = {k: self.ev(v) for k, v in kws}
                return FUNCS[nm](*[self.ev(x) for x in args], **kw)
        r = vq.recv(n)
        if r is not None and (nm in STR or nm in DICT or nm in SEQ):
            v = self.ev(r)
            if isinstance(v, str) and nm in STR or isinstance(v, dict) and nm in DICT or isinstance(v, (list, tuple, set, frozenset)) and nm in SEQ:
                return getattr(v, nm)(*[self.ev(x) for x in args])
            if v is None or isinstance(v, (str, dict, list, tuple, int, float)):
                raise AttributeError(nm)
        if isinstance(r, object) and r is not None and nm in ('group', 'groups', 'start', 'end'):
            return getattr(self.ev(r), nm)(*[self.ev(x) for x in args])
        raise Undecided(show(n, 3))
