"""Effect traces: the events of a function in the order they happen for given inputs.

The events collected by the value-flow analysis are followed in order; branches are decided from the inputs, loops are repeated for every
member of what they go through, and effects are reported to a model of the outside world. Nothing of the analysed program is run.
"""

from __future__ import annotations

import ast
import builtins

from . import vq
from .ceval import NO, Eval, Raised, Undecided
from .flow import is_const, show

MUTATE = ('append', 'extend', 'add', 'update', 'pop', 'setdefault', 'clear', 'remove', 'discard', 'insert', 'popitem')


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def same_loop(a, b):
    """Whether two keys are those of copies of one loop that is written out."""
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 4 and a[0] == b[0] == 'u' and a[:3] == b[:3]


class Stopped(Exception):
    """The model ends the trace (a fault at this point)."""


class Trace(Eval):
    def __init__(self, ip, leaf, effect, tries=None, strict=False):
        super().__init__(ip, leaf, tries)
        self.effect, self.heap, self.result, self.raised = effect, {}, None, None
        self.alive, self.bound, self.added, self.caught, self.handling, self.strict = [], [], {}, {}, None, strict
        self.tries, self.left, self.mus = dict(self.tries), {}, None
        self.eager, self.making, self.jumped, self.arranged = {}, {}, None, {}

    # -- objects ------------------------------------------------------------------
    def node(self, n):
        if n.op in ('comp', 'dcomp') and n in self.heap:
            return self.heap[n]
        if n in self.eager:
            vs = [x for x, _b in self.eager[n]]
            return dict(vs) if n.op == 'dcomp' else set(vs) if n.args[0] == 'set' else list(vs)
        if n.op in ('dict', 'list', 'set'):
            if n not in self.heap:
                if n.op == 'dict':
                    d = {}
                    for k, v in n.args:
                        if k.op == 'dstar':
                            d.update(self.ev(v))
                        else:
                            d[self.ev(k)] = self.ev(v)
                    self.heap[n] = d
                else:
                    self.heap[n] = (list if n.op == 'list' else set)(self.items(n.args))
            return self.heap[n]
        if n.op == 'ite' and n.args[0].op == 'try' and self.strict and self.tries.get(n.args[0], True):
            try:
                return self.ev(n.args[1])
            except Raised as exc:
                k = n.args[0]
                hs = [h.strip() for e in self.ip.events if e.kind == 'handler' and e.guards and e.guards[-1][0] is k for h in str(e.value).strip('()').split(',')]
                if not any(catches(h, exc.name) for h in hs):
                    raise
                self.tries[k], self.caught[k] = False, exc.name
                return self.ev(n.args[2])
        if n.op == 'elem' and self.left.get(n) is not None:
            return self.left[n][n]
        if n.op == 'phi' and n.args[0].op in ('index', 'attr'):
            x = n.args[0]
            while x.op in ('index', 'attr'):
                x = x.args[0]
            if x.op == 'unbound' and x in self.env:
                return self.ev(n.args[0])
        if n.op == 'phi' and len(n.args) == 2:
            v = self.found(n)
            if v is not NO:
                return v
        return super().node(n)

    def found(self, n):
        """The value a search has found: a name that a loop sets where it is left."""
        got = [[k for k in vq.walk(a) if k in self.left] for a in n.args]
        if bool(got[0]) == bool(got[1]):
            return NO
        i = 0 if got[0] else 1
        if len(set(got[i])) != 1:
            return NO
        binds = self.left[got[i][0]]
        if binds is None:
            return self.ev(n.args[1 - i])
        old = {k: self.env.get(k, NO) for k in binds}
        self.env.update(binds)
        try:
            return self.ev(n.args[i])
        finally:
            self.restore(old)

    # -- execution ----------------------------------------------------------------
    def run(self):
        self.exec(self.ip.events, 0)
        return self

    def holds(self, guards):
        for g, p, k in guards:
            if k == 'loop' or k in ('noret', 'noraise') and self.strict:
                # a return that is reached ends the trace: behind it, its condition does not hold
                continue
            if (self.tries.get(g, True) if k == 'try' or g.op == 'try' else bool(self.ev(g))) != p:
                return False
        return True

    def exec(self, events, depth):
        i, cut, skip = 0, None, None
        while i < len(events):
            e = events[i]
            if self.strict and any(g.op == 'callback' for g, _p, _k in e.guards):
                # a function that is passed is evaluated where it is applied
                i += 1
                continue
            if cut is not None:
                if e.fkeys[: len(cut)] == cut:
                    i += 1
                    continue
                cut = None
            if skip is not None:
                if any(g is skip and not p for g, p, _k in e.guards) and not (e.kind == 'handler' and e.guards[-1][0] is skip):
                    i += 1
                    continue
                skip = None
            if len(e.loops) > depth:
                lp = e.loops[depth]
                j = i
                while j < len(events) and len(events[j].loops) > depth and events[j].loops[depth].key == lp.key:
                    j += 1
                s = self.loop(lp, events[i:j], depth) if self.reached(lp, e) else None
                if s == 'break':
                    # the copies of the loop that are left
                    while j < len(events) and len(events[j].loops) > depth and same_loop(events[j].loops[depth].key, lp.key):
                        j += 1
                if s in ('return', 'raise'):
                    return s
                if isinstance(s, tuple):
                    if depth and e.loops[depth - 1].depth >= len(s):
                        return s
                    cut = s
                i = j
                continue
            i += 1
            if e.kind == 'tick':
                continue
            if e.kind == 'jump':
                if self.holds(e.guards):
                    self.jumped = e.seq
                    return e.value
                continue
            try:
                if not self.holds(e.guards):
                    continue
            except Raised as exc:
                if self.throw(e, exc.name):
                    continue
                return 'raise'
            if e.kind == 'return':
                self.result = e.node
                return 'return'
            if e.kind == 'handler':
                k = e.guards[-1][0] if e.guards else None
                name = self.caught.get(k)
                if name is not None and not any(catches(h.strip(), name) for h in str(e.value).strip('()').split(',')):
                    skip = k
                elif name is not None:
                    self.handling = name
                continue
            if e.kind == 'raise':
                name = exception_name(e.node) or self.handling
                if self.throw(e, name):
                    continue
                return 'raise'
            if e.kind == 'ireturn':
                if depth and e.loops[depth - 1].depth >= len(e.fkeys):
                    return e.fkeys
                cut = e.fkeys
                continue
            try:
                self.event(e)
            except Raised as exc:
                if not self.throw(e, exc.name):
                    return 'raise'
        return None

    def throw(self, e, name):
        """Whether an exception is handled; the handler is selected."""
        for k, hs, _s in reversed(e.trys):
            got = [catches(h, name) for h in hs]
            if any(got):
                self.tries[k], self.caught[k] = False, name
                return True
        self.raised = Exn(name, e)
        return False

    def reached(self, lp, e):
        """Whether a loop is reached: the conditions around it hold."""
        if lp.iter is None:
            return True
        gs = []
        for g, p, k in e.guards:
            if k == 'loop' and g.op == 'iter' and g.args and g.args[0] is lp.iter:
                return self.holds(gs)
            gs.append((g, p, k))
        return True

    def loop(self, lp, events, depth):
        if lp.iter is None:
            if isinstance(lp.key, tuple) and lp.key and lp.key[0] == 'u':
                s = self.exec(events, depth + 1)
                return s if s not in ('continue',) else None
            s = self.exec(events, depth + 1)
            return s if s not in ('continue', 'break') else None
        made = None
        if isinstance(lp.node, COMPS) and lp.key in self.ip.comp_nodes and (
            any(not isinstance(x.node, COMPS) for e in events for x in e.loops[depth + 1:]) or self.acts(events)
        ):
            level = sum(1 for x in events[0].loops[:depth] if x.key == lp.key)
            if level == 0:
                self.eager.pop(self.ip.comp_nodes[lp.key], None)
                self.making[lp.key] = []
            made = self.ip.comp_nodes[lp.key] if level == len(self.ip.comp_nodes[lp.key].args[2]) - 1 else None
        tries, caught = self.tries, self.caught
        found, keys, s = None, (), None
        mus, late = self.carried(lp), self.ip.after_loop.get(lp.key, {})
        self.carry({**{m: m.args[1] for m in mus}, **{u: u for u in late}})
        for _b, n in late.values():
            self.env.pop(n, None)
        for _x, binds in self.members(lp.iter):
            self.env.update(binds)
            keys = tuple(binds)
            self.bound.append(binds)
            self.tries, self.caught = dict(tries), dict(caught)
            self.fresh(lp)
            for n in [n for n in self.heap if n.site and within(n.site, lp)]:
                del self.heap[n]
            s = self.exec(events, depth + 1)
            if made is not None and s is None and all(self.ev(c) for c in made.args[3]):
                acc = {}
                for b in self.bound:
                    acc.update(b)
                try:
                    x = self.ev(made.args[1]) if made.op == 'comp' else (self.ev(made.args[0]), self.ev(made.args[1]))
                except Undecided:
                    self.making.pop(lp.key)
                    made = None
                else:
                    self.making[lp.key].append((x, acc))
            if s in (None, 'continue', 'break'):
                at = lp.ends.get(None if s is None else self.jumped, {})
                new = {**{m: at.get(m.args[0]) or self.ip.mu_back[m] for m in mus}, **{u: at.get(u.args[0]) or b for u, (b, _n) in late.items()}}
                if s != 'break':
                    try:
                        self.carry(new, eager=events[0].kind == 'tick' and self.strict)
                    except Raised as exc:
                        self.bound.pop()
                        self.unbind(binds)
                        return None if self.throw(events[0], exc.name) else 'raise'
                else:
                    self.leave(lp, {m.args[0]: new[m] for m in mus})
            self.bound.pop()
            self.unbind(binds)
            if s == 'break':
                found = dict(binds)
                break
            if s == 'continue' or s is None:
                continue
            return s
        if lp.key in self.making and made is not None or isinstance(lp.node, COMPS) and lp.key in self.making and not any(x.key == lp.key for x in events[0].loops[:depth]):
            self.eager[self.ip.comp_nodes[lp.key]] = self.making[lp.key]
        if s != 'break' and not getattr(lp.node, 'orelse', None):
            self.leave(lp, {m.args[0]: m for m in mus})
        for u, (_b, n) in late.items():
            if u in self.env:
                if found is None:
                    self.env[n] = self.env[u]
                else:
                    del self.env[u]
        for f, (b, (_kind, name)) in lp.fields.items():
            if f.op in ('phi', 'ite'):
                self.env.pop(f, None)
                v = self.field(b, name)
                if v is not NO:
                    self.env[f] = v
        if searches(lp.node):
            for k in {self.ip.N('elem', lp.iter), *keys}:
                if k.op == 'elem':
                    self.left[k] = found
        return None

    def unbind(self, binds):
        """What a round of a loop binds has the value of the loops around it again."""
        for k in binds:
            self.env.pop(k, None)
            for outer in self.bound:
                if k in outer:
                    self.env[k] = outer[k]

    def leave(self, lp, values):
        """Names get the values that they have when a loop is left."""
        for nm, n in values.items():
            f = lp.finals.get(nm)
            if f is None or f.op != 'phi':
                continue
            self.env.pop(f, None)
            try:
                self.env[f] = self.ev(n)
            except (Undecided, Raised):
                pass

    def field(self, base, name):
        """Value of a field of an object after a loop."""
        return NO

    def acts(self, events):
        """Whether events are calls whose results are recorded."""
        return False

    def carried(self, lp):
        """Names whose values are carried from one round of a loop to the next."""
        if self.mus is None:
            self.mus = {}
            for m in self.ip.mu_back:
                self.mus.setdefault(m.site, []).append(m)
        return self.mus.get(lp.key, ())

    def carry(self, values, eager=False):
        new = {}
        for m, n in values.items():
            if n.op == 'unbound':
                continue
            try:
                new[m] = self.ev(n)
            except Undecided:
                pass
            except Raised:
                if eager:
                    raise
        for m in values:
            self.env.pop(m, None)
        self.env.update(new)

    def unknown(self, n, exc):
        """A call whose effects are not known."""

    def fresh(self, lp):
        """A new round of the loop begins."""

    def event(self, e):
        n = e.node
        if e.kind == 'assert':
            try:
                v = self.ev(n)
            except Undecided:
                return
            if v is False:
                raise Raised('AssertionError')
            return
        if e.kind == 'snap':
            self.env.pop(n, None)
            try:
                self.env[n] = self.ev(n.args[0])
            except (Undecided, Raised):
                pass
            return
        if e.kind == 'pin':
            return
        if e.kind == 'store_index':
            t = self.ev(e.target)
            if isinstance(t, (dict, list)):
                t[self.ev(n)] = self.ev(e.value)
                c = self.chosen(e.target)
                if c.op in ('comp', 'dcomp'):
                    self.heap[c] = t
            return
        v = self.effect(self, e)
        if v is not NO:
            if n is not None:
                self.env[n] = v
            return
        if e.kind == 'aug' and e.aug == '+' and e.target.op in ('list', 'comp'):
            o = self.ev(e.target)
            if isinstance(o, list):
                o.extend(list(self.ev(e.value)))
                self.heap[e.target] = o
            return
        if self.strict and e.kind == 'call' and n is not None and n.op == 'call' and vq.recv(n) is not None and vq.bname(n) in ('sort', 'reverse') and not n.args[1]:
            r = vq.recv(n)
            try:
                o = self.ev(r)
            except (Undecided, Raised):
                o = None
            if isinstance(o, list):
                order = self.rearrange(n, o)
                if r.op in ('comp', 'dcomp'):
                    self.heap[r] = o
                elif r.op == 'call':
                    self.env[r], self.arranged[r] = o, order
                    getattr(self, 'cached', []).append(r)
                self.env[n] = None
                return
        if self.strict and e.kind == 'call' and n is not None and n.op == 'call' and (vq.bname(n) not in MUTATE or vq.recv(n) is None):
            try:
                self.env.pop(n, None)
                v = self.ev(n)
                if not any(isinstance(lp.node, COMPS) for lp in e.loops):
                    self.env[n] = v
            except Undecided as exc:
                self.unknown(n, exc)
                return
        if e.kind == 'call' and n is not None and n.op == 'call':
            m = vq.bname(n)
            r = vq.recv(n)
            if r is not None and m in MUTATE:
                try:
                    o = self.ev(r)
                except (Undecided, Raised):
                    return
                if isinstance(o, (dict, list, set)):
                    args = [self.ev(x) for x in n.args[1]]
                    kw = {k: self.ev(x) for k, x in n.args[2]}
                    if m == 'append' and isinstance(o, list):
                        binds = {}
                        for b in self.bound:
                            binds.update(b)
                        self.alive.append(o)
                        self.added.setdefault(id(o), []).append((args[0], binds))
                    if r.op in ('comp', 'dcomp'):
                        self.heap[r] = o
                    self.env[n] = getattr(o, m)(*args, **kw)

    def rearrange(self, n, o):
        """A list is sorted or reversed in place."""
        kw = dict(n.args[2])
        if vq.bname(n) == 'reverse':
            order = list(range(len(o)))[::-1]
        else:
            f = self.sort_key(n, kw['key']) if 'key' in kw and not is_const(kw['key'], None) else lambda x: x
            keys = [f(x) for x in o]
            order = sorted(range(len(o)), key=lambda i: keys[i], reverse=bool('reverse' in kw and self.ev(kw['reverse'])))
        added = self.added.get(id(o), [])
        if [x for x, _b in added] == o:
            self.added[id(o)] = [added[i] for i in order]
        o[:] = [o[i] for i in order]
        return order

    def chosen(self, n):
        """The alternative of a value that is used."""
        while n.op == 'ite' and n.args[0].op != 'try':
            n = n.args[1 if self.truth(n.args[0]) else 2]
        return n

    def members(self, n):
        """Members of lists built in loops, with the values the loops had."""
        if n in self.eager and n.op == 'comp':
            out = self.eager[n]
        elif n.op == 'ite':
            out = self.members(n.args[1 if self.truth(n.args[0]) else 2])
        elif n.op == 'list':
            o = self.ev(n)
            added = self.added.get(id(o), [])
            out = added if [x for x, _b in added] == o else [(x, {}) for x in o]
            one = self.ip.elem(n, None)
            if not is_const(one):
                out = [(x, {**b, one: x}) for x, b in out]
        elif n.op == 'comp' and self.strict and n.args[0] == 'list' and n not in self.ip.appends and n.args[1].op in ('call', 'list', 'dict', 'set', 'comp', 'dcomp'):
            out = super().members(n)
            own = self.heap.get(n)
            if own is not None and len(own) == len(out):
                out = [(x, b) for x, (_x, b) in zip(own, out)]
            elif out and own is None and all(isinstance(x, (list, dict, set)) for x, _b in out):
                # the members are what is changed later
                self.heap[n] = [x for x, _b in out]
            out = [(x, {**b, n.args[1]: x}) if isinstance(x, (list, dict, set)) else (x, b) for x, b in out]
            return out
        elif n in self.arranged and isinstance(self.env.get(n), list):
            out, own = super().members(n), self.env[n]
            order = self.arranged[n]
            if len(order) != len(out) or [out[i][0] for i in order] != own:
                raise Undecided(f'members of {show(n, 3)}')
            return [out[i] for i in order]
        else:
            return super().members(n)
        var = self.ip.N('elem', n)
        return [(x, {**b, var: x}) for x, b in out]


class Exn:
    """An exception that leaves the function."""

    def __init__(self, name, event):
        self.name, self.event = name, event


def exception_name(n):
    """Name of the type of a raised exception."""
    if n is None or n.op == 'exc':
        return None
    nm = vq.bname(n) if n.op == 'call' else str(n.args[0]).rsplit('.', 1)[-1] if n.op in ('ext', 'cls', 'clsref', 'fn', 'new') else None
    if nm is None:
        raise Undecided(f'exception {show(n, 2)}')
    return nm


ALIASES = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}
BASES = {'RequestException': 'OSError', 'HTTPError': 'RequestException', 'Timeout': 'RequestException', 'JSONDecodeError': 'ValueError', 'InvalidVersion': 'ValueError',
         'InvalidJSONError': 'RequestException'}


def bases(name):
    out = []
    while name:
        name = ALIASES.get(name, name)
        out.append(name)
        if name in BASES:
            name = BASES[name]
            continue
        t = getattr(builtins, name, None)
        if isinstance(t, type):
            out += [x.__name__ for x in t.__mro__[1:]]
            return out
        return [*out, '?', 'Exception', 'BaseException', 'object']
    return out


def catches(handler, name):
    """Whether a handler handles an exception."""
    h = handler.rsplit('.', 1)[-1]
    h = ALIASES.get(h, h)
    if h == '*':
        return True
    if name is None:
        raise Undecided('exception')
    b = bases(name)
    if h in b:
        return True
    if '?' in b and h not in ('ValueError', 'TypeError', 'KeyError'):
        raise Undecided(f'exception {name}')
    return False


def searches(nd):
    """Whether a loop only sets names in the blocks that leave it."""
    if not isinstance(nd, ast.For):
        return False
    inner = [x for b in nd.body for x in ast.walk(b)]
    if any(isinstance(x, (ast.For, ast.While, ast.AugAssign)) for x in inner):
        return False
    leaving = set()
    for x in [nd, *inner]:
        for f in ('body', 'orelse'):
            b = getattr(x, f, None)
            if x is not nd and isinstance(b, list) and b and isinstance(b[-1], ast.Break):
                leaving |= {id(y) for z in b for y in ast.walk(z)}
    sets = [x for x in inner if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
    return bool(sets) and all(id(x) in leaving for x in sets)


def within(site, lp):
    nd = lp.node
    if not isinstance(lp.key, tuple) or len(lp.key) < 2:
        return False
    for _ in range(20):
        if not isinstance(site, tuple) or len(site) < 2 or not isinstance(site[1], int):
            return False
        if site[0] == lp.key[0]:
            return getattr(nd, 'lineno', 0) <= site[1] <= getattr(nd, 'end_lineno', 0)
        k = site[0]
        if not isinstance(k, tuple) or len(k) != 3:
            return False
        site = (k[0], *k[1]) if isinstance(k[1], tuple) else k[2]
    return False


__all__ = ['NO', 'Raised', 'Stopped', 'Trace', 'Undecided', 'show']
