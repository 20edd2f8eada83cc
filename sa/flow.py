"""Value-flow abstract interpreter.

Walks a function of the repository (inlining the repository functions it
calls) and builds a hash-consed value-flow graph plus a list of effect
events, each with the branch conditions that guard it.  It never executes
repository code and uses no solver: branch conditions are only constant
folded, both sides of every other branch are followed and joined, loops
are walked once with loop-carried values represented by ``mu`` nodes.
"""

from __future__ import annotations

import ast
import sys

from .repo import AnalysisError, Cls, Func, Module

sys.setrecursionlimit(20000)

MAXDEPTH = 14
UNROLL_STMT = 6
UNROLL_COMP = 24


class Node:
    __slots__ = ('_h', 'args', 'op', 'site', 'uid')

    def __repr__(self):
        return show(self, 4)


class Event:
    __slots__ = (
        'aug',
        'ctx',
        'finals',
        'fkeys',
        'frame',
        'guards',
        'infinal',
        'kind',
        'loops',
        'node',
        'pos',
        'seq',
        'target',
        'trys',
        'value',
        'withs',
    )

    def where(self):
        f, n = self.pos
        return f'{f.module.relpath}:{getattr(n, "lineno", 0)}'

    @property
    def func(self):
        return self.pos[0]

    def __repr__(self):
        return f'<{self.kind} {self.where()} {show(self.node or self.target, 3)}>'


OTHER_ARRAY = {
    'numpy.atleast_1d', 'numpy.array', 'numpy.asarray', 'numpy.tile', 'numpy.repeat',
    'numpy.full', 'builtins.list',
}
CONST_TYPES = (str, int, float, bool, bytes, complex, type(None), type(Ellipsis))


def is_const(n, *vals):
    if n is None or n.op != 'const':
        return False
    return not vals or any(
        n.args[1] == v and type(n.args[1]) is type(v) for v in vals
    )


def cval(n):
    return n.args[1]


def show(n, depth=5):
    """Readable rendering of a value node."""
    if n is None:
        return '-'
    if not isinstance(n, Node):
        return repr(n)
    if depth <= 0:
        return '…'
    o, a = n.op, n.args
    d = depth - 1
    if o == 'const':
        return repr(a[1])
    if o == 'param':
        return str(a[1])
    if o in ('ext', 'glob', 'fn', 'clsref', 'modref'):
        return str(a[0]).rsplit('.', 2)[-1] if o != 'ext' else str(a[0])
    if o == 'attr':
        return f'{show(a[0], depth)}.{a[1]}'
    if o == 'bound':
        return f'{show(a[0], depth)}.{a[1].rsplit(".", 1)[-1]}'
    if o == 'index':
        return f'{show(a[0], depth)}[{show(a[1], d)}]'
    if o == 'call':
        s = [show(x, d) for x in a[1]] + [f'{k}={show(v, d)}' for k, v in a[2]]
        return f'{show(a[0], depth)}({", ".join(s)})'
    if o in ('binop', 'cmp'):
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'unop':
        return f'{a[0]}{show(a[1], d)}'
    if o == 'ite':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if o in ('list', 'tuple', 'set'):
        return f'{o}({", ".join(show(x, d) for x in a)})'
    if o == 'elem':
        return f'elem({show(a[0], d)})'
    if o == 'mu':
        return f'mu[{a[0]}]({show(a[1], d)})'
    parts = []
    for x in a:
        if isinstance(x, Node):
            parts.append(show(x, d))
        elif isinstance(x, tuple):
            parts.append(
                '(' + ', '.join(show(y, d) if isinstance(y, Node) else str(y) for y in x) + ')'
            )
        else:
            parts.append(str(x))
    return f'{o}({", ".join(parts)})'


BINOPS = {
    ast.Add: '+',
    ast.Sub: '-',
    ast.Mult: '*',
    ast.Div: '/',
    ast.FloorDiv: '//',
    ast.Mod: '%',
    ast.Pow: '**',
    ast.MatMult: '@',
    ast.BitAnd: '&',
    ast.BitOr: '|',
    ast.BitXor: '^',
    ast.LShift: '<<',
    ast.RShift: '>>',
}
CMPOPS = {
    ast.Eq: '==',
    ast.NotEq: '!=',
    ast.Lt: '<',
    ast.LtE: '<=',
    ast.Gt: '>',
    ast.GtE: '>=',
    ast.Is: 'is',
    ast.IsNot: 'is not',
    ast.In: 'in',
    ast.NotIn: 'not in',
}


class Frame:
    __slots__ = (
        'callsite',
        'depth',
        'entry_guards',
        'env',
        'func',
        'globals_decl',
        'key',
        'nonlocals',
        'parent_frame',
        'returns',
    )


class Loop:
    __slots__ = ('breaks', 'continues', 'depth', 'ends', 'fields', 'finals', 'iter', 'key', 'before', 'node')

    def __init__(self):
        self.ends, self.finals, self.fields = {}, {}, {}


def has_phi(v):
    while v.op == 'ite':
        if v.args[0].op == 'try' or has_phi(v.args[1]):
            return True
        v = v.args[2]
    return v.op == 'phi'


class State:
    __slots__ = ('dead', 'env', 'guards', 'heap')

    def __init__(self, env, heap, guards, dead=False):
        self.env = env
        self.heap = heap
        self.guards = guards
        self.dead = dead

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.guards, self.dead)


class Interp:
    """One analysis run from one entry point."""

    def __init__(
        self, repo, *, opaque=(), max_nodes=3_000_000, maxdepth=MAXDEPTH, hooks=None
    ):
        self.repo = repo
        self.table: dict = {}
        self.events: list[Event] = []
        self.lazy = False  # items of dictionaries with several values are read where they are used
        self.mu_back: dict[Node, Node] = {}
        self.values_of, self.comp_nodes = {}, {}
        self.field_values = set()
        self.after_loop = {}
        self.stored_at, self.named_at = {}, {}
        self.frames: list[Frame] = []
        self.loops: list[Loop] = []
        self.trys: list = []
        self.withs: list = []
        self.finals: list = []
        self.infinal = None
        self.frame_by_key: dict = {}
        self.opaque = set(opaque)
        self.max_nodes = max_nodes
        self.maxdepth = maxdepth
        self.notes: dict[str, int] = {}
        self.closures: dict = {}
        self.closure_env: dict = {}
        self.stats = {'inlined': 0, 'stmts': 0, 'funcs': set()}
        self.cb_results: dict[Node, list] = {}
        self.types: dict[Node, object] = {}
        self.hooks = hooks or {}
        self._callstack: list[Func] = []
        self._ctr = 0
        self.allocs: dict[Node, str] = {}
        self.appends: dict[Node, list] = {}
        self.stores: dict[Node, list] = {}
        self._attr_types: dict = {}

    # ------------------------------------------------------------------
    # nodes
    # ------------------------------------------------------------------
    def N(self, op, *args, site=None):
        key = (op, args, site)
        n = self.table.get(key)
        if n is None:
            n = Node()
            n.op = op
            n.args = args
            n.site = site
            n.uid = len(self.table)
            self.table[key] = n
            if n.uid > self.max_nodes:
                raise AnalysisError('value-flow graph budget exceeded')
        return n

    def const(self, v):
        if isinstance(v, CONST_TYPES):
            return self.N('const', type(v).__name__, v)
        return self.N('unknown', repr(v))

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def site(self, node):
        return (
            self.frames[-1].key if self.frames else (),
            getattr(node, 'lineno', 0),
            getattr(node, 'col_offset', 0),
            type(node).__name__,
            tuple(l.key for l in self.loops if isinstance(l.key, tuple) and l.key[0] == 'u'),
        )

    # ------------------------------------------------------------------
    # running
    # ------------------------------------------------------------------
    def run(self, func, args=None, self_type=None, self_node=None):
        """Interpret ``func`` with symbolic parameters; returns result node."""
        args = dict(args or {})
        st = State({}, {}, ())
        fr_args = {}
        a = func.node.args
        params = [*a.posonlyargs, *a.args, *a.kwonlyargs]
        ann = {p.arg: p.annotation for p in params}
        for i, p in enumerate(params):
            if (
                i == 0
                and func.cls
                and func.parent is None
                and not func.is_static
                and p.arg in ('self', 'cls')
            ):
                if self_node is not None:
                    n = self_node
                else:
                    n = self.N('param', func.qual, p.arg)
                    self.types[n] = ('exact', self_type or func.cls)
                fr_args[p.arg] = n
                continue
            if p.arg in args:
                fr_args[p.arg] = args[p.arg]
            else:
                n = self.N('param', func.qual, p.arg)
                t = self.ann_type(func.module, ann[p.arg])
                if t:
                    self.types[n] = t
                fr_args[p.arg] = n
        if a.vararg:
            fr_args[a.vararg.arg] = self.N('param', func.qual, '*' + a.vararg.arg)
        if a.kwarg:
            fr_args[a.kwarg.arg] = self.N('param', func.qual, '**' + a.kwarg.arg)
        self.state = st
        ret = self.exec_function(func, fr_args, st, ('entry', func.qual))
        return ret

    def exec_function(self, func, fr_args, st, key, parent_frame=None):
        fr = Frame()
        fr.func = func
        fr.key = key
        fr.parent_frame = parent_frame
        fr.returns = []
        fr.entry_guards = st.guards
        fr.depth = len(self.frames)
        fr.globals_decl = set()
        fr.nonlocals = set()
        fr.callsite = None
        caller_env = st.env
        st.env = dict(fr_args)
        fr.env = st.env
        self.frames.append(fr)
        self.frame_by_key[key] = fr
        self._callstack.append(func)
        self.stats['funcs'].add(func.qual)
        self.stats['inlined'] += 1
        saved_loops = self.loops
        self.loops = list(self.loops)
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.eval(func.node.body, st)
                fr.returns.append((st.guards, v, dict(st.heap)))
                st.dead = True
            else:
                self.block(func.node.body, st)
                if not st.dead:
                    fr.returns.append((st.guards, self.const(None), dict(st.heap)))
                    if self.frames[0] is fr:
                        self.event('return', node=self.const(None), st=st, pos=func.node)
            fr.env = st.env
        finally:
            self.frames.pop()
            self._callstack.pop()
            self.loops = saved_loops
        # combine returns
        entry = len(fr.entry_guards)
        if not fr.returns:
            st.dead = True
            st.env = caller_env
            return self.N('never')
        st.dead = False
        res = None
        heap = None
        for guards, v, h in reversed(fr.returns):
            if res is None:
                res, heap = v, h
                continue
            rel = [g for g in guards[entry:] if g[2] != 'noraise']
            if len(rel) == 0:
                cond = None
            else:
                cond = self.conj(rel)
            if cond is None:
                res = self.phi([v, res])
            else:
                res = self.ite(cond, v, res)
            heap = self.merge_heap(cond, h, heap)
        st.env = caller_env
        st.heap = heap
        st.guards = fr.entry_guards
        # guards established by raise-exits stay known to the caller
        if len(fr.returns) == 1:
            extra = tuple(
                (c, p, 'noraise')
                for c, p, k in fr.returns[0][0][entry:]
                if k == 'noraise'
            )
            st.guards = fr.entry_guards + extra
        return res

    def conj(self, guards):
        parts = []
        for c, p, _k in guards:
            parts.append(c if p else self.mknot(c))
        n = parts[0]
        for x in parts[1:]:
            n = self.N('and', n, x)
        return n

    def mknot(self, c):
        if c.op == 'not':
            return c.args[0]
        t = self.truth(c)
        if t is not None:
            return self.const(not t)
        return self.N('not', c)

    # ------------------------------------------------------------------
    # merging
    # ------------------------------------------------------------------
    def ite(self, cond, a, b):
        if a is b:
            return a
        if a.op == 'never':
            return b
        if b.op == 'never':
            return a
        if cond is None:
            return self.phi([a, b])
        return self.N('ite', cond, a, b)

    def phi(self, vals):
        out = []
        for v in vals:
            if v.op == 'phi':
                for x in v.args:
                    if x not in out:
                        out.append(x)
            elif v.op != 'never' and v not in out:
                out.append(v)
        if not out:
            return self.N('never')
        if len(out) == 1:
            return out[0]
        return self.N('phi', *out)

    def merge_heap(self, cond, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h1)
        for k in h1.keys() | h2.keys():
            a = h1.get(k)
            b = h2.get(k)
            if a is b:
                continue
            if a is None:
                a = self.default_read(k)
            if b is None:
                b = self.default_read(k)
            out[k] = self.ite(cond, a, b)
        return out

    def default_read(self, k):
        base, (kind, key) = k
        if kind == 'attr':
            return self.N('attr', base, key)
        if kind == 'len':
            return self.const(None)
        return self.raw_index(base, key)

    def merge_into(self, st, cond, s1, s2):
        """State after an if: s1 on true, s2 on false."""
        if s1.dead and s2.dead:
            st.dead = True
            st.env, st.heap, st.guards = s1.env, s1.heap, s1.guards
            return
        if s1.dead or s2.dead:
            live = s2 if s1.dead else s1
            st.env, st.heap, st.guards, st.dead = (
                live.env,
                live.heap,
                live.guards,
                False,
            )
            return
        env = dict(s1.env)
        for k in s1.env.keys() | s2.env.keys():
            a = s1.env.get(k)
            b = s2.env.get(k)
            if a is b:
                continue
            ub = self.N('unbound', k)
            env[k] = self.ite(cond, a or ub, b or ub)
        st.env = env
        st.heap = self.merge_heap(cond, s1.heap, s2.heap)
        # keep only common guards (prefix) plus raise-guards common to both
        n = 0
        for g1, g2 in zip(s1.guards, s2.guards):
            if g1 == g2:
                n += 1
            else:
                break
        st.guards = s1.guards[:n]
        st.dead = False

    # ------------------------------------------------------------------
    # events
    # ------------------------------------------------------------------
    def event(self, kind, *, node=None, target=None, value=None, st=None, pos=None, aug=None):
        e = Event()
        e.kind = kind
        e.node = node
        e.target = target
        e.value = value
        e.guards = st.guards if st is not None else self.state.guards
        e.pos = (self.frames[-1].func if self.frames else None, pos)
        e.frame = tuple(f.func.qual for f in self.frames)
        e.fkeys = tuple(f.key for f in self.frames)
        e.seq = len(self.events)
        e.loops = tuple(self.loops)
        e.trys = tuple(self.trys)
        e.withs = tuple(self.withs)
        e.finals = tuple(self.finals)
        e.infinal = self.infinal
        e.aug = aug
        e.ctx = None
        self.events.append(e)
        h = self.hooks.get('event')
        if h:
            h(e)
        return e

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        self.stats['stmts'] += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note(f'stmt:{type(s).__name__}')
            return
        m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.env[nm] = self.dotted_node(a.name if a.asname else nm)

    def s_ImportFrom(self, s, st):
        m = self.frames[-1].func.module
        for a in s.names:
            nm = a.asname or a.name
            st.env[nm] = self.dotted_node(self.repo.canonical(m.imports.get(nm, nm)))
        self.event('import', st=st, pos=s, value=s.module)

    def s_Global(self, s, st):
        self.frames[-1].globals_decl.update(s.names)

    def s_Nonlocal(self, s, st):
        self.frames[-1].nonlocals.update(s.names)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.eval(s.value.value, st) if s.value.value else self.const(None)
            self.event('yield', node=v, st=st, pos=s)
            return
        self.eval(s.value, st)

    def s_FunctionDef(self, s, st):
        f = self.repo.func_by_node.get(s)
        if f is None:
            f = Func(self.frames[-1].func.module, s, f'?.{s.name}')
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
            self.eval(d, st)
        n = self.N('closure', f.qual, site=self.site(s))
        self.closures[n] = (f, self.frames[-1])
        self.closure_env[n] = dict(st.env)
        st.env[s.name] = n

    s_AsyncFunctionDef = s_FunctionDef

    def enclosing(self, fn, st):
        """Frame in which a nested function looks up the names of the enclosing function."""
        f, pfr = self.closures[fn]
        if fn not in self.closure_env or any(isinstance(x, ast.Nonlocal) for x in ast.walk(f.node)):
            return pfr
        fr = Frame()
        fr.func, fr.key, fr.parent_frame = pfr.func, pfr.key, pfr.parent_frame
        fr.env = {**pfr.env, **self.closure_env[fn]}
        if self.frames[-1] is pfr:
            fr.env.update((k, v) for k, v in st.env.items() if v.op != 'unbound')
        fr.returns, fr.entry_guards, fr.depth = [], (), 0
        fr.globals_decl, fr.nonlocals, fr.callsite = set(), set(), None
        return fr

    def s_ClassDef(self, s, st):
        st.env[s.name] = self.N('localclass', s.name, site=self.site(s))

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else self.const(None)
        if st.dead:
            return
        fr = self.frames[-1]
        fr.returns.append((st.guards, v, dict(st.heap)))
        self.event('return' if self.frames[0] is fr else 'ireturn', node=v, st=st, pos=s)
        st.dead = True

    def s_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else self.N('reraise')
        if s.cause is not None:
            self.eval(s.cause, st)
        self.event('raise', node=v, st=st, pos=s)
        st.dead = True

    def s_Assert(self, s, st):
        c = self.eval(s.test, st)
        self.event('assert', node=c, st=st, pos=s)
        t = self.truth(c)
        if t is False:
            self.event('raise', node=self.N('ext', 'builtins.AssertionError'), st=st, pos=s)
            st.dead = True
            return
        if t is None:
            st.guards = st.guards + ((c, True, 'noraise'),)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.event('del_index', target=b, node=k, st=st, pos=s)
                if self.ckey(k) is not None:
                    st.heap.pop((b, ('key', self.ckey(k))), None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.event('del_attr', target=b, value=t.attr, st=st, pos=s)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.dead:
            return
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and v.op in ('cmp', 'binop', 'unop') and self.outdated(s):
            v = self.N('snap', v, (self.frames[-1].func.qual, s.lineno))
            self.event('snap', node=v, st=st, pos=s)
        elif self.hooks and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and v.op == 'index' and self.relabelled(s):
            self.event('pin', node=v, st=st, pos=s)
        for t in s.targets:
            self.assign(t, v, st, s)

    def relabelled(self, s):
        """Whether something that a value is selected by gets other labels later."""
        fn = self.frames[-1].func.node
        if fn not in self.named_at:
            self.named_at[fn] = [(t.value.id, n.lineno) for n in ast.walk(fn) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)]
        names = {y.id for y in ast.walk(s.value) if isinstance(y, ast.Name)}
        return any(x in names and k > s.lineno for x, k in self.named_at[fn])

    def outdated(self, s):
        """Whether a value is used after something is stored in what it is calculated from."""
        fn = self.frames[-1].func.node
        if fn not in self.stored_at:
            at = self.stored_at[fn] = {}
            for n in ast.walk(fn):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else ():
                    x = t
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name) and x is not t and any(isinstance(y, ast.Subscript) for y in ast.walk(t)):
                        at.setdefault(x.id, []).append(n.lineno)
        names = {y.id for y in ast.walk(s.value) if isinstance(y, ast.Name)} & set(self.stored_at[fn])
        first = [k for x in names for k in self.stored_at[fn][x] if k > s.lineno]
        if not first:
            return False
        v = s.targets[0].id
        return any(isinstance(u, ast.Name) and u.id == v and isinstance(u.ctx, ast.Load) and u.lineno > min(first) for u in ast.walk(fn))

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return
        v = self.eval(s.value, st)
        if st.dead:
            return
        t = self.ann_type(self.frames[-1].func.module, s.annotation)
        if t and v not in self.types and v.op not in ('const',):
            self.types.setdefault(v, t)
        self.assign(s.target, v, st, s)

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.eval(
                ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st
            )
            v = self.eval(s.value, st)
            new = self.binop(op, old, v, s)
            self.event('aug', target=old, value=v, node=new, st=st, pos=s, aug=op)
            if old.op in ('list',) and op == '+':
                self.appends.setdefault(old, []).append(('extend', v, st.guards))
                new = old
            self.assign_name(s.target.id, new, st, s)
        elif isinstance(s.target, ast.Attribute):
            b = self.eval(s.target.value, st)
            old = self.get_attr(b, s.target.attr, st, s)
            v = self.eval(s.value, st)
            new = self.binop(op, old, v, s)
            self.event(
                'store_attr', target=b, node=self.const(s.target.attr), value=new, st=st, pos=s, aug=op
            )
            st.heap[(b, ('attr', s.target.attr))] = new
        elif isinstance(s.target, ast.Subscript):
            b = self.eval(s.target.value, st)
            k = self.eval(s.target.slice, st)
            old = self.get_index(b, k, st, s)
            v = self.eval(s.value, st)
            new = self.binop(op, old, v, s)
            e = self.event('store_index', target=b, node=k, value=new, st=st, pos=s, aug=op)
            e.ctx = v
            self.stores.setdefault(b, []).append((k, new, st.guards))
            ck = self.ckey(k)
            if ck is not None:
                st.heap[(b, ('key', ck))] = new
            self.through(b, st)

    @staticmethod
    def through(b, st):
        """What is stored through an accessor of a table may change any of its columns."""
        if b.op == 'attr' and b.args[1] in ('loc', 'iloc', 'at', 'iat', 'values'):
            for k in [k for k in st.heap if k[0] is b.args[0] and k[1][0] == 'key']:
                del st.heap[k]

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.N('rest', v, i, len(t.elts) - 1 - i), st, s)
                elif star and i > star[0]:
                    self.assign(
                        x, self.get_index(v, self.const(i - len(t.elts)), st, s), st, s
                    )
                else:
                    self.assign(x, self.unpack(v, i, len(t.elts), st, s), st, s)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            cls = self.type_cls(b)
            if cls is not None:
                setter = cls.lookup_setter(t.attr)
                if setter is not None:
                    self.event(
                        'store_attr', target=b, node=self.const(t.attr), value=v, st=st, pos=s
                    )
                    if not self.is_opaque(setter):
                        self.inline(setter, [b, v], {}, st, s)
                    return
            self.event('store_attr', target=b, node=self.const(t.attr), value=v, st=st, pos=s)
            st.heap[(b, ('attr', t.attr))] = v
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.event('store_index', target=b, node=k, value=v, st=st, pos=s)
            self.stores.setdefault(b, []).append((k, v, st.guards))
            ck = self.ckey(k)
            if ck is not None:
                st.heap[(b, ('key', ck))] = v
            self.through(b, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)

    def assign_name(self, name, v, st, s):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            g = self.N('glob', f'{fr.func.module.name}.{name}')
            self.event('store_global', target=g, value=v, st=st, pos=s)
            return
        if name in fr.nonlocals and fr.parent_frame is not None:
            fr.parent_frame.env[name] = v
            return
        st.env[name] = v

    def unpack(self, v, i, n, st, s):
        return self.get_index(v, self.const(i), st, s, unpack=True)

    def s_If(self, s, st):
        c = self.eval(s.test, st)
        if st.dead:
            return
        t = self.truth(c, st)
        if t is True:
            self.block(s.body, st)
            return
        if t is False:
            self.block(s.orelse, st)
            return
        s1 = st.fork()
        s2 = st.fork()
        s1.guards = st.guards + ((c, True, 'br'),)
        s2.guards = st.guards + ((c, False, 'br'),)
        self.narrow(s1, c, True)
        self.narrow(s2, c, False)
        n0 = len(self.events)
        self.block(s.body, s1)
        r1 = self.only_raises(s1, n0)
        n1 = len(self.events)
        self.block(s.orelse, s2)
        r2 = self.only_raises(s2, n1)
        if s1.dead and not s2.dead:
            g0 = (c, False, 'noraise' if r1 else 'noret')
            s2.guards = st.guards + (g0,) + s2.guards[len(st.guards) + 1 :]
        elif s2.dead and not s1.dead:
            g0 = (c, True, 'noraise' if r2 else 'noret')
            s1.guards = st.guards + (g0,) + s1.guards[len(st.guards) + 1 :]
        self.merge_into(st, c, s1, s2)

    def narrow(self, st, c, pol):
        if c.op == 'not':
            self.narrow(st, c.args[0], not pol)
            return
        if c.op == 'and' and pol:
            self.narrow(st, c.args[0], True)
            self.narrow(st, c.args[1], True)
            return
        if c.op == 'or' and not pol:
            self.narrow(st, c.args[0], False)
            self.narrow(st, c.args[1], False)
            return
        if c.op == 'call' and callee(c) == ('ext', 'builtins.isinstance') and len(c.args[1]) == 2:
            self.narrow_isinst(st, c, pol)
            return
        x = None
        if c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!=') and is_const(c.args[2], None):
            if (c.args[0] in ('is not', '!=')) == pol:
                x = c.args[1]
        elif pol:
            x = c
        if x is None or x.op not in ('ite', 'phi'):
            return
        y = self.drop_none(x)
        if y is x or y.op == 'never':
            return
        for k, v in list(st.env.items()):
            if v is x:
                st.env[k] = y
        for k, v in list(st.heap.items()):
            if v is x:
                st.heap[k] = y

    def narrow_isinst(self, st, c, pol):
        x, t = c.args[1]
        ts = t.args if t.op == 'tuple' else (t,)
        if x.op not in ('ite', 'phi') or any(k.op != 'clsref' for k in ts):
            return
        names = {k.args[0] for k in ts}

        def keep(v):
            ty = self.types.get(v)
            if v.op == 'new':
                cls = self.repo.classes[v.args[0]]
            elif ty and ty[0] == 'exact':
                cls = ty[1]
            else:
                return True
            return any(k.qual in names for k in cls.mro()) == pol

        y = self.filter_alts(x, keep)
        if y is x or y.op == 'never':
            return
        for k, v in list(st.env.items()):
            if v is x:
                st.env[k] = y
        for k, v in list(st.heap.items()):
            if v is x:
                st.heap[k] = y

    def filter_alts(self, x, keep):
        if x.op == 'ite':
            return self.ite(
                x.args[0],
                self.filter_alts(x.args[1], keep),
                self.filter_alts(x.args[2], keep),
            )
        if x.op == 'phi':
            return self.phi([self.filter_alts(v, keep) for v in x.args])
        return x if keep(x) else self.N('never')

    def drop_none(self, x):
        if is_const(x, None):
            return self.N('never')
        if x.op == 'ite':
            return self.ite(x.args[0], self.drop_none(x.args[1]), self.drop_none(x.args[2]))
        if x.op == 'phi':
            return self.phi([self.drop_none(v) for v in x.args])
        return x

    def only_raises(self, s, n0):
        """A dead branch that ended in raise (not return/break/continue)."""
        if not s.dead:
            return False
        k = getattr(s, 'guards', ())
        _ = k
        last = None
        for e in reversed(self.events[n0:]):
            if e.kind in ('raise', 'return', 'jump'):
                last = e
                break
        return last is not None and last.kind == 'raise'

    def s_While(self, s, st):
        self.loop(s, None, st)

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if st.dead:
            return
        items = self.literal_items(it, st)
        if items is not None and len(items) <= UNROLL_STMT:
            self.unrolled(s, items, st)
            return
        self.loop(s, it, st)

    s_AsyncFor = s_For

    def unrolled(self, s, items, st):
        L = Loop()
        L.node = s
        L.breaks = []
        L.iter = None
        broke = []
        for i, item in enumerate(items):
            L.key = ('u', getattr(s, 'lineno', 0), getattr(s, 'col_offset', 0), i)
            L2 = Loop()
            L2.node, L2.iter, L2.key = s, None, L.key
            L2.breaks, L2.continues, L2.depth = [], [], len(self.frames)
            self.loops.append(L2)
            g0 = st.guards
            self.assign(s.target, item, st, s)
            self.block(s.body, st)
            self.loops.pop()
            for c in L2.continues:
                self.join_state(st, c)
            broke.extend(L2.breaks)
            if not st.dead:
                st.guards = self.common(g0, st.guards)
            if st.dead:
                break
        if not st.dead:
            self.block(s.orelse, st)
        for b in broke:
            self.join_state(st, b)

    def common(self, g0, g1):
        """Guards to keep after a loop iteration: g0 plus raise-only facts."""
        return g0

    def join_state(self, st, other):
        if st.dead:
            st.env, st.heap, st.guards, st.dead = (
                other.env,
                other.heap,
                other.guards,
                False,
            )
            return
        tmp = st.fork()
        o = other
        self.merge_into(st, None, tmp, o)

    def assigned_names(self, node):
        cached = getattr(node, '_assigned', None)
        if cached is None:
            cached = set()
            todo = list(node.body) + list(node.orelse)
            if isinstance(node, (ast.For, ast.AsyncFor)):
                todo.append(node.target)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    if not isinstance(n, ast.Lambda):
                        cached.add(n.name)
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    cached.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    cached.add(n.name)
                todo.extend(ast.iter_child_nodes(n))
            node._assigned = cached
        return cached

    def forget_stored(self, s, names, st):
        """An entry that the body of a loop replaces is not the one from before the loop."""
        for n in (x for b in s.body for x in ast.walk(b)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else ():
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in st.env and t.value.id not in names:
                    k = (st.env[t.value.id], ('key', ('str', t.slice.value))) if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) else None
                    if k in st.heap and st.env[t.value.id].op not in ('dict', 'dcomp'):
                        del st.heap[k]

    def loop(self, s, it, st):
        names = self.assigned_names(s)
        tnames = set()
        if self.hooks:
            self.forget_stored(s, names, st)
        if it is not None:
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    tnames.add(n.id)
        pre = st.fork()
        site = self.site(s)
        mus = {}
        for nm in sorted(names - tnames):
            if nm in st.env:
                mu = self.N('mu', nm, st.env[nm], site=site)
                if st.env[nm] in self.types:
                    self.types.setdefault(mu, self.types[st.env[nm]])
                mus[nm] = mu
                st.env[nm] = mu
        L = Loop()
        L.node = s
        L.iter = it
        L.breaks, L.continues, L.depth = [], [], len(self.frames)
        L.key = site
        L.before = frozenset(pre.env.values())
        g0 = st.guards
        if it is not None:
            g = self.N('iter', it, site=site)
            st.guards = g0 + ((g, True, 'loop'),)
        else:
            c = self.eval(s.test, st)
            st.guards = g0 + ((c, True, 'loop'),)
        self.loops.append(L)
        seen = len(self.events)
        if it is not None:
            self.assign(s.target, self.elem(it, st), st, s)
        self.block(s.body, st)
        if it is not None and self.hooks and len(self.events) == seen and not st.dead:
            self.event('tick', st=st, pos=s)
        self.loops.pop()
        if not st.dead:
            L.ends[None] = {nm: st.env.get(nm) for nm in names}
        for c in L.continues:
            self.join_state(st, c)
        for nm, mu in mus.items():
            back = st.env.get(nm) if not st.dead else None
            if back is not None and back is not mu:
                old = self.mu_back.get(mu)
                self.mu_back[mu] = self.phi([old, back]) if old is not None else back
        # state after the loop (zero or more iterations)
        if st.dead:
            out = pre
        else:
            out = st.fork()
            for nm in names:
                if nm in mus:
                    if st.env.get(nm) is mus[nm]:
                        out.env[nm] = pre.env[nm]
                    else:
                        out.env[nm] = mus[nm]
                elif nm in pre.env and nm in st.env:
                    out.env[nm] = self.phi([pre.env[nm], st.env[nm]])
                elif nm in st.env:
                    ub = self.N('unbound', nm)
                    out.env[nm] = self.phi([ub, st.env[nm]])
                    if nm not in tnames:
                        self.after_loop.setdefault(site, {})[ub] = (st.env[nm], out.env[nm])
            out.heap = self.merge_heap(None, pre.heap, st.heap)
        st.env, st.heap, st.dead = out.env, out.heap, False
        st.guards = g0
        self.block(s.orelse, st)
        for b in L.breaks:
            b.guards = g0
            self.join_state(st, b)
        if not st.dead:
            st.guards = g0
            L.finals = {nm: st.env[nm] for nm in mus if nm in st.env}
            L.fields = {v: k for k, v in st.heap.items() if k[1][0] == 'attr' and v is not pre.heap.get(k)}
            self.field_values.update(L.fields)

    def s_Break(self, s, st):
        e = self.event('jump', st=st, pos=s, value='break')
        if self.loops:
            self.loops[-1].ends[e.seq] = {nm: st.env.get(nm) for nm in self.assigned_names(self.loops[-1].node)}
            self.loops[-1].breaks.append(st.fork())
        st.dead = True

    def s_Continue(self, s, st):
        e = self.event('jump', st=st, pos=s, value='continue')
        if self.loops:
            self.loops[-1].ends[e.seq] = {nm: st.env.get(nm) for nm in self.assigned_names(self.loops[-1].node)}
            self.loops[-1].continues.append(st.fork())
        st.dead = True

    def s_With(self, s, st):
        pushed = 0
        for item in s.items:
            c = self.eval(item.context_expr, st)
            self.withs.append(c)
            pushed += 1
            if item.optional_vars is not None:
                t = self.types.get(c)
                v = self.N('enter', c)
                if t:
                    self.types.setdefault(v, t)
                self.assign(item.optional_vars, v, st, s)
        self.event('with_enter', node=self.withs[-1], st=st, pos=s)
        self.block(s.body, st)
        for _ in range(pushed):
            self.withs.pop()

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.fork()
        key = self.N('try', site=self.site(s))
        handlers = []
        for h in s.handlers:
            if h.type is None:
                handlers.append('*')
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    handlers.append(ast.unparse(t))
        if s.handlers:
            self.trys.append((key, tuple(handlers), s))
            g0 = st.guards
            st.guards = g0 + ((key, True, 'try'),)
        if s.finalbody:
            self.finals.append(s)
        self.block(s.body, st)
        if s.handlers:
            self.trys.pop()
        body_guards_extra = st.guards[len(pre.guards) + 1 :] if not st.dead else ()
        if not st.dead:
            self.block(s.orelse, st)
        outs = []
        mid_env_names = set()
        if s.handlers:
            dummy = ast.For(target=ast.Name('_', ast.Store()), body=s.body, orelse=[], iter=None)
            mid_env_names = self.assigned_names(dummy) - {'_'}
        for h in s.handlers:
            hs = pre.fork()
            hs.guards = pre.guards + ((key, False, 'try'),)
            for nm in mid_env_names:
                v0 = pre.env.get(nm, self.N('unbound', nm))
                v1 = st.env.get(nm)
                if v1 is not None and v1 is not v0:
                    hs.env[nm] = self.phi([v0, v1])
            if not st.dead:
                hs.heap = self.merge_heap(None, pre.heap, st.heap)
            if h.name:
                hs.env[h.name] = self.N('exc', ast.unparse(h.type) if h.type else '*', site=self.site(h))
            self.event('handler', st=hs, pos=h, value=ast.unparse(h.type) if h.type else '*')
            self.block(h.body, hs)
            outs.append(hs)
        live = [o for o in outs if not o.dead]
        if s.handlers and not live and not st.dead:
            # every handler terminates: normal completion implies body success
            st.guards = pre.guards + ((key, True, 'noraise'),) + body_guards_extra
        for o in live:
            if st.dead:
                st.env, st.heap, st.guards, st.dead = o.env, o.heap, o.guards, False
            else:
                tmp = st.fork()
                self.merge_into(st, key, tmp, o)
                st.guards = pre.guards
        if s.finalbody:
            self.finals.pop()
            saved, self.infinal = self.infinal, s
            was_dead = st.dead
            if was_dead:
                f = pre.fork()
                self.block(s.finalbody, f)
            else:
                self.block(s.finalbody, st)
            self.infinal = saved
        if not s.handlers and not st.dead:
            pass

    s_TryStar = s_Try

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note(f'expr:{type(e).__name__}')
            return self.N('unknown', type(e).__name__, site=self.site(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return self.const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fr = self.frames[-1].parent_frame if self.frames else None
        while fr is not None:
            if e.id in fr.env:
                return fr.env[e.id]
            fr = fr.parent_frame
        return self.global_name(self.frames[-1].func.module, e.id)

    def global_name(self, m, name):
        if name in m.classes:
            return self.N('clsref', m.classes[name].qual)
        if name in m.functions:
            return self.N('fn', m.functions[name].qual)
        if name in m.globals:
            return self.global_var(m, name)
        d = self.repo.resolve_name(m, name)
        if d is None:
            return self.N('unbound', name)
        return self.dotted_node(d)

    def dotted_node(self, d):
        r = self.repo
        if d in r.classes:
            return self.N('clsref', d)
        if d in r.funcs:
            return self.N('fn', d)
        if d in r.modules:
            return self.N('modref', d)
        head, _, tail = d.rpartition('.')
        if head in r.modules and tail in r.modules[head].globals:
            return self.global_var(r.modules[head], tail)
        return self.N('ext', d)

    def global_var(self, m, name):
        stmts = m.globals[name]
        n = self.N('glob', f'{m.name}.{name}')
        if len(stmts) == 1 and isinstance(stmts[0], (ast.Assign, ast.AnnAssign)):
            v = stmts[0].value
            if isinstance(v, ast.Constant):
                return self.const(v.value)
            if isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
                return self.eval_static(m, v)
        return n

    def glob_expr(self, n):
        """AST of the module-level definition of a glob node, if single."""
        mod, _, name = n.args[0].rpartition('.')
        m = self.repo.modules.get(mod)
        if m is None:
            return None, None
        stmts = m.globals.get(name, [])
        if len(stmts) == 1 and isinstance(stmts[0], (ast.Assign, ast.AnnAssign)):
            return m, stmts[0].value
        return None, None

    def eval_static(self, m, expr):
        """Evaluate a module-level expression in a fresh module frame."""
        fake = ast.FunctionDef(
            name='<module>',
            args=ast.arguments([], [], None, [], [], None, []),
            body=[],
            decorator_list=[],
        )
        f = Func(m, fake, f'{m.name}.<module>')
        fr = Frame()
        fr.func, fr.key, fr.parent_frame = f, ('module', m.name), None
        fr.returns, fr.entry_guards, fr.depth = [], (), 0
        fr.env, fr.globals_decl, fr.nonlocals, fr.callsite = {}, set(), set(), None
        self.frames.append(fr)
        nev = len(self.events)
        try:
            return self.eval(expr, State({}, {}, ()))
        finally:
            self.frames.pop()
            del self.events[nev:]

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.get_attr(b, e.attr, st, e)

    def get_attr(self, b, name, st, pos):
        o = b.op
        if o == 'modref':
            m = self.repo.modules[b.args[0]]
            if name in m.classes or name in m.functions or name in m.globals:
                return self.global_name(m, name)
            return self.dotted_node(self.repo.canonical(f'{b.args[0]}.{name}'))
        if o == 'ext':
            return self.dotted_node(self.repo.canonical(f'{b.args[0]}.{name}'))
        if o == 'other':
            return self.N('otherattr', b, name)
        hk = (b, ('attr', name))
        if hk in st.heap:
            return st.heap[hk]
        if o == 'ite':
            x, y = b.args[1], b.args[2]
            if self.any_typed(b):
                return self.ite(
                    b.args[0],
                    self.get_attr(x, name, st, pos),
                    self.get_attr(y, name, st, pos),
                )
        if o == 'phi' and self.any_typed(b):
            return self.phi([self.get_attr(x, name, st, pos) for x in b.args])
        if o == 'clsref':
            c = self.repo.classes[b.args[0]]
            f = c.lookup(name)
            if f is not None:
                if f.is_classmethod:
                    return self.N('bound', b, f.qual)
                return self.N('fn', f.qual)
            for k in c.mro():
                if name in k.class_attrs:
                    v = self.class_attr(k, name)
                    if v is not None:
                        return v
            return self.N('attr', b, name)
        if o == 'superobj':
            c = self.repo.classes[b.args[1]]
            cands = self.super_mro(b)
            for k in cands:
                if name in k.methods:
                    f = k.methods[name]
                    if f.is_property:
                        return self.inline(f, [b.args[0]], {}, st, pos)
                    return self.N('bound', b.args[0], f.qual)
            _ = c
            return self.N('attr', b, name)
        cls = self.type_cls(b)
        if cls is not None:
            f = cls.lookup(name)
            if f is not None:
                if f.is_property:
                    r = self.maybe_inline(f, [b], {}, st, pos)
                    if r is not None:
                        return r
                    n = self.N('attr', b, name)
                    self.set_ret_type(n, f)
                    return n
                if f.is_static:
                    return self.N('fn', f.qual)
                return self.N('bound', b, f.qual)
            for k in cls.mro():
                if name in k.class_attrs and name not in self.instance_attrs(k):
                    v = self.class_attr(k, name)
                    if v is not None:
                        return v
        n = self.N('attr', b, name)
        if cls is not None and n not in self.types:
            t = self.attr_type(cls, name)
            if t:
                self.types[n] = t
        return n

    def any_typed(self, b):
        return any(self.type_cls(x) is not None for x in alts(b))

    def super_mro(self, b):
        obj, cname = b.args
        t = self.types.get(obj)
        start = t[1] if t and isinstance(t[1], Cls) else self.repo.classes[cname]
        mro = start.mro()
        cur = self.repo.classes[cname]
        if cur in mro:
            return mro[mro.index(cur) + 1 :]
        return cur.mro()[1:]

    def class_attr(self, k, name):
        v = k.class_attrs[name]
        if isinstance(v, ast.Constant):
            return self.const(v.value)
        return self.N('glob', f'{k.qual}.{name}')

    def instance_attrs(self, cls):
        c = getattr(cls, '_inst', None)
        if c is None:
            c = set()
            for f in cls.methods.values():
                for n in ast.walk(f.node):
                    if (
                        isinstance(n, ast.Attribute)
                        and isinstance(n.ctx, ast.Store)
                        and isinstance(n.value, ast.Name)
                        and n.value.id == 'self'
                    ):
                        c.add(n.attr)
            cls._inst = c
        return c

    # ---- types ---------------------------------------------------------
    def ann_type(self, m, ann):
        """('exact'|'decl', Cls) or ('ann', dotted) or ('elem', type)."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_type(m, ast.parse(ann.value, mode='eval').body)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            l = self.ann_type(m, ann.left)
            r = self.ann_type(m, ann.right)
            if l and r and l != r:
                if l[0] == 'decl' or r[0] == 'decl':
                    return l if l[0] == 'decl' else r
                return ('union', (l, r))
            return l or r
        if isinstance(ann, ast.Subscript):
            d = self.repo.resolve_expr(m, ann.value)
            if d in ('typing.Optional',):
                return self.ann_type(m, ann.slice)
            sl = ann.slice
            if d in ('builtins.dict', 'collections.OrderedDict', 'typing.Mapping'):
                el = sl.elts[1] if isinstance(sl, ast.Tuple) and len(sl.elts) == 2 else None
                return ('cont', d, self.ann_type(m, el))
            if isinstance(sl, ast.Tuple):
                ts = tuple(self.ann_type(m, x) for x in sl.elts)
                return ('tuple', d, ts)
            return ('cont', d, self.ann_type(m, sl))
        d = self.repo.resolve_expr(m, ann)
        if d in self.repo.classes:
            return ('decl', self.repo.classes[d])
        if d:
            return ('ann', d)
        return None

    def type_cls(self, n):
        t = self.node_type(n)
        if t and t[0] in ('exact', 'decl'):
            return t[1]
        return None

    def node_type(self, n):
        t = self.types.get(n)
        if t is not None:
            return t
        t = None
        if n.op == 'new':
            t = ('exact', self.repo.classes[n.args[0]])
        elif n.op == 'mu':
            t = self.node_type(n.args[1])
        elif n.op == 'ite':
            a, b = self.node_type(n.args[1]), self.node_type(n.args[2])
            if a == b:
                t = a
            elif a and b and a[0] in ('exact', 'decl') and b[0] in ('exact', 'decl'):
                if a[1] is b[1]:
                    t = ('decl', a[1])
            elif is_const(n.args[1], None):
                t = b
            elif is_const(n.args[2], None):
                t = a
        elif n.op == 'phi':
            ts = {self.node_type(x) for x in n.args if not is_const(x, None) and x.op != 'unbound'}
            if len(ts) == 1:
                t = ts.pop()
        elif n.op in ('elem', 'index'):
            bt = self.node_type(n.args[0])
            if bt and bt[0] == 'cont':
                t = bt[2]
            elif bt and bt[0] == 'tuple' and n.op == 'index' and is_const(n.args[1]):
                i = cval(n.args[1])
                if isinstance(i, int) and -len(bt[2]) <= i < len(bt[2]):
                    t = bt[2][i]
            elif bt and bt[0] == 'tuple' and n.op == 'elem':
                cs = [x for x in bt[2] if x]
                if cs and all(c == cs[0] for c in cs):
                    t = cs[0]
        elif n.op == 'const' and not is_const(n, None):
            t = ('ann', 'builtins.' + n.args[0])
        elif n.op == 'attr':
            bt = self.type_cls(n.args[0])
            if bt is not None:
                t = self.attr_type(bt, n.args[1])
        elif n.op == 'call':
            f = n.args[0]
            if (
                f.op == 'attr'
                and f.args[1] in ('get', 'pop', 'setdefault')
                and (bt := self.node_type(f.args[0]))
                and bt[0] == 'cont'
            ):
                t = bt[2]
            elif f.op == 'attr' and f.args[1] == 'values':
                bt = self.node_type(f.args[0])
                if bt and bt[0] == 'cont':
                    t = ('cont', 'builtins.list', bt[2])
        if t is not None:
            self.types[n] = t
        return t

    def attr_type(self, cls, name):
        key = (cls, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None
        res = None
        for k in cls.mro():
            if name in k.attr_ann:
                res = self.ann_type(k.module, k.attr_ann[name])
                if res:
                    break
            for f in list(k.methods.values()) + list(k.setters.values()):
                anns = {
                    p.arg: p.annotation
                    for p in [*f.node.args.args, *f.node.args.kwonlyargs]
                }
                for s in ast.walk(f.node):
                    tgt = val = None
                    ann = None
                    if isinstance(s, ast.AnnAssign):
                        tgt, val, ann = s.target, s.value, s.annotation
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                        tgt, val = s.targets[0], s.value
                    if not (
                        isinstance(tgt, ast.Attribute)
                        and isinstance(tgt.value, ast.Name)
                        and tgt.value.id == 'self'
                        and tgt.attr == name
                    ):
                        continue
                    if ann is not None:
                        res = self.ann_type(k.module, ann)
                    elif isinstance(val, ast.Call):
                        d = self.repo.resolve_expr(k.module, val.func)
                        if d in self.repo.classes:
                            res = ('decl', self.repo.classes[d])
                        elif d in self.repo.funcs:
                            res = self.ann_type(
                                self.repo.funcs[d].module, self.repo.funcs[d].node.returns
                            )
                    elif isinstance(val, ast.Name) and val.id in anns:
                        res = self.ann_type(k.module, anns[val.id])
                    if res:
                        break
                if res:
                    break
            if not res and name in k.methods and k.methods[name].is_property:
                res = self.ann_type(k.module, k.methods[name].node.returns)
            if res:
                break
        self._attr_types[key] = res
        return res

    def set_ret_type(self, n, f):
        t = self.ann_type(f.module, f.node.returns)
        if t and n not in self.types:
            self.types[n] = t

    # ---- subscripts ----------------------------------------------------
    def ckey(self, k):
        if k.op == 'const':
            return k.args
        if k.op == 'tuple' and all(x.op == 'const' for x in k.args):
            return ('tuple', tuple(x.args for x in k.args))
        return None

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        k = self.eval(e.slice, st)
        if st.dead:
            return self.N('never')
        return self.get_index(b, k, st, e)

    def e_Slice(self, e, st):
        f = lambda x: self.eval(x, st) if x is not None else self.const(None)
        return self.N('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, st):
        return self.eval(e.value, st)

    def raw_index(self, b, ck):
        if ck and ck[0] == 'tuple':
            k = self.N('tuple', *[self.N('const', *x) for x in ck[1]])
        else:
            k = self.N('const', *ck)
        r = self.fold_index(b, k)
        return r if r is not None else self.N('index', b, k)

    def fold_index(self, b, k):
        if b.op in ('list', 'tuple') and k.op == 'const' and isinstance(cval(k), int):
            i = cval(k)
            if not any(x.op == 'star' for x in b.args) and -len(b.args) <= i < len(b.args):
                if b.op == 'list' and b in self.appends:
                    return None
                return b.args[i]
        if b.op == 'dict' and self.ckey(k) is not None:
            for kk, vv in reversed(b.args):
                if kk is k:
                    return vv
            if k.op == 'const' and all(self.ckey(kk) is not None for kk, _ in b.args):
                return None
        if b.op == 'glob' and self.ckey(k) is not None:
            m, expr = self.glob_expr(b)
            if isinstance(expr, ast.Dict):
                for kk, vv in zip(expr.keys, expr.values):
                    if isinstance(kk, ast.Constant) and k.op == 'const' and kk.value == cval(k):
                        v = self.eval_static(m, vv)
                        if v.op in ('const', 'clsref', 'fn'):
                            return v
        if b.op == 'rest' and k.op == 'const' and isinstance(cval(k), int) and cval(k) >= 0:
            return self.N('index', b.args[0], self.const(cval(k) + b.args[1]))
        return None

    def get_index(self, b, k, st, pos, unpack=False):
        ck = self.ckey(k)
        if ck is not None:
            hk = (b, ('key', ck))
            if hk in st.heap:
                if self.lazy and has_phi(st.heap[hk]):
                    return self.N('index', b, k)
                return st.heap[hk]
        if b.op == 'other' or k.op == 'other':
            if k.op == 'other' and self.closed_keys(b, st):
                self.event('raise', node=self.N('ext', 'builtins.KeyError'), st=st, pos=pos)
                st.dead = True
                return self.N('never')
        r = self.fold_index(b, k)
        if r is not None:
            return r
        if b.op == 'ite' and (unpack or ck is not None) and not (b in self.field_values and self.hooks.get('index')):
            x = self.get_index(b.args[1], k, st, pos, unpack)
            y = self.get_index(b.args[2], k, st, pos, unpack)
            return self.ite(b.args[0], x, y)
        if b.op == 'phi' and (unpack or ck is not None) and not (b in self.field_values and self.hooks.get('index')):
            return self.phi([self.get_index(x, k, st, pos, unpack) for x in b.args])
        if k.op == 'slice' and b.op in ('list', 'tuple') and all(
            is_const(x) for x in k.args
        ):
            sl = slice(*[cval(x) for x in k.args])
            if b not in self.appends:
                return self.N(b.op, *b.args[sl], site=self.site(pos) if b.op == 'list' else None)
        if unpack and b.op == 'comp' and b.args[0] in ('list', 'gen'):
            return self.N('index', b, k)
        if b.op in ('dict', 'dcomp') and b.args:
            pass
        h = self.hooks.get('index')
        if h:
            r = h(self, b, k, st, pos)
            if r is not None:
                return r
        if b.op in ('dict', 'dcomp'):
            vals = self.dict_elem_values(b)
            if vals:
                return self.phi(vals)
        return self.N('index', b, k)

    def closed_keys(self, b, st):
        """A dict whose key set is a closed set of constants (no 'other')."""
        if b.op == 'dict':
            return b not in self.stores and all(
                self.ckey(k) is not None for k, _ in b.args
            )
        if b.op == 'glob':
            _m, expr = self.glob_expr(b)
            return isinstance(expr, ast.Dict) and all(
                isinstance(k, ast.Constant) for k in expr.keys
            )
        return False

    def dict_elem_values(self, b):
        if b.op == 'dict':
            return [v for _k, v in b.args] + [v for _k, v, _g in self.stores.get(b, ())]
        if b.op == 'dcomp':
            return [b.args[1]] + [v for _k, v, _g in self.stores.get(b, ())]
        return []

    # ---- iteration -----------------------------------------------------
    def literal_items(self, it, st):
        if it.op in ('list', 'tuple') and it not in self.appends and it not in self.stores:
            if not any(x.op == 'star' for x in it.args):
                return [
                    st.heap.get((it, ('key', ('int', i))), x)
                    for i, x in enumerate(it.args)
                ]
        if it.op == 'set' and it not in self.appends:
            return None
        if it.op == 'call':
            f, a, kw = it.args
            if f.op == 'ext' and not kw:
                nm = f.args[0]
                if nm == 'builtins.enumerate' and len(a) == 1:
                    xs = self.literal_items(a[0], st)
                    if xs is not None:
                        return [
                            self.N('tuple', self.const(i), x) for i, x in enumerate(xs)
                        ]
                if nm == 'builtins.zip':
                    xs = [self.literal_items(x, st) for x in a]
                    if all(x is not None for x in xs):
                        return [self.N('tuple', *t) for t in zip(*xs)]
                    if any(x is not None for x in xs):
                        n = min(len(x) for x in xs if x is not None)
                        return [
                            self.N(
                                'tuple',
                                *[
                                    x[i]
                                    if x is not None
                                    else self.get_index(a[j], self.const(i), st, None)
                                    for j, x in enumerate(xs)
                                ],
                            )
                            for i in range(n)
                        ]
                if nm == 'builtins.reversed' and len(a) == 1:
                    xs = self.literal_items(a[0], st)
                    if xs is not None:
                        return xs[::-1]
            if f.op == 'attr' and not a and f.args[1] in ('items', 'values', 'keys'):
                d = f.args[0]
                if d.op == 'dict' and d not in self.stores and not any(h[0] is d for h in st.heap):
                    if all(k.op == 'const' for k, _ in d.args):
                        if f.args[1] == 'items':
                            return [self.N('tuple', k, v) for k, v in d.args]
                        if f.args[1] == 'values':
                            return [v for k, v in d.args]
                        return [k for k, v in d.args]
        return None

    def elem(self, it, st):
        """Abstract element of an iterable."""
        if it.op in ('list', 'tuple', 'set'):
            xs = [self.N('elem', x.args[0]) if x.op == 'star' else x for x in it.args]
            for kind, v, _g in self.appends.get(it, ()):
                xs.append(v if kind == 'append' else self.elem(v, st))
            if xs:
                return self.phi(xs)
            return self.N('elem', it)
        if it.op == 'comp' and it.args[0] in ('list', 'gen', 'set'):
            return it.args[1]
        if it.op == 'call':
            f, a, kw = it.args
            if f.op == 'ext':
                nm = f.args[0]
                if nm == 'builtins.enumerate' and a:
                    start = dict(kw).get('start', a[1] if len(a) > 1 else None)
                    pos = self.N('pos', a[0])
                    if start is not None and not (start.op == 'const' and cval(start) == 0):
                        pos = self.N('binop', '+', pos, start)
                    return self.N('tuple', pos, self.elem(a[0], st))
                if nm == 'builtins.zip':
                    return self.N('tuple', *[self.elem(x, st) for x in a])
                if nm in ('builtins.range',):
                    return self.N('elem', it)
            if f.op == 'attr' and not a:
                if f.args[1] in ('items', 'iterrows', 'iteritems') and f.args[1] != 'iteritems':
                    d = f.args[0]
                    k = self.N('elem', self.N('call', self.N('attr', d, 'keys'), (), ()))
                    if f.args[1] == 'iterrows':
                        k = self.N('elem', self.N('attr', d, 'index'))
                        return self.N('tuple', k, self.N('row', d))
                    vals = self.dict_elem_values(d)
                    if vals:
                        v = self.phi(vals)
                        self.values_of.setdefault(d, set()).add(v)
                        return self.N('tuple', k, v)
                    v = self.N('index', d, k)
                    t = self.node_type(d)
                    if t and t[0] == 'cont' and t[2]:
                        self.types.setdefault(v, t[2])
                    return self.N('tuple', k, v)
                if f.args[1] == 'values':
                    d = f.args[0]
                    vals = self.dict_elem_values(d)
                    if vals:
                        v = self.phi(vals)
                        self.values_of.setdefault(d, set()).add(v)
                        return v
                    k = self.N('elem', self.N('call', self.N('attr', d, 'keys'), (), ()))
                    v = self.N('index', d, k)
                    t = self.node_type(d)
                    if t and t[0] == 'cont' and t[2]:
                        self.types.setdefault(v, t[2])
                    return v
        if it.op == 'ite':
            return self.ite(
                it.args[0], self.elem(it.args[1], st), self.elem(it.args[2], st)
            )
        if it.op == 'phi':
            return self.phi([self.elem(x, st) for x in it.args])
        n = self.N('elem', it)
        self.node_type(n)
        return n

    # ---- simple expressions ----------------------------------------------
    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(self.const(v.value))
            else:
                x = self.eval(v.value, st)
                if x.op == 'const' and isinstance(cval(x), (str, int)) and v.format_spec is None:
                    parts.append(self.const(str(cval(x))))
                else:
                    parts.append(x)
        if all(is_const(p) for p in parts):
            return self.const(''.join(str(cval(p)) for p in parts))
        return self.N('fstr', *parts)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_List(self, e, st):
        return self.N('list', *self.elts(e.elts, st), site=self.site(e))

    def e_Tuple(self, e, st):
        return self.N('tuple', *self.elts(e.elts, st))

    def e_Set(self, e, st):
        return self.N('set', *self.elts(e.elts, st), site=self.site(e))

    def elts(self, es, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                items = self.literal_items(v, st)
                if items is not None:
                    out.extend(items)
                else:
                    out.append(self.N('star', v))
            else:
                out.append(self.eval(x, st))
        return out

    def e_Starred(self, e, st):
        return self.N('star', self.eval(e.value, st))

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, st)
                if x.op == 'dict':
                    items.extend(x.args)
                else:
                    items.append((self.N('dstar', x), x))
            else:
                kk = self.eval(k, st)
                items.append((kk, self.eval(v, st)))
        return self.N('dict', *items, site=self.site(e))

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b, e)

    def binop(self, op, a, b, pos):
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = cval(a), cval(b)
                if op == '+':
                    return self.const(x + y)
                if op == '-':
                    return self.const(x - y)
                if op == '*' and not (isinstance(x, str) or isinstance(y, str)):
                    return self.const(x * y)
                if op == '/':
                    return self.const(x / y)
                if op == '//':
                    return self.const(x // y)
                if op == '%' and isinstance(x, (int, float)):
                    return self.const(x % y)
                if op == '**' and abs(x) < 1e3 and abs(y) < 10:
                    return self.const(x**y)
            except Exception:  # noqa: BLE001
                pass
        if op == '+' and a.op == b.op and a.op in ('list', 'tuple'):
            if a not in self.appends and b not in self.appends:
                return self.N(
                    a.op, *a.args, *b.args, site=self.site(pos) if a.op == 'list' else None
                )
        return self.N('binop', op, a, b)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return self.mknot(v)
        o = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        if v.op == 'const' and isinstance(cval(v), (int, float)):
            x = cval(v)
            return self.const(-x if o == '-' else (+x if o == '+' else ~x))
        return self.N('unop', o, v)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        vals = []
        g0 = st.guards
        for x in e.values:
            v = self.eval(x, st)
            if st.dead:
                st.guards = g0
                if vals:
                    st.dead = False
                    break
                return v
            t = self.truth(v, st)
            if t is not None:
                if is_and and t is False:
                    vals.append(v)
                    break
                if not is_and and t is True:
                    vals.append(v)
                    break
                if x is not e.values[-1]:
                    continue
            vals.append(v)
            st.guards = st.guards + ((v, is_and, 'br'),)
        st.guards = g0
        if len(vals) == 1:
            return vals[0]
        n = vals[0]
        for v in vals[1:]:
            n = self.N('and' if is_and else 'or', n, v)
        return n

    def e_IfExp(self, e, st):
        c = self.eval(e.test, st)
        t = self.truth(c, st)
        if t is True:
            return self.eval(e.body, st)
        if t is False:
            return self.eval(e.orelse, st)
        g0 = st.guards
        h0 = dict(st.heap)
        st.guards = g0 + ((c, True, 'br'),)
        a = self.eval(e.body, st)
        h1, d1 = st.heap, st.dead
        st.heap, st.dead = h0, False
        st.guards = g0 + ((c, False, 'br'),)
        b = self.eval(e.orelse, st)
        h2, d2 = st.heap, st.dead
        st.guards = g0
        if d1 and d2:
            return self.N('never')
        if d1:
            st.dead = False
            return b
        if d2:
            st.dead = False
            st.heap = h1
            return a
        if h1 != h2:
            st.heap = self.merge_heap(c, h1, h2)
        return self.ite(c, a, b)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st)
            n = self.compare(CMPOPS[type(op)], left, right, st)
            res = n if res is None else self.N('and', res, n)
            left = right
        return res

    def compare(self, op, a, b, st):
        t = self.fold_cmp(op, a, b, st)
        if t is not None:
            return self.const(t)
        return self.N('cmp', op, a, b)

    NOTNONE = ('list', 'tuple', 'dict', 'set', 'fn', 'clsref', 'closure', 'new', 'fstr', 'comp', 'other', 'lambda', 'bound')

    def fold_cmp(self, op, a, b, st):
        if op in ('is', 'is not', '==', '!='):
            pos = op in ('is', '==')
            if a.op == 'const' and b.op == 'const':
                same = cval(a) == cval(b)
                return same if pos else not same
            if a.op == 'ite' and is_const(b, None) and op in ('is', 'is not'):
                x = self.fold_cmp(op, a.args[1], b, st)
                y = self.fold_cmp(op, a.args[2], b, st)
                if x is not None and x == y:
                    return x
            for x, y in ((a, b), (b, a)):
                if is_const(x, None) and y.op in self.NOTNONE:
                    return not pos
                if y.op == 'other' and x.op in ('const', 'tuple', 'list', 'dict', 'set'):
                    return not pos
                if y.op == 'otherattr' and x.op == 'const':
                    return not pos
            if op in ('is', 'is not') and a is b and a.op in ('clsref', 'fn', 'param'):
                return pos
        if op in ('in', 'not in'):
            pos = op == 'in'
            items = None
            if b.op in ('list', 'tuple', 'set') and b not in self.appends:
                items = b.args
            elif b.op == 'dict':
                items = tuple(k for k, _ in b.args)
            elif b.op == 'glob':
                m, expr = self.glob_expr(b)
                if expr is not None and isinstance(
                    expr, (ast.List, ast.Tuple, ast.Set, ast.Dict)
                ):
                    v = self.eval_static(m, expr)
                    items = (
                        tuple(k for k, _ in v.args) if v.op == 'dict' else v.args
                    )
            elif b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == 'keys':
                return self.fold_cmp(op, a, b.args[0].args[0], st)
            if b.op == 'const' and a.op == 'const' and isinstance(cval(b), str) and isinstance(cval(a), str):
                r = cval(a) in cval(b)
                return r if pos else not r
            if a.op == 'const' and b.op == 'other':
                return not pos
            if items is not None:
                if any(x.op == 'star' or x.op == 'dstar' for x in items):
                    return None
                if any(x is a for x in items):
                    return pos
                if b in self.stores or (b.op == 'dict' and any(h[0] is b for h in st.heap)):
                    return None
                if a.op == 'const' and all(x.op == 'const' for x in items):
                    r = any(cval(x) == cval(a) for x in items)
                    return r if pos else not r
                if a.op == 'other' and all(x.op in ('const', 'clsref', 'ext') for x in items):
                    return not pos
        if op in ('<', '<=', '>', '>=') and a.op == 'const' and b.op == 'const':
            try:
                x, y = cval(a), cval(b)
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
            except TypeError:
                return None
        return None

    def truth(self, c, st=None):
        if c.op == 'const':
            return bool(cval(c))
        if c.op == 'not':
            t = self.truth(c.args[0], st)
            return None if t is None else not t
        if c.op in ('tuple',):
            return len(c.args) > 0
        if c.op == 'list' and c.args and c not in self.appends:
            return True
        if c.op in ('fn', 'clsref', 'closure', 'other'):
            return True
        if st is not None:
            for g, p, _k in st.guards:
                if g is c:
                    return p
                if g.op == 'not' and g.args[0] is c:
                    return not p
                if c.op == 'not' and c.args[0] is g:
                    return not p
                if p and g.op == 'and' and (g.args[0] is c or g.args[1] is c):
                    return True
                if not p and g.op == 'or' and (g.args[0] is c or g.args[1] is c):
                    return False
                if (
                    c.op == 'cmp'
                    and g.op == 'cmp'
                    and c.args[1] is g.args[1]
                    and c.args[2] is g.args[2]
                ):
                    neg = {
                        'is': 'is not',
                        'is not': 'is',
                        '==': '!=',
                        '!=': '==',
                        'in': 'not in',
                        'not in': 'in',
                    }
                    if neg.get(c.args[0]) == g.args[0]:
                        return not p
        if c.op == 'and':
            a, b = self.truth(c.args[0], st), self.truth(c.args[1], st)
            if a is False or b is False:
                return False
            if a and b:
                return True
        if c.op == 'or':
            a, b = self.truth(c.args[0], st), self.truth(c.args[1], st)
            if a or b:
                return True
            if a is False and b is False:
                return False
        return None

    # ---- comprehensions --------------------------------------------------
    def e_ListComp(self, e, st):
        return self.comp('list', e, [e.elt], st)

    def e_SetComp(self, e, st):
        return self.comp('set', e, [e.elt], st)

    def e_GeneratorExp(self, e, st):
        return self.comp('gen', e, [e.elt], st)

    def e_DictComp(self, e, st):
        return self.comp('dict', e, [e.key, e.value], st)

    def comp(self, kind, e, elts, st):
        saved = dict(st.env)
        g0 = st.guards
        # full unroll for a single literal generator
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.eval(g.iter, st)
            items = self.literal_items(it, st)
            if items is not None and len(items) <= UNROLL_COMP:
                out = []
                ok = True
                for i, x in enumerate(items):
                    L = Loop()
                    L.key = ('u', e.lineno, e.col_offset, i)
                    L.node, L.iter, L.breaks, L.continues, L.depth = e, None, [], [], len(self.frames)
                    self.loops.append(L)
                    self.assign(g.target, x, st, e)
                    keep = True
                    for c in g.ifs:
                        t = self.truth(self.eval(c, st), st)
                        if t is False:
                            keep = False
                            break
                        if t is None:
                            ok = False
                    if keep and ok:
                        out.append([self.eval(z, st) for z in elts])
                    self.loops.pop()
                    if not ok:
                        break
                if ok:
                    st.env = saved
                    self.frames[-1].env = st.env
                    if kind == 'dict':
                        return self.N('dict', *[(a, b) for a, b in out], site=self.site(e))
                    op = {'list': 'list', 'gen': 'tuple', 'set': 'set'}[kind]
                    return self.N(
                        op,
                        *[z[0] for z in out],
                        site=self.site(e) if op != 'tuple' else None,
                    )
            st.env = dict(saved)
        iters = []
        conds = []
        nl = 0
        for g in e.generators:
            it = self.eval(g.iter, st)
            iters.append(it)
            L = Loop()
            L.key = self.site(e)
            L.node, L.iter, L.breaks, L.continues, L.depth = e, it, [], [], len(self.frames)
            self.loops.append(L)
            nl += 1
            st.guards = st.guards + ((self.N('iter', it, site=self.site(e)), True, 'loop'),)
            self.assign(g.target, self.elem(it, st), st, e)
            for c in g.ifs:
                cv = self.eval(c, st)
                conds.append(cv)
                st.guards = st.guards + ((cv, True, 'br'),)
        vals = [self.eval(z, st) for z in elts]
        for _ in range(nl):
            self.loops.pop()
        st.env = saved
        st.guards = g0
        if kind == 'dict':
            n = self.N('dcomp', vals[0], vals[1], tuple(iters), tuple(conds), site=self.site(e))
        else:
            n = self.N('comp', kind, vals[0], tuple(iters), tuple(conds), site=self.site(e))
        self.comp_nodes[self.site(e)] = n
        return n

    def e_Lambda(self, e, st):
        n = self.N('closure', 'lambda', site=self.site(e))
        f = Func(self.frames[-1].func.module, e, f'{self.frames[-1].func.qual}.<lambda>')
        fr = Frame()
        cur = self.frames[-1]
        fr.func, fr.key, fr.parent_frame = cur.func, cur.key, cur.parent_frame
        fr.env = dict(st.env)
        fr.returns, fr.entry_guards, fr.depth = [], (), 0
        fr.globals_decl, fr.nonlocals, fr.callsite = set(), set(), None
        self.closures[n] = (f, fr)
        return n

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value else self.const(None)
        self.event('yield', node=v, st=st, pos=e)
        return self.N('unknown', 'yield', site=self.site(e))

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # ---- calls -----------------------------------------------------------
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            f = fr.func
            while f.cls is None and f.parent:
                f = f.parent
            selfname = f.node.args.args[0].arg
            return self.N('superobj', st.env.get(selfname), f.cls.qual)
        fn = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                items = self.literal_items(v, st)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(self.N('star', v))
            else:
                args.append(self.eval(a, st))
        kw = {}
        dstar = []
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if v.op == 'dict' and all(x.op == 'const' for x, _ in v.args):
                    for kk, vv in v.args:
                        kw[cval(kk)] = st.heap.get((v, ('key', kk.args)), vv)
                    for (b, hk), vv in list(st.heap.items()):
                        if b is v and hk[0] == 'key' and hk[1][0] == 'str':
                            kw[hk[1][1]] = vv
                else:
                    dstar.append(v)
            else:
                kw[k.arg] = v
        if st.dead:
            return self.N('never')
        return self.call(fn, args, kw, dstar, st, e)

    def call(self, fn, args, kw, dstar, st, pos):
        if fn.op == 'ite':
            return self.call_alts(fn.args[0], fn.args[1:], args, kw, dstar, st, pos)
        if fn.op == 'phi':
            return self.call_alts(None, fn.args, args, kw, dstar, st, pos)
        h = self.hooks.get('call')
        if h:
            r = h(self, fn, args, kw, dstar, st, pos)
            if r is not None:
                return r
        if fn.op == 'index' and fn.args[0].op in ('dict', 'glob'):
            alts = self.dict_values(fn.args[0])
            if alts and len(alts) <= 24:
                cal = [a for a in alts if a.op in ('clsref', 'fn', 'closure')]
                if len(cal) == len(alts):
                    return self.call_alts(None, cal, args, kw, dstar, st, pos)
        if fn.op == 'fn':
            f = self.repo.funcs[fn.args[0]]
            r = None if dstar else self.maybe_inline(f, args, kw, st, pos)
            if r is not None:
                return r
            return self.opaque_call(fn, args, kw, dstar, st, pos, f)
        if fn.op == 'bound':
            f = self.repo.funcs[fn.args[1]]
            f = self.virtual(fn.args[0], f)
            if isinstance(f, list):
                alts = [self.N('bound!', fn.args[0], g.qual) for g in f]
                return self.call_alts(None, alts, args, kw, dstar, st, pos)
            fn = self.N('bound', fn.args[0], f.qual)
            r = None if dstar else self.maybe_inline(f, [fn.args[0], *args], kw, st, pos)
            if r is not None:
                return r
            return self.opaque_call(fn, args, kw, dstar, st, pos, f)
        if fn.op == 'bound!':
            f = self.repo.funcs[fn.args[1]]
            r = None if dstar else self.maybe_inline(f, [fn.args[0], *args], kw, st, pos)
            if r is not None:
                return r
            return self.opaque_call(self.N('bound', *fn.args), args, kw, dstar, st, pos, f)
        if fn.op == 'clsref':
            return self.construct(fn, args, kw, dstar, st, pos)
        if fn.op == 'closure' and fn in self.closures:
            f, pfr = self.closures[fn]
            if not dstar and f not in self._callstack and len(self.frames) < self.maxdepth:
                b = self.bind(f, args, kw, st)
                if b is not None:
                    self.event('call', node=fn, value=tuple(args), st=st, pos=pos)
                    return self.exec_function(
                        f, b, st, (self.frames[-1].key, 'c', self.site(pos)), parent_frame=self.enclosing(fn, st)
                    )
        # builtins with useful semantics
        if fn.op == 'ext':
            r = self.builtin(fn.args[0], args, kw, st, pos)
            if r is not None:
                return r
        if fn.op == 'attr':
            r = self.ext_method(fn, args, kw, dstar, st, pos)
            if r is not None:
                return r
        if fn.op == 'call' and fn.args[0].op == 'ext' and fn.args[0].args[0] == 'functools.partial':
            inner, a, k = fn.args[1][0], list(fn.args[1][1:]), dict(fn.args[2])
            k.update(kw)
            return self.call(inner, a + args, k, dstar, st, pos)
        return self.opaque_call(fn, args, kw, dstar, st, pos)

    def dict_values(self, d):
        if d.op == 'dict':
            return [v for _, v in d.args]
        m, expr = self.glob_expr(d)
        if isinstance(expr, ast.Dict):
            return [self.eval_static(m, v) for v in expr.values]
        return None

    def call_alts(self, cond, alts, args, kw, dstar, st, pos):
        outs = []
        base = st.fork()
        for i, a in enumerate(alts):
            if a.op in ('never', 'unbound'):
                continue
            s = base.fork()
            if cond is not None:
                s.guards = base.guards + ((cond, i == 0, 'br'),)
            else:
                s.guards = base.guards + ((self.N('is_alt', a), True, 'br'),)
            r = self.call(a, list(args), dict(kw), dstar, s, pos)
            if not s.dead:
                outs.append((r, s))
        if not outs:
            st.dead = True
            return self.N('never')
        r, s = outs[0]
        heap = s.heap
        for r2, s2 in outs[1:]:
            heap = self.merge_heap(None, heap, s2.heap)
            r = self.ite(cond, r, r2) if cond is not None and len(alts) == 2 else self.phi([r, r2])
        st.heap = heap
        st.guards = base.guards
        return r

    def virtual(self, obj, f):
        t = self.node_type(obj)
        if not t or t[0] != 'decl' or f.cls is None:
            return f
        cands = []
        for s in t[1].all_subclasses():
            g = s.lookup(f.name)
            if g is not None and g is not f and g not in cands and not g.is_abstract:
                cands.append(g)
        if not cands:
            return f
        if not f.is_abstract:
            cands.insert(0, f)
        if len(cands) == 1:
            return cands[0]
        return cands if len(cands) <= 12 else f

    def is_opaque(self, f):
        return (
            f.qual in self.opaque
            or f.name in self.opaque
            or (f.cls is not None and f.cls.name in self.opaque)
            or f.module.name in self.opaque
        )

    def maybe_inline(self, f, args, kw, st, pos):
        if self.is_opaque(f) or f in self._callstack or len(self.frames) >= self.maxdepth:
            if f in self._callstack:
                self.note('recursion:' + f.qual)
            elif len(self.frames) >= self.maxdepth:
                self.note('depth')
            return None
        if f.is_abstract:
            return None
        return self.inline(f, args, kw, st, pos)

    def inline(self, f, args, kw, st, pos):
        b = self.bind(f, args, kw, st)
        if b is None:
            self.note(f'bind:{f.qual}')
            return None
        e = self.event('call', node=self.N('fn', f.qual), value=tuple(args), st=st, pos=pos)
        e.ctx = ('repo', f, b)
        r = self.exec_function(f, b, st, (self.frames[-1].key, self.site(pos)[1:], f.qual) if self.frames else ('x', f.qual))
        t = self.ann_type(f.module, f.node.returns) if not isinstance(f.node, ast.Lambda) else None
        if t and r.op not in ('const', 'never') and r not in self.types and self.node_type(r) is None:
            self.types[r] = t
        if any('contextmanager' in d for d in f.decorators):
            return self.N('ctxmgr', f.qual, site=self.site(pos))
        return r

    def bind(self, f, args, kw, st):
        a = f.node.args
        pos = [*a.posonlyargs, *a.args]
        out = {}
        extra = []
        i = 0
        for v in args:
            if v.op == 'star':
                # unknown number of positionals: bind remaining by index
                j = 0
                while i < len(pos):
                    out[pos[i].arg] = self.N('index', v.args[0], self.const(j))
                    i += 1
                    j += 1
                continue
            if i < len(pos):
                out[pos[i].arg] = v
                i += 1
            else:
                extra.append(v)
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        kextra = {}
        for k, v in kw.items():
            if k in names:
                out[k] = v
            else:
                kextra[k] = v
        if extra and not a.vararg:
            return None
        if kextra and not a.kwarg:
            return None
        if a.vararg:
            out[a.vararg.arg] = self.N('tuple', *extra)
        if a.kwarg:
            out[a.kwarg.arg] = self.N(
                'dict', *[(self.const(k), v) for k, v in kextra.items()]
            )
        nd = len(a.defaults)
        for p, d in zip(pos[len(pos) - nd :], a.defaults):
            if p.arg not in out:
                out[p.arg] = self.default_value(f, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out and d is not None:
                out[p.arg] = self.default_value(f, d)
        for p in [*pos, *a.kwonlyargs]:
            if p.arg not in out:
                return None
            ann = p.annotation
            if ann is not None:
                n = out[p.arg]
                if n.op not in ('const', 'other') and self.node_type(n) is None:
                    t = self.ann_type(f.module, ann)
                    if t and t[0] in ('decl', 'cont', 'tuple'):
                        self.types[n] = t
        return out

    def default_value(self, f, d):
        if isinstance(d, ast.Constant):
            return self.const(d.value)
        v = self.eval_static(f.module, d)
        if v.op in ('const', 'ext', 'fn', 'clsref', 'tuple', 'glob'):
            return v
        return self.N('default', f.qual, ast.unparse(d))

    def construct(self, fn, args, kw, dstar, st, pos):
        c = self.repo.classes[fn.args[0]]
        obj = self.N('new', c.qual, site=self.site(pos))
        self.allocs[obj] = c.qual
        init = c.lookup('__init__')
        if init is not None:
            r = None if dstar else self.maybe_inline(init, [obj, *args], kw, st, pos)
            if r is None:
                self.opaque_call(fn, args, kw, dstar, st, pos, init)
            if st.dead:
                return self.N('never')
        else:
            e = self.event('call', node=fn, value=tuple(args), st=st, pos=pos)
            e.ctx = ('new', fn, args, kw)
        return obj

    def opaque_call(self, fn, args, kw, dstar, st, pos, func=None):
        kws = tuple(sorted(kw.items())) + tuple(('**', d) for d in dstar)
        n = self.N('call', fn, tuple(args), kws, site=self.site(pos))
        e = self.event('call', node=n, st=st, pos=pos)
        if func is not None:
            e.ctx = ('opaque', func)
            self.set_ret_type(n, func)
        # callbacks handed to external code: look inside once
        if func is None:
            for v in [*args, *kw.values()]:
                self.run_callback(n, v, st, pos)
        return n

    def run_callback(self, callnode, v, st, pos):
        if v.op in ('list', 'tuple'):
            for x in v.args:
                if isinstance(x, Node) and x.op == 'closure':
                    self.run_callback(callnode, x, st, pos)
            return
        f = None
        args = []
        pfr = None
        if v.op == 'closure' and v in self.closures:
            f, pfr = self.closures[v]
        elif v.op == 'fn':
            f = self.repo.funcs[v.args[0]]
            if self.is_opaque(f):
                return
        elif v.op == 'bound':
            f = self.repo.funcs[v.args[1]]
            args = [v.args[0]]
            if self.is_opaque(f):
                return
        if f is None or f in self._callstack or len(self.frames) >= self.maxdepth:
            return
        a = f.node.args
        params = [*a.posonlyargs, *a.args]
        b = {}
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if i < len(args):
                b[p.arg] = args[i]
            else:
                b[p.arg] = self.N('cbparam', callnode, i, p.arg)
        _ = nd
        for p in a.kwonlyargs:
            b[p.arg] = self.N('cbparam', callnode, -1, p.arg)
        if a.vararg:
            b[a.vararg.arg] = self.N('cbparam', callnode, -2, a.vararg.arg)
        if a.kwarg:
            b[a.kwarg.arg] = self.N('cbparam', callnode, -3, a.kwarg.arg)
        s = st.fork()
        s.guards = st.guards + ((self.N('callback', callnode), True, 'loop'),)
        self.event('call', node=self.N('fn', f.qual), value=tuple(b.values()), st=s, pos=pos).ctx = ('repo', f, b)
        r = self.exec_function(
            f, b, s, (self.frames[-1].key, 'cb', self.site(pos)), parent_frame=self.enclosing(v, s) if v in self.closures else pfr
        )
        self.cb_results.setdefault(callnode, []).append((v, r))
        if not s.dead:
            st.heap = self.merge_heap(None, st.heap, s.heap)

    # builtins ---------------------------------------------------------------
    def builtin(self, nm, args, kw, st, pos):
        if nm == 'builtins.getattr' and len(args) == 2 and args[1].op == 'const':
            return self.get_attr(args[0], cval(args[1]), st, pos)
        if nm == 'builtins.setattr' and len(args) == 3 and args[1].op == 'const':
            self.event('store_attr', target=args[0], node=args[1], value=args[2], st=st, pos=pos)
            st.heap[(args[0], ('attr', cval(args[1])))] = args[2]
            return self.const(None)
        if nm == 'builtins.len' and len(args) == 1:
            a = args[0]
            if a.op in ('tuple',) or (a.op == 'list' and a.args and a not in self.appends):
                if not any(x.op == 'star' for x in a.args):
                    return self.const(len(a.args))
        if nm == 'builtins.isinstance' and len(args) == 2:
            return self.isinst(args[0], args[1], st, pos)
        if nm in ('builtins.str',) and len(args) == 1 and args[0].op == 'const':
            return self.const(str(cval(args[0])))
        if nm in ('builtins.str',) and len(args) == 1 and args[0].op == 'other':
            return args[0]
        if nm == 'builtins.dict' and not args and kw:
            return self.N('dict', *[(self.const(k), v) for k, v in kw.items()], site=self.site(pos))
        if nm in ('builtins.dict', 'builtins.list', 'builtins.set') and not args and not kw:
            return self.N(nm.split('.')[1], site=self.site(pos))
        if nm in ('builtins.tuple',) and len(args) == 1 and args[0].op == 'tuple':
            return args[0]
        if nm in ('builtins.list', 'builtins.tuple') and len(args) == 1:
            items = self.literal_items(args[0], st)
            if items is not None:
                op = nm.split('.')[1]
                return self.N(op, *items, site=self.site(pos) if op == 'list' else None)
        if nm in ('typing.cast',) and len(args) == 2:
            return args[1]
        if nm in ('pandas.isna', 'pandas.isnull', 'pandas.notna') and args and args[0].op == 'other':
            return self.const(nm == 'pandas.notna')
        if nm in ('pandas.isna', 'pandas.isnull', 'pandas.notna', 'numpy.isnan', 'math.isnan') and args and args[0].op == 'const':
            v = cval(args[0])
            na = v is None or (isinstance(v, float) and v != v)
            return self.const((not na) if nm == 'pandas.notna' else na)
        if nm in OTHER_ARRAY and args:
            if args[0].op == 'other':
                return self.N('list', args[0], site='other')
            if args[0].op == 'list' and args[0].args and all(x.op == 'other' for x in args[0].args):
                return args[0]
        if nm == 'builtins.vars':
            return None
        return None

    def isinst(self, v, t, st, pos):
        ts = []
        for x in t.args if t.op == 'tuple' else [t]:
            if x.op == 'ext':
                ts.append(x.args[0])
            elif x.op == 'clsref':
                ts.append(x.args[0])
            else:
                ts.append(None)
        known = None
        if v.op == 'const':
            known = {'builtins.' + v.args[0]}
            if v.args[0] == 'bool':
                known.add('builtins.int')
        elif v.op in ('list', 'tuple', 'dict', 'set'):
            known = {'builtins.' + v.op}
        elif v.op in ('other', 'fstr'):
            known = {'builtins.str'}
        elif v.op == 'comp' and v.args[0] in ('list', 'set'):
            known = {'builtins.' + v.args[0]}
        elif v.op == 'dcomp':
            known = {'builtins.dict'}
        elif v.op == 'new' or (v in self.types and self.types[v][0] == 'exact'):
            c = self.type_cls(v)
            known = {k.qual for k in c.mro()}
        if known is not None and None not in ts:
            return self.const(any(x in known for x in ts))
        n = self.N('call', self.N('ext', 'builtins.isinstance'), (v, t), ())
        return n

    MUTATORS = {
        'append',
        'extend',
        'insert',
        'update',
        'pop',
        'popitem',
        'clear',
        'remove',
        'sort',
        'reverse',
        'setdefault',
        'add',
        'discard',
        'fill',
        'partition',
        'put',
        'resize',
        'itemset',
    }

    def ext_method(self, fn, args, kw, dstar, st, pos):
        b, name = fn.args
        if b.op == 'other' or b.op == 'otherattr':
            pass
        if name in ('append', 'add') and b.op in ('list', 'set') and len(args) == 1:
            self.appends.setdefault(b, []).append(('append', args[0], st.guards))
            n = self.N('call', fn, tuple(args), (), site=self.site(pos))
            self.event('call', node=n, st=st, pos=pos)
            return self.const(None)
        if name in ('extend', 'update') and b.op in ('list', 'set') and len(args) == 1:
            self.appends.setdefault(b, []).append(('extend', args[0], st.guards))
            n = self.N('call', fn, tuple(args), (), site=self.site(pos))
            self.event('call', node=n, st=st, pos=pos)
            return self.const(None)
        if name in ('insert',) and b.op == 'list' and len(args) == 2:
            self.appends.setdefault(b, []).append(('append', args[1], st.guards))
        if name == 'get' and args and self.ckey(args[0]) is not None:
            hk = (b, ('key', self.ckey(args[0])))
            if hk in st.heap:
                if self.lazy and has_phi(st.heap[hk]):
                    return self.N('index', b, args[0])
                return st.heap[hk]
            r = self.fold_index(b, args[0])
            if r is not None:
                return r
            if b.op == 'dict' and self.closed_keys(b, st):
                return args[1] if len(args) > 1 else self.const(None)
        if name == 'get' and args and args[0].op == 'other' and self.closed_keys(b, st):
            return args[1] if len(args) > 1 else self.const(None)
        if name == 'update' and len(args) == 1 and args[0].op == 'dict' and not kw:
            n = self.N('call', fn, tuple(args), (), site=self.site(pos))
            self.event('call', node=n, st=st, pos=pos)
            for k, v in args[0].args:
                self.stores.setdefault(b, []).append((k, v, st.guards))
                if self.ckey(k) is not None:
                    st.heap[(b, ('key', self.ckey(k)))] = v
            return self.const(None)
        if name == 'update' and len(args) == 1 and b.op in ('dict', 'dcomp'):
            a0 = args[0]
            if a0.op == 'dcomp':
                self.stores.setdefault(b, []).append((a0.args[0], a0.args[1], st.guards))
            elif a0.op != 'dict':
                kk = self.N('elem', self.N('call', self.N('attr', a0, 'keys'), (), ()))
                self.stores.setdefault(b, []).append((kk, self.N('index', a0, kk), st.guards))
        if b.op == 'const' and isinstance(cval(b), str):
            s = cval(b)
            try:
                if name in ('lower', 'upper', 'strip', 'title', 'capitalize') and not args:
                    return self.const(getattr(s, name)())
                if name in ('startswith', 'endswith') and len(args) == 1 and args[0].op == 'const':
                    return self.const(getattr(s, name)(cval(args[0])))
                if name == 'replace' and len(args) == 2 and all(a.op == 'const' for a in args):
                    return self.const(s.replace(cval(args[0]), cval(args[1])))
                if name == 'split' and all(a.op == 'const' for a in args):
                    return self.N(
                        'list', *[self.const(x) for x in s.split(*[cval(a) for a in args])], site=self.site(pos)
                    )
            except Exception:  # noqa: BLE001
                pass
        if b.op == 'other' and name in ('lower', 'upper', 'strip', 'title', 'capitalize'):
            return b
        if b.op == 'other' and name in ('startswith', 'endswith'):
            return self.const(False)
        # unresolved receiver: unique repository method of that name
        if self.type_cls(b) is None and self.node_type(b) is None:
            f = self.unique_method(name)
            if f is not None and not dstar and b.op not in ('list', 'dict', 'set', 'tuple', 'const', 'comp', 'other'):
                r = self.maybe_inline(f, [b, *args], kw, st, pos)
                if r is not None:
                    self.note('unique-method')
                    return r
                return self.opaque_call(self.N('bound', b, f.qual), args, kw, dstar, st, pos, f)
        return None

    COMMON = {
        'get', 'add', 'update', 'copy', 'items', 'keys', 'values', 'sample', 'save', 'load',
        'msg', 'div', 'apply', 'run', 'calculate', 'sum', 'mean', 'std', 'min', 'max', 'warn',
        'read', 'write', 'close', 'append', 'cdf', 'rvs', 'ppf', 'pdf', 'index', 'log', 'size',
    }

    def unique_method(self, name):
        if name in self.COMMON or name.startswith('__'):
            return None
        cache = getattr(self.repo, '_uniq', None)
        if cache is None:
            cache = {}
            for c in self.repo.classes.values():
                for f in c.methods.values():
                    cache.setdefault(f.name, []).append(f)
            self.repo._uniq = cache
        fs = cache.get(name, [])
        if len(fs) == 1:
            return fs[0]
        return None


# ----------------------------------------------------------------------------
# graph queries
# ----------------------------------------------------------------------------
def children(n, interp=None):
    for a in n.args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Node):
                    yield x
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Node):
                            yield y
    if interp is not None:
        if n.op == 'mu' and n in interp.mu_back:
            yield interp.mu_back[n]
        if n.op in ('list', 'set') and n in interp.appends:
            for _k, v, _g in interp.appends[n]:
                yield v
        if n in interp.stores:
            for k, v, _g in interp.stores[n]:
                yield k
                yield v
        if n in interp.cb_results:
            for _v, r in interp.cb_results[n]:
                yield r


def walk(n, interp=None, stop=None):
    seen = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if stop is not None and stop(x):
            continue
        todo.extend(children(x, interp))


def alts(n, interp=None):
    """All alternatives of a joined value."""
    seen = set()
    out = []
    todo = [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo.extend(x.args[1:])
        elif x.op == 'phi':
            todo.extend(x.args)
        elif x.op == 'mu':
            todo.append(x.args[1])
            if interp is not None and x in interp.mu_back:
                todo.append(interp.mu_back[x])
        else:
            out.append(x)
    return out


def callee(n):
    """Dotted/ method name of a call node: ('ext', dotted) | ('method', name) | ('repo', qual)."""
    if n.op != 'call':
        return (None, None)
    f = n.args[0]
    if f.op == 'ext':
        return ('ext', f.args[0])
    if f.op == 'attr':
        return ('method', f.args[1])
    if f.op in ('fn', 'clsref'):
        return ('repo', f.args[0])
    if f.op == 'bound':
        return ('repo', f.args[1])
    return (None, None)


def dominates(a, b):
    """Event a is executed whenever event b is (same activation)."""
    if a.seq >= b.seq:
        return False
    gb = {(g, p) for g, p, _ in b.guards}
    return all((g, p) in gb for g, p, k in a.guards)


def postdominates(b, a):
    """Whenever a executes, b executes later (exceptional exits aside)."""
    if b.seq <= a.seq:
        return False
    ga = {(g, p) for g, p, _ in a.guards}
    return all(k == 'noraise' or (g, p) in ga for g, p, k in b.guards)


__all__ = [
    'AnalysisError',
    'Event',
    'Interp',
    'Module',
    'Node',
    'alts',
    'callee',
    'children',
    'cval',
    'dominates',
    'is_const',
    'postdominates',
    'show',
    'walk',
]
