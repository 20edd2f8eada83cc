"""Source model: parse the repository, resolve names, classes and methods.

Nothing of the analysed repository is imported or executed.
"""

from __future__ import annotations

import ast
import builtins
import hashlib
import os

REPO = os.environ.get('PELICUN_REPO', '/repo')
SKIP_DIRS = {'tests', 'examples', 'resources', 'settings', '__pycache__'}


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable file)."""


class Func:
    """A function or method definition of the repository."""

    __slots__ = ('cls', 'decorators', 'module', 'name', 'node', 'parent', 'qual')

    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module = module
        self.node = node
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = qual
        self.cls = cls
        self.parent = parent
        self.decorators = [
            ast.unparse(d) for d in getattr(node, 'decorator_list', [])
        ]

    @property
    def is_property(self):
        return 'property' in self.decorators

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_abstract(self):
        return 'abstractmethod' in self.decorators

    @property
    def is_overload(self):
        return any(d.split('.')[-1] == 'overload' for d in self.decorators)

    @property
    def is_public(self):
        return not self.name.startswith('_') and not (
            self.cls and self.cls.name.startswith('_')
        )

    def loc(self, node=None):
        line = getattr(node or self.node, 'lineno', 0)
        return f'{self.module.relpath}:{line}'

    def __repr__(self):
        return f'<Func {self.qual}>'


class Cls:
    """A class definition of the repository."""

    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = f'{module.name}.{node.name}'
        self.methods: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.class_attrs: dict[str, ast.expr] = {}
        self.attr_ann: dict[str, ast.expr] = {}
        self.bases: list[Cls] = []
        self.ext_bases: list[str] = []
        self.subclasses: list[Cls] = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def all_subclasses(self):
        out = []
        for s in self.subclasses:
            out.append(s)
            out.extend(s.all_subclasses())
        return out

    def __repr__(self):
        return f'<Cls {self.qual}>'


class Module:
    """A parsed module."""

    def __init__(self, name, path, relpath, text, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.text = text
        self.is_pkg = is_pkg
        self.tree = ast.parse(text)
        self.imports: dict[str, str] = {}
        self.functions: dict[str, Func] = {}
        self.classes: dict[str, Cls] = {}
        self.globals: dict[str, list[ast.stmt]] = {}


class Repo:
    """The parsed repository."""

    def __init__(self, root=REPO, package='pelicun'):
        self.root = root
        self.package = package
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Cls] = {}
        self.func_by_node: dict[ast.AST, Func] = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f'no package directory {base}')
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d not in SKIP_DIRS)
            for fn in sorted(filenames):
                if fn.endswith('.py'):
                    self._load(os.path.join(dirpath, fn))
        self._index()
        self.digest = hashlib.sha256(
            '\0'.join(
                m.relpath + '\0' + m.text
                for m in sorted(self.modules.values(), key=lambda m: m.name)
            ).encode()
        ).hexdigest()

    # ---- loading -------------------------------------------------------
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as f:
            text = f.read()
        try:
            self.modules[name] = Module(name, path, rel, text, is_pkg)
        except SyntaxError as exc:
            raise AnalysisError(f'cannot parse {rel}: {exc}') from exc

    def _index(self):
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                for child in ast.iter_child_nodes(node):
                    child._parent = node
            self._index_imports(m)
            self._index_body(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                tgt = self.resolve_expr(c.module, b)
                if tgt in self.classes:
                    c.bases.append(self.classes[tgt])
                    self.classes[tgt].subclasses.append(c)
                elif tgt:
                    c.ext_bases.append(tgt)

    def _index_imports(self, m):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    pkg = m.name.split('.')
                    if not m.is_pkg:
                        pkg = pkg[:-1]
                    pkg = pkg[: len(pkg) - (node.level - 1)]
                    base = '.'.join(pkg + ([base] if base else []))
                for a in node.names:
                    m.imports[a.asname or a.name] = f'{base}.{a.name}'

    def _index_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, st, f'{m.name}.{st.name}')
                if not f.is_overload:
                    m.functions[st.name] = f
                    self.funcs[f.qual] = f
                    self.func_by_node[st] = f
                    self._nested(f)
            elif isinstance(st, ast.ClassDef):
                self._index_class(m, st)
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tgts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.globals.setdefault(n.id, []).append(st)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(st, ast.If) and 'TYPE_CHECKING' in ast.unparse(st.test):
                    continue
                for fld in ('body', 'orelse', 'finalbody'):
                    self._index_body(m, getattr(st, fld, []) or [])
                for h in getattr(st, 'handlers', []) or []:
                    self._index_body(m, h.body)

    def _index_class(self, m, st):
        c = Cls(m, st)
        m.classes[st.name] = c
        self.classes[c.qual] = c
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, s, f'{c.qual}.{s.name}', cls=c)
                if f.is_overload:
                    continue
                if any(d.endswith('.setter') for d in f.decorators):
                    f.qual += '.setter'
                    c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
                self.funcs[f.qual] = f
                self.func_by_node[s] = f
                self._nested(f)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.attr_ann[s.target.id] = s.annotation
                if s.value is not None:
                    c.class_attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.class_attrs[t.id] = s.value

    def _nested(self, f):
        for n in ast.walk(f.node):
            if n is f.node:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n in self.func_by_node:
                    continue
                g = Func(
                    f.module, n, f'{f.qual}.<locals>.{n.name}', cls=f.cls, parent=f
                )
                self.func_by_node[n] = g
                self.funcs[g.qual] = g

    # ---- resolution ------------------------------------------------------
    def canonical(self, dotted):
        """Follow re-exports: 'pelicun.file_io' -> module etc."""
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            if (
                dotted in self.modules
                or dotted in self.classes
                or dotted in self.funcs
            ):
                return dotted
            head, _, tail = dotted.rpartition('.')
            if not head:
                return dotted
            h = self.canonical(head)
            if h in self.modules:
                m = self.modules[h]
                if f'{h}.{tail}' in self.modules:
                    return f'{h}.{tail}'
                if tail in m.classes:
                    return m.classes[tail].qual
                if tail in m.functions:
                    return m.functions[tail].qual
                if tail in m.imports and m.imports[tail] != dotted:
                    dotted = m.imports[tail]
                    continue
            return f'{h}.{tail}'
        return dotted

    def resolve_name(self, m, name):
        if name in m.classes:
            return m.classes[name].qual
        if name in m.functions:
            return m.functions[name].qual
        if name in m.globals:
            return f'{m.name}.{name}'
        if name in m.imports:
            return self.canonical(m.imports[name])
        if hasattr(builtins, name):
            return f'builtins.{name}'
        return None

    def resolve_expr(self, m, expr, local_names=()):
        """Dotted target of a Name/Attribute expression, or None."""
        if isinstance(expr, ast.Name):
            if expr.id in local_names:
                return None
            return self.resolve_name(m, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(m, expr.value, local_names)
            return self.canonical(f'{b}.{expr.attr}') if b else None
        if isinstance(expr, ast.Subscript):
            return self.resolve_expr(m, expr.value, local_names)
        if isinstance(expr, ast.Constant) and isinstance(expr.value, str):
            try:
                return self.resolve_expr(m, ast.parse(expr.value, mode='eval').body)
            except SyntaxError:
                return None
        return None

    # ---- anchors ---------------------------------------------------------
    def func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        raise AnalysisError(f'vanished anchor: function {qual}')

    def cls(self, qual):
        if qual in self.classes:
            return self.classes[qual]
        raise AnalysisError(f'vanished anchor: class {qual}')

    def mod(self, name):
        if name in self.modules:
            return self.modules[name]
        raise AnalysisError(f'vanished anchor: module {name}')

    def all_funcs(self, nested=True):
        return [
            f for f in self.funcs.values() if nested or f.parent is None
        ]

    def enclosing_func(self, node):
        n = node
        while n is not None:
            if n in self.func_by_node:
                return self.func_by_node[n]
            n = getattr(n, '_parent', None)
        return None

    def module_of(self, node):
        n = node
        while getattr(n, '_parent', None) is not None:
            n = n._parent
        for m in self.modules.values():
            if m.tree is n:
                return m
        return None
