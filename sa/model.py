"""Program model of /repo: modules, imports, classes (with MRO), functions and static name resolution.

Only the standard library `ast` is used; nothing of the analysed program is imported or executed.
"""

import ast
import hashlib
import os
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple

from .inline import inline_new_helpers, known
from .normalize import normalize

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (source does not parse, or a public anchor vanished)."""


@dataclass(eq=False)
class Func:
    name: str
    node: Any
    module: 'Module'
    cls: Optional['Class'] = None
    parent: Optional['Func'] = None

    @property
    def qual(self) -> str:
        if self.parent is not None:
            return f"{self.parent.qual}.<locals>.{self.name}"
        if self.cls is not None:
            return f"{self.cls.name}.{self.name}"
        return self.name

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{self.qual}"

    @property
    def params(self) -> List[str]:
        a = self.node.args
        return [x.arg for x in (*a.posonlyargs, *a.args)]

    @property
    def decorators(self) -> List[ast.AST]:
        return list(getattr(self.node, 'decorator_list', []))

    def decorator_names(self) -> List[str]:
        result = []
        for d in self.decorators:
            f = d.func if isinstance(d, ast.Call) else d
            while isinstance(f, ast.Attribute):
                result.append(f.attr)
                f = None
            if isinstance(f, ast.Name):
                result.append(f.id)
        return result

    @property
    def is_static(self) -> bool:
        return 'staticmethod' in self.decorator_names()

    @property
    def is_classmethod(self) -> bool:
        return 'classmethod' in self.decorator_names()

    @property
    def is_property(self) -> bool:
        return bool({'property', 'cached_property'} & set(self.decorator_names()))

    @property
    def is_abstract(self) -> bool:
        return 'abstractmethod' in self.decorator_names()

    @property
    def is_generator(self) -> bool:
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))

    def __repr__(self):
        return f"<Func {self.where}>"


@dataclass(eq=False)
class Class:
    name: str
    node: ast.ClassDef
    module: 'Module'
    methods: Dict[str, Func] = field(default_factory=dict)
    attrs: Dict[str, ast.AST] = field(default_factory=dict)
    baseRefs: List[str] = field(default_factory=list)
    bases: List['Class'] = field(default_factory=list)
    extBases: List[str] = field(default_factory=list)
    attrTypes: Dict[str, List[str]] = field(default_factory=dict)

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{self.name}"

    def mro(self) -> List['Class']:
        # C3 would need the external bases as well; all diamonds here are resolved identically by this order
        # (depth first, keeping the last occurrence of every class).
        order: List[Class] = []

        def visit(c):
            order.append(c)
            for b in c.bases:
                visit(b)

        visit(self)
        seen = set()
        result = []
        for c in reversed(order):
            if c not in seen:
                seen.add(c)
                result.append(c)
        return list(reversed(result))

    def all_ext_bases(self) -> List[str]:
        return [b for c in self.mro() for b in c.extBases]

    def find(self, name: str) -> Optional[Func]:
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, owner: 'Class', name: str) -> Optional[Func]:
        """super() lookup: first definition after `owner` in this class's MRO."""
        mro = self.mro()
        idx = mro.index(owner) if owner in mro else -1
        for c in mro[idx + 1 :]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name: str) -> Optional[Tuple['Class', ast.AST]]:
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, other: 'Class') -> bool:
        return other in self.mro()

    def __repr__(self):
        return f"<Class {self.where}>"


@dataclass(eq=False)
class Module:
    name: str
    path: str
    rel: str
    source: str
    tree: ast.Module
    imports: Dict[str, str] = field(default_factory=dict)
    funcs: Dict[str, Func] = field(default_factory=dict)
    classes: Dict[str, Class] = field(default_factory=dict)
    globals: Dict[str, ast.AST] = field(default_factory=dict)
    globalAnn: Dict[str, ast.AST] = field(default_factory=dict)

    def __repr__(self):
        return f"<Module {self.name}>"


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def walk_own(node):
    """Walk a function body without descending into nested functions, lambdas and classes."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (*FUNCS, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(node) -> Optional[str]:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


class Program:
    ROOTS = (('core/ratarmountcore', 'ratarmountcore'), ('ratarmount', 'ratarmount'))
    EXCLUDE = ('_external',)

    def __init__(self, repo: str = REPO, overrides=None):
        self.overrides = overrides or {}
        self.known = known()
        self.repo = repo
        self.modules: Dict[str, Module] = {}
        self.digests: Dict[str, str] = {}
        for root, package in self.ROOTS:
            base = os.path.join(repo, root)
            if not os.path.isdir(base):
                raise AnalysisBroken(f"source folder {root} is missing")
            for dirpath, dirnames, filenames in os.walk(base):
                dirnames[:] = sorted(d for d in dirnames if d not in self.EXCLUDE and d != '__pycache__')
                for f in sorted(filenames):
                    if f.endswith('.py'):
                        self._load(os.path.join(dirpath, f), base, package)
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            for c in m.classes.values():
                self._link(c)
        for m in self.modules.values():
            for c in m.classes.values():
                self._attr_types(c)
        self._subclasses: Dict[Class, List[Class]] = {}
        for c in self.all_classes():
            for b in c.mro()[1:]:
                self._subclasses.setdefault(b, []).append(c)

    # ---- loading

    def _load(self, path, base, package):
        rel = os.path.relpath(path, self.repo)
        parts = os.path.relpath(path, base)[:-3].split(os.sep)
        if parts[-1] == '__init__':
            parts = parts[:-1]
        name = '.'.join([package, *parts])
        with open(path, encoding='utf-8') as f:
            source = self.overrides.get(rel) or f.read()
        try:
            tree = ast.parse(source, filename=rel)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel} does not parse: {e}") from e
        tree = normalize(inline_new_helpers(rel, tree, self.known))
        self.digests[rel] = hashlib.sha256(source.encode()).hexdigest()[:16]
        self.modules[name] = Module(name, path, rel, source, tree)

    def _package_of(self, m: Module, level: int) -> str:
        parts = m.name.split('.')
        if not m.path.endswith('__init__.py'):
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return '.'.join(parts)

    def _collect(self, m: Module):
        for node in ast.walk(m.tree):
            # Imports inside functions are folded into the module namespace; the program has no clashing names.
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, a.name)
                    else:
                        m.imports.setdefault(a.name.split('.')[0], a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                target = node.module or ''
                if node.level:
                    pkg = self._package_of(m, node.level)
                    target = f"{pkg}.{target}" if target else pkg
                for a in node.names:
                    m.imports.setdefault(a.asname or a.name, f"{target}.{a.name}")

        def collect_body(body):
            for node in body:
                if isinstance(node, FUNCS):
                    m.funcs[node.name] = Func(node.name, node, m)
                elif isinstance(node, ast.ClassDef):
                    if node.name not in m.classes:
                        self._collect_class(m, node)
                elif isinstance(node, ast.Assign):
                    for t in node.targets:
                        if isinstance(t, ast.Name):
                            m.globals[t.id] = node.value
                elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                    m.globalAnn[node.target.id] = node.annotation
                    if node.value is not None:
                        m.globals[node.target.id] = node.value
                elif isinstance(node, ast.If):
                    collect_body(node.body)
                    collect_body(node.orelse)
                elif isinstance(node, ast.Try):
                    collect_body(node.body)
                    for h in node.handlers:
                        collect_body(h.body)
                    collect_body(node.orelse)
                    collect_body(node.finalbody)
                elif isinstance(node, ast.With):
                    collect_body(node.body)

        collect_body(m.tree.body)

    def _collect_class(self, m: Module, node: ast.ClassDef):
        c = Class(node.name, node, m)
        for b in node.bases:
            d = dotted(b.value if isinstance(b, ast.Subscript) else b)
            c.baseRefs.append(d or '?')
        for item in node.body:
            if isinstance(item, FUNCS):
                if 'setter' not in Func(item.name, item, m).decorator_names():
                    c.methods[item.name] = Func(item.name, item, m, c)
            elif isinstance(item, ast.Assign):
                for t in item.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = item.value
            elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name):
                c.attrs[item.target.id] = item.value if item.value is not None else item.annotation
        m.classes[node.name] = c

    def _link(self, c: Class):
        for ref in c.baseRefs:
            r = self.resolve(c.module, ref)
            if isinstance(r, Class):
                c.bases.append(r)
            else:
                c.extBases.append(r if isinstance(r, str) else ref)

    # ---- types of attributes (from annotations and constructor calls)

    def classes_in_annotation(self, m: Module, ann) -> List[Class]:
        out = []
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return out
        if ann is None:
            return out
        if isinstance(ann, ast.Subscript):
            head = dotted(ann.value) or ''
            if head.split('.')[-1] in ('Optional', 'Union'):
                for e in ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]:
                    out += self.classes_in_annotation(m, e)
            return out
        if isinstance(ann, ast.BinOp):
            return self.classes_in_annotation(m, ann.left) + self.classes_in_annotation(m, ann.right)
        d = dotted(ann)
        if d:
            r = self.resolve(m, d)
            if isinstance(r, Class):
                out.append(r)
        return out

    def _attr_types(self, c: Class):
        for f in c.methods.values():
            if not f.params:
                continue
            selfName = f.params[0]
            annotated = {
                a.arg: a.annotation
                for a in (*f.node.args.posonlyargs, *f.node.args.args, *f.node.args.kwonlyargs)
                if a.annotation
            }
            for n in walk_own(f.node):
                if isinstance(n, ast.AnnAssign):
                    target, ann, value = n.target, n.annotation, n.value
                elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                    target, ann, value = n.targets[0], None, n.value
                else:
                    continue
                if (
                    isinstance(target, ast.Attribute)
                    and isinstance(target.value, ast.Name)
                    and target.value.id == selfName
                ):
                    found = self.classes_in_annotation(c.module, ann)
                    if isinstance(value, ast.Name) and value.id in annotated:
                        found = found + self.classes_in_annotation(c.module, annotated[value.id])
                    if isinstance(value, ast.Call):
                        d = dotted(value.func)
                        r = self.resolve(c.module, d) if d else None
                        if isinstance(r, Class):
                            found = found + [r]
                    lst = c.attrTypes.setdefault(target.attr, [])
                    for x in found:
                        if x not in lst:
                            lst.append(x)

    def attr_classes(self, c: Class, attr: str) -> List[Class]:
        out = []
        for k in c.mro():
            for x in k.attrTypes.get(attr, []):
                if x not in out:
                    out.append(x)
        return out

    # ---- resolution

    def resolve(self, m: Module, name: str):
        """Resolve a dotted name in module m: Class | Func | Module | ('global', Module, name) | external dotted str."""
        head, _, rest = name.partition('.')
        if head in m.classes:
            r: Any = m.classes[head]
        elif head in m.funcs:
            r = m.funcs[head]
        elif head in m.imports:
            return self.resolve_abs(m.imports[head] + ('.' + rest if rest else ''))
        elif head in m.globals:
            r = ('global', m, head)
        else:
            return name
        if rest:
            if isinstance(r, Class):
                f = r.find(rest)
                if f:
                    return f
                a = r.find_attr(rest)
                if a:
                    return ('classattr', a[0], rest)
            return name
        return r

    def resolve_abs(self, name: str, depth: int = 0):
        if depth > 10:
            return name
        parts = name.split('.')
        if name in self.modules:
            # A package attribute (from .X import X) shadows the submodule X of the same name.
            parent = self.modules.get('.'.join(parts[:-1]))
            if parent is not None and parent.imports.get(parts[-1], name) != name:
                return self.resolve_abs(parent.imports[parts[-1]], depth + 1)
            return self.modules[name]
        for i in range(len(parts) - 1, 0, -1):
            modName = '.'.join(parts[:i])
            if modName in self.modules:
                m = self.modules[modName]
                rest = parts[i:]
                head = rest[0]
                if head in m.classes:
                    c = m.classes[head]
                    if len(rest) == 1:
                        return c
                    f = c.find(rest[1])
                    if f:
                        return f
                    a = c.find_attr(rest[1])
                    return ('classattr', a[0], rest[1]) if a else name
                if head in m.funcs:
                    return m.funcs[head]
                if head in m.imports and m.imports[head] != name:
                    return self.resolve_abs('.'.join([m.imports[head], *rest[1:]]), depth + 1)
                if head in m.globals:
                    return ('global', m, head)
                return name
        return name

    # ---- queries

    def all_classes(self) -> List[Class]:
        return [c for m in self.modules.values() for c in m.classes.values()]

    def all_funcs(self) -> List[Func]:
        out = []
        for m in self.modules.values():
            out += list(m.funcs.values())
            for c in m.classes.values():
                out += list(c.methods.values())
        return out

    def subclasses(self, c: Class) -> List[Class]:
        return self._subclasses.get(c, [])

    def cls(self, name: str, required=True) -> Optional[Class]:
        found = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if len(found) == 1:
            return found[0]
        if not found and not required:
            return None
        raise AnalysisBroken(f"anchor class {name}: {len(found)} definitions found")

    def func(self, modName: str, name: str, required=True) -> Optional[Func]:
        m = self.modules.get(modName)
        f = m.funcs.get(name) if m else None
        if f is None and m and name in m.imports:
            r = self.resolve(m, name)
            f = r if isinstance(r, Func) else None
        if f is None and required:
            raise AnalysisBroken(f"anchor function {modName}.{name} is missing")
        return f

    def method(self, clsName: str, name: str, required=True) -> Optional[Func]:
        c = self.cls(clsName, required)
        f = c.find(name) if c else None
        if f is None and required:
            raise AnalysisBroken(f"anchor method {clsName}.{name} is missing")
        return f


_program: Optional[Program] = None


def program() -> Program:
    global _program
    if _program is None:
        _program = Program()
    return _program
