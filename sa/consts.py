"""Which expressions are built from program constants only (no archive, request or environment data)?

Demand-driven backward slice over the syntax tree: locals through all their assignments, loop and comprehension
variables through their iterables, private parameters through all call sites in the program, attributes through all stores.
"""

import ast
import re
from typing import Dict, List, Optional, Tuple

from .model import FUNCS, Func, Module, Program, dotted

NUMERIC = {'len', 'int', 'float', 'abs', 'bool', 'ord', 'hash', 'id'}
PASS = {'str', 'repr', 'list', 'tuple', 'sorted', 'set', 'max', 'min', 'sum', 'frozenset', 'dict', 'reversed', 'enumerate', 'zip', 'range', 'next', 'iter'}
STR_METHODS = {'join', 'format', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'split', 'items', 'keys', 'values', 'copy', 'intersection', 'union',
               'difference', 'get', 'removeprefix', 'removesuffix', 'read_text'}


class ConstSlice:
    def __init__(self, prog: Program, skip=('.tests',)):
        self.prog = prog
        self.active = set()
        self.memo: Dict = {}
        self.calls: Optional[Dict[str, List]] = None
        self.owner: Dict[int, Tuple[Optional[Func], Module]] = {}
        self.parents: Dict[int, ast.AST] = {}
        self.modules = [m for m in prog.modules.values() if not any(s in m.name for s in skip)]
        self.funcs_of_node: Dict[int, Func] = {}
        for f in prog.all_funcs():
            self.funcs_of_node[id(f.node)] = f
        self.callsites: Dict[str, List] = {}
        self.selfstores: Dict[Tuple[str, str], List] = {}
        for m in self.modules:
            self._index(m.tree, m, None, None)

    def _index(self, node, m, fn, cls):
        for ch in ast.iter_child_nodes(node):
            self.parents[id(ch)] = node
            f2, c2 = fn, cls
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                f2 = ch
            elif isinstance(ch, ast.ClassDef):
                c2, f2 = ch, None
            self.owner[id(ch)] = (f2 if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else fn, m, c2)
            if isinstance(ch, ast.Call):
                n = dotted(ch.func)
                if n:
                    self.callsites.setdefault(n.split('.')[-1], []).append((ch, fn, m, cls))
                elif isinstance(ch.func, ast.Attribute):
                    self.callsites.setdefault(ch.func.attr, []).append((ch, fn, m, cls))
            if isinstance(ch, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = ch.targets if isinstance(ch, ast.Assign) else [ch.target]
                for t in targets:
                    if isinstance(t, ast.Attribute) and ch.value is not None:
                        self.selfstores.setdefault((cls.name if cls else '', t.attr), []).append((ch.value, f2, m, cls))
            self._index(ch, m, f2, c2)

    # ---- entry

    def ok(self, e, fn, m, cls) -> bool:
        key = (id(e), id(fn))
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return True
        self.active.add(key)
        try:
            r = self._ok(e, fn, m, cls)
        finally:
            self.active.discard(key)
        if not self.active:
            self.memo[key] = r
        return r

    def _ok(self, e, fn, m, cls) -> bool:
        ok = lambda x: self.ok(x, fn, m, cls)
        if e is None or isinstance(e, (ast.Constant, ast.Compare)):
            return True
        if isinstance(e, ast.JoinedStr):
            return all(ok(v) for v in e.values)
        if isinstance(e, ast.FormattedValue):
            return ok(e.value)
        if isinstance(e, ast.BinOp):
            return ok(e.left) and ok(e.right)
        if isinstance(e, ast.BoolOp):
            return all(ok(v) for v in e.values)
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not) or ok(e.operand)
        if isinstance(e, ast.IfExp):
            return ok(e.body) and ok(e.orelse)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return all(ok(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return all(ok(x) for x in (*e.keys, *e.values) if x is not None)
        if isinstance(e, ast.Starred):
            return ok(e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return ok(e.elt)
        if isinstance(e, ast.Subscript):
            return ok(e.value)
        if isinstance(e, ast.NamedExpr):
            return ok(e.value)
        if isinstance(e, ast.Call):
            return self._call(e, fn, m, cls)
        if isinstance(e, ast.Name):
            return self._name(e, e.id, fn, m, cls)
        if isinstance(e, ast.Attribute):
            return self._attr(e, fn, m, cls)
        return False

    def _call(self, e, fn, m, cls):
        ok = lambda x: self.ok(x, fn, m, cls)
        args = list(e.args) + [k.value for k in e.keywords]
        if isinstance(e.func, ast.Name) and e.func.id in NUMERIC:
            return True
        if isinstance(e.func, ast.Name) and e.func.id in PASS:
            return all(ok(a) for a in args)
        if isinstance(e.func, ast.Attribute):
            if e.func.attr in ('hex', 'count', 'index', 'find', 'isdigit', 'startswith', 'endswith', 'tell', 'fileno'):
                return True
            if e.func.attr == 'read_text':
                return any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith('.sql') for x in ast.walk(e))
            if e.func.attr in STR_METHODS and not isinstance(self._resolve(e.func, m), Func):
                return ok(e.func.value) and all(ok(a) for a in args)
            if e.func.attr == 'fetchone' or e.func.attr == 'fetchall':
                return False
        f = self._callee(e, fn, m, cls)
        if f is not None:
            rets = [r.value for r in self._own(f.node) if isinstance(r, ast.Return)]
            return bool(rets) and all(self.ok(r, f.node, f.module, f.cls.node if f.cls else None) for r in rets)
        return False

    def _resolve(self, node, m):
        n = dotted(node)
        return self.prog.resolve(m, n) if n else None

    def _callee(self, e, fn, m, cls) -> Optional[Func]:
        r = self._resolve(e.func, m)
        if isinstance(r, Func):
            return r
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ('self', 'cls') and cls is not None:
            k = self._class(m, cls)
            return k.find(e.func.attr) if k else None
        if isinstance(e.func, ast.Name):
            for x in self._scopes(fn):
                for y in self._own(x):
                    if isinstance(y, (ast.FunctionDef,)) and y.name == e.func.id:
                        return self.funcs_of_node.get(id(y))
        return None

    def _class(self, m, node):
        for c in self.prog.all_classes():
            if c.node is node:
                return c
        return None

    def _scopes(self, fn):
        while fn is not None:
            yield fn
            fn = self.owner.get(id(fn), (None,))[0]

    @staticmethod
    def _own(node):
        """Nodes of a function body without nested functions' bodies (the nested definitions themselves are included)."""
        stack = list(ast.iter_child_nodes(node))
        while stack:
            x = stack.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))

    def _name(self, e, name, fn, m, cls):
        # comprehension variables
        p = self.parents.get(id(e))
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in p.generators:
                    r = self._target(g.target, g.iter, name, fn, m, cls)
                    if r is not None:
                        return r
            p = self.parents.get(id(p))
        for scope in self._scopes(fn):
            found = []
            if self._int_checked(name, scope):
                return True
            nodes = list(self._own(scope))
            for x in nodes:
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == name:
                            found.append(self.ok(x.value, scope, m, cls))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, y in enumerate(t.elts):
                                if isinstance(y, ast.Name) and y.id == name:
                                    v = x.value.elts[i] if isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == len(t.elts) else x.value
                                    found.append(self.ok(v, scope, m, cls))
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    found.append(self.ok(x.value, scope, m, cls))
                elif isinstance(x, (ast.For, ast.AsyncFor)):
                    r = self._target(x.target, x.iter, name, scope, m, cls)
                    if r is not None:
                        found.append(r)
                elif isinstance(x, ast.withitem) and x.optional_vars is not None and isinstance(x.optional_vars, ast.Name) and x.optional_vars.id == name:
                    found.append(self.ok(x.context_expr, scope, m, cls))
                elif isinstance(x, ast.NamedExpr) and isinstance(x.target, ast.Name) and x.target.id == name:
                    found.append(self.ok(x.value, scope, m, cls))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.func.attr in (
                    'append', 'add', 'extend', 'insert', 'update'):
                    found.append(all(self.ok(a, scope, m, cls) for a in x.args))
            params = self._params(scope)
            if name in params:
                found.append(self._param(scope, name, params, m, cls))
            if found:
                return all(found)
        r = self.prog.resolve(m, name)
        if isinstance(r, tuple) and r[0] == 'global':
            node = r[1].globals.get(r[2])
            return node is not None and self.ok(node, None, r[1], None)
        return False

    def _target(self, target, it, name, fn, m, cls) -> Optional[bool]:
        if isinstance(target, ast.Name):
            return self._iter(it, None, fn, m, cls) if target.id == name else None
        if isinstance(target, (ast.Tuple, ast.List)):
            for i, y in enumerate(target.elts):
                if isinstance(y, ast.Name) and y.id == name:
                    return self._iter(it, i, fn, m, cls)
                if isinstance(y, (ast.Tuple, ast.List)):
                    r = self._target(y, it, name, fn, m, cls)
                    if r is not None:
                        return r
        return None

    def _iter(self, it, index, fn, m, cls):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'execute' and it.args:
            t = flat(it.args[0])
            mt = re.match(r'\s*SELECT\s+(.*?)\s+FROM\b', t, re.I | re.S)
            if mt:
                cols = [x.strip() for x in re.split(r',(?![^(]*\))', mt[1])]
                c = cols[index or 0] if (index or 0) < len(cols) else ''
                return bool(re.match(r'(ROWID|LENGTH\(.*\)|COUNT\(.*\))$', c, re.I))
            return False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and index == 0:
            return True
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args and (
            it.func.attr == 'keys' or (it.func.attr == 'items' and index == 0)
        ):
            return self.keys_ok(it.func.value, fn, m, cls)
        return self.ok(it, fn, m, cls) or (index is None and isinstance(it, ast.Name) and self.keys_ok(it, fn, m, cls))

    def keys_ok(self, e, fn, m, cls, depth=0) -> bool:
        """All keys of a dictionary are program constants (or keyword argument names)."""
        if isinstance(e, ast.Dict):
            return all(k is not None and self.ok(k, fn, m, cls) or (k is None and self.keys_ok(v, fn, m, cls, depth + 1)) for k, v in zip(e.keys, e.values))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict':
            return all(self.keys_ok(a, fn, m, cls, depth + 1) for a in e.args)
        if isinstance(e, (ast.DictComp,)):
            return self.ok(e.key, fn, m, cls)
        if isinstance(e, ast.BinOp):
            return self.keys_ok(e.left, fn, m, cls, depth + 1) and self.keys_ok(e.right, fn, m, cls, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.keys_ok(e.body, fn, m, cls, depth + 1) and self.keys_ok(e.orelse, fn, m, cls, depth + 1)
        if isinstance(e, ast.Name) and depth < 8:
            for scope in self._scopes(fn):
                found = []
                for x in self._own(scope):
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                        for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                            if isinstance(t, ast.Name) and t.id == e.id:
                                found.append(self.keys_ok(x.value, scope, m, cls, depth + 1))
                            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id:
                                found.append(self.ok(t.slice, scope, m, cls))
                    elif isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and x.iter.id == e.id and isinstance(x.target, ast.Name):
                        # for key in dictionary: if key not in ALLOWED: raise
                        for y in ast.walk(x):
                            if (
                                isinstance(y, ast.If) and isinstance(y.test, ast.Compare) and isinstance(y.test.ops[0], ast.NotIn)
                                and isinstance(y.test.left, ast.Name) and y.test.left.id == x.target.id
                                and isinstance(y.body[-1], ast.Raise) and self.ok(y.test.comparators[0], scope, m, cls)
                            ):
                                return True
                if e.id in self._params(scope):
                    if scope.args.kwarg and scope.args.kwarg.arg == e.id:
                        found.append(True)
                    else:
                        found.append(self._param(scope, e.id, None, m, cls, dkeys=depth + 1))
                if found:
                    return all(found)
            r = self.prog.resolve(m, e.id)
            if isinstance(r, tuple) and r[0] == 'global':
                node = r[1].globals.get(r[2])
                return node is not None and self.keys_ok(node, None, r[1], None, depth + 1)
        return False

    def _int_checked(self, name, scope):
        """isinstance(name, int) is asserted (or its negation raises) somewhere in the function."""
        for x in self._own(scope):
            t = None
            if isinstance(x, ast.Assert):
                t = x.test
            elif isinstance(x, ast.If) and isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) and isinstance(x.body[-1], (ast.Raise, ast.Return)):
                t = x.test.operand
            for y in ast.walk(t) if t is not None else ():
                if (
                    isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == 'isinstance' and len(y.args) == 2
                    and isinstance(y.args[0], ast.Name) and y.args[0].id == name and isinstance(y.args[1], ast.Name) and y.args[1].id in ('int', 'float', 'bool')
                ):
                    return True
        return False

    @staticmethod
    def _params(scope):
        a = scope.args
        return [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])

    def _param(self, scope, name, params, m, cls, dkeys=0):
        if isinstance(scope, ast.Lambda) or not hasattr(scope, 'name'):
            return False
        fname = scope.name
        a = scope.args
        pos = [x.arg for x in (*a.posonlyargs, *a.args)]
        func = self.funcs_of_node.get(id(scope))
        method = func is not None and func.cls is not None and not func.is_static
        keys = [fname]
        if fname == '__init__' and cls is not None:
            keys = [cls.name, '__init__'] + [c.name for c in self.prog.all_classes() if any(b.node is cls for b in c.mro()) and '__init__' not in c.methods]
        oks = []
        for k in keys:
            for call, fn2, m2, cls2 in self.callsites.get(k, ()):
                if k == '__init__' and not (cls2 is not None and any(b.node is cls for b in (self._class(m2, cls2).mro() if self._class(m2, cls2) else ())[1:])):
                    continue
                if k == fname and not self.related(call, m2, cls2, cls):
                    continue
                offset = 1 if method else 0
                if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and k != 'super' and method and self._is_class(m2, call.func.value.id) and k == fname and not func.is_classmethod:
                    offset = 0
                kw = {x.arg: x.value for x in call.keywords if x.arg}
                good = (lambda v, *a: self.keys_ok(v, *a, depth=dkeys)) if dkeys else self.ok
                if name in kw:
                    oks.append(good(kw[name], fn2, m2, cls2))
                elif name in pos:
                    i = pos.index(name) - offset
                    if 0 <= i < len(call.args):
                        if any(isinstance(x, ast.Starred) for x in call.args[: i + 1]):
                            oks.append(False)
                        else:
                            oks.append(good(call.args[i], fn2, m2, cls2))
                elif a.vararg and a.vararg.arg == name:
                    oks.append(all(self.ok(x, fn2, m2, cls2) for x in call.args[max(0, len(pos) - offset):]))
        # A function nobody calls is called from outside, with anything.
        return all(oks) and (bool(oks) or self._default(a, name, func, m, cls))

    def _default(self, a, name, func, m, cls) -> bool:
        pos = [*a.posonlyargs, *a.args]
        d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update((x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None)
        return name in d

    def related(self, call, m2, cls2, cls) -> bool:
        """Can this call by name refer to a method of (a relative of) the given class?"""
        from .model import Class

        if cls is None:
            return True
        if not isinstance(call.func, ast.Attribute):
            return False
        base = call.func.value
        other = None
        if isinstance(base, ast.Name) and base.id in ('self', 'cls'):
            other = cls2
        else:
            r = self._resolve(base, m2)
            if isinstance(r, Class):
                other = r.node
            elif isinstance(r, str) and isinstance(base, ast.Name) and base.id in m2.imports and cls is not None:
                return False  # a function of an external module
        if other is None:
            return True
        a = b = None
        for x in self.prog.all_classes():
            if x.node is cls:
                a = x
            if x.node is other:
                b = x
        return a is None or b is None or a in b.mro() or b in a.mro()

    def _is_class(self, m, name):
        from .model import Class

        return isinstance(self.prog.resolve(m, name), Class)

    def _attr(self, e, fn, m, cls):
        from .model import Class

        base = e.value
        klass = None
        if isinstance(base, ast.Name) and base.id in ('self', 'cls') and cls is not None:
            klass = self._class(m, cls)
        else:
            r = self._resolve(base, m)
            if isinstance(r, Class):
                klass = r
        if klass is None:
            return False
        found = []
        a = klass.find_attr(e.attr)
        if a is not None and a[1] is not None:
            found.append(self.ok(a[1], None, a[0].module, a[0].node))
        for c in klass.mro():
            for value, f2, m2, c2 in self.selfstores.get((c.name, e.attr), ()):
                found.append(self.ok(value, f2, m2, c2))
        return bool(found) and all(found)


def flat(e) -> str:
    """Constant text of an SQL expression, holes as \x00."""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else str(e.value)
    if isinstance(e, ast.JoinedStr):
        return ''.join(flat(v) for v in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return flat(e.left) + flat(e.right)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('strip', 'format', 'replace'):
        return flat(e.func.value)
    return '\x00'


class Trace(ConstSlice):
    """Identifiers an expression is computed from, through locals, helpers' results and (optionally) iterables."""

    def tokens(self, e, fn, m, cls, depth=0, helpers=True, seen=None) -> set:
        seen = set() if seen is None else seen
        key = (id(e), id(fn))
        if e is None or key in seen or depth > 14:
            return set()
        seen.add(key)
        rec = lambda x, f=fn, mm=m, c=cls: self.tokens(x, f, mm, c, depth + 1, helpers, seen)
        out: set = set()
        if isinstance(e, ast.Constant):
            return {e.value} if isinstance(e.value, str) and e.value.isidentifier() else set()
        if isinstance(e, ast.Name):
            d = self.definitions(e, fn, m, cls)
            if d is None:
                return {e.id}
            for v, scope in d:
                out |= rec(v, scope)
            return out or {e.id}
        if isinstance(e, ast.Attribute):
            out.add(e.attr)
            out |= rec(e.value) if not (isinstance(e.value, ast.Name) and self.definitions(e.value, fn, m, cls) is None) else {e.value.id}
            return out
        if isinstance(e, ast.Call):
            f = self._callee(e, fn, m, cls) if helpers else None
            if isinstance(e.func, ast.Attribute):
                out.add(e.func.attr)
                out |= rec(e.func.value)
            elif isinstance(e.func, ast.Name):
                out.add(e.func.id)
            if f is not None and f.node is not fn:
                for r in self._own(f.node):
                    if isinstance(r, ast.Return):
                        out |= rec(r.value, f.node, f.module, f.cls.node if f.cls else None)
            for a in (*e.args, *[k.value for k in e.keywords]):
                out |= rec(a)
            return out
        if isinstance(e, ast.IfExp):
            return rec(e.body) | rec(e.orelse)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                out |= rec(ch)
        return out

    def definitions(self, e, fn, m, cls):
        """[(value expression, scope)] of a local name; None when it is a parameter, loop variable or unknown."""
        name = e.id
        for scope in self._scopes(fn):
            found = []
            opaque = False
            for x in self._own(scope):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == name:
                            found.append((x.value, scope))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, y in enumerate(t.elts):
                                y = y.value if isinstance(y, ast.Starred) else y
                                if isinstance(y, ast.Name) and y.id == name:
                                    v = x.value.elts[i] if isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == len(t.elts) else x.value
                                    found.append((v, scope))
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    found.append((x.value, scope))
                elif isinstance(x, ast.NamedExpr) and x.target.id == name:
                    found.append((x.value, scope))
                elif isinstance(x, (ast.For, ast.withitem, ast.comprehension)):
                    t = x.target if not isinstance(x, ast.withitem) else x.optional_vars
                    if t is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(t)):
                        opaque = True
            if name in self._params(scope):
                if found:
                    found.append((ast.Name(id=name, ctx=ast.Load()), None))
                    found = [f for f in found if f[1] is not None]
                    return found
                return None
            if found:
                return found
            if opaque:
                return None
        r = self.prog.resolve(m, name)
        if isinstance(r, tuple) and r[0] == 'global':
            node = r[1].globals.get(r[2])
            if node is not None and isinstance(node, (ast.Dict, ast.Constant, ast.Tuple, ast.List, ast.Set)):
                return [(node, None)]
        return None
