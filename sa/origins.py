"""Where a value may come from: demand-driven backward slice over the whole program, flow-insensitive, through locals,
loop and with targets, attributes, results of helpers and the arguments of all callers.

Leaves are (kind, name, how): kind 'const', 'temp', 'param', 'attr', 'key', 'call' or '?'; how tells whether the value is the
leaf itself ('same'), a path below it ('child'), a sibling built by appending to it ('suffix') or its folder ('parent').
"""

import ast
from typing import Set, Tuple

from .consts import ConstSlice
from .model import Class, Func, dotted

SAME = {
    'str', 'Path', 'PurePath', 'fspath', 'abspath', 'realpath', 'normpath', 'expanduser', 'resolve', 'absolute', 'as_posix', 'cast', 'next', 'iter', 'list',
    'tuple', 'sorted', 'set', 'reversed', 'encode', 'decode', 'strip', 'rstrip', 'lstrip', 'fsencode', 'fsdecode', 'enter_context', 'fileno', 'values', 'copy', 'deepcopy', 'dict',
    'nullcontext', 'closing', 'bytes', 'replace', 'pop', 'get', 'items',
}
ORDER = {'same': 0, 'child': 1, 'suffix': 2, 'parent': 3}


class Origins(ConstSlice):
    def leaves(self, e, fn, m, cls, how='same', seen=None, depth=0) -> Set[Tuple[str, str, str]]:
        seen = set() if seen is None else seen
        key = (id(e), id(fn), how)
        if e is None or key in seen or depth > 30:
            return set()
        seen.add(key)
        rec = lambda x, h=how, f=fn, mm=m, c=cls: self.leaves(x, f, mm, c, h, seen, depth + 1)
        worse = lambda h: h if ORDER[h] > ORDER[how] else how
        if isinstance(e, ast.Constant):
            return {('const', repr(e.value), how)}
        if isinstance(e, ast.JoinedStr):
            text = any(isinstance(v, ast.Constant) and v.value for v in e.values)
            slash = any(isinstance(v, ast.Constant) and '/' in str(v.value) for v in e.values[1:])
            out = set()
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    out |= rec(v.value, worse('child' if slash else 'suffix') if text or len(e.values) > 1 else how)
            return out
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Div):
                return rec(e.left, worse('child'))
            if isinstance(e.op, ast.Add):
                right = e.right.value if isinstance(e.right, ast.Constant) else None
                if right in ('', b''):
                    return rec(e.left)
                return rec(e.left, worse('child' if isinstance(right, str) and right.startswith('/') else 'suffix')) | (
                    set() if isinstance(e.right, ast.Constant) else rec(e.right, worse('suffix')))
            return {('?', type(e.op).__name__, how)}
        if isinstance(e, ast.BoolOp):
            return set().union(*[rec(v) for v in e.values])
        if isinstance(e, ast.IfExp):
            return rec(e.body) | rec(e.orelse)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(set(), *[rec(x) for x in e.elts])
        if isinstance(e, ast.Dict):
            return set().union(set(), *[rec(x) for x in e.values if x is not None])
        if isinstance(e, ast.Starred):
            return rec(e.value)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return rec(e.elt)
        if isinstance(e, ast.NamedExpr):
            return rec(e.value)
        if isinstance(e, ast.Await):
            return rec(e.value)
        if isinstance(e, ast.Subscript):
            out = rec(e.value)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                return {('key', e.slice.value, how)}
            return out
        if isinstance(e, ast.Call):
            return self._call_leaves(e, fn, m, cls, how, rec, worse)
        if isinstance(e, ast.Attribute):
            return self._attr_leaves(e, fn, m, cls, how, rec, worse)
        if isinstance(e, ast.Name):
            return self._name_leaves(e, fn, m, cls, how, seen, depth, rec)
        return {('?', type(e).__name__, how)}

    def _call_leaves(self, e, fn, m, cls, how, rec, worse):
        n = dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else '')
        last = n.split('.')[-1]
        r = self._resolve(e.func, m)
        full = r[1] if isinstance(r, tuple) and r and r[0] == 'ext' else n
        if str(full).startswith('tempfile.') or last in ('NamedTemporaryFile', 'TemporaryFile', 'TemporaryDirectory', 'mkdtemp', 'mkstemp', 'SpooledTemporaryFile'):
            return {('temp', last, how)}
        if last == 'join' and e.args and (n.startswith(('os.path', 'posixpath', 'path.'))):
            return rec(e.args[0], worse('child')) if len(e.args) > 1 else rec(e.args[0])
        if last == 'dirname' and e.args:
            return rec(e.args[0], worse('parent'))
        f = self._callee(e, fn, m, cls)
        if f is not None:
            rets = [x.value for x in self._own(f.node) if isinstance(x, (ast.Return, ast.Yield)) and x.value is not None]
            return set().union(set(), *[rec(x, how, f.node, f.module, f.cls.node if f.cls else None) for x in rets]) or {('call', f.qual if isinstance(f.qual, str) else last, how)}
        if isinstance(r, Class):
            return {('new', r.name, how)}
        if last in SAME:
            if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ('os', 'typing', 'contextlib', 'copy', 'posixpath')) and n.rpartition('.')[0] != 'os.path':
                if last == 'enter_context' and e.args:
                    return rec(e.args[0])
                if last in ('get', 'pop') and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                    return {('key', e.args[0].value, how)}
                if last == 'Path' and e.args:
                    return rec(e.args[0])
                return rec(e.func.value)
            args = e.args[1:] if last == 'cast' and len(e.args) > 1 else e.args[:1]
            if last in ('Path', 'PurePath') and len(e.args) > 1:
                return rec(e.args[0], worse('child'))
            return set().union(set(), *[rec(a) for a in args])
        return {('call', n, how)}

    def _attr_leaves(self, e, fn, m, cls, how, rec, worse):
        base = e.value
        if e.attr in ('parent',):
            return rec(base, worse('parent'))
        if isinstance(base, ast.Name) and base.id in ('self', 'cls') and cls is not None:
            klass = self._class(m, cls)
            out = set()
            if klass is not None:
                for c in klass.mro():
                    for value, f2, m2, c2 in self.selfstores.get((c.name, e.attr), ()):
                        if not (isinstance(value, ast.Constant) and value.value is None):
                            out |= rec(value, how, f2, m2, c2)
                prop = klass.find(e.attr)
                if prop is not None:
                    for x in self._own(prop.node):
                        if isinstance(x, ast.Return) and prop.is_property:
                            out |= rec(x.value, how, prop.node, prop.module, prop.cls.node if prop.cls else None)
            return out or {('attr', e.attr, how)}
        if e.attr in ('name', 'file', 'buffer', 'raw'):
            got = rec(base)
            if got:
                return got
        return {('attr', e.attr, how)}

    def _name_leaves(self, e, fn, m, cls, how, seen, depth, rec):
        name = e.id
        for scope in self._scopes(fn):
            out = set()
            found = False
            for x in self._own(scope):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == name:
                            found = True
                            out |= rec(x.value, how, scope)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, y in enumerate(t.elts):
                                y = y.value if isinstance(y, ast.Starred) else y
                                if isinstance(y, ast.Name) and y.id == name:
                                    found = True
                                    v = x.value.elts[i] if isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == len(t.elts) else x.value
                                    out |= rec(v, how, scope)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    found = True
                    out |= rec(x.value, 'suffix', scope)
                elif isinstance(x, ast.NamedExpr) and x.target.id == name:
                    found = True
                    out |= rec(x.value, how, scope)
                elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
                    if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                        found = True
                        out |= rec(x.iter, how, scope)
                elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                    if any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.optional_vars)):
                        found = True
                        out |= rec(x.context_expr, how, scope)
            if name in self._params(scope):
                return out | self._param_leaves(scope, name, m, cls, how, seen, depth)
            if found:
                return out
        r = self.prog.resolve(m, name)
        if isinstance(r, tuple) and r[0] == 'global':
            node = r[1].globals.get(r[2])
            if isinstance(node, ast.expr):
                return rec(node, how, None, r[1], None)
        return {('name', name, how)}

    def _param_leaves(self, scope, name, m, cls, how, seen, depth):
        a = scope.args
        out = set()
        if isinstance(scope, ast.Lambda):
            return {('param', name, how)}
        pos = [x.arg for x in (*a.posonlyargs, *a.args)]
        func = self.funcs_of_node.get(id(scope))
        method = func is not None and func.cls is not None and not func.is_static
        owner = func.cls.node if func is not None and func.cls is not None else cls
        keys = [scope.name]
        if scope.name == '__init__' and owner is not None:
            keys = [c.name for c in self.prog.all_classes() if any(b.node is owner for b in c.mro())] + ['__init__']
        hit = False
        for k in keys:
            for call, fn2, m2, cls2 in self.callsites.get(k, ()):
                if k == '__init__':
                    sup = self._class(m2, cls2) if cls2 is not None else None
                    if sup is None or not any(b.node is owner for b in sup.mro()[1:]):
                        continue
                elif k == scope.name and not self.related(call, m2, cls2, owner if method else None):
                    continue
                offset = 1 if method else 0
                kw = {x.arg: x.value for x in call.keywords if x.arg}
                v = kw.get(name)
                if v is None and name in pos:
                    i = pos.index(name) - offset
                    if 0 <= i < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[: i + 1]):
                        v = call.args[i]
                if v is not None:
                    hit = True
                    out |= self.leaves(v, fn2, m2, cls2, how, seen, depth + 1)
                elif any(k2.arg is None for k2 in call.keywords):
                    out.add(('key', name, how))
                    hit = True
        public = scope.name.startswith('__') or not scope.name.startswith('_')
        nested = func is None or self.owner.get(id(scope), (None,))[0] is not None
        if not hit or (public and not nested and not out):
            out.add(('param', f"{func.cls.name + '.' if func is not None and func.cls is not None else ''}{scope.name}.{name}", how))
        return out
