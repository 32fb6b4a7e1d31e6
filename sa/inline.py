"""Inlines helpers which did not exist when the analyses were written.

Extracting a part of a function into a new function keeps the behaviour. The analyses look at the functions of known_functions.txt, so
that all others are merged back into their callers where this is possible without changing anything. What cannot be merged stays a call.
"""

import ast
import copy
import os

from .normalize import FUNCTIONS, place, simple

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_functions.txt')


def known():
    try:
        with open(KNOWN, encoding='utf-8') as f:
            return {line.strip() for line in f if line.strip()}
    except OSError:
        return None


def own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (*FUNCTIONS, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def stored(f):
    names = set()
    for x in own(f):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            names.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            names.add(x.name)
        elif isinstance(x, (*FUNCTIONS, ast.ClassDef)):
            names.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            names |= {(a.asname or a.name).split('.')[0] for a in x.names}
    return names


def all_names(f):
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)} | {
        x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}


class Helper:
    def __init__(self, f, cls):
        self.f, self.cls = f, cls
        decorators = [ast.unparse(d) for d in f.decorator_list]
        self.static = decorators == ['staticmethod']
        self.classm = decorators == ['classmethod']
        a = f.args
        self.ok = (
            not decorators or self.static or self.classm
        ) and not a.vararg and not a.kwarg and isinstance(f, ast.FunctionDef) and not any(
            isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) for x in own(f)
        ) and not any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) == f.name for x in ast.walk(f))
        self.body = f.body[1:] if ast.get_docstring(f) is not None else f.body
        self.params = [x.arg for x in (*a.posonlyargs, *a.args)]
        self.bound = cls is not None and not self.static
        if self.bound and (not self.params or self.params[0] in stored(f)):
            self.ok = False
        d = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults)) if a.defaults else {}
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        self.defaults = d
        self.names = (self.params[1:] if self.bound else self.params) + [x.arg for x in a.kwonlyargs]
        self.positional = self.params[1:] if self.bound else self.params

    def bind(self, call):
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(self.positional):
            return None
        out = dict(zip(self.positional, call.args))
        for k in call.keywords:
            if k.arg not in self.names or k.arg in out:
                return None
            out[k.arg] = k.value
        for n in self.names:
            if n not in out:
                if n not in self.defaults or not simple(self.defaults[n]):
                    return None
                out[n] = self.defaults[n]
        return out


class Substitute(ast.NodeTransformer):
    def __init__(self, values, renames):
        self.values, self.renames = values, renames

    def visit_Name(self, node):
        if node.id in self.values and isinstance(node.ctx, ast.Load):
            return ast.copy_location(copy.deepcopy(self.values[node.id]), node)
        if node.id in self.renames:
            node.id = self.renames[node.id]
        return node

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [x if x is None else self.visit(x) for x in a.kw_defaults]
        hidden = {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg) if x is not None}
        inner = Substitute({k: v for k, v in self.values.items() if k not in hidden}, {k: v for k, v in self.renames.items() if k not in hidden})
        node.body = inner.visit(node.body)
        return node

    def visit_ExceptHandler(self, node):
        if node.name in self.renames:
            node.name = self.renames[node.name]
        return self.generic_visit(node)


def terminates(body):
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return terminates(s.body) and terminates(s.orelse)
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return terminates(s.body)
    if isinstance(s, ast.Try):
        return terminates(s.finalbody) or (terminates(s.body + s.orelse) and all(terminates(h.body) for h in s.handlers))
    return False


def returns(nodes):
    return [x for s in nodes if not isinstance(s, (*FUNCTIONS, ast.ClassDef)) for x in [s, *own(s)] if isinstance(x, ast.Return)]


def without_returns(body, result):
    """The statements with their returns replaced with assignments of the result, or None if the flow cannot be expressed."""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            return out + result(s.value, s)
        if not returns([s]):
            out.append(s)
            continue
        if isinstance(s, ast.If):
            rest = body[i + 1 :]
            then = without_returns(s.body + ([] if terminates(s.body) else copy.deepcopy(rest)), result)
            other = without_returns(s.orelse + ([] if terminates(s.orelse) else rest), result)
            if then is None or other is None:
                return None
            new = ast.copy_location(ast.If(test=s.test, body=then or [ast.copy_location(ast.Pass(), s)], orelse=other), s)
            return [*out, new]
        if isinstance(s, (ast.With, ast.AsyncWith)) and (i == len(body) - 1 or terminates(s.body)):
            inner = without_returns(s.body, result)
            if inner is None:
                return None
            s.body = inner or [ast.copy_location(ast.Pass(), s)]
            return [*out, s]
        if isinstance(s, ast.Try) and not s.finalbody and not s.orelse and (i == len(body) - 1 or terminates([s])):
            # Assigning the result instead of returning it raises nothing more.
            parts = [without_returns(s.body, result)] + [without_returns(h.body, result) for h in s.handlers]
            if any(p is None for p in parts):
                return None
            s.body = parts[0] or [ast.copy_location(ast.Pass(), s)]
            for h, p in zip(s.handlers, parts[1:]):
                h.body = p or [ast.copy_location(ast.Pass(), s)]
            return [*out, s]
        return None
    return out + result(None, body[-1]) if body else out


class Inliner:
    def __init__(self, module_name, tree, names):
        self.tree, self.module, self.known = tree, module_name, names
        self.changed = False
        self.counter = 0

    def run(self):
        for _ in range(6):
            self.changed = False
            helpers = self.helpers()
            if not helpers:
                break
            for cls, f in self.functions():
                self.caller = f
                self.cls = cls
                self.helpersNow = {k: h for k, h in helpers.items() if h.f is not f}
                self.used = all_names(f)
                self.block_fields(f)
            if not self.changed:
                break
        # Helpers nobody refers to anymore.
        helpers = self.helpers()
        for (cls, name), h in helpers.items():
            refs = [x for x in ast.walk(self.tree) if (isinstance(x, ast.Attribute) and x.attr == name or isinstance(x, ast.Name) and x.id == name)]
            if not refs and name.startswith('_'):
                (cls.body if cls is not None else self.tree.body).remove(h.f)
                if cls is not None and not cls.body:
                    cls.body.append(ast.Pass())
        return self.tree

    def functions(self):
        out = [(None, s) for s in self.tree.body if isinstance(s, FUNCTIONS)]
        for c in self.tree.body:
            if isinstance(c, ast.ClassDef):
                out += [(c, s) for s in c.body if isinstance(s, FUNCTIONS)]
        return out

    def helpers(self):
        out = {}
        for cls, f in self.functions():
            qual = f"{self.module}:{cls.name + '.' if cls is not None else ''}{f.name}"
            if qual in self.known or f.name.startswith('__'):
                continue
            # A new method which overrides something of another class is no helper.
            if any(k.split(':')[1].endswith('.' + f.name) for k in self.known) and cls is not None:
                continue
            h = Helper(f, cls)
            if h.ok:
                out[(cls, f.name)] = h
        return out

    def target(self, call):
        fn = call.func
        if isinstance(fn, ast.Name):
            return self.helpersNow.get((None, fn.id)) if fn.id not in stored(self.caller) else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.cls is not None:
            h = self.helpersNow.get((self.cls, fn.attr))
            if h is None:
                return None
            first = self.caller.args.args[0].arg if self.caller.args.args else None
            decorators = {ast.unparse(d) for d in self.caller.decorator_list}
            if fn.value.id == first and 'staticmethod' not in decorators and ('classmethod' not in decorators or h.classm or h.static):
                return h
            if fn.value.id in (self.cls.name, '__class__') and h.static:
                return h
        return None

    def instance(self, h, call):
        """(statements binding the arguments, body of the helper for this call)"""
        args = h.bind(call)
        if args is None:
            return None
        own_names = stored(h.f)
        body = copy.deepcopy(h.body)
        values, before, renames = {}, [], {}
        if h.bound and h.params:
            values[h.params[0]] = call.func.value
        callerStores = stored(self.caller)
        for n, v in args.items():
            count = sum(isinstance(x, ast.Name) and x.id == n for s in body for x in ast.walk(s))
            if n not in own_names and (isinstance(v, ast.Constant) or isinstance(v, ast.Name) and (not self.nested(body, n) or v.id not in callerStores)):
                values[n] = v
            else:
                t = n if n not in self.used else self.fresh(n)
                renames[n] = t
                self.used.add(t)
                if count or not simple(v):
                    before.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=v), call))
        for n in own_names:
            if n not in renames and n in self.used:
                renames[n] = self.fresh(n)
            self.used.add(renames.get(n, n))
        if any(isinstance(x, FUNCTIONS) and {y.arg for y in ast.walk(x) if isinstance(y, ast.arg)} & (set(values) | set(renames)) for s in body for x in ast.walk(s)):
            return None
        sub = Substitute(values, renames)
        body = [sub.visit(s) for s in body]
        for s in before:
            ast.fix_missing_locations(s)
        return before, body

    @staticmethod
    def nested(body, name):
        return any(isinstance(x, (ast.Lambda, *FUNCTIONS)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)) for s in body for x in ast.walk(s))

    def fresh(self, n):
        while True:
            self.counter += 1
            t = f"{n}_{self.counter}"
            if t not in self.used:
                return t

    def block_fields(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, ast.ClassDef):
                        self.block_fields(s)
                self.block(b, tail=node is self.caller and field == 'body')
        for h in getattr(node, 'handlers', []):
            self.block_fields(h)

    def block(self, b, tail):
        i = 0
        while i < len(b):
            s = b[i]
            new = self.statement(s, tail and i == len(b) - 1)
            if new is not None:
                b[i : i + 1] = new or [ast.copy_location(ast.Pass(), s)]
                self.changed = True
                i += max(1, len(new))
                continue
            i += 1

    def statement(self, s, last):
        self.expressions(s)
        value = s.value if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign)) else None
        if isinstance(value, ast.Call):
            h = self.target(value)
            if h is not None:
                return self.splice(s, value, h, last)
        # A call inside of the condition or value: name its result first.
        heads = [s.test] if isinstance(s, ast.If) else [s.iter] if isinstance(s, ast.For) else [value] if value is not None else []
        for e in heads:
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    h = self.target(x)
                    if h is None:
                        continue
                    name = self.fresh('result')
                    marker = ast.copy_location(ast.Name(id=name, ctx=ast.Load()), x)
                    parent = ReplaceNode(x, marker)
                    e2 = parent.visit(e)
                    if place(e2, name) is None:
                        ReplaceNode(marker, x).visit(ast.Expression(body=e2))
                        if e2 is marker:
                            e2 = x
                        self.restore(s, e, e2)
                        continue
                    self.restore(s, e, e2)
                    a = ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=name, ctx=ast.Store()), x)], value=x), s)
                    new = self.splice(a, x, h, False)
                    if new is None:
                        e3 = ReplaceNode(marker, x).visit(e2)
                        self.restore(s, e2, e3)
                        continue
                    self.used.add(name)
                    return [*new, s]
        return None

    @staticmethod
    def restore(s, old, new):
        for field in ('test', 'iter', 'value'):
            if getattr(s, field, None) is old:
                setattr(s, field, new)

    def splice(self, s, call, h, last):
        got = self.instance(h, call)
        if got is None:
            return None
        before, body = got
        if isinstance(s, ast.Return) or isinstance(s, ast.Expr) and last:
            if not terminates(body) and isinstance(s, ast.Return):
                body = [*body, ast.copy_location(ast.Return(value=ast.copy_location(ast.Constant(value=None), s)), s)]
            if isinstance(s, ast.Expr):
                for r in returns(body):
                    if r.value is not None and not simple(r.value):
                        return None
                    r.value = None
            return before + body

        def result(v, at):
            v = v if v is not None else ast.copy_location(ast.Constant(value=None), at)
            if isinstance(s, ast.Expr):
                return [] if simple(v) else [ast.copy_location(ast.Expr(value=v), at)]
            n = copy.deepcopy(s)
            n.value = v
            return [n]

        new = without_returns(body, result)
        return None if new is None else before + new

    def expressions(self, s):
        """Helpers which only return a value are replaced inside of expressions."""
        for _ in range(20):
            done = True
            roots = [x for f, x in ast.iter_fields(s) if isinstance(x, ast.expr)] + [
                i for f, x in ast.iter_fields(s) if isinstance(x, list) for i in x if isinstance(i, (ast.expr, ast.withitem))]
            for e in roots:
                for x in ast.walk(e):
                    if not isinstance(x, ast.Call):
                        continue
                    h = self.target(x)
                    if h is None or len(h.body) != 1 or not isinstance(h.body[0], ast.Return) or h.body[0].value is None:
                        continue
                    args = h.bind(x)
                    if args is None or stored(h.f):
                        continue
                    value = copy.deepcopy(h.body[0].value)
                    names = [y.id for y in ast.walk(value) if isinstance(y, ast.Name)]
                    if any(isinstance(y, ast.arg) for y in ast.walk(value)) or any(not isinstance(v, (ast.Constant, ast.Name)) and not (simple(v) or names.count(n) == 1) for n, v in args.items()):
                        continue
                    values = dict(args)
                    if h.bound:
                        values[h.params[0]] = x.func.value
                    value = Substitute(values, {}).visit(value)
                    ReplaceNode(x, value).visit(s)
                    self.changed = True
                    done = False
                    break
                if not done:
                    break
            if done:
                return


class ReplaceNode(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, node):
        if node is self.old:
            return self.new
        return self.generic_visit(node)


def inline_new_helpers(module_name, tree, names):
    if names is None:
        return tree
    return ast.fix_missing_locations(Inliner(module_name, tree, names).run())
