"""Brings equivalent ways of writing the same thing into one form before the analyses look at them.

- values which are only named to be used once by the directly following statement are inlined (the evaluation order stays the same),
- loops which only search for an item or collect items become any, all, or a list comprehension.
"""

import ast
from collections import Counter

FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef)
SIMPLE = (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.Store, ast.Starred, ast.Tuple, ast.List, ast.expr_context, ast.keyword, ast.UnaryOp, ast.unaryop)


def simple(node) -> bool:
    return all(isinstance(x, SIMPLE) for x in ast.walk(node))


def children(node):
    """Child expressions in the order of their evaluation; None marks what is not evaluated always or only once."""
    if isinstance(node, ast.BoolOp):
        return [node.values[0], None]
    if isinstance(node, ast.IfExp):
        return [node.test, None]
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        return [node.generators[0].iter, None]
    if isinstance(node, ast.Lambda):
        return [None]
    if isinstance(node, ast.Compare):
        return [node.left, node.comparators[0], *([None] if len(node.comparators) > 1 else [])]
    if isinstance(node, ast.Call):
        return [node.func, *node.args, *node.keywords]
    if isinstance(node, ast.Dict):
        return [x for pair in zip(node.keys, node.values) for x in pair if x is not None]
    return list(ast.iter_child_nodes(node))


def header(s):
    """Expressions evaluated first and once by a statement."""
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return)):
        return [s.value] if s.value is not None else []
    if isinstance(s, ast.AugAssign):
        return [s.value] if isinstance(s.target, ast.Name) else []
    if isinstance(s, ast.If):
        return [s.test]
    if isinstance(s, ast.For):
        return [s.iter]
    if isinstance(s, ast.Raise):
        return [x for x in (s.exc, s.cause) if x is not None]
    if isinstance(s, ast.Assert):
        return [s.test]
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [s.items[0].context_expr]
    return []


def place(node, name):
    """Whether the name is reached with nothing of effect evaluated before."""
    if isinstance(node, ast.Name) and node.id == name:
        return node
    for c in children(node):
        if c is None:
            return None
        if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(c)):
            return place(c, name)
        if not simple(c):
            return None
    return None


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit_Name(self, node):
        return self.new if node is self.old else node


def inline_block(body, loads, stores):
    i = len(body) - 2
    while i >= 0:
        s, nxt = body[i], body[i + 1]
        i -= 1
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            name = s.targets[0].id
        else:
            continue
        if loads[name] != 1 or stores[name] != 1 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(s.value)):
            continue
        target = None
        for e in header(nxt):
            target = place(e, name)
            if target is not None or not simple(e):
                break
        if target is None:
            continue
        new = Replace(target, s.value).visit(nxt)
        assert new is nxt
        del body[i + 1]
        i = min(i + 1, len(body) - 2)


def negated(e):
    return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=e), e)


def found(loop):
    """(condition, reaction) of a loop which does nothing but reacting to the first item fulfilling the condition."""
    conditions, body = [], loop.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        conditions.append(body[0].test)
        body = body[0].body
    if not conditions or loop.orelse:
        return None
    test = conditions[0] if len(conditions) == 1 else ast.copy_location(ast.BoolOp(op=ast.And(), values=conditions), conditions[0])
    return test, body


def boolean(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, bool)


def quantifier(loop, test, positive):
    """any(test), or all(not test) if not positive"""
    if positive:
        name, elt = 'any', test
    else:
        name, elt = 'all', negated(test)
    gen = ast.GeneratorExp(elt=elt, generators=[ast.comprehension(target=loop.target, iter=loop.iter, ifs=[], is_async=0)])
    call = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[gen], keywords=[])
    return ast.fix_missing_locations(ast.copy_location(call, loop))


def loop_block(body, loads, stores):
    """Loops which search or collect are replaced with the expressions for that."""
    i = 0
    while i < len(body):
        loop = body[i]
        i += 1
        if not isinstance(loop, ast.For) or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, *FUNCTIONS)) for x in ast.walk(loop)):
            continue
        names = [x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)]
        if not all(isinstance(x, (ast.Name, ast.Tuple, ast.expr_context)) for x in ast.walk(loop.target)):
            continue
        inner = [x.id for x in ast.walk(loop) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
        if any(stores[n] != 1 or loads[n] != inner.count(n) for n in names):
            continue
        before = body[i - 2] if i >= 2 else None
        after = body[i] if i < len(body) else None
        f = found(loop)
        variable = before.targets[0].id if isinstance(before, ast.Assign) and len(before.targets) == 1 and isinstance(before.targets[0], ast.Name) else None
        if f and len(f[1]) == 1 and isinstance(f[1][0], ast.Return) and boolean(f[1][0].value) and isinstance(after, ast.Return) and boolean(after.value) and f[1][0].value.value != after.value.value:
            body[i - 1 : i + 1] = [ast.copy_location(ast.Return(value=quantifier(loop, f[0], f[1][0].value.value)), loop)]
            continue
        if variable is None or variable in inner and not (f is None or len(f[1]) == 1):
            continue
        first = before.value
        r = f[1] if f else loop.body
        if (
            f and boolean(first) and r and isinstance(r[0], ast.Assign) and len(r[0].targets) == 1 and isinstance(r[0].targets[0], ast.Name) and r[0].targets[0].id == variable
            and boolean(r[0].value) and r[0].value.value != first.value and (len(r) == 1 or len(r) == 2 and isinstance(r[1], ast.Break)) and variable not in inner and stores[variable] == 2
        ):
            new = ast.copy_location(ast.Assign(targets=before.targets, value=quantifier(loop, f[0], r[0].value.value)), before)
            stores[variable] -= 1
            body[i - 2 : i] = [new]
            i -= 1
            continue
        call = r[0].value if len(r) == 1 and isinstance(r[0], ast.Expr) else None
        if (
            isinstance(first, ast.List) and not first.elts and isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == 'append'
            and isinstance(call.func.value, ast.Name) and call.func.value.id == variable and len(call.args) == 1 and not call.keywords and inner.count(variable) == 1
            and not isinstance(call.args[0], ast.Starred)
        ):
            comp = ast.ListComp(elt=call.args[0], generators=[ast.comprehension(target=loop.target, iter=loop.iter, ifs=[f[0]] if f else [], is_async=0)])
            new = ast.copy_location(ast.Assign(targets=before.targets, value=ast.fix_missing_locations(ast.copy_location(comp, loop))), before)
            loads[variable] -= 1
            body[i - 2 : i] = [new]
            i -= 1


def normalize(tree):
    for f in ast.walk(tree):
        if not isinstance(f, FUNCTIONS):
            continue
        loads, stores = Counter(), Counter()
        for a in (*f.args.posonlyargs, *f.args.args, *f.args.kwonlyargs, f.args.vararg, f.args.kwarg):
            if a is not None:
                stores[a.arg] += 1
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                (loads if isinstance(x.ctx, ast.Load) else stores)[x.id] += 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for n in x.names:
                    stores[n] += 2
            elif isinstance(x, ast.ExceptHandler) and x.name:
                stores[x.name] += 1
        todo = [f]
        while todo:
            n = todo.pop()
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(n, field, None)
                if isinstance(b, list):
                    loop_block(b, loads, stores)
                    inline_block(b, loads, stores)
                    todo.extend(x for x in b if not isinstance(x, (*FUNCTIONS, ast.ClassDef)))
            todo.extend(getattr(n, 'handlers', []))
    return tree
