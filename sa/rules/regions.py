"""File objects made of several regions: amounts, ends, and bounds agree with each other."""

import ast

from ..flow import Flow, Rule, V, call_args, call_name, const, contains, cval, is_const, mk, show, subterms
from ..model import Class, Func, Program
from .c07 import linear


def alternatives(v, depth=0):
    if isinstance(v, V) and v.op == 'phi' and depth < 5:
        for x in v.args[0]:
            yield from alternatives(x, depth + 1)
    elif isinstance(v, V) and v.op == 'loopvar' and len(v.args) > 2 and isinstance(v.args[2], V) and depth < 5:
        yield from alternatives(v.args[2], depth + 1)
    elif isinstance(v, V):
        yield v


class Sizes(Rule):
    initial = frozenset()
    max_depth = 3

    def __init__(self, func=None, name=None):
        self.func, self.name, self.values = func, name, []

    def note(self, cx, st):
        if self.name is not None and cx.frame.func is self.func and self.name in st.env:
            self.values.append(st.env[self.name])

    def on_call(self, cx, call, st):
        self.note(cx, st)
        return st.rs, st.rs

    def on_attr(self, cx, base, name, st):
        self.note(cx, st)
        return st.rs

    def on_assume(self, cx, cond, pol, st):
        self.note(cx, st)
        return st.rs

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' or super().inline(cx, func, recv)


def reachable(cls: Class, start='read'):
    """Methods of the class which are reachable from a method."""
    todo, out = [cls.find(start)], []
    while todo:
        f = todo.pop()
        if f is None or f in out:
            continue
        out.append(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                g = cls.find(n.attr)
                if g is not None:
                    todo.append(g)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                todo.append(next((b.methods[n.attr] for b in cls.mro()[1:] if n.attr in b.methods), None))
    return out


def size_names(f: Func):
    return [x for x in f.params if x in ('size', 'n', 'nbytes', 'length', 'amount', 'count') or x == next((p for p in f.params if p not in ('self', 'cls')), None)]


def end_of_file(prog: Program, c, cls: Class, end, pos):
    """The end which negative sizes read to is the one which seeking relative to the end uses."""
    for f in reachable(cls):
        if f.cls is None or f.name.startswith('__') or f.name in ('seek', 'tell', 'close'):
            continue
        names = [x for x in f.params if x == 'size'] or size_names(f)
        if not names or f.name not in ('read', 'read1', '_read', 'readall') and 'size' not in names:
            continue
        p = names[0]
        if not any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
            continue
        rule = Sizes(f, p)
        flow = Flow(prog, rule)
        exits = flow.run(f, cls, args={p: const(-1)})
        c.used(flow, f.where, len(exits))
        values = [x for v in rule.values for x in alternatives(v) if x.op != 'const']
        if not values:
            continue
        ok = any(contains(x, end) for x in values)
        c.check('end', f"{cls.name}.{f.name} until the end", ok, f"negative sizes read {show(values[0])[:80]} bytes, which does not depend on {show(end)[:40]}", f.where)


def shrinking(c, f: Func, own: str):
    """A loop which collects pieces asks for no more than what is still missing."""
    size = [x for x in f.params if x == 'size'] or size_names(f)[:1]
    if not size:
        return
    for loop in ast.walk(f.node):
        if not isinstance(loop, ast.While):
            continue
        changed = {t.id for n in ast.walk(loop) if isinstance(n, (ast.Assign, ast.AugAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
        grows = [n for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name)
                 and isinstance(n.value, ast.Name)]
        for g in grows:
            for n in ast.walk(loop):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == g.value.id for t in n.targets) and isinstance(n.value, ast.Call) and n.value.args:
                    used = {x.id for a in n.value.args for x in ast.walk(a) if isinstance(x, ast.Name)}
                    if size[0] not in used or not isinstance(n.value.func, ast.Attribute) or 'read' not in n.value.func.attr:
                        continue
                    c.check('amount', f"{own} {f.name} remaining", bool(used & changed), "every piece is requested with the full size, so that more than requested is returned", f.where)


class Loop(Rule):
    """Stores of the position and the facts known about the requested amount in the rounds of the reading loop."""
    initial = frozenset()
    max_depth = 3

    def __init__(self, pos, loops):
        self.pos = pos
        self.returns = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' or super().inline(cx, func, recv)


def amounts(c, f: Func, cls: Class, pos):
    """What is subtracted from the remaining amount is what the position has been advanced by."""
    for loop in ast.walk(f.node):
        if not isinstance(loop, ast.While):
            continue
        adv = [n for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Attribute) and n.target.attr in pos]
        dec = [n for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub) and isinstance(n.target, ast.Name) and n.target.id in f.params]
        if len(adv) != 1 or len(dec) != 1:
            continue
        local = {t.id: n.value for n in ast.walk(loop) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}

        def names(e, depth=0):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'min':
                return [ast.unparse(a) for a in e.args] + [ast.unparse(e)]
            if isinstance(e, ast.Name) and isinstance(local.get(e.id), ast.Call) and depth < 3:
                return [e.id] + names(local[e.id], depth + 1)
            return [ast.unparse(e)]
        c.check('amount', f"{cls.name}.{f.name} remaining", ast.unparse(dec[0].value) in names(adv[0].value),
                f"the remaining amount shrinks by {ast.unparse(dec[0].value)} although the position advances by {ast.unparse(adv[0].value)}", f.where)


def pieces(c, f: Func, cls: Class):
    """When pieces are joined only the first one is cut at its start and only the last one at its end."""
    parents = {ch: n for n in ast.walk(f.node) for ch in ast.iter_child_nodes(n)}

    def inside_if(n, loop):
        while n is not loop:
            if isinstance(n, (ast.If, ast.IfExp)):
                return n
            n = parents[n]
        return None
    for loop in ast.walk(f.node):
        if not isinstance(loop, (ast.While, ast.For)):
            continue
        cuts = [n for n in ast.walk(loop) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load)
                and isinstance(n.value, ast.Name) and not n.slice.step]
        lows = [n for n in cuts if n.slice.lower is not None and isinstance(n.slice.lower, ast.Name)]
        joins = [n for n in ast.walk(loop) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend')]
        piece = {n.value.id for n in lows}
        if not lows or not any(isinstance(x, ast.Name) and x.id in piece for j in joins for x in ast.walk(j)):
            continue
        for n in lows:
            v = n.slice.lower.id
            reset = any(isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in a.targets) for a in ast.walk(loop))
            cond = inside_if(n, loop)
            first = cond is not None and not all(isinstance(x, ast.Name) and x.id == v or not isinstance(x, ast.Name) for x in ast.walk(cond.test))
            c.check('pieces', f"{cls.name}.{f.name} start", reset or first, "every piece is cut at its start, not only the first one", f.where)
        highs = [n for n in cuts if n.slice.upper is not None and n.value.id in piece]
        c.check('pieces', f"{cls.name}.{f.name} end", bool(highs), "the last piece is not cut at its end", f.where)
        for n in highs:
            c.check('pieces', f"{cls.name}.{f.name} end", inside_if(n, loop) is not None, "every piece is cut at its end, not only the last one", f.where)


def searches(prog: Program, c):
    """Sorted starts of regions are searched for the last start which is not behind the position."""
    for f in prog.all_funcs():
        if isinstance(f.node, ast.Lambda):
            continue
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ('bisect_left', 'bisect_right', 'bisect') and len(n.args) == 2]
        if not calls:
            continue
        rule = Sizes()
        flow = Flow(prog, rule)
        exits = flow.run(f, f.cls)
        c.used(flow, f.where, len(exits))
        for kind, v, st in exits:
            if kind != 'return' or v is None:
                continue
            for x in alternatives(v):
                t, k = linear(x)
                b = [y for y, n in t if y.op == 'call' and call_name(y).split('.')[-1] in ('bisect_left', 'bisect_right', 'bisect')]
                if len(b) != 1 or len(t) != 1 or len(call_args(b[0])) < 2:
                    continue
                left = call_name(b[0]).endswith('_left')
                _, shift = linear(call_args(b[0])[1])
                c.instance('searches', f.where)
                c.check('search', f.where, k == -1 and shift == (1 if left else 0), f"positions at the start of a region belong to another one: {show(x)[:80]}", f.where)
        table = {ast.unparse(n.args[0]).split('.')[-1] for n in calls}
        for g in {g for k in (f.cls.mro() if f.cls is not None else ()) for g in k.methods.values()} | {f}:
            bounds(c, g, table)
            within(c, g)


def bounds(c, f: Func, table):
    """A list of n + 1 boundaries has n regions: the indexes which are rejected start at n."""
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Compare) and len(n.ops) == 1):
            continue
        d = difference(n.left, n.comparators[0])
        if d is None:
            continue
        terms, k = d
        size = [x for x in terms if x.startswith('len(') and x[4:-1].split('.')[-1] in table]
        if len(terms) != 2 or len(size) != 1:
            continue
        s = terms[size[0]]
        op = type(n.ops[0])
        # i - len(T) + k OP 0, normalised to OP in (>=, <)
        if s == 1:
            k = -k
            op = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}.get(op, op)
        if op is ast.Gt:
            k, op = k - 1, ast.GtE
        elif op is ast.LtE:
            k, op = k - 1, ast.Lt
        if op in (ast.GtE, ast.Lt):
            c.check('search', f"{f.where} last", k == 1, f"the last region is {'left out' if k > 1 else 'followed by another one'}: {ast.unparse(n)[:60]}", f.where)


def within(c, f: Func):
    """Data of a single region is only returned when the request does not extend beyond it."""
    size = [x for x in f.params if x == 'size']
    if not size:
        return
    parents = {ch: n for n in ast.walk(f.node) for ch in ast.iter_child_nodes(n)}
    local = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            local.setdefault(n.targets[0].id, []).append(n.value)

    def compares(e, depth=0):
        return any(isinstance(x, ast.Compare) and any(isinstance(y, ast.Name) and y.id == size[0] for y in ast.walk(x)) for x in ast.walk(e)) or depth < 3 and any(
            compares(v, depth + 1) for x in ast.walk(e) if isinstance(x, ast.Name) for v in local.get(x.id, ()))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load) and n.slice.lower is not None and isinstance(n.slice.upper, ast.BinOp):
            if not any(isinstance(x, ast.Name) and x.id == size[0] for x in ast.walk(n.slice.upper)):
                continue
            x, ok = n, False
            while x in parents:
                x = parents[x]
                ok = ok or isinstance(x, (ast.If, ast.IfExp)) and compares(x.test)
            # An earlier exit may have dealt with larger requests.
            ok = ok or any(isinstance(y, ast.If) and compares(y.test) and any(isinstance(z, (ast.Return, ast.Raise)) for z in ast.walk(y)) for y in ast.walk(f.node))
            c.check('pieces', f"{f.where} single", ok, "the data of one region is returned although more may have been requested", f.where)


def difference(a, b):
    acc, k = {}, 0

    def walk(e, sign):
        nonlocal k
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            walk(e.left, sign)
            walk(e.right, sign if isinstance(e.op, ast.Add) else -sign)
        elif isinstance(e, ast.Constant) and type(e.value) is int:
            k += sign * e.value
        elif isinstance(e, (ast.Name, ast.Attribute, ast.Call)):
            acc[ast.unparse(e)] = acc.get(ast.unparse(e), 0) + sign
        else:
            acc['?'] = 1
    walk(a, 1)
    walk(b, -1)
    return ({x: n for x, n in acc.items() if n}, k) if '?' not in acc and all(n in (1, -1) for n in acc.values() if n) else None
