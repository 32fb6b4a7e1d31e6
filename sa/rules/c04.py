"""Compositing layers forward every request completely and to all children."""

import ast

from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, contains, cval, is_const, mk, show, subterms
from ..model import Program
from .layers import ROOT, Layer, container_annotation, own_functions, run_layers

EXPLANATION = (
    "Argument provenance at every call a compositing layer makes to its children: paths, versions, buffering, sizes, offsets and keys "
    "must be those of the request. Required operations must be implemented by every layer, and the operations which concern the whole "
    "layer (closing, joining, statistics, immutability) must reach every child of the layer's container."
)
REQUIRED = ('lookup', 'list', 'open', 'versions', 'get_mount_source', 'list_xattr', 'get_xattr', 'is_immutable', '__exit__', 'join_threads')
WHOLE = ('__exit__', 'join_threads', 'statfs', 'is_immutable')


class WholeRule(Rule):
    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def __init__(self, op):
        self.op = op
        self.calls = []

    def inline(self, cx, func, recv):
        if func.is_generator:
            return False
        return recv is not None and recv.op == 'self' or func.module is cx.entry_module

    def may_raise(self, cx, call):
        return False

    def on_call(self, cx, call, st):
        n, r = call_name(call), call_recv(call)
        if r is not None and r.op not in ('self', 'super') and n in ('.' + self.op, '.close' if self.op == '__exit__' else ''):
            self.calls.append((call, r, dict(st.facts), cx.where()))
        return st.rs, st.rs


def self_attrs(v):
    return [x for x in subterms(v) if x.op == 'attr' and x.args[0].op == 'self']


def run(prog: Program, c):
    c.rule('implements', "every layer implements all operations which its children may support")
    c.rule('path', "the path handed to a child is derived from the requested path")
    c.rule('version', "the requested file version reaches the child")
    c.rule('arguments', "buffering, size, offset and key reach the child unchanged")
    c.rule('result', "what the child returns is returned")
    c.rule('children', "operations concerning the whole layer reach every child")
    c.rule('immutable', "a layer is immutable only if all children are")
    for L in run_layers(prog, c):
        name = L.cls.name
        c.instance('layers', name)
        for op in REQUIRED:
            f = L.cls.find(op)
            c.check('implements', f"{name}.{op}", f is not None and (f.cls is None or f.cls.name != ROOT), "the children's implementation is not used", L.cls.where)
        forwarding(c, L)
        for op in WHOLE:
            f = L.cls.find(op)
            if f is not None and (f.cls is None or f.cls.name != ROOT):
                whole(prog, c, L, op, f)
    c.floor('layers', 3)


def forwarding(c, L: Layer):
    name = L.cls.name
    # Layers which show the numbers of versions as names.
    numbered = any(cn == 'versions' for op in ('list', 'list_mode') if op in L.runs for cn, *_ in L.runs[op][0].child)
    for op, (rule, exits, f) in L.runs.items():
        if op not in ('lookup', 'list', 'list_mode', 'versions', 'open', 'read', 'get_xattr', 'list_xattr') or (f.cls is not None and f.cls.name == ROOT):
            continue
        path, version = mk('param', 'path'), mk('param', 'fileVersion')
        params = [p for p in f.params if p != 'self']
        if op in ('lookup', 'list', 'list_mode', 'versions') and params:
            path = mk('param', params[0])
        if op == 'lookup' and len(params) > 1:
            version = mk('param', params[1])
        returned = [(v, st) for kind, v, st in exits if kind == 'return']
        hit = False
        for cn, call, recv, rs, st, where in rule.child:
            construct = f"{name}.{op} calls {cn}"
            if op in ('lookup', 'list', 'list_mode', 'versions') and cn in ('lookup', 'list', 'list_mode', 'versions'):
                arg = call_arg(call, 0, 'path')
                c.check('path', construct, arg is not None and uses(arg, path), f"the child is asked for {show(arg)[:40] if arg is not None else 'nothing'}", where)
                located = any(x.op == 'sub' and x.args[0].op == 'call' and path in call_args(x.args[0]) for x in subterms(recv))
                c.check('path', f"{construct} translated", not (located and arg is path), "the child is asked for the path of the layer instead of the path inside of the child", where)
            if op == 'lookup' and cn == 'lookup' and any(contains(v, call) for v, _ in returned):
                arg = call_arg(call, 1, 'fileVersion')
                zero = any(p is True and k.op == 'cmp' and k.args[0] == '==' and {k.args[1], k.args[2]} == {version, mk('const', 'int', 0)} for k, p in st.facts.items()) or \
                    any(p is True and k.op == 'cmp' and k.args[0] == '==' and version in k.args and any(is_const(x, 0) for x in k.args[1:] if isinstance(x, V)) for k, p in st.facts.items()) or \
                    any(k is version and p is False for k, p in st.facts.items())
                c.check('version', construct, zero or (arg is not None and uses(arg, version)), "the requested file version is not handed over", where)
                asked = call_arg(call, 0, 'path')
                if numbered and asked is not None and any(is_result(v, call, st2) for v, st2 in returned) and any(x.op == 'call' and call_name(x) in ('.split', '.rsplit', '.partition', '.rpartition') for x in subterms(asked)):
                    c.check('version', f"{construct} numbered", arg is not None and arg.op != 'const' and arg is not version,
                            "the version number which is part of the path is not handed over", where)
                clamped = [x for x in subterms(arg) if x.op == 'call' and call_name(x) in ('abs', 'bool', 'min', 'max', '.__abs__') and contains(x, version)] if arg is not None else []
                c.check('version', f"{construct} sign", not clamped, "the requested file version is changed before it is handed over", where)
            if op == cn and cn in ('open', 'read', 'get_xattr'):
                for i, arg in enumerate(params[1:], 1):
                    got = call_arg(call, i, arg)
                    ok = got is not None and (got is mk('param', arg))
                    c.check('arguments', f"{construct} {arg}", ok, f"hands over {show(got)[:40] if got is not None else 'nothing'}", where)
            if op == 'read' and cn == 'open':
                hit = True
            if cn in (op, 'list' if op == 'list_mode' else op, 'lookup' if op == 'versions' else op):
                hit = hit or any(contains(v, call) or derived(v, call) for v, _ in returned)
        c.check('result', f"{name}.{op}", hit, "no child's result is returned", f.where)
        if op in ('open', 'read'):
            accesses = [call for cn, call, *_ in rule.child if cn in ('open', 'read')]
            for v, st in returned:
                c.check('result', f"{name}.{op} always", any(contains(v, x) for x in accesses) or derived(v, None),
                        f"returns {show(v)[:50]} instead of what the child returned", f.where)
    if 'get_mount_source' in L.runs:
        rule, exits, f = L.runs['get_mount_source']
        if f.cls is None or f.cls.name != ROOT:
            calls = [call for cn, call, *_ in rule.child if cn == 'get_mount_source']
            c.check('result', f"{name}.get_mount_source", any(contains(v, x) or derived(v, x) for kind, v, st in exits if kind == 'return' for x in calls),
                    "the mount source is not resolved any further by the child", f.where)


def uses(v, p) -> bool:
    if contains(v, p):
        return True
    return any(x.op == 'loopvar' and x.args[1] == p.args[0] for x in subterms(v))


def is_result(v, call, st) -> bool:
    """Whether the value is what the call returned and not only made out of parts of it."""
    if v is call:
        return True
    if v.op in ('phi', 'any'):
        return any(isinstance(x, V) and is_result(x, call, st) for x in subterms(v) if x is not v and (x is call or x.op in ('phi', 'any')))
    return False


def derived(v, call) -> bool:
    return any(x.op in ('loopvar', 'upd', 'phi', 'any') for x in subterms(v))


def whole(prog, c, L: Layer, op: str, f):
    name = L.cls.name
    rule = WholeRule(op)
    flow = Flow(prog, rule)
    exits = flow.run(f, L.cls)
    c.used(flow, f"{f.where} as {name}", len(exits))
    results = [v for kind, v, st in exits if kind == 'return']
    if op == 'is_immutable':
        for v in results:
            if v is FALSE:
                c.check('immutable', f"{name}", True)
                continue
            kids = [x for x in subterms(v) if x.op == 'call' and call_name(x) == '.is_immutable']
            quant = {call_name(x) for x in subterms(v) if x.op == 'call'} & {'any', 'max'}
            iterated = any(k for k in kids if any(x.op in ('iter', 'item') for x in subterms(k)))
            ok = bool(kids) and not quant and not (iterated and not any(x.op == 'call' and call_name(x) in ('all', 'min') for x in subterms(v)) and v.op != 'loopvar')
            neg = any(x.op == 'un' for x in subterms(v))
            loops = iterated_loop(f)
            c.check('immutable', f"{name}", (ok and not neg) or loops, f"is computed as {show(v)[:60]}", f.where)
        return
    good = []
    for call, r, facts, where in rule.calls:
        construct = f"{name}.{op}"
        attrs = self_attrs(r)
        anns = [(x.args[1], container_annotation(L.cls, x.args[1]) or '') for x in attrs]
        keys = False
        for x in subterms(r):
            if x.op == 'iter' and x.args[0].op == 'attr' and x.args[0].args[0].op == 'self':
                ann = container_annotation(L.cls, x.args[0].args[1]) or ''
                keys = keys or ann.strip("'\"").lower().startswith(('dict', 'mapping', 'defaultdict', 'ordereddict'))
            if x.op == 'key':
                keys = keys or r is x
        c.check('children', construct, not keys, "iterates over the names of the children instead of the children", where)
        part = [x for x in subterms(r) if x.op == 'sub' and x.args[1].op == 'slice' and any(y.op != 'const' or cval(y) is not None for y in x.args[1].args[:2])]
        c.check('children', f"{construct} part", not part, f"only reaches {show(part[0])[:40] if part else ''}", where)
        fixed = [x for x in subterms(r) if x.op == 'sub' and x.args[1].op == 'const' and x.args[0].op == 'attr' and x.args[0].args[0].op == 'self']
        c.check('children', f"{construct} all", not fixed, f"only reaches {show(fixed[0])[:40] if fixed else ''}", where)
        nested = any('Any' in a for _, a in anns)
        direct = not any(x.op == 'call' for x in subterms(r) if contains(x, attrs[0])) if attrs else True
        c.check('children', f"{construct} nested", not (nested and direct), "children in nested folders are not reached", where)
        cond = [k for k, p in facts.items() if not (contains(k, r) or contains(r, k))]
        c.check('children', f"{construct} condition", not cond, f"depends on {show(cond[0])[:50] if cond else ''}", where)
        other = [t.args for t, p in facts.items() if p and t.op == 'call' and call_name(t) == 'hasattr' and len(call_args(t)) > 1
                 and is_const(call_args(t)[1], op) and call_args(t)[0] is not r]
        c.check('children', f"{construct} test", not other, "asks another object than the child whether it supports the operation", where)
        if not keys and attrs:
            good.append(call)
    c.check('children', f"{name}.{op} reaches", bool(good), "does not reach the children", f.where)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Break,)) or (isinstance(n, ast.Return) and any(n in ast.walk(l) for l in ast.walk(f.node) if isinstance(l, (ast.For, ast.While)))):
            c.check('children', f"{name}.{op} leaves", False, "leaves the loop over the children early", f"{f.where}:{n.lineno}")
    if op == 'statfs':
        ok = any(any(x.op == 'call' and call_name(x) == '.statfs' for x in subterms(v)) or v.op in ('loopvar', 'upd', 'phi') for v in results)
        c.check('result', f"{name}.statfs", ok, "the children's statistics are not returned", f.where)


def iterated_loop(f) -> bool:
    """for child: if not child.is_immutable(): return False ... return True"""
    for l in ast.walk(f.node):
        if isinstance(l, ast.For):
            for i in ast.walk(l):
                if isinstance(i, ast.If) and isinstance(i.test, ast.UnaryOp) and isinstance(i.test.op, ast.Not) and 'is_immutable' in ast.unparse(i.test):
                    if any(isinstance(r, ast.Return) and isinstance(r.value, ast.Constant) and r.value.value is False for r in i.body):
                        return True
    return False
