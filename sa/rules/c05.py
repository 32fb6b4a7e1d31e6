"""Union mounts: the rightmost source wins in lookups, listings and version numbering alike; nothing is dropped."""

import ast

from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, contains, cval, is_const, mk, show, subterms
from ..model import Program, dotted
from .c07 import linear
from .layers import ROOT, container_annotation, root_class

EXPLANATION = (
    "Every loop over the children of a union mount is classified by its direction and by how results of several children are combined "
    "(first result returned, later results overwrite or are ignored, sums). Together they determine which child wins for every operation, "
    "which has to be the last one, counting versions from the first one; merging may never drop names; children may only be skipped because "
    "of cached folders when they are immutable."
)


def union_class(prog: Program):
    """The layer whose container is a list of mount sources."""
    from .layers import layers

    for k in layers(prog):
        init = k.find('__init__')
        for a in [*init.node.args.args, *init.node.args.kwonlyargs]:
            t = ast.unparse(a.annotation) if a.annotation is not None else ''
            if 'MountSource' in t and any(x in t for x in ('Sequence', 'list', 'List', 'Iterable', 'tuple', 'Tuple')) and 'dict' not in t:
                return k
    return prog.cls('UnionMountSource')


class UnionRule(Rule):
    """rs: set of facts on the sign of the version; loops are recorded with their direction."""

    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def __init__(self):
        self.iters = []  # (iterable, where, facts, st)
        self.calls = []  # (name, call, recv, facts, where, node)
        self.order = {}

    def inline(self, cx, func, recv):
        return not func.is_generator and (recv is not None and recv.op == 'self' or func.module is cx.entry_module)

    def may_raise(self, cx, call):
        return False

    def on_iter(self, cx, it, st):
        self.iters.append((it, cx.where(), dict(st.facts), cx.node))
        return st.rs

    def on_item(self, cx, it, item, st):
        return frozenset({x for x in st.rs if x[0] is not item} | {(item, it)})

    def on_call(self, cx, call, st):
        r = call_recv(call)
        if r is not None:
            inside = [(item, it) for item, it in st.rs if contains(r, item)]
            for item, it in inside:
                if not any(o is not item and contains(o, item) for o, _ in inside):
                    self.order.setdefault(call, set()).add(it)
        self.calls.append((call_name(call), call, r, dict(st.facts), cx.where(), cx.node))
        return st.rs, st.rs

    def directions(self, call, attr):
        return {direction(it, attr) for it in self.order.get(call, ()) if not empty(it)}


def empty(it: V) -> bool:
    while it.op == 'call' and call_name(it) in ('reversed', 'list', 'tuple', 'iter', 'enumerate') and call_args(it):
        it = call_args(it)[0]
    return it.op in ('list', 'tuple') and not it.args[0]


def direction(it: V, attr: str, flips=0):
    """'forward', 'backward' or None if the iterable does not enumerate the children in order."""
    if it.op == 'attr' and it.args[1] == attr and it.args[0].op == 'self':
        return 'backward' if flips % 2 else 'forward'
    if it.op == 'call':
        n = call_name(it)
        a = call_args(it)
        if n == 'reversed' and a:
            return direction(a[0], attr, flips + 1)
        if n in ('list', 'tuple', 'iter', 'enumerate') and a:
            return direction(a[0], attr, flips)
        if n in ('filter', 'map') and len(a) > 1:
            return direction(a[1], attr, flips)
    if it.op == 'sub' and it.args[1].op == 'slice':
        sl = [cval(x) if x.op == 'const' else '?' for x in it.args[1].args]
        step = sl[2] if len(sl) > 2 else None
        if sl[:2] == [None, None] and step in (None, 1):
            return direction(it.args[0], attr, flips)
        if sl[:2] == [None, None] and step == -1:
            return direction(it.args[0], attr, flips + 1)
        return None
    if it.op == 'comp' and it.args[0] in ('list', 'gen') and len(it.args[2]) == 1:
        e = it.args[1][0] if it.args[1] else None
        if e is not None and e.op in ('iter', 'item') or e is not None:
            inner = it.args[2][0]
            d = direction(inner, attr, flips)
            if d and e is not None and any(x.op == 'iter' for x in subterms(e)):
                return d
    if it.op in ('phi', 'any', 'loopvar', 'upd', 'list'):
        ds = built(it, attr, flips, set())
        return ds.pop() if len(ds) == 1 else None
    return None


def built(v: V, attr: str, flips: int, seen) -> set:
    """Directions in which the elements of a list were collected; empty lists are neutral."""
    if v in seen:
        return set()
    seen.add(v)
    if v.op in ('phi', 'any'):
        return set().union(*[built(x, attr, flips, seen) for x in v.args[0]])
    if v.op == 'loopvar':
        return built(v.args[2], attr, flips, seen) if len(v.args) > 2 and isinstance(v.args[2], V) else set()
    if v.op == 'list':
        return set().union(*[element(x, attr, flips) for x in v.args[0]])
    if v.op == 'upd' and v.args[0] == 'append':
        return built(v.args[1], attr, flips, seen) | element(v.args[2][0], attr, flips)
    if v.op == 'upd' and v.args[0] == 'insert' and is_const(v.args[2][0], 0):
        return built(v.args[1], attr, flips + 1, seen) | element(v.args[2][1], attr, flips + 1)
    if v.op == 'bin' and v.args[0] == 'Add':
        return built(v.args[1], attr, flips, seen) | built(v.args[2], attr, flips, seen)
    return {direction(v, attr, flips)}


def element(e: V, attr: str, flips: int) -> set:
    its = {x.args[0] for x in subterms(e) if x.op == 'iter'}
    return {direction(i, attr, flips) for i in its} or {None}


def child_of(v: V) -> bool:
    return any(x.op in ('iter', 'item') for x in subterms(v))


def run(prog: Program, c):
    c.rule('lookup', "lookup returns the last child's entry for the newest version and counts versions from the first child")
    c.rule('list', "the last child's entry wins in listings, too, and all names of all children are listed")
    c.rule('versions', "the number of versions is the sum over all children")
    c.rule('skip', "children are only skipped because of cached folders if they are immutable")
    k = union_class(prog)
    c.instance('union mounts', k.name)
    attrs = [a for a in attr_candidates(k)]
    c.check('lookup', 'container', bool(attrs), "the list of children was not found", k.where)
    if not attrs:
        return
    attr = attrs[0]
    lookup(prog, c, k, attr)
    listing(prog, c, k, attr)
    versions(prog, c, k, attr)
    cache(prog, c, k, attr)
    builder(prog, c, k, attr)


def attr_candidates(k):
    init = k.find('__init__')
    param = None
    for a in [*init.node.args.args, *init.node.args.kwonlyargs]:
        if a.annotation is not None and 'MountSource' in ast.unparse(a.annotation):
            param = a.arg
    for n in ast.walk(init.node):
        t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else None
        if isinstance(t, ast.Attribute) and n.value is not None and any(isinstance(x, ast.Name) and x.id == param for x in ast.walk(n.value)):
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ('reversed', 'sorted'):
                continue
            yield t.attr


def sign(facts, version):
    """'positive', 'nonpositive' or None for the requested file version"""
    for f, p in facts.items():
        if f.op != 'cmp' or version not in f.args[1:]:
            continue
        op, l, r = f.args
        other = r if l is version else l
        if other.op != 'const' or not isinstance(cval(other), int):
            continue
        o = cval(other)
        left = l is version
        if op == '<' and left:      # v < o
            if p and o <= 1:
                return 'nonpositive'
            if not p and o >= 1:
                return 'positive'
        if op == '<=' and left:     # v <= o
            if p and o <= 0:
                return 'nonpositive'
            if not p and o >= 0:
                return 'positive'
        if op == '<' and not left:  # o < v
            if p and o >= 0:
                return 'positive'
            if not p and o <= 0:
                return 'nonpositive'
        if op == '<=' and not left:  # o <= v
            if p and o >= 1:
                return 'positive'
            if not p and o <= 1:
                return 'nonpositive'
        if op == '==' and p and o == 0:
            return 'nonpositive'
    return None


def lookup(prog, c, k, attr):
    f = k.find('lookup')
    rule = UnionRule()
    flow = Flow(prog, rule)
    exits = flow.run(f, k)
    c.used(flow, f.where, len(exits))
    params = [p for p in f.params if p != 'self']
    version = mk('param', params[1]) if len(params) > 1 else mk('param', 'fileVersion')
    found = {'positive': set(), 'nonpositive': set()}
    returned = set()
    for n, call, recv, facts, where, node in rule.calls:
        if n != '.lookup' or recv is None:
            continue
        its = rule.order.get(call)
        ds = rule.directions(call, attr)
        if its and not ds:
            continue  # only reached with an empty list
        d = next(iter(ds)) if len(ds) == 1 else None
        s = sign(facts, version)
        c.check('lookup', f"lookup of children for {s or 'any'} versions", d is not None or not its, "the children are not tried in their order", where)
        for key in ([s] if s else found):
            found[key].add(d)
        if any(kind == 'return' and contains(v, call) for kind, v, st in exits):
            returned.add(s)
        if not early_return(f.node, node) and its:
            c.check('lookup', f"lookup stops at the first match for {s or 'any'} versions", helper_return(k, node), "a later child's entry replaces the one found first", where)
    for key in found:
        c.check('lookup', f"lookup returns the match for {key} versions", bool({key, None} & returned), "a child's result is not returned", f.where)
    c.check('lookup', 'newest version', found['nonpositive'] == {'backward'}, f"the children are tried {sorted(map(str, found['nonpositive']))} instead of last to first", f.where)
    c.check('lookup', 'explicit versions', found['positive'] == {'forward'}, f"the children are tried {sorted(map(str, found['positive']))} instead of first to last", f.where)
    matches(prog, c, k, attr, f, version)
    # the version is adjusted by the versions of the skipped children
    for key, opname in (('nonpositive', 'Add'), ('positive', 'Sub')):
        ok = False
        wrong = False
        for n, call, recv, facts, where, node in rule.calls:
            if n == '.versions':
                s = sign(facts, version)
                if s not in (key, None):
                    continue
                for v in later_versions(rule, version):
                    for x in subterms(v):
                        if x.op == 'bin' and x.args[0] in ('Add', 'Sub') and contains(x.args[2], call):
                            if x.args[0] == opname:
                                ok = True
                            else:
                                wrong = True
                            if x.args[0] == 'Sub' and opname == 'Add' and contains(x.args[1], call):
                                wrong = True
        c.check('lookup', f"version arithmetic for {key} versions", ok and not wrong, "the version is not corrected by the number of versions of the children tried before", f.where)


class Matches(Rule):
    """rs: set of ('pending', lookup of a child), ('children', number of loops)"""

    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def __init__(self, attr, version):
        self.attr = attr
        self.version = version
        self.dropped = []
        self.left = []

    def inline(self, cx, func, recv):
        return not func.is_generator and (recv is not None and recv.op == 'self' or func.module is cx.entry_module)

    def may_raise(self, cx, call):
        return False

    def on_call(self, cx, call, st):
        r = call_recv(call)
        rs = st.rs
        if call_name(call) == '.lookup' and r is not None and any(x.op == 'iter' for x in subterms(r)):
            rs = frozenset(x for x in rs if x[0] != 'pending') | {('pending', call)}
        return rs, st.rs

    def on_assume(self, cx, cond, polarity, st):
        rs = st.rs
        for x in rs:
            if x[0] != 'pending':
                continue
            none = cond is x[1] and not polarity
            none = none or cond.op == 'call' and call_name(cond) == 'isinstance' and call_args(cond)[0] is x[1] and not polarity
            none = none or cond.op == 'cmp' and cond.args[0] == 'is' and cond.args[1] is x[1] and cond.args[2] is NONE and polarity
            if none:
                rs = rs - {x}
        if cond.op == 'cmp' and any(y.op == 'call' and call_name(y) == '.versions' or y.op == 'loopvar' for y in subterms(cond)):
            for v in cond.args[1:]:
                if isinstance(v, V) and v.op != 'const':
                    s = sign({cond: polarity}, v)
                    if s:
                        rs = frozenset(y for y in rs if y[0] != 'sign') | {('sign', s)}
        for v in (self.version,):
            s = sign({cond: polarity}, v)
            if s:
                rs = frozenset(y for y in rs if y[0] != 'asked') | {('asked', s)}
        return rs

    def on_item(self, cx, it, item, st):
        if direction(it, self.attr) is None:
            return st.rs
        if any(x[0] == 'pending' for x in st.rs):
            self.dropped.append(cx.where())
        return frozenset(x for x in st.rs if x[0] not in ('pending', 'sign'))

    def on_break(self, cx, it, st):
        if direction(it, self.attr) is not None and not any(x[0] == 'pending' for x in st.rs):
            asked = next((x[1] for x in st.rs if x[0] == 'asked'), None)
            now = next((x[1] for x in st.rs if x[0] == 'sign'), None)
            if asked is not None and (now is None or now == asked):
                self.left.append(cx.where())
        return st.rs


def matches(prog, c, k, attr, f, version):
    rule = Matches(attr, version)
    flow = Flow(prog, rule)
    exits = flow.run(f, k)
    c.used(flow, f.where, len(exits))
    for where in rule.dropped:
        c.check('lookup', 'match dropped', False, "goes on to another child although the entry was found", where)
    for where in rule.left:
        c.check('lookup', 'stops early', False, "stops although the requested version may be found in one of the remaining children", where)
    for kind, v, st in exits:
        if kind == 'return' and is_const(v, None):
            c.check('lookup', 'match returned', not any(x[0] == 'pending' for x in st.rs), "finds nothing although a child has the entry", f.where)


def later_versions(rule, version):
    for n, call, recv, facts, where, node in rule.calls:
        if n == '.lookup':
            v = call_arg(call, 1, 'fileVersion')
            if v is not None and v is not version:
                yield v


def early_return(fn, node) -> bool:
    """A return or break follows inside the innermost loop containing the call."""
    loops = [l for l in ast.walk(fn) if isinstance(l, (ast.For, ast.While)) and any(x is node for x in ast.walk(l))]
    return any(isinstance(x, (ast.Return, ast.Break)) for l in loops for s in l.body for x in ast.walk(s))


def calls_function(node, name: str) -> bool:
    return isinstance(node, ast.Call) and (dotted(node.func) or '').split('.')[-1] == name


def helper_return(k, node) -> bool:
    for f in k.methods.values():
        if any(x is node for x in ast.walk(f.node)):
            if early_return(f.node, node) or any(calls_function(x, 'next') for x in ast.walk(f.node)):
                return True
            for g in k.methods.values():
                if g is not f:
                    for x in ast.walk(g.node):
                        if calls_function(x, f.node.name) and (early_return(g.node, x) or any(calls_function(y, 'next') for y in ast.walk(g.node))):
                            return True
    return False


def listing(prog, c, k, attr):
    for op in ('list', 'list_mode'):
        f = k.find(op)
        if f is None or (f.cls is not None and f.cls.name == ROOT):
            continue
        rule = UnionRule()
        flow = Flow(prog, rule)
        exits = flow.run(f, k)
        c.used(flow, f.where, len(exits))
        kids = [(call, recv, where, node) for n, call, recv, facts, where, node in rule.calls if n in ('.list', '.list_mode') and recv is not None and recv.op not in ('self', 'super')]
        c.check('list', f"{op} asks the children", bool(kids), "no child is listed", f.where)
        dirs = set()
        for call, recv, where, node in kids:
            its = rule.order.get(call)
            ds = rule.directions(call, attr)
            d = next(iter(ds)) if len(ds) == 1 else None
            if its:
                c.check('list', f"{op} asks all children", d is not None and not any(filtered(x) for x in its), "not all children are listed in their order", where)
            dirs.add(d)
            fn = owner(k, node)
            if fn is not None:
                for l in [l for l in ast.walk(fn) if isinstance(l, (ast.For, ast.While)) and any(x is node for x in ast.walk(l))]:
                    leave = [x for s in l.body for x in ast.walk(s) if isinstance(x, (ast.Return, ast.Break))]
                    c.check('list', f"{op} asks every child", not leave, "children after the first result are not listed", where)
        # who wins when merging dictionaries
        last = set()
        results = {call for call, *_ in kids}
        for n, call, recv, facts, where, node in rule.calls:
            if n == '.update' and call_args(call) and any(contains(call_args(call)[0], r) for r in results):
                other = any(contains(recv, r) and not contains(call_args(call)[0], recv) for r in results) or recv.op in ('loopvar', 'phi', 'dict', 'upd', 'call')
                if other:
                    last.add('overwrite')
            if n == '.update' and recv is not None and any(recv is r for r in results) and call_args(call) and not any(call_args(call)[0] is r for r in results):
                last.add('keep')
            if n == '.setdefault':
                last.add('keep')
        for kind, v, st in exits:
            for x in subterms(v):
                if x.op == 'dict':
                    stars = [y for kk, y in x.args[0] if kk.op == 'star']
                    if len(stars) >= 2:
                        i = [any(contains(s, r) and s.op != 'loopvar' for r in results) for s in stars]
                        if any(i):
                            last.add('overwrite' if i[-1] else 'keep')
                if x.op == 'bin' and x.args[0] == 'BitOr':
                    if any(x.args[2] is r for r in results):
                        last.add('overwrite')
                    elif any(x.args[1] is r for r in results):
                        last.add('keep')
        for fn in {owner(k, node) for *_, node in kids} - {None}:
            last |= stores(fn)
            for where, what in dropped(fn):
                c.check('list', f"{op} merges", False, what, f"{k.module.rel}:{where}")
        for n, call, recv, facts, where, node in rule.calls:
            c.check('list', f"{op} keeps names", not n.startswith(('.intersection', '.difference', '.symmetric_difference')), "names which are not in all children are dropped", where)
        d = next(iter(dirs), None)
        ok = len(dirs) == 1 and ((d == 'forward' and last == {'overwrite'}) or (d == 'backward' and last == {'keep'}) or not last and False)
        c.check('list', f"{op} precedence", ok, f"children are merged {d}, later results {sorted(last)} earlier ones, so that the last child does not win", f.where)


def dropped(fn):
    """Assignments to the returned accumulator inside of a loop which forget what was collected before."""
    acc = {n.value.id for n in ast.walk(fn) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    parents = {child: p for p in ast.walk(fn) for child in ast.iter_child_nodes(p)}
    for loop in [l for l in ast.walk(fn) if isinstance(l, (ast.For, ast.While))]:
        for n in ast.walk(loop):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in acc and isinstance(n.op, (ast.BitAnd, ast.Sub, ast.BitXor)):
                yield n.lineno, "names which are not in all children are dropped"
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in acc):
                continue
            a = n.targets[0].id
            used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            if a in used:
                if any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitAnd, ast.Sub, ast.BitXor)) for x in ast.walk(n.value)):
                    yield n.lineno, "names which are not in all children are dropped"
                continue
            if any(isinstance(x, ast.Name) and assigned_from(loop, x.id, a) for x in ast.walk(n.value)):
                continue
            p, child, ok = parents.get(n), n, False
            while p is not None and p is not fn:
                if isinstance(p, ast.If):
                    t = p.test
                    neg = child in p.orelse
                    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                        t, neg = t.operand, not neg
                    if isinstance(t, ast.Compare) and any(isinstance(x, ast.Name) and x.id == a for x in ast.walk(t)):
                        ok = ok or (isinstance(t.ops[0], (ast.Is, ast.Eq)) != neg)
                    if isinstance(t, ast.Name) and t.id == a:
                        ok = ok or neg
                    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('len', 'bool') and any(isinstance(x, ast.Name) and x.id == a for x in ast.walk(t)):
                        ok = ok or neg
                p, child = parents.get(p), p
            if not ok:
                yield n.lineno, "the names collected from other children are dropped"


def assigned_from(loop, name, acc) -> bool:
    return any(
        isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and any(isinstance(x, ast.Name) and x.id == acc for x in ast.walk(n.value))
        for n in ast.walk(loop)
    )


def stores(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            cond = [i for i in ast.walk(fn) if isinstance(i, ast.If) and any(x is n for s in i.body for x in ast.walk(s))
                    and isinstance(i.test, ast.Compare) and isinstance(i.test.ops[0], ast.NotIn)]
            out.add('keep' if cond else 'overwrite')
    return out


def filtered(it: V) -> bool:
    return any(x.op == 'comp' and x.args[4] for x in subterms(it) if x.op == 'comp' and len(x.args) > 4)


def owner(k, node):
    for f in k.methods.values():
        if any(x is node for x in ast.walk(f.node)):
            return f.node
    return None


def versions(prog, c, k, attr):
    f = k.find('versions')
    if f is None:
        return
    rule = UnionRule()
    flow = Flow(prog, rule)
    exits = flow.run(f, k)
    c.used(flow, f.where, len(exits))
    kids = [(call, recv, where, node) for n, call, recv, facts, where, node in rule.calls if n == '.versions' and recv is not None and recv.op not in ('self', 'super')]
    for kind, v, st in exits:
        if kind != 'return':
            continue
        names = {call_name(x) for x in subterms(v) if x.op == 'call'}
        summed = 'sum' in names or any(x.op == 'bin' and x.args[0] == 'Add' for x in subterms(v)) or (v.op == 'const' and cval(v) == 0)
        c.check('versions', 'sum', summed and not names & {'max', 'min', 'any', 'len', 'next'}, f"is computed as {show(v)[:60]}", f.where)
    c.check('versions', 'children', bool(kids), "no child is asked", f.where)
    for call, recv, where, node in kids:
        its = rule.order.get(call)
        c.check('versions', 'all children', bool(its) and None not in rule.directions(call, attr) and not any(filtered(x) for x in its), "not all children are asked", where)


def cache(prog, c, k, attr):
    """Where children are filtered by a cache, non-immutable ones must be kept; the cache is only built from immutable ones."""
    n = 0
    for f in k.methods.values():
        for x in ast.walk(f.node):
            conds = []
            if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
                for g in x.generators:
                    if isinstance(g.iter, ast.Attribute) and g.iter.attr == attr and g.ifs and isinstance(x.elt, ast.Name):
                        conds.append((g.ifs, g.target))
            if isinstance(x, ast.For) and isinstance(x.iter, ast.Attribute) and x.iter.attr == attr:
                for i in x.body:
                    if isinstance(i, ast.If) and 'is_immutable' in ast.unparse(i.test) and any(
                        isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('append', 'add') for s in i.body for y in ast.walk(s)
                    ):
                        conds.append(([i.test], x.target))
            for ifs, target in conds:
                n += 1
                test = ' and '.join(f"({ast.unparse(i)})" for i in ifs)
                names = {z.id for i in ifs for z in ast.walk(i) if isinstance(z, ast.Name)}
                building = not any(isinstance(z, ast.Compare) and isinstance(z.ops[0], (ast.In, ast.NotIn)) for i in ifs for z in ast.walk(i))
                alive = evaluate(ifs, immutable=False)
                if building:
                    c.check('skip', f"{f.node.name} caches", not alive, f"children which may change are cached: {test[:60]}", f"{k.module.rel}:{x.lineno}")
                else:
                    c.check('skip', f"{f.node.name} filters", alive, f"children which may change are skipped: {test[:60]}", f"{k.module.rel}:{x.lineno}")
    # The cache may only replace the list of all children through such a filter.
    f = k.find('lookup')
    rule = UnionRule()
    flow = Flow(prog, rule)
    flow.run(f, k)
    cached = False
    for name, call, recv, facts, where, node in rule.calls:
        if name != '.lookup' or recv is None:
            continue
        for it in [x for x in rule.order.get(call, ()) if not empty(x)]:
            c.check('skip', 'lookup enumerates all children', direction(it, attr) is not None, f"enumerates {show(it)[:60]} instead of all children", where)
    c.instance('cache filters', str(n))


class Builder(Rule):
    """rs: set of ('pending', item), ('inside', iterable), ('partial',), ('merged',), ('claimed',)"""

    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def __init__(self, attr, names, depths):
        self.attr, self.names, self.depths = attr, names, depths
        self.dropped, self.partial, self.early, self.ahead = [], [], [], []
        self.files = 0
        self.claims = 0
        self.merges = 0

    def inline(self, cx, func, recv):
        return not func.is_generator and (recv is not None and recv.op == 'self' or func.module is cx.entry_module)

    def may_raise(self, cx, call):
        return False

    @staticmethod
    def listing(it: V) -> bool:
        return any(x.op == 'call' and call_name(x) in ('.list', '.list_mode') for x in subterms(it))

    @staticmethod
    def rounds(it: V) -> bool:
        return it.op == 'call' and call_name(it).split('.')[-1] in ('range', 'count')

    def on_item(self, cx, it, item, st):
        rs = st.rs
        if any(x[0] == 'pending' for x in rs):
            self.dropped.append(cx.where())
        rs = frozenset(x for x in rs if x[0] not in ('pending', 'present'))
        if self.rounds(it):
            return frozenset(x for x in rs if x[0] not in ('merged', 'claimed'))
        if self.listing(it):
            self.files += 1
            name = item.args[0][0] if item.op == 'tuple' and item.args[0] else item
            rs = rs | {('pending', name), ('inside', it)}
        return rs

    def on_end(self, cx, it, st):
        rs = st.rs
        if any(x[0] == 'pending' for x in rs):
            self.dropped.append(cx.where())
        rs = frozenset(x for x in rs if x[0] not in ('pending', 'present'))
        return rs - {('inside', it)}

    def on_break(self, cx, it, st):
        rs = frozenset(x for x in st.rs if x[0] != 'pending') - {('inside', it)}
        return rs if self.rounds(it) else rs | {('partial',)}

    def resolve(self, rs, v: V):
        return frozenset(x for x in rs if not (x[0] in ('pending', 'present') and contains(v, x[1])))

    def on_assume(self, cx, cond, polarity, st):
        rs = st.rs
        if cond.op == 'call':
            n = call_name(cond).split('.')[-1]
            if not polarity and n in ('lookup', 'S_ISDIR', 'is_dir', 'isinstance'):
                rs = self.resolve(rs, cond)
        elif cond.op == 'cmp' and cond.args[0] == 'in' and polarity:
            rs = rs | {('present', x[1]) for x in rs if x[0] == 'pending' and contains(cond.args[1], x[1])}
        elif cond.op == 'cmp' and cond.args[0] == 'is' and cond.args[2] is NONE and polarity and cond.args[1].op == 'call' and call_name(cond.args[1]) == '.lookup':
            rs = self.resolve(rs, cond)
        return rs

    def claim(self, cx, rs):
        if any(x[0] == 'inside' for x in rs) or ('partial',) in rs:
            self.partial.append(cx.where())

    def cached(self, v, st) -> bool:
        if v is not None and v.op == 'attr' and v.args[1] in self.names and v.args[0].op == 'self':
            return True
        return v is not None and any(isinstance(b, tuple) and b[1] in self.names and b[0].op == 'self' and x is v for b, x in st.heap.items())

    def on_call(self, cx, call, st):
        n, a, r = call_name(call), call_args(call), call_recv(call)
        rs = st.rs
        if n in ('.append', '.add') and a and any(x.op in ('iter', 'item') for x in subterms(a[0])) and not any(
                x[0] == 'pending' and x[1] in set(subterms(a[0])) for x in rs):
            key = [x for x in rs if x[0] == 'pending' and r is not None and (x[1] in set(subterms(r)) or ('present', x[1]) in rs)]
            rs = frozenset(x for x in rs if x not in key)
        if n == '.update' and self.cached(r, st):
            self.merges += 1
            self.claim(cx, rs)
            rs = rs | {('merged',)}
        return rs, st.rs

    def on_store(self, cx, base, key, value, st):
        rs = st.rs
        if isinstance(key, V):
            for x in rs:
                if x[0] == 'pending' and contains(key, x[1]):
                    old = any(y.op == 'sub' and y.args[0] is base or y.op == 'call' and call_name(y) in ('.get', '.pop') for y in subterms(value))
                    absent = any(t.op == 'cmp' and t.args[0] == 'in' and t.args[1] is key and not p or t.op == 'call' and call_name(t) == '.get' and not p
                                 or t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and p and t.args[1].op == 'call' and call_name(t.args[1]) == '.get'
                                 for t, p in st.facts.items())
                    if old or absent:
                        rs = rs - {x}
            if self.cached(base, st):
                self.merges += 1
                self.claim(cx, rs)
                rs = rs | {('merged',)}
        elif base.op == 'self' and key in self.names:
            # Initialized or replaced by a merged one.
            self.merges += 1
            self.claim(cx, rs)
            rs = rs | {('merged',)}
        elif base.op == 'self' and key in self.depths and not (value.op == 'const' and cval(value) == 0):
            self.claims += 1
            self.claim(cx, rs)
            rs = rs | {('claimed',)}
            terms, k = linear(value)
            if len(terms) == 1:
                (t, n), = terms
                if n == 1 and t.op == 'iter' and self.rounds(t.args[0]):
                    a = call_args(t.args[0])
                    first = 0 if len(a) < (2 if call_name(t.args[0]).split('.')[-1] == 'range' else 1) else cval(a[0]) if a[0].op == 'const' else None
                    if isinstance(first, int) and first + k > 1:
                        self.ahead.append(cx.where())
        return rs


def builder(prog, c, k, attr):
    """What is cached about a depth is complete."""
    f = k.find('lookup')
    rule = UnionRule()
    flow = Flow(prog, rule)
    exits = flow.run(f, k)
    names, depths = set(), set()
    for name, call, recv, facts, where, node in rule.calls:
        if name in ('.get',) and recv is not None and recv.op == 'attr' and recv.args[0].op == 'self' and recv.args[1] != attr:
            names.add(recv.args[1])
        for t in facts:
            if t.op == 'cmp' and t.args[0] == 'in' and isinstance(t.args[2], V) and t.args[2].op == 'attr' and t.args[2].args[0].op == 'self' and t.args[2].args[1] != attr:
                names.add(t.args[2].args[1])
        if name in ('.split', '.rsplit') and len(call_args(call)) > 1 or name == '.split' and call_kw(call):
            limit = call_arg(call, 1, 'maxsplit')
            if limit is None:
                continue
            terms, n = linear(limit)
            for t, m in terms:
                if t.op == 'attr' and t.args[0].op == 'self':
                    depths.add(t.args[1])
                    if name == '.split':
                        c.check('skip', 'lookup depth', m == 1 and n <= 1, "asks for a folder which is deeper than those which have been cached", where)
        for it in rule.order.get(call, ()):
            cut = [x for x in subterms(it) if x.op == 'sub' and x.args[1].op == 'slice' and any(
                y.op == 'attr' and y.args[1] in names for y in subterms(x.args[0])) and x.args[0].op in ('call', 'sub', 'attr')
                and not any(y.op == 'call' and call_name(y) in ('.split', '.rsplit') and x.args[0] is y for y in subterms(x))]
            c.check('skip', 'lookup cached', not cut, f"uses only a part of the cached children ({show(cut[0])[:50] if cut else ''})", where)
    if not names:
        return
    init = k.find('__init__')
    rule = Builder(attr, names, depths)
    flow = Flow(prog, rule)
    exits = flow.run(init, k)
    c.used(flow, init.where, len(exits))
    c.instance('cache builders', k.name)
    for where in rule.dropped:
        c.check('skip', 'cache complete', False, "a folder of a child is not cached, so that the child would be skipped", where)
    for where in rule.partial:
        c.check('skip', 'cache partial', False, "caches a depth although not all folders of all children have been visited", where)
    for where in rule.ahead:
        c.check('skip', 'cache depth', False, "claims to have cached a depth which has not been visited yet", where)
    c.check('skip', 'cache merged', not rule.claims or rule.merges > 0, "claims to have cached depths whose folders are never added", init.where)


def evaluate(ifs, immutable: bool) -> bool:
    """Value of the conditions for a child which is (not) immutable and is not cached."""

    def ev(e):
        if isinstance(e, ast.BoolOp):
            vals = [ev(x) for x in e.values]
            return all(vals) if isinstance(e.op, ast.And) else any(vals)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not ev(e.operand)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'is_immutable':
            return immutable
        if isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.In):
            return False
        if isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.NotIn):
            return True
        return True

    return all(ev(i) for i in ifs)
