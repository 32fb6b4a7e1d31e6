"""Recursive mounting is bounded by the requested depth and a nested archive which cannot be mounted harms nothing else."""

import ast
from typing import Optional, Tuple

from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, contains, cval, is_const, mk, show, subterms
from ..model import Class, Func, Program, dotted, walk_own
from .c03 import holder_fields

EXPLANATION = (
    "Path-sensitive dataflow over the methods of the recursive mounting layer which mount nested archives: the comparisons with the "
    "maximum depth which hold on a path are tracked up to every opening of a nested archive, together with the options handed over and the "
    "exception edges of the opening. The same for the nested TARs of the TAR backend."
)
LAYER = 'AutoMountLayer'
MAX = 'maxRecursionDepth'
OPTION = 'recursionDepth'
SETTINGS = ('options', 'maxRecursionDepth', 'lazyMounting', '_recursive_suffix_rules')


def linear(v: V) -> Optional[Tuple[frozenset, int]]:
    """Sum of terms with integer coefficients plus a constant."""
    acc = {}
    const = 0

    def walk(x, sign):
        nonlocal const
        if x.op == 'const' and type(cval(x)) in (int, bool):
            const += sign * int(cval(x))
        elif x.op == 'bin' and x.args[0] in ('Add', 'Sub'):
            walk(x.args[1], sign)
            walk(x.args[2], sign if x.args[0] == 'Add' else -sign)
        elif x.op == 'un' and x.args[0] in ('USub', '-'):
            walk(x.args[1], -sign)
        else:
            acc[x] = acc.get(x, 0) + sign
    walk(v, 1)
    return frozenset((k, n) for k, n in acc.items() if n), const


def is_max(v: V) -> bool:
    return v.op == 'attr' and v.args[1] == MAX


def bound(cond: V, polarity: bool):
    """(terms, constant) of D such that the condition implies D <= maximum depth; None if it is no such comparison."""
    if cond.op != 'cmp' or cond.args[0] not in ('Gt', 'GtE', 'Lt', 'LtE', '>', '>=', '<', '<='):
        return None
    op = {'>': 'Gt', '>=': 'GtE', '<': 'Lt', '<=': 'LtE'}.get(cond.args[0], cond.args[0])
    a, b = cond.args[1], cond.args[2]
    if not any(is_max(x) for x in subterms(a)) and not any(is_max(x) for x in subterms(b)):
        return None
    if not polarity:
        op = {'Gt': 'LtE', 'GtE': 'Lt', 'Lt': 'GtE', 'LtE': 'Gt'}[op]
    if op in ('Gt', 'GtE'):
        a, b, op = b, a, 'Lt' if op == 'Gt' else 'LtE'
    # Now: a op b, that is a - b <= 0 (or <= -1).
    ta, ca = linear(a)
    tb, cb = linear(b)
    d = dict(ta)
    for k, n in tb:
        d[k] = d.get(k, 0) - n
    c = ca - cb + (1 if op == 'Lt' else 0)
    m = [k for k, n in d.items() if is_max(k) and n == -1]
    if len(m) != 1:
        return None
    return frozenset((k, n) for k, n in d.items() if n and k is not m[0]), c


def same_or_below(depth: V, proofs) -> Optional[int]:
    """Slack of the tightest proof for this depth: 0 means depth <= maximum exactly."""
    t, c = linear(depth)
    best = None
    for terms, k in proofs:
        if terms == t:
            s = k - c
            best = s if best is None else max(best, s)
    return best


class Rules(Rule):
    initial = frozenset()
    max_depth = 8

    def __init__(self):
        self.opens = []
        self.mounts = []
        self.shared = []
        self.escapes = []
        self.settings = []

    def inline(self, cx, func: Func, recv):
        if recv is not None and recv.op == 'self':
            return True
        return super().inline(cx, func, recv)

    def on_assume(self, cx, cond, polarity, st):
        b = bound(cond, polarity)
        return st.rs | {('bound', b)} if b is not None else st.rs

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        r = call_recv(call)
        if r is not None and r.op == 'attr' and r.args[0].op == 'self' and r.args[1] in SETTINGS and n in ('pop', 'update', 'clear', 'setdefault', 'popitem'):
            self.settings.append((r.args[1], cx.where()))
        if n == 'open_mount_source':
            self.opens.append((call, st.rs, st, cx.where()))
            return st.rs, st.rs | {('failed', n)}
        return st.rs, st.rs

    def on_store(self, cx, base, key, value, st):
        if base.op == 'attr' and base.args[1] == 'mounted' and base.args[0].op == 'self':
            self.mounts.append((value, st.rs, cx.where()))
        if base.op == 'self' and isinstance(key, str) and key in SETTINGS:
            self.settings.append((key, cx.where()))
        if base.op == 'attr' and base.args[1] == 'options' and base.args[0].op == 'self':
            self.shared.append((key, cx.where()))
        return st.rs


def mounters(cls: Class):
    """The innermost methods which both open a nested archive and add it to the mounted ones, directly or through helpers."""
    methods = {}
    for k in reversed(cls.mro()):
        if k.name != 'MountSource':
            methods.update(k.methods)
    calls, opens, stores = {}, set(), set()
    for n, f in methods.items():
        calls[n] = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                d = dotted(x.func) or ''
                if d.split('.')[-1] == 'open_mount_source':
                    opens.add(n)
                if d.startswith(('self.', 'cls.', cls.name + '.')) and d.count('.') == 1 and d.split('.')[1] in methods:
                    calls[n].add(d.split('.')[1])
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and dotted(x.value) == 'self.mounted':
                stores.add(n)
            if isinstance(x, ast.Call) and dotted(x.func) in ('self.mounted.update', 'self.mounted.setdefault', 'self.mounted.__setitem__'):
                stores.add(n)

    def reach(n, target, seen):
        if n in target:
            return True
        seen.add(n)
        return any(reach(m, target, seen) for m in calls[n] if m not in seen)
    both = {n for n in methods if reach(n, opens, set()) and reach(n, stores, set())}
    if not both:
        return [(n, methods[n]) for n in sorted(opens)]
    return [(n, methods[n]) for n in sorted(both) if not any(m in both for m in calls[n] if m != n)]


def option(call: V, st, key: str) -> Tuple[Optional[V], Optional[V]]:
    """(value of the option, the mapping it was put into)."""
    kw = call_kw(call)
    if key in kw:
        return kw[key], None
    m = kw.get('**')
    while m is not None:
        for (b, k), val in st.heap.items():
            if b is m and (k == key or (isinstance(k, V) and cval(k) == key)):
                return val, m
        if m.op == 'upd':
            how, base, what = m.args[0], m.args[1], m.args[2] if len(m.args) > 2 else ()
            if how == 'setitem' and isinstance(what, tuple) and len(what) == 2 and (what[0] == key or (isinstance(what[0], V) and cval(what[0]) == key)):
                return what[1], base
            if how in ('update', '.update') and isinstance(what, tuple):
                for w in what:
                    for x in subterms(w) if isinstance(w, V) else ():
                        v = in_dict(x, key)
                        if v is not None:
                            return v, base
            m = base
            continue
        v = in_dict(m, key)
        if v is not None:
            return v, m
        break
    return None, None


def in_dict(m: V, key: str) -> Optional[V]:
    if m.op == 'dict':
        for pair in m.args[0] if m.args and isinstance(m.args[0], tuple) else ():
            if isinstance(pair, tuple) and len(pair) == 2 and isinstance(pair[0], V) and cval(pair[0]) == key:
                return pair[1]
            if isinstance(pair, tuple) and len(pair) == 2 and pair[0] == key:
                return pair[1]
    if m.op == 'call' and call_name(m).split('.')[-1] == 'dict' and key in call_kw(m):
        return call_kw(m)[key]
    return None


def alternatives(v: V):
    return v.args[0] if v.op == 'phi' else (v,)


def run(prog: Program, c):
    c.rule('bound', "a nested archive is only opened and mounted after its depth was found not to exceed the maximum depth")
    c.rule('depth', "the depth stored for a mounted archive is the checked one, and is one more than that of the archive containing it")
    c.rule('remaining', "a nested archive gets the remaining depth, in its own copy of the options")
    c.rule('isolate', "a failure to open a nested archive neither leaves the layer nor mounts anything")
    c.rule('tar', "nested TARs are collected only below the maximum depth and indexed one level deeper")
    cls = prog.cls(LAYER)
    seen = 0
    mounted = 0
    for name, f in mounters(cls):
        rule = Rules()
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        for call, rs, st, where in rule.opens:
            seen += 1
            c.instance('openings of nested archives', where.split(':')[0] + ' ' + name)
            proofs = {b[1] for b in rs if b[0] == 'bound'}
            c.check('bound', f"{LAYER}.{name} opens a nested archive", any(k >= 0 and t for t, k in proofs),
                    "opens a nested archive whose depth may exceed the maximum depth", where)
            value, base = option(call, st, OPTION)
            construct = f"{LAYER}.{name} passes {OPTION}"
            if value is None:
                c.check('remaining', construct, False, f"{OPTION} is not set for the nested archive", where)
            else:
                c.check('remaining', construct, is_remaining(value, proofs), f"{OPTION} is {show(value)[:60]} instead of the remaining depth", where)
        for name2, where in rule.settings:
            c.check('isolate', f"{LAYER}.{name} settings", False, f"changes {name2}, with which other nested archives are mounted", where)
        for key, where in rule.shared:
            c.check('remaining', f"{LAYER}.{name} options", False, f"changes the option {key if isinstance(key, str) else show(key)} for all other nested archives", where)
        depths = []
        for value, rs, where in rule.mounts:
            mounted += 1
            proofs = {b[1] for b in rs if b[0] == 'bound'}
            D = depth_of(cls, value)
            construct = f"{LAYER}.{name} mounts"
            c.check('isolate', construct, not any(x[0] == 'failed' for x in rs), "mounts something although opening the nested archive failed", where)
            if D is None:
                c.check('depth', construct, False, "does not store the depth", where)
                continue
            slack = same_or_below(D, proofs)
            c.check('depth', construct, slack is not None and slack >= 0, f"the stored depth {show(D)[:60]} is not the checked one", where)
            depths.append(D)
        alts = [linear(x) for D in depths for x in alternatives(D)]
        deeper = [k for t, k in alts if k >= 1 and any(y.op == 'attr' and y.args[1] == OPTION for x, _ in t for y in subterms(x))]
        c.check('depth', f"{LAYER}.{name} mounts deeper", bool(deeper) and all(k <= 1 for _, k in alts), "the depth is not one more than that of the containing archive", f.where)
        for kind, v, st in exits:
            if kind == 'raise':
                bad = v is not None and any(x.op == 'exc' and str(x.args[0]).split('.')[-1] == 'open_mount_source' for x in subterms(v))
                bad = bad or (any(x[0] == 'failed' for x in st.rs) and v is not None and v.op != 'exc')
                c.check('isolate', f"{LAYER}.{name}", not bad, "a nested archive which cannot be opened makes the whole request fail", f.where)
            else:
                c.check('isolate', f"{LAYER}.{name}", True)
    c.check('bound', LAYER, seen > 0, "never opens a nested archive", cls.where)
    c.check('depth', LAYER, mounted > 0, "never mounts a nested archive", cls.where)
    tar(prog, c)


def is_remaining(value: V, proofs) -> bool:
    if value.op == 'call' and call_name(value).split('.')[-1] == 'max' and len(call_args(value)) == 2:
        rest = [x for x in call_args(value) if not is_const(x, 0)]
        if len(rest) != 1:
            return False
        value = rest[0]
    t, k = linear(value)
    plus = [x for x, n in t if n == 1 and is_max(x)]
    if len(plus) != 1:
        return False
    neg = frozenset((x, -n) for x, n in t if x is not plus[0])
    return any(terms == neg and kk == -k for terms, kk in proofs)


def depth_of(cls: Class, value: V) -> Optional[V]:
    if value.op not in ('call', 'new'):
        return None
    kw = call_kw(value)
    if OPTION in kw:
        return kw[OPTION]
    name = value.args[0].name if value.op == 'new' else call_name(value).split('.')[-1]
    fields = holder_fields(type('L', (), {'cls': cls})(), name)
    args = call_args(value)
    if OPTION in fields and fields.index(OPTION) < len(args):
        return args[fields.index(OPTION)]
    return None


# --------------------------------------------------------------------------- nested TARs of the TAR backend


class TarRule(Rule):
    initial = frozenset()
    max_depth = 6

    def __init__(self, names):
        self.names = names
        self.collected = []

    def on_assume(self, cx, cond, polarity, st):
        b = bound(cond, polarity)
        return st.rs | {('bound', b)} if b is not None else st.rs

    def on_call(self, cx, call, st):
        node = cx.node
        n = call_name(call)
        if n in ('.extend', '.append') and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name):
            if node.func.value.id in self.names.get(id(cx.frame.func.node), ()):
                self.collected.append((st.rs, cx.where()))
        return st.rs, st.rs


def tar(prog: Program, c):
    k = prog.cls('SQLiteIndexedTar', required=False)
    if k is None:
        c.check('tar', 'SQLiteIndexedTar', False, "is missing")
        return
    # The method which indexes one TAR calls itself for the nested ones.
    recursive = 0
    for f in k.methods.values():
        pars = [p for p in f.params if p != 'self']
        for call in walk_own(f.node):
            if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == f.name and isinstance(call.func.value, ast.Name)
                    and call.func.value.id == 'self'):
                continue
            recursive += 1
            c.instance('recursive indexing', f.qual if isinstance(f.qual, str) else f.name)
            ok = False
            for i, p in enumerate(pars):
                a = next((x.value for x in call.keywords if x.arg == p), None)
                if a is None and i < len(call.args):
                    a = call.args[i]
                if isinstance(a, ast.Name):
                    a = local_value(f, a.id) or a
                if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add):
                    for x, y in ((a.left, a.right), (a.right, a.left)):
                        if isinstance(x, ast.Name) and x.id == p and isinstance(y, ast.Constant) and y.value == 1:
                            ok = True
            c.check('tar', f"SQLiteIndexedTar.{f.name} recurses", ok, "nested TARs are not indexed one level deeper", f"{f.where}")
    c.check('tar', 'SQLiteIndexedTar recursion', recursive > 0, "nested TARs are not indexed", k.where)
    reader = [x for x in prog.all_classes() if x.module is k.module and 'process' in x.methods]
    if not reader:
        c.check('tar', 'member reader', False, "the member reader of the TAR backend is missing", k.where)
        return
    for r in reader:
        names = {}
        for f in r.methods.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                    names.setdefault(id(f.node), set()).add(n.value.id)
        # Lists returned by helpers which only build the rows of one member are not the collected ones.
        f = r.methods['process']
        names = {i: v for i, v in names.items() if any(id(g.node) == i and any(isinstance(x, ast.For) for x in walk_own(g.node)) and not g.is_static for g in r.methods.values())}
        rule = TarRule(names)
        flow = Flow(prog, rule)
        exits = flow.run(f, r)
        c.used(flow, f.where, len(exits))
        for rs, where in rule.collected:
            proofs = {b[1] for b in rs if b[0] == 'bound'}
            c.instance('collections of nested TARs', r.name)
            # The member's own depth must be strictly below the maximum, because the nested one is one deeper.
            c.check('tar', f"{r.name} collects nested TARs", any(kk >= 1 for t, kk in proofs if t), "nested TARs are collected at the maximum depth", where)
        c.check('tar', f"{r.name} collects", bool(rule.collected), "never collects nested TARs", r.where)


def local_value(f: Func, name: str):
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return n.value
    return None
