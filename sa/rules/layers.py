"""Shared analysis of the compositing layers: mount sources which are constructed from other mount sources."""

import ast
from typing import Dict, List, Optional, Tuple

from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, contains, cval, is_const, mk, show, subterms
from ..model import AnalysisBroken, Class, Func, Program, dotted, walk_own

ROOT = 'MountSource'
QUERY = {'lookup', 'list', 'list_mode', 'versions', 'exists', 'is_dir'}
ACCESS = {'open', 'read', 'list_xattr', 'get_xattr', 'get_mount_source'}
IFACE = QUERY | ACCESS


def root_class(prog: Program) -> Class:
    return prog.cls(ROOT)


def layers(prog: Program) -> List[Class]:
    """Concrete subclasses of MountSource whose constructor takes mount sources."""
    root = root_class(prog)
    out = []
    for k in prog.subclasses(root):
        if k is root or '.tests' in k.module.name:
            continue
        init = k.find('__init__')
        if init is None:
            continue
        a = init.node.args
        for p in [*a.posonlyargs, *a.args, *a.kwonlyargs]:
            if p.annotation is not None and any(
                (isinstance(n, ast.Name) and n.id == ROOT) or (isinstance(n, ast.Constant) and n.value == ROOT) for n in ast.walk(p.annotation)
            ):
                out.append(k)
                break
    return out


def own_functions(k: Class):
    for c in k.mro():
        if c.name != ROOT:
            yield from c.methods.values()


def uses_tokens(k: Class) -> bool:
    return any(isinstance(n, ast.Attribute) and n.attr == 'userdata' for f in own_functions(k) for n in ast.walk(f.node))


def container_annotation(k: Class, attr: str) -> Optional[str]:
    for f in own_functions(k):
        for n in ast.walk(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                return ast.unparse(n.annotation)
    for c in k.mro():
        if attr in c.attrs and isinstance(c.attrs[attr], ast.AST):
            return ast.unparse(c.attrs[attr])
    return None


def touches(func: Func, memo={}) -> bool:
    """The function's own code handles tokens, or calls the interface of a mount source, or calls one of its parameters."""
    key = id(func.node)
    if key not in memo:
        params = {a.arg for a in func.node.args.args}
        memo[key] = False
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and n.attr == 'userdata':
                memo[key] = True
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in IFACE and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'self'):
                    memo[key] = True
                if isinstance(n.func, ast.Name) and n.func.id in params:
                    memo[key] = True
    return memo[key]


def userdata_of(v: V) -> Optional[V]:
    return v.args[0] if v is not None and v.op == 'attr' and v.args[1] == 'userdata' else None


def is_self_rooted(v: V) -> bool:
    return v.op in ('self', 'super')


class LayerRule(Rule):
    """rs: set of ('d', F, n) token balance, ('abs', F, n), ('clone', F, B), ('list', R, call), ('pend', R, item), ('seen', R)"""

    initial = frozenset()
    max_depth = 6

    def __init__(self, cls: Class, entry: str, deep=True):
        self.cls = cls
        self.deep = deep
        self.exc_exits = deep
        self.entry = entry
        self.child = []  # (name, call, recv, rs, facts, where)
        self.pushes = []  # (F, token, where, rs)
        self.holders = []  # (call, rs, where) constructions of dataclasses holding a FileInfo
        self.pops = {}
        self.listed = []  # values which are added to a container
        self.literals = {}  # file info -> mark with which it was created
        self.keyed = []  # (container, key, value, literals, where)

    def inline(self, cx, func, recv):
        if not self.deep:
            return False
        if recv is not None and recv.op == 'self' or func.cls is self.cls or (func.cls and func.cls in self.cls.mro()):
            return func.name in IFACE or touches(func)
        return func.module is cx.entry_module and touches(func)

    def may_raise(self, cx, call):
        n = call_name(call)
        return n.lstrip('.') not in ('append', 'pop', 'clone', 'isinstance', 'get', 'update', 'union', 'items', 'values', 'keys', 'split', 'join', 'lstrip', 'rstrip', 'strip')

    # -- balance

    @staticmethod
    def delta(rs, F) -> int:
        for x in rs:
            if x[0] == 'd' and x[1] is F:
                return x[2]
        return 0

    @staticmethod
    def absolute(rs, F) -> Optional[int]:
        for x in rs:
            if x[0] == 'abs' and x[1] is F:
                return x[2]
        return None

    @staticmethod
    def clone_of(rs, F):
        for x in rs:
            if x[0] == 'clone' and x[1] is F:
                return x[2], x[3]
        return None

    def add(self, rs, F, n):
        a = self.absolute(rs, F)
        if a is not None:
            return frozenset({x for x in rs if not (x[0] == 'abs' and x[1] is F)} | {('abs', F, max(-3, min(3, a + n)))})
        d = self.delta(rs, F) + n
        return frozenset({x for x in rs if not (x[0] == 'd' and x[1] is F)} | {('d', F, max(-3, min(3, d)))})

    def base(self, rs, F) -> Tuple[V, int]:
        """Original value and balance relative to it."""
        d = self.delta(rs, F)
        for _ in range(8):
            c = self.clone_of(rs, F)
            if c is None:
                break
            F, extra = c
            d += extra
        return F, d

    # -- hooks

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        target = None
        if cond.op == 'call' and call_name(cond) == 'isinstance' and len(call_args(cond)) == 2 and not pol:
            names = show(call_args(cond)[1])
            if 'dict' in names or 'FileInfo' in names or 'Mapping' in names:
                target = call_args(cond)[0]
        elif cond.op == 'cmp' and cond.args[0] == 'is' and cond.args[2] is NONE and pol:
            target = cond.args[1]
        elif cond.op in ('call', 'loopvar', 'phi', 'item', 'sub') and not pol:
            target = cond
        if target is not None:
            rs = frozenset(x for x in rs if not (x[0] == 'list' and x[1] is target) and not (x[0] == 'pend' and x[2] is target))
        return rs

    def on_iter(self, cx, it, st):
        rs = st.rs
        for x in st.rs:
            if x[0] == 'list' and contains(it, x[1]):
                rs = (rs - {x}) | {('seen', x[1], x[2])}
        return rs

    def on_item(self, cx, it, item, st):
        rs = st.rs
        for x in st.rs:
            if x[0] == 'seen' and contains(it, x[1]):
                n = call_name(it) if it.op == 'call' else ''
                if n in ('.values', '.items') or it is x[1] or n in ('list', 'sorted', '.keys', 'tuple', 'iter'):
                    target = item.args[0][1] if item.op == 'tuple' and len(item.args[0]) == 2 and n in ('.items', 'list', 'sorted', 'tuple') else item
                    rs = rs | {('pend', x[1], target)}
        return rs

    def settle(self, rs, F):
        """One token was pushed to F: an element of a listing."""
        for x in rs:
            if x[0] == 'pend' and (x[2] is F or (F.op == 'sub' and F.args[0] is x[1])):
                return rs - {x}
        return None

    def push(self, cx, rs, F, T):
        self.pushes.append((F, T, cx.where(), rs))
        s = self.settle(rs, F)
        return s if s is not None else self.add(rs, F, 1)

    def on_store(self, cx, base, key, value, st):
        if isinstance(key, V):
            self.listed.append((value, cx.where()))
        if isinstance(key, V) and base.op == 'attr' and base.args[0].op == 'self':
            self.keyed.append((base.args[1], key, value, dict(self.literals), cx.where()))
        if key != 'userdata':
            return st.rs
        rs = st.rs
        if value.op == 'list' and not any(x.op == 'star' for x in value.args[0]):
            if len(value.args[0]) == 1:
                self.literals[base] = value.args[0][0]
            rs = frozenset(x for x in rs if not (x[0] in ('d', 'abs', 'clone') and x[1] is base))
            return rs | {('abs', base, len(value.args[0]))}
        inner = [x for x in subterms(value) if userdata_of(x) is not None]
        if value.op == 'list' and inner:
            n = len([x for x in value.args[0] if x.op != 'star'])
            T = next((x for x in value.args[0] if x.op != 'star'), NONE)
            return self.push(cx, rs, base, T) if n == 1 else self.add(rs, base, n)
        if value.op == 'bin' and inner and value.args[2].op == 'list' and len(value.args[2].args[0]) == 1:
            return self.push(cx, rs, base, value.args[2].args[0][0])
        if value.op == 'sub' and inner and value.args[1].op == 'slice':
            sl = [cval(x) if x.op == 'const' else '?' for x in value.args[1].args]
            if sl[:2] == [None, -1]:
                return self.add(rs, base, -1)
            if sl[:2] == [None, None]:
                return rs
        return rs

    def on_delete(self, cx, base, key, st):
        F = userdata_of(base)
        if F is not None and isinstance(key, V) and is_const(key, -1):
            return self.add(st.rs, F, -1)
        return st.rs

    def on_call(self, cx, call, st):
        rs = st.rs
        n, r, a = call_name(call), call_recv(call), call_args(call)
        if n in ('.update', '.setdefault') and a:
            self.listed.append((a[-1], cx.where()))
        F = userdata_of(r) if r is not None else None
        if F is not None:
            if n == '.append':
                rs = self.push(cx, rs, F, a[0] if a else NONE)
            elif n == '.pop' and (not a or is_const(a[0], -1)):
                rs = self.add(rs, F, -1)
                self.pops[call] = F
            elif n in ('.extend', '.insert', '.clear', '.remove', '.pop'):
                rs = self.add(rs, F, 2)
            return rs, st.rs if n == '.append' else rs
        if n == '.clone' and r is not None:
            a_ = self.absolute(rs, r)
            rs = frozenset(x for x in rs if not (x[0] in ('d', 'abs', 'clone') and x[1] is call))
            if a_ is not None:
                return rs | {('abs', call, a_)}, st.rs
            b, d = r, self.delta(rs, r)
            return rs | {('clone', call, b, d)}, st.rs
        if n.lstrip('.') in ('FileInfo', 'create_root_file_info') or n.endswith(('.FileInfo', '.create_root_file_info')):
            u = call_arg(call, 6, 'userdata') if 'FileInfo' in n else call_arg(call, 0, 'userdata')
            k = len(u.args[0]) if u is not None and u.op == 'list' and not any(x.op == 'star' for x in u.args[0]) else None
            if k is not None:
                made = mk('new', call.args[0].args[0], *call.args[1:]) if call.args[0].op == 'cls' else call
                return rs | {('abs', made, k)}, st.rs
        if n.startswith('.') and n[1:] in IFACE and r is not None and not is_self_rooted(r) and n[1:] not in ('index',):
            self.child.append((n[1:], call, r, rs, st, cx.where()))
            rs = frozenset(x for x in rs if not (x[0] in ('list', 'seen', 'pend') and x[1] is call))
            if n == '.list':
                rs = rs | {('list', call, r)}
        f = call.args[0]
        if f.op == 'cls' or (n.split('.')[-1][:1].isupper() and (call_args(call) or call_kw(call))):
            self.holders.append((call, rs, cx.where()))
        return rs, st.rs


class Layer:
    def __init__(self, prog: Program, c, cls: Class):
        self.cls = cls
        self.prog = prog
        self.splits: Dict[tuple, list] = {}
        self.k = 1 if uses_tokens(cls) else 0
        self.runs: Dict[str, Tuple[LayerRule, list, Func]] = {}
        stores = {f.node.name for f in own_functions(cls) if any(isinstance(n, ast.Attribute) and n.attr == 'userdata' for n in ast.walk(f.node))} - IFACE
        for name in sorted(IFACE | {'__init__'} | stores):
            f = cls.find(name)
            if f is None or (f.cls is not None and f.cls.name == ROOT and name != 'get_mount_source'):
                continue
            rule = LayerRule(cls, name, deep=name in IFACE)
            flow = Flow(prog, rule)
            args = None
            exits = flow.run(f, cls, args=args)
            c.used(flow, f"{f.where} as {cls.name}", len(exits))
            self.runs[name] = (rule, exits, f)


def run_layers(prog: Program, c) -> List[Layer]:
    return [Layer(prog, c, k) for k in layers(prog)]


def related(T: V, C: V, call: V = None) -> bool:
    """The token T identifies the child C."""
    if call is not None and T.op == 'sub' and T is not C and T is call_arg(call, 0, 'path'):
        return False  # the path inside of the child
    if T is C or contains(C, T):
        return True
    if C.op == 'attr' and C.args[0].op == 'self':
        return T.op in ('const', 'attr', 'ext')
    ct = {x for x in subterms(C) if x.op in ('call', 'loopvar')}
    tt = {x for x in subterms(T) if x.op in ('call', 'loopvar')}
    return bool(ct & tt)
