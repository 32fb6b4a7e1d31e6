"""Whatever names an archive contains, its entries appear below its own mount point under normalised, reachable names."""

import ast
from typing import Optional, Set

from .. import sql
from ..consts import Trace
from ..flow import Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, const, contains, cval, is_const, mk, show, subterms
from ..model import Class, Func, Program, dotted, walk_own
from .b05 import schema_columns
from .indexload import index_class, source_class

EXPLANATION = (
    "Backward slices of the path and name of every index row to the normalising function, and of every query parameter compared with those "
    "columns; insertion of implied parent folders after every insertion of rows; slices of the prefix nested archives are indexed with."
)
WALK = ('walk', 'scandir', 'listdir', 'iterdir', 'fwalk')


class Norm(Trace):
    """Kinds of path expressions: 'full' (normalised, leading slash), 'split' (cut at its last slash), 'folder', 'name', 'os' (from the operating
    system), 'empty', or '?...' for anything else."""

    def kinds(self, e, fn, m, cls, seen=None, depth=0) -> Set[str]:
        seen = frozenset() if seen is None else seen
        key = (id(e), id(fn))
        if e is None or key in seen:
            return set()
        if depth > 25:
            return {'?deep'}
        seen = seen | {key}
        rec = lambda x, f=fn, mm=m, c=cls: self.kinds(x, f, mm, c, seen, depth + 1)
        if isinstance(e, ast.Constant):
            return {'empty'} if e.value in ('', None) else {'fixed'} if isinstance(e.value, str) and e.value.strip('/') == e.value and e.value not in ('.', '..') and '/' not in e.value else {'?constant'}
        if isinstance(e, ast.IfExp):
            return rec(e.body) | rec(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[rec(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return rec(e.value)
        if isinstance(e, ast.Subscript):
            base = rec(e.value)
            if isinstance(e.slice, ast.Slice):
                return {k if k in ('name', 'empty', 'os', 'fixed') else f'?part of {k}' for k in base}
            i = e.slice.value if isinstance(e.slice, ast.Constant) else -e.slice.operand.value if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.operand, ast.Constant) else None
            return {self._item(k, i) for k in base}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            l, r = rec(e.left), rec(e.right)
            if isinstance(e.left, ast.Constant) and e.left.value == '/' and r and r <= {'os', 'empty'}:
                return {'os'}
            if l | r <= {'os', 'empty', 'fixed', 'name'} and l | r:
                return {'name'} if 'name' in l | r else {'os'} if 'os' in l | r else {'fixed'}
            return {'?' + ast.unparse(e)[:40]}
        if isinstance(e, ast.JoinedStr):
            parts = [rec(v.value) if isinstance(v, ast.FormattedValue) else ({'os'} if v.value == '/' else {'fixed'} if '/' not in v.value else {'?'}) for v in e.values]
            if parts and all(p and p <= {'os', 'empty', 'fixed', 'name'} for p in parts):
                return {'name'} if any('name' in p for p in parts) else {'os'}
            return {'?' + ast.unparse(e)[:40]}
        if isinstance(e, ast.Call):
            return self._call_kinds(e, fn, m, cls, rec)
        if isinstance(e, ast.Name):
            return self._name_kinds(e, fn, m, cls, seen, depth, rec)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(set(), *[rec(x.value if isinstance(x, ast.Starred) else x) for x in e.elts])
        if isinstance(e, ast.Attribute):
            if e.attr == 'name' and rec(e.value) <= {'os'} and rec(e.value):
                return {'os'}
            return {'?' + ast.unparse(e)[:40]}
        return {'?' + ast.unparse(e)[:40]}

    @staticmethod
    def _item(k, i):
        if k == 'split':
            return 'folder' if i == 0 else 'name' if i in (1, -1) else '?'
        if k == 'split3':
            return 'folder' if i == 0 else 'name' if i in (2, -1) else '?'
        if k in ('os',):
            return k
        return k if k.startswith('?') else f'?item {i} of {k}'

    def _call_kinds(self, e, fn, m, cls, rec):
        n = dotted(e.func) or (e.func.attr if isinstance(e.func, ast.Attribute) else '?')
        last = n.split('.')[-1]
        base = e.func.value if isinstance(e.func, ast.Attribute) else None
        if last in ('rsplit', 'rpartition') and base is not None:
            sep = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == 'sep'), None)
            limit = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == 'maxsplit'), None)
            ok = isinstance(sep, ast.Constant) and sep.value == '/' and (last == 'rpartition' or (isinstance(limit, ast.Constant) and limit.value == 1))
            return {('split' if last == 'rsplit' else 'split3') if k == 'full' and ok else '?' + ast.unparse(e)[:40] for k in rec(base)}
        if last == 'normpath' and e.args:
            f = self._callee(e, fn, m, cls)
            if f is None and base is not None:
                r = self._resolve(e.func, m)
                f = r if isinstance(r, Func) else None
            if f is not None:
                return {'full'}
            a = e.args[0]
            return {'full'} if leading_slash(a) else {'?' + ast.unparse(e)[:40]}
        if last in ('basename',) and e.args:
            return {'name'}
        if last in ('fsdecode', 'fsencode', 'str', 'sorted', 'list', 'reversed', 'tuple', 'enumerate') and e.args:
            return rec(e.args[0])
        if last in WALK or last in ('relpath', 'readlink'):
            return {'os'}
        if last in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'removesuffix', 'removeprefix', 'encode', 'decode') and base is not None:
            return {k if k in ('os', 'name', 'empty', 'fixed') or k.startswith('?') else f'?{last} of {k}' for k in rec(base)}
        f = self._callee(e, fn, m, cls)
        if f is not None:
            out = set()
            for r in self._own(f.node):
                if isinstance(r, ast.Return) and r.value is not None:
                    out |= self.kinds(r.value, f.node, f.module, f.cls.node if f.cls else None)
            return out or {'?' + n}
        return {'?' + ast.unparse(e)[:40]}

    def _name_kinds(self, e, fn, m, cls, seen, depth, rec):
        name = e.id
        for scope in self._scopes(fn):
            out, found = set(), False
            dead = self.killed(e, scope, name)
            for x in self._own(scope):
                if id(x) in dead:
                    continue
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == name:
                            found = True
                            out |= rec(x.value, scope)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for i, y in enumerate(t.elts):
                                if isinstance(y, ast.Name) and y.id == name:
                                    found = True
                                    if isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == len(t.elts):
                                        out |= rec(x.value.elts[i], scope)
                                    else:
                                        out |= {self._item(k, i if i < len(t.elts) - 1 else -1) for k in rec(x.value, scope)}
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    found = True
                    out |= rec(x.value, scope)
                elif isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.target)):
                    found = True
                    out |= {k if k in ('os', 'name', 'fixed') else f'?item of {k}' for k in rec(x.iter, scope)}
                elif isinstance(x, ast.withitem) and x.optional_vars is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.optional_vars)):
                    found = True
                    out |= rec(x.context_expr, scope)
            if name in self._params(scope) and not dead:
                return out | self._argument_kinds(scope, name, m, cls, seen, depth)
            if found:
                return out
        return {'?' + name}

    def killed(self, use, scope, name) -> Set[int]:
        """Assignments to the name which cannot reach the use because a later one on all paths replaces their value."""
        def assigns(st):
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    if any(isinstance(y, ast.Name) and y.id == name for y in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else [])):
                        return True
            return False
        node = use
        alive = None
        while node is not scope and id(node) in self.parents:
            up = self.parents[id(node)]
            for field in ('body', 'orelse', 'finalbody', 'handlers'):
                block = getattr(up, field, None)
                if isinstance(block, list) and any(x is node for x in block):
                    i = next(i for i, x in enumerate(block) if x is node)
                    for j in range(i - 1, -1, -1):
                        if assigns(block[j]):
                            alive = {id(y) for x in block[j:i + 1] for y in ast.walk(x)}
                            break
            if alive is not None:
                break
            if isinstance(up, (ast.For, ast.While)) and any(assigns(y) for y in ast.walk(up)):
                break
            node = up
        if alive is None:
            return set()
        return {id(x) for x in self._own(scope) if id(x) not in alive}

    def _argument_kinds(self, scope, name, m, cls, seen, depth):
        if isinstance(scope, ast.Lambda):
            return {'?' + name}
        func = self.funcs_of_node.get(id(scope))
        method = func is not None and func.cls is not None and not func.is_static
        pos = [x.arg for x in (*scope.args.posonlyargs, *scope.args.args)]
        out = set()
        for call, fn2, m2, cls2 in self.callsites.get(scope.name, ()):
            v = next((k.value for k in call.keywords if k.arg == name), None)
            i = pos.index(name) - (1 if method else 0) if name in pos else -1
            if v is None and 0 <= i < len(call.args):
                v = call.args[i]
            if v is not None:
                out |= self.kinds(v, fn2, m2, cls2, seen, depth + 1)
        return out or {'?' + name}

    def transformed(self, e, fn, m, cls) -> bool:
        return 'transform' in self.tokens(e, fn, m, cls) or any('transform' in str(t).lower() for t in self.tokens(e, fn, m, cls))


def leading_slash(a) -> bool:
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add):
        return leading_slash(a.left)
    if isinstance(a, ast.JoinedStr):
        return bool(a.values) and leading_slash(a.values[0])
    return isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value.startswith('/')


def run(prog: Program, c):
    c.rule('row', "path and name of every index row are the two parts of a normalised path")
    c.rule('transform', "the requested path transformation is applied before normalising")
    c.rule('nested', "members of a nested archive stay below its mount point")
    c.rule('normalise', "the normalising functions return a path with exactly one leading slash and without dot components")
    c.rule('query', "paths are normalised before they are compared with stored ones")
    c.rule('parents', "every insertion of rows is followed by the insertion of their parent folders")
    c.rule('parts', "parent folders are added for every level of the path")
    c.rule('root', "listings never contain the nameless entry of the folder itself")
    tr = Norm(prog)
    cols = schema_columns(prog)
    ip, iname = (cols.index('path'), cols.index('name')) if 'path' in cols and 'name' in cols else (0, 1)
    sc, ic = source_class(prog), index_class(prog)
    subs = [x for x in prog.subclasses(sc) if '.tests' not in x.module.name] + [sc]
    mods = {x.module.name for x in subs}
    for m in tr.modules:
        if m.name not in mods:
            continue
        for x in ast.walk(m.tree):
            if not (isinstance(x, ast.Tuple) and isinstance(x.ctx, ast.Load) and len(x.elts) == len(cols) and len(cols) >= 10):
                continue
            fn, _, cls = tr.owner.get(id(x), (None, None, None))
            construct = f"{m.rel} {cls.name + '.' if cls else ''}{getattr(fn, 'name', '?')}"
            where = f"{m.rel}:{x.lineno} in {getattr(fn, 'name', '?')}"
            c.instance('index rows', construct)
            c.functions.add(construct)
            P, N = tr.kinds(x.elts[ip], fn, m, cls), tr.kinds(x.elts[iname], fn, m, cls)
            c.check('row', f"{construct} path", bool(P) and P <= {'folder', 'os', 'empty'}, f"the path may be {sorted(P)[:3]}", where)
            c.check('row', f"{construct} name", bool(N) and N <= {'name', 'os', 'fixed', 'empty'}, f"the name may be {sorted(N)[:3]}", where)
            if 'folder' in P or 'name' in N and 'folder' in P:
                c.check('transform', construct, tr.transformed(x.elts[ip], fn, m, cls) and tr.transformed(x.elts[iname], fn, m, cls), "the path transformation is not applied", where)
                if fn is not None and not isinstance(fn, ast.Lambda):
                    row_paths(prog, c, tr, m, fn, cls, construct, {n for n in tr._params(fn) if prefix_parameter(tr, fn, n)})
    nested(prog, c, tr, mods)
    normalisers(prog, c, ic)
    queries(prog, c, ic)
    parents(prog, c, ic)
    c.floor('index rows', 5)


def nested(prog, c, tr, mods):
    """Where a prefix parameter is joined with a member name before normalising, the name must have been normalised itself."""
    for m in tr.modules:
        if m.name not in mods:
            continue
        for call in ast.walk(m.tree):
            if not (isinstance(call, ast.Call) and (dotted(call.func) or '').split('.')[-1] == 'normpath' and call.args):
                continue
            fn, _, cls = tr.owner.get(id(call), (None, None, None))
            for join in joins(tr, call.args[0], fn, m, cls, set()):
                base, rest, scope = join
                # Only prefixes handed in by callers denote the mount point of a nested archive.
                if not (isinstance(base, ast.Name) and base.id in tr._params(scope)) or leading_const(base):
                    continue
                if not prefix_parameter(tr, scope, base.id):
                    continue
                construct = f"{m.rel} {getattr(scope, 'name', '?')}"
                c.instance('prefixed member names', construct)
                ok = all(collapsed(tr, r, scope, m, cls) for r in rest)
                c.check('nested', construct, ok, f"'..' in {ast.unparse(rest[-1])[:40]} leads out of the nested archive's mount point", f"{m.rel}:{call.lineno}")


class RowRule(Rule):
    """The paths which are normalised and cut, with the facts under which this happens."""
    initial = frozenset()
    max_depth = 3

    def __init__(self):
        self.cuts = []

    def on_call(self, cx, call, st):
        if call_name(call) in ('.rsplit', '.rpartition'):
            r = call_recv(call)
            for v in alternatives(r):
                if v.op == 'call' and call_name(v).split('.')[-1] == 'normpath' and call_args(v):
                    self.cuts.append((call_args(v)[0], st, cx.where()))
        return st.rs, st.rs

    def on_assume(self, cx, cond, pol, st):
        # Facts about the parts are not given up when paths are merged.
        if cond.op == 'cmp' and cond.args[0] == 'in' and is_const(cond.args[1], '..') or cond.op == 'param':
            return st.rs | {(cond, pol)}
        return st.rs


def alternatives(v, depth=0):
    if isinstance(v, V) and v.op == 'phi' and depth < 5:
        for x in v.args[0]:
            yield from alternatives(x, depth + 1)
    elif isinstance(v, V):
        yield v


def parts_of(v):
    """Operands of a concatenation; None stands for a join which drops what is before an absolute part."""
    if v.op == 'bin' and v.args[0] == 'Add':
        return parts_of(v.args[1]) + parts_of(v.args[2])
    if v.op in ('fstr', 'join', 'strjoin'):
        return list(v.args[0] if v.args and isinstance(v.args[0], tuple) else v.args)
    if v.op == 'call' and call_name(v).split('.')[-1] == 'join' and len(call_args(v)) > 1:
        out = []
        for x in call_args(v):
            out += [None, x]
        return out[1:]
    return [v]


def is_transform(v) -> bool:
    return v.op == 'call' and (v.args[0].op == 'param' or 'transform' in call_name(v).lower())


def facts_of(st):
    return [*st.facts.items(), *st.rs]


def inside(v, st, depth=0) -> bool:
    """The part of a path cannot lead above the part before it, because it was normalised or was compared with '..'."""
    for f, pol in facts_of(st):
        if not pol and f.op == 'cmp' and f.args[0] == 'in' and is_const(f.args[1], '..'):
            w = f.args[2]
            if w == v or w.op == 'attr' and w.args[1] == 'parts':
                return True
            if w.op == 'call' and call_name(w) == '.split' and call_recv(w) == v and call_args(w) and is_const(call_args(w)[0], '/'):
                return True
    if v.op == 'const':
        return '..' not in str(cval(v)).split('/')
    if v.op == 'phi':
        return depth < 5 and all(inside(x, st, depth + 1) for x in v.args[0])
    if v.op == 'bin' and v.args[0] == 'Add':
        return all(inside(x, st, depth + 1) for x in v.args[1:])
    if v.op == 'sub' and v.args[0].op == 'call' and call_name(v.args[0]) in ('.rsplit', '.split', '.rpartition'):
        return inside(call_recv(v.args[0]), st, depth + 1)
    if v.op == 'call':
        n = call_name(v).split('.')[-1]
        if n in ('normpath', 'basename', 'abspath'):
            return True
        if n in ('lstrip', 'strip', 'rstrip', 'removeprefix', 'removesuffix'):
            return inside(call_recv(v), st, depth + 1)
    return False


def relative(v) -> bool:
    if v.op == 'phi':
        return all(relative(x) for x in v.args[0])
    if v.op == 'const':
        return not str(cval(v)).startswith('/')
    return v.op == 'call' and call_name(v) in ('.lstrip', '.strip') and bool(call_args(v)) and is_const(call_args(v)[0], '/')


def row_paths(prog, c, tr, m, fn, cls, construct, prefixes):
    """On every path the normalised path is the transformed one, and a member's part stays below the prefix."""
    func = tr.funcs_of_node.get(id(fn))
    if func is None:
        return
    rule = RowRule()
    flow = Flow(prog, rule)
    exits = flow.run(func, func.cls)
    c.used(flow, func.where, len(exits))
    for arg, st, where in rule.cuts:
        for a in alternatives(arg):
            c.check('transform', construct + ' paths', any(is_transform(x) for x in subterms(a)), "the path transformation is not applied on some path", where)
            while is_transform(a) and call_args(a):
                a = call_args(a)[0]
            for b in alternatives(a):
                ps = parts_of(b)
                if not ps or ps[0] is None or ps[0].op != 'param' or str(ps[0].args[0]) not in prefixes:
                    continue
                if any(not pol and f == ps[0] for f, pol in facts_of(st)):
                    continue  # the outermost archive
                for i, x in enumerate(ps[1:], 1):
                    if x is None:
                        c.check('nested', construct + ' absolute', relative(ps[i + 1]), "joining an absolute member name drops the nested archive's mount point", where)
                    elif x.op != 'const':
                        c.check('nested', construct + ' paths', inside(x, st), "'..' in a member name may lead out of the nested archive's mount point", where)


def leading_const(e):
    return isinstance(e, ast.Constant)


def prefix_parameter(tr, scope, name) -> bool:
    """Some caller passes the path of a nested archive, that is something which is not a constant."""
    func = tr.funcs_of_node.get(id(scope))
    if isinstance(scope, ast.Lambda) or func is None:
        return False
    method = func.cls is not None and not func.is_static
    pos = [x.arg for x in (*scope.args.posonlyargs, *scope.args.args)]
    for call, fn2, m2, cls2 in tr.callsites.get(scope.name, ()):
        v = next((k.value for k in call.keywords if k.arg == name), None)
        i = pos.index(name) - (1 if method else 0)
        if v is None and 0 <= i < len(call.args):
            v = call.args[i]
        if v is not None and not isinstance(v, ast.Constant) and isinstance(v, ast.Name) and v.id == name:
            if prefix_parameter(tr, fn2, name) if fn2 is not None and fn2 is not scope and name in tr._params(fn2) else False:
                return True
        elif v is not None and not isinstance(v, ast.Constant) and 'normpath' not in ast.unparse(v):
            t = tr.tokens(v, fn2, m2, cls2)
            if isinstance(v, ast.Name) and (t & {'rsplit', 'transformRecursiveMountPoint', 'modifiedFolder', 'modifiedPath'} or 'path' in v.id.lower()):
                return True
    return False


def joins(tr, e, fn, m, cls, seen):
    """(first operand, other non-constant operands, scope) of every concatenation the expression may be."""
    if id(e) in seen:
        return
    seen.add(id(e))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        ops = []
        def flat(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                flat(x.left)
                flat(x.right)
            else:
                ops.append(x)
        flat(e)
        yield ops[0], [x for x in ops[1:] if not isinstance(x, ast.Constant)], fn
    elif isinstance(e, ast.JoinedStr):
        ops = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        if len(ops) > 1 and isinstance(e.values[0], ast.FormattedValue):
            yield ops[0], ops[1:], fn
    elif isinstance(e, ast.IfExp):
        yield from joins(tr, e.body, fn, m, cls, seen)
        yield from joins(tr, e.orelse, fn, m, cls, seen)
    elif isinstance(e, ast.Call):
        f = tr._callee(e, fn, m, cls)
        if f is not None and f.name != 'normpath':
            for r in tr._own(f.node):
                if isinstance(r, ast.Return) and r.value is not None:
                    yield from joins(tr, r.value, f.node, f.module, f.cls.node if f.cls else None, seen)
        if (dotted(e.func) or '').split('.')[-1] == 'join' and len(e.args) > 1:
            yield e.args[0], list(e.args[1:]), fn
        for a in e.args:
            yield from joins(tr, a, fn, m, cls, seen)
    elif isinstance(e, ast.Name):
        for v, scope in tr.definitions(e, fn, m, cls) or ():
            yield from joins(tr, v, scope, m, cls, seen)


def collapsed(tr, e, fn, m, cls, seen=None) -> bool:
    """The name has been normalised with a leading slash, on every path or wherever it contains '..'."""
    seen = set() if seen is None else seen
    if id(e) in seen:
        return True
    seen.add(id(e))
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Call) and (dotted(e.func) or '').split('.')[-1] == 'normpath' and e.args:
        return tr.kinds(e, fn, m, cls) == {'full'}
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('lstrip', 'strip', 'rstrip', 'removeprefix'):
            return collapsed(tr, e.func.value, fn, m, cls, seen)
        f = tr._callee(e, fn, m, cls)
        return f is not None and all(
            collapsed(tr, r.value, f.node, f.module, f.cls.node if f.cls else None, seen) for r in tr._own(f.node) if isinstance(r, ast.Return) and r.value is not None)
    if isinstance(e, ast.IfExp):
        dots = any(isinstance(x, ast.Constant) and x.value == '..' for x in ast.walk(e.test))
        if dots or mentions_prefix(e.test):
            return collapsed(tr, e.body, fn, m, cls, seen) or collapsed(tr, e.orelse, fn, m, cls, seen)
        return collapsed(tr, e.body, fn, m, cls, seen) and collapsed(tr, e.orelse, fn, m, cls, seen)
    if isinstance(e, ast.Name):
        d = tr.definitions(e, fn, m, cls)
        if not d:
            return False
        got = [collapsed(tr, v, scope, m, cls, seen) for v, scope in d]
        if all(got):
            return True
        if not any(got):
            return False
        # A conditional replacement: the condition has to be about '..' or about the prefix.
        for x in ast.walk(fn):
            if isinstance(x, ast.If) and any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets) for s in ast.walk(x)):
                return any(isinstance(y, ast.Constant) and y.value == '..' for y in ast.walk(x.test)) or mentions_prefix(x.test)
        return True
    return False


def mentions_prefix(test) -> bool:
    return isinstance(test, ast.Name) or (isinstance(test, ast.BoolOp) and any(mentions_prefix(v) for v in test.values))


def normalisers(prog, c, ic: Class):
    """Functions named normpath: '/' + posixpath.normpath('/' + path).lstrip('/') in any spelling."""
    funcs = [f for f in prog.all_funcs() if f.name in ('normpath', '_query_normpath') and '.tests' not in f.module.name]
    f = ic.find('normpath')
    if f is None:
        c.check('normalise', 'normpath', False, "the normalising function is missing", ic.where)
    for f in funcs:
        r = Rule()
        r.inline = lambda cx, func, recv: True
        flow = Flow(prog, r)
        exits = flow.run(f, f.cls)
        c.used(flow, f.where, len(exits))
        for kind, v, st in exits:
            if kind != 'return':
                continue
            construct = f"{f.name}"
            c.instance('normalising functions', f.qual if isinstance(f.qual, str) else f.name)
            ok = single_slash(v)
            c.check('normalise', construct + ' slash', ok, f"returns {show(v)[:60]}, which need not have exactly one leading slash", f.where)
            cores = [x for x in subterms(v) if x.op == 'call' and call_name(x).split('.')[-1] == 'normpath']
            c.check('normalise', construct + ' dots', bool(cores), "does not remove dot components", f.where)
            for x in cores:
                a = call_arg(x, 0, 'path')
                strict = f.name == 'normpath'
                c.check('normalise', construct + ' above', not strict or starts_with_slash(a), f"'..' at the start of {show(a)[:40]} is kept", f.where)


def starts_with_slash(v) -> bool:
    if v is None:
        return False
    if v.op == 'const':
        return isinstance(cval(v), str) and cval(v).startswith('/')
    if v.op == 'bin' and v.args[0] == 'Add':
        return starts_with_slash(v.args[1])
    if v.op in ('fstr', 'join', 'strjoin'):
        parts = v.args[0] if v.args and isinstance(v.args[0], tuple) else v.args
        return bool(parts) and isinstance(parts[0], V) and starts_with_slash(parts[0])
    if v.op == 'phi':
        return all(starts_with_slash(x) for x in v.args[0])
    return False


def single_slash(v) -> bool:
    """'/' + something without leading slashes."""
    if v.op == 'phi':
        return all(single_slash(x) for x in v.args[0])
    parts = None
    if v.op == 'bin' and v.args[0] == 'Add':
        parts = (v.args[1], v.args[2])
    elif v.op in ('fstr', 'join', 'strjoin'):
        parts = v.args[0] if v.args and isinstance(v.args[0], tuple) else v.args
    if not parts or len(parts) != 2 or not (isinstance(parts[0], V) and is_const(parts[0], '/')):
        return False
    tail = parts[1]
    while isinstance(tail, V) and tail.op == 'call' and call_name(tail) in ('.rstrip',):
        tail = call_recv(tail)
    return isinstance(tail, V) and tail.op == 'call' and call_name(tail) in ('.lstrip', '.strip') and bool(call_args(tail)) and is_const(call_args(tail)[0], '/')


class QueryRule(Rule):
    initial = frozenset()
    max_depth = 4

    def __init__(self):
        self.queries = []
        self.inserts = 0

    def inline(self, cx, func, recv):
        return (recv is not None and recv.op == 'self') or func.is_static or super().inline(cx, func, recv)

    def on_call(self, cx, call, st):
        n = call_name(call)
        if n in ('.execute', '.executemany'):
            self.queries.append((call, st, cx.where()))
        return st.rs, st.rs


def text_of(v: V) -> str:
    return ' '.join(str(cval(x)) for x in subterms(v) if x.op == 'const' and isinstance(cval(x), str))


def queries(prog, c, ic: Class):
    for name in ('lookup', 'list', 'list_mode', 'versions'):
        f = ic.find(name)
        if f is None:
            c.check('query', f"{ic.name}.{name}", False, "is missing", ic.where)
            continue
        rule = QueryRule()
        flow = Flow(prog, rule)
        exits = flow.run(f, ic)
        c.used(flow, f.where, len(exits))
        hits = 0
        for call, st, where in rule.queries:
            a = call_args(call)
            t = text_of(a[0]) if a else ''
            if 'WHERE' not in t.upper() or 'path' not in t:
                continue
            hits += 1
            c.instance('path queries', f"{ic.name}.{name}")
            params = a[1] if len(a) > 1 else None
            ok = params is not None and any(x.op == 'call' and call_name(x).split('.')[-1] == 'normpath' for x in subterms(params))
            c.check('query', f"{ic.name}.{name}", ok, "compares a path with stored ones without normalising it", where)
            for stmt in sql.parse(call):
                for col, good in (('path', (0,)), ('name', (1, 2, -1))):
                    v = stmt.where.get(col)
                    if v is not None and v.op == 'sub' and v.args[1].op == 'const' and any(
                        x.op == 'call' and call_name(x).split('.')[-1] in ('rsplit', 'split', 'rpartition') for x in subterms(v.args[0])
                    ):
                        c.check('query', f"{ic.name}.{name} {col}", cval(v.args[1]) in good, f"the column {col} is compared with the wrong part of the path", where)
            if name in ('list', 'list_mode'):
                # Paths are stored without trailing slash, the root as the empty string.
                p = params.args[0][0] if params is not None and params.op in ('tuple', 'list') and params.args[0] else params
                cut = p is not None and any(x.op == 'call' and call_name(x) in ('.rstrip', '.strip') for x in subterms(p))
                c.check('query', f"{ic.name}.{name} root", cut or any(x.op == 'cmp' for x in st.facts), "the root folder is not queried by its stored name", where)
        c.check('query', f"{ic.name}.{name} queries", hits > 0, "does not query the stored paths", f.where)
        if name in ('list', 'list_mode'):
            ok = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == '':
                    ok = True
                if isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == '' for t in n.targets):
                    ok = True
                if isinstance(n, ast.comprehension) and n.ifs:
                    ok = True
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and ('"name" !=' in n.value or '"name" <>' in n.value or 'name != ' in n.value or 'name <> ' in n.value):
                    ok = True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                    g = ic.find(n.func.attr)
                    if g is not None and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'pop' and y.args and isinstance(y.args[0], ast.Constant) and y.args[0].value == '' for y in ast.walk(g.node)):
                        ok = True
            c.check('root', f"{ic.name}.{name}", ok, "the nameless entry is not removed from the listing", f.where)


class ParentRule(Rule):
    initial = frozenset()
    max_depth = 3

    def __init__(self, ic: Class):
        self.inserted = 0
        self.ic = ic
        self.loops = {id(n.iter): n for k in ic.mro() for f in k.methods.values() for n in ast.walk(f.node) if isinstance(n, ast.For)}

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and not any('parentfolders' in str(n.value) for n in ast.walk(func.node) if isinstance(n, ast.Constant) and isinstance(n.value, str))

    def on_iter(self, cx, it, st):
        loop = self.loops.get(id(cx.node))
        rows = [x[1] for x in st.rs if x[0] == 'all']
        if loop is None or not rows:
            return st.rs
        if any(contains(it, r) for r in rows) and part_of_sequence(it):
            return st.rs
        for n in ast.walk(loop):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                g = self.ic.find(n.func.attr)
                if g is not None and adds_parents(self.ic, g) and not conditional(loop, n):
                    return frozenset(x for x in st.rs if x[0] != 'all')
        return st.rs

    def on_call(self, cx, call, st):
        n = call_name(call)
        a = call_args(call)
        if n in ('.execute', '.executemany') and a and 'INTO "files"' in text_of(a[0]):
            self.inserted += 1
            return st.rs | {('one' if n == '.execute' else 'all', a[1] if len(a) > 1 else const(None))}, st.rs
        if n.startswith('.') and any('parentfolders' in text for text in self.texts(cx, call)):
            rs = frozenset(x for x in st.rs if not (x[0] == 'one' and not self.other_row(x[1], a)))
            return rs, rs
        return st.rs, st.rs

    def other_row(self, row, args) -> bool:
        """The folder is the unmodified one although a modified row has been inserted."""
        return bool(args) and row.op != 'param' and args[0].op == 'sub' and args[0].args[0].op == 'param'

    def texts(self, cx, call):
        f = call.args[0]
        func = f.args[0] if f.op in ('bound', 'func') and isinstance(f.args[0], Func) else None
        if func is None and f.op == 'attr' and f.args[0].op == 'self':
            func = f.args[0].args[0].find(f.args[1])
        if func is not None:
            return [n.value for n in ast.walk(func.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
        return [text_of(call_args(call)[0])] if call_args(call) and call_name(call) in ('.execute', '.executemany') else []


def parents(prog, c, ic: Class):
    """After inserting rows the parents are inserted, on every exit without exception (a loop over no rows is none)."""
    seen = 0
    for name in ('set_file_infos', 'set_file_info'):
        f = ic.find(name)
        if f is None:
            continue
        rule = ParentRule(ic)
        flow = Flow(prog, rule)
        exits = flow.run(f, ic)
        c.used(flow, f.where, len(exits))
        seen += rule.inserted
        c.instance('insertions of rows', f"{ic.name}.{name}")
        bad = [st for kind, v, st in exits if kind == 'return' and any(x[0] in ('one', 'all') for x in st.rs)]
        c.check('parents', f"{ic.name}.{name}", not bad, "rows are inserted without their parent folders", f.where)
    c.check('parents', f"{ic.name} inserts", seen > 0, "rows are never inserted", ic.where)
    adders = [f for k in ic.mro() for f in k.methods.values() if any(
        isinstance(n, ast.Constant) and isinstance(n.value, str) and 'INTO "parentfolders"' in n.value for n in ast.walk(f.node))]
    c.check('parents', f"{ic.name} adds parents", bool(adders), "parent folders are never inserted", ic.where)
    for f in adders:
        rng = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range']
        for n in rng:
            c.instance('parent levels', f.name)
            lo = n.args[0] if len(n.args) > 1 else ast.Constant(value=0)
            hi = n.args[1] if len(n.args) > 1 else n.args[0] if n.args else None
            ok = isinstance(lo, ast.Constant) and lo.value in (0, 1) and isinstance(hi, ast.Call) and isinstance(hi.func, ast.Name) and hi.func.id == 'len' and len(n.args) < 3
            c.check('parts', f.name, ok, f"skips a level: {ast.unparse(n)[:40]}", f"{f.where}")
        rule = AdderRule()
        flow = Flow(prog, rule)
        exits = flow.run(f, f.cls)
        c.used(flow, f.where, len(exits))
        c.check('parts', f"{f.name} rows", not rule.partial, "only some of the folders are inserted", f.where)
        c.check('parts', f"{f.name} cache", not cache_by_part(f.node), "a folder counts as inserted although only a part of it is compared", f.where)
    recursion(prog, c)


class AdderRule(Rule):
    initial = frozenset()
    max_depth = 2
    partial = False

    def on_call(self, cx, call, st):
        a = call_args(call)
        if call_name(call) in ('.execute', '.executemany') and len(a) > 1 and 'INTO "parentfolders"' in text_of(a[0]) and part_of_sequence(a[1]):
            self.partial = True
        return st.rs, st.rs


def part_of_sequence(v) -> bool:
    """Some elements are dropped by a slice with constant bounds."""
    for x in subterms(v):
        if x.op == 'sub' and x.args[1].op == 'slice':
            bounds = [b for b in x.args[1].args[:2]]
            if any(b.op == 'const' and cval(b) not in (None, 0) for b in bounds) and all(b.op == 'const' for b in bounds):
                return True
    return False


def cache_by_part(node) -> bool:
    targets = {t.id for n in ast.walk(node) if isinstance(n, (ast.comprehension, ast.For)) for t in ast.walk(n.target) if isinstance(t, ast.Name) and isinstance(n.target, ast.Name)}
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.left, ast.Subscript):
            if isinstance(n.left.value, ast.Name) and n.left.value.id in targets and isinstance(n.left.slice, ast.Constant):
                return True
    return False


class PrefixRule(Rule):
    """The prefixes handed to the recursive call."""
    initial = frozenset()
    max_depth = 1

    def __init__(self, func, pos):
        self.func, self.pos, self.given = func, pos, []

    def inline(self, cx, func, recv):
        return False

    def on_call(self, cx, call, st):
        f = call.args[0]
        if call_name(call).split('.')[-1] == self.func.name and (f.op in ('bound', 'func') or f.op == 'attr' and f.args[0].op == 'self'):
            v = self.bound(call)
            if v is not None:
                self.given.append(v)
        return st.rs, st.rs

    def bound(self, call):
        a = call_args(call)
        kw = call_kw(call)
        name, i = self.pos
        return kw[name] if name in kw else a[i] if i < len(a) else None


def recursion(prog, c):
    """Nested archives are mounted at an absolute path, which consists of the archive's folder and its name."""
    for f in prog.all_funcs():
        if 'formats.tar' not in f.module.name or f.cls is None or isinstance(f.node, ast.Lambda):
            continue
        copies(c, f)
        names = [x.arg for x in (*f.node.args.posonlyargs, *f.node.args.args)]
        own = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name]
        prefix = [n for n in names if 'prefix' in n.lower()]
        if not own or not prefix:
            continue
        rule = PrefixRule(f, (prefix[0], names.index(prefix[0]) - (0 if f.is_static else 1)))
        flow = Flow(prog, rule)
        exits = flow.run(f, f.cls)
        c.used(flow, f.where, len(exits))
        for v in rule.given:
            for x in alternatives(v):
                c.instance('mount points of nested archives', f.where)
                head = parts_of(x)[0]
                ok = head is not None and (head.op == 'const' and str(cval(head)).startswith('/') or head.op == 'call' and 'normpath' in call_name(head))
                c.check('nested', f"{f.qual} mount point", ok, "the mount point of a nested archive may not begin with a slash", f.where)


def copies(c, f):
    """A copied row which gets another name also gets the folder of that name and the other way around."""
    count = {}
    if not any(isinstance(n, ast.Attribute) and n.attr.startswith('set_file_info') for n in ast.walk(f.node)):
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.slice, ast.Constant) and x.slice.value in (0, 1):
                        count.setdefault(x.value.id, [0, 0])[x.slice.value] += 1
    for name, (p, n) in count.items():
        if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets) and isinstance(x.value, ast.Call) for x in ast.walk(f.node)):
            c.check('row', f"{f.qual} copy", p == n, "a copied row gets another name but not the folder which belongs to it, or the other way around", f.where)


def adds_parents(ic, f: Func, depth=0) -> bool:
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 'INTO "parentfolders"' in n.value:
            return True
        if depth < 3 and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
            g = ic.find(n.func.attr)
            if g is not None and g is not f and adds_parents(ic, g, depth + 1):
                return True
    return False


def conditional(loop, node) -> bool:
    return any(isinstance(x, ast.If) and any(y is node for y in ast.walk(x)) for x in ast.walk(loop))
