"""Paths which do not exist are answered as missing."""

import ast

from ..flow import TRANSPARENT_DECORATORS, Flow, Rule, V, call_args, call_name, call_recv, is_const, show, subterms
from ..model import Program, dotted, walk_own
from .fusemount import MOUNT

EXPLANATION = (
    "Nullness dataflow: every result of looking up or listing a path is an optional value, which may only be used where the path conditions "
    "show that it is present; the handlers of the mount answer absent results with the error for missing files on every path."
)
SOURCES = {'lookup': 'file information', 'list': 'listing', 'list_mode': 'listing'}
TAKES_INFO = ('open', 'read', 'list_xattr', 'get_xattr', 'get_mount_source', 'update_file_info', 'get_file_path')
# handlers answering a request for something which must already exist
READING = ('getattr', 'readlink', 'open', 'read', 'listxattr', 'getxattr')
MUST = ('getattr', 'readlink', 'open', 'listxattr', 'getxattr')
# accesses of backends by path which fail if it does not exist
ACCESSES = ('inode_at', 'get_entry', 'info', 'listdir', 'ls', 'stat', 'lstat', 'scandir', 'readlink', 'getinfo', 'getmember')
EXISTING = ('exists', 'lexists', 'isdir', 'isfile', 'islink')
HANDLERS = {'FileNotFoundError', 'OSError', 'Exception', 'BaseException', 'IOError', 'EnvironmentError'}
CHANGING = ('open', 'truncate', 'chmod', 'chown', 'utimens')


def optional(v) -> bool:
    if isinstance(v, V) and v.op == 'phi':
        parts = v.args[0] if len(v.args) == 1 and isinstance(v.args[0], tuple) else v.args
        return bool(parts) and all(optional(x) for x in parts)
    if not isinstance(v, V) or v.op != 'call':
        return False
    n = call_name(v)
    return n.startswith('.') and n[1:] in SOURCES and len(call_args(v)) >= 1 or v.args[0].op == 'method' and str(v.args[0].args[-1]) in SOURCES


def present(st, v) -> bool:
    for t, pol in st.facts.items():
        if t == v and pol:
            return True
        if t.op == 'cmp' and t.args[0] in ('is', '==') and v in t.args[1:] and any(is_const(x, None) for x in t.args[1:]) and not pol:
            return True
        if t.op == 'call' and pol and call_name(t).split('.')[-1] in ('isinstance', 'hasattr', 'bool', 'len') and call_args(t)[:1] == (v,):
            return True
    return False


def absent(st, v) -> bool:
    for t, pol in st.facts.items():
        if t == v and not pol:
            return True
        if t.op == 'cmp' and t.args[0] in ('is', '==') and v in t.args[1:] and any(is_const(x, None) for x in t.args[1:]) and pol:
            return True
    return False


class Optional_(Rule):
    """rs: frozenset of ('used', description, where)"""

    initial = frozenset()
    max_depth = 1

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and func.name not in SOURCES or func.module is cx.entry_module and func.cls is None

    def bad(self, cx, v, what, st):
        if (optional(v) or is_const(v, None)) and not present(st, v):
            return st.rs | {('used', what, cx.where())}
        return st.rs

    def on_attr(self, cx, base, name, st):
        return self.bad(cx, base, f".{name}", st)

    def on_iter(self, cx, it, st):
        v = it
        if v.op == 'call' and call_name(v) in ('.items', '.keys', '.values'):
            v = call_recv(v)
        return self.bad(cx, v, 'iteration', st)

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        rs = st.rs
        if n in TAKES_INFO and call.args[0].op in ('attr', 'method') or n in TAKES_INFO and call_recv(call) is not None:
            for a in call_args(call)[:2]:
                if optional(a) and not present(st, a):
                    rs = rs | {('used', f"{n}()", cx.where())}
        elif n in ('set', 'list', 'sorted', 'dict', 'tuple', 'len', 'iter') and call.args[0].op in ('ext', 'name'):
            for a in call_args(call)[:1]:
                if optional(a) and not present(st, a):
                    rs = rs | {('used', f"{n}()", cx.where())}
        return rs, rs


def subject(v):
    """(path, tested value) of a condition on the existence of a path."""
    for x in subterms(v):
        if x.op == 'call' and call_args(x):
            n = call_name(x)
            if optional(x) and n != '.list' or n == '.exists' and call_recv(x) is not None and call_recv(x).op == 'attr':
                return call_args(x)[0], x
    return None


class Missing(Optional_):
    """rs: also ('missing', path) on paths of execution where the path is known not to exist"""

    max_depth = 3

    def on_assume(self, cx, cond, polarity, st):
        found = subject(cond)
        if found is None:
            return st.rs
        path, v = found
        if path.op != 'param':
            return st.rs
        gone = None
        if cond == v:
            gone = not polarity
        elif cond.op == 'cmp' and cond.args[0] in ('is', '==') and v in cond.args[1:] and any(is_const(x, None) for x in cond.args[1:]):
            gone = polarity
        if gone is None:
            return st.rs
        return frozenset(x for x in st.rs if x != ('missing', path)) | ({('missing', path)} if gone else frozenset())


def components(it) -> bool:
    """Whether the iterable consists of the components of paths."""
    if not isinstance(it, V) or it.op in ('phi', 'sub', 'iter', 'item', 'attr'):
        return False
    if it.op == 'call':
        return call_name(it) == '.split' or call_name(it) in ('list', 'filter', 'itertools.chain') and any(components(x) for x in call_args(it))
    return any(components(x) for x in it.args) or it.op in ('tuple', 'list') and any(components(x) for x in it.args[0])


def derived(v, st) -> bool:
    """Whether the value is the requested path or version itself, or a component, possibly in another spelling."""
    if not isinstance(v, V):
        return False
    if v.op == 'param':
        return v.args[0] in ('path', 'fileVersion')
    if ('item', v) in st.rs:
        return True
    if v.op == 'call':
        if call_name(v).split('.')[-1] not in ('strip', 'lstrip', 'rstrip', 'replace', 'quote', 'normpath', 'encode', 'decode'):
            return False
        return any(derived(x, st) for x in (call_recv(v), *call_args(v)))
    if v.op in ('sub', 'iter', 'item', 'attr', 'exc', 'comp'):
        return False
    return any(derived(x, st) or isinstance(x, tuple) and any(derived(y, st) for y in x) for x in v.args)


class Backend(Rule):
    """rs: ('access', name, where) raised by an access to the path; ('file',)/('named',) path components while walking down"""

    initial = frozenset()
    max_depth = 3

    def __init__(self):
        self.handled = set()
        self.accesses = set()
        self.walks = set()
        self.items = set()
        self.unguarded = set()

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' or func.module is cx.entry_module or func.cls is not None and func.cls is cx.entry_cls

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        args = call_args(call)
        for a in args:
            if a.op == 'star' and isinstance(a.args[0], V) and a.args[0].op == 'call' and call_name(a.args[0]) == '.fetchone' and not present(st, a.args[0]):
                self.unguarded.add(cx.where())
        if n not in ACCESSES or not args or not any(x.op == 'param' and x.args[0] == 'path' for x in subterms(args[0])):
            return st.rs, st.rs
        access = ('access', n, cx.where())
        self.accesses.add(access)
        known = any(x[0] == 'exists' and (x[1] == args[0] or args[0].op == 'call' and x[1] in subterms(args[0])) for x in st.rs)
        if n == 'info' and not known and not cx.try_depth:
            self.unguarded.add(cx.where())  # otherwise taken for logging, which does not fail
        return st.rs, st.rs if known else st.rs | {access}

    def on_subscript(self, cx, base, key, st):
        if key.op in ('const', 'slice') or cx.try_depth or base.op in ('tuple', 'dict'):
            return
        if not derived(key, st):
            return
        self.items.add(cx.where())
        if not any(t.op == 'cmp' and key in subterms(t) for t in st.facts):
            self.unguarded.add(cx.where())

    def on_attr(self, cx, base, name, st):
        if is_const(base, None):
            self.unguarded.add(cx.where())
        return st.rs

    def on_catch(self, cx, exc, types, st):
        names = {str(t).split('.')[-1] for t in types} if types else {'Exception'}
        for x in st.rs:
            if x[0] == 'access' and (
                names & HANDLERS or any(t.endswith('Exception') for t in names) or x[1].startswith('get') and names & {'KeyError', 'LookupError'}
            ):
                self.handled.add(x)
        found = frozenset(x for x in st.rs if x[0] == 'access')
        if not names & HANDLERS:
            return st.rs - found | {('caught', *x[1:]) for x in found if x in self.handled}
        return st.rs - found

    def walk(self, cx, st):
        if ('named',) in st.rs and ('file',) in st.rs:
            self.walks.add(cx.where())
        return frozenset(x for x in st.rs if x[0] not in ('named', 'file', 'item'))

    def on_iter(self, cx, it, st):
        return self.walk(cx, st)

    def on_end(self, cx, it, st):
        return self.walk(cx, st)

    def on_leave(self, cx, func, result, st):
        return frozenset(x for x in st.rs if x[0] not in ('named', 'file', 'item'))

    def on_item(self, cx, it, item, st):
        return st.rs | {('item', item)} if components(it) else st.rs

    def on_assume(self, cx, cond, polarity, st):
        if ('item', cond) in st.rs and polarity:
            return st.rs | {('named',)}
        if cond.op == 'call' and call_name(cond) == 'isinstance' and not polarity and any(x[0] == 'item' for x in st.rs):
            return st.rs | {('file',)}
        if cond.op == 'call' and polarity and call_name(cond).split('.')[-1] in EXISTING:
            return st.rs | {('exists', a) for a in call_args(cond)[:1]}
        if 'ENOENT' in show(cond):
            return frozenset(x for x in st.rs if x[0] != 'caught')
        return st.rs


def using(prog: Program, f) -> bool:
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SOURCES and n.args for n in walk_own(f.node))


def run(prog: Program, c):
    c.rule('present', "results of looking up and listing paths are only used after they are known to be present")
    for f in prog.all_funcs():
        if '_external' in f.module.rel or isinstance(f.node, ast.Lambda) or not using(prog, f):
            continue
        rule = Optional_()
        if any((dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] not in TRANSPARENT_DECORATORS for d in f.node.decorator_list):
            rule.max_depth = 4  # through the decorators
        flow = Flow(prog, rule)
        exits = flow.run(f, f.cls)
        c.used(flow, f.where, len(exits))
        c.instance('users of paths', f.qual)
        found = {}
        for kind, value, st in exits:
            for _, what, where in (x for x in st.rs if x[0] == 'used'):
                found[what] = where
        c.check('present', f.qual, not found, f"{', '.join(sorted(found))} is used although the path may not exist", next(iter(found.values()), f.where))
    c.floor('users of paths', 12)
    c.rule('reported', "requests for a path which is known not to exist fail with the error for missing files")
    mount = prog.cls(MOUNT)
    overlay = prog.cls('WritableFolderMountSource')
    for cls, names in ((mount, READING), (overlay, CHANGING)):
        for name in names:
            f = cls.find(name)
            if f is None or '_external' in f.module.rel:
                continue
            flow = Flow(prog, Missing())
            exits = flow.run(f, cls)
            c.used(flow, f.where, len(exits))
            c.instance('requests', f"{cls.name}.{name}")
            wrong = {}
            known = False
            for kind, value, st in exits:
                gone = {x[1].args[0] for x in st.rs if x[0] == 'missing'} & {'path'}
                known |= bool(gone)
                for _, what, where in (x for x in st.rs if x[0] == 'used'):
                    wrong[f"uses {what} of a missing result"] = where
                if not gone:
                    continue
                t = show(value) if isinstance(value, V) and value.op != 'exc' else ''
                if kind == 'return':
                    wrong['succeeds'] = f.where
                elif kind == 'raise' and 'FuseOSError' in t and 'ENOENT' not in t:
                    wrong[f"fails with {t[:60]}"] = f.where
            c.check('reported', f"{cls.name}.{name}", not wrong, f"a request for a missing path {', '.join(sorted(wrong))}", next(iter(wrong.values()), f.where))
            if name in MUST and cls is mount:
                c.check('reported', f"{cls.name}.{name} test", known, "nothing tests whether the path exists", f.where)
    c.floor('requests', 8)
    c.rule('backends', "backends answer missing paths with no result: accesses which fail for missing files are guarded or their errors are handled")
    for cls in prog.all_classes():
        if '_external' in cls.module.rel or '/formats/' not in cls.module.rel:
            continue
        for name in ('lookup', 'list', 'list_mode', 'versions', 'exists'):
            f = cls.methods.get(name)
            if f is None:
                continue
            rule = Backend()
            flow = Flow(prog, rule)
            exits = flow.run(f, cls)
            c.used(flow, f.where, len(exits))
            c.instance('backend requests', f"{cls.name}.{name}")
            for _ in rule.accesses:
                c.instance('accesses by path', f"{cls.name}.{name} {_[1]} {_[2]}")
            raised = {x for kind, _, st in exits if kind == 'raise' for x in st.rs if x[0] == 'access'} - rule.handled
            raised |= {x for kind, _, st in exits if kind == 'raise' for x in st.rs if x[0] == 'caught'}
            for w in rule.items:
                c.instance('items by path', f"{cls.name}.{name} {w}")
            c.check('backends', f"{cls.name}.{name} items", not rule.unguarded, "items are read which do not exist for missing paths", next(iter(rule.unguarded), f.where))
            c.check('backends', f"{cls.name}.{name}", not raised, f"{', '.join(sorted(x[1] for x in raised))}() fails for missing paths", next((x[2] for x in raised), f.where))
            c.check('backends', f"{cls.name}.{name} components", not rule.walks, "components of the path below a file are ignored", next(iter(rule.walks), f.where))
    c.floor('backend requests', 6)
