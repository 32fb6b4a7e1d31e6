"""Nothing runs in the background when the mount process is forked."""

import ast

from ..flow import Flow, Rule, V, call_args, call_kw, call_name, call_recv, cval, is_const, mk, show, subterms
from ..model import Program, dotted, walk_own
from .c04 import whole
from .fusemount import MOUNT
from .layers import ROOT, run_layers

EXPLANATION = (
    "Ordering typestate over the construction of the mount (threads are joined after the last archive has been opened), branch guards of the daemonizing call, "
    "ownership of every pool and executor in the program, and forwarding of the request to join threads from the outermost mount source to the pools."
)
POOLS = ('Pool', 'ThreadPool', 'Thread', 'Process', 'Timer', 'ThreadPoolExecutor', 'ProcessPoolExecutor', 'Popen_spawn')
USES = ('apply', 'apply_async', 'map', 'map_async', 'imap', 'imap_unordered', 'starmap', 'starmap_async', 'submit')
JOIN = 'join_threads'
SOURCE_OPS = ('.lookup', '.list', '.list_mode', '.open', '.read', '.versions', '.exists', '.is_dir', '.get_xattr', '.list_xattr')


def run(prog: Program, c):
    c.rule('joined', "no archive is opened or read after the threads have been joined and before the mount process is forked")
    c.rule('forked', "the mount only goes into the background when no threads are left")
    c.rule('single', "requests are handled by one thread")
    c.rule('pool', "joining ends and forgets the workers, and they are started again when needed")
    c.rule('scoped', "every pool is either ended where it was started or by joining the threads of the object it belongs to")
    c.rule('implements', "every layer and every owner of a pool can be asked to join its threads")
    c.rule('children', "the request to join threads reaches all children")
    construction(prog, c)
    daemonizing(prog, c)
    owners = pools(prog, c)
    holders(prog, c, owners)
    for L in run_layers(prog, c):
        f = L.cls.find(JOIN)
        c.instance('layers', L.cls.name)
        c.check('implements', L.cls.name, f is not None and (f.cls is None or f.cls.name != ROOT), "threads of the children are not joined", L.cls.where)
        if f is not None and (f.cls is None or f.cls.name != ROOT):
            whole(prog, c, L, JOIN, f)


# ---------------------------------------------------------------------------------------------------------------------


class Construction(Rule):
    """rs: 'clean', 'joined', or the name of what was last opened."""

    initial = ('clean', None)
    max_depth = 4

    def __init__(self, sources):
        self.sources = sources
        self.joins = 0
        self.opened = set()

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and func.name not in ('_close', '__exit__', '__enter__')

    def may_raise(self, cx, call):
        return False

    @staticmethod
    def join_function(fn: V) -> bool:
        if fn.op == 'attr' and fn.args[1] == JOIN:
            return True
        return fn.op == 'call' and call_name(fn) == 'getattr' and len(call_args(fn)) > 1 and is_const(call_args(fn)[1], JOIN)

    def on_call(self, cx, call, st):
        fn = call.args[0]
        if self.join_function(fn):
            self.joins += 1
            source = fn.args[0] if fn.op == 'attr' else call_args(fn)[0]
            return ('joined', source), st.rs
        n = call_name(call)
        opens = n.split('.')[-1].startswith('open_mount_source') and not n.startswith('.')
        if fn.op == 'cls' and fn.args[0].name in self.sources or opens:
            self.opened.add(n)
            return ('opened', n), st.rs
        if n in SOURCE_OPS:
            return ('opened', n), st.rs
        return st.rs, st.rs

    def on_assume(self, cx, cond, polarity, st):
        # Nothing to join.
        tested = [cond] if cond.op != 'cmp' else [x for x in cond.args[1:] if isinstance(x, V)]
        for t in tested:
            source = None
            if t.op == 'attr' and t.args[1] == JOIN:
                source = t.args[0]
            elif t.op == 'call' and call_name(t) in ('getattr', 'hasattr') and len(call_args(t)) > 1 and is_const(call_args(t)[1], JOIN):
                source = call_args(t)[0]
            if source is not None and (polarity if cond.op == 'cmp' and cond.args[0] in ('is', '==') else not polarity):
                return ('joined', source)
        return st.rs


def construction(prog, c):
    mount = prog.cls(MOUNT)
    init = mount.find('__init__')
    root = prog.cls(ROOT)
    overlay = prog.cls('WritableFolderMountSource', False)
    sources = {x.name for x in prog.all_classes() if x is not overlay and root in x.mro()}
    rule = Construction(sources)
    flow = Flow(prog, rule)
    exits = flow.run(init, mount)
    c.used(flow, init.where, len(exits))
    for n in rule.opened:
        c.instance('openings', n)
    c.check('joined', '__init__', rule.joins > 0, "the threads of the mount source are never joined", init.where)
    for kind, v, st in exits:
        if kind != 'return':
            continue
        state, what = st.rs
        c.check('joined', '__init__', state != 'opened', f"ends after {what if isinstance(what, str) else ''} without joining the threads started by it", init.where)
        if state == 'joined':
            final = [x for (b, k), x in st.heap.items() if k == 'mountSource' and b.op == 'self']
            same = not final or what in final or what.op == 'attr' and what.args[1] == 'mountSource'
            c.check('joined', 'outermost', same, f"joins the threads of {show(what)[:60]} instead of those of the outermost mount source", init.where)


# ---------------------------------------------------------------------------------------------------------------------


class Daemon(Rule):
    initial = ()
    max_depth = 4
    exc_exits = False

    def __init__(self):
        self.calls = []

    def inline(self, cx, func, recv):
        return recv is None and func.module is cx.entry_module

    def keep_fact(self, cond):
        return True

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        rs = st.rs
        if n == 'FUSE':
            self.calls.append((call, dict(st.facts), cx.where(), rs))
        elif n in ('enumerate', 'active_count', 'activeCount') and call_name(call).startswith('threading'):
            rs = 'counted'
        elif n == MOUNT:
            rs = 'constructed'
        return rs, rs


def no_threads(facts) -> bool:
    for t, pol in facts.items():
        counted = any(x.op == 'call' and call_name(x) in ('threading.enumerate', 'threading.active_count', 'threading.activeCount') for x in subterms(t))
        if not counted:
            continue
        if t.op != 'cmp':
            if not pol:
                return True
            continue
        op, a, b = t.args
        left = any(x.op == 'call' and call_name(x).startswith('threading.') for x in subterms(a))
        k = b if left else a
        k = cval(k) if k.op == 'const' else None
        if not isinstance(k, int):
            return True  # Some other computed bound: not decided.
        if not left:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        allowed = [n for n in range(1, 6) if {'<': n < k, '<=': n <= k, '>': n > k, '>=': n >= k, '==': n == k, '!=': n != k}.get(op, True) == pol]
        if not [n for n in allowed if n > 1]:
            return True
    return False


def daemonizing(prog, c):
    mounting = [f for f in prog.all_funcs() if any(
        isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] == 'FUSE' for x in walk_own(f.node))]
    for f in mounting:
        entry = prog.func('ratarmount.actions', 'create_fuse_mount') if f.module.name == 'ratarmount.actions' else f
        entry = entry or f
        rule = Daemon()
        flow = Flow(prog, rule)
        exits = flow.run(entry, entry.cls)
        c.used(flow, entry.where, len(exits))
        if not rule.calls and entry is not f:
            rule = Daemon()
            flow = Flow(prog, rule)
            c.used(flow, f.where, len(flow.run(f, f.cls)))
        for call, facts, where, last in rule.calls:
            c.instance('daemonizing calls', where)
            kw = call_kw(call)
            front = kw.get('foreground')
            in_front = any(t.op == 'attr' and t.args[1] == 'foreground' and pol for t, pol in facts.items()) or front is not None and is_const(front, True)
            c.check('forked', f.name, in_front or no_threads(facts) and last != 'constructed', "goes into the background without having checked that no threads are left", where)
            c.check('forked', 'foreground', front is not None, "goes into the background although the foreground has been asked for", where)
            single = kw.get('nothreads')
            c.check('single', f.name, single is not None and is_const(single, True), "lets FUSE call into the mount from multiple threads", where)
    c.check('forked', 'FUSE', bool(mounting), "nothing is mounted anymore", 'ratarmount/actions.py')


# ---------------------------------------------------------------------------------------------------------------------


def is_pool(call: ast.Call, module) -> bool:
    d = dotted(call.func)
    if not d:
        return False
    last = d.split('.')[-1]
    if last not in POOLS:
        return False
    if '.' in d:
        return d.split('.')[0] in ('multiprocessing', 'threading', 'concurrent', 'futures', 'mp')
    full = module.imports.get(last) if hasattr(module, 'imports') else None
    return full is None or str(full).split('.')[0] in ('multiprocessing', 'threading', 'concurrent')


def pools(prog, c):
    """Classes which own a pool, with the attributes holding it."""
    owners = {}
    for f in prog.all_funcs():
        for x in walk_own(f.node):
            if not (isinstance(x, ast.Call) and is_pool(x, f.module)):
                continue
            c.instance('pools', f.where)
            if any(isinstance(w, ast.withitem) and any(y is x for y in ast.walk(w.context_expr)) for w in ast.walk(f.node)):
                c.check('scoped', f.where, True)
                continue
            stored = None
            if f.cls is not None:
                for y in walk_own(f.node):
                    if isinstance(y, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and y.value is not None and any(z is x for z in ast.walk(y.value)):
                        for t in y.targets if isinstance(y, ast.Assign) else [y.target]:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0]:
                                stored = t.attr
            if stored is None and f.cls is not None:
                stored = returned_into(f)
            ended = ends(f, x)
            c.check('scoped', f.where, stored is not None or ended, "starts workers which are neither ended here nor belong to an object which could join them", f"{f.where}:{x.lineno}")
            if stored is not None:
                owners.setdefault(f.cls, set()).add(stored)
    inside = {id(x) for f in prog.all_funcs() for x in walk_own(f.node)}
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and id(x) not in inside and is_pool(x, m) and not within_function(m.tree, x):
                c.check('scoped', m.name, False, "starts workers which are never ended", f"{m.rel}:{x.lineno}")
    for cls, attrs in owners.items():
        for attr in sorted(attrs):
            owner(prog, c, cls, attr)
    return owners


def within_function(tree, x) -> bool:
    return any(isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and any(y is x for y in ast.walk(f)) for f in ast.walk(tree))


def returned_into(f):
    """The attribute a method stores what the function returns in."""
    for m in f.cls.methods.values():
        for y in walk_own(m.node):
            if isinstance(y, ast.Assign) and isinstance(y.value, ast.Call) and (dotted(y.value.func) or '').split('.')[-1] == f.name:
                for t in y.targets:
                    if isinstance(t, ast.Attribute):
                        return t.attr
    return None


def ends(f, pool) -> bool:
    """Whether the workers are ended in a finally clause of the same function."""
    for y in walk_own(f.node):
        if isinstance(y, ast.Try):
            for z in y.finalbody:
                for w in ast.walk(z):
                    if isinstance(w, ast.Call) and isinstance(w.func, ast.Attribute) and w.func.attr in ('join', 'shutdown', 'terminate', 'kill'):
                        return True
    return False


class Join(Rule):
    """rs: (closed, joined, workers are known to have been started)"""

    initial = (False, False, False)
    max_depth = 3

    def __init__(self, attr):
        self.attr = attr
        self.idle = []
        self.missing = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    @staticmethod
    def known(r, st) -> bool:
        return any(t is r and pol or t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is r and not pol for t, pol in st.facts.items())

    def pool(self, v) -> bool:
        return v is not None and (v.op == 'attr' and v.args[0].op == 'self' and v.args[1] == self.attr or v.op == 'call' and call_name(v).split('.')[-1] in POOLS)

    def on_call(self, cx, call, st):
        n, r = call_name(call), call_recv(call)
        closed, joined, present = st.rs
        if self.pool(r):
            if r.op == 'attr' and not present and not self.known(r, st):
                self.missing.append(cx.where())
            if n in ('.close', '.terminate', '.shutdown'):
                closed = True
                joined = joined or n == '.shutdown' and not is_const(call_kw(call).get('wait', mk('const', 'bool', True)), False)
            elif n == '.join':
                joined = closed
        if n.lstrip('.') in USES and r is not None and r.op != 'self':
            started = r.op == 'call' and call_name(r).split('.')[-1] in POOLS
            if not started and any(self.pool(x) for x in subterms(r)):
                if not self.known(r, st):
                    self.idle.append(cx.where())
        return (closed, joined, present), st.rs

    def on_assume(self, cx, cond, polarity, st):
        if polarity and self.pool(cond) or not polarity and cond.op == 'cmp' and cond.args[0] == 'is' and self.pool(cond.args[1]):
            return (*st.rs[:2], True)
        return st.rs


def owner(prog, c, cls, attr):
    f = cls.find(JOIN)
    name = f"{cls.name}.{attr}"
    c.instance('owners of pools', name)
    c.check('implements', name, f is not None, "the workers cannot be asked to end", cls.where)
    if f is not None:
        rule = Join(attr)
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        c.check('pool', f"{name} missing", not rule.missing, "fails when no workers have been started", rule.missing[0] if rule.missing else f.where)
        for kind, v, st in exits:
            if kind != 'return':
                continue
            nothing = any(t.op == 'attr' and t.args[1] == attr and not pol or t.op == 'cmp' and t.args[0] in ('is', '==') and any(
                isinstance(x, V) and x.op == 'attr' and x.args[1] == attr for x in t.args[1:]) and pol for t, pol in st.facts.items())
            if nothing:
                c.check('pool', name, True)
                continue
            closed, joined, _ = st.rs
            c.check('pool', f"{name} ended", joined, "returns without having closed and joined the workers", f.where)
            left = [x for (b, k), x in st.heap.items() if b.op == 'self' and k == attr]
            c.check('pool', f"{name} forgotten", bool(left) and all(is_const(x, None) for x in left), "keeps the ended workers so that later reads cannot start new ones", f.where)
    methods = {}
    for k in [cls] + [x for x in prog.all_classes() if cls in x.mro() and x is not cls]:
        for m in k.methods.values():
            if not m.is_static and any(isinstance(x, ast.Attribute) and x.attr in USES for x in walk_own(m.node)):
                methods[(k.name, m.name)] = (k, m)
    for k, m in methods.values():
        rule = Join(attr)
        flow = Flow(prog, rule)
        exits = flow.run(m, k)
        c.used(flow, m.where, len(exits))
        c.instance('users of pools', m.where)
        c.check('pool', f"{k.name}.{m.name}", not rule.idle, "uses the workers although they might have been ended", rule.idle[0] if rule.idle else m.where)


# ---------------------------------------------------------------------------------------------------------------------


class Forward(Rule):
    initial = frozenset()
    max_depth = 3

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def on_call(self, cx, call, st):
        fn = call.args[0]
        if fn.op == 'attr' and fn.args[1] == JOIN:
            return st.rs | {fn.args[0]}, st.rs
        if fn.op == 'call' and call_name(fn) == 'getattr' and len(call_args(fn)) > 1 and is_const(call_args(fn)[1], JOIN):
            return st.rs | {call_args(fn)[0]}, st.rs
        return st.rs, st.rs


def holders(prog, c, owners):
    """Mount sources which keep a decompressing file object."""
    root = prog.cls(ROOT)
    found = {}
    for cls in prog.all_classes():
        if root not in cls.mro():
            continue
        for m in cls.methods.values():
            for y in walk_own(m.node):
                if isinstance(y, ast.Assign) and isinstance(y.value, ast.Call) and (dotted(y.value.func) or '').split('.')[-1] == 'open_compressed_file':
                    t = y.targets[0]
                    t = t.elts[0] if isinstance(t, (ast.Tuple, ast.List)) and t.elts else t
                    if isinstance(t, ast.Attribute):
                        found[cls] = t.attr
                    elif isinstance(t, ast.Name):
                        for z in walk_own(m.node):
                            if isinstance(z, ast.Assign) and isinstance(z.value, ast.Name) and z.value.id == t.id and isinstance(z.targets[0], ast.Attribute):
                                found[cls] = z.targets[0].attr
    single = prog.cls('SingleFileMountSource', False)
    if single is not None:
        for m in single.methods.values():
            if m.name == '__init__' and m.params:
                file = m.params[-1] if len(m.params) < 3 else m.params[2]
                for y in walk_own(m.node):
                    if isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None:
                        for t in y.targets if isinstance(y, ast.Assign) else [y.target]:
                            if isinstance(t, ast.Attribute) and file in {z.id for z in ast.walk(y.value) if isinstance(z, ast.Name)} and 'file' in t.attr.lower():
                                found.setdefault(single, t.attr)
    for cls, attr in found.items():
        c.instance('holders of decompressing files', f"{cls.name}.{attr}")
        f = cls.find(JOIN)
        ok = f is not None and f.cls is not None and f.cls.name != ROOT
        c.check('implements', cls.name, ok, f"threads of the decompressing file object {attr} are not joined", cls.where)
        if not ok:
            continue
        rule = Forward()
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        for kind, v, st in exits:
            if kind != 'return':
                continue
            reached = any(x.op == 'attr' and x.args[1] == attr for x in st.rs)
            absent = any(any(x.op == 'attr' and x.args[1] == attr for x in subterms(t)) for t, pol in st.facts.items())
            c.check('children', f"{cls.name}.{attr}", reached or absent, "returns without having joined the threads of the decompressing file object", f.where)
        c.check('children', f"{cls.name}.{attr} reached", any(any(x.op == 'attr' and x.args[1] == attr for x in st.rs) for _, _, st in exits),
                "never joins the threads of the decompressing file object", f.where)
