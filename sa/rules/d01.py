"""Opened files are independent of each other: shared file objects are only used under their lock, with their position set."""

import ast
import re
from typing import Dict, List, Set

from ..consts import Trace
from ..flow import Flow, Rule, V, call_args, call_kw, call_name, call_recv, const, is_const, subterms
from ..model import Class, Func, Program, dotted, walk_own
from .d03 import readers

EXPLANATION = (
    "Lock-set and typestate dataflow over every operation a mount source offers after its construction and over the file objects "
    "it hands out: reads of a shared file object happen under its one lock with the position set in the same critical section; "
    "construction sites of views on shared file objects and the locks they are given; escape and ownership of returned file objects."
)
TOUCH = {'seek', 'read', 'readinto', 'readline', 'readlines', 'read1', 'readall', 'tell', 'truncate'}
READ = {'read', 'readinto', 'readline', 'readlines', 'read1', 'readall'}
LOCKS = {'threading.Lock', 'threading.RLock', 'Lock', 'RLock', 'multiprocessing.Lock', 'multiprocessing.RLock'}
VIEWS = ('RawStenciledFile', 'StenciledFile', 'JoinedFile')


def is_lock(name: str) -> bool:
    return bool(re.search('(?<![bB])lock', name, re.I))


def lock_attrs(prog: Program) -> Dict[str, Set[Class]]:
    """Attribute -> classes creating a lock for it or receiving it from their creator."""
    out: Dict[str, Set[Class]] = {}
    for k in prog.all_classes():
        for f in k.methods.values():
            params = {p for p in f.params if is_lock(p)}
            for n in ast.walk(f.node):
                if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                    continue
                v = n.value
                made = any(isinstance(x, ast.Call) and dotted(x.func) in LOCKS for x in ast.walk(v))
                given = any(isinstance(x, ast.Name) and x.id in params for x in ast.walk(v))
                if not made and not given:
                    continue
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    d = dotted(t) or ''
                    if d.startswith('self.') and d.count('.') == 1:
                        out.setdefault(d[5:], set()).add(k)
    return out


def has_lock(locks, cls: Class, attr: str) -> bool:
    return any(k in cls.mro() for k in locks.get(attr, ()))


def late_methods(prog: Program, cls: Class, base: Class) -> Set[str]:
    """Methods which run after the construction: everything reachable from the public interface."""
    if base in cls.mro():
        start = {n for n in base.methods if n not in ('__init__', '__enter__', '__exit__', 'close', '__del__')}
    else:
        start = {n for k in cls.mro() for n in k.methods if not n.startswith('_')} - {'close'}
        if any(b.startswith('io.') for b in cls.all_ext_bases()):
            start |= {n for k in cls.mro() for n in k.methods if n.startswith('__') and n not in ('__init__', '__exit__', '__del__')}
    todo, seen = list(start), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for k in cls.mro():
            f = k.methods.get(n)
            if f is None:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and cls.find(x.attr):
                    todo.append(x.attr)
            break
    return seen


class Shared(Rule):
    initial = (frozenset(), None, False)  # held locks; file object positioned in this critical section; not seekable
    max_depth = 7

    def __init__(self, prog, cls, locks):
        self.prog, self.cls, self.locks = prog, cls, locks
        self.uses = []
        self.closures = []
        self.given = []

    def inline(self, cx, func: Func, recv):
        if recv is not None and recv.op == 'self':
            return True
        return recv is None and func.module is cx.entry_module

    def held(self, v: V, st):
        if v.op == 'attr' and v.args[0].op == 'self' and has_lock(self.locks, self.cls, v.args[1]):
            return v.args[1]
        if v.op == 'call' and call_name(v).endswith('nullcontext'):
            for t, p in st.facts.items():
                if t.op == 'cmp' and t.args[0] == 'is' and any(is_const(x, None) for x in t.args[1:]):
                    t, p = next((x for x in t.args[1:] if not is_const(x, None)), t), not p
                if not p and t.op == 'attr' and t.args[0].op == 'self' and has_lock(self.locks, self.cls, t.args[1]):
                    return t.args[1]
        return None

    def on_with_enter(self, cx, v, st):
        n = self.held(v, st)
        return (st.rs[0] | {n}, *st.rs[1:]) if n else st.rs

    def on_with_exit(self, cx, v, st):
        n = self.held(v, st)
        if not n:
            return st.rs
        left = st.rs[0] - {n}
        return (left, st.rs[1] if left else None, st.rs[2])

    def on_assume(self, cx, cond, pol, st):
        if not pol and cond.op == 'call' and _names(cond) & {'seekable', 'seek', 'tell'}:
            return (*st.rs[:2], True)
        return st.rs

    def shared(self, v: V):
        """The attribute a file object is stored in."""
        while v.op in ('item', 'sub', 'elem'):
            v = v.args[0]
        if v.op == 'phi':
            return next((a for a in map(self.shared, v.args[0]) if a), None)
        if v.op == 'call' and call_name(v) == 'cast' and len(call_args(v)) == 2:
            return self.shared(call_args(v)[1])
        if v.op == 'attr' and v.args[0].op == 'self':
            return v.args[1]
        return None

    def on_call(self, cx, call, st):
        rs = st.rs
        n = call_name(call).split('.')[-1]
        recv = call_recv(call)
        for a in (*call_args(call), *call_kw(call).values()):
            for x in subterms(a):
                if x.op == 'closure':
                    self.closures.append((x, st, cx.where()))
                    break
        if n in ('acquire', 'release') and recv is not None and recv.op == 'attr' and recv.args[0].op == 'self' and has_lock(self.locks, self.cls, recv.args[1]):
            held = rs[0] | {recv.args[1]} if n == 'acquire' else rs[0] - {recv.args[1]}
            rs = (held, rs[1] if held else None, rs[2])
            return rs, rs
        if recv is None or n not in TOUCH:
            return rs, rs
        a = self.shared(recv)
        if a is None or len(call_args(call)) + len(call_kw(call)) > 2:
            return rs, rs
        if any(k.find('open') for k in self.prog.attr_classes(self.cls, a)):
            return rs, rs  # another mount source or an archive object with an interface of its own
        self.uses.append((n, a, rs, rs[1] is recv, cx.where()))
        if n == 'seek':
            rs = (rs[0], recv, rs[2])
        return rs, rs


def run(prog: Program, c):
    c.rule('locked', "a file object shared by all opened files is only used while holding its lock")
    c.rule('positioned', "shared file objects are read from a position set in the same critical section")
    c.rule('view', "files handed out are views on the shared file object which are given its lock")
    c.rule('one-lock', "all users of a shared file object use the same lock")
    c.rule('own', "open returns a new file object each time")
    c.rule('callback', "callbacks given to decoders do not use a shared, seekable file object directly")
    c.rule('exclusive', "decoder states reused for several opened files belong to one opened file at a time")
    c.rule('library', "accesses of file system drivers to their shared file object are locked")
    c.rule('archive', "the state of an archive object shared by all opened files is only changed while holding its lock")
    c.rule('fresh', "locks are not created where they are acquired or handed on, so that all users share them")
    c.rule('serial', "file system requests are served one after another")
    base = prog.cls('MountSource')
    locks = lock_attrs(prog)
    files = readers(prog)
    todo = [k for k in [*prog.subclasses(base), *files, *(x for x in prog.all_classes() if any(x in v for v in locks.values()))]]
    todo = list(dict.fromkeys(k for k in todo if not k.module.name.startswith('tests')))
    pairs: Dict[Class, Dict[str, Set[str]]] = {}
    for cls in todo:
        late = late_methods(prog, cls, base)
        internal = files_of(cls) if base in cls.mro() else None
        for name in sorted(late):
            f = cls.find(name)
            if f is None or f.cls is base or f.is_abstract or f.is_static or f.is_property and False:
                continue
            if base not in cls.mro() and f.cls is not cls:
                continue
            if name.startswith('_') and base in cls.mro():
                continue  # analysed from the operations calling it
            if name.startswith('_') and not name.startswith('__') and called(cls, late, name):
                continue
            if not touches(cls, f):
                continue
            rule = Shared(prog, cls, locks)
            flow = Flow(prog, rule)
            exits = flow.run(f, cls)
            c.used(flow, f.where, len(exits))
            c.instance('operations on shared file objects', f"{cls.name}.{name}")
            for n, a, rs, same, where in rule.uses:
                if base not in cls.mro() and not receives(cls, a):
                    continue  # an object of its own
                c.check('locked', f"{cls.name}.{name} {a}", bool(rs[0]), f"{n} of the shared file object {a} without holding a lock", where)
                for lk in rs[0]:
                    pairs.setdefault(cls, {}).setdefault(a, set()).add(lk)
                if n in READ:
                    c.check('positioned', f"{cls.name}.{name} {a}", same, f"{n} of the shared file object {a} from a position which was not set in the same critical section", where)
            if name == 'open' and base in cls.mro():
                for kind, v, st in exits:
                    if kind == 'return' and v is not None:
                        a = rule.shared(v)
                        c.check('own', f"{cls.name}.open", a is None, f"returns the shared object {a}", f.where)
    modules = {k.module for k in prog.subclasses(base)}
    for cls in dict.fromkeys([*todo, *(k for k in prog.all_classes() if k.module in modules)]):
        closures(prog, c, cls, locks)
    for cls in todo:
        views(prog, c, cls, locks, base, pairs)
    for cls, files_ in pairs.items():
        for a, used in files_.items():
            c.check('one-lock', f"{cls.name} {a}", len(used) == 1, f"is used with the locks {', '.join(sorted(used))}", cls.where)
    c.floor('operations on shared file objects', 3)
    c.floor('views on shared file objects', 3)
    exclusive(prog, c, files)
    drivers(prog, c, locks)
    archives(prog, c, locks, base)
    fresh(prog, c)
    serial(prog, c)


def files_of(cls):
    return None


def called(cls: Class, late, name: str) -> bool:
    for n in late:
        f = cls.find(n)
        if n != name and f is not None and any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(f.node)):
            return True
    return False


def touches(cls: Class, f: Func, seen=None) -> bool:
    seen = set() if seen is None else seen
    if f in seen:
        return False
    seen.add(f)
    if f.name == 'open':
        return True
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute):
            if x.attr in TOUCH and not (isinstance(x.value, ast.Call) and dotted(x.value.func) == 'super'):
                if not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                    return True
            if isinstance(x.value, ast.Name) and x.value.id == 'self':
                g = cls.find(x.attr)
                if g is not None and touches(cls, g, seen):
                    return True
    return False


def receives(cls: Class, attr: str) -> bool:
    """The attribute holds something given to the constructor."""
    init = cls.find('__init__')
    if init is None:
        return False
    params = set(init.params) - {'self'}
    for n in ast.walk(init.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                names = []
                if isinstance(t, ast.Tuple):
                    names = [dotted(x) for x in t.elts]
                else:
                    names = [dotted(t)]
                if f'self.{attr}' in names and any(isinstance(x, ast.Name) and x.id in params for x in ast.walk(n.value)):
                    return not any(isinstance(x, ast.Call) and dotted(x.func) in ('open', 'io.BytesIO') for x in ast.walk(n.value))
    # values derived from parameters in several steps
    derived = set(params)
    for _ in range(3):
        for n in ast.walk(init.node):
            if isinstance(n, (ast.Assign, ast.For)):
                src = n.value if isinstance(n, ast.Assign) else n.iter
                tgt = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any((isinstance(x, ast.Name) and x.id in derived) or (dotted(x) or '') in derived for x in ast.walk(src)):
                    for t in tgt:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                derived.add(x.id)
                            if isinstance(x, ast.Attribute):
                                derived.add(dotted(x) or '')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and any(
                isinstance(x, ast.Name) and x.id in derived for a in n.args for x in ast.walk(a)
            ):
                derived.add(dotted(n.func.value) or '')
    return f'self.{attr}' in derived


# --------------------------------------------------------------------------- views


def views(prog: Program, c, cls: Class, locks, base: Class, pairs):
    names = {k.name for k in prog.all_classes() if '__init__' in k.methods and any(is_lock(p) for p in k.methods['__init__'].params)}
    names |= set(VIEWS) | {s.name for v in VIEWS if prog.cls(v, False) for s in prog.subclasses(prog.cls(v, False))}
    late = late_methods(prog, cls, base)
    trace = trace_of(prog)
    for f in cls.methods.values():
        nested = [x for x in ast.walk(f.node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f.node]
        inner = {id(y) for n in nested for y in ast.walk(n)}
        for n in nested if base in cls.mro() else ():
            for y in walk_own(n):
                if isinstance(y, ast.Return) and (dotted(y.value) or '').startswith('self.') and file_attr(cls, dotted(y.value)[5:]):
                    c.check('own', f"{f.qual} {n.name}", False, f"returns the shared object {dotted(y.value)[5:]}", f.where)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func) or ''
            target = prog.resolve(f.module, d) if d and '.' not in d else None
            if not (isinstance(target, Class) and target.name in names):
                continue
            if f.name not in late and id(n) not in inner and not used_late(cls, f, late, base):
                continue
            init = target.find('__init__')
            ps = [p for p in init.params if p != 'self']
            bound = dict(zip(ps, n.args))
            bound.update({k.arg: k.value for k in n.keywords if k.arg})
            files, lock = bound.get(ps[0]), next((bound[p] for p in ps if is_lock(p) and p in bound), None)
            owner = next((x for x in nested if isinstance(x, ast.FunctionDef) and any(y is n for y in ast.walk(x))), f.node)
            toks = set()
            if files is not None:
                toks = trace.tokens(files, owner, f.module, cls.node)
            shared = {t for t in toks if file_attr(cls, t)} | (set(f.params) & toks) - {'self'}
            if not shared:
                continue
            site = f"{f.module.rel}:{f.qual}"
            c.instance('views on shared file objects', f"{site}:{n.lineno}")
            if lock is None and any(k.arg is None for k in n.keywords):
                continue
            ltoks = trace.tokens(lock, owner, f.module, cls.node) if lock is not None else set()
            ok = {t for t in ltoks if has_lock(locks, cls, t)} | ({t for t in ltoks if t in f.params and is_lock(t)})
            c.check('view', f"{f.qual} {target.name}", bool(ok), "a view on the shared file object is created without the lock of its owner", site)
            for a in shared:
                if file_attr(cls, a):
                    pairs.setdefault(cls, {}).setdefault(a, set()).update(ok)


def used_late(cls: Class, f: Func, late, base) -> bool:
    return False if base in cls.mro() else f.name != '__init__' and not any(b.startswith('io.') for b in cls.all_ext_bases())


def file_attr(cls: Class, name: str) -> bool:
    """An attribute the class stores and treats as a file object."""
    for k in cls.mro():
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and dotted(x) == f'self.{name}' and 'file' in name.lower() and not cls.find(name):
                                return 'size' not in name.lower() and 'info' not in name.lower() and not is_lock(name) and 'path' not in name.lower().replace('fileorpath', '') and 'name' not in name.lower()
    return False


_traces: Dict[int, Trace] = {}


def trace_of(prog) -> Trace:
    if id(prog) not in _traces:
        _traces.clear()
        _traces[id(prog)] = Trace(prog)
    return _traces[id(prog)]


# --------------------------------------------------------------------------- callbacks


def closures(prog: Program, c, cls: Class, locks):
    """Callbacks reading from a file object given to the constructor."""
    for f in cls.methods.values():
        defs = [x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node]
        if not any(isinstance(y, ast.Attribute) and y.attr in READ for d in defs for y in ast.walk(d)):
            continue
        rule = Shared(prog, cls, locks)
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        for x, st, where in rule.closures:
            node, env, _ = flow.closures[x.args[0]]
            env = {**env, **st.env}
            locked = {id(z) for w in ast.walk(node) if isinstance(w, ast.With) for i in w.items
                      for y in [i.context_expr] if any(isinstance(q, ast.Attribute) and has_lock(locks, cls, q.attr) for q in ast.walk(y)) for z in ast.walk(w)}
            for y in ast.walk(node):
                if not (isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in READ) or id(y) in locked:
                    continue
                r = y.func.value
                v = env.get(r.id) if isinstance(r, ast.Name) else None
                a = rule.shared(v) if v is not None else None
                if isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == 'self':
                    a = r.attr
                if a is None and not (v is not None and v.op == 'param'):
                    continue
                if a is not None and not receives(cls, a):
                    continue
                stream = st.rs[2]
                c.check('callback', f"{f.qual} {y.func.attr}", stream, f"a callback reads from the shared file object {a or v.args[0]} at whatever position it currently has", where)


def _names(t: V):
    out = set()
    for x in subterms(t):
        if x.op == 'attr':
            out.add(x.args[1])
        if x.op == 'const' and isinstance(x.args[1], str):
            out.add(x.args[1])
        if x.op == 'call':
            out.add(call_name(x).split('.')[-1])
    return out


# --------------------------------------------------------------------------- exclusive decoder states


class Hand(Rule):
    initial = frozenset()
    max_depth = 5

    def __init__(self):
        self.handed = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        rs = st.rs
        recv = call_recv(call)
        if n in ('pop', 'remove', 'popitem', 'clear'):
            rs = rs | {'removed'}
        if recv is not None and recv.op == 'attr' and recv.args[0].op == 'self' and n not in TOUCH:
            for a in call_args(call):
                if a.op == 'attr' and a.args[0].op == 'self':
                    rs = rs | {('gave', a.args[1], n)}
        return rs, rs

    def on_store(self, cx, base, key, value, st):
        if base.op == 'self' and isinstance(key, str):
            return frozenset(x for x in st.rs if not (isinstance(x, tuple) and x[1] == key))
        return st.rs

    def on_delete(self, cx, base, key, st):
        return st.rs | {'removed'}


def exclusive(prog: Program, c, files: List[Class]):
    """Caches file objects take their decoder from and give it back to."""
    for cls in files:
        for f in cls.methods.values():
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)):
                    continue
                d = dotted(n.value.func) or ''
                if not d.startswith('self.') or d.count('.') != 2:
                    continue
                _, a, m = d.split('.')
                for k in prog.attr_classes(cls, a):
                    g = k.find(m)
                    if g is None or not stores(k) or not receives(cls, a):
                        continue
                    rule = Hand()
                    flow = Flow(prog, rule)
                    exits = flow.run(g, k)
                    c.used(flow, g.where, len(exits))
                    c.instance('shared caches', f"{k.name}.{m}")
                    for kind, v, st in exits:
                        if kind != 'return' or v is None or is_const(v):
                            continue
                        c.check('exclusive', f"{k.name}.{m}", 'removed' in st.rs, "hands out an object which remains available for others", g.where)
                    target = dotted(n.targets[0]) or ''
                    if target.startswith('self.'):
                        returned(prog, c, cls, a, target[5:])


def stores(k: Class) -> bool:
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert', 'setdefault') or
               isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) for t in n.targets)
               for f in k.methods.values() for n in ast.walk(f.node))


def returned(prog: Program, c, cls: Class, cache: str, attr: str):
    for name, f in cls.methods.items():
        if not any(isinstance(x, ast.Attribute) and x.attr == cache for x in ast.walk(f.node)):
            continue
        rule = Hand()
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        for kind, v, st in exits:
            if kind == 'return':
                kept = [x for x in st.rs if isinstance(x, tuple) and x[1] == attr]
                c.check('exclusive', f"{cls.name}.{name} {attr}", not kept, f"keeps using {attr} after having given it back", f.where)


# --------------------------------------------------------------------------- drivers and requests


def drivers(prog: Program, c, locks):
    """Subclasses of file system drivers of other packages which add a lock around the accesses to the image."""
    img = prog.cls('SquashFSImage', False)
    if img is None:
        return
    own = [a for a in locks if has_lock(locks, img, a)]
    for name in ('_read_data_block', '_read_block'):
        f = img.find(name)
        if f is None:
            c.check('library', f"SquashFSImage.{name}", False, "accesses to the image are not locked", img.where)
            continue
        rule = Super(prog, img, locks)
        flow = Flow(prog, rule)
        exits = flow.run(f, img)
        c.used(flow, f.where, len(exits))
        for held, where in rule.calls:
            c.check('library', f"SquashFSImage.{name}", bool(held), "accesses the image without holding the lock", where)
        c.check('library', f"SquashFSImage.{name} reads", bool(rule.calls) and bool(own), "accesses to the image are not locked", f.where)


class Super(Shared):
    def __init__(self, prog, cls, locks):
        super().__init__(prog, cls, locks)
        self.calls = []

    def inline(self, cx, func: Func, recv):
        return func.cls is self.cls

    def on_call(self, cx, call, st):
        fn = call.args[0]
        if fn.op == 'supermethod' or fn.op == 'bound' and fn.args[0].cls is not self.cls:
            self.calls.append((st.rs[0], cx.where()))
        return super().on_call(cx, call, st)


STATEFUL = {'reset', 'extract', 'extractall', 'readall', 'rewind'}


class Stateful(Shared):
    """Operations which change the state of an archive object."""

    def __init__(self, prog, cls, locks):
        super().__init__(prog, cls, locks)
        self.changes = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' or recv is None and (func.module is cx.entry_module or func.cls is None and func.module is self.cls.module)

    def on_call(self, cx, call, st):
        recv = call_recv(call)
        if recv is not None and call_name(call).split('.')[-1] in STATEFUL and self.shared(recv):
            self.changes.append((call_name(call), self.shared(recv), st.rs[0], cx.where()))
        return super().on_call(cx, call, st)


def archives(prog: Program, c, locks, base):
    for cls in prog.subclasses(base):
        f = cls.find('open')
        if f is None or f.cls is base or f.is_abstract or cls.module.name.startswith('tests'):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr in STATEFUL for n in ast.walk(cls.module.tree)):
            continue
        rule = Stateful(prog, cls, locks)
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        for n, a, held, where in rule.changes:
            c.instance('changes of archive objects', where)
            c.check('archive', f"{cls.name}.open {a}", bool(held), f"{n.lstrip('.')} of {a} without holding a lock", where)


def fresh(prog: Program, c):
    for f in prog.all_funcs():
        if f.module.name.startswith('tests') or isinstance(f.node, ast.Lambda):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    x = i.context_expr
                    if isinstance(x, ast.Call) and is_lock(dotted(x.func) or ''):
                        c.check('fresh', f.where, False, "acquires a lock which nobody else knows", f.where)
            elif isinstance(n, ast.Call) and any(v in (dotted(n.func) or '').split('.') for v in VIEWS):
                for x in (*n.args, *(k.value for k in n.keywords)):
                    c.check('fresh', f.where, not (isinstance(x, ast.Call) and is_lock(dotted(x.func) or '')), "is given a lock which nobody else knows", f.where)


def serial(prog: Program, c):
    """File handles of the file system have a position of their own; requests must not interleave on them."""
    n = 0
    for m in prog.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Call) and (dotted(f.func) or '').split('.')[-1] == 'FUSE':
                n += 1
                kw = {k.arg: k.value for k in f.keywords}
                v = kw.get('nothreads')
                if v is None and None in kw:
                    # options collected beforehand
                    v = next((x.value for x in ast.walk(m.tree) if isinstance(x, ast.keyword) and x.arg == 'nothreads'), None)
                    if v is None:
                        for x in ast.walk(m.tree):
                            if isinstance(x, ast.Dict):
                                for k, y in zip(x.keys, x.values):
                                    if isinstance(k, ast.Constant) and k.value == 'nothreads':
                                        v = y
                            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].slice, ast.Constant) and x.targets[0].slice.value == 'nothreads':
                                v = x.value
                ok = v is not None and not (isinstance(v, ast.Constant) and not v.value)
                c.check('serial', 'FUSE', ok, "requests are served by several threads although opened files and the index are not usable from them", f"{m.rel}")
    c.check('serial', 'FUSE used', n > 0, "the file system is not served", 'ratarmount')
