"""Life cycle of the file handles given out by the mount."""

from typing import Optional

from ..flow import Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, is_const, mk, show, subterms
from ..model import Program
from . import overlay
from .c07 import linear
from .fusemount import MOUNT, is_overlay

EXPLANATION = (
    "Typestate dataflow over the open, create, read, write, flush, fsync and release operations of the mount: handles are "
    "fresh, are resolved by the given handle only, are closed exactly once and forgotten on all exits, survive failing writes, "
    "and synchronisation reaches the file descriptor in the overlay."
)
OPENING = ('open', 'create')
READS = ('.read', '.readinto', '.read1', 'os.read', 'os.pread')


def base_attr(v: V) -> Optional[str]:
    return v.args[1] if v.op == 'attr' and v.args[0].op == 'self' else None


class Handles(Rule):
    """rs: set of ('store', table, key, value), ('attr', name, value), ('removed', key), ('closed', object), ('old', object)"""

    max_depth = 6
    initial = frozenset()

    def __init__(self, table=None):
        self.table = table
        self.reads = []
        self.forwarded = []
        self.closes = []

    def inline(self, cx, func, recv):
        return (recv is not None and recv.op == 'self') or (func.module is cx.entry_module and func.cls is None)

    def on_store(self, cx, base, key, value, st):
        rs = st.rs
        if base.op == 'self' and isinstance(key, str):
            return frozenset({x for x in rs if x[:2] != ('attr', key)} | {('attr', key, value)})
        t = base_attr(base)
        if t is not None and isinstance(key, V):
            return frozenset({x for x in rs if x[:3] != ('store', t, key)} | {('store', t, key, value)})
        return rs

    def on_delete(self, cx, base, key, st):
        t = base_attr(base)
        return st.rs | {('removed', t, key)} if t is not None and isinstance(key, V) else st.rs

    def on_call(self, cx, call, st):
        n, r, a = call_name(call), call_recv(call), call_args(call)
        rs = bad = st.rs
        t = base_attr(r) if r is not None else None
        if t is not None and n == '.pop' and a:
            rs = rs | {('removed', t, a[0])}
            bad = bad | {('nohandle',)}
        elif t is not None and n in ('.__setitem__', '.setdefault') and len(a) == 2:
            rs = rs | {('store', t, a[0], a[1])}
        elif t is not None and n == '.clear':
            rs = rs | {('cleared', t)}
        elif n in ('.close', 'os.close'):
            x = r if n == '.close' else (a[0] if a else None)
            if x is not None:
                self.closes.append((x, cx.where(), st))
                twice = ('closed', x) in rs
                rs = bad = rs | {('closed', x)} | ({('twice', x)} if twice else frozenset())
        elif n in READS:
            x = r if n.startswith('.') else (a[0] if a else None)
            self.reads.append((x, call, cx.where(), st))
            rs = rs | {('read', x)}
        if r is not None and is_overlay(r):
            self.forwarded.append((n[1:], call, cx.where(), st))
            if n == '.open':
                rs = rs | {('reopened', call)}
                bad = bad | {('failed', call)}
        return rs, bad


def belongs(v: Optional[V], table: str, fh: V) -> bool:
    """Taken from the entry of exactly this handle."""
    if v is None:
        return False
    for x in subterms(v):
        if x.op == 'sub' and base_attr(x.args[0]) == table and x.args[1] is fh:
            return True
        if x.op == 'call' and call_name(x) in ('.get', '.pop', '.__getitem__') and base_attr(call_recv(x)) == table and call_args(x)[0] is fh:
            return True
    return False


def analyse(prog, c, cls, name, table=None):
    f = cls.find(name)
    rule = Handles(table)
    flow = Flow(prog, rule)
    exits = flow.run(f, cls)
    c.used(flow, f.where, len(exits))
    c.instance('handle operations', name)
    return f, rule, exits


def run(prog: Program, c):
    c.rule('fresh', "each handle returned to libfuse differs from all handles in use and leads to the file just opened")
    c.rule('resolved', "an operation on a handle only touches the file opened with it")
    c.rule('released', "releasing a handle closes its file exactly once and forgets the handle on all exits")
    c.rule('usable', "a write which fails to prepare the overlay copy leaves the handle as it was")
    c.rule('sync', "flush and fsync reach the file descriptor of the overlay")
    c.rule('owned', "handles are only added by opening operations and only removed by releasing exactly them")
    cls = prog.cls(MOUNT)
    tables = opening(prog, c, cls)
    if not tables:
        return
    table = sorted(tables)[0]
    releasing(prog, c, cls, table)
    reading(prog, c, cls, table)
    writing(prog, c, cls, table)
    syncing(prog, c, cls, table)
    owners(prog, c, cls, table)
    c.floor('handle operations', 6)


def opening(prog, c, cls):
    tables = set()
    for op in OPENING:
        if cls.find(op) is None:
            continue
        f, rule, exits = analyse(prog, c, cls, op)
        for kind, v, st in exits:
            if kind != 'return':
                continue
            stores = [x for x in st.rs if x[0] == 'store' and x[2] is v]
            if not stores:
                c.check('fresh', f"{op} handle", False, f"returns {show(v)[:80]} under which nothing was stored", f.where)
                continue
            _, table, key, value = stores[0]
            tables.add(table)
            terms, k = linear(key)
            ok = False
            if len(terms) == 1:
                (t, n), = terms
                counter = base_attr(t)
                ok = n == 1 and counter is not None and k >= 1 and ('attr', counter, key) in st.rs
                ok = ok or n == 1 and t.op == 'call' and call_name(t) in ('next', '.__next__')
            c.check('fresh', f"{op} handle", ok, f"returns the handle {show(key)[:80]} which may be in use", f.where)
            opened = any(x.op == 'call' and (call_name(x).split('.')[-1] in OPENING) for x in subterms(value))
            path = mk('param', f.params[1])
            opened = opened and (op != 'open' or any(
                x.op == 'call' and call_name(x) == '.lookup' and call_args(x) and call_args(x)[0] is path for x in subterms(value)))
            opened = opened and path in set(subterms(value))
            c.check('fresh', f"{op} file", opened, f"stores {show(value)[:80]} for the handle instead of the file just opened", f.where)
    c.check('fresh', 'one table', len(tables) == 1, f"handles are stored in {sorted(tables)}", cls.where)
    return tables


def releasing(prog, c, cls, table):
    f, rule, exits = analyse(prog, c, cls, 'release', table)
    fh = mk('param', f.params[2])
    for x, where, st in rule.closes:
        c.check('resolved', 'release', belongs(x, table, fh), f"closes {show(x)[:80]} which is not the file of the handle", where)
    returned = False
    for kind, v, st in exits:
        closed = {x[1] for x in st.rs if x[0] == 'closed' and belongs(x[1], table, fh)}
        removed = ('removed', table, fh) in st.rs
        c.check('released', 'release once', not any(x[0] == 'twice' for x in st.rs) and len(closed) <= 1, "closes the file twice", f.where)
        if kind == 'return':
            unknown = any(missing(t, pol, table, fh) for t, pol in st.facts.items()) and not closed
            c.check('released', 'release closes', bool(closed) or unknown, "returns normally without having closed the file of the handle", f.where)
            c.check('released', 'release forgets', removed or unknown, "returns normally without having forgotten the handle", f.where)
            returned = returned or bool(closed)
        elif closed:
            c.check('released', 'release forgets', removed, "a handle whose file was closed is kept when closing fails", f.where)
    c.check('released', 'release', returned, "never closes the file of the handle", f.where)


def missing(t: V, pol, table, fh) -> bool:
    if t.op == 'cmp' and t.args[0] == 'in' and t.args[1] is fh and base_attr(t.args[2]) == table:
        return not pol
    if t.op == 'cmp' and t.args[0] == 'is' and is_const(t.args[2], None) and belongs(t.args[1], table, fh):
        return bool(pol)
    if t.op == 'call' and call_name(t) in ('.get', '.pop') and belongs(t, table, fh):
        return not pol
    return False


def reading(prog, c, cls, table):
    f, rule, exits = analyse(prog, c, cls, 'read', table)
    path, fh = mk('param', f.params[1]), mk('param', f.params[4])
    some = False
    for x, call, where, st in rule.reads:
        if belongs(x, table, fh):
            some = True
            continue
        source = x is not None and base_attr(x) == 'mountSource' and call_args(call) and any(
            y.op == 'call' and call_name(y) == '.lookup' and call_args(y) and call_args(y)[0] is path for y in subterms(call_args(call)[0]))
        c.check('resolved', 'read', source and not any(
            t.op == 'cmp' and t.args[0] == 'in' and t.args[1] is fh and pol for t, pol in st.facts.items()),
            f"reads from {show(x)[:80]} which is not the file of the handle", where)
    c.check('resolved', 'read', some, "never reads from the file of the handle", f.where)


def writing(prog, c, cls, table):
    f, rule, exits = analyse(prog, c, cls, 'write', table)
    path, fh = mk('param', f.params[1]), mk('param', f.params[4])
    for x, where, st in rule.closes:
        c.check('resolved', 'write close', belongs(x, table, fh), f"closes {show(x)[:80]} which is not the file of the handle", where)
    wrote = False
    for n, call, where, st in rule.forwarded:
        if n == 'write':
            wrote = True
            x = call_arg(call, 3, 'fh')
            stored = {y[3] for y in st.rs if y[0] == 'store' and y[1] == table and y[2] is fh}
            ok = belongs(x, table, fh) or any(x is z for s in stored for z in subterms(s))
            c.check('resolved', 'write', ok and call_arg(call, 0, 'path') is path, f"writes to {show(x)[:80]} which is not the file of the handle", where)
        elif n == 'open':
            c.check('resolved', 'write reopens', call_arg(call, 0, 'path') is path, f"reopens {show(call)[:80]}", where)
    c.check('resolved', 'write', wrote, "never writes to the overlay", f.where)
    for kind, v, st in exits:
        stores = [x for x in st.rs if x[0] == 'store' and x[1] == table]
        for x in stores:
            c.check('resolved', 'write stores', x[2] is fh, f"replaces the file of the handle {show(x[2])[:40]}", f.where)
        reopened = [x[1] for x in st.rs if x[0] == 'reopened']
        closed = [x[1] for x in st.rs if x[0] == 'closed' and belongs(x[1], table, fh)]
        if kind == 'return':
            for call in reopened:
                c.check('resolved', 'write keeps reopened', any(call in set(subterms(x[3])) for x in stores),
                        "the file reopened in the overlay is not kept for the handle", f.where)
        if any(x[0] == 'failed' for x in st.rs) and not stores:
            c.check('usable', 'write', not closed, "the file of the handle is already closed when it cannot be opened in the overlay", f.where)
        if kind == 'return' and closed:
            c.check('usable', 'write replaces', bool(stores), "the file of the handle is closed without having been replaced", f.where)


def syncing(prog, c, cls, table):
    for op in ('flush', 'fsync'):
        if cls.find(op) is None:
            c.check('sync', f"mount {op}", False, f"there is no {op} operation", cls.where)
            continue
        f, rule, exits = analyse(prog, c, cls, op, table)
        path, fh = mk('param', f.params[1]), mk('param', f.params[-1])
        calls = [(call, where) for n, call, where, st in rule.forwarded if n == op]
        c.check('sync', f"mount {op}", bool(calls), f"never reaches the overlay", f.where)
        for call, where in calls:
            x = call_args(call)[-1] if call_args(call) else next(iter(v for k, v in call_kw(call).items() if k == 'fh'), None)
            c.check('resolved', op, belongs(x, table, fh), f"synchronises {show(x)[:80] if x is not None else ''}", where)
    ov = prog.cls(overlay.OVERLAY)
    for op in ('flush', 'fsync'):
        f = ov.find(op)
        if f is None or f.cls is not ov:
            c.check('sync', f"overlay {op}", False, f"there is no {op} operation", ov.where)
            continue
        rule = Sync()
        flow = Flow(prog, rule)
        exits = flow.run(f, ov)
        c.used(flow, f.where, len(exits))
        fh = mk('param', f.params[-1])
        done = False
        for kind, v, st in exits:
            if kind == 'return' and 'denied' not in st.rs:
                done = True
                c.check('sync', f"overlay {op}", fh in st.rs, "returns normally without having synchronised the file descriptor", f.where)
        c.check('sync', f"overlay {op}", done, "never returns normally", f.where)


class Sync(Rule):
    initial = frozenset()
    max_depth = 5

    def on_call(self, cx, call, st):
        rs = st.rs
        if call_name(call) in ('os.fsync', 'os.fdatasync') and call_args(call):
            rs = rs | {call_args(call)[0]}
        return rs, rs


def owners(prog, c, cls, table):
    """Other methods neither add nor remove handles."""
    base = prog.cls('Operations', False)
    for name, f in sorted(cls.methods.items()):
        if name.startswith('_') or f.is_static:
            continue
        f, rule, exits = analyse(prog, c, cls, name, table)
        changing = name in OPENING + ('release', 'write')
        own = {x[2] for kind, v, st in exits for x in st.rs if x[0] == 'store' and x[1] == table} if name in OPENING else {
            mk('param', f.params[2 if name == 'release' else -1])}
        for kind, v, st in exits:
            bad = [x for x in st.rs if x[0] in ('store', 'removed', 'cleared') and x[1] == table or x[:2] == ('attr', table)]
            if changing:
                bad = [x for x in bad if x[0] == 'cleared' or x[0] == 'removed' and (x[2] not in own or name == 'write') or x[0] == 'attr']
            c.check('owned', name, not bad, f"changes the opened files: {show(bad[0][-1])[:60] if bad and isinstance(bad[0][-1], V) else ''}", f.where)
            closed = [] if name in ('release', 'write') else [
                x[1] for x in st.rs if x[0] == 'closed' and any(base_attr(y) == table for y in subterms(x[1]))]
            c.check('owned', name + ' closes', not closed, "closes the file of a handle which stays in use", f.where)
