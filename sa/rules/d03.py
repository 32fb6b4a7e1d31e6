"""File objects keep the contract of files: position, complete reads, seeking, reading until the end, empty files."""

import ast
from typing import List, Optional

from ..flow import Flow, Rule, V, call_arg, call_args, call_name, call_recv, const, contains, cval, is_const, mk, show, subterms
from ..model import Class, Func, Program, dotted, walk_own
from . import regions
from .c07 import linear

EXPLANATION = (
    "Typestate dataflow over the read, readinto, seek, tell and constructor of every file object class of the program, with the "
    "requested size and the reference point of seeks as constants where the contract distinguishes them; construction sites of file "
    "objects which may return less than requested; order of repositioning and reading in every function reading at an offset."
)
FILE_IO = {'io.RawIOBase', 'io.BufferedIOBase', 'io.IOBase', 'RawIOBase', 'BufferedIOBase', 'IOBase'}
BUFFERED = {'io.BufferedReader', 'BufferedReader', 'io.BufferedRandom'}
DATA = {'read', 'read1', 'readinto', 'readall', 'get', 'pread', 'read_data', 'read_cluster_contents', 'recv', '_read_data_block'}
OWN = ('read', 'read1', 'readinto', 'seek', 'tell', '__init__', 'close', 'readable')


def readers(prog: Program) -> List[Class]:
    out = []
    for c in prog.all_classes():
        if not any(b in FILE_IO for b in c.all_ext_bases()):
            continue
        if c.find('read') is None or (c.find('seek') is None and c.find('tell') is None):
            continue
        if any(m in c.methods for m in OWN):
            out.append(c)
    return out


def size_param(f: Func) -> Optional[str]:
    p = [x for x in f.params if x not in ('self', 'cls')]
    return p[0] if p else None


def self_attr(v: V) -> Optional[str]:
    return v.args[1] if v.op == 'attr' and v.args[0].op == 'self' else None


class Contract(Rule):
    initial = frozenset()
    max_depth = 8

    def __init__(self, opaque=()):
        self.stores = []
        self.calls = []
        self.opaque = opaque

    def inline(self, cx, func: Func, recv):
        if func.name in self.opaque:
            return False
        if recv is not None and recv.op == 'self':
            return True
        return super().inline(cx, func, recv)

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        rs = st.rs
        recv = call_recv(call)
        fn = call.args[0]
        self.calls.append((n, call, st, cx.where()))
        a = self_attr(recv) if recv is not None else None
        if a is not None and n in DATA | {'seek', 'readline'}:
            rs = rs | {('moved', a)}
        callback = fn.op == 'attr' and fn.args[0].op == 'self' and n not in DATA and st.heap.get((fn.args[0], fn.args[1])) is None and (
            not fn.args[0].args[0].find(fn.args[1]) if isinstance(fn.args[0].args[0], Class) else False)
        if n in DATA or callback:
            rs = rs | {'data'}
        return rs, rs

    def on_store(self, cx, base, key, value, st):
        if base.op == 'self' and isinstance(key, str):
            self.stores.append((key, value, st, cx.where()))
            return st.rs | {('moved', key)}
        self.calls.append(('[]=', mk('stored', base, key, value) if isinstance(key, V) else base, st, cx.where()))
        return st.rs


def flow_of(prog, c, f, cls, args=None, opaque=()):
    rule = Contract(opaque)
    flow = Flow(prog, rule)
    exits = flow.run(f, cls, args=args)
    c.used(flow, f.where, len(exits))
    return rule, exits


def arms(v: V):
    """The alternatives of a value, below clamping."""
    if v.op == 'phi':
        for x in v.args[0]:
            yield from arms(x)
    elif v.op == 'loopvar' and len(v.args) > 2 and isinstance(v.args[2], V):
        yield from arms(v.args[2])
    elif v.op == 'call' and call_name(v) in ('max', 'min'):
        for x in call_args(v):
            yield from arms(x)
    else:
        yield v


def position_attrs(prog, c, cls: Class) -> set:
    """Attributes the reported position is made of."""
    tell = cls.find('tell')
    out = set()
    if tell is not None:
        _, exits = flow_of(prog, c, tell, cls)
    else:
        seek = cls.find('seek')
        p = size_param(seek)
        ps = [x for x in seek.params if x not in ('self', 'cls')]
        args = {p: const(0)}
        if len(ps) > 1:
            args[ps[1]] = const(1)
        _, exits = flow_of(prog, c, seek, cls, args)
    for kind, v, _ in exits:
        if kind == 'return' and v is not None:
            for x in subterms(v):
                a = self_attr(x)
                if a:
                    out.add(a)
    return out


def is_len(v: V) -> bool:
    return v.op == 'call' and call_name(v) in ('len', 'min', 'max')


def in_loop(cls: Class, start: str = 'read'):
    """(function node, call node, inside of a loop) of all calls reachable from a method within its class."""
    todo, seen, out = [(start, False, None)], set(), []
    while todo:
        name, looped, owner = todo.pop()
        if (name, looped) in seen:
            continue
        seen.add((name, looped))
        f = cls.find(name) if owner is None else owner.find(name)
        if f is None:
            continue

        def walk(node, inside):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                    continue
                loop = inside or isinstance(node, (ast.While, ast.For)) or isinstance(ch, (ast.While, ast.For)) and False
                if isinstance(ch, ast.Call):
                    d = dotted(ch.func) or ''
                    out.append((f, ch, loop))
                    if d.startswith('self.') and d.count('.') == 1:
                        todo.append((d[5:], loop, None))
                    elif isinstance(ch.func, ast.Attribute) and isinstance(ch.func.value, ast.Call) and dotted(ch.func.value.func) == 'super':
                        for b in cls.mro()[1:]:
                            if ch.func.attr in b.methods:
                                todo.append((ch.func.attr, loop, b))
                                break
                walk(ch, loop)
        walk(f.node, looped)
    return out


def run(prog: Program, c):
    c.rule('position', "whenever data is returned, the position reported by tell has been advanced")
    c.rule('amount', "reading advances the position by the amount of data and never by the requested size")
    c.rule('seek', "seeking yields offset, position + offset, or size + offset and returns the new position; rejected seeks change nothing")
    c.rule('end', "reading with a negative size reads until the end of the file")
    c.rule('readinto', "readinto stores exactly the read data and returns its amount")
    c.rule('fresh', "a file object is readable right after it was constructed, also for empty files")
    c.rule('whole', "file objects which may return less than requested are only used with a buffer around them")
    c.rule('pieces', "data joined from several regions is cut at the start of the first and at the end of the last one only")
    c.rule('search', "positions at the start of a region belong to that region, and the last region is not left out")
    c.rule('offset', "reading at an offset repositions the file to it and reads the requested size from there")
    seen = readers(prog)
    c.floor('file object classes', 3)
    for cls in seen:
        c.instance('file object classes', cls.where)
        contract(prog, c, cls)
    wrapped(prog, c, seen)
    offsets(prog, c)
    regions.searches(prog, c)
    c.floor('searches', 1)


def contract(prog: Program, c, cls: Class):
    read, seek = cls.find('read'), cls.find('seek')
    P = position_attrs(prog, c, cls)
    own = cls.name
    # position attributes that seek sets from its argument
    pos = set()
    if seek is not None:
        sp = [x for x in seek.params if x not in ('self', 'cls')]
        runs = []
        for w in (0, 1, 2):
            args = {sp[1]: const(w)} if len(sp) > 1 else None
            rule, exits = flow_of(prog, c, seek, cls, args)
            off = mk('param', sp[0])
            pos |= {k for k, v, _, _ in rule.stores if k in P and contains(v, off)}
            runs.append((w, exits))
        mine = pos
        ends = []
        for w, exits in runs:
            for kind, v, st in exits:
                if kind != 'return':
                    if v is None or v.op == 'exc' or 'AssertionError' in show(v):
                        continue  # a failing source, or a position the class itself considers impossible
                    for key, value in st.heap.items():
                        if key[0].op == 'self' and key[1] in mine:
                            c.check('seek', f"{own}.seek rejected", value is mk('attr', *key), f"a rejected seek leaves {show(value)[:80]} behind", seek.where)
                    continue
                for p in sorted(mine):
                    key = next((k for k in st.heap if k[0].op == 'self' and k[1] == p), None)
                    value = st.heap.get(key) if key else None
                    construct = f"{own}.seek whence={w}"
                    if value is None:
                        c.check('seek', construct, False, "does not change the position", seek.where)
                        continue
                    ok = False
                    for x in arms(value):
                        t, k = linear(x)
                        d = dict(t)
                        if d.get(off) != 1:
                            continue
                        rest = {y: n for y, n in d.items() if y is not off}
                        old = [y for y in rest if any(self_attr(z) in mine | P for z in subterms(y) if self_attr(z)) and not is_len(y)]
                        if w == 0:
                            ok = ok or (not rest and k == 0)
                        elif w == 1:
                            ok = ok or (bool(old) and all(rest[y] == 1 for y in old) and len(rest) == len(old) and k == 0)
                        else:
                            fresh = [y for y in rest if self_attr(y) not in mine]
                            ends += fresh
                            ok = ok or (len(fresh) == len(rest) == 1 and rest[fresh[0]] == 1 and k == 0)
                    c.check('seek', construct, ok, f"moves to {show(value)[:80]}", seek.where)
                    if v is not None:
                        allowed = {*arms(value), value}
                        same = all(x in allowed or not is_const(x) and not (x.op in ('sub', 'attr', 'param', 'bin') and w != 2) for x in arms(v))
                        c.check('seek', construct + ' result', same, "does not return the new position", seek.where)
        if len(set(ends)) == 1:
            regions.end_of_file(prog, c, cls, ends[0], pos)
    for f in regions.reachable(cls):
        if f.cls is not None and f.name not in ('seek', 'tell'):
            regions.shrinking(c, f, own)
            regions.amounts(c, f, cls, P)
            regions.pieces(c, f, cls)
    # reading
    sp = size_param(read)
    rule, exits = flow_of(prog, c, read, cls)
    data = 0
    for kind, v, st in exits:
        if kind != 'return' or 'data' not in st.rs:
            continue
        data += 1
        moved = {x[1] for x in st.rs if isinstance(x, tuple) and x[0] == 'moved'}
        c.check('position', f"{own}.read", not P or bool(moved & P), "data is returned without advancing the position which tell reports", read.where)
    c.check('position', f"{own}.read reads", data > 0, "never returns any data", read.where)
    for k, v, st, where in rule.stores:
        if k not in pos:
            continue
        construct = f"{own}.read advances"
        for x in ([v] if v.op != 'phi' else v.args[0]):
            t, n = linear(x)
            d = dict(t)
            bare = [y for y in d if y.op == 'param' and y.args[0] == sp]
            lens = [y for y in d if is_len(y)]
            clamp = is_len(x)
            if clamp:
                c.check('amount', construct, True)
                continue
            asked = [y for y in lens if call_name(y) in ('min', 'max') and any(n2 in DATA and y in call_args(call) and call_recv(call) is not None and call_recv(call).op != 'self' for n2, call, _, _ in rule.calls)]
            c.check('amount', construct + ' by', not asked, f"the position advances by the requested amount {show(asked[0])[:60] if asked else ''} instead of the amount of data", where)
            c.check('amount', construct, not bare and bool(lens) and all(d[y] == 1 for y in lens) and len(d) > len(lens),
                    f"the position becomes {show(x)[:80]}", where)
    # reading until the end
    if sp is not None:
        rule, exits = flow_of(prog, c, read, cls, {sp: const(-1)})
        minus = const(-1)
        bad = None
        for k, v, st, where in rule.stores:
            for x in subterms(v):
                if x.op == 'call' and call_name(x) in ('min',) and minus in call_args(x) and k in P:
                    bad = where
                if x.op == 'bin' and x.args[0] == 'Add' and minus in (x.args[1], x.args[2]) and k in pos:
                    bad = where
        for n, call, st, where in rule.calls:
            if n in DATA and any(x.op == 'call' and call_name(x) == 'min' and minus in call_args(x) for a in call_args(call) for x in subterms(a)):
                bad = where
        reached = any(kind == 'return' and 'data' in st.rs for kind, v, st in exits)
        c.check('end', f"{own}.read", bad is None and reached, "reading with size -1 does not read until the end of the file", bad or read.where)
    # readinto
    ri = cls.methods.get('readinto')
    if ri is not None:
        rule, exits = flow_of(prog, c, ri, cls, opaque=('read', 'read1', '_read'))
        reads = [(call, st) for n, call, st, _ in rule.calls if n in ('read', 'read1', '_read') and call_recv(call) is not None and call_recv(call).op == 'self']
        stored = [v for n, v, _, _ in rule.calls if n == '[]=']
        if reads:
            good = True
            for call, _ in reads:
                arg = call_arg(call, 0, size_param(read))
                good = good and arg is not None and any(x.op == 'call' and call_name(x) in ('len', '.nbytes') or x.op == 'attr' and x.args[1] == 'nbytes' for x in subterms(arg))
            c.check('readinto', f"{own}.readinto size", good, "does not request the size of the buffer", ri.where)
            datas = {call for call, _ in reads}
            ok = any(s.op == 'stored' and s.args[2] in datas and s.args[1].op == 'slice' and (
                s.args[1].args[1].op == 'call' and call_name(s.args[1].args[1]) == 'len' and call_args(s.args[1].args[1])[0] is s.args[2]) for s in stored)
            c.check('readinto', f"{own}.readinto stores", ok, "does not store exactly the read data at the start of the buffer", ri.where)
            for kind, v, st in exits:
                if kind == 'return':
                    c.check('readinto', f"{own}.readinto result", v is not None and v.op == 'call' and call_name(v) == 'len' and call_args(v)[0] in datas,
                            "does not return the amount of data", ri.where)
    check_fresh(prog, c, cls, read, seek)


def check_fresh(prog: Program, c, cls: Class, read: Func, seek: Optional[Func]):
    need = {}
    for f in (read, seek):
        if f is None:
            continue
        _, exits = flow_of(prog, c, f, cls)
        for kind, v, st in exits:
            if kind != 'raise' or v is None or v.op == 'exc' or any(isinstance(x, tuple) for x in st.rs):  # only at once
                continue
            missing = set()
            for t, p in st.facts.items():
                if t.op == 'cmp' and t.args[0] in ('is', '==') and any(is_const(x, None) for x in t.args[1:]):
                    t = next(x for x in t.args[1:] if not is_const(x, None))
                    p = not p
                a = self_attr(t)
                if a and p is False:
                    missing.add(a)
            if len(missing) == 1:
                need[missing.pop()] = f
    init = cls.find('__init__')
    if init is None or not need:
        return
    _, exits = flow_of(prog, c, init, cls)
    for kind, v, st in exits:
        if kind != 'return':
            continue
        for a, f in need.items():
            value = next((x for (b, k), x in st.heap.items() if b.op == 'self' and k == a), None)
            c.check('fresh', f"{cls.name} {a}", value is None or not is_const(value, None),
                    f"{f.name} raises for a file object that was just constructed because {a} may still be None", init.where)


def wrapped(prog: Program, c, classes):
    """Readers which stop at an internal boundary must be wrapped by something that asks again."""
    for cls in classes:
        if 'read' not in cls.methods:
            continue
        calls = in_loop(cls)
        refilled = set()
        for f in {f for f, _, _ in calls}:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    refilled |= {dotted(t) for t in n.targets if (dotted(t) or '').startswith('self.')}
        limited = []
        for f, call, loop in calls:
            if isinstance(call.func, ast.Attribute) and call.func.attr in ('read', 'read1') and call.args and not loop:
                recv = call.func.value
                if isinstance(recv, ast.Name) and recv.id == 'self' or isinstance(recv, ast.Call) and dotted(recv.func) == 'super':
                    continue
                if bounded_arg(call.args[0], f) or dotted(recv) in refilled:
                    limited.append((f, call))
        if not limited:
            c.check('whole', f"{cls.name}.read", True)
            continue
        for site, ok in constructions(prog, cls):
            c.instance('constructions of partial readers', site)
            c.check('whole', f"{cls.name} constructed in {site.split('(')[0]}", ok,
                    "may return less than requested although the end of the file has not been reached", site)


def bounded_arg(e, f: Func, depth=0) -> bool:
    """The count is bounded by something else than the requested size: a minimum of several values."""
    if isinstance(e, ast.Call) and dotted(e.func) == 'min':
        return True
    if isinstance(e, ast.Name) and depth < 3:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                if bounded_arg(n.value, f, depth + 1):
                    return True
    return any(isinstance(x, ast.IfExp) and any(isinstance(y, ast.Compare) for y in ast.walk(x)) for x in [e])


def constructions(prog: Program, cls: Class):
    subs = [cls, *prog.subclasses(cls)]
    names = {s.name for s in subs}
    buffered = {k.name for k in prog.all_classes() if any(b in BUFFERED for b in k.all_ext_bases())}
    for m in prog.modules.values():
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            wrap = set()
            own_buffered = False
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ''
                    sup = isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super'
                    if d in BUFFERED or d.split('.')[-1] in buffered or (sup and any(isinstance(k, ast.ClassDef) and k.name in buffered and f in k.body for k in ast.walk(m.tree))) \
                            or d.endswith('BufferedReader.__init__'):
                        for a in [*n.args, *[k.value for k in n.keywords]]:
                            for x in ast.walk(a):
                                wrap.add(id(x))
                                if isinstance(x, ast.Name):
                                    wrap.add(x.id)
            for n in walk_own(f):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in names:
                    ok = id(n) in wrap
                    if not ok:
                        for a in ast.walk(f):
                            if isinstance(a, ast.Assign) and a.value is n and all(isinstance(t, ast.Name) and t.id in wrap for t in a.targets):
                                ok = True
                    yield f"{m.rel}:{f.name} (line {n.lineno})", ok


# --------------------------------------------------------------------------- reading at an offset


class AtOffset(Rule):
    initial = ()
    max_depth = 6

    def __init__(self, size, offset):
        self.size, self.offset = size, offset
        self.reads = []

    def inline(self, cx, func, recv):
        if func.name in ('open', '_lookup', 'lookup', 'read'):
            return False
        return super().inline(cx, func, recv)

    def on_call(self, cx, call, st):
        n = call_name(call)
        short = n.split('.')[-1]
        rs = st.rs
        if n == 'os.pread' and len(call_args(call)) == 3:
            self.reads.append((call, call_args(call)[1], call_args(call)[2], True, cx.where()))
        elif n == 'os.lseek' and len(call_args(call)) >= 2:
            rs = (call_args(call)[0], call_args(call)[1], len(call_args(call)) < 3 or 'SEEK_SET' in show(call_args(call)[2]) or is_const(call_args(call)[2], 0))
        elif n == 'os.read':
            t = call_args(call)[0] if call_args(call) else None
            pos, ok = (rs[1], rs[2]) if rs and rs[0] is t else (None, False)
            self.reads.append((call, call_arg(call, 1), pos, ok, cx.where()))
            rs = ()
        elif short == 'seek' and call_recv(call) is not None:
            w = call_arg(call, 1, 'whence')
            rs = (call_recv(call), call_arg(call, 0, 'offset'), w is None or is_const(w, 0) or 'SEEK_SET' in show(w))
        elif short == 'read' and call_recv(call) is not None:
            args = call_args(call)
            if len(args) + len([k for k in call.args[2]]) >= 3:
                self.reads.append((call, call_arg(call, 1, 'size'), call_arg(call, 2, 'offset'), True, cx.where()))
            else:
                pos, ok = (rs[1], rs[2]) if rs and rs[0] is call_recv(call) else (None, False)
                self.reads.append((call, call_arg(call, 0, 'size'), pos, ok, cx.where()))
                rs = ()
        return rs, rs


def offsets(prog: Program, c):
    base = prog.cls('MountSource')
    todo = []
    for k in [base, *prog.subclasses(base)]:
        if 'read' in k.methods:
            todo.append((k, k.methods['read']))
    fm = prog.cls('FuseMount')
    if 'read' in fm.methods:
        todo.append((fm, fm.methods['read']))
    else:
        c.check('offset', 'FuseMount.read', False, "files cannot be read", fm.where)
    for k, f in todo:
        ps = f.params
        names = [p for p in ps if p not in ('self', 'cls')]
        if 'size' in names and 'offset' in names:
            size, off = 'size', 'offset'
        elif len(names) >= 3:
            size, off = names[1], names[2]
        else:
            continue
        ps_, po = mk('param', size), mk('param', off)
        rule = AtOffset(size, off)
        flow = Flow(prog, rule)
        exits = flow.run(f, k)
        c.used(flow, f.where, len(exits))
        c.instance('functions reading at an offset', f"{k.name}.read")
        calls = {r[0]: r for r in rule.reads}
        for kind, v, st in exits:
            if kind != 'return' or v is None:
                continue
            hit = [calls[x] for x in subterms(v) if x in calls]
            construct = f"{k.name}.read"
            if not hit:
                c.check('offset', construct, is_const(v), "returns something else than data which was read", f.where)
                continue
            for call, n, pos, absolute, where in hit:
                c.check('offset', construct + ' size', n is not None and contains(n, ps_) and not contains(n, po) or n is not None and bounded_term(n, ps_),
                        f"reads {show(n)[:60] if n is not None else 'everything'} instead of the requested size", where)
                good = pos is not None and absolute and dict(linear(pos)[0]).get(po) == 1
                c.check('offset', construct + ' offset', good, "reads without having moved to the requested offset", where)


def bounded_term(n: V, size: V) -> bool:
    return n.op == 'call' and call_name(n) == 'min' and size in call_args(n) or n.op == 'call' and call_name(n) == 'max' or n.op == 'phi' and all(bounded_term(x, size) or contains(x, size) for x in n.args[0])
