"""Opened members cover exactly the bytes recorded for them."""

import ast
from typing import Dict, List, Optional, Tuple

from ..flow import Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, const, contains, cval, is_const, mk, show, subterms
from ..model import Class, Func, Program, dotted
from .c07 import linear
from .d01 import READ, VIEWS, file_attr, late_methods
from .regions import difference

EXPLANATION = (
    "Symbolic linear arithmetic over the terms of a path-sensitive dataflow: the region of every view handed out is the recorded "
    "data offset and the recorded size; the joined views map positions to regions exactly; direct reads of the archive file end "
    "at the end of the member; the regions of sparse files alternate between holes and data without gaps."
)


def unphi(v: V):
    if v.op == 'phi':
        for x in v.args[0]:
            yield from unphi(x)
    else:
        yield v


def add(a: V, b: V, sign=1):
    ta, ka = linear(a)
    tb, kb = linear(b)
    acc = dict(ta)
    for t, n in tb:
        acc[t] = acc.get(t, 0) + sign * n
    return {t: n for t, n in acc.items() if n}, ka + sign * kb


def sub_attr(t: V) -> Optional[Tuple[str, V]]:
    if t.op == 'sub' and t.args[0].op in ('attr', 'loopvar'):
        return (t.args[0].args[1], t.args[1])
    return None


def userdata(t: V) -> Optional[str]:
    """Column of the stored row a term is: offset, offsetheader, ..."""
    if t.op != 'attr':
        return None
    b = t.args[0]
    if b.op == 'call' and call_name(b) == 'cast' and len(call_args(b)) == 2:
        b = call_args(b)[1]
    return t.args[1] if b.op == 'call' and call_name(b).endswith('get_index_userdata') else None


class Regions(Rule):
    initial = ()
    max_depth = 7
    exc_exits = False

    def __init__(self, names=()):
        self.names = names
        self.views = []
        self.reads = []
        self.appends = []
        self.append_states = []
        self.zeros = []
        self.raw = []

    def inline(self, cx, func: Func, recv):
        if func.name == 'get_index_userdata':
            return False
        if recv is not None and recv.op == 'self':
            return True
        return recv is None and func.module is cx.entry_module

    def on_call(self, cx, call, st):
        n = call_name(call).split('.')[-1]
        recv = call_recv(call)
        rs = st.rs
        if n == 'ZeroFile' and call_args(call):
            self.zeros.append((call_args(call)[0], cx.where(), st))
        if n in self.names and call.args[0].op == 'cls':
            self.views.append((call, st, cx.where()))
        elif n == 'seek' and recv is not None:
            rs = (recv, call_arg(call, 0, 'offset'), call_arg(call, 1, 'whence'))
        elif n in READ and recv is not None and recv.op != 'self':
            self.reads.append((recv, call_arg(call, 0, 'size'), rs[1] if rs and rs[0] is recv else None, cx.where(), st))
        elif n in ('append', 'add') and call_args(call) and call_args(call)[0].op == 'tuple':
            self.appends.append((call_args(call)[0], cx.where()))
            self.append_states.append(st)
        fn = call.args[0]
        if fn.op == 'attr' and fn.args[0].op == 'self' and len(call_args(call)) == 2:
            self.raw.append((fn.args[1], *call_args(call), cx.where(), st))
        return rs, rs


class Complete(Regions):
    """Follows whether the regions of a sparse file are known to reach its end."""
    initial = frozenset()

    def on_assume(self, cx, cond, pol, st):
        if cond.op == 'cmp' and len(cond.args) == 3 and cond.args[0] in ('<', '<=', '=='):
            op, a, b = cond.args
            if op != '==' and not pol:
                a, b = b, a  # b <= a or b < a
            elif not pol:
                return st.rs
            # here: a <= b (or a == b)
            if missing(a, b) or op == '==' and missing(b, a):
                return st.rs | {'full'}
        return st.rs

    def on_call(self, cx, call, st):
        super().on_call(cx, call, mk_state(st))
        rs = st.rs
        if call_name(call).split('.')[-1] in ('append', 'add') and call_args(call) and call_args(call)[0].op == 'tuple':
            e = call_args(call)[0].args[0]
            if len(e) == 3 and isinstance(cval(e[0]), bool):
                rs = rs - {'full'} | {'began'}
                plus = [x for x, n in linear(e[2])[0] if n == 1]
                if cval(e[0]) and len(plus) == 1 and index_of(plus[0]) is None:
                    rs = rs | {'full'}
        return rs, rs


def mk_state(st):
    class Plain:
        rs = ()
        facts = st.facts
        heap = st.heap
        env = st.env
    return Plain


def missing(a: V, b: V) -> bool:
    """The difference is what is missing after the end of the data so far."""
    t, k = add(a, b, -1)
    plus = [x for x, n in t.items() if n == 1]
    minus = [x for x, n in t.items() if n == -1]
    if k != 0 or len(plus) != 1 or len(plus) + len(minus) != len(t) or not whole(plus[0]):
        return False
    return len(minus) == 1 and ends(minus[0]) or {index_of(x) for x in minus} == {0, 1}


def ends(v: V) -> bool:
    """The end of the data so far."""
    return any({index_of(z) for z, n in linear(y)[0]} == {0, 1} for y in values(v))


def whole(v: V) -> bool:
    """A size that is not part of the description of a region."""
    for x in unphi(v):
        t, k = linear(x)
        if k != 0 or len(t) != 1 or x.op == 'loopvar' or not all(n == 1 and index_of(y) not in (0, 1) for y, n in t):
            return False
    return True


def analyse(prog, c, cls: Class, name: str, names=()):
    f = cls.find(name)
    rule = Regions(names)
    flow = Flow(prog, rule)
    exits = flow.run(f, cls)
    c.used(flow, f.where, len(exits))
    return f, rule, exits


def run(prog: Program, c):
    c.rule('region', "the region of an opened member is its recorded data offset and size")
    c.rule('bounded', "reads of the archive file for a member do not go beyond its end")
    c.rule('mapping', "positions in joined views are mapped to the region containing them, without gaps and overlaps")
    c.rule('length', "file objects with a known length return nothing beyond it")
    c.rule('sparse', "the regions of sparse files alternate between holes and data and add up to the real size")
    base = prog.cls('MountSource')
    names = {v for v in VIEWS if prog.cls(v, False)}
    for cls in prog.subclasses(base):
        f = cls.find('open')
        if f is None or f.cls is base or f.is_abstract:
            continue
        f, rule, exits = analyse(prog, c, cls, 'open', names)
        regions(c, cls, f, rule)
        if rule.appends:
            sparse(c, cls, f, rule)
            complete = Complete(names)
            flow = Flow(prog, complete)
            exits = flow.run(f, cls)
            c.used(flow, f.where, len(exits))
            for kind, v, st in exits:
                if kind == 'return' and 'began' in st.rs:
                    c.check('sparse', f"{cls.name}.open complete", 'full' in st.rs, "the regions of a sparse file may end before the real size", f.where)
        for name in sorted(late_methods(prog, cls, base)):
            g = cls.find(name)
            if name.startswith('_') or g is None or g.cls is base or name not in ('read', 'open') and not direct(cls, g):
                continue
            direct_reads(prog, c, cls, name)
    for k in ('RawStenciledFile', 'RawJoinedFileFromFactory'):
        cls = prog.cls(k, False)
        if cls is not None:
            mapping(prog, c, cls)
    lengths(prog, c)
    constant_bounds(prog, c, names)
    c.floor('views handed out', 3)
    c.floor('reads of joined views', 1)


def constant_bounds(prog: Program, c, names):
    """Views of other files begin at a recorded offset or the start and are not shortened by constants; no region is dropped."""
    for f in prog.all_funcs():
        if isinstance(f.node, ast.Lambda):
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in names):
                continue
            regions_ = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'fileStencils'), None)
            cut = isinstance(regions_, ast.Subscript) and isinstance(regions_.slice, ast.Slice)
            c.check('region', f"{f.where} regions", not cut, f"some regions are dropped: {ast.unparse(regions_)[:60] if regions_ is not None else ''}", f.where)
            if not isinstance(regions_, (ast.List, ast.Tuple)):
                continue
            for e in regions_.elts:
                if not (isinstance(e, ast.Tuple) and len(e.elts) == 3):
                    continue
                off, size = e.elts[1], e.elts[2]
                d = difference(size, ast.Constant(value=0))
                c.check('region', f"{f.where} start", not (isinstance(off, ast.Constant) and off.value != 0), f"begins at {ast.unparse(off)}", f.where)
                c.check('region', f"{f.where} size", d is None or d[1] == 0 or not d[0], f"has {ast.unparse(size)[:60]} bytes", f.where)


def direct(cls: Class, f: Func) -> bool:
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in READ and (dotted(n.func.value) or '').startswith('self.') and
               dotted(n.func.value).count('.') == 1 and file_attr(cls, dotted(n.func.value)[5:]) for n in ast.walk(f.node))


def regions(c, cls: Class, f: Func, rule: Regions):
    for call, st, where in rule.views:
        files = call_args(call)[0] if call_args(call) else next(iter(call_kw(call).values()), None)
        if files is None:
            continue
        c.instance('views handed out', f"{cls.name}.open {where.rsplit(':', 1)[-1]}")
        for v in unphi(files):
            elements = v.args[0] if v.op in ('list', 'tuple') else ()
            if v.op == 'comp':
                for t in v.args[1]:
                    if t.op == 'tuple' and len(t.args[0]) == 3:
                        pair(c, cls, f, t, where)
                continue
            for t in elements:
                if t.op != 'tuple' or len(t.args[0]) != 3:
                    continue
                _, off, size = t.args[0]
                construct = f"{cls.name}.open"
                if off.op == 'item' or size.op == 'item':
                    pair(c, cls, f, t, where)
                    continue
                tell = any(x.op == 'call' and call_name(x).split('.')[-1] in ('tell', 'seek') for x in subterms(size))
                column = {userdata(x) for x in subterms(off)} - {None}
                if tell:  # a view until the end of the archive, used to parse the header of the member
                    terms, k = linear(off)
                    c.check('region', construct + ' header', len(terms) == 1 and column <= {'offsetheader'} and k == 0,
                            f"parses the header of the member at {show(off)[:80]}", where)
                    continue
                if any(x.op == 'attr' and x.args[1] == 'size' and x.args[0] is mk('param', 'fileInfo') for x in subterms(size)) or column:
                    terms, k = linear(off)
                    c.check('region', construct + ' offset', len(terms) == 1 and column == {'offset'} and k == 0,
                            f"the member starts at {show(off)[:80]} instead of its recorded data offset", where)
                    terms, k = linear(size)
                    d = dict(terms)
                    good = k == 0 and len(d) == 1 and all(n == 1 and x.op == 'attr' and x.args[1] == 'size' for x, n in d.items())
                    c.check('region', construct + ' size', good, f"the member has {show(size)[:80]} bytes instead of its recorded size", where)


def pair(c, cls: Class, f: Func, t: V, where):
    """Offset and size taken from the same stored tuple."""
    _, off, size = t.args[0]
    a, b = index_of(off), index_of(size)
    if a is None or b is None:
        return
    c.check('region', f"{cls.name}.open ranges", b == a + 1 and base_of(off) is base_of(size),
            f"takes {show(off)[:50]} as offset and {show(size)[:50]} as size", where)


def index_of(v: V):
    if v.op in ('item', 'sub') and len(v.args) > 1:
        i = v.args[1]
        return cval(i) if isinstance(i, V) and isinstance(cval(i), int) else i if isinstance(i, int) else None
    return None


def base_of(v: V):
    return v.args[0]


def direct_reads(prog: Program, c, cls: Class, name: str):
    f, rule, exits = analyse(prog, c, cls, name)
    for recv, size, pos, where, st in rule.reads:
        while recv.op in ('sub', 'item'):
            recv = recv.args[0]
        if recv.op != 'attr' or recv.args[0].op != 'self' or not file_attr(cls, recv.args[1]):
            continue
        c.instance('direct reads', f"{cls.name}.{name}")
        construct = f"{cls.name}.{name} {recv.args[1]}"
        if pos is None:
            continue
        ok = False
        if size is not None:
            for x in unphi(size):
                ok = any(ends_inside(y, pos) for y in options(x)) or at_most(st, x, lambda y: any(ends_inside(z, pos) for z in options(y)))
                if not ok:
                    break
        c.check('bounded', construct, ok, f"reads {show(size)[:60] if size is not None else 'everything'} from {show(pos)[:60]} on without stopping at the end of the member", where)


def options(v: V):
    """A minimum is bounded by any of its operands; max(0, x) by x."""
    yield v
    if v.op == 'call' and call_name(v) == 'min':
        for x in call_args(v):
            yield from options(x)
    if v.op == 'call' and call_name(v) == 'max' and any(is_const(x, 0) for x in call_args(v)):
        for x in call_args(v):
            yield from options(x)


def at_most(st, v: V, bound) -> bool:
    """The path conditions say that v is not larger than something bounded."""
    for t, truth in st.facts.items():
        if t.op == 'cmp' and t.args[0] in ('<', '<=', '>', '>='):
            op, a, b = t.args[:3]
            if op in ('>', '>='):
                a, b = b, a
            small, large = (a, b) if truth else (b, a)
            if small is v and bound(large):
                return True
    return False


def ends_inside(size: V, pos: V) -> bool:
    """pos + size is the end of the member: recorded offset plus recorded size, or the recorded end."""
    terms, k = add(pos, size)
    kinds = []
    for t, n in terms.items():
        u = userdata(t)
        if n != 1:
            return False
        if u is not None:
            kinds.append(u)
        elif t.op == 'attr' and t.args[1] == 'size':
            kinds.append('size')
        else:
            return False
    return k <= 0 and (sorted(kinds) == ['offset', 'size'] or kinds == ['offset'] and userdata_start(pos))


def userdata_start(pos: V) -> bool:
    return userdata(pos) == 'offsetheader'


# --------------------------------------------------------------------------- joined views


def mapping(prog: Program, c, cls: Class):
    f, rule, exits = analyse(prog, c, cls, 'read')
    seen = 0
    for recv, size, pos, where, st in rule.reads:
        if pos is None or size is None:
            continue
        seen += 1
        c.instance('reads of joined views', f"{cls.name}.read")
        terms, k = linear(pos)
        d = dict(terms)
        subs = {t: n for t, n in d.items() if sub_attr(t)}
        rest = {t: n for t, n in d.items() if t not in subs}
        idx = {sub_attr(t)[1] for t in subs}
        before = [t for t, n in subs.items() if n == -1]
        ok = k == 0 and len(before) == 1 and len(idx) == 1 and len(rest) == 1 and all(n == 1 for n in rest.values()) and all(n == 1 for t, n in subs.items() if t not in before)
        c.check('mapping', f"{cls.name} position", ok, f"moves to {show(pos)[:100]}", where)
        if not ok:
            continue
        P = next(iter(rest))
        good = False
        for x in unphi(size):
            good = False
            for y in options(x):
                t, n = add(pos, y)
                good = good or (n == 0 and all(v == 1 and sub_attr(u) and sub_attr(u)[1] in idx for u, v in t.items()) and before[0] not in t and len(t) == len(subs))
            if not good:
                break
        c.check('mapping', f"{cls.name} amount", good, f"reads {show(size)[:100]}", where)
        i = next(iter(idx))
        for j in indexes(i):
            search(c, cls, j, P, before[0], where)
    c.check('mapping', f"{cls.name} reads", seen > 0, "never reads from a region after having moved to it", f.where)
    # starts of the regions in the joined file
    init = cls.find('__init__')
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and n.args and isinstance(n.args[0], ast.BinOp):
            x = n.args[0]
            own = [y for y in (x.left, x.right) if isinstance(y, ast.Subscript) and ast.dump(y.value) == ast.dump(n.func.value)]
            if own:
                last = isinstance(own[0].slice, ast.UnaryOp) and isinstance(own[0].slice.operand, ast.Constant) and own[0].slice.operand.value == 1
                c.check('mapping', f"{cls.name} sums", isinstance(x.op, ast.Add) and last, "the starts of the regions are not the sums of the sizes before", init.where)
    # the selections of regions must agree
    shapes = {}
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.ListComp) and (dotted(n.targets[0]) or '').startswith('self.'):
            a = dotted(n.targets[0])
            if isinstance(n.value.elt, ast.Subscript) and dotted(n.value.elt.value) == a:
                names: Dict[str, str] = {}
                for t in ast.walk(n.value):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        names.setdefault(t.id, f"_{len(names)}")
                same = ast.parse(ast.unparse(ast.ListComp(elt=ast.Subscript(value=ast.Name('_'), slice=n.value.elt.slice), generators=n.value.generators)))
                for t in ast.walk(same):
                    if isinstance(t, ast.Name):
                        t.id = names.get(t.id, t.id)
                shapes[a] = ast.dump(same)
    if shapes:
        c.check('mapping', f"{cls.name} selection", len(set(shapes.values())) == 1 and len(shapes) in (0, 3), "regions are selected differently for files, offsets, and sizes", init.where)

def indexes(v: V):
    """Alternatives of an index, looking through max(0, x)."""
    for x in unphi(v):
        if x.op == 'call' and call_name(x) == 'max':
            for y in call_args(x):
                if not is_const(y):
                    yield from indexes(y)
        else:
            yield x


def search(c, cls: Class, i: V, P: V, before: V, where):
    t, n = linear(i)
    b = [x for x, m in t if m == 1]
    if len(b) == 1 and b[0].op == 'call' and call_name(b[0]).split('.')[-1] in ('bisect_left', 'bisect_right', 'bisect'):
        args = call_args(b[0])
        left = call_name(b[0]).endswith('bisect_left')
        diff = add(args[1], P, -1) if len(args) > 1 else ({}, None)
        right = n == -1 and not diff[0] and diff[1] == (1 if left else 0)
        same = args[0].op == before.args[0].op and args[0].args[1] == before.args[0].args[1]
        c.check('mapping', f"{cls.name} search", right and same, f"looks for the region with {show(i)[:100]}", where)


# --------------------------------------------------------------------------- lengths


def lengths(prog: Program, c):
    cls = prog.cls('LambdaReaderFile', False)
    if cls is not None:
        f, rule, _ = analyse(prog, c, cls, 'read')
        n = 0
        for name, off, size, where, st in rule.raw:
            if not any(x.op == 'attr' and x.args[1] == 'size' for x in subterms(size)) and not contains(size, mk('param', 'size')):
                continue
            n += 1
            ok = bool(size) and all(any(self_size(y, off) for y in options(x)) or at_most(st, x, lambda y: any(self_size(z, off) for z in options(y))) for x in unphi(size))
            c.check('length', 'LambdaReaderFile.read', ok, f"requests {show(size)[:80]} at {show(off)[:40]}", where)
        c.check('length', 'LambdaReaderFile.read requests', n > 0, "never requests data", f.where)
    cls = prog.cls('LibarchiveFile', False)
    if cls is not None:
        for name in ('read', 'seek'):
            f = cls.find(name)
            if f is None:
                continue
            rule = Decode()
            flow = Flow(prog, rule)
            exits = flow.run(f, cls)
            c.used(flow, f.where, len(exits))
            for size, where in rule.sizes:
                ok = all(any(any(z.op == 'attr' and z.args[1] == 'fileSize' or z.op == 'attr' and 'size' in z.args[1].lower() and z.args[0].op == 'self' and 'max' not in z.args[1].lower()
                                 for z, m in linear(y)[0] if m == 1) for y in options(x)) for x in unphi(size))
                c.check('length', 'LibarchiveFile', ok, f"decodes {show(size)[:80]}", where)


class Decode(Regions):
    def __init__(self):
        super().__init__()
        self.sizes = []

    def on_call(self, cx, call, st):
        if call_name(call).split('.')[-1] == 'read_data' and len(call_args(call)) == 2:
            self.sizes.append((call_args(call)[1], cx.where()))
        return super().on_call(cx, call, st)


def self_size(v: V, off: V) -> bool:
    t, k = add(v, off)
    return k <= 0 and len(t) == 1 and all(n == 1 and x.op == 'attr' and x.args[1] == 'size' for x, n in t.items())


# --------------------------------------------------------------------------- sparse files


def sparse(c, cls: Class, f: Func, rule: Regions):
    """Appended regions: holes reach from the end of the data before to the start of the next data."""
    holes = datas = 0
    sites: Dict[str, bool] = {}
    final = False
    orders: Dict[str, list] = {}
    for (t, where), st in zip(rule.appends, rule.append_states):
        e = t.args[0]
        if len(e) != 3 or not isinstance(cval(e[0]), bool):
            continue
        construct = f"{cls.name}.open"
        if cval(e[0]):
            holes += 1
            terms, k = linear(e[2])
            minus = [x for x, n in terms if n == -1]
            plus = [x for x, n in terms if n == 1]
            ok = k == 0 and len(plus) == 1 and len(minus) <= 1 and len(terms) == len(plus) + len(minus)
            sites[where] = sites.get(where, False) or bool(minus)
            for x in minus:
                for y in values(x):
                    if is_const(y, 0):
                        continue
                    tt, kk = linear(y)
                    idx = sorted(index_of(z) for z, n in tt if n == 1 and index_of(z) is not None)
                    ok = ok and kk == 0 and idx == [0, 1] and len(tt) == 2
            final = final or len(plus) == 1 and index_of(plus[0]) is None
            c.check('sparse', construct + ' holes', ok, f"a hole of {show(e[2])[:80]} bytes", where)
        else:
            datas += 1
            if index_of(e[2]) == 1:
                orders.setdefault(where, []).append(ordered(st, base_of(e[2])))
            c.check('sparse', construct + ' data size', index_of(e[2]) == 1, f"data of {show(e[2])[:80]} bytes", where)
            for y in values(e[1]):
                tt, kk = linear(y)
                step = [z for z, n in tt if index_of(z) is not None]
                start = [z for z, n in tt if z.op == 'attr' and z.args[1] == 'offset_data']
                head = [z for z, n in tt if userdata(z)]
                again = [z for z, n in tt if z.op == 'loopvar']
                ok = all(n == 1 for _, n in tt) and all(index_of(z) == 1 for z in step) and kk == 0 and (bool(again) or len(start) == 1 and {userdata(z) for z in head} == {'offsetheader'})
                c.check('sparse', construct + ' data position', ok, f"data at {show(y)[:100]}", where)
            if e[1].op == 'loopvar':
                c.check('sparse', construct + ' data advances', any(index_of(z) == 1 for y in values(e[1]) for z, n in linear(y)[0]), "all data is taken from the same position", where)
    for where, subtracts in sites.items():
        c.check('sparse', f"{cls.name}.open hole starts", subtracts, "the size of a hole does not depend on the end of the data before it", where)
    for where, o in orders.items():
        c.check('sparse', f"{cls.name}.open order", None not in o and 'end' in o, "data is appended although it may begin before the end of the data before it", where)
    if holes:
        c.check('sparse', f"{cls.name}.open last hole", final, "nothing fills the file between the last data and the real size", f.where)
        for v, where, st in rule.zeros:
            small = [x for x in subterms(v) if x.op == 'call' and call_name(x) == 'min']
            for x in subterms(v):
                if x.op == 'call' and call_name(x) == 'max' and len(call_args(x)) == 1 and call_args(x)[0].op == 'comp':
                    known = call_arg(x, 9, 'default') is not None or any(contains(t, call_args(x)[0]) for t, _ in st.facts.items())
                    c.check('sparse', f"{cls.name}.open no holes", bool(known), "fails for sparse files without any hole", where)
            c.check('sparse', f"{cls.name}.open zeros", not small and not is_const(v), f"the holes are taken from {show(v)[:80]} zeros", where)
    if holes or datas:
        moving = any(t.args[0][1].op == 'loopvar' for t, _ in rule.appends if len(t.args[0]) == 3 and cval(t.args[0][0]) is False)
        c.check('sparse', f"{cls.name}.open regions", holes > 0 and datas > 0, "does not produce holes and data", f.where)
        c.check('sparse', f"{cls.name}.open data moves", moving, "all data is taken from the same position", f.where)


def ordered(st, item: V) -> Optional[str]:
    """The path conditions say that the item does not begin before the end of the data before it, which is 0 for the first one."""
    found = None
    for t, truth in st.facts.items():
        if t.op == 'cmp' and t.args[0] in ('<', '<=', '>', '>=', '=='):
            op, a, b = t.args[:3]
            if op in ('<', '<='):
                a, b = b, a
            pairs = [(a, b), (b, a)] if op == '==' and truth else [] if op == '==' else [(a, b) if truth else (b, a)]
            for large, small in pairs:
                if index_of(large) == 0 and base_of(large) is item:
                    if not small.op == 'const':
                        return 'end'
                    if is_const(small, 0):
                        found = 'start'
    return found


def values(v: V, depth=0):
    if depth > 6:
        return
    if v.op == 'phi':
        for x in v.args[0]:
            yield from values(x, depth + 1)
    elif v.op == 'loopvar':
        if len(v.args) > 2 and isinstance(v.args[2], V) and not is_const(v.args[2]):
            yield from values(v.args[2], depth + 1)
    else:
        yield v
