"""File infos returned by a layer lead back to the entry and the mount source they came from."""

import ast

from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, contains, cval, is_const, mk, show, subterms
from ..model import Program
from .layers import ACCESS, Layer, container_annotation, related, run_layers, userdata_of

EXPLANATION = (
    "Typestate over the interface of every compositing layer: the number of marks on a file info is tracked through every path and "
    "exception edge. What lookup and list return must carry exactly the layer's mark, accesses must remove it before forwarding, restore "
    "it on every exit and reach the child which the mark identifies."
)


class Plain(Rule):
    initial = ()
    max_depth = 3
    exc_exits = False

    def may_raise(self, cx, call):
        return False


def linear(v):
    from .c07 import linear as sums

    return sums(v)


def run(prog: Program, c):
    c.rule('lookup', "every file info returned by lookup carries exactly the layer's own mark")
    c.rule('list', "every file info returned by list carries the layer's own mark")
    c.rule('mark', "the mark identifies the mount source which returned the file info")
    c.rule('forward', "accesses hand the file info to the child without the layer's mark")
    c.rule('restore', "accesses leave the caller's file info as it was on every exit, including exceptions")
    c.rule('target', "accesses reach the mount source identified by the mark")
    c.rule('source', "get_mount_source returns a file info of the returned mount source")
    ls = run_layers(prog, c)
    for L in ls:
        c.instance('layers', L.cls.name)
        check_queries(c, L)
        tokens_agree(c, L)
        check_access(c, L)
    c.floor('layers', 3)


def info_fields(L: Layer):
    """Names of the attributes, also of the layer's own data classes, which hold file infos."""
    out = set()
    for n in ast.walk(L.cls.node):
        if isinstance(n, ast.AnnAssign) and 'FileInfo' in ast.unparse(n.annotation) and not any(x in ast.unparse(n.annotation) for x in ('dict', 'list', 'Dict', 'List', 'Iterable')):
            t = n.target
            out.add(t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else '')
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split('.')[-1] in ('FileInfo', 'create_root_file_info'):
            out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out - {''}


def uncopied(v, fields):
    """Stored file infos which are part of a value themselves, not only their copies or attributes."""
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            yield from uncopied(x, fields)
        return
    if not isinstance(v, V):
        return
    if v.op == 'call':
        if call_name(v) == '.clone':
            return
    if v.op == 'attr':
        if v.args[1] in fields:
            yield v
        return
    if v.op in ('cmp', 'iter', 'item', 'key', 'loopvar', 'index'):
        return
    if v.op == 'call' and call_recv(v) is not None:
        yield from uncopied(tuple(call_args(v)), fields)
        return
    yield from uncopied(tuple(v.args), fields)


def tokens_agree(c, L: Layer):
    """What is mounted under a key leads back to this key."""
    for op, (rule, exits, f) in L.runs.items():
        for container, key, value, literals, where in rule.keyed:
            for F, T in literals.items():
                if contains(value, F):
                    c.check('mark', f"{L.cls.name} mounts", T is key, f"the mark {show(T)[:40]} of the file info differs from {show(key)[:40]} under which it can be found", where)


def check_queries(c, L: Layer):
    name = L.cls.name
    k = L.k
    for op in ('lookup',):
        if op not in L.runs:
            c.check('lookup', f"{name}.{op}", False, "is not implemented", L.cls.where)
            continue
        rule, exits, f = L.runs[op]
        n = 0
        for kind, v, st in exits:
            if kind != 'return' or v is NONE or v.op == 'const':
                continue
            for w in (v.args[0] if v.op == 'phi' and not rule.delta(st.rs, v) and rule.absolute(st.rs, v) is None and st.facts.get(v) is not False else (v,)):
                if w is NONE or st.facts.get(w) is False:
                    continue
                n += 1
                a = rule.absolute(st.rs, w)
                b, d = rule.base(st.rs, w)
                if a is None and (b.op == 'attr' or w.op == 'attr'):
                    # A stored file info: the marks it was stored with are checked where it is stored.
                    bal = k if d == 0 else k + d
                    if w.op == 'attr':
                        c.check('lookup', f"{name}.{op} returns {show(w)[:40]}", False, "returns a stored file info without copying it, so that callers can modify it", f.where)
                        continue
                    stored(c, L, b, f)
                else:
                    bal = a if a is not None else d
                c.check('lookup', f"{name}.{op} returns {call_name(w) if w.op == 'call' else w.op}", bal == k,
                        f"a returned file info carries {bal} instead of {k} marks", f.where)
        c.check('lookup', f"{name}.{op} returns something", n > 0, "never returns a file info", f.where)
        marks(c, L, rule, op, f)
    if 'list' in L.runs:
        rule, exits, f = L.runs['list']
        fields = info_fields(L)
        if k:
            c.check('list', f"{name}.list forwards", any(x[0] == 'list' for x in rule.child), "never lists a child", f.where)
        for v, where in rule.listed:
            shared = list(uncopied(v, fields))
            c.check('list', f"{name}.list copies", not shared, f"lists the stored file info {show(shared[0])[:50] if shared else ''} without copying it", where)
        for kind, v, st in exits:
            if kind != 'return' or v is NONE:
                continue
            shared = list(uncopied(v, fields))
            c.check('list', f"{name}.list copies", not shared, f"lists the stored file info {show(shared[0])[:50] if shared else ''} without copying it", f.where)
            left = [x for x in st.rs if x[0] == 'list'] if k else []
            pend = [x for x in st.rs if x[0] == 'pend'] if k else []
            c.check('list', f"{name}.list marks", not left, "file infos listed by a child are returned without the layer's mark", f.where)
            c.check('list', f"{name}.list marks each", not pend, "a file info listed by a child is left without the layer's mark", f.where)
            over = [x for x in st.rs if x[0] == 'd' and x[2] > 0]
            c.check('list', f"{name}.list marks once", not over, f"{len(over)} listed file info gets an additional mark", f.where)
        marks(c, L, rule, 'list', f)


def stored(c, L: Layer, attr: V, f):
    """Every value stored under this attribute name carries the layer's mark."""
    field = attr.args[1]
    seen = False
    for op, (rule, exits, g) in L.runs.items():
        for kind, v, st in exits:
            for (b, key), val in st.heap.items():
                if key == field and isinstance(b, V) and b.op == 'self':
                    n = rule.absolute(st.rs, val)
                    if n is None:
                        n = rule.base(st.rs, val)[1]
                    seen = True
                    c.check('lookup', f"{L.cls.name} stores {field}", n == L.k, f"a file info with {n} instead of {L.k} marks is stored", g.where)
        for call, rs, where in rule.holders:
            fn = call.args[0]
            names = [x.arg for x in ()]
            cand = list(call_kw(call).items())
            cls = fn.args[0] if fn.op == 'cls' else None
            pos = holder_fields(L, call_name(call).split('.')[-1])
            cand += list(zip(pos, call_args(call)))
            for key, val in cand:
                if key == field:
                    n = rule.absolute(rs, val)
                    if n is None:
                        n = rule.base(rs, val)[1]
                    seen = True
                    c.check('lookup', f"{L.cls.name} stores {field}", n == L.k, f"a file info with {n} instead of {L.k} marks is stored", where)
    return seen


def holder_fields(L: Layer, name: str):
    for k in L.cls.mro():
        for n in ast.walk(k.node):
            if isinstance(n, ast.ClassDef) and n.name == name:
                return [s.target.id for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    for n in ast.walk(L.cls.module.tree):
        if isinstance(n, ast.ClassDef) and n.name == name:
            return [s.target.id for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    return []


def marks(c, L: Layer, rule, op, f):
    """The pushed token identifies the child whose result is marked."""
    for n, call, recv, rs, st, w in rule.child:
        path = call_arg(call, 0, 'path')
        for F, T, where, rs2 in rule.pushes:
            if path is None or rule.base(rs2, F)[0] is not call:
                continue
            pairs = [(T, path)]
            if T.op == 'sub' and path.op == 'sub' and T.args[0] is path.args[0] and T.args[0].op == 'call' and T.args[1].op == 'const' and path.args[1].op == 'const':
                g = L.cls.find(call_name(T.args[0]).lstrip('.'))
                if g is not None:
                    key = (g.where, cval(T.args[1]), cval(path.args[1]))
                    if key not in L.splits:
                        L.splits[key] = [
                            (v.args[0][key[1]], v.args[0][key[2]]) for kind, v, st in Flow(L.prog, Plain()).run(g, L.cls)
                            if kind == 'return' and v.op == 'tuple' and len(v.args[0]) > max(key[1:])
                        ]
                    pairs = L.splits[key]
            for head, tail in pairs:
                heads = [x for x in subterms(head) if x.op == 'sub' and x.args[1].op == 'slice' and is_const(x.args[1].args[0], None)]
                tails = [x for x in subterms(tail) if x.op == 'sub' and x.args[1].op == 'slice' and is_const(x.args[1].args[1], None)]
                for h in heads:
                    for t in tails:
                        if h.args[0] is t.args[0]:
                            c.check('mark', f"{L.cls.name}.{op} splits", linear(h.args[1].args[1]) == linear(t.args[1].args[0]),
                                    "the mark and the path inside of the child do not make up the requested path", where)
    results = {call: recv for n, call, recv, rs, st, w in rule.child if n in ('lookup', 'list')}
    for F, T, where, rs in rule.pushes:
        src = F
        b, _ = rule.base(rs, F)
        kids = [(call, recv) for call, recv in results.items() if b is call or (b.op in ('item', 'iter', 'sub', 'loopvar', 'phi') and contains(b, call))]
        for call, recv in kids:
            if b.op in ('phi', 'loopvar'):
                continue
            c.check('mark', f"{L.cls.name}.{op} marks {call_name(call)}", related(T, recv, call),
                    f"the mark {show(T)[:40]} does not identify the mount source {show(recv)[:40]}", where)


def check_access(c, L: Layer):
    name, k = L.cls.name, L.k
    for op in sorted(ACCESS):
        if op not in L.runs:
            continue  # inherited defaults only call other operations of the same object
        rule, exits, f = L.runs[op]
        if f.cls is not None and f.cls.name == 'MountSource':
            continue
        params = [p for p in f.params if p != 'self']
        P = mk('param', params[0]) if params else None
        n = 0
        for cn, call, recv, rs, st, where in rule.child:
            if cn not in ACCESS:
                continue
            n += 1
            A = call_arg(call, 0, 'fileInfo')
            construct = f"{name}.{op} calls {cn}"
            if A is None:
                c.check('forward', construct, False, "no file info is handed over", where)
                continue
            deep = A.op == 'sub' and is_const(A.args[1], 2) and A.args[0].op == 'call' and call_name(A.args[0]) == '.get_mount_source'
            if deep:
                ok = recv.op == 'sub' and recv.args[0] is A.args[0] and is_const(recv.args[1], 1)
                c.check('target', construct, ok, "the file info and the mount source are not those returned by get_mount_source", where)
                continue
            b, d = rule.base(rs, A)
            ok = b is P and d == -k
            c.check('forward', construct, ok, f"hands over {show(A)[:40]} with {-d if b is P else '?'} instead of {k} removed marks", where)
            tokens = [p for p, F in rule.pops.items() if rule.base(rs, F)[0] is P or F is P or F is A]
            ud = [x for x in subterms(recv) if x.op == 'sub' and userdata_of(x.args[0]) is not None and is_const(x.args[1], -1)]
            if k:
                ok = any(contains(recv, t) for t in tokens) or bool(ud) or single(L, recv)
                c.check('target', construct, ok, f"the mount source {show(recv)[:50]} is not the one identified by the mark", where)
                typed(c, L, recv, st, construct, where)
            if op == 'get_mount_source' and k:
                c.check('source', f"{name}.{op}", A is not P, "hands over the caller's file info, so that its mark reappears in the returned one", where)
        if op != 'get_mount_source':
            c.check('forward', f"{name}.{op} reaches a child", n > 0, "never accesses a child", f.where)
        for kind, v, st in exits:
            d = rule.delta(st.rs, P)
            a = rule.absolute(st.rs, P)
            c.check('restore', f"{name}.{op} {kind}", d == 0 and a is None, f"leaves {d:+d} marks on the caller's file info when it {kind}s" if a is None else "replaces the marks of the caller's file info", f.where)
            if op == 'get_mount_source' and kind == 'return' and v.op == 'tuple' and len(v.args[0]) == 3:
                mp, src, info = v.args[0]
                if src.op == 'self':
                    b, d = rule.base(st.rs, info)
                    c.check('source', f"{name}.{op} returns itself", b is P and d == 0, "returns itself together with a file info that does not carry its mark", f.where)
                elif src.op == 'sub':
                    ok = info.op == 'sub' and info.args[0] is src.args[0] and is_const(src.args[1], 1) and is_const(info.args[1], 2)
                    c.check('source', f"{name}.{op} returns the child", ok, "mount source and file info are not those returned by the child", f.where)
                    if keyed(L):
                        inner = [x for x in subterms(mp) if x.op == 'sub' and x.args[0] is src.args[0] and is_const(x.args[1], 0)]
                        toks = [x for x in outside(mp, set(inner)) if x in rule.pops or (x.op == 'sub' and userdata_of(x.args[0]) is not None)]
                        c.check('source', f"{name}.{op} mount point", bool(toks) and bool(inner), "the mount point does not consist of the layer's and the child's mount point", f.where)


def outside(v: V, stop):
    if v in stop:
        return
    yield v
    todo = [v.args]
    while todo:
        a = todo.pop()
        for x in a:
            if isinstance(x, V):
                yield from outside(x, stop)
            elif isinstance(x, tuple):
                todo.append(x)


def keyed(L: Layer) -> bool:
    """The marks are paths: they are used as keys to find the child."""
    rule, _, _ = L.runs['get_mount_source']
    for cn, call, recv, rs, st, where in rule.child:
        if cn == 'get_mount_source' and recv not in rule.pops and any(contains(recv, t) and recv is not t for t in [*rule.pops, *[x for x in subterms(recv) if x.op == 'sub' and userdata_of(x.args[0]) is not None]]):
            return True
    return False


def single(L: Layer, recv: V) -> bool:
    """The layer has a single child stored in an attribute which is a mount source itself."""
    if recv.op == 'attr' and recv.args[0].op == 'self':
        ann = container_annotation(L.cls, recv.args[1])
        return ann is None or ann.strip("'\"") in ('MountSource',)
    return False


def typed(c, L: Layer, recv: V, st, construct, where):
    """A child taken from a recursive container must have been recognised as a mount source."""
    for x in subterms(recv):
        if x.op == 'attr' and x.args[0].op == 'self':
            ann = container_annotation(L.cls, x.args[1])
            if ann and 'Any' in ann:
                fact = any(
                    p and k.op == 'call' and call_name(k) == 'isinstance' and call_args(k)[0] is recv and 'MountSource' in show(call_args(k)[1])
                    for k, p in st.facts.items()
                )
                c.check('target', f"{construct} type", fact, f"{show(recv)[:50]} may be a folder instead of a mount source", where)
