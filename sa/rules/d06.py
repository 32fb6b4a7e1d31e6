"""Finding the backend for a file: format checks and failing backends leave no traces and stop nothing."""

import ast

from ..flow import Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, is_const, mk, show, subterms
from ..model import AnalysisBroken, Program, walk_own

EXPLANATION = (
    "Typestate dataflow over the functions which look for the backend of a file: the position of the shared file object on each "
    "path to a format check or backend, containment of their exceptions inside of the loop, the reasons for skipping a backend and the order of the loop; "
    "plus an effect check that format checks never close or write to the file they look at."
)
TABLE = 'ARCHIVE_BACKENDS'
NEUTRAL = ('closed', 'tell', 'seekable', 'readable', 'writable', 'isatty', 'fileno', 'getattr', 'hasattr', 'isinstance', 'callable', 'dir', 'str', 'repr', 'print', 'type')
LOGGING = ('debug', 'info', 'warning', 'error', 'exception', 'log')


def is_backend_open(call: V) -> bool:
    """Call of the open function of an entry of the backend table."""
    f = call.args[0]
    return isinstance(f, V) and f.op == 'attr' and f.args[1] == 'open' and any(
        x.op in ('global', 'name', 'ext', 'modvar', 'var', 'attr') and str(x.args[-1]).endswith(TABLE) for x in subterms(f)) or (
        isinstance(f, V) and f.op == 'attr' and f.args[1] == 'open' and TABLE in show(f))


def is_check(call: V) -> bool:
    f = call.args[0]
    return isinstance(f, V) and f.op == 'attr' and f.args[1] == 'checkHeader'


def is_table(v: V) -> bool:
    return isinstance(v, V) and (v.op in ('global', 'attr') and v.args[-1] == TABLE or v.op == 'call' and call_name(v) == '.keys' and is_table(call_recv(v)))


def looks(call: V) -> bool:
    return call.op == 'call' and call_name(call).split('.')[-1] in ('might_be_format', 'detect_formats') or is_check(call)


class Probe(Rule):
    """rs: frozenset of ('moved', file), ('failing', what), ('reason',), ('looping',)"""

    initial = frozenset()
    max_depth = 6

    def __init__(self, contained):
        self.contained = contained
        self.opens = []
        self.skips = []
        self.iters = []

    def inline(self, cx, func, recv):
        return func.module is cx.entry_module and func.name.startswith('_')

    def on_call(self, cx, call, st):
        n, r, a = call_name(call), call_recv(call), call_args(call)
        rs = bad = st.rs
        if is_backend_open(call):
            f = a[0] if a else None
            self.opens.append((call, f, ('moved', f) in rs, cx.where()))
            rs = rs | {('reason',)}
            bad = rs | {('moved', f), ('failing', 'a backend')}
        elif looks(call):
            if not self.contained:
                bad = bad | {('failing', 'a format check')}
        elif n == '.seek' and r is not None:
            rs = frozenset(x for x in rs if x != ('moved', r)) if a and is_const(a[0], 0) else rs | {('moved', r)}
            bad = frozenset(x for x in rs if x != ('moved', r)) | ({('failing', 'rewinding')} if ('looping',) in rs else frozenset())
        return rs, bad

    def on_assume(self, cx, cond, polarity, st):
        rs = st.rs
        if cond.op == 'call' and call_name(cond) in ('hasattr', 'isinstance') and len(call_args(cond)) == 2:
            n, a = call_name(cond), call_args(cond)
            without = n == 'hasattr' and not polarity and cval(a[1]) == 'seek'
            without = without or n == 'isinstance' and polarity and any(show(x) == 'str' for x in subterms(a[1]))
            if without:
                rs = frozenset(x for x in rs if x != ('moved', a[0]))
        if ('looping',) in rs:
            if cond.op == 'cmp' and cond.args[0] == 'in':
                if polarity != is_table(cond.args[2]):
                    rs = rs | {('reason',)}
            elif cond.op == 'cmp' and cond.args[0] == 'is' and polarity and is_const(cond.args[2], None):
                rs = rs | {('reason',)}
            elif looks(cond) and polarity:
                rs = rs | {('matched',)}
            elif any(looks(x) or cond.op == 'call' and x.op == 'attr' and x.args[1] == 'formats' for x in subterms(cond)):
                if polarity == (cond.op == 'call' and call_name(cond) == 'all'):
                    rs = rs | {('reason',)}
        return rs

    def on_iter(self, cx, it, st):
        if backends(it):
            self.iters.append((it, cx.where()))
        elif it.op == 'attr' and it.args[1] == 'formats' and not (cx.epoch and cx.epoch[-1][0] == 'c'):
            return st.rs | {('iterated',)}
        return st.rs

    def on_item(self, cx, it, item, st):
        rs = st.rs
        if not backends(it):
            return rs
        if ('looping',) in rs and ('reason',) not in rs and (('iterated',) not in rs or ('matched',) in rs):
            self.skips.append((cx.where(), st))
        return frozenset(x for x in rs if x[0] not in ('reason', 'iterated', 'matched')) | {('looping',)}

    def on_catch(self, cx, exc, types, st):
        return frozenset(x for x in st.rs if x[0] != 'failing')


def backends(it: V) -> bool:
    """Iterates over the names of the backends."""
    ranks = order(it)
    if it.op == 'attr':
        return False
    return 2 in ranks and not any(x.op == 'item' and is_table(x.args[0]) or x.op == 'sub' and is_table(x.args[0]) for x in subterms(it))


def order(it: V):
    out = []
    for x in leftmost(it):
        if is_const(x, 'prioritizedBackends'):
            out.append(0)
        elif x.op == 'call' and call_name(x).endswith('find_backends_by_extension'):
            out.append(1)
        elif x.op != 'call' and is_table(x):
            out.append(2)
    return out


def run(prog: Program, c):
    c.rule('contained', "an exception of a format check or backend never ends the search for other backends")
    c.rule('rewound', "each backend gets the file at its beginning, no matter what was tried before")
    c.rule('tried', "a backend is only passed over when it was tried before, is unknown, or its format checks do not match")
    c.rule('order', "backends given by the user come first, then those fitting the file extension, then all others")
    c.rule('chosen', "the mount source returned is the one a backend returned, and giving up is an error")
    c.rule('restored', "looking at the format leaves the file at the position it had")
    c.rule('looking', "format checks neither close nor write to the file they look at")
    contained = looking(prog, c)
    search(prog, c, contained)
    checkers(prog, c)
    wrappers(prog, c)
    prioritised(prog, c)
    helpers(prog, c)


def anywhere(prog, name, near=None):
    found = [f for f in prog.all_funcs() if f.cls is None and f.name == name and not isinstance(f.node, ast.Lambda)]
    found.sort(key=lambda f: (f.module is not near, f.module.path))
    return found[0] if found else None


def finder(prog):
    f = anywhere(prog, 'open_mount_source')
    if f is None:
        raise AnalysisBroken('open_mount_source not found')
    return f


def search(prog, c, contained):
    f = finder(prog)
    rule = Probe(contained)
    flow = Flow(prog, rule)
    exits = flow.run(f)
    c.used(flow, f.where, len(exits))
    c.check('tried', 'open_mount_source', bool(rule.opens), "never opens a backend", f.where)
    c.check('order', 'open_mount_source', bool(rule.iters), "does not go over all backends", f.where)
    for call, file, moved, where in rule.opens:
        c.instance('backend calls', where)
        c.check('rewound', 'backend', not moved, "gives a file to a backend which another one may have left at any position", where)
        keys = [x.args[1] for x in subterms(call.args[0]) if x.op == 'sub' and is_table(x.args[0])]
        c.check('order', 'names of backends', not keys or any(x.op == 'attr' and x.args[1] == 'delegatedArchiveBackend' for k in keys for x in subterms(k)),
                "the names of compression backends given by the user are not mapped to the backends of archives", where)
    for where, st in rule.skips:
        c.check('tried', 'skipped', False, "continues with the next backend although the current one was neither tried nor ruled out", where)
    for it, where in rule.iters:
        ranks = order(it)
        first = [ranks.index(k) if k in ranks else -1 for k in (0, 1, 2)]
        c.check('order', 'backends', first == sorted(first) and -1 not in first, f"tries the backends in the order {show(it)[:120]}", where)
    returned = False
    for kind, v, st in exits:
        failing = sorted(x[1] for x in st.rs if x[0] == 'failing')
        if kind == 'raise':
            c.check('contained', 'search', not failing, f"an exception of {', '.join(failing)} ends the search for a backend", f.where)
        elif any(x.op == 'call' and is_backend_open(x) for x in subterms(v)):
            returned = True
            sure = any((t is v and pol) or (t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is v and not pol) for t, pol in st.facts.items())
            c.check('chosen', 'result', sure or not (v.op == 'call' and is_backend_open(v)), "returns the result of a backend which may have declined the file", f.where)
        else:
            c.check('chosen', 'result', not is_const(v, None) and not is_const(v, False), f"returns {show(v)[:60]} instead of a mount source", f.where)
    c.check('chosen', 'open_mount_source', returned, "never returns the mount source opened by a backend", f.where)


def prioritised(prog, c):
    """The order given by the user is followed."""
    for f in prog.all_funcs():
        if isinstance(f.node, ast.Lambda) or 'prioritizedBackends' not in f.params:
            continue
        loops = [n for n in ast.walk(f.node) if isinstance(n, ast.For)]
        users = [n for n in loops if any(isinstance(x, ast.Name) and x.id == 'prioritizedBackends' for x in ast.walk(n.iter))]
        for n in users:
            odd = [x for x in ast.walk(n.iter) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('reversed', 'sorted', 'set', 'frozenset')
                   or isinstance(x, ast.Slice) and x.step is not None]
            c.instance('loops over prioritised backends', f.where)
            c.check('order', f"{f.name} prioritised", not odd, f"the order given by the user is not followed: {ast.unparse(n.iter)[:60]}", f.where)
            c.check('order', f"{f.name} first", n is loops[0], "other backends are tried before those given by the user", f.where)


def helpers(prog, c):
    """Format checks which are called from other code leave the file at the position it had."""
    home = anywhere(prog, 'might_be_format')
    if home is None:
        return
    called = {(n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) for f in prog.all_funcs() if not isinstance(f.node, ast.Lambda)
              for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}
    for f in prog.all_funcs():
        if f.module is not home.module or isinstance(f.node, ast.Lambda) or f.cls is not None or f.name not in called or not f.name.startswith(('is_', 'find_')):
            continue
        if not f.params or f.name in ('might_be_format', 'detect_formats'):
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'tell' for n in ast.walk(f.node)):
            continue  # leaves it to the caller to restore the position
        file = mk('param', f.params[0])
        rule = Helper(file)
        flow = Flow(prog, rule)
        exits = flow.run(f)
        c.used(flow, f.where, len(exits))
        c.instance('format checks called by name', f.where)
        for kind, v, st in exits:
            if kind == 'return':
                c.check('restored', f.name, st.rs[0] == 'entry', "leaves the file at another position", f.where)


def leftmost(v):
    """Sub-terms in the order of the source text, looking through copies of locals."""
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(reversed(x))
        elif isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed(x.args))


class Position(Rule):
    """rs: (position of the file: a term, 'entry', or None when unknown; terms for the position at entry; a check is failing)"""

    initial = ('entry', frozenset(), False)
    max_depth = 6

    def __init__(self, file):
        self.file = file
        self.checked = []

    def inline(self, cx, func, recv):
        return func.name == 'might_be_format' or func.module is cx.entry_module and func.name.startswith('_') and func.cls is None

    def on_call(self, cx, call, st):
        pos, same, failing = st.rs
        n, r, a = call_name(call), call_recv(call), call_args(call)
        name = n.split('.')[-1]
        if is_check(call) or name == 'checkHeader':
            self.checked.append((pos == 'entry', cx.where()))
            return (None, same, failing), (None, same, True)
        if r is self.file and name == 'tell':
            return (pos, same | {call} if pos == 'entry' else same, failing), st.rs
        if r is self.file and name == 'seek':
            at = ('entry' if len(a) == 1 and a[0] in same else None, same, failing)
            return at, at
        touches = r is self.file or any(
            x is self.file or x.op in ('tuple', 'list', 'star', 'call') and self.file in set(subterms(x)) for x in (*a, *call_kw(call).values()))
        if touches and name not in NEUTRAL and name not in LOGGING:
            return (None, same, failing), (None, same, failing)
        return st.rs, st.rs

    def on_catch(self, cx, exc, types, st):
        return (*st.rs[:2], False)


class Helper(Position):
    def inline(self, cx, func, recv):
        return func.module is cx.entry_module and func.cls is None


def looking(prog, c):
    """Returns whether header checks never raise to their users."""
    contained = True
    for name in ('might_be_format', 'detect_formats', 'detect_compression'):
        f = anywhere(prog, name)
        if f is None:
            c.check('restored', name, False, f"{name} does not exist anymore", finder(prog).where)
            continue
        rule = Position(mk('param', f.params[0]))
        flow = Flow(prog, rule)
        exits = flow.run(f)
        c.used(flow, f.where, len(exits))
        c.instance('looking functions', name)
        for at, where in rule.checked:
            c.check('restored', f"{name} header", at, "runs a header check at another position than the one given", where)
        for kind, v, st in exits:
            pos, same, failing = st.rs
            c.check('restored', name, pos == 'entry', f"may {kind} with the file at another position", f.where)
            if kind == 'raise' and failing:
                if name == 'might_be_format':
                    contained = False
                else:
                    c.check('contained', name, False, "an exception of a format check ends the detection", f.where)
    return contained


def checkers(prog, c):
    """Functions used as header checks, found by how they are registered."""
    names = {}
    for m in prog.modules.values():
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            n = ast.unparse(node.func).split('.')[-1]
            if n == 'FileFormatInfo':
                given = node.args[2:3] + [k.value for k in node.keywords if k.arg == 'checkHeader']
            elif n == 'replace_format_check':
                given = node.args[1:2] + [k.value for k in node.keywords if k.arg == 'checkHeader']
            else:
                continue
            for g in given:
                for x in ast.walk(g):
                    if isinstance(x, ast.Name):
                        names.setdefault(x.id, m)
    for name, m in sorted(names.items()):
        f = anywhere(prog, name, m)
        if f is None or not f.params:
            continue
        param = f.params[0]
        rule = Effects(mk('param', param))
        flow = Flow(prog, rule)
        exits = flow.run(f)
        c.used(flow, f.where, len(exits))
        c.instance('format checks', name)
        for what, where in rule.bad:
            c.check('looking', name, False, f"{what} the file which is only to be looked at", where)
        c.check('looking', name, True, '', f.where)
    c.floor('format checks', 5)


class Effects(Rule):
    initial = ()
    max_depth = 4

    def __init__(self, file):
        self.file = file
        self.bad = []

    def on_call(self, cx, call, st):
        n, r = call_name(call), call_recv(call)
        if r is self.file and n in ('.close', '.write', '.truncate', '.writelines', '.detach', '.__exit__'):
            self.bad.append((n[1:] + 's' if n != '.close' else 'closes', cx.where()))
        return st.rs, st.rs

    def on_with_exit(self, cx, v, st):
        if v is self.file or v.op == 'call' and call_name(v) in ('contextlib.closing', 'closing') and self.file in call_args(v):
            self.bad.append(('closes', cx.where()))
        return st.rs


class Declined(Rule):
    """rs: whether the file was left at an unknown position"""

    initial = False
    max_depth = 4

    def __init__(self, file):
        self.file = file

    def inline(self, cx, func, recv):
        return func.module is cx.entry_module and func.cls is None

    def on_call(self, cx, call, st):
        n, r, a = call_name(call), call_recv(call), call_args(call)
        name = n.split('.')[-1]
        if r is self.file and name == 'seek':
            moved = not (a and is_const(a[0], 0))
            return moved, moved
        if (r is self.file or self.file in (*a, *call_kw(call).values())) and name not in NEUTRAL and name not in LOGGING:
            return True, True
        return st.rs, st.rs

    def on_assume(self, cx, cond, polarity, st):
        if cond.op == 'call' and len(call_args(cond)) == 2 and call_args(cond)[0] is self.file:
            n, a = call_name(cond), call_args(cond)
            if n == 'hasattr' and not polarity and cval(a[1]) == 'seek' or n == 'isinstance' and polarity and any(show(x) == 'str' for x in subterms(a[1])):
                return False
        return st.rs


def wrappers(prog, c):
    """Backends given as functions which may decline a file by returning nothing."""
    names = set()
    for m in prog.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and ast.unparse(node.func).split('.')[-1] == 'ArchiveBackendInfo':
                given = node.args[:1] + [k.value for k in node.keywords if k.arg == 'open']
                names |= {(x.id, m) for g in given for x in ast.walk(g) if isinstance(x, ast.Name)}
    c.check('tried', 'backend table', bool(names), "there is no table of backends", finder(prog).where)
    for name, m in sorted(names, key=lambda x: x[0]):
        f = m.funcs.get(name)
        if f is None or not f.params:
            continue
        flow = Flow(prog, Declined(mk('param', f.params[0])))
        exits = flow.run(f)
        c.used(flow, f.where, len(exits))
        c.instance('backend functions', name)
        for kind, v, st in exits:
            if kind == 'return' and is_const(v, None):
                c.check('rewound', name, not st.rs, "declines a file without having rewound it", f.where)
