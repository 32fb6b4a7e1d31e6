"""Copy-up: the first modification of an archived file works on a complete copy; existing overlay data is never discarded."""

import ast

from ..flow import NONE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import Program, dotted
from . import overlay
from .fusemount import run_ops

EXPLANATION = (
    "Typestate dataflow over the FUSE operations of the write overlay: before the overlay copy of a request path is opened "
    "for modification it must exist or have been filled by a copy of the complete content of the combined view, it may be "
    "emptied only where it is known not to exist yet (or is the target of a creating operation), a renamed file must be moved "
    "or completely copied, and an entry is only created when its parent exists in the overlay or not at all. The mount's "
    "write and read operations are checked to position the file handle at the requested offset before transferring data."
)


def run(prog: Program, c):
    c.rule('no-discard', "an existing overlay copy is not emptied by an operation which modifies the file in place")
    c.rule('complete', "an overlay copy is modified only if it exists or holds the complete content of the combined view")
    c.rule('rename-content', "the target of a rename receives the moved or completely copied content")
    c.rule('parent', "the parent folder is ensured to exist in the overlay before an entry is created in it")
    c.rule('link-source', "hardlinks are only made to overlay copies")
    c.rule('positioned', "data is transferred at the requested offset and with the requested extent")
    c.rule('through-overlay', "data for a file of the archive is only written through a handle opened by the overlay for writing")
    c.floor('overlay operations', 10)
    for op, (rule, exits, roleMap, paths, roles) in overlay.analyse(prog, c).items():
        for kind, p, eff, term, where, rs in rule.events:
            if kind != 'real' or not isinstance(p, str):
                continue
            role = dict(zip(paths, roles)).get(p)
            real, copied, under = rule.get(rs, 'real', p), rule.get(rs, 'copied', p), rule.get(rs, 'under', p)
            if eff == 'trunc' and role in ('modify', 'attr', 'handle', 'remove'):
                c.instance('copy-up sites', where)
                c.check('no-discard', f"{op}({p})", real is False and copied is not True,
                        f"empties the overlay copy of '{p}' although it may already hold modified data", where)
            if eff in ('mod', 'openflags') and role in ('modify', 'attr', 'handle', 'create'):
                ok = copied is True or (real is True and rule.get(rs, 'fresh', p) is not True)
                ok = ok or role == 'create' or (eff == 'openflags' and rule.get(rs, 'writable') is False)
                c.check('complete', f"{op}({p})", ok,
                        f"modifies the overlay copy of '{p}' which may be missing or may not hold the complete content", where)
            if eff in ('mk', 'trunc') and role in ('create', 'modify'):
                c.check('parent', f"{op}({p})", rule.get(rs, 'par', p) is True or real is True,
                        f"creates '{p}' in the overlay although its parent may exist only in the archive", where)
            if eff == 'ref' and role == 'source':
                c.check('link-source', f"{op}({p})", real is True or under is False or lexists_checked(rule, rs, p),
                        f"links to the overlay path of '{p}' although the file may exist only in the archive", where)
        for kind, v, st in exits:
            if kind != 'return':
                continue
            rs = st.rs
            if op == 'rename':
                new = paths[1]
                c.check('rename-content', 'rename', rule.get(rs, 'movedto', new) is True or rule.get(rs, 'copied', new) is True,
                        "returns normally although the new path received no (complete) content", rule.func.where)
            if op in ('truncate', 'create', 'mkdir', 'mknod', 'symlink', 'link', 'open'):
                p = paths[0]
                done = any(kind == 'real' and q == p for kind, q, *_ in rule.events)
                c.check('complete' if op in ('truncate', 'open') else 'parent', f"{op}({p}) effect", done,
                        "returns normally without any effect on the overlay folder", rule.func.where)
                if op == 'truncate':
                    c.check('complete', f"{op}({p}) result", rule.get(rs, 'real', p) is True,
                            "returns normally but nothing was truncated", rule.func.where)
    c.floor('copy-up sites', 1)
    truncate_length(prog, c)
    overlay_io(prog, c)
    mount_io(prog, c)


def lexists_checked(rule, rs, p):
    return rule.get(rs, 'real', p) is True


class IORule(Rule):
    max_depth = 5
    exc_exits = False
    initial = frozenset()

    def __init__(self):
        self.transfers = []

    def on_call(self, cx, call, st):
        n = call_name(call)
        a = call_args(call)
        rs = st.rs
        if n in ('os.lseek',) and len(a) >= 2:
            whence = call_arg(call, 2, 'whence') or call_arg(call, 2, 'how')
            start = whence is None or cval(whence) == 0 or (whence.op == 'ext' and whence.args[0].endswith('SEEK_SET'))
            rs = frozenset({x for x in rs if x[0] != 'pos'} | ({('pos', a[0], a[1])} if start else {('pos', a[0], NONE)}))
        elif n == '.seek' and a:
            whence = call_arg(call, 1, 'whence')
            start = whence is None or cval(whence) == 0 or (whence.op == 'ext' and whence.args[0].endswith('SEEK_SET'))
            rs = frozenset({x for x in rs if x[0] != 'pos'} | {('pos', call_recv(call), a[0] if start else NONE)})
        elif n in ('os.write', 'os.read', 'os.pwrite', 'os.pread', '.write', '.read', '.readinto'):
            self.transfers.append((n, call, rs, st, cx.where()))
        return rs, rs


def overlay_io(prog, c):
    ov = prog.cls(overlay.OVERLAY)
    f = prog.method(overlay.OVERLAY, 'write')
    rule = IORule()
    flow = Flow(prog, rule)
    exits = flow.run(f, ov)
    c.used(flow, f.where, len(exits))
    _, path, data, offset, fh = f.params[:5]
    wrote = False
    for n, call, rs, st, where in rule.transfers:
        a = call_args(call)
        if n == 'os.write':
            wrote = True
            ok = a[0] is mk('param', fh) and a[1] is mk('param', data) and ('pos', mk('param', fh), mk('param', offset)) in rs
        elif n == 'os.pwrite':
            wrote = True
            ok = a[0] is mk('param', fh) and a[1] is mk('param', data) and a[2] is mk('param', offset)
        else:
            continue
        c.instance('data transfers', where)
        c.check('positioned', 'overlay write', ok, f"{show(call)} does not write the given data at the requested offset", where)
    c.check('positioned', 'overlay write', wrote, "writes nothing", f.where)
    for k, v, st in exits:
        if k == 'return':
            ok = v.op == 'call' and call_name(v) in ('os.write', 'os.pwrite') or (v.op == 'call' and call_name(v) == 'len')
            c.check('positioned', 'overlay write result', ok, f"returns {show(v)} instead of the number of written bytes", f.where)


def truncate_length(prog, c):
    f = prog.method(overlay.OVERLAY, 'truncate')
    rule = None
    seen = False

    class TR(overlay.OverlayRule):
        def on_call(self, cx, call, st):
            nonlocal seen
            if call_name(call) in ('os.truncate', 'os.ftruncate', '.truncate'):
                seen = True
                a = call_args(call)[-1] if call_args(call) else None
                c.check('positioned', 'truncate length', a is mk('param', f.params[2]),
                        f"truncates to {show(a) if a is not None else '?'} instead of the requested length", cx.where())
            return super().on_call(cx, call, st)

    flow = Flow(prog, TR(c, 'truncate', f, [f.params[1]]))
    ex = flow.run(f, prog.cls(overlay.OVERLAY))
    c.used(flow, f.where, len(ex))
    c.check('positioned', 'truncate', seen, "does not truncate", f.where)


MOUNT_OPS = (
    'getattr', 'readdir', 'readlink', 'open', 'create', 'read', 'write', 'truncate', 'ftruncate', 'flush', 'fsync', 'release',
    'statfs', 'access', 'opendir', 'releasedir', 'listxattr', 'getxattr', 'setxattr', 'chmod', 'chown', 'utimens', 'rename',
    'mkdir', 'rmdir', 'unlink', 'link', 'symlink', 'mknod', 'fgetattr', 'lock', 'flock', 'fallocate',
)
FORWARDED = {'write': {'open'}, 'open': {'open'}, 'ftruncate': {'truncate'}}


def changing_methods(prog):
    """Methods of the overlay which may change a file or the metadata, by transitive closure over calls on self."""
    cls = prog.cls(overlay.OVERLAY)
    direct, calls = set(), {}
    for name in {n for k in cls.mro() for n in k.methods}:
        node = cls.find(name).node
        calls[name] = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                d = dotted(x.func) or ''
                if d.startswith('self.') and d.count('.') == 1:
                    calls[name].add(d[5:])
                if d in overlay.EFFECTS or d in ('os.write', 'os.pwrite', 'os.ftruncate', 'open') or d.startswith('shutil.'):
                    direct.add(name)
    changed = True
    while changed:
        changed = False
        for name, cs in calls.items():
            if name not in direct and cs & direct:
                direct.add(name)
                changed = True
    return direct - {'__init__'}


def mount_io(prog, c):
    res = run_ops(prog, c, MOUNT_OPS)
    changing = changing_methods(prog)
    for op, (rule, exits, f) in res.items():
        for call, rs, st, where in rule.calls:
            r = call_recv(call)
            if r is not None and r.op == 'attr' and r.args[1] == 'writeOverlay' and call_name(call)[1:] in changing:
                m = call_name(call)[1:]
                c.check('through-overlay', f"{op} calls {m}", m == op or m in FORWARDED.get(op, ()),
                        f"calls {m} of the overlay, which changes files on its own", where)
    if 'write' in res:
        rule, exits, f = res['write']
        path, data, offset, fh = f.params[1:5]
        n = 0
        for call, rs, st, where in rule.calls:
            r = call_recv(call)
            if call_name(call) == '.write' and r is not None and r.op == 'attr' and r.args[1] == 'writeOverlay':
                n += 1
                a = call_args(call)
                ok = len(a) >= 4 and a[0] is mk('param', path) and a[1] is mk('param', data) and a[2] is mk('param', offset)
                c.check('positioned', 'mount write', ok, f"{show(call)[:150]} does not forward the request", where)
                h = call_arg(call, 3, 'fh')
                opened = h is not None and any(
                    x.op == 'call' and call_name(x) == '.open' and '.writeOverlay' in show(x) for x in subterms(h)
                )
                checked = any(
                    pol and k.op == 'call' and call_name(k) == 'isinstance' and call_args(k)[0] is h and 'int' in show(call_args(k)[1])
                    for k, pol in st.facts.items()
                )
                c.check('through-overlay', 'mount write', opened or checked,
                        f"writes through {show(h)[:80]} which is not known to be a handle of the overlay", where)
            if call_name(call) == '.open' and r is not None and r.op == 'attr' and r.args[1] == 'writeOverlay':
                a = call_args(call)
                ok = len(a) >= 2 and a[0] is mk('param', path) and a[1].op != 'const'
                c.check('through-overlay', 'reopen for writing', ok, f"{show(call)[:120]} does not reopen the request path with its open flags", where)
        reopened, tests = False, set()
        for call, rs, st, where in rule.calls:
            r = call_recv(call)
            if call_name(call) == '.open' and r is not None and r.op == 'attr' and r.args[1] == 'writeOverlay':
                reopened = True
                for k, pol in st.facts.items():
                    if k.op == 'bin' and k.args[0] == 'BitAnd' and pol:
                        tests |= {x.args[0] for x in subterms(k) if x.op == 'ext' and x.args[0].startswith('os.O_')}
        if reopened and tests:
            c.check('through-overlay', 'reopen for all ways of writing', 'os.O_ACCMODE' in tests or tests >= {'os.O_WRONLY', 'os.O_RDWR'},
                    f"files are only reopened when opened with {sorted(tests)}", f.where)
        c.check('through-overlay', 'mount write reaches the overlay', n > 0, "never forwards data to the overlay", f.where)
    if 'create' in res:
        rule, exits, f = res['create']
        calls = [call for call, *_ in rule.calls if call_name(call) == '.create' and '.writeOverlay' in show(call)]
        for call in calls:
            a = call_args(call)
            c.check('positioned', 'mount create', len(a) >= 2 and a[0] is mk('param', f.params[1]) and a[1] is mk('param', f.params[2]),
                    f"{show(call)} does not forward the request", f.where)
        c.check('through-overlay', 'mount create reaches the overlay', bool(calls), "never creates anything in the overlay", f.where)
    if 'truncate' in res:
        rule, exits, f = res['truncate']
        calls = [call for call, *_ in rule.calls if call_name(call) == '.truncate' and '.writeOverlay' in show(call)]
        for call in calls:
            a = call_args(call)
            c.check('positioned', 'mount truncate', len(a) >= 2 and a[0] is mk('param', f.params[1]) and a[1] is mk('param', f.params[2]),
                    f"{show(call)} does not forward the request", f.where)
        c.check('through-overlay', 'mount truncate reaches the overlay', bool(calls), "never truncates anything in the overlay", f.where)
