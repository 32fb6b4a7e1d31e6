"""Without a write overlay every modifying request is rejected."""

import ast

from ..flow import NONE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import Program
from . import overlay
from .a02 import enables
from .fusemount import MOUNT, run_ops

EXPLANATION = (
    "Path-sensitive dataflow over every modifying FUSE operation which the mount class defines (all branches and exception "
    "edges): a normal exit is only reachable with a configured overlay, for a file below the control prefix while the control "
    "interface is enabled, or on the command file object; every explicitly raised error without overlay is EROFS. In the "
    "constructor, operations are rebound only to the same operation of the overlay and only when an overlay was requested, "
    "and the command file only exists when the control interface was requested."
)

MUTATING = (
    'chmod', 'chown', 'create', 'fallocate', 'ftruncate', 'link', 'mkdir', 'mknod', 'removexattr', 'rename', 'rmdir', 'setxattr',
    'symlink', 'truncate', 'unlink', 'utimens', 'write', 'write_buf', 'ioctl', 'copy_file_range',
)
OS_MUTATORS = set(overlay.EFFECTS) | {'os.write', 'os.pwrite', 'os.ftruncate', 'os.fchmod', 'os.fchown'}


class InitRule(Rule):
    exc_exits = False
    max_depth = 3
    initial = frozenset()

    def __init__(self):
        self.stores = []
        self.command = []
        self.overlays = []
        self.defaults = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        if enables(cond) or (cond.op == 'attr' and cond.args[1] == '_enableControlInterface'):
            rs = frozenset({x for x in rs if x[0] != 'ctl'} | {('ctl', bool(pol))})
        if pol and cond.op in ('cmp', 'sub', 'call') and any(x.op == 'const' and cval(x) == 'writeOverlay' for x in subterms(cond)):
            # Merely existing or being a text does not mean that it is not empty.
            value = cond.op in ('sub', 'call') and call_name(cond) not in ('isinstance', 'callable', 'hasattr')
            length = cond.op == 'cmp' and cond.args[1].op == 'call' and call_name(cond.args[1]) in ('len', 'bool')
            unequal = cond.op == 'cmp' and cond.args[0] in ('!=', 'is not') and cval(cond.args[2]) in ('', None)
            if value or length or unequal:
                rs = rs | {('requested',)}
        return rs

    def on_call(self, cx, call, st):
        n = call_name(call)
        if n in ('.pop', '.get', 'getattr') and len(call_args(call)) > 1 and any(x.op == 'const' and cval(x) in ('controlInterface', 'control_interface') for x in call_args(call)[:-1]):
            self.defaults.append((call_args(call)[-1], cx.where()))
        if n == overlay.OVERLAY:
            self.overlays.append((call, st.rs, cx.where()))
        if n == 'CommandFile' or any(x.op == 'const' and cval(x) == 'command' for x in call_args(call)) and n == 'SingleFileMountSource':
            self.command.append((call, st.rs, cx.where()))
        return st.rs, st.rs

    def on_store(self, cx, base, key, value, st):
        if base.op == 'self' and key in MUTATING:
            self.stores.append((key, value, st.rs, cx.where()))
        return st.rs


def run(prog: Program, c):
    c.rule('rejected', "a modifying request succeeds only with an overlay, on the control interface or on the command file")
    c.rule('errno', "a modifying request without overlay fails with EROFS")
    c.rule('rebound', "operations are rebound only to the same operation of a requested overlay")
    c.rule('control', "the command file exists only when the control interface was requested")
    c.rule('no-direct', "the mount class itself modifies no file")
    cls = prog.cls(MOUNT)
    res = run_ops(prog, c, MUTATING)
    for op, (rule, exits, f) in res.items():
        c.instance('modifying operations of the mount', op)
        for kind, v, st in exits:
            rs = st.rs
            allowed = ('overlay', True) in rs or ('command', True) in rs or (('prefix', True) in rs and ('control', True) in rs)
            if kind == 'return':
                c.check('rejected', op, allowed, f"succeeds without write overlay (returns {show(v)[:60]})", f.where)
            elif v.op == 'raised' and ('overlay', True) not in rs:
                t = show(v)
                if 'FuseOSError' in t:
                    c.check('errno', op, 'EROFS' in t, f"fails with {t[:80]} instead of EROFS", f.where)
        for call, rs, st, where in rule.calls:
            n = call_name(call)
            if n in OS_MUTATORS:
                c.check('no-direct', f"{op}: {n}", False, "modifies files without going through the overlay", where)
            r = call_recv(call)
            if r is not None and r.op == 'attr' and r.args[1] == 'writeOverlay' and n[1:] in MUTATING:
                c.check('no-direct', f"{op}: {n}", ('overlay', False) not in rs, "uses a missing overlay", where)
            if n == '.write' and (r is None or not (r.op == 'attr' and r.args[1] == 'writeOverlay')):
                c.check('no-direct', f"{op}: .write", ('command', True) in rs, f"writes to {show(r)[:80]}, which may be a file of a mount source", where)
    init = cls.find('__init__')
    ir = InitRule()
    flow = Flow(prog, ir)
    exits = flow.run(init, cls)
    c.used(flow, init.where, len(exits))
    for value, where in ir.defaults:
        c.check('control', 'default', value.op == 'const' and not cval(value), f"the control interface is enabled by default: {show(value)[:30]}", where)
    for key, value, rs, where in ir.stores:
        c.instance('rebound operations', key)
        same = (value.op == 'attr' and value.args[1] == key) or (value.op == 'bound' and value.args[0].name == key)
        owner = value.args[0] if value.op == 'attr' else value.args[1] if value.op == 'bound' else None
        isOverlay = owner is not None and (
            (owner.op == 'new' and owner.args[0].name == overlay.OVERLAY) or (owner.op == 'attr' and owner.args[1] == 'writeOverlay')
        )
        c.check('rebound', key, same and isOverlay, f"is rebound to {show(value)[:80]}", where)
        c.check('rebound', f"{key} guard", ('requested',) in rs, "is rebound although no write overlay was requested", where)
    for call, rs, where in ir.overlays:
        c.check('rebound', 'overlay construction guard', ('requested',) in rs, "an overlay is created although none was requested", where)
    for call, rs, where in ir.command:
        c.instance('command files', where)
        c.check('control', 'command file', ('ctl', True) in rs, "is created although the control interface was not requested", where)
    # completeness: the overlay implements these operations, so they must be available when it is configured
    ov = prog.cls(overlay.OVERLAY)
    have = set(res) | {k for k, *_ in ir.stores}
    for op in MUTATING:
        if ov.find(op) is not None:
            c.check('rebound', f"{op} available", op in have, "is implemented by the overlay but never reachable through the mount", init.where)
    c.floor('modifying operations of the mount', 2)
