"""Commands written to the control interface."""

import ast

from ..flow import Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, is_const, mk, show, subterms
from ..model import AnalysisBroken, Program, dotted
from .fusemount import MOUNT

EXPLANATION = (
    "Typestate dataflow over the command file and the command handler of the mount: written data is accumulated completely, the command is run exactly once "
    "on close, each mount point to unmount is unmounted or handed to a subprocess, the subprocess gets the complete remaining arguments, and no exception leaves the handler."
)
CUTS = ('basename', 'dirname', 'split', 'rsplit', 'partition', 'rpartition')
STARTERS = ('subprocess.Popen', 'Popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'os.spawnv', 'os.spawnl')


def command_class(prog: Program, mount):
    c = prog.cls('CommandFile', False)
    if c is not None:
        return c
    for c in mount.module.classes.values():
        if 'write' in c.methods and 'close' in c.methods and c is not mount:
            return c
    return None


class Pieces(Rule):
    """rs: set of ('grown', attribute, value), ('closed',), ('ran', call), ('split', call)"""

    initial = frozenset()
    max_depth = 5

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def on_call(self, cx, call, st):
        n, r, a = call_name(call), call_recv(call), call_args(call)
        rs = bad = st.rs
        attr = r.args[1] if r is not None and r.op == 'attr' and r.args[0].op == 'self' else None
        if attr is not None and n in ('.extend', '.append', '.write') and a:
            rs = rs | {('grown', attr, a[0])}
        elif call.args[0].op == 'supermethod' or n in ('.close', 'super.close') and r is not None and r.op != 'attr':
            rs = bad = rs | {('closed',)}
        elif call.args[0].op == 'attr' and call.args[0].args[0].op == 'self':
            if any(x[0] == 'ran' for x in rs):
                rs = rs | {('twice',)}
            rs = rs | {('ran', call)} | ({('early', cx.where())} if ('closed',) not in rs else frozenset())
            bad = rs
        return rs, bad

    def on_store(self, cx, base, key, value, st):
        if base.op == 'self' and isinstance(key, str) and value.op in ('bin', 'binop') or base.op == 'self' and isinstance(key, str) and any(
                x.op == 'attr' and x.args[1] == key for x in subterms(value)):
            return st.rs | {('grown', key, value)}
        return st.rs


def reset(st, grown) -> bool:
    """Whether an attribute of the file, which is not the collected data, or the emptied data shows that the file is closed."""
    if any(t.op == 'attr' and t.args[0].op == 'self' and t.args[1] not in grown for t in st.facts):
        return True
    return any(isinstance(k, tuple) and len(k) == 2 and k[1] in grown for k in st.heap)


def mentions_attr(v: V, attr: str) -> bool:
    return any(x.op == 'attr' and x.args[0].op == 'self' and x.args[1] == attr for x in subterms(v))


def run(prog: Program, c):
    c.rule('collected', "data written to the command file in any number of pieces is kept completely")
    c.rule('once', "closing the command file runs the command exactly once with all data written to it, and not at all when nothing was written")
    c.rule('safe', "no command makes the handler fail")
    c.rule('complete', "each mount point to unmount is unmounted by the mount itself or handed to a subprocess")
    c.rule('started', "what the mount does not do itself is done by a subprocess with the complete remaining arguments")
    mount = prog.cls(MOUNT)
    command_file(prog, c, mount)
    handler(prog, c, mount)
    unmounting(prog, c, mount)


def shared(cls, mount):
    """Creations of the command file which are not done anew for each opening."""
    def visit(node, fresh):
        if isinstance(node, ast.Call) and (dotted(node.func) or '').split('.')[-1] == cls.name and not fresh:
            yield node.lineno
        if isinstance(node, (ast.Lambda, ast.FunctionDef)):
            for x in node.args.defaults + [y for y in node.args.kw_defaults if y is not None]:
                yield from visit(x, fresh)
            for x in node.body if isinstance(node.body, list) else [node.body]:
                yield from visit(x, True)
            return
        for x in ast.iter_child_nodes(node):
            yield from visit(x, fresh)

    init = mount.methods.get('__init__')
    if init is not None:
        for x in init.node.body:
            yield from visit(x, False)


def command_file(prog, c, mount):
    cls = command_class(prog, mount)
    if cls is None:
        c.check('once', 'command file', False, "there is no file object for commands anymore", mount.where)
        return
    for _ in shared(cls, mount):
        c.check('once', 'shared', False, "commands opened at the same time or one after another share a single file", mount.where)
    grown = set()
    f = cls.find('write')
    rule = Pieces()
    flow = Flow(prog, rule)
    exits = flow.run(f, cls)
    c.used(flow, f.where, len(exits))
    c.instance('command file operations', 'write')
    data = mk('param', f.params[1])
    for kind, v, st in exits:
        if kind != 'return':
            continue
        kept = [x for x in st.rs if x[0] == 'grown' and (x[2] is data or x[2].op in ('bin', 'binop', 'call') and data in set(subterms(x[2])))]
        grown |= {x[1] for x in kept}
        c.check('collected', 'write', bool(kept), "returns without having kept the data written to the command file", f.where)
        c.check('collected', 'write size', v.op == 'call' and call_name(v) == 'len' and call_args(v)[0] is data, f"claims to have written {show(v)[:60]}", f.where)
    f = cls.find('close')
    rule = Pieces()
    flow = Flow(prog, rule)
    exits = flow.run(f, cls)
    c.used(flow, f.where, len(exits))
    c.instance('command file operations', 'close')
    ran = False
    for kind, v, st in exits:
        calls = [x[1] for x in st.rs if x[0] == 'ran']
        for x in st.rs:
            if x[0] == 'early':
                c.check('once', 'close first', False, "runs the command before the file counts as closed so that closing it again runs it again", x[1])
        c.check('once', 'close twice', ('twice',) not in st.rs, "runs the command more than once", f.where)
        closed = [pol for t, pol in st.facts.items() if t.op == 'attr' and t.args[1] == 'closed']
        empty = any(not pol and any(mentions_attr(t, a) for a in grown) for t, pol in st.facts.items())
        for call in calls:
            ran = True
            c.check('once', 'close', any(mentions_attr(x, a) for a in grown for x in call_args(call)),
                    "runs the command with something other than the data written to the file", f.where)
            c.check('once', 'close again', False in closed or reset(st, grown), "runs the command when closing a file that is already closed", f.where)
            cut = [x for a in call_args(call) for x in subterms(a) if x.op in ('sub', 'slice')]
            c.check('once', 'close all', not cut, "runs the command with only a part of the data written to the file", f.where)
            c.check('once', 'close empty', not empty, "runs a command although nothing was written", f.where)
        if kind == 'return' and not calls:
            c.check('once', 'close', True in closed or empty, "returns without having run the command which was written", f.where)
    c.check('once', 'close', ran, "never runs the command", f.where)


class Handler(Rule):
    """rs: set of ('started', call), ('asked', call)"""

    initial = frozenset()
    max_depth = 6

    def __init__(self):
        self.asked = set()

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and not decides(func)

    def may_raise(self, cx, call):
        return call_name(call) not in ('.poll',)

    def keep_fact(self, cond):
        return any(call_name(x) == '._process_parsed_arguments' for x in subterms(cond) if x.op == 'call')

    def on_call(self, cx, call, st):
        n = call_name(call)
        rs = st.rs
        if n in STARTERS:
            rs = rs | {('started', call)}
        elif call_recv(call) is not None and call_recv(call).op == 'self' and n == '._process_parsed_arguments':
            rs = rs | {('asked', call)}
        return rs, st.rs


def decides(func) -> bool:
    return func.name in ('_process_parsed_arguments', 'mount', 'unmount')


class Raising(Rule):
    initial = ()
    max_depth = 7
    exc_exits = True

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and func.name not in ('mount', 'unmount', '_lookup')


def handler(prog, c, mount):
    f = mount.find('_parse_command')
    if f is None:
        c.check('safe', 'handler', False, "there is no handler for commands anymore", mount.where)
        return
    flow = Flow(prog, Raising())
    exits = flow.run(f, mount)
    c.used(flow, f.where, len(exits))
    c.instance('handlers', f.name)
    for kind, v, st in exits:
        c.check('safe', f.name, kind != 'raise', f"an exception ({show(v)[:60]}) leaves the command handler", f.where)
    if mount.find('_process_parsed_arguments') is None:
        return
    rule = Handler()
    flow = Flow(prog, rule)
    exits = flow.run(f, mount)
    c.used(flow, f.where, len(exits))
    args = mk('param', f.params[1])
    started = False
    for kind, v, st in exits:
        calls = [x[1] for x in st.rs if x[0] == 'started']
        asked = [x[1] for x in st.rs if x[0] == 'asked']
        c.check('started', 'once', len(calls) <= 1, "starts more than one subprocess for a command", f.where)
        if kind != 'return' or not asked or 'failed' in st.rs:
            continue
        result = asked[0]
        replaced = [pol if t is result else not pol for t, pol in st.facts.items() if t is result or t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is result]
        for call in calls:
            started = True
            given = call_args(call)[0] if call_args(call) else call_kw(call).get('args')
            terms = set(subterms(given)) if given is not None else set()
            cut = [x for x in terms if x.op == 'slice']
            c.check('started', 'all arguments', not cut, "starts the subprocess with only a part of the arguments", f.where)
            if True in replaced:
                c.check('started', 'replaced', result in terms, "starts the subprocess with other arguments than those left to be done", f.where)
            elif False in replaced:
                c.check('started', 'arguments', reaches(given, args, result), "starts the subprocess with other arguments than those of the command", f.where)
            else:
                c.check('started', 'arguments', result in terms and reaches(given, args, result), "starts the subprocess without heeding which arguments are left to be done", f.where)
        if not calls and True in replaced:
            c.check('started', 'replaced', False, "drops the arguments which are left to be done by a subprocess", f.where)
    c.check('started', 'handler', started, "never starts a subprocess for what cannot be done by the mount itself", f.where)


def reaches(v, x: V, without: V) -> bool:
    """Whether x occurs in v other than inside of another term."""
    if v is x:
        return True
    if v is without:
        return False
    if isinstance(v, V):
        return any(reaches(y, x, without) for y in v.args)
    if isinstance(v, (tuple, frozenset)):
        return any(reaches(y, x, without) for y in v)
    return False


class Unmounting(Rule):
    """rs: set of ('pending', item), ('kept', list), ('deleting',)"""

    initial = frozenset()
    max_depth = 5
    exc_exits = False

    def __init__(self):
        self.dropped = []
        self.left = []
        self.doubled = []
        self.partial = []
        self.loops = 0

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and func.name not in ('mount', 'unmount', '_lookup', '_path_provided_by_us')

    @staticmethod
    def points(it: V) -> bool:
        return any(x.op == 'attr' and x.args[1] == 'mount_source' for x in subterms(it))

    @staticmethod
    def unmounting(st) -> bool:
        return ('unmounting',) in st.rs

    def on_break(self, cx, it, st):
        if self.points(it) and self.unmounting(st):
            self.left.append(cx.where())
        return st.rs

    def on_assume(self, cx, cond, truth, st):
        if truth and cond.op == 'attr' and cond.args[1] == 'unmount':
            return st.rs | {('unmounting',)}
        return st.rs

    def on_item(self, cx, it, item, st):
        rs = st.rs
        if not self.points(it) or cx.epoch and cx.epoch[-1][0] == 'c' or not self.unmounting(st):
            return rs
        self.loops += 1
        if incomplete(it):
            self.partial.append((it, cx.where()))
        for x in rs:
            if x[0] == 'pending':
                self.dropped.append(cx.where())
        return frozenset(x for x in rs if x[0] not in ('pending', 'finished')) | {('pending', item)}

    def on_call(self, cx, call, st):
        n, r, a = call_name(call), call_recv(call), call_args(call)
        rs = st.rs
        pending = [x for x in rs if x[0] == 'pending']
        if r is not None and r.op == 'self' and n == '.mount':
            rs = rs | {('mounted',)}
        if not pending and a and n in ('.unmount', '.append') and any(x[0] == 'finished' and x[1] in set(subterms(a[0])) for x in rs) and (
                n == '.append' or r is not None and r.op in ('self', 'attr')):
            self.doubled.append(cx.where())
        if pending and a:
            item = pending[0][1]
            if item in set(subterms(a[0])):
                if n == '.unmount' and r is not None and r.op in ('self', 'attr'):
                    rs = (rs - {pending[0]}) | {('finished', item)}
                elif n == '.append':
                    rs = (rs - {pending[0]}) | {('kept', r), ('finished', item)}
        return rs, st.rs


def incomplete(it: V) -> bool:
    """Whether some of the mount points, which are not empty, are left out."""
    for x in subterms(it):
        if x.op == 'slice' or x.op == 'sub' and x.args[1].op != 'slice':
            return True
        if x.op == 'comp' and len(x.args) > 3 and any(t.op != 'iter' or not pol for t, pol in x.args[-1] if isinstance(t, V)):
            return True
    return False


def unmounting(prog, c, mount):
    own = mount.find('unmount')
    if own is not None:
        rule = Forwarding()
        flow = Flow(prog, rule)
        exits = flow.run(own, mount)
        c.used(flow, own.where, len(exits))
        c.instance('handlers', own.name)
        path = mk('param', own.params[1])
        passed = {x for kind, v, st in exits for x in st.rs}
        whole = [x for x in passed if path in set(subterms(x)) and not any(y.op == 'slice' or y.op == 'call' and call_name(y).split('.')[-1] in CUTS for y in subterms(x))]
        c.check('complete', 'unmount path', bool(passed) and len(whole) == len(passed), "does not pass on the path that was to be unmounted", own.where)
    f = mount.find('_process_parsed_arguments')
    if f is None:
        c.check('complete', 'unmount', False, "there is no processing of unmount commands anymore", mount.where)
        return
    rule = Unmounting()
    flow = Flow(prog, rule)
    exits = flow.run(f, mount)
    c.used(flow, f.where, len(exits))
    c.instance('handlers', f.name)
    if not rule.loops:
        # Written without a loop over the mount points: nothing is decided about it.
        c.check('complete', 'unmount', any(True for k, v, st in exits if rule.unmounting(st)), "does not process unmount commands", f.where)
    for where in rule.left:
        c.check('complete', 'left', False, "stops before all mount points have been unmounted", where)
    for where in rule.doubled:
        c.check('complete', 'doubled', False, "unmounts a mount point itself and also leaves it to be unmounted by a subprocess", where)
    for it, where in rule.partial:
        c.check('complete', 'partial', False, f"processes only some of the mount points to be unmounted ({show(it)[:60]})", where)
    for kind, v, st in exits:
        if kind == 'return' and ('mounted',) in st.rs:
            c.check('started', 'mounted', False, "returns after mounting by itself so that the same command is also run by a subprocess", f.where)
    for where in rule.dropped:
        c.check('complete', 'dropped', False, "goes on to the next mount point without having unmounted or forwarded the current one", where)
    for kind, v, st in exits:
        if not rule.unmounting(st):
            continue
        pending = any(x[0] == 'pending' for x in st.rs)
        exiting = kind == 'raise' and exits_program(v)
        c.check('complete', 'last', not pending or kind == 'raise' and not exiting, "finishes without having unmounted or forwarded a mount point", f.where)
        kept = [x[1] for x in st.rs if x[0] == 'kept']
        if kind == 'return':
            forwarded = any(k in set(subterms(v)) for k in kept) or any(call_name(x) == '.append' or x.op == 'upd' for x in subterms(v))
            c.check('complete', 'returned', v.op != 'const' and (forwarded or not kept), f"returns {show(v)[:60]} instead of the mount points left to be unmounted", f.where)
            c.check('complete', 'command', any(cval(x) in ('-u', '--unmount') for x in subterms(v) if x.op == 'const'),
                    "what is left to be done is returned without the option to unmount", f.where)
        elif exiting and kept:
            c.check('complete', 'returned', not feasible(kept, st.facts), "finishes although mount points are left to be unmounted", f.where)


class Forwarding(Rule):
    """rs: paths passed on to be unmounted"""

    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def on_call(self, cx, call, st):
        rs = st.rs
        if call_name(call) == '.unmount' and call_args(call):
            rs = rs | {call_args(call)[0]}
        return rs, rs


def exits_program(v: V) -> bool:
    return v.op == 'raised' and v.args[0].op == 'ext' and v.args[0].args[0] == 'SystemExit'


def base(v: V):
    """The list literal a list was begun with."""
    found = [x for x in subterms(v) if x.op == 'list' and not any(y.op == 'iter' for y in subterms(x))]
    return min(found, key=lambda x: len(x.args[0])) if found else None


def feasible(kept, facts) -> bool:
    """Whether the tests on the path hold for a list something has been appended to."""
    roots = {base(k) for k in kept} - {None}
    for root in roots:
        related = [(t, pol) for t, pol in facts.items() if root in set(subterms(t))]
        if not related:
            return True
        n = len(root.args[0])
        for length in (n + 1, n + 2, n + 3):
            if all(holds(t, pol, length) for t, pol in related):
                return True
    return not roots


def holds(t: V, pol: bool, length: int) -> bool:
    def number(x):
        if x.op == 'call' and call_name(x) == 'len':
            return length
        return cval(x) if x.op == 'const' and isinstance(cval(x), int) else None

    if t.op != 'cmp':
        n = number(t)
        return pol == (length > 0 if n is None else bool(n))
    op, a, b = t.args[0], number(t.args[1]), number(t.args[2])
    if a is None or b is None:
        return True
    return pol == {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}.get(op, pol)
