"""The process providing a mount never accesses its own mount while it handles a request."""

import ast

from ..flow import Flow, Rule, V, call_args, call_kw, call_name, call_recv, cval, is_const, mk, show, subterms
from ..model import Program, dotted, walk_own
from .fusemount import MOUNT
from .overlay import OVERLAY

EXPLANATION = (
    "Taint analysis from the arguments of commands to accesses of the file system (sanitized only by a preceding comparison with the mount point), effect analysis of "
    "the request handlers for waiting on other processes, guards of the actions which access mount points, and typestate of the folder which is mounted on."
)
TOUCH = {'os.path.' + x for x in ('exists', 'lexists', 'isfile', 'isdir', 'islink', 'ismount', 'realpath', 'getsize', 'getmtime', 'samefile')} | {
    'os.' + x for x in ('stat', 'lstat', 'listdir', 'scandir', 'open', 'access', 'readlink', 'mkdir', 'makedirs', 'statvfs', 'walk', 'remove', 'unlink', 'rmdir', 'chdir', 'utime', 'chmod')
} | {'open', 'io.open', 'shutil.disk_usage', 'zipfile.is_zipfile', 'shutil.rmtree'}
TOUCH_METHODS = {'.' + x for x in ('read_bytes', 'read_text', 'resolve', 'exists', 'is_dir', 'is_file', 'stat', 'lstat', 'iterdir', 'mkdir', 'samefile', 'is_mount')}
FOLLOW = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.realpath', 'os.stat', 'open', 'os.path.getsize', 'os.scandir', 'os.listdir', 'os.access', 'os.path.samefile'}
WAITS = {'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.getoutput', 'os.system', 'os.waitpid', 'os.wait', 'os.popen'}
WAIT_METHODS = {'wait', 'communicate'}
INSIDE = '_path_provided_by_us'
FILTER = '_filter_index_locations_in_fuse_mount'
FD = 'set_folder_descriptor'


def locate(mount):
    """The comparison with the mount point and the filter of index locations, whatever they are called."""
    global INSIDE, FILTER
    inside, locations = [], []
    for f in mount.methods.values():
        names = {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
        texts = {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if len(f.params) == 2 and 'mountPoint' in names and names & {'removeprefix', 'startswith', 'commonpath', 'relpath', 'is_relative_to'}:
            inside.append(f.name)
        if len(f.params) == 2 and {'indexFilePath', 'indexFolders'} <= texts and f.name.startswith('_') and not f.name.startswith('__'):
            locations.append(f.name)
    INSIDE = '_path_provided_by_us' if mount.find('_path_provided_by_us') or not inside else inside[0]
    FILTER = '_filter_index_locations_in_fuse_mount' if mount.find('_filter_index_locations_in_fuse_mount') or not locations else locations[0]


def run(prog: Program, c):
    c.rule('commands', "paths given in commands are only accessed after they have been found to lie outside of the mount")
    c.rule('index', "indexes are neither read from nor written to the mount itself")
    c.rule('waiting', "no request waits for another process, which might be waiting for the mount")
    c.rule('context', "actions which access arbitrary mount points are refused while a request is being handled")
    c.rule('folder', "a folder which is mounted on is accessed only through a descriptor opened before")
    c.rule('links', "links in a folder which is mounted on are not followed back into the mount")
    c.rule('overlay', "the database of a write overlay in the folder which is mounted on needs no further files")
    mount = prog.cls(MOUNT)
    locate(mount)
    commands(prog, c, mount)
    index_locations(prog, c, mount)
    waiting(prog, c, mount)
    context(prog, c)
    folder(prog, c, mount)
    overlay_database(prog, c)


def inside_tests(facts):
    """Paths which have been compared with the mount point, with the outcome."""
    for t, pol in facts.items():
        if t.op == 'cmp' and t.args[0] == 'is' and isinstance(t.args[1], V) and call_name(t.args[1]) == '.' + INSIDE and is_const(t.args[2], None):
            yield call_args(t.args[1])[0], pol
        elif t.op == 'call' and call_name(t) == '.' + INSIDE and pol:
            yield call_args(t)[0], False


def related(a: V, b: V) -> bool:
    return a is b or a in set(subterms(b)) or b in set(subterms(a))


def quantified(facts):
    """Collections of which all paths have been found outside."""
    for t, pol in facts.items():
        if t.op != 'call' or call_name(t) not in ('any', 'all'):
            continue
        wanted = call_name(t) == 'all'
        for x in subterms(t):
            if x.op == 'cmp' and isinstance(x.args[1], V) and call_name(x.args[1]) == '.' + INSIDE and is_const(x.args[2], None):
                negated = any(y.op == 'un' and x in set(subterms(y)) for y in subterms(t)) or x.args[0] in ('is not', '!=')
                outside = (x.args[0] in ('is', '==')) != any(y.op == 'un' and y.args[0] in ('not', 'Not') and x in set(subterms(y)) for y in subterms(t))
                del negated
                if pol == wanted and outside == wanted:
                    for y in subterms(call_args(x.args[1])[0]):
                        if y.op == 'iter':
                            yield y.args[0]
    for t, pol in facts.items():
        # There is no item for which a path inside of the mount has been found.
        sized = t.op == 'cmp' and t.args[0] in ('==', '>') and any(is_const(x, 0) for x in t.args[1:])
        lists = [x for x in ([t] if t.op == 'comp' else list(subterms(t)) if t.op == 'call' and call_name(t) == 'any' or sized else []) if x.op == 'comp']
        if (t.args[0] == '==' if sized else False) != pol:
            continue
        for x in lists:
            outside = [p for p, out in inside_tests(dict(x.args[4] if len(x.args) > 4 else x.args[3])) if not out]
            for p in outside:
                for y in subterms(p):
                    if y.op == 'iter':
                        yield y.args[0]


class Commands(Rule):
    """rs: set of ('filtered', options) and collections known to lie outside."""

    initial = frozenset()
    max_depth = 6
    exc_exits = False

    def __init__(self, prog):
        self.prog = prog
        self.touched = []
        self.seen = 0

    def inline(self, cx, func, recv):
        if recv is not None and recv.op == 'self':
            return func.name not in (INSIDE, FILTER, 'unmount', '_lookup', '_create_multi_mount')
        return recv is None and func.module.name.startswith('ratarmount.') and func.name not in ('create_parser',)

    def may_raise(self, cx, call):
        return False

    def keep_fact(self, cond):
        return any(x.op == 'call' and call_name(x) == '.' + INSIDE for x in subterms(cond))

    @staticmethod
    def tainted(v: V) -> bool:
        return any(x.op == 'param' and x.args[0] in ('args', 'path') or x.op == 'call' and call_name(x) == '.parse_args' for x in subterms(v))

    def safe(self, v: V, st, whole=None) -> bool:
        for path, outside in inside_tests(st.facts):
            if outside and related(path, v):
                return True
        ranges = list(quantified(st.facts)) + [
            x[1] for x in st.rs if x[0] == 'verified' or x[0] == 'iterated' and ('open', x[1]) not in st.rs and not any(y[0] == 'missed' and y[1] is x[1] for y in st.rs)
        ]
        for x in subterms(v):
            if x.op == 'iter' and x.args[0] in ranges:
                return True
        return False

    @staticmethod
    def tracked(it) -> bool:
        return any(x.op == 'attr' and x.args[1] == 'mount_source' for x in subterms(it))

    def on_iter(self, cx, it, st):
        if not self.tracked(it):
            return st.rs
        loop = id(cx.node)
        rs = st.rs
        if any(x[0] == 'iterated' and x[1] is it and x[2] != loop for x in rs) and ('open', it) not in rs and not any(x[0] == 'missed' and x[1] is it for x in rs):
            rs = rs | {('verified', it)}
        missed = ('open', it) in rs
        rs = frozenset(x for x in rs if not (x[0] in ('iterated', 'missed', 'open') and x[1] is it and (x[0] != 'missed' or x[2] != loop)))
        return rs | {('missed' if missed else 'iterated', it, loop)}

    def on_item(self, cx, it, item, st):
        return st.rs | {('open', it)} if self.tracked(it) else st.rs

    def on_break(self, cx, it, st):
        return st.rs | {('missed', it, 0)} if self.tracked(it) else st.rs

    def on_assume(self, cx, cond, polarity, st):
        rs = st.rs
        for path, outside in inside_tests({cond: polarity}):
            if outside and path.op == 'iter':
                rs = rs - {('open', path.args[0])}
        return rs

    def on_call(self, cx, call, st):
        n, a, r = call_name(call), call_args(call), call_recv(call)
        rs = st.rs
        path = None
        if n in TOUCH or n.split('.')[-1] == 'open_mount_source' and not n.startswith('.'):
            path = a[0] if a else None
        elif n in TOUCH_METHODS and r is not None and r.op == 'call' and call_name(r).split('.')[-1] in ('Path', 'PurePath'):
            path = call_args(r)[0] if call_args(r) else None
        if n == '.' + FILTER and a:
            rs = rs | {('filtered', a[0])}
        if path is not None and self.tainted(path):
            self.seen += 1
            if not self.safe(path, st):
                self.touched.append((n, path, cx.where()))
        if n.split('.')[-1] in ('open_mount_source', 'AutoMountLayer') and not n.startswith('.'):
            if not any(x[0] == 'filtered' for x in rs):
                self.touched.append((n + ' options', None, cx.where()))
        return rs, st.rs


def commands(prog, c, mount):
    f = mount.find('_parse_command')
    if f is None:
        return  # There are no commands.
    if not c.check('commands', INSIDE, mount.find(INSIDE) is not None, "paths are not compared with the mount point anymore", mount.where):
        return
    rule = Commands(prog)
    flow = Flow(prog, rule)
    exits = flow.run(f, mount)
    c.used(flow, f.where, len(exits))
    c.instance('command handlers', f.name)
    for n, path, where in rule.touched:
        if path is None:
            c.check('index', f"{n}", False, "opens an archive with index locations which might lie inside of the mount", where)
        else:
            c.check('commands', f"{n}", False, f"accesses {show(path)[:60]} without knowing that it lies outside of the mount", where)
    c.check('commands', f.name, True, '', f.where)
    test = mount.find(INSIDE)
    rule = Effects()
    flow = Flow(prog, rule)
    exits = flow.run(test, mount)
    c.used(flow, test.where, len(exits))
    c.instance('comparisons with the mount point', test.name)
    c.check('commands', f"{INSIDE} accesses", not rule.touched, "accesses the file system itself", rule.touched[0] if rule.touched else test.where)
    c.check('commands', f"{INSIDE} leading slashes", rule.slashes, "paths with two leading slashes are taken to lie outside of the mount", test.where)
    path = mk('param', test.params[1])
    for kind, v, st in exits:
        if kind != 'return':
            continue
        same = any(t.op == 'cmp' and t.args[0] == '==' and any(isinstance(x, V) and x.op == 'attr' and x.args[1] == 'mountPoint' for x in t.args[1:]) and pol for t, pol in st.facts.items())
        if same:
            c.check('commands', f"{INSIDE} itself", not is_const(v, None), "does not recognize the mount point itself", test.where)
        if v.op == 'const' and cval(v) is None:
            normal = any(any(x.op == 'call' and call_name(x) in ('os.path.normpath', 'os.path.abspath') for x in subterms(t)) for t in st.facts)
            c.check('commands', f"{INSIDE} normalized", normal, "compares paths which are not normalized", test.where)
    for kind, v, st in exits:
        for x in [y for t in [v] + list(st.facts) for y in subterms(t)]:
            parts = joined(x)
            at = next((i for i, y in enumerate(parts) if y.op == 'attr' and y.args[1] == 'mountPoint'), None)
            if x.op not in ('bin', 'fstr') or at is None or at + 1 == len(parts):
                continue
            after = parts[at + 1:]
            c.check('commands', f"{INSIDE} separator", len(after) == 1 and (after[0].op != 'const' or cval(after[0]) in ('/', '\\')),
                    f"compares with {show(x)[:60]}, with which not all paths inside of the mount begin", test.where)
    c.check('commands', f"{INSIDE} inside", any(kind == 'return' and v.op != 'const' and path in set(subterms(v)) for kind, v, st in exits), "does not recognize paths inside of the mount", test.where)


def joined(v: V):
    """The parts of a concatenation."""
    if v.op == 'bin' and v.args[0] == 'Add':
        return joined(v.args[1]) + joined(v.args[2])
    if v.op == 'call' and call_name(v) in ('.strip', '.rstrip', '.lstrip') and call_recv(v) is not None:
        return joined(call_recv(v))
    if v.op == 'fstr':
        return [z for y in v.args[0] for z in joined(y)]
    return [v]


class Effects(Rule):
    initial = ()
    max_depth = 4
    exc_exits = False

    slashes = False

    def __init__(self):
        self.touched = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def keep_fact(self, cond):
        return True

    def on_call(self, cx, call, st):
        if call_name(call) in TOUCH:
            self.touched.append(cx.where())
        n, a = call_name(call).split('.')[-1], [cval(x) for x in call_args(call)]
        if n in ('lstrip', 'strip', 'startswith', 'replace', 'removeprefix') and any(isinstance(x, str) and x.startswith('/') for x in a[:1]) and (n in ('lstrip', 'strip') or a[0] == '//') or call_name(call) == 're.sub':
            self.slashes = True
        return st.rs, st.rs


# ---------------------------------------------------------------------------------------------------------------------


class Locations(Rule):
    """Which values are stored as index locations. rs: stored values."""

    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def __init__(self):
        self.kept = []
        self.touched = []
        self.memory = False

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and func.name != INSIDE

    def may_raise(self, cx, call):
        return False

    def keep_fact(self, cond):
        return True

    @staticmethod
    def known(st):
        return dict(st.rs)

    def safe(self, v, st) -> bool:
        return any(outside and related(p, v) for p, outside in inside_tests(self.known(st)))

    def on_assume(self, cx, cond, polarity, st):
        if any(x.op == 'call' and call_name(x) == '.' + INSIDE or x.op == 'const' and cval(x) in ('://', ':memory:', '') or x.op == 'attr' and x.args[1] == 'selfBindMount'
               for x in subterms(cond)) or cond.op == 'iter':
            return frozenset(x for x in st.rs if x[0] is not cond) | {(cond, polarity)}
        return st.rs

    def on_item(self, cx, it, item, st):
        # What is known about the item before does not hold for the next one.
        return frozenset(x for x in st.rs if item not in set(subterms(x[0])))

    def on_call(self, cx, call, st):
        n, a, r = call_name(call), call_args(call), call_recv(call)
        if n in TOUCH and a:
            if not self.safe(a[0], st):
                self.touched.append((n, a[0], cx.where()))
        if n == '.append' and a:
            self.keep(a[0], st, cx)
        return st.rs, st.rs

    def on_store(self, cx, base, key, value, st):
        if base.op == 'param' and isinstance(key, V) and is_const(key, 'indexFilePath') or key == 'indexFilePath':
            if is_const(value, ':memory:'):
                self.memory = True
            else:
                self.keep(value, st, cx)
        return st.rs

    def keep(self, v, st, cx):
        facts = self.known(st)
        empty = any(t is v and not pol or t.op == 'cmp' and t.args[0] == '==' and v in t.args and any(is_const(x, '') for x in t.args[1:]) and pol for t, pol in facts.items()) or is_const(v, '')
        url = any(t.op == 'cmp' and t.args[0] == 'in' and is_const(t.args[1], '://') and related(t.args[2], v) and pol for t, pol in facts.items())
        memory = any(t.op == 'cmp' and t.args[0] == '==' and any(is_const(x, ':memory:') for x in t.args[1:]) and pol for t, pol in facts.items())
        if empty:
            bound = [(t, pol) for t, pol in facts.items() if any(x.op == 'attr' and x.args[1] == 'selfBindMount' for x in subterms(t))]
            ok = any((t.op == 'cmp' and t.args[0] in ('is', '==')) == pol for t, pol in bound)
            self.kept.append((v, ok, cx.where(), "the folder of the archive, which is mounted on"))
            return
        absolute = any(x.op == 'call' and call_name(x) in ('os.path.abspath', 'os.path.realpath') for x in subterms(v)) or v.op == 'phi'
        resolved = [x for x in subterms(v) if x.op == 'call' and call_name(x) in ('os.path.realpath', '.resolve')]
        again = all(any(outside and x in set(subterms(p)) for p, outside in inside_tests(facts)) for x in resolved)
        self.kept.append((v, self.safe(v, st) and again or url or memory, cx.where(), show(v)[:60]))
        home = any(x.op == 'call' and call_name(x) == 'os.path.expanduser' for x in subterms(v))
        if any(x.op == 'iter' for x in subterms(v)) and absolute and not home:
            self.kept.append((v, False, cx.where(), "a location relative to the home folder as one relative to the current working directory"))


class Bound(Rule):
    """rs: (a folder is mounted on itself, it may be lazy, index locations have been filtered, descriptor)"""

    initial = (False, False, False, False)
    max_depth = 3
    exc_exits = False

    def __init__(self):
        self.unfiltered = []
        self.layers = 0

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self' and func.name not in (FILTER, '_create_multi_mount')

    def inline_new(self, cx, cls):
        return False

    def may_raise(self, cx, call):
        return False

    def on_store(self, cx, base, key, value, st):
        bound, lazy, filtered, fd = st.rs
        if base.op == 'self' and key == 'selfBindMount' and not is_const(value, None):
            bound = lazy = True
        if base.op == 'self' and key == 'mountPointFd' and value.op == 'call' and call_name(value) == 'os.open':
            fd = True
        return bound, lazy, filtered, fd

    def on_assume(self, cx, cond, polarity, st):
        bound, lazy, filtered, fd = st.rs
        if bound and not polarity and any(x.op == 'const' and cval(x) == 'lazyMounting' for x in subterms(cond)):
            lazy = False
        return bound, lazy, filtered, fd

    def on_call(self, cx, call, st):
        bound, lazy, filtered, fd = st.rs
        n = call_name(call)
        if n == '.' + FILTER:
            filtered = True
        if n.split('.')[-1] == 'AutoMountLayer':
            self.layers += 1
            if bound and lazy and not filtered:
                self.unfiltered.append(cx.where())
        return (bound, lazy, filtered, fd), st.rs


def index_locations(prog, c, mount):
    f = mount.find(FILTER)
    if not c.check('index', FILTER, f is not None, "index locations inside of the mount are not excluded anymore", mount.where):
        return
    rule = Locations()
    flow = Flow(prog, rule)
    exits = flow.run(f, mount)
    c.used(flow, f.where, len(exits))
    c.instance('filters of index locations', f.name)
    for n, v, where in rule.touched:
        c.check('index', n, False, f"accesses {show(v)[:60]} before knowing that it lies outside of the mount", where)
    for v, ok, where, what in rule.kept:
        c.check('index', 'kept', ok, f"keeps {what} as index location without knowing that it lies outside of the mount", where)
    c.check('index', 'memory', rule.memory, "does not fall back to an index in memory when no location is left", f.where)
    init = mount.find('__init__')
    rule = Bound()
    flow = Flow(prog, rule)
    exits = flow.run(init, mount)
    c.used(flow, init.where, len(exits))
    c.check('index', 'lazy', not rule.unfiltered, "mounts archives lazily on demand without having excluded index locations inside of the mount", rule.unfiltered[0] if rule.unfiltered else init.where)
    some = False
    for kind, v, st in exits:
        bound, lazy, filtered, fd = st.rs
        if kind == 'return' and bound:
            some = True
            c.check('folder', 'descriptor', fd, "mounts on a folder without having opened it before", init.where)
    c.check('folder', 'recognized', some, "a folder which is mounted on itself is not recognized anymore", init.where)


# ---------------------------------------------------------------------------------------------------------------------


def waiting(prog, c, mount):
    overlay = prog.cls(OVERLAY, False)
    for cls in (mount, overlay):
        if cls is None:
            continue
        todo = [f for f in cls.methods.values() if f.name not in ('_close', '__exit__', '__del__', '__init__', 'destroy')]
        done = set()
        while todo:
            f = todo.pop()
            if f.where in done:
                continue
            done.add(f.where)
            c.instance('request handlers', f.where)
            for x in walk_own(f.node):
                if not isinstance(x, ast.Call):
                    continue
                d = dotted(x.func) or ''
                last = d.split('.')[-1] if d else x.func.attr if isinstance(x.func, ast.Attribute) else ''
                bad = d in WAITS or isinstance(x.func, ast.Attribute) and last in WAIT_METHODS
                c.check('waiting', f.name, not bad, f"waits for another process ({last})", f"{f.where}:{x.lineno}")
                if d in ('subprocess.Popen', 'Popen'):
                    cwd = [k.value for k in x.keywords if k.arg == 'cwd']
                    root = cwd and isinstance(cwd[0], ast.Constant) and isinstance(cwd[0].value, str) and cwd[0].value.startswith('/') or cwd and 'gettempdir' in ast.unparse(cwd[0])
                    named = cwd and isinstance(cwd[0], (ast.Name, ast.Attribute)) and 'mountPoint' not in ast.unparse(cwd[0])
                    c.check('waiting', f"{f.name} folder", bool(root or named), "starts a process inside of the current working directory, which may be the mount", f"{f.where}:{x.lineno}")
                # Functions of the same module.
                if isinstance(x.func, ast.Name) and x.func.id in f.module.funcs:
                    todo.append(f.module.funcs[x.func.id])


# ---------------------------------------------------------------------------------------------------------------------


class Context(Rule):
    initial = ()
    max_depth = 5
    exc_exits = False

    def __init__(self):
        self.first = []
        self.seen = 0

    def inline(self, cx, func, recv):
        return recv is None and func.module.name == 'ratarmount.actions' and func.name != 'is_inside_fuse_context'

    def may_raise(self, cx, call):
        return False

    def keep_fact(self, cond):
        return any(x.op == 'call' and call_name(x).split('.')[-1] == 'is_inside_fuse_context' for x in subterms(cond))

    def on_call(self, cx, call, st):
        n = call_name(call)
        if n in TOUCH or n.split('.')[-1] in ('FUSE', MOUNT) or n == 'subprocess.run':
            self.seen += 1
            ok = any(call_name(t).split('.')[-1] == 'is_inside_fuse_context' and not pol for t, pol in st.facts.items() if t.op == 'call')
            self.first.append((ok, n, cx.where()))
        return st.rs, st.rs


def context(prog, c):
    actions = prog.modules.get('ratarmount.actions')
    if actions is None:
        return
    guard = actions.funcs.get('is_inside_fuse_context')
    if not c.check('context', 'is_inside_fuse_context', guard is not None, "calls from inside of a mount are not recognized anymore", 'ratarmount/actions.py'):
        return
    src = ast.unparse(guard.node)
    c.check('context', 'is_inside_fuse_context', 'Operations' in src and ('stack' in src or 'getframe' in src or 'currentframe' in src), "does not look for the operations of a mount in its callers", guard.where)
    for name in ('create_fuse_mount', 'unmount_list_checked', 'process_parsed_arguments', 'determine_mount_point'):
        f = actions.funcs.get(name)
        if f is None:
            continue
        c.instance('guarded actions', name)
        rule = Context()
        flow = Flow(prog, rule)
        exits = flow.run(f, None)
        c.used(flow, f.where, len(exits))
        bad = [x for x in rule.first if not x[0]]
        c.check('context', name, not bad, f"accesses mount points ({bad[0][1] if bad else ''}) even when called by the mount itself", bad[0][2] if bad else f.where)


# ---------------------------------------------------------------------------------------------------------------------


class Init(Rule):
    """rs: set of receivers set_folder_descriptor has been called on"""

    initial = frozenset()
    max_depth = 4
    exc_exits = False

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def keep_fact(self, cond):
        return True

    def on_call(self, cx, call, st):
        fn = call.args[0]
        target = None
        if call_name(call) == 'callable':
            return st.rs, st.rs
        if fn.op == 'attr' and fn.args[1] == FD:
            target = fn.args[0]
        elif fn.op == 'call' and call_name(fn) == 'getattr' and len(call_args(fn)) > 1 and is_const(call_args(fn)[1], FD):
            target = call_args(fn)[0]
        if target is not None:
            arg = call_args(call)[0] if call_args(call) else None
            good = arg is not None and arg.op == 'attr' and arg.args[1] == 'mountPointFd'
            return st.rs | {('called' if good else 'wrong', target.args[1] if target.op == 'attr' else show(target)[:40])}, st.rs
        return st.rs, st.rs

    def on_assume(self, cx, cond, polarity, st):
        negated = cond.op == 'cmp' and cond.args[0] in ('is', '==')
        tested = [x for x in cond.args[1:] if isinstance(x, V)] if cond.op == 'cmp' else [cond]
        rs = st.rs
        for t in tested:
            if t.op == 'call' and call_name(t) in ('callable', 'bool') and call_args(t):
                t = call_args(t)[0]
            if t.op == 'attr' and polarity == negated:
                if t.args[1] in ('selfBindMount', 'mountPointFd') and any(is_const(x, None) for x in tested + [cond] if x is not t) | (not negated):
                    rs = rs | {('unset',)}
                elif t.args[1] == 'writeOverlay':
                    rs = rs | {('apart',)}
            is_fd = t.op == 'attr' and t.args[1] == FD or t.op == 'call' and call_name(t) in ('getattr', 'hasattr') and len(call_args(t)) > 1 and is_const(call_args(t)[1], FD)
            if is_fd and polarity == negated:
                rs = rs | {('absent',)}
            if t.op == 'attr' and t.args[1] == 'root' and cond.op == 'cmp' and polarity != negated:
                rs = rs | {('apart',)}
        return rs


class Descriptor(Rule):
    initial = frozenset()
    max_depth = 3
    exc_exits = False

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def on_call(self, cx, call, st):
        if call_name(call) == 'os.fchdir' and call_args(call) and call_args(call)[0].op == 'param':
            return st.rs | {'entered'}, st.rs
        return st.rs, st.rs


class Follow(Rule):
    """Accesses following links."""

    initial = ()
    max_depth = 6
    exc_exits = False

    def __init__(self):
        self.followed = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def keep_fact(self, cond):
        return True

    def on_call(self, cx, call, st):
        n, a = call_name(call), call_args(call)
        if n in FOLLOW and a:
            kw = call_kw(call)
            link = [t for t, pol in st.facts.items() if pol and t.op == 'call' and call_name(t) in ('os.path.islink', '.is_symlink')
                    and (not call_args(t) or related(call_args(t)[0], a[0]))]
            if link and not is_const(kw.get('follow_symlinks', mk('const', 'bool', True)), False):
                self.followed.append((n, dict(st.facts), cx.where()))
        return st.rs, st.rs


def folder(prog, c, mount):
    init = mount.find('init')
    if c.check('folder', 'init', init is not None, "the folder which is mounted on is accessed through the mount", mount.where):
        rule = Init()
        flow = Flow(prog, rule)
        exits = flow.run(init, mount)
        c.used(flow, init.where, len(exits))
        c.instance('initializations', init.name)
        for kind, v, st in exits:
            if kind != 'return':
                continue
            if ('unset',) in st.rs:
                continue
            done = {x[1] for x in st.rs if x[0] == 'called'}
            c.check('folder', 'init mount', 'selfBindMount' in done or ('absent',) in st.rs, "the folder which is mounted on is accessed through the mount", init.where)
            c.check('folder', 'init overlay', 'writeOverlay' in done or ('apart',) in st.rs, "the write overlay which is mounted on is accessed through the mount", init.where)
    owners = [x for x in prog.all_classes() if FD in x.methods]
    for name in ('FolderMountSource', 'IndexedFolderMountSource', OVERLAY):
        k = prog.cls(name, False)
        if k is not None:
            c.check('folder', name, k.find(FD) is not None, "cannot be accessed through a descriptor", k.where)
    for k in owners:
        f = k.methods[FD]
        flow = Flow(prog, Descriptor())
        exits = flow.run(f, k)
        c.used(flow, f.where, len(exits))
        c.instance('folders which may be mounted on', k.name)
        attrs = set()
        for kind, v, st in exits:
            if kind != 'return':
                continue
            root = [x for (b, a), x in st.heap.items() if b.op == 'self' and a == 'root']
            attrs |= {a for (b, a) in st.heap if b.op == 'self' and isinstance(a, str)} - {'root', '_statfs'}
            c.check('folder', f"{k.name} entered", 'entered' in st.rs, "does not change to the folder", f.where)
            c.check('folder', f"{k.name} relative", len(root) == 1 and root[0].op == 'const' and not str(cval(root[0])).startswith('/'), "still uses the path which is mounted on", f.where)
        m = k.find('lookup')
        if m is None or not any('islink' in ast.unparse(g.node) or 'is_symlink' in ast.unparse(g.node) for g in [m] + list(k.methods.values())):
            continue
        for op in ('lookup', 'open', 'list', 'list_mode', 'get_xattr', 'list_xattr'):
            m = k.methods.get(op)
            if m is None:
                continue
            rule = Follow()
            flow = Flow(prog, rule)
            exits = flow.run(m, k)
            c.used(flow, m.where, len(exits))
            for n, facts, where in rule.followed:
                known = any(x.op == 'attr' and x.args[1] in attrs for t in facts for x in subterms(t))
                c.check('links', f"{k.name}.{op} {n}", known, "follows a link which may lead back into the mount", where)


class Database(Rule):
    initial = frozenset()
    max_depth = 3
    exc_exits = False

    def inline(self, cx, func, recv):
        return recv is not None and recv.op in ('self', 'cls') or recv is None and func.module is cx.entry_module or func.cls is not None and func.is_static

    def on_call(self, cx, call, st):
        n, a = call_name(call), call_args(call)
        if n in ('.execute', '.executescript', '.executemany') and a and a[0].op == 'const' and isinstance(cval(a[0]), str):
            return st.rs | {' '.join(cval(a[0]).lower().split())}, st.rs | {' '.join(cval(a[0]).lower().split())}
        return st.rs, st.rs


WRITING = ('insert', 'update', 'delete', 'replace', 'create table', 'drop', 'pragma user_version =', 'pragma user_version=', 'pragma application_id =', 'vacuum')


def overlay_database(prog, c):
    cls = prog.cls(OVERLAY, False)
    if cls is None or FD not in cls.methods:
        return
    init = cls.find('__init__')
    flow = Flow(prog, Database())
    exits = flow.run(init, cls)
    c.used(flow, init.where, len(exits))
    c.instance('overlay databases', cls.name)
    for kind, v, st in exits:
        if kind != 'return':
            continue
        text = ';'.join(x.rstrip(';') for x in st.rs)
        statements = [x.strip() for x in text.replace('/*', ';').split(';')]
        nojournal = any(x.replace(' ', '') in ('pragmajournal_mode=memory', 'pragmajournal_mode=off') for x in statements)
        exclusive = any(x.replace(' ', '') == 'pragmalocking_mode=exclusive' for x in statements)
        written = any(x.startswith(WRITING) for x in statements)
        c.check('overlay', cls.name, nojournal or exclusive and written, "the journal of the database is first opened by its path while a request is being handled", init.where)
