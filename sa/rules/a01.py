"""Nothing but the program's own files is ever created, changed or removed."""

import ast
import os
import re
from typing import List, Optional

from .. import sql
from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import Class, Func, Program, dotted
from ..origins import Origins
from .indexload import index_class
from .overlay import EFFECTS, OVERLAY, PATH_METHODS

EXPLANATION = (
    "Whole-program effect analysis: every construct which can create, change or remove a file is enumerated and the origins of its target are "
    "followed backwards through locals, attributes, helpers and the arguments of all callers. Outside of the write overlay, the confirmed commit "
    "and the guarded index operations, which have their own properties, targets may only be temporary files, the log file and the mount point, "
    "which is only removed if it was created; file objects of archives are never written to; databases which are archives are opened read-only."
)
OWN = re.compile(r'log_?file|mount_?point|write_?overlay|overlay|index|temp|tmp|output|target|destination', re.I)
ARCHIVE = re.compile(r'file_?or_?path|file_?obj|archive|tar_?file_?name|mount_?source|path_?to_?mount|real_?path|raw', re.I)
WRITERS = ('write', 'writelines', 'truncate')
OPENERS = {'open', 'ZipFile', 'TarFile', 'SevenZipFile', 'RarFile', 'LZMAFile', 'BZ2File', 'GzipFile', 'ZstdFile', 'FileIO', 'memmap', 'ArArchive', 'fdopen', 'taropen', 'gzopen', 'bz2open', 'xzopen'}
COMMANDS = {'fusermount', 'fusermount3', 'umount', 'tar', 'mount', 'diskutil', 'which'}


def run(prog: Program, c):
    c.rule('target', "files are only created, changed or removed if they are the program's own")
    c.rule('mode', "archives are only opened for reading")
    c.rule('object', "file objects of archives are not written to")
    c.rule('index', "index operations never target the archive itself")
    c.rule('database', "databases which are archives are opened read-only and only queried")
    c.rule('process', "only unmounting tools and the program itself are started")
    c.rule('mountpoint', "the mount point is only removed if it was created by the program")
    c.rule('handle', "only control files are written to directly through opened handles")
    o = Origins(prog)
    overlay = prog.cls(OVERLAY)
    index = index_class(prog)
    overlays = {k.node for k in prog.subclasses(overlay)} | {overlay.node}
    indexes = {k.node for k in prog.subclasses(index)} | {index.node}
    for name, sites in o.callsites.items():
        for call, fn, m, cls in sites:
            if '_external' in m.name or '.tests' in m.name:
                continue
            where = f"{m.rel}:{call.lineno} in {getattr(fn, 'name', '<lambda>')}"
            construct = f"{m.rel} {(cls.name + '.') if cls else ''}{getattr(fn, 'name', '<lambda>')}"
            commit = m is overlay.module and cls is None
            inOverlay = cls in overlays or (m is overlay.module and cls is not None)
            d = dotted(call.func) or ''
            full = external(prog, m, call.func) or d
            last = name
            kw = {k.arg: k.value for k in call.keywords if k.arg}

            def check(targets, what, effects=()):
                for t in targets:
                    leaves = o.leaves(t, fn, m, cls)
                    c.instance('mutating constructs', f"{construct} {what}")
                    c.functions.add(construct)
                    if cls in indexes or (fn is not None and only_for_index(o, prog, fn, indexes)):
                        local = archive_target(o, t, fn, m, cls)
                        c.check('index', f"{construct} {what}", not local, f"{what} on the archive itself: {ast.unparse(t)[:50]}", where)
                        continue
                    bad = [x for x in leaves if not allowed(x) or not fitting(x, effects, full)]
                    c.check('target', f"{construct} {what}", bool(leaves) and not bad, f"{what} on {ast.unparse(t)[:50]} which may be {sorted(bad)[:2]}", where)

            if full in EFFECTS and not inOverlay and not commit:
                for i, kind in EFFECTS[full]:
                    if kind != 'ref':
                        check(pick(call, i), full, (kind,))
                continue
            if full in ('os.open', 'open', 'io.open', 'builtins.open', 'os.fdopen', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open') and not inOverlay and not commit:
                mode = call.args[1] if len(call.args) > 1 else kw.get('flags' if full == 'os.open' else 'mode')
                if writes(mode, full == 'os.open', o, fn, m, cls):
                    check(call.args[:1] or [kw[k] for k in ('file', 'path') if k in kw], f"opening for writing")
                else:
                    c.check('mode', construct, True)
                continue
            if last in OPENERS and not inOverlay and not commit and full not in ('webbrowser.open',):
                mode = kw.get('mode') or (call.args[1] if len(call.args) > 1 and isinstance(call.args[1], ast.Constant) and isinstance(call.args[1].value, str) else None)
                if last == 'SevenZipFile' or last == 'ZipFile' or isinstance(mode, ast.Constant):
                    c.instance('archive openings', construct)
                value = mode.value if isinstance(mode, ast.Constant) else ''
                c.check('mode', construct, not (isinstance(value, str) and re.match(r'^[rwaxbtU+:|*a-z0-9]*$', value) and bool(re.match(r'^[wax]', value) or '+' in value)),
                        f"opens an archive with mode {value!r}", where)
                ro = kw.get('read_only')
                if ro is not None:
                    c.check('mode', construct, isinstance(ro, ast.Constant) and ro.value is True, "opens an archive writable", where)
                elif cls is not None and last == 'open' and isinstance(call.func, ast.Attribute) and driver_open(o, prog, call, fn, m, cls):
                    c.check('mode', construct, False, "opens an archive without the read-only option of the driver", where)
                continue
            if isinstance(call.func, ast.Attribute) and last in PATH_METHODS and not inOverlay and not commit and not isinstance(resolved(prog, m, call.func), Func):
                if path_object(o, call.func.value, fn, m, cls):
                    check([call.func.value], '.' + last, (PATH_METHODS[last],))
                continue
            if isinstance(call.func, ast.Attribute) and last in WRITERS and not inOverlay and not commit:
                leaves = o.leaves(call.func.value, fn, m, cls)
                bad = [x for x in leaves if x[0] in ('param', 'attr', 'key') and ARCHIVE.search(str(x[1]).split('.')[-1])]
                c.instance('written file objects', construct)
                c.check('object', construct, not bad, f"writes to {sorted(bad)[:2]}", where)
                continue
            if full.startswith('subprocess.') and last in ('run', 'Popen', 'call', 'check_call', 'check_output') or full in ('os.system', 'os.popen', 'os.execv', 'os.execvp', 'os.spawnv'):
                if not call.args or commit:
                    continue
                a = call.args[0]
                first = a.elts[0] if isinstance(a, (ast.List, ast.Tuple)) and a.elts else a
                names = {x[1].strip("'\"").split(' ')[0] if x[0] == 'const' else x[0] if x[0] != 'attr' and x[0] != 'call' else x[1] for x in o.leaves(first, fn, m, cls)}
                c.instance('processes', construct)
                c.check('process', construct, all(n in COMMANDS or 'executable' in n or 'which' in n or n in ('split', 'None', '') or 'environ' in n for n in names),
                        f"starts {sorted(names)[:3]}", where)
                continue
            if full == 'sqlite3.connect' and cls not in indexes and not inOverlay and not commit:
                t = call.args[0]
                leaves = o.leaves(t, fn, m, cls)
                consts = ' '.join(text_parts(o, t, fn, m, cls))
                c.instance('databases', construct)
                ok = all(x[0] == 'const' and ':memory:' in x[1] for x in leaves) and bool(leaves) or (
                    ('mode=ro' in consts or 'immutable=1' in consts) and isinstance(kw.get('uri'), ast.Constant) and kw['uri'].value is True)
                c.check('database', construct, ok, f"the database {ast.unparse(t)[:50]} is opened writable", where)
                continue
            if last in ('execute', 'executemany', 'executescript') and isinstance(call.func, ast.Attribute) and cls is not None and cls not in indexes and not inOverlay and is_source(prog, o, m, cls):
                k = o._class(m, cls)
                if k is not None and database_is_archive(k):
                    for x in ast.walk(call):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            w = re.match(r'\s*(INSERT|UPDATE|DELETE|DROP|CREATE|REPLACE|ALTER|VACUUM|REINDEX)\b', x.value, re.I)
                            c.check('database', f"{construct} statement", w is None, f"changes the archive: {x.value.strip()[:40]}", where)
    mountpoint(prog, c)
    handles(prog, c)
    c.floor('mutating constructs', 5)


def external(prog, m, node) -> Optional[str]:
    n = dotted(node)
    if not n:
        return None
    r = prog.resolve(m, n)
    if isinstance(r, tuple) and r and r[0] == 'ext':
        return str(r[1])
    return None


def resolved(prog, m, node):
    n = dotted(node)
    return prog.resolve(m, n) if n else None


def pick(call, i):
    if i < len(call.args):
        return [call.args[i]]
    names = {0: ('path', 'src', 'name'), 1: ('dst', 'target')}[i] if i in (0, 1) else ()
    return [k.value for k in call.keywords if k.arg in names]


def writes(mode, flags: bool, o, fn, m, cls) -> bool:
    if mode is None:
        return False
    if flags:
        names = {x.attr for x in ast.walk(mode) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(mode) if isinstance(x, ast.Name)}
        return bool(names & {'O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND'}) or not names & {'O_RDONLY', 'O_PATH', 'O_DIRECTORY'}
    values = [x[1] for x in o.leaves(mode, fn, m, cls) if x[0] == 'const']
    if isinstance(mode, ast.Constant):
        values = [repr(mode.value)]
    return any(set(v.strip("'\"")) & set('wax+') for v in values)


def allowed(leaf) -> bool:
    kind, name, how = leaf
    if kind in ('temp', 'const'):
        return True
    last = str(name).split('.')[-1]
    return bool(OWN.search(last)) and not ARCHIVE.search(last)


def fitting(leaf, effects, full) -> bool:
    """Log files, overlay folders, and mount points are created. Only created, empty mount points are removed again."""
    kind, name, how = leaf
    last = str(name).split('.')[-1]
    if kind in ('temp', 'const') or not set(effects) & {'rm', 'attr'} or re.search('te?mp|index', last, re.I):
        return True
    return bool(re.search('mount_?point', last, re.I)) and 'rm' in effects and full.split('.')[-1] in ('rmdir', 'unlink', 'remove')


def only_for_index(o, prog, fn, indexes, depth=0) -> bool:
    """A helper function which is only called with index locations: all its callers are methods of the index class."""
    if not hasattr(fn, 'name'):
        return False
    outer = o.owner.get(id(fn), (None, None, None))
    if outer[2] in indexes:
        return True
    sites = o.callsites.get(fn.name, ())
    return bool(sites) and all(s[3] in indexes for s in sites if s[1] is not fn)


def archive_target(o, t, fn, m, cls) -> bool:
    """Without looking at callers: the expression is an archive path itself."""

    saved = o._param_leaves
    try:
        o._param_leaves = lambda scope, name, m, cls, how, seen, depth: {('param', name, how)}
        leaves = o.leaves(t, fn, m, cls)
    finally:
        o._param_leaves = saved
    return any(how in ('same', 'child') and kind in ('param', 'attr', 'key') and re.search(r'archive|tar_?file|file_?obj|file_?or_?path', str(name), re.I) for kind, name, how in leaves)


def path_object(o, e, fn, m, cls) -> bool:
    """The receiver is a path: constructed by Path or annotated as such."""
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('Path', 'PosixPath'):
            return True
    if isinstance(e, ast.Name):
        for scope in o._scopes(fn):
            for x in o._own(scope):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    if any(isinstance(t, ast.Name) and t.id == e.id for t in ts) and 'Path(' in ast.unparse(x.value):
                        return True
            for a in (*scope.args.args, *scope.args.kwonlyargs):
                if a.arg == e.id and a.annotation is not None and 'Path' in ast.unparse(a.annotation):
                    return True
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and cls is not None:
        k = o._class(m, cls)
        for b in k.mro() if k else ():
            for value, *_ in o.selfstores.get((b.name, e.attr), ()):
                if 'Path(' in ast.unparse(value):
                    return True
    return False


def driver_open(o, prog, call, fn, m, cls) -> bool:
    """obj.open(...) on an object of a vendored driver class whose open has a read_only parameter which is False by default."""
    base = call.func.value
    if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == 'self':
        k = o._class(m, cls)
        for t in prog.attr_classes(k, base.attr) if k else ():
            f = t.find('open')
            if f is not None and 'read_only' in f.params:
                return True
        for b in k.mro() if k else ():
            for value, f2, m2, c2 in o.selfstores.get((b.name, base.attr), ()):
                if isinstance(value, ast.Call):
                    r = resolved(prog, m2, value.func)
                    if not isinstance(r, Class):
                        r = prog.cls((dotted(value.func) or '').split('.')[-1], required=False)
                    if isinstance(r, Class) and r.find('open') is not None and 'read_only' in r.find('open').params:
                        return True
                    if vendored_open_has(prog, m2, dotted(value.func) or '', 'read_only'):
                        return True
    return False


def vendored_open_has(prog, m, name, parameter) -> bool:
    """Whether the class imported under this name comes from the vendored drivers and its open method has the parameter."""
    target = m.imports.get(name, '')
    if '._external.' not in target:
        return False
    module, _, klass = target.rpartition('.')
    path = os.path.join(prog.repo, 'core', *module.split('.')) + '.py'
    if not os.path.isfile(path):
        return False
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    return any(
        isinstance(k, ast.ClassDef) and k.name == klass and any(
            isinstance(f, ast.FunctionDef) and f.name == 'open' and parameter in [a.arg for a in (*f.args.args, *f.args.kwonlyargs)] for f in k.body)
        for k in ast.walk(tree)
    )


def text_parts(o, e, fn, m, cls, depth=0) -> List[str]:
    out = []
    for x in ast.walk(e):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            out.append(x.value)
        elif isinstance(x, ast.Name) and depth < 4:
            for scope in o._scopes(fn):
                for y in o._own(scope):
                    if isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None and any(
                        isinstance(t, ast.Name) and t.id == x.id for t in (y.targets if isinstance(y, ast.Assign) else [y.target])
                    ):
                        out += text_parts(o, y.value, fn, m, cls, depth + 1)
        elif isinstance(x, ast.Call) and depth < 4:
            f = o._callee(x, fn, m, cls)
            if f is not None:
                for r in o._own(f.node):
                    if isinstance(r, ast.Return) and r.value is not None:
                        out += text_parts(o, r.value, f.node, f.module, f.cls.node if f.cls else None, depth + 1)
    return out


def is_source(prog, o, m, cls) -> bool:
    k = o._class(m, cls)
    return k is not None and any(b.name == 'MountSource' for b in k.mro())


def database_is_archive(k) -> bool:
    """The class connects to a database itself instead of using an index."""
    return any(isinstance(n, ast.Call) and (dotted(n.func) or '').endswith('.connect') for f in k.methods.values() for n in ast.walk(f.node))


class MountPointRule(Rule):
    initial = frozenset()
    max_depth = 3

    def __init__(self):
        self.made, self.removed = [], []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def on_call(self, cx, call, st):
        n = call_name(call)
        if n in ('os.mkdir', 'os.makedirs', '.mkdir'):
            self.made.append((call, st, cx.where()))
            return st.rs | {('made', call)}, st.rs
        if n in ('os.rmdir', 'os.removedirs', '.rmdir', 'shutil.rmtree', 'os.remove', 'os.unlink', '.unlink'):
            self.removed.append((call, dict(st.facts), cx.where()))
        return st.rs, st.rs

    def on_store(self, cx, base, key, value, st):
        if value is TRUE and isinstance(key, str) and base.op == 'self':
            self.flags.append((key, frozenset(st.rs), dict(st.facts), cx.where()))
        return st.rs


def subject(call: V) -> Optional[V]:
    """The path a call operates on."""
    r = call_recv(call)
    if r is not None and call_name(call).startswith('.'):
        return r
    return call_args(call)[0] if call_args(call) else None


def mountpoint(prog, c):
    fm = prog.cls('FuseMount')
    init = fm.find('__init__')
    rule = MountPointRule()
    rule.flags = []
    fl = Flow(prog, rule)
    ex = fl.run(init, fm)
    c.used(fl, init.where, len(ex))
    about = lambda v: any((x.op == 'attr' and re.search('mount_?point', str(x.args[1]), re.I)) or (x.op == 'param' and re.search('mount_?point', str(x.args[0]), re.I)) for x in subterms(v))
    good = set()
    for key, rs, facts, where in rule.flags:
        if any(r[0] == 'made' and subject(r[1]) is not None and about(subject(r[1])) for r in rs):
            good.add(key)
    for key, rs, facts, where in rule.flags:
        if key in good and not any(r[0] == 'made' and subject(r[1]) is not None and about(subject(r[1])) for r in rs):
            c.check('mountpoint', f"FuseMount sets {key}", False, f"{key} is set although the mount point already existed", where)
    for call, st, where in rule.made:
        if subject(call) is not None and about(subject(call)):
            tested = any(not p and k.op == 'call' and call_name(k) in ('os.path.exists', 'os.path.isdir', '.exists', '.is_dir', 'os.path.lexists') for k, p in st.facts.items())
            c.check('mountpoint', 'FuseMount creates', tested or call_name(call) in ('os.mkdir', '.mkdir'), "creates the mount point without checking whether it exists", where)
    n = 0
    for name, f in sorted(fm.methods.items()):
        if f is init or not any(isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('rmdir', 'rmtree', 'removedirs') for x in ast.walk(f.node)):
            continue
        r2 = MountPointRule()
        r2.flags = []
        fl = Flow(prog, r2)
        ex = fl.run(f, fm)
        c.used(fl, f.where, len(ex))
        for call, facts, where in r2.removed:
            a = subject(call)
            if a is None or not about(a):
                continue
            n += 1
            flag = any(
                p and any((x.op == 'attr' and x.args[1] in good) or (x.op == 'const' and cval(x) in good) for x in subterms(k)) and 'not' not in k.op
                for k, p in facts.items()
            )
            c.check('mountpoint', f"{name} removes", flag and call_name(call) in ('os.rmdir', '.rmdir'), "removes the mount point although it may have existed before", where)
    c.instance('removals of the mount point', str(n))


class HandleRule(Rule):
    initial = frozenset()
    max_depth = 3

    def __init__(self):
        self.writes = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def may_raise(self, cx, call):
        return False

    def on_call(self, cx, call, st):
        n = call_name(call)
        r = call_recv(call)
        if r is not None and n in ('.write', '.writelines', '.truncate') and any(x.op == 'attr' and x.args[1] == 'openedFiles' for x in subterms(r)):
            self.writes.append((call, r, dict(st.facts), cx.where()))
        if n in ('os.write', 'os.ftruncate', 'os.pwrite') and any(x.op == 'attr' and x.args[1] == 'openedFiles' for x in subterms(call_args(call)[0])):
            self.writes.append((call, call_args(call)[0], dict(st.facts), cx.where()))
        return st.rs, st.rs


def handles(prog, c):
    fm = prog.cls('FuseMount')
    for op in ('write', 'truncate', 'flush', 'release', 'fsync'):
        f = fm.find(op)
        if f is None:
            continue
        rule = HandleRule()
        fl = Flow(prog, rule)
        ex = fl.run(f, fm)
        c.used(fl, f.where, len(ex))
        for call, r, facts, where in rule.writes:
            ok = any(p and k.op == 'call' and call_name(k) == 'isinstance' and call_args(k)[0] is r and 'CommandFile' in show(call_args(k)[1]) for k, p in facts.items())
            overlayHandle = any(p and 'overlay' in show(k).lower() for k, p in facts.items())
            c.check('handle', f"FuseMount.{op}", ok or overlayHandle, f"{show(call)[:50]} may write to a file of an archive", where)
