"""Typestate of the write overlay, shared by W01..W06.

The analysed objects are the FUSE operations of WritableFolderMountSource (entry points by their libfuse names).
Rule state: a finite map of facts about every request path P of the operation:

  ('real', P)   overlay copy of P known to exist / not to exist
  ('under', P)  combined view (mount source) known to contain P / not to contain P
  ('isdel', P)  P known to be flagged as deleted / not flagged
  ('db', P)     last write to the deleted flag of P in this operation: 'marked' or 'cleared'
  ('row', P)    a metadata row for P is known to exist
  ('chk', P)    P was compared with the protected prefixes (False = does not match)
  ('par', P)    the parent folder of P exists in the overlay, or does not exist in the mount source
  ('copied', P) complete content of the combined view's P was written to the overlay copy
  ('meta', P, column) value written into the metadata row
"""

import re
from typing import Dict, List, Optional, Tuple

from ..flow import (
    FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, const, contains, cval, mentions, mk, show,
    subterms,
)
from ..model import AnalysisBroken, Func, Program
from .. import sql

OVERLAY = 'WritableFolderMountSource'

# FUSE operation -> roles of the leading path parameters
OPS: Dict[str, Tuple[str, ...]] = {
    'chmod': ('attr',),
    'chown': ('attr',),
    'utimens': ('attr',),
    'rename': ('remove', 'create'),
    'symlink': ('create', 'text'),
    'link': ('create', 'source'),
    'mkdir': ('create',),
    'rmdir': ('remove',),
    'open': ('modify',),
    'create': ('create',),
    'unlink': ('remove',),
    'mknod': ('create',),
    'truncate': ('modify',),
    'write': ('handle',),
}

# API -> ((argument index, effect), ...)
EFFECTS = {
    'os.unlink': ((0, 'rm'),), 'os.remove': ((0, 'rm'),), 'os.rmdir': ((0, 'rm'),), 'os.removedirs': ((0, 'rm'),),
    'shutil.rmtree': ((0, 'rm'),),
    'os.rename': ((0, 'rm'), (1, 'mk')), 'os.replace': ((0, 'rm'), (1, 'mk')), 'os.renames': ((0, 'rm'), (1, 'mk')),
    'shutil.move': ((0, 'rm'), (1, 'mk')),
    'os.mkdir': ((0, 'mk'),), 'os.makedirs': ((0, 'mkdirs'),), 'os.mknod': ((0, 'mk'),), 'os.mkfifo': ((0, 'mk'),),
    'os.symlink': ((1, 'mk'),), 'os.link': ((0, 'ref'), (1, 'mk')),
    'os.truncate': ((0, 'mod'),), 'os.chmod': ((0, 'attr'),), 'os.chown': ((0, 'attr'),), 'os.lchown': ((0, 'attr'),),
    'os.utime': ((0, 'attr'),), 'os.setxattr': ((0, 'attr'),), 'os.removexattr': ((0, 'attr'),), 'os.lchmod': ((0, 'attr'),),
    'shutil.copyfile': ((1, 'mk'),), 'shutil.copy': ((1, 'mk'),), 'shutil.copy2': ((1, 'mk'),), 'shutil.copytree': ((1, 'mk'),),
    'shutil.copymode': ((1, 'attr'),), 'shutil.copystat': ((1, 'attr'),),
}
PATH_METHODS = {
    'unlink': 'rm', 'rmdir': 'rm', 'write_bytes': 'mk', 'write_text': 'mk', 'touch': 'mk', 'mkdir': 'mk', 'chmod': 'attr',
    'symlink_to': 'mk', 'hardlink_to': 'mk', 'rename': 'rm', 'replace': 'rm',
}
PATHNORM = {'os.path.normpath', 'posixpath.normpath', 'os.path.abspath', 'os.fspath', 'str', 'os.fsencode', 'pathlib.Path', 'os.fsdecode'}
SCHEMA = {'files': ['path', 'name', 'mtime', 'mode', 'uid', 'gid', 'deleted']}


def mode_of_open(call: V) -> Optional[str]:
    m = call_arg(call, 1, 'mode')
    if m is None:
        return 'r'
    return cval(m) if m.op == 'const' and isinstance(cval(m), str) else None


def is_join(v: V) -> bool:
    return v.op == 'call' and call_name(v) in ('os.path.join', 'posixpath.join')


def is_root(v: V) -> bool:
    return v.op == 'attr' and v.args[1] == 'root' and v.args[0].op == 'self'


def stripped(v: V) -> bool:
    """The term cannot start with a path separator."""
    if v.op == 'const':
        return isinstance(cval(v), str) and not cval(v).startswith('/')
    if v.op == 'call':
        n = call_name(v)
        if n in ('.lstrip', '.strip'):
            a = call_args(v)
            return bool(a) and (
                (a[0].op == 'const' and isinstance(cval(a[0]), str) and '/' in cval(a[0])) or a[0].op == 'ext' and a[0].args[0] == 'os.path.sep' or a[0].op == 'ext' and a[0].args[0] == 'os.sep'
            )
        if n in ('.rstrip', '.removesuffix', '.replace') and call_recv(v) is not None:
            return stripped(call_recv(v))
        if n in PATHNORM and call_args(v):
            return stripped(call_args(v)[0])
        if n in ('os.path.relpath',):
            return True
        if n in ('os.path.basename', 'os.path.dirname') and call_args(v):
            return n.endswith('basename') or stripped(call_args(v)[0])
        if is_join(v):
            return all(stripped(x) for x in call_args(v))
    if v.op == 'sub' and v.args[0].op == 'call' and call_name(v.args[0]) in ('.rsplit', '.rpartition') and v.args[1].op == 'const':
        # last component after the last separator
        return cval(v.args[1]) in (1, 2, -1)
    if v.op in ('phi',):
        return all(stripped(x) for x in v.args[0])
    return False


def contained(v: V) -> bool:
    """Path below the overlay root for every value of the request path."""
    if is_root(v):
        return True
    if is_join(v):
        a = call_args(v)
        return bool(a) and contained(a[0]) and all(stripped(x) for x in a[1:])
    if v.op == 'call' and call_name(v) in PATHNORM and call_args(v):
        return contained(call_args(v)[0])
    if v.op == 'call' and call_name(v) == 'os.path.dirname' and call_args(v):
        return contained(call_args(v)[0]) and not is_root(call_args(v)[0])
    if v.op == 'call' and call_name(v) == '.rstrip' and call_recv(v) is not None:
        return contained(call_recv(v))
    if v.op == 'fstr':
        p = v.args[0]
        return contained(p[0]) and len(p) >= 2 and (
            (p[1].op == 'const' and str(cval(p[1])).startswith('/')) or p[1].op == 'param'
        )
    if v.op == 'bin' and v.args[0] == 'Add':
        return contained(v.args[1])
    if v.op == 'bin' and v.args[0] == 'Div':
        return contained(v.args[1]) and stripped(v.args[2])
    if v.op == 'phi':
        return all(contained(x) for x in v.args[0])
    if v.op == 'ifexp':
        return all(contained(x) for x in v.args)
    return False


class OverlayRule(Rule):
    max_depth = 9
    initial = frozenset()

    def __init__(self, check, op: str, func: Func, paths: List[str]):
        self.c = check
        self.op = op
        self.func = func
        self.paths = paths
        self.events: List[Tuple[str, Optional[str], str, V, str, frozenset]] = []
        self.prefix_checked = set()
        self.control_conditions = 0

    # ---- state helpers

    @staticmethod
    def get(rs, *key):
        for k, v in rs:
            if k == key:
                return v
        return None

    @staticmethod
    def put(rs, key, value):
        return frozenset({(k, v) for k, v in rs if k != key} | ({(key, value)} if value is not None else set()))

    def target(self, v: Optional[V]) -> Optional[Tuple[str, str]]:
        """(P, 'self' | 'parent' | 'other') for a path term derived from request path P."""
        if v is None:
            return None
        names = {x.args[0] for x in subterms(v) if x.op == 'param'} & set(self.paths)
        if len(names) != 1:
            return None
        p = names.pop()
        for x in subterms(v):
            if x.op == 'sub' and x.args[0].op == 'call' and call_name(x.args[0]) in ('.rsplit', '.rpartition', 'os.path.split'):
                if x.args[1].op == 'const':
                    return (p, 'parent' if cval(x.args[1]) == 0 else 'name')
            if x.op == 'call' and call_name(x) == 'os.path.dirname':
                return (p, 'parent')
            if x.op == 'attr' and x.args[1] == 'parent':
                return (p, 'parent')
            if x.op == 'call' and call_name(x) == 'os.path.basename':
                return (p, 'name')
        return (p, 'self')

    def row_of(self, keys: Dict) -> Optional[str]:
        """Request path whose (path, name) pair these columns hold."""
        a, b = keys.get('path'), keys.get('name')
        if a is None or b is None:
            return None
        ta, tb = self.target(a), self.target(b)
        if ta and tb and ta[0] == tb[0] and ta[1] == 'parent' and tb[1] == 'name':
            return ta[0]
        return None

    def path_value(self, v: V):
        """Strip pathlib/str wrappers."""
        while v is not None and v.op == 'call' and call_name(v) in ('pathlib.Path', 'str', 'os.fspath') and call_args(v):
            v = call_args(v)[0]
        return v

    # ---- queries are stable between modifications: give them a site-free identity

    def value(self, cx, call, st):
        n = call_name(call)
        ep = self.get(st.rs, 'epoch') or 0
        r = call_recv(call)
        if n in ('.exists', '.lookup', '.is_dir', '.list', '.list_mode', '.versions') and r is not None and r.op == 'attr' and r.args[1] == 'mountSource':
            return mk('call', call.args[0], call.args[1], call.args[2], ('epoch', ep))
        if n in ('os.path.exists', 'os.path.lexists', 'os.path.isdir', 'os.path.isfile', 'os.path.islink'):
            return mk('call', call.args[0], call.args[1], call.args[2], ('epoch', ep))
        if sql.is_sql_call(call):
            ss = sql.parse(call, SCHEMA)
            if len(ss) == 1 and ss[0].verb == 'SELECT':
                return mk('call', call.args[0], call.args[1], call.args[2], ('epoch', ep))
        return None

    # ---- events

    def effects(self, call: V):
        n = call_name(call)
        if n in EFFECTS:
            for idx, eff in EFFECTS[n]:
                yield call_arg(call, idx, {0: 'path', 1: 'dst'}.get(idx)), eff
            return
        if n == 'open' or n in ('io.open', 'codecs.open'):
            m = mode_of_open(call)
            if m is None or set(m) & set('wax+'):
                yield call_arg(call, 0, 'file'), ('trunc' if m and 'w' in m else 'mod')
            return
        if n == 'os.open':
            flags = call_arg(call, 1, 'flags')
            names = {x.args[0] for x in subterms(flags) if x.op == 'ext'} if flags is not None else set()
            hasParam = flags is None or any(x.op in ('param', 'call', 'attr', 'phi') for x in subterms(flags))
            if 'os.O_CREAT' in names:
                yield call_arg(call, 0, 'path'), 'mk'
            elif 'os.O_TRUNC' in names:
                yield call_arg(call, 0, 'path'), 'trunc'
            elif hasParam:
                yield call_arg(call, 0, 'path'), 'openflags'
            elif names & {'os.O_WRONLY', 'os.O_RDWR'}:
                yield call_arg(call, 0, 'path'), 'mod'
            return
        if n.startswith('.') and n[1:] in PATH_METHODS:
            r = call_recv(call)
            if r is not None and (
                (r.op == 'call' and call_name(r) == 'pathlib.Path') or (r.op == 'bin' and r.args[0] == 'Div')
            ):
                yield r, PATH_METHODS[n[1:]]

    def note(self, cx, kind, p, eff, term, rs):
        self.events.append((kind, p, eff, term, cx.where(), rs))

    def on_call(self, cx, call, st):
        rs = st.rs
        exc_rs = rs
        name = call_name(call)
        # --- database
        if sql.is_sql_call(call):
            for s in sql.parse(call, SCHEMA):
                if s.table != 'files' or s.verb in ('SELECT', 'PRAGMA', 'CREATE'):
                    continue
                row = self.row_of(s.sets) if s.verb == 'INSERT' else self.row_of(s.where)
                self.note(cx, 'db', row, s.verb, call, rs)
                rs = self.put(rs, ('touched',), True)
                if s.verb == 'INSERT' and row:
                    rs = self.put(rs, ('row', row), True)
                    if s.conflict == 'IGNORE':
                        # the pre-existing row, if any, stays as it is
                        pass
                    else:
                        d = s.sets.get('deleted')
                        if d is not None and d.op == 'const':
                            rs = self.put(rs, ('db', row), 'marked' if cval(d) else 'cleared')
                        else:
                            rs = self.put(rs, ('db', row), 'cleared' if 'deleted' not in s.sets else 'unknown')
                    for col, v in s.sets.items():
                        if col not in ('path', 'name', 'deleted') and v is not None:
                            if s.conflict == 'IGNORE' and self.get(rs, 'meta', row, col) is not None:
                                continue
                            rs = self.put(rs, ('meta', row, col), v)
                elif s.verb == 'UPDATE' and row:
                    moved = self.row_of(s.sets)
                    if moved:
                        rs = self.put(rs, ('db', row), 'cleared')
                        rs = self.put(rs, ('row', moved), self.get(rs, 'row', row))
                        rs = self.put(rs, ('row', row), None)
                        if self.get(rs, 'isdel', row) is not False:
                            rs = self.put(rs, ('db', moved), 'unknown')
                    if 'deleted' in s.sets:
                        d = s.sets['deleted']
                        known = d is not None and d.op == 'const'
                        rs = self.put(rs, ('db', row), ('marked' if cval(d) else 'cleared') if known else 'unknown')
                    for col, v in s.sets.items():
                        if col not in ('path', 'name', 'deleted') and v is not None:
                            rs = self.put(rs, ('meta', row, col), v)
                            rs = self.put(rs, ('updated', row, col), self.get(rs, 'row', row) or False)
                elif s.verb == 'DELETE' and row:
                    rs = self.put(rs, ('db', row), 'cleared')
                    rs = self.put(rs, ('row', row), None)
                elif s.verb in ('DELETE', 'UPDATE') and not row:
                    self.note(cx, 'dbwide', None, s.verb, call, rs)
            return rs, exc_rs
        # --- content copy
        if name in ('shutil.copyfileobj',):
            src, dst = call_arg(call, 0, 'fsrc'), call_arg(call, 1, 'fdst')
            p = self.copy_paths(src, dst)
            if p:
                rs = self.put(rs, ('copied', p), True)
            return rs, exc_rs
        if name in ('.write', '.writelines') and call_recv(call) is not None and call_args(call):
            src = call_args(call)[0]
            full = any(x.op == 'call' and call_name(x) in ('.read', '.readall') and not call_args(x) for x in subterms(src)) or any(
                x.op == 'loopvar' for x in subterms(src)
            )
            inLoop = any(e[0] == 'l' for e in cx.epoch)
            if full or inLoop:
                p = self.copy_paths(src, call_recv(call))
                if p:
                    rs = self.put(rs, ('copied', p), True)
        # --- real file system
        for term, eff in self.effects(call):
            term = self.path_value(term)
            t = self.target(term)
            p, part = t if t else (None, 'other')
            self.note(cx, 'real', p if part == 'self' else (p, part), eff, term if term is not None else NONE, st.rs)
            if eff in ('rm', 'mk', 'trunc', 'mod', 'mkdirs'):
                rs = self.put(rs, ('epoch',), (self.get(rs, 'epoch') or 0) + (1 if (self.get(rs, 'epoch') or 0) < 4 else 0))
                rs = self.put(rs, ('touched',), True)
            if p is None:
                continue
            if part == 'parent' and eff in ('mkdirs', 'mk'):
                rs = self.put(rs, ('par', p), True)
            if part == 'self':
                if eff == 'rm':
                    rs = self.put(rs, ('real', p), False)
                    rs = self.put(rs, ('under', p), None)
                    rs = self.put(rs, ('removed', p), True)
                elif eff in ('mk', 'trunc', 'mkdirs'):
                    if self.get(rs, 'real', p) is not True:
                        rs = self.put(rs, ('fresh', p), True)
                    rs = self.put(rs, ('real', p), True)
                    rs = self.put(rs, ('under', p), True)
                if eff in ('mod', 'openflags') and self.get(rs, 'real', p) is not True and self.get(rs, 'copied', p) is not True:
                    rs = self.put(rs, ('real', p), True)
                if eff == 'mk' and self.op in ('rename',) and name in ('os.rename', 'os.replace', 'shutil.move'):
                    rs = self.put(rs, ('movedto', p), True)
        return rs, exc_rs

    def copy_paths(self, src, dst) -> Optional[str]:
        """P if src reads the combined view's file and dst is an overlay file; also across request paths for rename."""
        if src is None or dst is None:
            return None
        d = None
        for x in subterms(dst):
            if x.op == 'call' and call_name(x) in ('open', 'os.fdopen', 'os.open'):
                t = self.target(call_arg(x, 0, 'file'))
                if t and t[1] == 'self' and contained(self.path_value(call_arg(x, 0, 'file'))):
                    d = t[0]
        s = None
        for x in subterms(src):
            if x.op == 'call' and call_name(x) == '.open' and call_recv(x) is not None and call_recv(x).op == 'attr':
                t = self.target(x)
                if t:
                    s = t[0]
        return d if d and s else None

    # ---- branch facts

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        c = cond
        if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE:
            c, pol = c.args[1], not pol
        if c.op == 'cmp' and c.args[0] in ('<', '<=') and c.args[1].op == 'const':
            c = c.args[2]
        for x in subterms(c):
            if x.op == 'call' and call_name(x) == '.startswith' and any(
                y.op == 'attr' and y.args[1] == 'ignoredPrefixes' for y in subterms(x)
            ):
                t = self.target(call_recv(x))
                if t and t[1] == 'self' and all_prefixes(c, x):
                    self.prefix_checked.add(t[0])
                    neg = c.op == 'call' and call_name(c) == 'all'
                    rs = self.put(rs, ('chk', t[0]), bool(pol) and not neg)
        if c.op == 'attr' and c.args[1] == 'ignoredPrefixes' and not pol:
            for p in self.paths:
                rs = self.put(rs, ('chk', p), False)
        for x in subterms(c):
            # No listing at all, or nothing left after having removed the deleted names.
            if x.op == 'call' and call_name(x) in ('.list', '.list_mode') and call_recv(x) is not None and call_recv(x).op == 'attr' and call_recv(x).args[1] == 'mountSource':
                t = self.target(call_args(x)[0]) if call_args(x) else None
                if t and t[1] == 'self':
                    deleted = [y for y in subterms(c) if y.op == 'call' and call_name(y) == '.list_deleted']
                    own = all(self.target(call_args(y)[0]) == t for y in deleted if call_args(y))
                    queried = [q for y in subterms(c) if sql_query(y) for q in sql.parse(y, SCHEMA) if q.table == 'files']
                    hidden = deleted and own or any(q.where.get('path') is not None and self.target(q.where['path']) == t for q in queried)
                    deleted = deleted or queried
                    if c is x or c.op == 'call' and call_name(c) in ('len', 'bool') and not hidden and not deleted:
                        rs = rs if pol else self.put(rs, ('empty', t[0]), True)
                    elif hidden:
                        rs = self.put(rs, ('empty', t[0]), bool(pol) == nothing_left(c) and self.get(rs, 'empty', t[0]) is not False)
        if c.op == 'call':
            n = call_name(c)
            r = call_recv(c)
            a = call_args(c)
            if n in ('.exists', '.lookup', '.is_dir') and r is not None and r.op == 'attr' and r.args[1] == 'mountSource' and a:
                t = self.target(a[0])
                if t and t[1] == 'self' and n != '.is_dir':
                    rs = self.put(rs, ('under', t[0]), pol)
                if t and t[1] == 'parent' and not pol:
                    rs = self.put(rs, ('par', t[0]), True)
            if n in ('os.path.exists', 'os.path.lexists', 'os.path.isdir', 'os.path.isfile') and a:
                v = self.path_value(a[0])
                t = self.target(v)
                if t and contained(v):
                    if t[1] == 'self' and (pol or n in ('os.path.exists', 'os.path.lexists')):
                        rs = self.put(rs, ('real', t[0]), pol)
                    if t[1] == 'parent' and pol:
                        rs = self.put(rs, ('par', t[0]), True)
        for x in subterms(c):
            if sql_query(x):
                for s in sql.parse(x, SCHEMA):
                    row = self.row_of(s.where)
                    if row is None:
                        continue
                    d = s.where.get('deleted')
                    if d is not None and d.op == 'const' and cval(d):
                        rs = self.put(rs, ('isdel', row), pol)
                        if pol:
                            rs = self.put(rs, ('row', row), True)
                    elif d is None:
                        rs = self.put(rs, ('row', row), True if pol else None)
        if c.op == 'bin' and c.args[0] == 'BitAnd':
            names = {x.args[0] for x in subterms(c) if x.op == 'ext'}
            values = {cval(x) for x in c.args[1:] if isinstance(x, V) and x.op == 'const'}
            if pol and names & {'os.O_WRONLY', 'os.O_RDWR', 'os.O_ACCMODE'} or values & {3}:
                rs = self.put(rs, ('writable',), True)
            elif not pol and (names >= {'os.O_WRONLY', 'os.O_RDWR'} or 'os.O_ACCMODE' in names or values & {3}):
                rs = self.put(rs, ('writable',), False)
            elif not pol:
                seen = set(self.get(rs, 'unset') or ()) | names
                rs = self.put(rs, ('unset',), frozenset(seen))
                if seen >= {'os.O_WRONLY', 'os.O_RDWR'}:
                    rs = self.put(rs, ('writable',), False)
        if c.op == 'cmp' and c.args[0] in ('==', 'is') and any('O_ACCMODE' in show(x) for x in c.args[1:] if isinstance(x, V)) and any(
            x.op == 'ext' and x.args[0] == 'os.O_RDONLY' or x.op == 'const' and cval(x) == 0 for x in c.args[1:] if isinstance(x, V)
        ):
            rs = self.put(rs, ('writable',), not pol)
        return rs

    def on_iter(self, cx, it, st):
        for x in subterms(it):
            if x.op == 'call' and call_name(x) in ('.list', '.list_mode') and call_recv(x) is not None and call_recv(x).op == 'attr' and call_recv(x).args[1] == 'mountSource':
                t = self.target(call_args(x)[0]) if call_args(x) else None
                if t and t[1] == 'self' and self.get(st.rs, 'empty', t[0]) is None and self.op == 'rmdir':
                    return self.put(st.rs, ('empty', t[0]), True)
        if it.op == 'attr' and it.args[1] == 'ignoredPrefixes':
            return self.put(st.rs, ('iterprefix',), True)
        return st.rs


def nothing_left(c: V) -> bool:
    """Value of the condition if all entries are deleted."""
    if c.op == 'call' and call_name(c) in ('all', '.issubset', '.issuperset', '.isdisjoint'):
        return True
    if c.op == 'cmp':
        return c.args[0] not in ('not in', '!=', '>', 'is not')
    return False


def all_prefixes(cond: V, test: V) -> bool:
    """The comparison with the protected prefixes covers all of them completely."""
    for x in subterms(cond):
        if x.op == 'sub' and any(y.op == 'attr' and y.args[1] == 'ignoredPrefixes' for y in subterms(x.args[0])):
            return False
        if x.op == 'comp' and contains(x, test) and x.args[3]:
            return False
    for y in subterms(test):
        # text which is added to the prefix
        if y.op in ('bin', 'fstr') and any(z.op == 'attr' and z.args[1] == 'ignoredPrefixes' for z in subterms(y)):
            if any(z.op == 'const' and isinstance(cval(z), str) and cval(z).strip('/') for z in subterms(y)):
                return False
    return True


def sql_query(x: V) -> bool:
    return x.op == 'call' and sql.is_sql_call(x)


def analyse(prog: Program, check) -> Dict[str, Tuple[OverlayRule, list]]:
    cls = prog.cls(OVERLAY)
    out = {}
    for op, roles in OPS.items():
        f = cls.find(op)
        if f is None:
            continue
        params = f.params[1:]
        paths = params[: len(roles)]
        rule = OverlayRule(check, op, f, paths)
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        check.used(flow, f.where, len(exits))
        check.instance('overlay operations', op)
        out[op] = (rule, exits, dict(zip(roles, paths)), paths, roles)
    if len(out) < 8:
        raise AnalysisBroken(f"only {len(out)} FUSE operations found in {OVERLAY}")
    return out
