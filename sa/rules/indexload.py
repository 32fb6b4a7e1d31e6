"""Shared typestate rule over SQLiteIndex: loading, creating, finalising and deleting index databases."""

import ast
import os
import re
from typing import Dict, List, Optional

from .. import sql
from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import AnalysisBroken, Class, Func, Program

SET_TESTS = ('.intersection', 'any', 'bool', 'len')


def index_class(prog: Program) -> Class:
    return prog.cls('SQLiteIndex')


def source_class(prog: Program) -> Class:
    return prog.cls('SQLiteIndexMountSource')


def resource_text(prog: Program, node) -> Optional[str]:
    """Contents of an SQL resource file named in an expression such as importlib.resources.files(..).joinpath('x.sql').read_text()"""
    names = [x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith('.sql')]
    for n in names:
        for m in prog.modules.values():
            p = os.path.join(os.path.dirname(m.path), n)
            if os.path.isfile(p):
                with open(p, encoding='utf-8') as f:
                    return f.read()
    return None


def script_text(prog: Program, v: V) -> Optional[str]:
    t = sql.text_of(v)
    if t is not None:
        return t
    if v.op == 'attr' and v.args[0].op in ('cls', 'self'):
        a = v.args[0].args[0].find_attr(v.args[1])
        if a is not None:
            return resource_text(prog, a[1])
    if v.op == 'global':
        m = v.args[0]
        for s in getattr(m, 'tree', ast.Module([], [])).body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.args[1] for t in s.targets):
                return resource_text(prog, s.value)
    for x in subterms(v):
        if x.op == 'const' and isinstance(cval(x), str) and cval(x).endswith('.sql'):
            for m in prog.modules.values():
                p = os.path.join(os.path.dirname(m.path), cval(x))
                if os.path.isfile(p):
                    with open(p, encoding='utf-8') as f:
                        return f.read()
    return None


SPLIT = re.compile(r';')


def sql_statements(text: str) -> List[str]:
    """Statements of a script; trigger bodies stay with their CREATE TRIGGER."""
    parts = sql.statements(text)
    out: List[str] = []
    inTrigger = False
    for p in parts:
        if inTrigger:
            out[-1] += '; ' + p
            if re.match(r'END\b', p, re.I):
                inTrigger = False
            continue
        out.append(p)
        if re.match(r'CREATE\s+(TEMP\w*\s+)?TRIGGER', p, re.I):
            inTrigger = True
    return out


def dropped_tables(prog: Program) -> frozenset:
    """Tables which some SQL text of the index module drops unconditionally: candidates for the incompleteness markers."""
    out = set()
    for x in ast.walk(index_class(prog).module.tree):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            for m in re.finditer(r'DROP\s+TABLE\s+"?(\w+)"?', x.value, re.I):
                if m[1].upper() != 'IF':
                    out.add(m[1])
    return frozenset(out)


class IndexRule(Rule):
    """rs: frozenset of tokens describing the connection and the checks done on it since it was opened."""

    initial = frozenset()
    max_depth = 7
    attr_classes_inline = ('SQLiteIndex',)

    def __init__(self, prog: Program):
        self.prog = prog
        self.markers = dropped_tables(prog)
        self.scripts: List = []  # (text, call, rs, where)
        self.connects: List = []
        self.removes: List = []
        self.statements: List = []
        self.opens: List = []
        self.stat_checks: List = []

    def inline(self, cx, func, recv):
        if recv is not None and recv.op == 'self':
            return True
        if recv is not None and recv.op == 'attr' and cx.classes_of(recv):
            return any(c.name == 'SQLiteIndex' for c in cx.classes_of(recv))
        return func.module is cx.entry_module or (func.cls is not None and func.cls.name in ('SQLiteIndex', 'SQLiteIndexMountSource')) or func.name in (
            'unchecked_remove', 'ensure_writable_path'
        )

    KEEP = ('stored', 'created', 'done')

    def reset(self, rs):
        return frozenset(t for t in rs if t.startswith(self.KEEP))

    def on_call(self, cx, call, st):
        n = call_name(call)
        rs = st.rs
        if n == 'sqlite3.connect':
            self.connects.append((call, rs, st, cx.where()))
            return self.reset(rs), rs
        if n in ('os.remove', 'os.unlink', '.unlink', 'os.rename', 'os.replace', 'shutil.move', 'os.truncate', 'shutil.rmtree'):
            target = call_args(call)[0] if n.startswith(('os.', 'shutil.')) and call_args(call) else call_recv(call)
            self.removes.append((target, call, rs, st, cx.where()))
        if n in ('open', 'io.open', 'os.open', '.write_bytes', '.write_text'):
            self.opens.append((call, rs, st, cx.where()))
        if sql.is_sql_call(call):
            v = call_arg(call, 0, 'sql')
            text = script_text(self.prog, v) if v is not None else None
            self.statements.append((text, call, rs, st, cx.where()))
        f = call.args[0]
        if f.op == 'param' or (f.op == 'phi' and any(x.op == 'param' for x in f.args[0])):
            name = f.args[0] if f.op == 'param' else 'callback'
            return rs | {'cb:' + str(name)}, rs | {'failed:' + str(name)}
        return rs, rs

    def may_raise(self, cx, call):
        return call_name(call) not in ('.close', '.isfile')

    def is_tables(self, v):
        return any(x.op == 'const' and isinstance(cval(x), str) and 'sqlite_master' in cval(x) for x in subterms(v))

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        if cond.op == 'cmp' and cond.args[0] == 'in' and cond.args[1].op == 'const' and self.is_tables(cond.args[2]):
            t = str(cval(cond.args[1]))
            if t == 'metadata':
                return rs | ({'meta'} if pol else {'nometa'})
            if t == 'files':
                return rs | {'files'} if pol else rs
            return rs if pol or t not in self.markers else rs | {'no:' + t}
        if cond.op in ('call', 'bin', 'comp') and self.is_tables(cond):
            names = {cval(x) for x in subterms(cond) if x.op == 'const' and isinstance(cval(x), str) and 'sqlite_master' not in cval(x)}
            neg = call_name(cond) in ('.isdisjoint',)
            if call_name(cond) == '.issubset':
                return rs | ({'files'} & names) if pol else rs
            if pol == neg:
                return rs | {'no:' + x for x in names & self.markers}
            return rs
        if cond.op == 'param' and not pol and 'heck' in str(cond.args[0]):
            return rs | {'nocb', 'be'}
        if cond.op == 'cmp' and cond.args[0] == '==':
            sides = cond.args[1:]
            if any('backendName' in show(x) and 'metadata' in show(x).lower() for x in sides) and any(self.own_backend(x) for x in sides):
                return rs | {'be'} if pol else rs
        if self.own_backend(cond) and not pol:
            return rs | {'be'}
        if cond.op == 'call' and call_name(cond) == 'isinstance' and not pol and len(call_args(cond)) > 1 and 'backendName' in show(call_args(cond)[0]):
            return rs | {'be'} if any(x.op == 'ext' and x.args[0] == 'str' for x in subterms(call_args(cond)[1])) else rs
        if cond.op == 'cmp' and cond.args[0] in ('is',) and cond.args[2] is NONE and pol and 'backendName' in show(cond.args[1]):
            return rs | {'be'}
        if cond.op == 'cmp' and cond.args[0] == 'in' and pol is False and cond.args[1].op == 'const' and cval(cond.args[1]) == 'backendName':
            return rs | {'be'}
        return rs

    @staticmethod
    def own_backend(v):
        return v.op == 'attr' and v.args[1] == 'backendName' and v.args[0].op in ('self', 'attr')

    def on_store(self, cx, base, key, value, st):
        rs = st.rs
        if key == 'sqlConnection':
            if value is NONE:
                return self.reset(rs)
            if any(x.op == 'call' and call_name(x) == 'sqlite3.connect' for x in subterms(value)):
                return rs | {'open'}
        return rs


def marker_tables(c, prog):
    """Tables whose presence makes the loader reject the index on every accepting path, with the accepting exits."""
    ic = index_class(prog)
    f = ic.find('open_existing')
    if f is None:
        return None, None, None, None
    rule = IndexRule(prog)
    flow = Flow(prog, rule)
    exits = flow.run(f, ic)
    c.used(flow, f.where, len(exits))
    return rule, exits, f, flow


class AppendRule(Rule):
    """Order of events when entries are added to an index loaded before. rs: 'marked', 'dropped', 'stored', 'valid', 'added', 'failed'"""

    initial = frozenset()
    max_depth = 5
    attr_classes_inline = ('SQLiteIndex',)
    forget_stored = True

    def __init__(self, prog, ic, users):
        self.prog, self.ic, self.users = prog, ic, users
        self.markers = dropped_tables(prog)
        self.entries: List = []
        self.drops: List = []
        self.published: List = []

    def inline(self, cx, func, recv):
        if func.cls is self.ic:
            return func.name != 'store_metadata' and any(
                isinstance(x, ast.Attribute) and x.attr in ('execute', 'executescript', 'executemany', 'finalize', '_finalize_files_table')
                for x in ast.walk(func.node)
            )
        return recv is not None and recv.op == 'self' and func.name in self.users

    def may_raise(self, cx, call):
        return self.adds(call)

    def adds(self, call):
        f = call.args[0]
        return f.op == 'bound' and f.args[1].op == 'self' and 'create_index' in f.args[0].name and f.args[0].cls is not self.ic

    @staticmethod
    def verifies(func):
        """Looks at rows of regular files in order to compare them with the archive."""
        return any(
            (isinstance(x, ast.Attribute) and x.attr == 'FROM_REGULAR_FILES')
            or (isinstance(x, ast.Constant) and isinstance(x.value, str) and re.search(r'FROM\s+"?files"?\s+WHERE', x.value, re.I))
            for x in ast.walk(func.node)
        )

    def on_assume(self, cx, cond, pol, st):
        if pol and cond.op == 'call' and cond.args[0].op == 'bound' and cond.args[0].args[1].op == 'self' and self.verifies(cond.args[0].args[0]):
            return st.rs | {'valid'}
        return st.rs

    def on_call(self, cx, call, st):
        rs = st.rs
        n = call_name(call)
        f = call.args[0]
        if n.endswith('.store_metadata') or (f.op == 'bound' and f.args[0].name == 'store_metadata'):
            rs = rs | {'stored'}
        elif sql.is_sql_call(call):
            v = call_arg(call, 0, 'sql')
            text = script_text(self.prog, v) if v is not None else None
            for s in sql_statements(text) if text else ():
                if re.match(r'CREATE\s+TABLE', s, re.I) and any(re.search(r'\b%s\b' % m, s) for m in self.markers):
                    rs = rs | {'marked'}
                elif re.match(r'DELETE\s+FROM\s+"?metadata', s, re.I):
                    self.drops.append((rs, cx.where()))
                    rs = (rs - {'stored'}) | {'dropped'}
                elif re.match(r'DROP\s+TABLE', s, re.I) and any(re.search(r'\b%s\b' % m, s) for m in self.markers):
                    self.published.append((rs, cx.where()))
                    rs = rs - {'marked'}
        elif self.adds(call):
            self.entries.append((rs, cx.where()))
            return rs | {'added'}, st.rs | {'failed'}
        return rs, st.rs


def appending(prog, c):
    """Functions of index-backed mount sources which add entries to an index loaded before, and what happens in them."""
    ic, sc = index_class(prog), source_class(prog)

    def mentions(g, *names):
        return any(isinstance(x, ast.Attribute) and x.attr in names for x in ast.walk(g.node))

    out = []
    for cls in sorted(prog.subclasses(sc), key=lambda x: x.name):
        users = {m.name for m in cls.methods.values() if mentions(m, 'store_metadata', 'drop_metadata', 'create_index_timed')}
        while True:
            more = {m.name for m in cls.methods.values() if m.name not in users and mentions(m, *users)}
            if not more:
                break
            users |= more
        for g in list(cls.methods.values()):
            if not mentions(g, 'drop_metadata', 'create_index_timed'):
                continue
            called = any(h is not g and mentions(h, g.name) for h in cls.methods.values())
            if called and '__init__' in cls.methods and mentions(cls.methods['__init__'], g.name):
                g = cls.methods['__init__']
            r = AppendRule(prog, ic, {u for u in users if 'create_index' not in u and u != '__init__'})
            fl = Flow(prog, r, budget=120000)
            fl.run(g, cls)
            c.used(fl, g.where)
            c.instance('appending', g.qual)
            out.append((g, r))
    return out
