"""Attributes of entries are never mixed up on their way from the reader over the index database to the stat structure."""

import ast
import os
import re
from typing import Dict, List

from .. import sql
from ..consts import Trace
from ..model import Program, dotted
from .indexload import index_class, source_class, sql_statements

EXPLANATION = (
    "Backward slices of every database row, FileInfo and stat structure that is constructed in the program: each field must not be "
    "computed from another field's source only, every row must have exactly the columns of the database schema, positional reads "
    "of query results must agree with the selected columns, and every POSIX member type must map to its file type bits."
)
OWN = {
    'uid': r'(^|_)uid$|^uid|userid|user_id|owner|^username$',
    'gid': r'(^|_)gid$|^gid|groupid|group_id|^group$',
    'mtime': r'time|date|modif',
    'mode': r'mode|^S_I|perm|attr',
    'size': r'size|length|^len$|uncompressed|bytes|span',
    'linkname': r'link|target',
}
OTHERTIME = r'^(st_)?(a|c|birth)time(_ns)?$|access_?time'
PRED = {'isdir': 'S_IFDIR', 'issym': 'S_IFLNK', 'ischr': 'S_IFCHR', 'isblk': 'S_IFBLK', 'isfifo': 'S_IFIFO', 'isreg': 'S_IFREG', 'isfile': 'S_IFREG',
        'DIRTYPE': 'S_IFDIR', 'SYMTYPE': 'S_IFLNK', 'CHRTYPE': 'S_IFCHR', 'BLKTYPE': 'S_IFBLK', 'FIFOTYPE': 'S_IFIFO', 'REGTYPE': 'S_IFREG',
        'is_dir': 'S_IFDIR', 'is_symlink': 'S_IFLNK', 'is_directory': 'S_IFDIR'}


def schema_columns(prog) -> List[str]:
    for m in prog.modules.values():
        p = os.path.join(os.path.dirname(m.path), 'create-index-tables.sql')
        if os.path.isfile(p):
            text = open(p, encoding='utf-8').read()
            for s in sql_statements(text):
                mt = re.match(r'CREATE TABLE(?: IF NOT EXISTS)? "?files"?\s*\((.*)\)', s, re.I | re.S)
                if mt:
                    body = re.split(r',\s*PRIMARY\s+KEY', mt[1], flags=re.I)[0]
                    depth, cols, cur = 0, [], ''
                    for ch in body + ',':
                        if ch == '(':
                            depth += 1
                        if ch == ')':
                            depth -= 1
                        if ch == ',' and depth == 0:
                            if cur.strip():
                                cols.append(cur.split()[0].strip('"').lower())
                            cur = ''
                        else:
                            cur += ch
                    return cols
    return []


def conflict(field: str, tokens: set):
    own = any(re.search(OWN[field], t, re.I) for t in tokens)
    if field == 'mtime' and any(re.search(OTHERTIME, t, re.I) for t in tokens) and not any(re.search(r'mtime|modif|mod_|^time$|date', t, re.I) for t in tokens):
        return sorted(t for t in tokens if re.search(OTHERTIME, t, re.I))[0]
    if own:
        return None
    for other, pat in OWN.items():
        if other == field:
            continue
        for t in sorted(tokens):
            if re.search(pat, t, re.I):
                return t
    return None


def run(prog: Program, c):
    c.rule('columns', "every index row has exactly the columns of the database schema")
    c.rule('row', "no field of an index row is computed from another field's source")
    c.rule('fileinfo', "no field of a FileInfo is computed from another field's source")
    c.rule('position', "positional reads of query results agree with the selected columns")
    c.rule('stat', "the stat structure contains every field of the looked up entry in its place")
    c.rule('precision', "fractions of seconds are not dropped from modification times")
    c.rule('types', "every POSIX member type maps to its own file type bits")
    tr = Trace(prog)
    cols = schema_columns(prog)
    c.check('columns', 'schema', len(cols) >= 10, "the table of files was not found in the schema", 'create-index-tables.sql')
    sc, ic = source_class(prog), index_class(prog)
    subs = [x for x in prog.subclasses(sc) if '.tests' not in x.module.name] + [sc]
    mods = {x.module.name for x in subs}

    def field(rule, construct, name, e, fn, m, cls, where):
        if name not in OWN:
            return
        t = tr.tokens(e, fn, m, cls)
        bad = conflict(name, t)
        c.check(rule, f"{construct} {name}", bad is None, f"is computed from {bad}: {ast.unparse(e)[:60]}", where)

    for m in tr.modules:
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Tuple) and isinstance(x.ctx, ast.Load) and m.name in mods and abs(len(x.elts) - len(cols)) <= 2 and len(x.elts) >= 10:
                fn, _, cls = tr.owner.get(id(x), (None, None, None))
                construct = f"{m.rel} {cls.name + '.' if cls else ''}{getattr(fn, 'name', '?')}"
                where = f"{m.rel}:{x.lineno} in {getattr(fn, 'name', '?')}"
                c.instance('index rows', construct)
                c.functions.add(construct)
                if not c.check('columns', construct, len(x.elts) == len(cols), f"has {len(x.elts)} instead of {len(cols)} columns", where):
                    continue
                for name, e in zip(cols, x.elts):
                    field('row', construct, name, e, fn, m, cls, where)
            if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] == 'FileInfo':
                fn, _, cls = tr.owner.get(id(x), (None, None, None))
                construct = f"{m.rel} {cls.name + '.' if cls else ''}{getattr(fn, 'name', '?')}"
                where = f"{m.rel}:{x.lineno} in {getattr(fn, 'name', '?')}"
                c.instance('FileInfo constructions', construct)
                c.functions.add(construct)
                names = ['size', 'mtime', 'mode', 'linkname', 'uid', 'gid', 'userdata']
                given = dict(zip(names, x.args)) | {k.arg: k.value for k in x.keywords if k.arg}
                for name, e in given.items():
                    field('fileinfo', construct, name, e, fn, m, cls, where)
            if isinstance(x, ast.Dict):
                keys = [k.value for k in x.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)]
                if 'st_mode' in keys and 'st_size' in keys and len(keys) >= 4:
                    fn, _, cls = tr.owner.get(id(x), (None, None, None))
                    construct = f"{m.rel} {cls.name + '.' if cls else ''}{getattr(fn, 'name', '?')}"
                    where = f"{m.rel}:{x.lineno} in {getattr(fn, 'name', '?')}"
                    c.instance('stat structures', construct)
                    for k, e in zip(x.keys, x.values):
                        if isinstance(k, ast.Constant) and str(k.value).startswith('st_'):
                            field('stat', construct, k.value[3:], e, fn, m, cls, where)
                    if getattr(fn, 'name', '') == 'getattr':
                        for want in ('st_size', 'st_mode', 'st_uid', 'st_gid', 'st_mtime'):
                            c.check('stat', f"{construct} has {want}", want in keys, "is missing", where)
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
                for a, b in ((x.left, x.right), (x.right, x.left)):
                    if isinstance(b, ast.Constant) and b.value in (10**9, 1e9) or ast.unparse(b) in ('10**9', '10 ** 9'):
                        fn, _, cls = tr.owner.get(id(x), (None, None, None))
                        construct = f"{m.rel} {getattr(fn, 'name', '?')}"
                        c.instance('nanosecond conversions', construct)
                        cut = isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('int', 'round')
                        c.check('precision', construct, not cut, f"cuts off fractions of seconds: {ast.unparse(x)[:60]}", f"{m.rel}:{x.lineno}")

    # positional reads
    for m in tr.modules:
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            lists: Dict[str, List[str]] = {}
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List):
                    v = [e.value for e in s.value.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)]
                    if len(v) == len(s.value.elts) and len(set(v) & set(cols)) >= 3:
                        lists[s.targets[0].id] = v
            for name, base in lists.items():
                full = list(base)
                adds = [s for s in ast.walk(fn) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.value, ast.List)]
                adds += [s for s in ast.walk(fn) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name
                         and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == name]
                adds += [s for s in ast.walk(fn) if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'extend') and isinstance(s.func.value, ast.Name) and s.func.value.id == name]
                for s in sorted(adds, key=lambda s: s.lineno):
                    v = s.value if isinstance(s, (ast.AugAssign, ast.Assign)) else s.args[0]
                    full += [e.value for e in ast.walk(v) if isinstance(e, ast.Constant) and isinstance(e.value, str)]
                for call in ast.walk(fn):
                    if isinstance(call, ast.Call):
                        for k in call.keywords:
                            if k.arg not in cols:
                                continue
                            for sub in ast.walk(k.value):
                                if isinstance(sub, ast.Subscript) and isinstance(sub.slice, ast.Constant) and isinstance(sub.slice.value, int):
                                    i = sub.slice.value
                                    got = full[i] if 0 <= i < len(full) else '?'
                                    c.instance('positional reads', f"{fn.name} {k.arg}")
                                    c.check('position', f"{fn.name} {k.arg}", got == k.arg, f"reads the column {got}", f"{m.rel}:{sub.lineno}")
    # reads by name
    for m in tr.modules:
        for call in ast.walk(m.tree):
            if isinstance(call, ast.Call):
                for k in call.keywords:
                    if k.arg in cols and k.arg not in OWN:
                        for sub in ast.walk(k.value):
                            if isinstance(sub, ast.Subscript) and isinstance(sub.slice, ast.Constant) and sub.slice.value in cols:
                                c.check('position', f"{m.rel} {k.arg}", sub.slice.value == k.arg, f"reads the column {sub.slice.value}", f"{m.rel}:{sub.lineno}")

    # member types
    for m in tr.modules:
        for x in ast.walk(m.tree):
            pairs = []
            if isinstance(x, ast.IfExp):
                pairs = [(x.test, x.body)]
            elif isinstance(x, ast.If):
                pairs = [(x.test, x.body[0])] if len(x.body) == 1 else []
            elif isinstance(x, ast.Dict):
                pairs = [(k, v) for k, v in zip(x.keys, x.values) if k is not None]
            for test, body in pairs:
                if isinstance(test, ast.UnaryOp):
                    continue
                preds = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(test) if isinstance(n, (ast.Attribute, ast.Name))} & set(PRED)
                bits = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(body) if isinstance(n, (ast.Attribute, ast.Name))} & set(PRED.values())
                if preds and len(bits) == 1 and isinstance(body, (ast.Attribute, ast.Name, ast.BinOp, ast.AugAssign, ast.Assign, ast.Return)):
                    b = next(iter(bits))
                    c.instance('member type tests', f"{m.rel} {sorted(preds)}")
                    c.check('types', f"{m.rel} {b}", any(PRED[p] == b for p in preds), f"{sorted(preds)} is mapped to {b}", f"{m.rel}:{x.lineno}")
    for k in subs:
        if 'SQLiteIndexedTar' != k.name:
            continue
        for x in ast.walk(k.module.tree):
            if isinstance(x, ast.Tuple) and len(x.elts) == len(cols) and isinstance(x.ctx, ast.Load):
                fn, _, cls = tr.owner.get(id(x), (None, None, None))
                t = tr.tokens(x.elts[cols.index('mode')], fn, k.module, cls)
                if 'S_IFDIR' in t:
                    for b in ('S_IFREG', 'S_IFLNK', 'S_IFCHR', 'S_IFBLK', 'S_IFIFO'):
                        c.check('types', f"TAR {b}", b in t, "no member type is mapped to it", f"{k.module.rel}:{x.lineno}")
    c.floor('index rows', 3)
    c.floor('FileInfo constructions', 3)
