"""Archive-controlled values never become part of a query's text, and paths are compared exactly."""

import ast
import re

from ..consts import ConstSlice, flat
from ..model import Program, dotted

EXPLANATION = (
    "Backward slices over the whole program: the text of every query that is executed must be built from program constants only "
    "(through locals, loop variables, attributes, parameters of helpers and all their call sites); patterns must not be applied to "
    "values; queries for one entry must compare both parts of its key exactly; database URIs must be built from quoted paths."
)
EXECUTE = ('execute', 'executemany', 'executescript')
PATTERN = re.compile(r'\b(LIKE|GLOB|REGEXP|MATCH)\b\s*\(?\s*(?!\s|\'|\()', re.I)


def texts(e, cs, fn, m, cls, depth=0):
    """Flattened texts of the possible values of an expression (for scanning the SQL keywords)."""
    if isinstance(e, ast.Name) and depth < 4:
        for scope in cs._scopes(fn):
            out = []
            for x in cs._own(scope):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            out += texts(x.value, cs, scope, m, cls, depth + 1)
            if out:
                return out
        return ['\x00']
    if isinstance(e, ast.JoinedStr):
        acc = ['']
        for v in e.values:
            opts = [v.value] if isinstance(v, ast.Constant) else texts(v.value, cs, fn, m, cls, depth + 1) if isinstance(v.value, (ast.Name, ast.IfExp)) else [flat(v)]
            acc = [a + o for a in acc for o in opts][:16]
        return acc
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, ast.Add):
            return [a + b for a in texts(e.left, cs, fn, m, cls, depth + 1) for b in texts(e.right, cs, fn, m, cls, depth + 1)][:16]
        return texts(e.left, cs, fn, m, cls, depth + 1)
    if isinstance(e, ast.IfExp):
        return texts(e.body, cs, fn, m, cls, depth + 1) + texts(e.orelse, cs, fn, m, cls, depth + 1)
    return [flat(e)]


def quoted(e, cs, fn, m, cls, depth=0) -> bool:
    """The expression is a constant or went through urllib.parse.quote."""
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.FormattedValue):
        return quoted(e.value, cs, fn, m, cls, depth)
    if isinstance(e, ast.JoinedStr):
        return all(quoted(v, cs, fn, m, cls, depth) for v in e.values)
    if isinstance(e, ast.BinOp):
        return quoted(e.left, cs, fn, m, cls, depth) and quoted(e.right, cs, fn, m, cls, depth)
    if isinstance(e, ast.IfExp):
        return quoted(e.body, cs, fn, m, cls, depth) and quoted(e.orelse, cs, fn, m, cls, depth)
    if isinstance(e, ast.Call):
        n = (dotted(e.func) or '').split('.')[-1]
        if n in ('quote', 'quote_plus', 'as_uri', 'pathname2url'):
            return n != 'quote_plus'
        if isinstance(e.func, ast.Attribute) and n in ('format', 'join') or (isinstance(e.func, ast.Name) and n == 'str'):
            return all(quoted(x, cs, fn, m, cls, depth) for x in e.args) and (not isinstance(e.func, ast.Attribute) or quoted(e.func.value, cs, fn, m, cls, depth))
        if n == 'as_uri' or (isinstance(e.func, ast.Attribute) and e.func.attr == 'as_uri'):
            return True
        f = cs._callee(e, fn, m, cls)
        if f is not None and depth < 4:
            rets = [r.value for r in cs._own(f.node) if isinstance(r, ast.Return)]
            return bool(rets) and all(r is not None and quoted(r, cs, f.node, f.module, f.cls.node if f.cls else None, depth + 1) for r in rets)
        return False
    if isinstance(e, ast.Name) and depth < 6:
        for scope in cs._scopes(fn):
            vals = []
            for x in cs._own(scope):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            vals.append(quoted(x.value, cs, scope, m, cls, depth + 1))
            if e.id in cs._params(scope) and hasattr(scope, 'name'):
                return None if not vals else all(vals)
            if vals:
                return all(vals)
    return False


def run(prog: Program, c):
    c.rule('text', "the text of every executed query consists of program constants only")
    c.rule('exact', "no pattern matching is applied to values")
    c.rule('key', "queries for a single entry compare its folder and its name")
    c.rule('uri', "paths in database URIs are quoted")
    cs = ConstSlice(prog)
    for name in EXECUTE:
        for call, fn, m, cls in cs.callsites.get(name, ()):
            if not isinstance(call.func, ast.Attribute):
                continue
            args = call.args or [k.value for k in call.keywords if k.arg in ('sql', 'sql_script')]
            if not args:
                continue
            e = args[0]
            fname = getattr(fn, 'name', '<lambda>')
            where = f"{m.rel}:{call.lineno} in {(cls.name + '.') if cls else ''}{fname}"
            construct = f"{m.rel} {(cls.name + '.') if cls else ''}{fname}"
            c.instance('queries', f"{construct} {call.lineno}")
            c.functions.add(construct)
            c.check('text', construct, cs.ok(e, fn, m, cls), f"the query text '{ast.unparse(e)[:80]}' contains values which are not program constants", where)
            for t in texts(e, cs, fn, m, cls):
                t = re.sub(r'--[^\n]*', ' ', re.sub(r'/\*.*?\*/', ' ', t, flags=re.S))
                p = PATTERN.search(t)
                c.check('exact', construct, p is None, f"applies {p[1] if p else ''} to a value: {' '.join(t.split())[:80]!r}", where)
                c.check('exact', construct + ' case', not re.search(r'COLLATE\s+(?!BINARY)\w|\b(lower|upper|l?trim|rtrim)\s*\(', t, re.I), "compares names inexactly", where)
                for stmt in t.split(';'):
                    w = re.search(r'\bWHERE\b(.*)$', stmt, re.I | re.S)
                    if w and re.search(r'(FROM|UPDATE)\s+"?files"?', stmt, re.I):
                        cond = w[1]
                        # placeholders in a disjunction match more than the one entry
                        c.check('key', construct + ' or', not ('?' in cond and re.search(r'\bOR\b', re.sub(r"'[^']*'", '', cond), re.I)), f"matches other entries, too: {' '.join(cond.split())[:60]}", where)
                        odd = re.search(r'(?<![.\w])"?(path|name)"?\s*(<=|>=|<(?!>)|>)\s*\(?\s*\?', cond, re.I)
                        c.check('exact', construct + ' order', odd is None, f"compares the {odd[1] if odd else ''} by order: {' '.join(cond.split())[:60]}", where)
                        hasName = re.search(r'(?<![.\w])"?name"?\s*,?\s*[\w",]*\)?\s*(==?|IN\b|IS\b|!=|<>)|\(\s*"?path"?\s*,\s*"?name"?\s*\)', cond, re.I)
                        if hasName:
                            c.instance('queries by name', construct)
                            c.check('key', construct, bool(re.search(r'\bpath\b', cond, re.I)), f"looks up an entry by its name only: {' '.join(cond.split())[:60]}", where)
                    elif w and re.search(r'FROM\s+"?xattrs"?', stmt, re.I) and re.match(r'\s*SELECT\s+"?(value|\*)', stmt, re.I):
                        cond = w[1]
                        c.check('key', construct + ' attribute', bool(re.search(r'\boffsetheader\b', cond, re.I) and re.search(r'\bkey', cond, re.I)) and not re.search(r'\bOR\b', cond, re.I), f"looks up an attribute by a part of its key only: {' '.join(cond.split())[:60]}", where)
                    elif re.match(r'\s*(DELETE\s+FROM|UPDATE)\s+"?files"?', stmt, re.I):
                        c.check('key', construct, False, "changes all entries", where)
    # database URIs
    for name in ('connect', '_open_sql_db'):
        pass
    for call, fn, m, cls in [x for v in cs.callsites.values() for x in v]:
        kw = {k.arg: k.value for k in call.keywords if k.arg}
        u = kw.get('uri')
        if not (isinstance(u, ast.Constant) and u.value is True) or not call.args:
            continue
        fname = getattr(fn, 'name', '<lambda>')
        construct = f"{m.rel} {(cls.name + '.') if cls else ''}{fname}"
        where = f"{m.rel}:{call.lineno} in {fname}"
        c.instance('database URIs', construct)
        e = call.args[0]
        r = quoted(e, cs, fn, m, cls)
        if r is None:  # a parameter: look at the callers
            idx = cs._params(fn).index(e.id) if isinstance(e, ast.Name) and e.id in cs._params(fn) else None
            r = True
            for call2, fn2, m2, cls2 in cs.callsites.get(fname, ()):
                if not cs.related(call2, m2, cls2, cls):
                    continue
                kw2 = {k.arg: k.value for k in call2.keywords if k.arg}
                a = kw2.get(e.id)
                if a is None and idx is not None:
                    off = 1 if cls is not None and cs._params(fn)[:1] in (['self'], ['cls']) else 0
                    a = call2.args[idx - off] if 0 <= idx - off < len(call2.args) else None
                if a is not None and quoted(a, cs, fn2, m2, cls2) is False:
                    r = False
        c.check('uri', construct, bool(r), f"the path in {ast.unparse(e)[:60]} is not quoted", where)
    c.floor('queries', 10)
    c.floor('database URIs', 1)
