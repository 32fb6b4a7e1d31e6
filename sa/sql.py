"""Tiny SQL reader for the statements this code base issues (provenance of columns and WHERE keys)."""

import re
from typing import Any, Dict, List, Optional

from .flow import V, call_arg, call_args, call_name, const, cval

HOLE = '\x00'


def text_of(v: Optional[V]) -> Optional[str]:
    """SQL text of a term; non-constant parts become HOLE characters."""
    if v is None:
        return None
    if v.op == 'const':
        return cval(v) if isinstance(cval(v), str) else None
    if v.op == 'fstr':
        return ''.join(str(cval(x)) if x.op == 'const' else HOLE for x in v.args[0])
    if v.op == 'bin' and v.args[0] == 'Add':
        l, r = text_of(v.args[1]), text_of(v.args[2])
        return None if l is None and r is None else (l if l is not None else HOLE) + (r if r is not None else HOLE)
    return None


def strip_comments(t: str) -> str:
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    t = re.sub(r'--[^\n]*', ' ', t)
    return re.sub(r'\s+', ' ', t).strip()


def statements(t: str) -> List[str]:
    return [x.strip() for x in strip_comments(t).split(';') if x.strip()]


TOKEN = re.compile(r'"[^"]*"|\'[^\']*\'|`[^`]*`|\[[^\]]*\]|[A-Za-z_][A-Za-z_0-9.]*|\d+|\?|==|!=|<>|<=|>=|\|\||[-+*/%(),=<>\x00.:]')


def tokens(t: str) -> List[str]:
    return TOKEN.findall(t)


def unq(x: str) -> str:
    return x.strip('"`[]').lower()


def table_of(stmt: str) -> Optional[str]:
    m = re.search(r'(?:INTO|UPDATE|FROM|TABLE(?:\s+IF\s+(?:NOT\s+)?EXISTS)?|VIEW|INDEX)\s+("[^"]+"|[A-Za-z_][\w.]*)', stmt, re.I)
    return unq(m[1]) if m else None


def is_sql_call(call: V) -> bool:
    return call_name(call) in ('.execute', '.executemany', '.executescript')


def params_list(v: Optional[V]):
    """(leading items, trailing items or None when a star is inside)"""
    if v is None:
        return [], []
    if v.op in ('tuple', 'list'):
        items = list(v.args[0])
        star = [i for i, x in enumerate(items) if x.op == 'star']
        if not star:
            return items, items
        return items[: star[0]], items[star[-1] + 1 :]
    return None, None


class Stmt:
    """verb, table, sets: column -> value term or literal, where: column -> value, text"""

    def __init__(self, text):
        self.text = text
        self.verb = (tokens(text) or ['?'])[0].upper()
        self.conflict = ''
        m = re.match(r'INSERT\s+OR\s+(\w+)', text, re.I)
        if m:
            self.conflict = m[1].upper()
        if self.verb == 'REPLACE':
            self.verb, self.conflict = 'INSERT', 'REPLACE'
        self.table = table_of(text)
        self.sets: Dict[str, Any] = {}
        self.where: Dict[str, Any] = {}
        self.columns: Optional[List[str]] = None


def literal(tok: str):
    if tok.isdigit():
        return const(int(tok))
    u = tok.upper()
    if u in ('TRUE', 'FALSE'):
        return const(1 if u == 'TRUE' else 0)
    if u == 'NULL':
        return const(None)
    if tok.startswith("'"):
        return const(tok.strip("'"))
    return None


def parse(call: V, schema: Optional[Dict[str, List[str]]] = None) -> List[Stmt]:
    t = text_of(call_arg(call, 0, 'sql'))
    if t is None:
        return []
    lead, trail = params_list(call_arg(call, 1, 'parameters'))
    out = []
    for text in statements(t):
        s = Stmt(text)
        toks = tokens(text)
        nq = toks.count('?')
        # value supplier for the k-th placeholder of the statement (single statement calls only)
        def value(k):
            if lead is None:
                return None
            if lead is trail or len(lead) == nq:
                return lead[k] if k < len(lead) else None
            if nq - k <= len(trail):
                return trail[len(trail) - (nq - k)]
            return lead[k] if k < len(lead) else None

        q = 0
        if s.verb == 'INSERT':
            cols = None
            m = re.search(r'INTO\s+(?:"[^"]+"|\w+)\s*\(([^)]*)\)\s*(?:VALUES|SELECT)', text, re.I)
            if m:
                cols = [unq(x.strip()) for x in m[1].split(',')]
            elif schema and s.table in schema:
                cols = schema[s.table]
            m = re.search(r'VALUES\s*\((.*)\)', text, re.I)
            vals = []
            if m:
                for x in m[1].split(','):
                    x = x.strip()
                    if x == '?':
                        vals.append(value(q))
                        q += 1
                    else:
                        vals.append(literal(x))
            s.columns = cols
            if cols:
                s.sets = dict(zip(cols, vals))
        else:
            # assignments and conditions: "col" (=|==) (?|literal|(?) )
            flat = [x for x in toks if x not in ('(', ')')]
            # row-value comparison (path,name) == (?,?)
            section = 'set'
            i = 0
            while i < len(flat):
                x = flat[i]
                u = x.upper()
                if u == 'WHERE':
                    section = 'where'
                elif x in ('=', '=='):
                    lhs = []
                    j = i - 1
                    while j >= 0 and re.match(r'^["`\[A-Za-z_]', flat[j]) and flat[j].upper() not in (
                        'WHERE', 'AND', 'OR', 'SET', 'BY', 'FROM', 'SELECT', 'NOT',
                    ):
                        lhs.insert(0, unq(flat[j].split('.')[-1]))
                        if j - 1 >= 0 and flat[j - 1] == ',' and section == 'where':
                            j -= 2
                        else:
                            break
                    rhs = []
                    j = i + 1
                    while j < len(flat) and len(rhs) < max(1, len(lhs)):
                        if flat[j] == ',':
                            j += 1
                            continue
                        if flat[j] == '?':
                            rhs.append(value(q))
                            q += 1
                        else:
                            rhs.append(literal(flat[j]))
                        j += 1
                    for c, v in zip(lhs, rhs):
                        (s.where if section == 'where' else s.sets)[c] = v
                    i = j
                    continue
                elif x == '?':
                    q += 1
                i += 1
        out.append(s)
    return out
