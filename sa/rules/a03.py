"""Deleted entries stay hidden, re-created entries become visible, failed operations change neither."""

import ast
import re

from ..flow import NONE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import Program
from .. import sql
from . import overlay
from .fusemount import FuseRule, run_ops

EXPLANATION = (
    "Typestate dataflow over every FUSE operation of the write overlay: for each request path the analysis tracks the last "
    "write to its deleted flag, whether the combined view is known to contain it and whether the overlay copy exists, over "
    "all branches and exception edges. At each normal exit a created path must be unflagged and a removed path flagged (or "
    "known to be absent below); at each exceptional exit no flag may have been set or cleared without the matching effect. "
    "The readers are analysed the same way: every lookup the mount does for a request path is dominated by the deleted check, "
    "and every directory entry it yields by the deleted filter."
)


def run(prog: Program, c):
    c.rule('removed-hidden', "after a successful removal the path is flagged as deleted or absent from the combined view")
    c.rule('created-shown', "after a successful creation the path is not flagged as deleted")
    c.rule('failed-unhidden', "a failing removal leaves the deleted flag as it was")
    c.rule('failed-unshown', "a failing creation does not clear the deleted flag before the entry exists")
    c.rule('removed-gone', "after a successful removal no copy is left in the overlay folder")
    c.rule('empty', "only folders without visible entries are removed")
    c.rule('flag-read', "the deleted predicate reads the flag of exactly the requested (parent, name) pair")
    c.rule('flag-list', "the deleted list reads the flagged names of exactly the requested folder")
    c.rule('lookup-guarded', "the mount looks a request path up only if it is not flagged as deleted")
    c.rule('listing-filtered', "the mount yields a directory entry only if it is not in the deleted list")
    c.rule('durable', "metadata changes are committed without a separate commit call")
    c.floor('overlay operations', 10)
    for op, (rule, exits, roleMap, paths, roles) in overlay.analyse(prog, c).items():
        for kind, v, st in exits:
            rs = st.rs
            for p, role in zip(paths, roles):
                db, real, under, isdel = (rule.get(rs, k, p) for k in ('db', 'real', 'under', 'isdel'))
                if kind == 'return':
                    if op == 'rmdir' and role == 'remove':
                        c.check('empty', f"{op}({p})", rule.get(rs, 'empty', p) is True,
                                "returns normally without having found that all entries of the folder are deleted", rule.func.where)
                    if role == 'remove':
                        c.check('removed-hidden', f"{op}({p})", db == 'marked' or (under is False and db != 'unknown'),
                                f"returns normally but '{p}' is neither flagged as deleted nor known to be absent "
                                f"(last flag write: {db}, in combined view: {under})", rule.func.where)
                        c.check('removed-gone', f"{op}({p})", real is False or rule.get(rs, 'removed', p) is True,
                                f"returns normally but the overlay copy of '{p}' may still exist", rule.func.where)
                    if role == 'create':
                        c.check('created-shown', f"{op}({p})", db == 'cleared' or (isdel is False and db is None),
                                f"returns normally but '{p}' may still be flagged as deleted (last flag write: {db})", rule.func.where)
                    if role in ('attr', 'modify'):
                        c.check('created-shown', f"{op}({p})", db != 'marked', f"flags '{p}' as deleted", rule.func.where)
                else:
                    if db == 'marked' and role != 'create':
                        ok = isdel is True or under is False or rule.get(rs, 'removed', p) is True
                        c.check('failed-unhidden', f"{op}({p})", ok,
                                f"fails after flagging '{p}' as deleted although it was not removed", rule.func.where)
                    else:
                        c.check('failed-unhidden', f"{op}({p})", db != 'marked', f"fails after flagging '{p}' as deleted", rule.func.where)
                    if role == 'create':
                        c.check('failed-unshown', f"{op}({p})", db != 'cleared' or real is True,
                                f"fails after clearing the deleted flag of '{p}' although nothing was created", rule.func.where)
        for kind, p, eff, term, where, rs in rule.events:
            if kind == 'db' and p is None:
                c.check('flag-read', f"{op}: {eff} keyed by the request path", False,
                        "changes a metadata row which is not keyed by the (parent, name) pair of a request path", where)
            if kind == 'dbwide':
                c.check('flag-read', f"{op}: {eff} keyed by the request path", False,
                        "changes metadata rows other than the one of the request path", where)
            else:
                c.ob['flag-read'] += 1
    readers(prog, c)
    guards(prog, c)
    durable(prog, c)


class ReaderRule(Rule):
    exc_exits = False

    def __init__(self):
        self.calls = []

    def on_call(self, cx, call, st):
        if sql.is_sql_call(call):
            self.calls.append((call, cx.where()))
        return st.rs, st.rs


def readers(prog, c):
    ov = prog.cls(overlay.OVERLAY)
    f = prog.method(overlay.OVERLAY, 'is_deleted')
    rule = ReaderRule()
    flow = Flow(prog, rule)
    exits = flow.run(f, ov)
    c.used(flow, f.where, len(exits))
    helper = overlay.OverlayRule(c, 'is_deleted', f, f.params[1:2])
    rets = [v for k, v, st in exits if k == 'return']
    for v in rets:
        if v.op == 'const':
            # explicit branch on the query result is fine when the query decided it
            ok = any(matches(x, helper, f.params[1]) for k, _, st in exits if k == 'return' for t in st.facts for x in subterms(t))
        else:
            ok = any(matches(x, helper, f.params[1]) for x in subterms(v)) and not negated(v)
        c.check('flag-read', 'deleted predicate', ok, f"returns {show(v)[:160]}, which is not the flag of the requested path", f.where)
    f = prog.method(overlay.OVERLAY, 'list_deleted')
    rule = ReaderRule()
    flow = Flow(prog, rule)
    exits = flow.run(f, ov)
    c.used(flow, f.where, len(exits))
    for k, v, st in exits:
        if k != 'return':
            continue
        ok = False
        for call, where in rule.calls:
            for s in sql.parse(call, overlay.SCHEMA):
                if s.table == 'files' and s.verb == 'SELECT' and flagged(s):
                    p = s.where.get('path')
                    if p is not None and any(x.op == 'param' and x.args[0] == f.params[1] for x in subterms(p)):
                        ok = ok or set(s.where) <= {'path', 'deleted'} and any(x is call or x.op in ('phi', 'any', 'loopvar', 'upd') for x in subterms(v))
                        c.check('flag-list', 'folder of the deleted list', unslashed(p), f"compares the folders with {show(p)[:60]}, which may end with a separator", where)
        c.check('flag-list', 'deleted list', ok and v is not NONE, "does not return the flagged names of the requested folder", f.where)
        hidden = prog.cls(overlay.OVERLAY).find_attr('hiddenDatabaseName')
        c.check('flag-list', 'overlay database hidden', hidden is None or any(
            (x.op == 'const' and isinstance(cval(x), str) and '.ratarmount.overlay' in cval(x)) or (x.op == 'attr' and x.args[1] == 'hiddenDatabaseName')
            for x in subterms(v)), "the database of the overlay itself is not part of the hidden names", f.where)


def unslashed(v: V) -> bool:
    """The path has no trailing separator, like those stored in the database."""
    if v.op == 'const':
        return isinstance(cval(v), str) and not cval(v).endswith('/')
    if v.op == 'call' and call_name(v) in ('.rstrip', '.strip', '.removesuffix'):
        return True
    if v.op == 'call' and call_name(v) == 'str' and call_args(v):
        return unslashed(call_args(v)[0])
    if v.op == 'bin' and v.args[0] == 'Add':
        return unslashed(v.args[2])
    if v.op == 'fstr':
        return unslashed(v.args[0][-1])
    if v.op == 'sub' and v.args[0].op == 'call' and call_name(v.args[0]) in ('.rsplit', '.rpartition', '.split', '.partition'):
        return True
    if v.op in ('phi', 'ifexp'):
        return all(unslashed(x) for x in (v.args[0] if v.op == 'phi' else v.args[1:] if len(v.args) == 3 else v.args))
    return v.op in ('any', 'loopvar', 'upd')


def flagged(s) -> bool:
    d = s.where.get('deleted')
    if d is not None:
        return d.op == 'const' and bool(cval(d))
    return False


def matches(x, helper, p):
    if not overlay.sql_query(x):
        return False
    for s in sql.parse(x, overlay.SCHEMA):
        if s.verb == 'SELECT' and s.table == 'files' and helper.row_of(s.where) == p and flagged(s):
            return True
    return False


def negated(v):
    if v.op == 'un' and v.args[0] == 'Not':
        return not negated(v.args[1])
    if v.op == 'cmp' and v.args[0] in ('==', 'is') and v.args[2].op == 'const' and not cval(v.args[2]):
        return True
    return False


READ_OPS = ('getattr', 'open', 'read', 'readlink', 'listxattr', 'getxattr')


def guards(prog, c):
    for op, (rule, exits, f) in run_ops(prog, c, READ_OPS).items():
        for where, arg, rs in rule.lookups:
            c.instance('request path lookups', where + op)
            ok = ('overlay', False) in rs or ('isdel', arg, False) in rs
            c.check('lookup-guarded', f"{op}", ok, f"looks up {show(arg)} without having excluded that it is flagged as deleted", where)
        if not rule.lookups:
            c.check('lookup-guarded', f"{op}", False, "no lookup of the request path was found", f.where)
    c.floor('request path lookups', 3)
    f = prog.method('FuseMount', 'readdir')
    res = run_ops(prog, c, ('readdir',))
    rule, exits, f = res['readdir']
    for v, st, where in rule.yields:
        name = v.args[0][0] if v.op == 'tuple' and v.args[0] else v
        if name.op == 'const':
            continue
        ok = ('overlay', False) in st.rs
        if not ok:
            for k, pol in st.facts.items():
                if k.op == 'cmp' and k.args[0] in ('in', 'not in') and k.args[1] is name and any(
                    x.op == 'call' and call_name(x) == '.list_deleted' for x in subterms(k.args[2])
                ):
                    ok = ok or (k.args[0] == 'in') != pol
            ok = ok or any(x.op == 'comp' and '.list_deleted' in show(x) for x in subterms(name)) or filtered(name)
        c.instance('yielded entries', where + show(name)[:30])
        c.check('listing-filtered', 'directory entries', ok, f"yields {show(name)[:80]} without comparing it with the deleted list", where)
    c.floor('yielded entries', 1)


def filtered(name):
    """items of a set/dict from which the deleted names were subtracted"""
    return any(x.op == 'bin' and x.args[0] == 'Sub' and '.list_deleted' in show(x.args[2]) for x in subterms(name))


def durable(prog, c):
    ov = prog.cls(overlay.OVERLAY)
    mod = ov.module
    found = False
    connects = []

    class CR(Rule):
        exc_exits = False

        def on_call(self, cx, call, st):
            if call_name(call) == 'sqlite3.connect':
                connects.append((call, cx.where()))
            if sql.is_sql_call(call):
                for x in subterms(call):
                    if x.op == 'const' and isinstance(cval(x), str):
                        bad = re.search(r'PRAGMA\s+(SYNCHRONOUS\s*=\s*(OFF|0)|JOURNAL_MODE\s*=\s*(OFF|MEMORY))', cval(x), re.I)
                        c.check('durable', 'settings of the overlay database', not bad, f"changes may get lost because of: {bad.group(0) if bad else ''}", cx.where())
                for s in sql.parse(call, overlay.SCHEMA):
                    c.check('durable', 'entries of the overlay database', not (s.table == 'files' and s.verb in ('DELETE', 'UPDATE', 'DROP')),
                            "earlier changes are dropped when opening the overlay", cx.where())
            if call_name(call) in overlay.EFFECTS and any(e == 'rm' for _, e in overlay.EFFECTS[call_name(call)]) or call_name(call) in ('.unlink', '.rename'):
                c.check('durable', 'entries of the overlay folder', False, f"{show(call)[:60]} removes earlier changes when opening the overlay", cx.where())
            return st.rs, st.rs

    init = ov.find('__init__')
    flow = Flow(prog, CR())
    ex = flow.run(init, ov)
    c.used(flow, init.where, len(ex))
    commits = any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'commit' for f in ov.methods.values() for n in ast.walk(f.node)
    )
    for call, where in connects:
        kw = call_kw(call)
        auto = ('isolation_level' in kw and kw['isolation_level'] is NONE) or ('autocommit' in kw and cval(kw['autocommit']) is True)
        iso = call_arg(call, 3, 'isolation_level')
        auto = auto or iso is NONE
        c.instance('overlay database connections', where)
        c.check('durable', 'overlay database connection', auto or commits,
                "changes are kept in an open transaction which nobody commits", where)
    if not connects:
        c.check('durable', 'overlay database connection', False, "the overlay opens no database", init.where)
