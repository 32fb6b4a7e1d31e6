"""Metadata changes reach exactly the requested field of exactly the requested file, and are shown afterwards."""

from ..flow import NONE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, contains, cval, mk, show, subterms
from ..model import Program
from .. import sql
from . import overlay
from .fusemount import is_overlay, run_ops

EXPLANATION = (
    "Typestate dataflow over the metadata operations of the write overlay with the SQL statements read as column/value maps: "
    "at each normal exit the metadata row of the request path is known to exist when it is updated, the requested column holds "
    "the requested value and no other column was changed away from the file's own value; ids of -1 are not stored. The readers "
    "are checked field by field: the row overrides exactly the field of the same name, and the mount merges it into every "
    "lookup when an overlay is configured."
)

COLUMNS = ('mtime', 'mode', 'uid', 'gid')


def run(prog: Program, c):
    c.rule('stored', "the requested value is stored in the column of the same name")
    c.rule('row', "the row exists when it is updated, so that the update cannot be lost")
    c.rule('others', "columns which were not requested keep the value of the file")
    c.rule('unchanged-id', "an owner or group of -1 is not stored")
    c.rule('read-back', "a stored column overrides exactly the field of the same name and missing ones do not")
    c.rule('shown', "the mount merges the stored metadata into the attributes it returns")
    c.rule('rename', "a rename moves the metadata row to the new path")
    c.floor('metadata updates', 3)
    res = overlay.analyse(prog, c)
    want = {'chmod': {'mode': 1}, 'chown': {'uid': 1, 'gid': 2}, 'utimens': {'mtime': 1}}
    for op, cols in want.items():
        if op not in res:
            c.check('stored', op, False, "the overlay does not implement it any more", prog.cls(overlay.OVERLAY).where)
            continue
        rule, exits, _, paths, _ = res[op]
        f = rule.func
        p = paths[0]
        params = {col: f.params[i + 1] for col, i in cols.items()}
        for kind, v, st in exits:
            if kind != 'return':
                continue
            rs = st.rs
            for col in COLUMNS:
                val = rule.get(rs, 'meta', p, col)
                if col in cols:
                    skipped = op == 'chown' and minus_one(st, params[col])
                    if skipped:
                        own = val is None or own_value(val, col)
                        c.check('unchanged-id', f"{op}: {col}", own, f"stores {show(val)[:60] if val else ''} although the id is to be left unchanged", f.where)
                        continue
                    ok = val is not None and any(x.op == 'param' and x.args[0] == params[col] for x in subterms(val)) and not any(
                        x.op == 'param' and x.args[0] in set(params.values()) - {params[col]} for x in subterms(val)
                    )
                    if op == 'utimens' and not ok:
                        ok = val is not None and 'time.time' in show(val) and none_times(st, params[col])
                    if op == 'utimens' and ok and 'time.time' not in show(val):
                        ok = any(x.op == 'sub' and x.args[1].op == 'const' and cval(x.args[1]) in (1, -1) for x in subterms(val))
                    if op == 'utimens' and ok:
                        cut = val.op == 'bin' and val.args[0] == 'FloorDiv' or val.op == 'call' and call_name(val) in ('int', 'round', 'math.floor')
                        c.check('stored', f"{op}: precision", not cut, f"cuts off fractions of seconds: {show(val)[:60]}", f.where)
                    if op == 'chmod' and ok:
                        ok = val is mk('param', params[col]) or full_mode(val, params[col])
                    c.instance('metadata updates', f"{op}: {col}")
                    c.check('stored', f"{op}: {col}", ok,
                            f"stores {show(val)[:80] if val is not None else 'nothing'} instead of the requested '{params[col]}'", f.where)
                    c.check('row', f"{op}: {col}", rule.get(rs, 'updated', p, col) is True or rule.get(rs, 'row', p) is True and rule.get(rs, 'updated', p, col) is None,
                            "updates the metadata row although it may not exist", f.where)
                elif val is not None:
                    c.check('others', f"{op}: {col}", own_value(val, col),
                            f"also changes {col} to {show(val)[:80]}", f.where)
    if 'rename' in res:
        rule, exits, _, paths, _ = res['rename']
        for kind, v, st in exits:
            if kind == 'return':
                c.check('rename', 'rename', rule.get(st.rs, 'row', paths[1]) is True, "the new path has no metadata row", rule.func.where)
                for col in COLUMNS:
                    val = rule.get(st.rs, 'meta', paths[0], col) or rule.get(st.rs, 'meta', paths[1], col)
                    if val is not None:
                        c.check('others', f"rename: {col}", own_value(val, col), f"stores {show(val)[:80]}", rule.func.where)
    read_back(prog, c)
    shown(prog, c)


def own_value(val, col):
    """value of the same field of the file itself, or NULL (no override)"""
    if val.op == 'attr':
        return val.args[1] == col and not any(x.op == 'new' or x.op == 'call' and call_name(x).startswith('time.') for x in subterms(val))
    return val is NONE or (val.op == 'sub' and cval(val.args[1]) == col)


def full_mode(val, p):
    if val.op == 'bin' and val.args[0] == 'BitOr':
        return any(x is mk('param', p) for x in val.args[1:])
    return False


def minus_one(st, p):
    for k, pol in st.facts.items():
        if k.op == 'cmp' and k.args[1] is mk('param', p) and k.args[2].op == 'const' and cval(k.args[2]) in (-1,):
            if (k.args[0] == '==') == pol and k.args[0] in ('==', '!='):
                return True
        if k.op == 'cmp' and k.args[1] is mk('param', p) and cval(k.args[2]) == 0 and k.args[0] == '<' and pol:
            return True
    return False


def none_times(st, p):
    for k, pol in st.facts.items():
        if k.op == 'cmp' and k.args[0] == 'is' and k.args[1] is mk('param', p) and k.args[2] is NONE:
            return pol
        if k is mk('param', p):
            return not pol
    return False


class ReadRule(Rule):
    """Remembers how results are constructed, with the state at the construction."""

    exc_exits = False

    def __init__(self):
        self.built = []

    def on_call(self, cx, call, st):
        fn = call.args[0]
        if fn.op == 'cls' and fn.args[0].name == 'FileInfo' or call_name(call) in ('dataclasses.replace', '._replace'):
            self.built.append((call, st))
        return st.rs, st.rs


def read_back(prog, c):
    ov = prog.cls(overlay.OVERLAY)
    f = prog.method(overlay.OVERLAY, 'update_file_info')
    fields = list(prog.cls('FileInfo').fields) if hasattr(prog.cls('FileInfo'), 'fields') else ['size', 'mtime', 'mode', 'linkname', 'uid', 'gid', 'userdata']
    rule = ReadRule()
    flow = Flow(prog, rule)
    exits = flow.run(f, ov)
    c.used(flow, f.where, len(exits))
    p, fi = f.params[1], f.params[2]
    overridden = set()
    returned = []
    for kind, v, st in exits:
        if kind == 'return':
            returned += [(x, st) for x in (v.args[0] if v.op in ('phi', 'any') else (v,))]
    replaced = any(v.op == 'call' for v, _ in returned)
    for v, st in returned:
        if v is mk('param', fi):
            # No row (or fields replaced in place)
            vals = {x: st.heap.get((v, x)) for x in fields if (v, x) in st.heap}
            for col, val in vals.items():
                check_field(c, f, st, fi, col, val, overridden)
        elif not (v.op == 'new' and v.args[0].name == 'FileInfo' or v.op == 'call' and call_name(v) in ('dataclasses.replace', '._replace')):
            c.check('read-back', 'result', False, f"returns {show(v)[:80]}", f.where)
    for call, st in rule.built:
        if call.args[0].op == 'cls':
            kw, pos = call_kw(call), call_args(call)
            for i, col in enumerate(fields):
                val = pos[i] if i < len(pos) else kw.get(col)
                if val is None:
                    c.check('read-back', f"field {col}", False, "is missing", f.where)
                    continue
                check_field(c, f, st, fi, col, val, overridden)
        elif replaced:
            for col, val in call_kw(call).items():
                check_field(c, f, st, fi, col, val, overridden)
    for col in COLUMNS:
        c.check('read-back', f"column {col} is used", col in overridden, "the stored value is never used", f.where)


def check_field(c, f, st, fi, col, val, overridden):
    own = mk('attr', mk('param', fi), col)
    if val is own:
        # A stored 0 (e.g., the owner root) is a value like any other and must not count as missing.
        dropped = [k for k, pol in st.facts.items() if k.op == 'sub' and cval(k.args[1]) == col and not pol]
        c.check('read-back', f"field {col} stored as 0", not dropped or col not in COLUMNS,
                "a stored value of 0 is treated like a missing one", f.where)
        return
    terms = [val]
    if val.op in ('phi',):
        terms = list(val.args[0])
    for t in terms:
        if t is own:
            continue
        ok = t.op == 'sub' and cval(t.args[1]) == col and col in COLUMNS
        c.check('read-back', f"field {col}", ok, f"is taken from {show(t)[:80]}", f.where)
        if ok:
            overridden.add(col)
            # NULL must not override
            notnull = any(
                k.op == 'cmp' and k.args[0] == 'is' and k.args[1] is t and k.args[2] is NONE and not pol for k, pol in st.facts.items()
            ) or any(k is t and pol for k, pol in st.facts.items()) or val.op == 'phi'
            c.check('read-back', f"field {col} of a row without value", notnull, "a missing stored value overrides the file's own value", f.where)


def shown(prog, c):
    for op in ('getattr',):
        rule, exits, f = run_ops(prog, c, (op,))[op]
        any_ = False
        for call, rs, st, where in rule.calls:
            if call_name(call) == '.update_file_info' and call_args(call):
                a = call_args(call)[0]
                c.check('shown', f"{op}: path", contains(a, mk('param', f.params[1])) and not any(x.op in ('sub', 'slice') for x in subterms(a)),
                        f"the stored metadata is looked up for {show(a)[:60]} instead of the requested path", where)
        for kind, v, st in exits:
            if kind != 'return':
                continue
            if ('overlay', False) in st.rs:
                continue
            any_ = True
            if v.op != 'dict':
                c.check('shown', f"{op}", '.update_file_info' in show(v), "returns attributes without merging the stored metadata", f.where)
                continue
            d = {cval(k): x for k, x in v.args[0] if k.op == 'const'}
            for key in ('st_mode', 'st_uid', 'st_gid', 'st_mtime'):
                x = d.get(key)
                ok = x is not None and any(y.op == 'call' and call_name(y) == '.update_file_info' for y in subterms(x))
                c.check('shown', f"{op}: {key}", ok, "does not come from the merged metadata", f.where)
        c.check('shown', op, any_, "no exit with a configured overlay found", f.where)
