"""An index whose creation was interrupted is never used."""

import ast
import re

from ..flow import NONE, Flow, V, call_arg, call_args, call_name, call_recv, cval, mk, show, subterms
from ..model import Program, dotted, walk_own
from .. import sql
from .indexload import appending, IndexRule, dropped_tables, index_class, marker_tables, script_text, source_class, sql_statements

EXPLANATION = (
    "Typestate over the index connection through the whole loading path (every branch and exception edge): whenever loading "
    "ends with an open connection, the completeness test (table present, marker tables absent) was passed on it. The SQL scripts "
    "are replayed statement by statement against the marker set, and the creation entry points are analysed for the order "
    "'index callback returned' before 'markers dropped', with failures of the callback leaving by exception."
)


class CreateRule(IndexRule):
    """Additionally tracks the index creation callbacks and the finalisation script."""

    def __init__(self, prog, callbacks):
        super().__init__(prog)
        self.callbacks = callbacks
        self.drops = []
        self.calls = []

    def on_call(self, cx, call, st):
        ok, bad = super().on_call(cx, call, st)
        f = call.args[0]
        if (f.op == 'param' and f.args[0] in self.callbacks) or (f.op == 'attr' and f.args[1] in self.callbacks):
            self.calls.append((call, st.rs, cx.where()))
            ok, bad = (ok - {'failed'}) | {'created'}, bad | {'failed'}
        if sql.is_sql_call(call) and call_name(call) == '.executescript' and call_arg(call, 0) is not None:
            t = script_text(self.prog, call_arg(call, 0))
            if t and any(re.match(r'CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?"?(%s)"?' % '|'.join(map(re.escape, self.markers or {'-'})), x, re.I) for x in sql_statements(t)):
                ok = ok | {'marked'}
        if sql.is_sql_call(call):
            v = call_arg(call, 0, 'sql')
            t = sql.text_of(v) if v is not None else None
            if t and any(re.match(r'DROP\s+TABLE\s+"?(%s)"?' % '|'.join(map(re.escape, self.markers)), x, re.I) for x in sql_statements(t)):
                self.drops.append((call, ok, cx.where()))
                return ok | {'published'}, bad
        return ok, bad


def writes_files(stmt):
    m = re.match(r'(INSERT(?:\s+OR\s+\w+)?\s+INTO|REPLACE\s+INTO|UPDATE|DELETE\s+FROM)\s+"?(\w+)"?', stmt, re.I)
    return bool(m) and m[2].lower() == 'files'


def run(prog: Program, c):
    c.rule('loader', "loading ends with an open connection only after the completeness test passed on that connection")
    c.rule('marker-create', "a table marking the index as incomplete exists before the files table is created")
    c.rule('marker-drop', "the last marker is dropped only after the last change of the files table")
    c.rule('marker-append', "whenever entries are added, also to an index loaded before, the marker tables were created")
    c.rule('publish', "the markers are dropped only after the index creation callback returned")
    c.rule('failure', "an exception of the index creation callback leaves the creation")
    c.rule('interrupt', "no handler in the indexing code swallows the interruption by the user")
    ic = index_class(prog)
    rule, exits, f, flow = marker_tables(c, prog)
    if rule is None:
        c.check('loader', 'open_existing', False, "the index class can no longer load existing indexes", ic.where)
        return
    accepted = [(k, s) for k, v, s in exits if 'open' in s.rs]
    markers = dropped_tables(prog)
    for k, s in accepted:
        miss = [] if 'files' in s.rs else ['files']
        c.check('loader', 'files table', 'files' in s.rs, "an index without files table can be accepted", f.where)
        m = {t[3:] for t in s.rs if t.startswith('no:')}
        markers = markers & m if s.rs & {'files'} else markers
        c.check('loader', 'markers', bool(m), f"an incomplete index can be accepted ({k})", f.where)
        c.instance('accepting exits of the loader', str(sorted(s.rs)))
    c.check('loader', 'accepts', bool(accepted), "no path accepts an index", f.where)
    c.check('loader', 'common marker', bool(markers), "there is no marker table which is checked on every accepting path", f.where)

    # scripts
    seen = set()

    def script(text, construct, where):
        state = set()
        filesExists = False
        stmts = sql_statements(text)
        creates = [x for x in stmts if re.match(r'CREATE\s+TABLE\s+(IF\s+NOT\s+EXISTS\s+)?"?files"?\b', x, re.I)]
        drops = [i for i, x in enumerate(stmts) if re.match(r'DROP\s+TABLE\s+(IF\s+EXISTS\s+)?"?(\w+)"?', x, re.I)]
        if creates:
            c.instance('scripts creating the files table', construct)
            for x in stmts:
                m = re.match(r'CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?"?(\w+)"?', x, re.I)
                if not m:
                    continue
                if m[1] in markers:
                    state.add(m[1])
                if m[1].lower() == 'files':
                    c.check('marker-create', construct, bool(state),
                            "the files table is created before any marker table: an interruption in between leaves an empty index which looks complete", where)
        if any(re.match(r'DROP\s+TABLE\s+(IF\s+EXISTS\s+)?"?(%s)"?' % '|'.join(map(re.escape, markers or {'-'})), stmts[i], re.I) for i in drops):
            c.instance('scripts dropping the markers', construct)
            left = set(markers)
            for x in stmts:
                m = re.match(r'DROP\s+TABLE\s+(?:IF\s+EXISTS\s+)?"?(\w+)"?', x, re.I)
                if m:
                    left.discard(m[1])
                if writes_files(x):
                    c.check('marker-drop', construct, bool(left), f"{x[:80]} runs after the last marker was dropped", where)

    # every SQL text of the index module
    mod = ic.module

    class Collect(IndexRule):
        max_depth = 1

        def inline(self, cx, func, recv):
            return False

    for func in prog.all_funcs():
        if func.module is not mod and (func.cls is None or not func.cls.is_subclass(source_class(prog))):
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('execute', 'executescript', 'executemany') for n in ast.walk(func.node)):
            continue
        r = Collect(prog)
        fl = Flow(prog, r)
        fl.run(func)
        c.used(fl)
        for text, call, rs, st, where in r.statements:
            if text and (func.qual, text) not in seen:
                seen.add((func.qual, text))
                script(text, func.qual, where)

    # creation
    entries = []
    for name in ('finalize_index', 'create_index_timed'):
        g = ic.find(name)
        if g is not None:
            entries.append((g, ic))
    sc = source_class(prog)
    g = sc.find('_finalize_index')
    if g is not None:
        entries.append((g, sc))
    published = False
    for g, cls in entries:
        callbacks = tuple(x for x in g.params if 'create' in x)
        r = CreateRule(prog, callbacks or tuple(g.params[1:2]))
        fl = Flow(prog, r)
        ex = fl.run(g, cls)
        c.used(fl, g.where, len(ex))
        for call, rs, where in r.drops:
            published = True
            c.instance('publications', g.qual + where.split(' in ')[-1])
            c.check('publish', g.qual, 'created' in rs, "the markers are dropped although the index was not (completely) created", where)
        for call, rs, where in r.calls:
            c.check('marker-append', g.qual, 'marked' in rs, "index entries are added while no table marks the index as incomplete", where)
        for k, v, s in ex:
            if 'failed' in s.rs and 'created' not in s.rs:
                c.check('failure', g.qual, k == 'raise', "a failed index creation is not reported", g.where)
    for g, r in appending(prog, c):
        c.check('marker-append', g.qual + ' appends', bool(r.entries), "adds no entries to the index loaded before", g.where)
        for rs, where in r.entries:
            c.check('marker-append', g.qual, 'marked' in rs, "index entries are added while no table marks the index as incomplete", where)
        for rs, where in r.published:
            c.check('publish', g.qual, 'added' in rs and 'failed' not in rs, "the markers are dropped although the index was not (completely) created", where)
    c.check('publish', 'finalisation', published, "the markers are never dropped: no index can be reused", ic.where)

    # interruption must not be swallowed while indexing
    names = {'KeyboardInterrupt', 'BaseException'}
    for func in prog.all_funcs():
        if func.module is not mod and not (func.cls is not None and func.cls.is_subclass(sc)) and not func.module.name.startswith('ratarmountcore.mountsource.formats'):
            continue
        for n in walk_own(func.node):
            if isinstance(n, ast.ExceptHandler):
                caught = [n.type] if n.type is not None and not isinstance(n.type, ast.Tuple) else (n.type.elts if n.type is not None else [None])
                hit = any(x is None or (dotted(x) or '').split('.')[-1] in names for x in caught)
                reraises = any(isinstance(x, ast.Raise) for x in ast.walk(n))
                c.check('interrupt', func.qual, not hit or reraises, "swallows KeyboardInterrupt, so that an interrupted creation is continued as if complete",
                        f"{func.module.rel}:{n.lineno}")
    c.floor('scripts creating the files table', 1)
    c.floor('accepting exits of the loader', 1)
