"""Committing an overlay touches the archive only after confirmation and leaves the overlay alone."""

import re

from ..flow import NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import Program
from .. import sql
from . import overlay

EXPLANATION = (
    "Path-sensitive dataflow over the commit operation (all branches and exception edges, nested helpers inlined): every "
    "process started on the archive is dominated by the comparison of the user's input with the confirmation word and by the "
    "plain-TAR check; deletion precedes appending and appending is unreachable after a failed deletion; the lists are built "
    "from the flagged rows and the overlay's files without its own database; the scratch folder is removed at every exit "
    "after it was filled; no mutating call targets the overlay folder."
)

RUN = {'subprocess.run', 'subprocess.Popen', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'os.system', 'os.popen'}


class CommitRule(Rule):
    """rs: set of events: confirmed, istar, deleted, appended, scratch, removed, error"""

    initial = frozenset()
    max_depth = 4

    def __init__(self, tar, folder):
        self.tar, self.folder = mk('param', tar), mk('param', folder)
        self.runs = []
        self.writes = []
        self.mutations = []
        self.queries = []
        self.written = []
        self.connects = []
        self.sized = False

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        if cond.op == 'cmp' and cond.args[0] in ('==', '!=', 'in') and any(x.op == 'call' and call_name(x) == 'input' for x in subterms(cond.args[1])):
            if cond.args[0] == '==' and cond.args[2].op == 'const' and cval(cond.args[2]) == 'commit':
                rs = (rs | {'confirmed'}) if pol else rs - {'confirmed'}
        sizes = [call_args(x)[0] for x in subterms(cond) if x.op == 'call' and call_name(x) in ('os.stat', 'os.path.getsize', 'os.lstat') and call_args(x)]
        if len(set(sizes)) == 1:
            self.sized = True
            empty = bool(pol) if cond.op == 'cmp' and cond.args[0] in ('==', '<=', 'is') else not pol
            rs = frozenset({x for x in rs if x[:2] != ('size', sizes[0])} | {('size', sizes[0], empty)})
        if cond.op == 'call' and call_name(cond) == 'is_tar':
            rs = rs | {'istar' if pol else 'nottar'}
        whole = cond.op == 'comp' or (cond.op == 'call' and call_name(cond) in ('any', 'len', 'bool')) or (
            cond.op == 'cmp' and cond.args[1].op == 'call' and call_name(cond.args[1]) == 'len'
        )
        if whole and any(x.op == 'attr' and x.args[1] == 'stderr' for x in subterms(cond)) and pol:
            rs = rs | {'problems'}
        return rs

    def argv(self, call):
        out = set()
        for x in subterms(mk('tuple', (*call_args(call), *call_kw(call).values()))):
            if x.op == 'const' and isinstance(cval(x), str):
                out.add(cval(x))
        return out

    def on_call(self, cx, call, st):
        n = call_name(call)
        rs = st.rs
        if n in RUN and any(x is self.tar for x in subterms(call)):
            flags = self.argv(call)
            kind = 'delete' if any('--delete' in f for f in flags) else 'append' if any(f in ('--append', '-r', '--update', '-A', '--concatenate') for f in flags) else 'other'
            self.runs.append((kind, call, rs, st, cx.where()))
            return rs | {kind}, rs | {kind}
        for term, eff in overlay.OverlayRule.effects(self, call):
            if term is not None:
                self.mutations.append((eff, term, call, rs, cx.where()))
        if n in ('shutil.rmtree',) and 'tempfile.mkdtemp' in show(call_args(call)[0]):
            return rs | {'removed'}, rs | {'removed'}
        if n == '.cleanup':
            return rs | {'removed'}, rs | {'removed'}
        if n in ('tempfile.mkdtemp', 'tempfile.TemporaryDirectory'):
            return rs | {'scratch'}, rs
        if n == 'sqlite3.connect':
            self.connects.append((call, cx.where()))
        if n == '.write' and call_recv(call) is not None and call_args(call):
            self.written.append((call_recv(call), call_args(call)[0], st, cx.where()))
        if n == '.write' and call_recv(call) is not None and 'append' in show(call_recv(call)):
            self.writes.append((call, rs, st, cx.where()))
        if sql.is_sql_call(call):
            self.queries.append((call, cx.where()))
        return rs, rs

    def on_with_exit(self, cx, v, st):
        if 'TemporaryDirectory' in show(v):
            return st.rs | {'removed'}
        return st.rs


def run(prog: Program, c):
    c.rule('confirmed', "the archive is only changed after the user entered the confirmation word")
    c.rule('checked', "the archive is only changed when it was recognised as an uncompressed TAR")
    c.rule('order', "old versions are deleted before new ones are appended")
    c.rule('stop', "nothing is appended after the deletion reported a problem")
    c.rule('done', "a confirmed commit with changes deletes and appends")
    c.rule('lists', "the lists of names to be removed and appended are complete and in the expected format")
    c.rule('database', "the overlay's own database is not appended to the archive")
    c.rule('deletions', "exactly the entries flagged as deleted are read from the overlay's database, which is opened read-only")
    c.rule('cleanup', "the scratch folder is removed at every normal exit and at every exit after the confirmation")
    c.rule('overlay-kept', "the overlay folder and the archive are not modified directly")
    f = None
    for m in prog.modules.values():
        f = f or m.funcs.get('commit_overlay')
    if f is None:
        c.check('done', 'commit operation', False, "there is no commit operation any more")
        return
    rule = CommitRule(f.params[1], f.params[0])
    flow = Flow(prog, rule)
    exits = flow.run(f)
    c.used(flow, f.where, len(exits))
    kinds = set()
    for kind, call, rs, st, where in rule.runs:
        kinds.add(kind)
        c.instance('processes on the archive', where + kind)
        c.check('confirmed', kind, 'confirmed' in rs, "runs without confirmation", where)
        c.check('checked', kind, 'istar' in rs and 'nottar' not in rs, "runs on something which was not recognised as TAR", where)
        if kind == 'delete':
            c.check('order', kind, 'append' not in rs, "deletes after appending, which removes the new version", where)
        if kind == 'append':
            c.check('stop', kind, 'problems' not in rs, "appends although the deletion reported problems", where)
            kw = call_kw(call)
            c.check('overlay-kept', 'no --remove-files', not any('--remove-files' in x for x in rule.argv(call)), "removes the overlay files", where)
    for k in ('delete', 'append'):
        c.check('done', k, k in kinds, f"the commit operation never starts the {k} command", f.where)
    for call, rs, st, where in rule.writes:
        src = show(call_args(call)[0]) if call_args(call) else ''
        arg = call_args(call)[0] if call_args(call) else NONE
        guarded = any(k.op == 'cmp' and k.args[0] in ('in', 'not in') and hidden(k.args[2]) and (k.args[0] == 'in') != pol for k, pol in st.facts.items())
        empty = any((not pol) and not k.op == 'cmp' and k.op in ('item', 'sub', 'index', 'iter', 'loopvar', 'phi') for k, pol in st.facts.items())
        c.instance('entries appended', where)
        c.check('database', where.split(' in ')[-1] + (' folder' if empty else ' file'), guarded or empty,
                f"{src[:60]} is appended without having been compared with the names of the overlay's database", where)
    for call, where in rule.queries:
        for s in sql.parse(call, overlay.SCHEMA):
            if s.table == 'files':
                d = s.where.get('deleted')
                rest = re.search(r'\bWHERE\b(.*)', s.text or '', re.I | re.S)
                plain = rest is not None and re.fullmatch(r'\s*\(?\s*"?deleted"?\s*((==?|IS)\s*(1|TRUE|\(?\?\)?))?\s*\)?\s*(ORDER BY [\w", ]+)?;?\s*', rest.group(1), re.I)
                c.check('deletions', 'query of all', bool(plain), f"only reads a part of the flagged entries: {(s.text or '')[-80:]}", where)
                c.check('deletions', 'query', s.verb == 'SELECT' and d is not None and cval(d) == 1 and set(s.where) == {'deleted'},
                        f"{s.text} does not select exactly the flagged entries", where)
    c.check('deletions', 'queries', bool(rule.queries), "the flagged entries are never read", f.where)
    for call, where in rule.connects:
        text = ' '.join(cval(x) for x in subterms(call) if x.op == 'const' and isinstance(cval(x), str))
        c.check('deletions', 'database', ('mode=ro' in text or 'immutable=1' in text) and call_kw(call).get('uri') is TRUE, "the overlay's database is opened writable", where)
    lists(c, rule, exits, f)
    for kind, v, st in exits:
        rs = st.rs
        if kind == 'return' or 'confirmed' in rs:
            c.check('cleanup', f"{kind}", 'scratch' not in rs or 'removed' in rs, "leaves the scratch folder behind", f.where)
    for eff, term, call, rs, where in rule.mutations:
        bad = any(x is rule.folder or x is rule.tar for x in subterms(term)) and 'tempfile' not in show(term)
        c.check('overlay-kept', f"{call_name(call)}", not bad, f"modifies {show(term)[:80]}", where)
    c.floor('processes on the archive', 2)
    c.floor('entries appended', 1)


def hidden(v):
    s = show(v)
    if '.ratarmount.overlay' not in s and 'hiddenDatabaseName' not in s:
        return False
    # The name itself must be part of the names, not only those of the temporary files next to it.
    suffixes = [x for x in subterms(v) if x.op == 'const' and isinstance(cval(x), str) and x.args and re.fullmatch(r'|-journal|-shm|-wal', cval(x))]
    return not suffixes or any(cval(x) == '' for x in suffixes) or any(own_name(x) for x in elements(v))


def own_name(v):
    return v.op == 'attr' and v.args[1] == 'hiddenDatabaseName' or v.op == 'const' and isinstance(cval(v), str) and cval(v).endswith('.sqlite')


def elements(v):
    for x in subterms(v):
        if x.op in ('list', 'tuple', 'set'):
            yield from x.args[0]


def file_list(call):
    """Path of the list of names a tar command reads."""
    for x in subterms(mk('tuple', (*call_args(call), *call_kw(call).values()))):
        if x.op == 'fstr' and x.args[0] and x.args[0][0].op == 'const' and '--files-from' in str(cval(x.args[0][0])):
            return x.args[0][1] if len(x.args[0]) > 1 else None
        if x.op == 'bin' and x.args[0] == 'Add' and x.args[1].op == 'const' and '--files-from' in str(cval(x.args[1])):
            return x.args[2]
        if x.op in ('list', 'tuple'):
            es = x.args[0]
            for a, b in zip(es, es[1:]):
                if a.op == 'const' and cval(a) in ('--files-from', '-T'):
                    return b
    return None


def parts(v):
    """(text before, subject, text after) of a written entry"""
    ps = list(v.args[0]) if v.op == 'fstr' else flat(v)
    before = after = ''
    while ps and ps[0].op == 'const':
        before += str(cval(ps.pop(0)))
    while ps and ps[-1].op == 'const':
        after = str(cval(ps.pop())) + after
    return before, tuple(ps), after


def flat(v):
    if v.op == 'bin' and v.args[0] == 'Add':
        return flat(v.args[1]) + flat(v.args[2])
    return [v]


def lists(c, rule, exits, f):
    """The lists given to tar are complete, have the expected format, and are used whenever they are not empty."""
    paths = {}
    for kind, call, rs, st, where in rule.runs:
        p = file_list(call)
        if p is None:
            continue
        paths.setdefault(kind, p)
        null = '--null' in rule.argv(call)
        for recv, v, wst, wwhere in rule.written:
            if any(x is p for x in subterms(recv)):
                after = parts(v)[2]
                c.check('lists', f"{kind} separator", after == ('\0' if null else '\n'), f"entries end with {after!r} but tar {'expects' if null else 'does not expect'} null characters", wwhere)
        if kind == 'append':
            checked = call_name(call) in ('subprocess.check_call', 'subprocess.check_output') or call_kw(call).get('check') is TRUE
            c.check('done', 'append checked', checked, "a failure to append is not noticed", where)
            c.check('done', 'append command', bool(rule.argv(call) & {'--append', '-r', '-rf'}), "does not append", where)
    if 'delete' not in paths or 'append' not in paths:
        return
    removed = [(v, st, where) for recv, v, st, where in rule.written if any(x is paths['delete'] for x in subterms(recv))]
    appended = [(v, st, where) for recv, v, st, where in rule.written if any(x is paths['append'] for x in subterms(recv))]
    queried = lambda ps: any(x.op == 'call' and sql.is_sql_call(x) for p in ps for x in subterms(p))
    forms = {}
    for v, st, where in removed:
        before, subject, after = parts(v)
        forms.setdefault(subject, {}).setdefault(before, []).append((st, where))
        for p in subject:
            for x in subterms(p):
                cut = x.op == 'sub' and x.args[1].op in ('slice', 'bin')
                if cut and any('os.walk' in show(y) for y in subterms(x)) and not startswith_known(x, st):
                    c.check('lists', 'all files', False, f"only a part of the files is looked at: {show(x)[:60]}", where)
        if queried(subject):
            cond = [k for k, pol in st.facts.items() if any(y in subterms(k) for p in subject for y in subterms(p) if y.op in ('item', 'iter', 'key')) and k.op != 'iter']
            c.check('lists', 'all flagged entries', not cond, f"flagged entries are only removed if {show(cond[0])[:60] if cond else ''}", where)
    c.check('lists', 'flagged entries', any(queried(s) for s in forms), "entries flagged as deleted are not removed from the archive", f.where)
    for subject, by in forms.items():
        for want in ('', '/', './'):
            c.check('lists', f"{'flagged' if queried(subject) else 'replaced'} entries as {want!r}", want in by, f"entries stored as {want}name are not removed", f.where)
    for v, st, where in appended:
        before, subject, after = parts(v)
        folder = any((not pol) and not k.op == 'cmp' and k.op in ('item', 'sub', 'index', 'iter', 'loopvar', 'phi') for k, pol in st.facts.items())
        if folder and subject not in forms:
            continue
        same = [dst for dst, _ in forms.get(subject, {}).get('', ())]
        ok = any(all(st.facts.get(k) == p for k, p in dst.facts.items()) for dst in same)
        c.check('lists', 'replaced members', ok, "a file is appended without removing the member it replaces", where)
    for kind, v, st in exits:
        if kind == 'return' and 'confirmed' in st.rs and rule.sized:
            for k in ('delete', 'append'):
                empty = ('size', paths[k], True) in st.rs
                c.check('done', f"{k} on success", k in st.rs or empty, f"returns normally without the {k} command although its list may not be empty", f.where)
    for kind, call, rs, st, where in rule.runs:
        if kind == 'append' and rule.sized:
            c.check('order', 'append after deletion', 'delete' in rs or ('size', paths['delete'], True) in rs, "appends although entries to be removed may not have been removed", where)


def startswith_known(x, st):
    return any(p and k.op == 'call' and call_name(k) == '.startswith' and call_recv(k) is x.args[0] for k, p in st.facts.items())
