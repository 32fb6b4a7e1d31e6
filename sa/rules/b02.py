"""An index that belongs to another archive, another state of it or another backend is never used."""

import ast
from typing import Dict, List, Optional

from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, mk, show, subterms
from ..model import Program
from .. import sql
from .indexload import IndexRule, appending, index_class, marker_tables, source_class

EXPLANATION = (
    "Typestate over loading (metadata checks passed on the connection that is kept, database path derived only from the candidate "
    "being tried), path-sensitive comparison facts over every metadata check function (size equal, modification time equal when "
    "requested), argument provenance at every construction of an index-backed mount source, and event order of recording the "
    "archive state versus creating the entries."
)


class StatRule(Rule):
    """Comparison facts between the recorded and the current state of the archive."""

    initial = frozenset()
    max_depth = 5
    attr_classes_inline = ()

    def __init__(self):
        self.stats = []

    def inline(self, cx, func, recv):
        if recv is not None and recv.op == 'self':
            return True
        return func.cls is not None and func.cls.name in ('SQLiteIndex', 'SQLiteIndexMountSource') and func.name.startswith(('check_', '_check'))

    def may_raise(self, cx, call):
        return False

    @staticmethod
    def stored(v):
        return any(x.op == 'call' and call_name(x) in ('json.loads',) for x in subterms(v))

    @staticmethod
    def current(v):
        return any(x.op == 'call' and call_name(x) in ('os.stat', 'os.lstat', 'os.path.getsize', 'os.path.getmtime', 'os.fstat', '.stat', 'os.fspath') for x in subterms(v))

    @staticmethod
    def plain(v):
        """The value itself and nothing computed from it."""
        while v.op == 'phi' and len(v.args[0]) == 1:
            (v,) = v.args[0]
        return v.op in ('attr', 'sub', 'item', 'call', 'phi') and call_name(v) not in ('int', 'round', 'abs', 'max', 'min', 'len', 'math.floor')

    def what(self, v):
        t = show(v)
        return 'size' if 'st_size' in t or 'getsize' in t else 'mtime' if 'st_mtime' in t or 'getmtime' in t else None

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        if cond.op == 'cmp' and cond.args[0] in ('<', '<=', '==') and self.plain(cond.args[1]) and self.plain(cond.args[2]):
            op, l, r = cond.args
            if (self.stored(l) and self.current(r)) or (self.current(l) and self.stored(r)):
                w = self.what(l)
                if w and w == self.what(r):
                    flip = self.stored(l)
                    # facts in terms of current <op> stored
                    if op == '==':
                        return rs | ({w + '>=', w + '<='} if pol else set())
                    # l < r / l <= r
                    if not flip:
                        return rs | ({w + '<='} if pol else {w + '>='})
                    return rs | ({w + '>='} if pol else {w + '<='})
            if op == '==' and (self.stored(l) or self.stored(r)):
                return rs
        if cond.op == 'cmp' and cond.args[0] == 'in' and cond.args[1].op == 'const':
            k = cval(cond.args[1])
            if k == 'tarstats' and not pol:
                return rs | {'nostats'}
            if k in ('st_size', 'st_mtime') and not pol:
                return rs | {'no' + k}
        if cond.op == 'call' and call_name(cond) == 'hasattr' and not pol and len(call_args(cond)) > 1 and cval(call_args(cond)[1]) in ('st_size', 'st_mtime'):
            return rs | {'no' + cval(call_args(cond)[1])}
        if cond.op == 'call' and call_name(cond) in ('os.path.exists', 'os.path.isfile', 'os.path.lexists') and not pol:
            return rs | {'nofile'}
        t = show(cond)
        if cond.op in ('attr', 'param') and t.endswith('verifyModificationTime'):
            return rs | {'verify' if pol else 'noverify'}
        if cond.op in ('attr', 'param') and t.endswith('readOnly') and pol:
            return rs | {'readonly'}
        if cond.op == 'attr' and cond.args[1] == 'hasBeenAppendedTo' and pol:
            return rs | {'appended'}
        return rs

    def on_store(self, cx, base, key, value, st):
        if key == 'hasBeenAppendedTo' and value is TRUE:
            return st.rs | {'appended'}
        return st.rs

    def on_call(self, cx, call, st):
        if call_name(call) in ('os.stat', 'os.path.getsize'):
            self.stats.append((call, cx.where()))
        return st.rs, st.rs


class InitRule(Rule):
    """Arguments of the index-backed base constructor and of the loading calls."""

    initial = frozenset()
    max_depth = 3
    exc_exits = False

    def __init__(self, base):
        self.base = base
        self.calls = []
        self.opens = []

    def inline(self, cx, func, recv):
        if func.cls is self.base and func.name == '__init__':
            return False
        return recv is not None and recv.op == 'self'

    def on_call(self, cx, call, st):
        f = call.args[0]
        if f.op == 'bound' and f.args[0].name == '__init__' and f.args[0].cls is self.base:
            self.calls.append((call, st, cx.where()))
        if call_name(call) == '.open_existing':
            self.opens.append((call, st, cx.where()))
        return st.rs, st.rs


def merged_kw(call: V) -> Dict[str, V]:
    """Keyword arguments incl. those of dictionary unions, rightmost wins."""
    out: Dict[str, V] = {}

    def union(v):
        if v.op == 'dict':
            for k, x in v.args[0]:
                if k.op == 'const':
                    out[cval(k)] = x
                elif k.op == 'star':
                    union(x)
        elif v.op == 'bin' and v.args[0] == 'BitOr':
            union(v.args[1])
            union(v.args[2])
        elif v.op == 'upd':
            union(v.args[1])
            for x in v.args[2] if isinstance(v.args[2], tuple) else ():
                if isinstance(x, V):
                    union(x)
        elif v.op == 'phi':
            before = dict(out)
            alternatives = []
            for x in v.args[0]:
                out.clear()
                out.update(before)
                union(x)
                alternatives.append(dict(out))
            out.clear()
            for k in {k for a in alternatives for k in a}:
                out[k] = Flow.phi({a[k] for a in alternatives if k in a})

    for k, v in call.args[2]:
        if k == '**':
            union(v)
        else:
            out[k] = v
    return out


class RecordRule(IndexRule):
    def __init__(self, prog, callbacks):
        super().__init__(prog)
        self.callbacks = callbacks
        self.calls = []
        self.records = []

    def on_assume(self, cx, cond, pol, st):
        rs = super().on_assume(cx, cond, pol, st)
        if cond.op == 'call' and call_name(cond) == 'callable' and not pol:
            return rs | {'nothing to record'}
        return rs

    def on_call(self, cx, call, st):
        ok, bad = super().on_call(cx, call, st)
        f = call.args[0]
        if f.op == 'param' and f.args[0] in self.callbacks:
            self.calls.append((call, st, cx.where()))
        if f.op == 'param' and 'store' in f.args[0]:
            ok = ok | {'stored'}
        if sql.is_sql_call(call):
            for s in sql.parse(call, {'metadata': ['key', 'value']}):
                if s.table == 'metadata' and s.verb in ('INSERT', 'UPDATE'):
                    k = s.sets.get('key') if s.verb == 'INSERT' else s.where.get('key')
                    key = cval(k) if k is not None and k.op == 'const' else '?'
                    self.records.append((key, s, call, cx.where()))
                    ok, bad = ok | {'stored:' + key}, bad | {'stored:' + key}
                    if key == 'tarstats':
                        ok = ok | {'stored'}
        return ok, bad


def run(prog: Program, c):
    c.rule('checked', "an index with metadata is only accepted after the backend and the archive state were checked on it")
    c.rule('candidate', "the database that is opened is the candidate being tried (or its fresh extraction)")
    c.rule('size', "a metadata check only passes when the recorded and the current archive size agree (or the growth is indexed)")
    c.rule('mtime', "with verification enabled, a metadata check only passes when the modification times agree")
    c.rule('wired', "every index-backed mount source tells the index its archive path and its unique backend name")
    c.rule('default-check', "an index found for an archive is loaded with a metadata check")
    c.rule('record', "the archive state is recorded before its entries, under the key the check reads, and never overwritten")
    ic, sc = index_class(prog), source_class(prog)

    rule, exits, f, flow = marker_tables(c, prog)
    if rule is None:
        c.check('checked', 'open_existing', False, "the index class can no longer load existing indexes", ic.where)
        return
    n = 0
    for k, v, s in exits:
        rs = s.rs
        if 'open' not in rs:
            continue
        n += 1
        c.instance('accepting exits of the loader', str(sorted(rs)))
        if 'nometa' in rs and 'meta' not in rs:
            continue
        c.check('checked', 'metadata', 'meta' in rs, "the metadata of an accepted index is not looked at", f.where)
        cb = any(t.startswith('cb:') for t in rs) or 'nocb' in rs
        c.check('checked', 'archive state', cb, "an index can be accepted without its metadata check having passed", f.where)
        c.check('checked', 'backend', 'be' in rs, "an index of another backend can be accepted", f.where)
    c.check('checked', 'accepts', n > 0, "no path accepts an index", f.where)
    ok = {'possibleIndexFilePaths'}
    for call, rs, st, where in rule.connects:
        target = call_args(call)[0]
        stale = sorted({show(x)[:60] for x in subterms(target) if (x.op == 'attr' and x.args[0].op == 'self' and x.args[1] not in ok) or x.op == 'loopvar'})
        c.check('candidate', 'database path', not stale, f"the database path can come from a previously tried candidate: {stale}", where)

    # metadata check functions
    funcs = []
    init = sc.find('__init__')
    ir = InitRule(sc)
    fl = Flow(prog, ir)
    fl.run(init, sc)
    c.used(fl, init.where)
    for call, st, where in ir.opens:
        own = any(k.op == 'cmp' and k.args[0] == 'is' and k.args[1].op == 'param' and k.args[1].args[0] == 'index' and k.args[2] is NONE and p for k, p in st.facts.items())
        a = call_arg(call, 0, 'checkMetadata')
        opts = [] if a is None else list(a.args[0]) if a.op == 'phi' else [a]
        if not own:
            continue
        c.instance('loading calls', where)
        good = bool(opts)
        for x in opts:
            if x.op == 'bound':
                if x.args[0] not in [y for y, _ in funcs]:
                    funcs.append((x.args[0], sc))
            elif not (x.op == 'param' and st.facts.get(x) is not False):
                good = False
        c.check('default-check', 'SQLiteIndexMountSource', good, f"an index found for an archive is loaded with {show(a) if a is not None else 'no'} check", where)
    c.check('default-check', 'loads', bool(ir.opens), "indexes are never loaded", init.where)

    # constructors
    backends: Dict[str, str] = {}
    for cls in sorted(prog.subclasses(sc), key=lambda x: x.name):
        if cls is sc or '.tests' in cls.module.name:
            continue
        ini = cls.methods.get('__init__')
        if ini is None:
            continue
        r = InitRule(sc)
        fl = Flow(prog, r, budget=60000)
        fl.run(ini, cls)
        c.used(fl, ini.where)
        c.check('wired', cls.name, bool(r.calls), "never initialises the index", cls.where)
        names = set()
        paths: List = []
        for call, st, where in r.calls:
            if call_arg(call, 0, 'index') is not None and call_arg(call, 0, 'index') is not NONE:
                continue
            kw = merged_kw(call)
            b = kw.get('backendName')
            ap = kw.get('archiveFilePath')
            if ap is None and b is None and cls.methods.get('__init__') and 'index' in ini.params:
                continue
            c.instance('index-backed constructors', cls.name)
            c.check('wired', cls.name + ' backendName', b is not None and b.op == 'const' and bool(cval(b)), "passes no constant backend name", where)
            c.check('wired', cls.name + ' archiveFilePath', ap is not None, "does not tell the index which archive it belongs to", where)
            if ap is not None:
                paths.append((ap, where))
            if b is not None and b.op == 'const':
                names.add(cval(b))
            chk = kw.get('checkMetadata')
            if chk is not None:
                for x in chk.args[0] if chk.op == 'phi' else [chk]:
                    if x.op == 'bound':
                        if x.args[0] not in [y for y, _ in funcs]:
                            funcs.append((x.args[0], cls))
                    else:
                        c.check('default-check', cls.name, x.op == 'param' or x is NONE, f"replaces the metadata check by {show(x)[:60]}", where)
        if paths:
            c.check('wired', cls.name + ' archive path', any(x is not NONE for x, _ in paths), "never tells the index which archive it belongs to", paths[0][1])
        for b in names:
            c.check('wired', cls.name + ' unique', backends.get(b, cls.name) == cls.name, f"uses the same backend name as {backends.get(b)}", cls.where)
            backends[b] = cls.name

    for f2, cls in funcs:
        r = StatRule()
        fl = Flow(prog, r, budget=120000)
        ex = fl.run(f2, cls)
        c.used(fl, f2.where, len(ex))
        rets = [s for k, v, s in ex if k == 'return']
        c.instance('metadata checks', f2.qual)
        c.check('size', f2.qual + ' passes', bool(rets), "never accepts an index", f2.where)
        for s in rets:
            rs = s.rs
            if rs & {'nostats', 'nofile'}:
                continue
            if not rs & {'nost_size'}:
                c.check('size', f2.qual + ' shrunk', 'size>=' in rs, "accepts an index although the archive became smaller", f2.where)
                c.check('size', f2.qual + ' grown', 'size<=' in rs or 'appended' in rs or 'readonly' in rs,
                        "accepts an index although the archive became larger", f2.where)
            if not rs & {'nost_mtime', 'noverify', 'appended'}:
                c.check('mtime', f2.qual, {'mtime>=', 'mtime<='} <= rs, "accepts an index although verification is enabled and the modification time differs", f2.where)
        c.check('size', f2.qual + ' stats', bool(r.stats), "never determines the current state of the archive", f2.where)

    # recording
    recorded = {}
    for name, cls in (('finalize_index', ic), ('_finalize_index', sc)):
        g = cls.find(name)
        if g is None:
            continue
        r = RecordRule(prog, tuple(x for x in g.params if 'create' in x))
        fl = Flow(prog, r)
        ex = fl.run(g, cls)
        c.used(fl, g.where, len(ex))
        for call, st, where in r.calls:
            # the state itself is only recorded for archives with a path, the rest of the record always
            done = {'stored', 'stored:arguments', 'stored:backendName', 'nothing to record'}
            c.check('record', g.qual + ' order', done & st.rs,
                    "the entries are created before the state of the archive was recorded", where)
        for key, s, call, where in r.records:
            recorded.setdefault(key, []).append((s, where, call))
    # adding to an index which was loaded before
    for g, r in appending(prog, c):
        c.check('record', g.qual + ' appends', bool(r.entries), "adds no entries to the index loaded before", g.where)
        for rs, where in r.entries:
            c.check('record', g.qual + ' append', {'dropped', 'stored'} <= rs,
                    "the entries are added before the new state of the archive was recorded", where)
            c.check('size', g.qual + ' append', 'valid' in rs,
                    "the entries are added without comparing the index loaded before with the archive", where)
        for rs, where in r.drops:
            c.check('record', g.qual + ' drop', 'marked' in rs,
                    "the recorded state is dropped while the index is not marked as incomplete", where)
        for rs, where in r.published:
            c.check('record', g.qual + ' publish', 'dropped' not in rs or 'stored' in rs,
                    "the index is no longer marked as incomplete although no state of the archive is recorded", where)
    sm = ic.find('store_metadata')
    if sm is not None:
        r = RecordRule(prog, ())
        fl = Flow(prog, r)
        ex = fl.run(sm, ic)
        c.used(fl, sm.where, len(ex))
        for key, s, call, where in r.records:
            recorded.setdefault(key, []).append((s, where, call))
        for k, v, st in ex:
            for key in ('arguments', 'backendName'):
                c.check('record', key + ' always', k != 'return' or 'stored:' + key in st.rs, f"'{key}' is not recorded on every path", sm.where)
    for key in ('tarstats', 'arguments', 'backendName'):
        c.check('record', key, key in recorded, f"'{key}' is never recorded", sm.where if sm else ic.where)
    for s, where, call in recorded.get('tarstats', ()):
        c.check('record', 'tarstats kept', s.verb == 'INSERT' and s.conflict == 'IGNORE', "overwrites the recorded state of the archive with a later one", where)
        val = s.sets.get('value')
        c.check('record', 'tarstats value', val is None or any(call_name(x) in ('os.stat',) for x in subterms(val) if x.op == 'call'),
                "does not record the result of stat", where)
    for s, where, call in recorded.get('backendName', ()):
        val = s.sets.get('value')
        c.check('record', 'backendName value', val is not None and val.op == 'attr' and val.args[1] == 'backendName', "does not record the backend name", where)
    c.floor('metadata checks', 1)
    c.floor('index-backed constructors', 5)
