"""Indexes which are to be used read-only are never modified or deleted, and no index is written unless requested."""

import ast
from typing import List

from .. import sql
from ..flow import FALSE, NONE, TRUE, Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, cval, show, subterms
from ..model import Program
from .indexload import IndexRule, index_class, sql_statements, source_class

EXPLANATION = (
    "Path-sensitive effect analysis over every public operation of the index class and over the index-backed mount source: "
    "each deletion, each database connection and each raw write must be dominated by the proof that the index is not read-only, "
    "that the path is local, and that the file is empty, was just found to be unusable, or its removal was requested; keyword "
    "arguments that would silently be swallowed are matched with the parameters of the index constructor."
)
WRITE = ('INSERT', 'UPDATE', 'DELETE', 'DROP', 'CREATE', 'REPLACE', 'ALTER', 'VACUUM')


class GuardRule(IndexRule):
    def __init__(self, prog):
        super().__init__(prog)
        self.stores = []

    def keep_fact(self, cond):
        return cond.op == 'cmp' and cond.args[0] == 'in' and cond.args[1].op == 'const'

    def reset(self, rs):
        return rs

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        if cond.op == 'attr' and cond.args[1] == 'readOnly' and (cond.args[0].op == 'self' or cond.args[0].op == 'attr'):
            return rs | {'ro' if pol else 'rw'}
        if cond.op == 'param' and cond.args[0] == 'writeIndex':
            return rs | {'write' if pol else 'nowrite'}
        if cond.op == 'attr' and cond.args[1] == 'indexFilePathDeleteOnClose' and pol:
            return rs | {'temp'}
        if cond.op == 'call' and call_name(cond) == 'getattr' and pol and len(call_args(cond)) > 1 and cval(call_args(cond)[1]) == 'indexFilePathDeleteOnClose':
            return rs | {'temp'}
        if cond.op == 'cmp' and cond.args[0] == 'in' and cond.args[1].op == 'const' and cval(cond.args[1]) == '://' and not pol:
            return rs | {'local'}
        if cond.op == 'call' and call_name(cond) in ('os.path.isfile', '.is_file', 'os.path.exists', '.exists'):
            return rs | {'local'} if pol else rs | {'empty'}
        t = show(cond)
        if cond.op == 'cmp' and ('st_size' in t or 'getsize' in t) and 0 in [cval(x) for x in cond.args[1:]]:
            # 0 < size, size <= 0, size == 0
            big = cond.args[0] == '<' and cval(cond.args[1]) == 0
            if (big and not pol) or (not big and pol):
                return rs | {'empty'}
        if cond.op == 'attr' and cond.args[1] == 'st_size' and not pol:
            return rs | {'empty'}
        return rs

    def on_call(self, cx, call, st):
        super().on_call(cx, call, st)
        rs = st.rs
        bad = rs
        n = call_name(call)
        if n == 'sqlite3.connect' or n.endswith('.read') or sql.is_sql_call(call):
            bad = rs | {'failed'}
        if n in ('.write_bytes', '.write_text'):
            self.opens.append((call, rs, st, cx.where()))
        return rs, bad

    def on_catch(self, cx, exc, types, st):
        return st.rs | {'failed'}

    def on_store(self, cx, base, key, value, st):
        if key == 'indexFilePathDeleteOnClose' and base.op == 'self' and value is not FALSE:
            self.stores.append((value, st.heap.get((base, 'indexFilePath')), cx.where()))
        return st.rs


def temporary(v: V) -> bool:
    return any(
        (x.op == 'call' and call_name(x).startswith('tempfile.')) or (x.op == 'attr' and 'emporary' in str(x.args[1])) for x in subterms(v)
    )


def memory_only(v: V) -> bool:
    opts = v.args[0] if v.op == 'phi' else (v,)
    return all(x.op == 'const' and cval(x) == ':memory:' for x in opts)


def readonly_uri(call: V) -> bool:
    kw = call_kw(call)
    consts = [cval(x) for x in subterms(call_args(call)[0]) if x.op == 'const' and isinstance(cval(x), str)]
    uri = kw.get('uri')
    merged = uri is TRUE or any(k == '**' and any(x is TRUE for x in subterms(v)) for k, v in call.args[2])
    return merged and any('mode=ro' in x or 'immutable=1' in x for x in consts)


def run(prog: Program, c):
    c.rule('connect', "databases are opened writable only when the index is not read-only")
    c.rule('delete', "index files are only deleted when not read-only, local, and empty, just found unusable or requested to be cleared")
    c.rule('raw', "index locations are only written directly when not read-only and nothing is stored there yet")
    c.rule('source', "an index file given as mount source is opened read-only")
    c.rule('memory', "no index file is written when writing the index was not requested")
    c.rule('plain', "complementing an existing index (checksums, metadata) is only attempted when it is not read-only")
    c.rule('keywords', "no argument for the index is swallowed because of an unknown name")
    ic, sc = index_class(prog), source_class(prog)

    # Which field records that the index has to stay in memory?
    fin = ic.find('finalize_index')
    keep = set()
    if fin is not None:
        r = GuardRule(prog)
        fl = Flow(prog, r, budget=120000)
        ex = fl.run(fin, ic)
        c.used(fl, fin.where, len(ex))
        for call, rs, st, where in r.connects:
            if 'nowrite' in rs:
                p = call_args(call)[0]
                c.check('memory', 'finalize_index', memory_only(p) or readonly_uri(call), f"creates an index at {show(p)[:60]} although it was not requested", where)
        for k, v, s in ex:
            if k == 'return' and 'nowrite' in s.rs:
                keep |= {(key[1], val is TRUE) for key, val in s.heap.items() if key[0].op == 'self' and isinstance(key[1], str) and (
                    val in (TRUE, FALSE) or (val.op == 'param' and val.args[0] == 'writeIndex'))}
    public = [m for n, m in sorted(ic.methods.items()) if not n.startswith('_') and not m.is_static and not m.is_property]
    for m in public:
        r = GuardRule(prog)
        fl = Flow(prog, r, budget=60000)
        ex = fl.run(m, ic)
        c.used(fl, m.where, len(ex))
        for call, rs, st, where in r.connects:
            p = call_args(call)[0]
            c.instance('database connections', f"{m.name} {show(p)[:50]}")
            if memory_only(p) or readonly_uri(call):
                c.check('connect', m.name, True)
                continue
            c.check('connect', m.name, 'rw' in rs or temporary(p), f"opens {show(p)[:60]} writable although the index may have to be used read-only", where)
            if m.name in ('synchronize_compression_offsets', 'set_file_infos', 'set_file_info'):
                proof = any(
                    k.op == 'attr' and k.args[0].op == 'self' and ((k.args[1], not pol) in keep) for k, pol in st.facts.items()
                )
                c.check('memory', m.name, proof, "moves an index to disk although writing it may not have been requested", where)
        for value, path, where in r.stores:
            c.check('delete', m.name + ' on close', path is not None and path.op != 'phi' and temporary(path),
                    f"{show(path)[:50] if path is not None else 'the index'} is to be deleted when closing although it may not be a temporary copy", where)
        for target, call, rs, st, where in r.removes:
            if target is None or temporary(target):
                continue
            c.instance('deletions', f"{m.name} {show(target)[:50]}")
            if 'temp' in rs:
                c.check('delete', m.name, True)
                continue
            what = f"{show(target)[:50]} is deleted although "
            c.check('delete', m.name + ' writable', 'rw' in rs, what + "the index may have to be used read-only", where)
            c.check('delete', m.name + ' local', 'local' in rs or 'empty' in rs, what + "it may be an URL", where)
            c.check('delete', m.name + ' reason', m.name == 'clear_indexes' or 'failed' in rs or 'empty' in rs, what + "nothing was found to be wrong with it", where)
        for call, rs, st, where in r.opens:
            n = call_name(call)
            target = call_recv(call) if n.startswith('.') else call_args(call)[0] if call_args(call) else None
            mode = call_arg(call, 1, 'mode') if not n.startswith('.') else None
            if n in ('open', 'io.open') and (mode is None or (mode.op == 'const' and not set(str(cval(mode))) & set('wax+'))):
                continue
            if target is not None and temporary(target):
                continue
            c.instance('raw writes', f"{m.name} {show(target)[:50]}")
            c.check('raw', m.name, 'rw' in rs and 'empty' in rs, f"{show(target)[:50]} is written although it may be in use or read-only", where)

    # mount sources from index files, and complementing existing indexes
    init = sc.find('__init__')

    class NewRule(GuardRule):
        def on_call(self, cx, call, st):
            out = super().on_call(cx, call, st)
            if call_name(call) == '.clear_indexes' or (call.args[0].op == 'bound' and call.args[0].args[0].name == 'clear_indexes'):
                self.clears.append(('clear' in st.rs, cx.where()))
            if call.op == 'new' or (call.op == 'call' and call.args[0].op == 'cls'):
                cls = call.args[0] if call.op == 'new' else call.args[0].args[0]
                if cls is ic:
                    self.news.append((call, st, cx.where()))
            return out

        def inline(self, cx, func, recv):
            return recv is not None and recv.op == 'self' and func.name not in ('open_existing', 'clear_indexes')

        def on_assume(self, cx, cond, pol, st):
            if cond.op in ('param', 'attr', 'kwget') and pol and 'clear' in str(cond.args[0] if cond.op == 'param' else cond.args[1]).lower():
                return super().on_assume(cx, cond, pol, st) | {'clear'}
            return super().on_assume(cx, cond, pol, st)

    for func in prog.all_funcs():
        if '.tests' in func.module.name or not any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'clear_indexes' for x in ast.walk(func.node)
        ):
            continue
        r = NewRule(prog)
        r.news, r.clears = [], []
        fl = Flow(prog, r)
        fl.run(func, func.cls)
        c.used(fl, func.where)
        for ok, where in r.clears:
            c.instance('requests to delete indexes', func.qual)
            c.check('delete', func.qual + ' requested', ok, "indexes are deleted although clearing them may not have been requested", where)
    r = NewRule(prog)
    r.news, r.clears = [], []
    fl = Flow(prog, r)
    ex = fl.run(init, sc)
    c.used(fl, init.where, len(ex))
    given = 0
    for call, st, where in r.news:
        has = [p for k, p in st.facts.items() if k.op == 'cmp' and k.args[0] == 'is' and k.args[1].op == 'param' and k.args[1].args[0] == 'index' and k.args[2] is NONE]
        if True in has:
            continue
        given += 1
        c.instance('index files as mount source', where)
        c.check('source', 'SQLiteIndexMountSource', call_kw(call).get('readOnlyIndex') is TRUE, "opens the user's index file without the read-only option", where)
    c.check('source', 'opens', given > 0, "index files cannot be opened as mount source", init.where)

    fi = sc.find('_finalize_index')
    if fi is not None:
        r = GuardRule(prog)
        fl = Flow(prog, r, budget=150000)
        ex = fl.run(fi, sc)
        c.used(fl, fi.where, len(ex))
        n = 0
        for text, call, rs, st, where in r.statements:
            if text is None:
                continue
            verbs = {s.split(None, 1)[0].upper() for s in sql_statements(text) if s.strip()} & set(WRITE)
            if verbs:
                n += 1
                c.check('plain', '_finalize_index', 'rw' in rs or 'write' in rs or 'nowrite' in rs, f"{sorted(verbs)} on an index that may be read-only", where)
        c.instance('write statements', str(n))

    # swallowed keywords
    ini = ic.find('__init__')
    names = set(ini.params) | {x.arg for x in ini.node.args.kwonlyargs}
    for m in prog.modules.values():
        if '.tests' in m.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == ic.name:
                for k in x.keywords:
                    if k.arg:
                        c.instance('keyword arguments', f"{m.rel} {k.arg}")
                        c.check('keywords', f"{m.rel} {k.arg}", k.arg in names, f"the index has no option {k.arg}", f"{m.rel}:{x.lineno}")
    c.floor('database connections', 1)
    c.floor('keyword arguments', 1)
