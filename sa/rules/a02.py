"""Writes of the overlay stay inside the overlay folder and outside of protected prefixes."""

import ast

from ..flow import Flow, Rule, V, call_arg, call_args, call_kw, call_name, call_recv, const, contains, cval, show, subterms, mk
from ..model import Func, Program
from . import overlay

EXPLANATION = (
    "Typestate dataflow over every FUSE operation of the write overlay (all branches, exception edges, helpers and decorators "
    "inlined): each file-system mutation target must be a term joined below the overlay root from a request path stripped of "
    "leading separators, and each request path must have been compared with the protected prefixes (and have failed to match) "
    "before any file-system or metadata-database mutation keyed by it. The wiring in the mount constructor is checked with the "
    "same engine: with an enabled control interface the control folder is one of the protected prefixes."
)

MUT = ('rm', 'mk', 'mkdirs', 'trunc', 'mod', 'openflags', 'attr')


class WiringRule(Rule):
    """Constructor of the mount: what protected prefixes does the overlay get, and is the control layer mounted there?"""

    exc_exits = False
    max_depth = 3
    initial = frozenset()

    def __init__(self):
        self.made = []
        self.control = []

    def inline(self, cx, func, recv):
        return recv is not None and recv.op == 'self'

    def on_assume(self, cx, cond, pol, st):
        if cond.op == 'attr' and cond.args[1] == '_enableControlInterface' or enables(cond):
            return frozenset({x for x in st.rs if x[0] != 'ctl'} | {('ctl', bool(pol))})
        return st.rs

    def on_call(self, cx, call, st):
        n = call_name(call)
        if n == overlay.OVERLAY:
            self.made.append((call, st.rs, st, cx.where()))
        if n == 'RemovePrefixMountSource':
            self.control.append((call, st.rs, cx.where()))
        return st.rs, st.rs


class RootRule(Rule):
    """Stores to the overlay root outside of the constructor."""

    exc_exits = False
    initial = False
    max_depth = 3

    def __init__(self):
        self.stores = []

    def on_call(self, cx, call, st):
        if call_name(call) in ('os.fchdir', 'os.chdir') and call_args(call) and call_args(call)[0].op == 'param':
            return True, st.rs
        return st.rs, st.rs

    def on_store(self, cx, base, key, value, st):
        if key == 'root' and base.op == 'self':
            self.stores.append((value, st.rs is True, cx.where()))
        return st.rs


def enables(cond):
    return cond.op == 'call' and call_name(cond) == 'bool' and any(x.op == 'const' and cval(x) == 'controlInterface' for x in subterms(cond))


def run(prog: Program, c):
    c.rule('inside', "every path the overlay mutates is joined below the overlay root from a path without leading separator")
    c.rule('checked', "a request path is compared with the protected prefixes before anything keyed by it is mutated")
    c.rule('rejected', "an operation on a protected path never returns normally and mutates nothing")
    c.rule('root', "a relative root is only used after having changed into the overlay folder")
    c.rule('wiring', "the control folder is a protected prefix of the overlay whenever the control interface is enabled")
    c.floor('overlay operations', 10)
    c.floor('mutation sites', 10)
    for op, (rule, exits, roleMap, paths, roles) in overlay.analyse(prog, c).items():
        for kind, p, eff, term, where, rs in rule.events:
            if kind == 'real':
                c.instance('mutation sites', where)
                c.check('inside', f"{op}: {eff}", overlay.contained(term),
                        f"mutates {show(term)} which is not provably below the overlay root", where)
                name = p if isinstance(p, str) else (p[0] if p else None)
                if name is None:
                    continue
                if eff in MUT:
                    c.check('checked', f"{op}: {eff} of {name}", rule.get(rs, 'chk', name) is False,
                            f"'{name}' is mutated ({eff}) on a path on which it was not compared with the protected prefixes", where)
            elif kind == 'db' and p is not None:
                c.check('checked', f"{op}: metadata of {p}", rule.get(rs, 'chk', p) is False,
                        f"metadata of '{p}' is changed on a path on which it was not compared with the protected prefixes", where)
        for kind, v, st in exits:
            if kind != 'return':
                continue
            for p, role in zip(paths, roles):
                if role in ('text', 'source'):
                    continue
                c.check('rejected', f"{op}: {p}", rule.get(st.rs, 'chk', p) is not True,
                        f"returns normally although '{p}' matches a protected prefix", rule.func.where)
    by_keyword(prog, c)
    # wiring
    mount = prog.cls('FuseMount')
    init = mount.find('__init__')
    wr = WiringRule()
    flow = Flow(prog, wr)
    exits = flow.run(init, mount)
    c.used(flow, init.where, len(exits))
    for call, rs, st, where in wr.made:
        c.instance('overlay constructions', where)
        arg = call_arg(call, 2, 'ignoredPrefixes')
        if ('ctl', False) in rs:
            c.check('wiring', 'overlay construction without control interface', True)
            continue
        prefixes = [call_arg(x, 0, 'prefix') for x, r, _ in wr.control if ('ctl', False) not in r]
        ok = arg is not None and any(p is not None and any(contains(arg, p) for p in prefixes) for p in prefixes)
        c.check('wiring', 'overlay construction', ok,
                f"the protected prefixes {show(arg) if arg is not None else '(none)'} do not contain the control folder", where)
        for x in subterms(arg) if arg is not None else ():
            if x.op in ('bin', 'fstr') and any(p is not None and contains(x, p) for p in prefixes):
                more = [y for y in subterms(x) if y.op == 'const' and isinstance(cval(y), str) and cval(y).strip('/') and y not in prefixes]
                c.check('wiring', 'control folder', not more, f"only protects a part of the control folder: {show(x)[:80]}", where)
    if not wr.made:
        c.check('wiring', 'overlay construction', False, "the mount constructor no longer creates the overlay", init.where)
    # constructor of the overlay keeps what it was given
    ov = prog.cls(overlay.OVERLAY)
    ini = ov.find('__init__')

    class Keep(Rule):
        exc_exits = False
        initial = False
        max_depth = 3

        def on_store(self, cx, base, key, value, st):
            if key == 'ignoredPrefixes' and base.op == 'self':
                cond = [k for k, pol in st.facts.items() if contains(k, mk('param', 'ignoredPrefixes'))]
                if any(x.op == 'param' and x.args[0] == 'ignoredPrefixes' for x in subterms(value)):
                    for x in subterms(value):
                        if x.op == 'comp' and contains(x, mk('param', 'ignoredPrefixes')):
                            for e in x.args[1]:
                                c.check('wiring', 'form of the protected prefixes', slashes(e, True) and slashes(e, False),
                                        f"paths below the protected folders do not start with {show(e)[:80]}", cx.where())
                            c.check('wiring', 'all protected prefixes', not x.args[3], "some protected prefixes are dropped", cx.where())
                    return True
                return 'lost' if st.rs is not True else True
            return st.rs

    for name, f in sorted(ov.methods.items()):
        if f is not ini:
            rr = RootRule()
            fl = Flow(prog, rr)
            if any(isinstance(n, ast.Attribute) and n.attr == 'root' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                ex = fl.run(f, ov)
                c.used(fl, f.where, len(ex))
                for value, entered, where in rr.stores:
                    given = {x.args[0] for x in subterms(value) if x.op == 'param'}
                    c.check('root', f"{name}", bool(given) or (entered and value.op == 'const' and cval(value) in ('.', './')),
                            f"the overlay root becomes {show(value)[:60]} without having changed into the overlay folder", where)
    flow = Flow(prog, Keep())
    exits = flow.run(ini, ov)
    c.used(flow, ini.where, len(exits))
    kept = [st for k, v, st in exits if k == 'return' and st.rs is True]
    c.check('wiring', 'overlay keeps its protected prefixes', bool(kept), "the constructor drops the protected prefixes", ini.where)


def by_keyword(prog: Program, c):
    """The same for callers which hand the arguments over by name."""
    ov = prog.cls(overlay.OVERLAY)
    for op, roles in overlay.OPS.items():
        f = ov.find(op)
        if f is None:
            continue
        params = f.params[1:]
        node = ast.parse(f"def {op}_by_keyword(self, {', '.join(params)}):\n    return self.{op}({', '.join(f'{p}={p}' for p in params)})").body[0]
        caller = Func(node.name, node, f.module, ov)
        rule = overlay.OverlayRule(c, op, caller, params[: len(roles)])
        flow = Flow(prog, rule)
        exits = flow.run(caller, ov)
        c.used(flow, f.where, len(exits))
        for kind, p, eff, term, where, rs in rule.events:
            name = p if isinstance(p, str) else (p[0] if p else None)
            if name is not None and (kind == 'db' or kind == 'real' and eff in MUT):
                c.check('checked', f"{op} by keyword: {eff} of {name}", rule.get(rs, 'chk', name) is False,
                        f"'{name}' given by name is mutated ({eff}) without having been compared with the protected prefixes", where)


def slashes(v: V, first: bool) -> bool:
    """Whether the text begins (or ends) with a separator."""
    if v.op == 'const':
        t = cval(v)
        return isinstance(t, str) and (t.startswith('/') if first else t.endswith('/'))
    if v.op == 'bin' and v.args[0] == 'Add':
        return slashes(v.args[1 if first else 2], first)
    if v.op == 'fstr':
        return slashes(v.args[0][0 if first else -1], first)
    if v.op == 'ext':
        return v.args[0] in ('os.sep', 'os.path.sep')
    if v.op == 'phi':
        return all(slashes(x, first) for x in v.args[0])
    if v.op == 'call':
        n, a, r = call_name(v), call_args(v), call_recv(v)
        if n in overlay.PATHNORM and a:
            return first and (slashes(a[0], True) or n == 'os.path.abspath')
        if n in ('os.path.join', 'posixpath.join') and a:
            return slashes(a[0], True) if first else slashes(a[-1], False) or (a[-1].op == 'const' and cval(a[-1]) == '')
        if n in ('.rstrip', '.removesuffix') and r is not None:
            return first and slashes(r, True)
        if n in ('.lstrip', '.removeprefix') and r is not None:
            return not first and slashes(r, False)
    return v.op in ('any',)
