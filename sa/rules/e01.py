"""Command line options reach the components they configure."""

import ast
import re
from typing import Dict, List, Optional, Set

from ..flow import Flow, Rule, is_const, mk, subterms
from ..model import Class, Func, Program, dotted

EXPLANATION = (
    "Whole-program name flow of options: from the definitions of the command line over the option dictionary and the keyword "
    "arguments of all constructors in between to the places which read them. Every definition must be read, every key must have "
    "a reader, every call that can take options must pass them on, and no option is removed or overwritten on the way."
)
# keys which are set or removed on the way because of what they mean, not because an option is ignored
OVERRIDABLE = {
    'pathToMount', 'mountPoint', 'controlInterface', 'logFile', 'indexFilePath', 'indexFolders', 'recursive', 'recursionDepth',
    'writeIndex', 'tarFileName', 'writeOverlay', 'readOnlyIndex', 'fileObject', 'backendName', 'archiveFilePath', 'index', 'indexMinimumFileCount',
}
ADAPTERS = {'bool', 'int', 'list', 'tuple', 'str', 'float', 'set'}


def option_functions(prog: Program) -> List[Func]:
    """The function turning parsed arguments into options, with the helpers it calls."""
    f = prog.func('ratarmount.CLIHelpers', 'parsed_args_to_options')
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in out:
            continue
        out.append(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and dotted(n.func):
                r = prog.resolve(g.module, dotted(n.func))
                if isinstance(r, Func) and r.module is g.module:
                    todo.append(r)
    return out


def option_values(prog: Program) -> Dict[str, tuple]:
    keys: Dict[str, tuple] = {}
    for f in option_functions(prog):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        keys[k.value] = (v, f)
            elif isinstance(n, ast.Call) and dotted(n.func) == 'dict' or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update':
                for k in n.keywords:
                    if k.arg:
                        keys[k.arg] = (k.value, f)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                        keys[t.slice.value] = (n.value, f)
    return keys


def dests(prog: Program) -> Dict[str, ast.Call]:
    out = {}
    for m in prog.modules.values():
        if not m.name.startswith('ratarmount.'):
            continue
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument'):
                continue
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if not names:
                continue
            kw = {k.arg: k.value for k in n.keywords}
            action = kw.get('action')
            if isinstance(action, ast.Constant) and action.value in ('help', 'version'):
                continue
            if isinstance(action, ast.Name):  # actions which print something and exit
                k = prog.resolve(m, action.id)
                call = k.find('__call__') if isinstance(k, Class) else None
                if call is not None and not any(isinstance(x, ast.Call) and dotted(x.func) == 'setattr' for x in ast.walk(call.node)):
                    continue
            if isinstance(kw.get('dest'), ast.Constant):
                d = kw['dest'].value
            else:
                long = [x for x in names if x.startswith('--')]
                d = (long[0] if long else names[0]).lstrip('-').replace('-', '_')
            out.setdefault(d, (n, m))
    return out


def arg_names(f: Func) -> Set[str]:
    a = f.node.args
    return {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}


def params(f: Func) -> List[str]:
    return [p.arg for p in f.node.args.posonlyargs + f.node.args.args]


def loads(prog: Program):
    """Attributes read from anything in the program, and names of options read from dictionaries."""
    attrs, keys = {}, {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                attrs.setdefault(n.attr, []).append((m, n))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Load):
                keys.setdefault(n.slice.value, []).append((m, n))
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop', 'setdefault') and n.args and isinstance(n.args[0], ast.Constant):
                    keys.setdefault(n.args[0].value, []).append((m, n))
                if dotted(n.func) in ('getattr', 'hasattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    attrs.setdefault(n.args[1].value, []).append((m, n))
    return attrs, keys


def tokens(name: str) -> List[str]:
    return [t.lower() for t in re.findall(r'[A-Z]?[a-z0-9]+|[A-Z]+(?![a-z])', name)]


def fit(a: str, b: str) -> int:
    score = 0
    tb = tokens(b)
    for x in tokens(a):
        for y in tb:
            if x == y or (min(len(x), len(y)) >= 4 and (x.startswith(y) or y.startswith(x))) or x.rstrip('s') == y.rstrip('s'):
                score += 1
                break
    return score


def run(prog: Program, c):
    c.rule('read', "every command line option is read after parsing")
    c.rule('consumed', "every option passed on by the command line is read by some component")
    c.rule('value', "options are passed on with the value given on the command line")
    c.rule('source', "each option gets its value from its own command line argument")
    c.rule('forwarded', "components pass all options on to the components which take them")
    c.rule('kept', "options are neither removed nor overwritten on the way")
    c.rule('swallowed', "no value is given under a name which the called function drops")
    c.rule('used', "constructors use the options they accept")
    keys = option_values(prog)
    D = dests(prog)
    attrs, subs = loads(prog)
    for k in sorted(keys):
        c.instance('options', k)
    for d in sorted(D):
        c.instance('command line arguments', d)
    c.floor('options', 20)
    c.floor('command line arguments', 25)

    assigned = argument_sources(prog, D)
    # -- read
    for d, (n, m) in sorted(D.items()):
        readers = [x for x in attrs.get(d, []) if isinstance(x[1], ast.Call) or args_like(x[0], x[1], prog)]
        c.check('read', d, bool(readers), f"the value given for {d} is never read", f"{m.rel}:{n.lineno}")
    # -- sources and values
    sources: Dict[str, Set[str]] = {}
    for k, (v, f) in sorted(keys.items()):
        where = f"{f.module.rel}:{v.lineno}"
        names = {n.attr for n in ast.walk(v) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)}
        src = set()
        for a in names:
            src |= assigned.get(a, {a} if a in D else set())
        sources[k] = src
        if not src:
            c.check('source', k, isinstance(v, ast.Constant), f"the value {ast.unparse(v)[:60]} does not come from the command line", where)
            continue
        c.check('value', k, value_kept(v) and (k in ('clearIndexCache', 'readOnlyIndex') or table_kept(v)) and partial(v) is None, f"the value is {ast.unparse(v)[:80]}", where)
    for k, src in sorted(sources.items()):
        # swapping the sources of two options must not fit better
        swapped = [j for j, other in sources.items() if j != k and len(src) == len(other) == 1 and src != other and
                   fit(k, min(src)) + fit(j, min(other)) < fit(k, min(other)) + fit(j, min(src))]
        same = [j for j, other in sources.items() if j != k and src == other and src and fit(k, min(src)) < fit(j, min(other)) and fit(k, min(src)) == 0]
        c.check('source', k, not swapped and not same, f"gets its value from {sorted(src)}, which belongs to {(swapped + same)[:1]}", keys[k][1].where)
    three_state(c, keys)
    # -- consumed
    explicit = {}
    for f in prog.all_funcs():
        if f.module.name == 'ratarmount.CLIHelpers':
            continue
        for p in arg_names(f) & set(keys):
            explicit.setdefault(p, []).append(f)
    for k, (v, f) in sorted(keys.items()):
        taken = [x for x in explicit.get(k, []) if not x.is_abstract] or subs.get(k)
        c.check('consumed', k, bool(taken), "is not read by any component", f"{f.module.rel}:{v.lineno}")
    # -- used
    for k, funcs in sorted(explicit.items()):
        for f in funcs:
            if f.is_abstract or f.name != '__init__':
                continue
            names = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Load)]
            c.check('used', f"{f.qual} {k}", bool(names), "accepts the option but ignores it", f.where)
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Name) and s.value.id == k:
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Attribute):
                            c.check('used', f"{f.qual} {k} attribute", bool(attrs.get(t.attr)), f"the option is only stored as {t.attr}, which is never read", f.where)
    forwarding(prog, c, keys)
    kept(prog, c, keys)
    unknown(prog, c, keys)
    parameters_kept(prog, c, keys)
    defaults_only(prog, c)
    arguments_kept(prog, c, D)
    unit(prog, c, D)
    precedence(prog, c)
    decompression(prog, c)
    swallowed(prog, c, D, keys)
    named_arguments(prog, c, D)


def args_like(m, n: ast.Attribute, prog) -> bool:
    # operations of a running mount only handle the arguments of commands written to it
    return isinstance(n.value, ast.Name) and m.name.startswith('ratarmount.') and m.name != prog.cls('FuseMount').module.name


def argument_sources(prog: Program, D) -> Dict[str, Set[str]]:
    """Arguments computed from others: args.x = f(args.y), args.x.append(args.y)."""
    out: Dict[str, Set[str]] = {}
    for m in prog.modules.values():
        if not m.name.startswith('ratarmount.'):
            continue
        for scope in [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            local: Dict[str, Set[str]] = {}

            def found(*values):
                r = set()
                for v in values:
                    for x in ast.walk(v):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                            r |= {x.attr} if x.attr in D else out.get(x.attr, set())
                        elif isinstance(x, ast.Name):
                            r |= local.get(x.id, set())
                return r

            for _ in range(3):
                for n in ast.walk(scope):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                        targets, values = n.targets if isinstance(n, ast.Assign) else [n.target], [n.value]
                    elif isinstance(n, (ast.For, ast.comprehension)):
                        targets, values = [n.target], [n.iter]
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'add', 'update'):
                        targets, values = [n.func.value], [*n.args, *(k.value for k in n.keywords)]
                    else:
                        continue
                    for t in targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                            r = found(*values)
                            if r and t.attr not in D:
                                out.setdefault(t.attr, set()).update(r)
                        else:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name):
                                    local.setdefault(x.id, set()).update(found(*values))
    return out


def value_kept(v: ast.AST) -> bool:
    if isinstance(v, ast.Attribute):
        return True
    if isinstance(v, ast.Call) and dotted(v.func) in ADAPTERS and len(v.args) == 1:
        return value_kept(v.args[0])
    if isinstance(v, ast.BoolOp) or isinstance(v, ast.Compare):
        return True  # three-state options, see three_state
    if isinstance(v, ast.IfExp):
        return value_kept(v.body) or value_kept(v.orelse)
    if isinstance(v, ast.Call):
        return any(isinstance(x, ast.Attribute) for a in v.args for x in ast.walk(a))
    return not isinstance(v, ast.UnaryOp)


def evaluate(v: ast.AST, value):
    if isinstance(v, ast.Attribute):
        return value
    if isinstance(v, ast.Constant):
        return v.value
    if isinstance(v, ast.Call) and dotted(v.func) == 'bool' and len(v.args) == 1:
        return bool(evaluate(v.args[0], value))
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
        return not evaluate(v.operand, value)
    if isinstance(v, ast.BoolOp):
        r = None
        for x in v.values:
            r = evaluate(x, value)
            if bool(r) != isinstance(v.op, ast.And):
                return r
        return r
    if isinstance(v, ast.Compare) and len(v.ops) == 1:
        a, b = evaluate(v.left, value), evaluate(v.comparators[0], value)
        op = v.ops[0]
        if isinstance(op, ast.Is) or isinstance(op, ast.Eq):
            return a is b or a == b and type(a) is type(b)
        if isinstance(op, ast.IsNot) or isinstance(op, ast.NotEq):
            return not (a is b or a == b and type(a) is type(b))
    if isinstance(v, ast.IfExp):
        return evaluate(v.body if evaluate(v.test, value) else v.orelse, value)
    raise ValueError


def three_state(c, keys):
    """Recreate, keep, or only recreate on errors: a table over the three values."""
    for k, expected in (('clearIndexCache', True), ('readOnlyIndex', False)):
        if k not in keys:
            c.check('value', k + ' states', False, "is not passed on", '')
            continue
        v, f = keys[k]
        try:
            ok = all(bool(evaluate(v, x)) == (x is expected) for x in (True, False, None))
        except ValueError:
            continue
        c.check('value', k + ' states', ok, f"{ast.unparse(v)[:80]} does not tell apart the states of the option", f"{f.module.rel}:{v.lineno}")


# --------------------------------------------------------------------------- forwarding


class Scope:
    """Names and attributes holding the options in one function."""

    def __init__(self, prog: Program, f: Func):
        self.names: Set[str] = set()
        self.attrs: Set[str] = set()
        a = f.node.args
        if a.kwarg and a.kwarg.arg in ('options', 'kwargs'):
            self.names.add(a.kwarg.arg)
        self.names |= {n for n in arg_names(f) if n == 'options'}
        if f.cls is not None:
            for k in f.cls.mro():
                init = k.methods.get('__init__')
                if init is not None and init.node.args.kwarg:
                    for n in ast.walk(init.node):
                        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and self.holds_name(n.value, {init.node.args.kwarg.arg}):
                            self.attrs.add(n.targets[0].attr)
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(t, ast.Name) and self.holds(n.value):
                        self.names.add(t.id)

    def holds_name(self, v, names):
        old = self.names
        self.names = names
        r = self.holds(v)
        self.names = old
        return r

    def holds(self, v: ast.AST) -> bool:
        if isinstance(v, ast.Name):
            return v.id in self.names
        if isinstance(v, ast.Attribute):
            return isinstance(v.value, ast.Name) and v.value.id == 'self' and v.attr in self.attrs
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr):
            return self.holds(v.left) or self.holds(v.right)
        if isinstance(v, ast.Dict):
            return any(k is None and self.holds(x) for k, x in zip(v.keys, v.values))
        if isinstance(v, ast.DictComp):
            g = v.generators[0]
            return not g.ifs and any(self.holds(x) for x in ast.walk(g.iter))
        if isinstance(v, ast.Call):
            d = dotted(v.func) or ''
            if d.split('.')[-1] == 'parsed_args_to_options':
                return True
            if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy':
                return self.holds(v.func.value)
            if d in ('dict', 'copy.copy', 'copy.deepcopy', 'cast', 'typing.cast'):
                return any(self.holds(x) for x in v.args) or any(k.arg is None and self.holds(k.value) for k in v.keywords)
        return False

    def any(self):
        return bool(self.names or self.attrs)


def literal_of(f: Func, v: ast.AST) -> Optional[ast.AST]:
    if isinstance(v, (ast.List, ast.Tuple)):
        return v
    if isinstance(v, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == v.id:
                return n.value
    return None


def exempt(prog: Program, f: Func, n: ast.Call, target) -> bool:
    # read-only indexes need nothing else
    if any(k.arg == 'readOnlyIndex' and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords):
        return True
    # unions of files provided by the program itself
    if n.args:
        v = literal_of(f, n.args[0])
        if isinstance(v, (ast.List, ast.Tuple)) and v.elts and all(
            isinstance(e, ast.Call) and isinstance(prog.resolve(f.module, dotted(e.func) or '?'), Class) for e in v.elts
        ):
            return True
    return False


def callee(prog: Program, f: Func, n: ast.Call):
    """(function receiving the arguments, parameters before the first argument, name)"""
    d = dotted(n.func)
    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == 'super' and f.cls is not None:
        g = f.cls.find_after(f.cls, n.func.attr)
        return g, 1, f"super().{n.func.attr}"
    if not d:
        return None, 0, ''
    if d.startswith('self.') and f.cls is not None and d.count('.') == 1:
        g = f.cls.find(d[5:])
        return g, 0 if g is not None and g.is_static else 1, d
    r = prog.resolve(f.module, d)
    if isinstance(r, Class):
        return r.find('__init__'), 1, d
    if isinstance(r, Func):
        return r, 1 if r.is_classmethod else 0, d
    return None, 0, d


def takes_options(g: Func, keys) -> Set[str]:
    return arg_names(g) & set(keys)


def forwarding(prog: Program, c, keys):
    # names which say something about the options when they are parameters; paths are passed explicitly anyway
    relevant = set(keys) - {'mountPoint', 'pathToMount', 'writeOverlay', 'indexFilePath', 'recursionDepth', 'encoding'}
    factory = 0
    opener = prog.func('ratarmountcore.mountsource.factory', 'open_mount_source')
    for f in prog.all_funcs():
        if '_external' in f.module.rel or f.module.name == 'ratarmount.CLIHelpers':
            continue
        scope = Scope(prog, f)
        own = arg_names(f)
        attrs = set()
        if f.cls is not None and f.name != '__init__':
            for k in f.cls.mro():
                init = k.methods.get('__init__')
                for n in ast.walk(init.node) if init is not None else ():
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                attrs.add(t.attr)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            stars = [k.value for k in n.keywords if k.arg is None]
            forwarded = any(scope.holds(s) for s in stars)
            g, skip, name = callee(prog, f, n)
            if g is None:
                if forwarded and isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and f.module is opener.module and f.cls is None and 'open' != f.name:
                    factory += 1
                continue
            accepts = takes_options(g, relevant)
            kw = g.node.args.kwarg is not None and g.node.args.kwarg.arg == 'options'
            if not accepts and not kw or not (g.name == '__init__' or g.cls is None or kw or accepts):
                continue
            where = f"{f.module.rel}:{n.lineno}"
            construct = f"{f.qual} {name}"
            given = {k.arg for k in n.keywords if k.arg} | set(params(g)[skip:skip + len(n.args)])
            if any(isinstance(a, ast.Starred) for a in n.args):
                continue
            if forwarded or exempt(prog, f, n, g):
                c.instance('forwarding calls', construct)
                continue
            missing = {p for p in accepts if p not in given}
            if scope.any() and (kw or missing) and '_check' not in name:
                if not missing and not deep(prog, g, keys):
                    continue
                if g.name == 'determine_recursion_depth' and {'recursive', 'recursionDepth'} <= given:
                    continue
                explicit_only = not (scope.names & {'options', 'kwargs'}) and not missing
                if explicit_only:
                    continue
                if f.node.args.kwarg is None or scope.names - {f.node.args.kwarg.arg} or missing or used_kwarg(f):
                    c.check('forwarded', construct, False, f"the options are not passed on to {name}", where)
                continue
            lost = sorted(p for p in missing if p in own or p in attrs)
            c.instance('forwarding calls', construct)
            c.check('forwarded', construct, not lost, f"{', '.join(lost)} is not passed on to {name}", where)
    c.check('forwarded', 'backends', factory > 0, "the options are not passed on to the backend opening an archive", '')
    c.floor('forwarding calls', 15)


def used_kwarg(f: Func) -> bool:
    k = f.node.args.kwarg
    return k is not None and any(isinstance(n, ast.Name) and n.id == k.arg for n in ast.walk(f.node) if not isinstance(n, ast.arg))


def deep(prog: Program, g: Func, keys, seen=()) -> bool:
    """Options given to the function by name have any effect."""
    if g in seen or g.node.args.kwarg is None:
        return bool(takes_options(g, keys))
    return bool(takes_options(g, keys)) or used_kwarg(g)


# --------------------------------------------------------------------------- removal


def kept(prog: Program, c, keys):
    for f in prog.all_funcs():
        if '_external' in f.module.rel or f.module.name == 'ratarmount.CLIHelpers' or f.name == 'parsed_args_to_options':
            continue
        scope = Scope(prog, f)
        if not scope.any():
            continue
        for n in ast.walk(f.node):
            found = []
            if isinstance(n, ast.Delete):
                found = [(t.slice, 'removes', None) for t in n.targets if isinstance(t, ast.Subscript) and scope.holds(t.value)]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and scope.holds(n.func.value):
                if n.func.attr == 'pop' and n.args:
                    found = [(n.args[0], 'removes', None)]
                elif n.func.attr in ('clear', 'popitem'):
                    found = [(None, 'removes', None)]
                elif n.func.attr == 'update':
                    found = [(ast.Constant(value=k.arg), 'overwrites', k.value) for k in n.keywords if k.arg and not same(ast.Constant(value=k.arg), k.value)]
                    found += [(k, 'overwrites', v) for a in n.args if isinstance(a, ast.Dict) for k, v in zip(a.keys, a.values) if not same(k, v)]
            elif isinstance(n, ast.Assign):
                found = [(t.slice, 'overwrites', n.value) for t in n.targets if isinstance(t, ast.Subscript) and scope.holds(t.value) and not same(t.slice, n.value)]
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr) and scope.holds(n.left):
                lit = literal_of_dict(f, n.right)
                found = [(k, 'overwrites', v) for k, v in zip(lit.keys, lit.values) if not same(k, v)] if lit is not None else []
            elif isinstance(n, ast.Dict) and any(k is None and scope.holds(v) for k, v in zip(n.keys, n.values)):
                found = [(k, 'overwrites', v) for k, v in zip(n.keys, n.values) if k is not None and not same(k, v)]
            for k, what, given in found:
                key = k.value if isinstance(k, ast.Constant) else None
                if key is None and k is not None:
                    continue
                c.instance('changes of options', f"{f.qual} {key}")
                c.check('kept', f"{f.qual} {key}", key not in keys or key in OVERRIDABLE and overridden(f, n, key, what, given), f"{what} the option {key}", f"{f.module.rel}:{n.lineno}")


# what options mean which the program may turn on by itself, and options which are consumed by the only component taking them
TURNED_ON = {'readOnlyIndex': True, 'writeIndex': True, 'recursive': True}
CONSUMED = {'pathToMount', 'mountPoint', 'controlInterface', 'logFile', 'indexFilePath', 'tarFileName', 'writeOverlay', 'fileObject'}


def overridden(f: Func, n: ast.AST, key: str, what: str, given: Optional[ast.AST]) -> bool:
    if what == 'removes':
        return key in CONSUMED
    if key in TURNED_ON and isinstance(given, ast.Constant):
        return given.value is TURNED_ON[key]
    return True


def unknown(prog: Program, c, keys):
    """Options are only read under names somebody sets."""
    known = set(keys)
    for f in prog.all_funcs():
        known |= arg_names(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Dict):
                known |= {k.value for k in n.keys if isinstance(k, ast.Constant)}
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Store):
                known.add(n.slice.value)
    for f in prog.all_funcs():
        if '_external' in f.module.rel:
            continue
        scope = Scope(prog, f)
        if not scope.any():
            continue
        for n in ast.walk(f.node):
            key = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop') and n.args and scope.holds(n.func.value):
                key = n.args[0]
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and scope.holds(n.value):
                key = n.slice
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and scope.holds(n.comparators[0]):
                key = n.left
            if isinstance(key, ast.Constant) and isinstance(key.value, str):
                c.instance('options read by name', f"{f.qual} {key.value}")
                c.check('consumed', f"{f.qual} {key.value}", key.value in known, "reads an option nobody sets", f"{f.module.rel}:{n.lineno}")
    c.floor('options read by name', 8)


def same(k: Optional[ast.AST], v: ast.AST) -> bool:
    """An option set to a variable of its own name is only passed on."""
    return isinstance(k, ast.Constant) and (dotted(v) or '').split('.')[-1] == k.value


def literal_of_dict(f: Func, v: ast.AST) -> Optional[ast.Dict]:
    if isinstance(v, ast.Dict):
        return v
    if isinstance(v, ast.Name):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == v.id and isinstance(n.value, ast.Dict):
                return n.value
    return None


# --------------------------------------------------------------------------- values on the way


SAMPLES = (None, True, False, 0, 1, 2, '', 'x', ('a', 'b'))


def table_kept(v: ast.AST) -> bool:
    """The handed on value over a table of given values: only different kinds of empty values may be exchanged."""
    for x in SAMPLES:
        try:
            r = evaluate(v, x)
        except ValueError:
            return True
        if isinstance(r, bool) or isinstance(x, bool):
            if bool(r) != bool(x):
                return False
        elif not x and not r:
            if isinstance(x, int) and r is None:
                return False  # zero is a value and not the absence of one
        elif r != x:
            return False
    return True


def partial(v: ast.AST) -> Optional[ast.AST]:
    """A slice leaving out elements of the value."""
    for n in ast.walk(v):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load) and (n.slice.lower or n.slice.upper):
            return n
    return None


def parents(f: Func) -> Dict[ast.AST, ast.AST]:
    out = {}
    for n in ast.walk(f.node):
        for x in ast.iter_child_nodes(n):
            out[x] = n
    return out


def terminates(body) -> bool:
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def conditions(up: Dict[ast.AST, ast.AST], n: ast.AST):
    """Conditions which hold whenever the statement is reached: (test, value)."""
    out = []
    while n in up:
        p = up[n]
        if isinstance(p, (ast.If, ast.IfExp, ast.While)):
            def inside(x):
                return n in x if isinstance(x, list) else n is x
            if inside(p.body):
                out.append((p.test, True))
            elif not isinstance(p, ast.While) and inside(p.orelse):
                out.append((p.test, False))
        for field in ('body', 'orelse', 'finalbody', 'handlers'):
            block = getattr(p, field, None)
            if isinstance(block, list) and n in block:
                for s in block[:block.index(n)]:
                    if isinstance(s, ast.If):
                        if terminates(s.body):
                            out.append((s.test, False))
                        elif terminates(s.orelse):
                            out.append((s.test, True))
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            break
        n = p
    flat = []
    while out:
        t, v = out.pop()
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            out.append((t.operand, not v))
        elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == v:
            out += [(x, v) for x in t.values]
        else:
            flat.append((t, v))
    return flat


def mentions(v: ast.AST, name: str) -> bool:
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v))


def not_given(tests, name: str) -> bool:
    """The conditions say that the parameter has not been given."""
    for t, v in tests:
        if isinstance(t, ast.Name) and t.id == name and not v:
            return True
        if isinstance(t, ast.NamedExpr) and mentions(t.value, name) and not v:
            return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and mentions(t, name):
            empty = isinstance(t.comparators[0], ast.Constant) or isinstance(t.left, ast.Constant)
            if isinstance(t.ops[0], (ast.Is, ast.Eq, ast.Lt, ast.LtE)) and v and empty or isinstance(t.ops[0], (ast.IsNot, ast.NotEq, ast.Gt, ast.GtE)) and not v and empty:
                return True
        if isinstance(t, ast.Call) and mentions(t, name) and not v:  # isinstance, len, ...
            return True
    return False


def reaches(f: Func, v: ast.AST, name: str, depth=3) -> bool:
    """The value depends on the parameter."""
    if mentions(v, name):
        return True
    if not depth:
        return False
    for n in ast.walk(v):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None:
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    if any(isinstance(t, ast.Name) and t.id == n.id for t in ts) and not mentions(s.value, n.id) and reaches(f, s.value, name, depth - 1):
                        return True
    return False


def parameters_kept(prog: Program, c, keys):
    """Options given as parameters are only replaced when they have not been given."""
    for f in prog.all_funcs():
        if '_external' in f.module.rel or isinstance(f.node, ast.Lambda):
            continue
        own = (arg_names(f) & set(keys)) - OVERRIDABLE
        own |= arg_names(f) & {'indexFolders', 'recursionDepth'}
        if f.module.name == 'ratarmount.CLIHelpers' or not own:
            continue
        up = parents(f)
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                continue
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name) and t.id in own:
                    construct = f"{f.qual} {t.id} replaced"
                    c.instance('changes of options', construct)
                    ok = reaches(f, n.value, t.id) or not_given(conditions(up, n), t.id)
                    c.check('kept', construct, ok, f"the given {t.id} is replaced by {ast.unparse(n.value)[:60]}", f"{f.module.rel}:{n.lineno}")


def defaults_only(prog: Program, c):
    """Entries of a given dictionary are not overwritten with defaults."""
    for f in prog.all_funcs():
        if '_external' in f.module.rel or isinstance(f.node, ast.Lambda):
            continue
        text = ast.dump(f.node)
        if 'parallelization' not in text:
            continue
        up = None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not (isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == ''):
                    continue
                up = up or parents(f)
                base = ast.dump(t.value).replace('Store()', 'Load()')
                guarded = False
                for test, v in conditions(up, n):
                    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Constant) and test.left.value == '':
                        if ast.dump(test.comparators[0]).startswith(base[:-1]) or base in ast.dump(test.comparators[0]):
                            guarded |= isinstance(test.ops[0], ast.NotIn) == v
                    elif isinstance(test, ast.Call) and base in ast.dump(test):
                        guarded = True
                # written before the given values are added
                first = all(getattr(s, 'lineno', 0) > n.lineno for s in ast.walk(f.node)
                            if isinstance(s, ast.Assign) and s is not n and any(isinstance(x, ast.Subscript) and ast.dump(x.value) == ast.dump(t.value) for x in s.targets)) \
                    and any(isinstance(s, ast.Assign) and s is not n and any(isinstance(x, ast.Subscript) and ast.dump(x.value) == ast.dump(t.value) for x in s.targets) for s in ast.walk(f.node))
                construct = f"{f.qual} default"
                c.instance('changes of options', construct)
                c.check('kept', construct, guarded or first, f"the given default is overwritten with {ast.unparse(n.value)[:50]}", f"{f.module.rel}:{n.lineno}")


def arguments_kept(prog: Program, c, D):
    """Values computed from arguments keep all of the given value."""
    for m in prog.modules.values():
        if not m.name.startswith('ratarmount.'):
            continue
        for f in prog.all_funcs():
            if f.module is not m or isinstance(f.node, ast.Lambda):
                continue
            names = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in D and n.value.id in arg_names(f)}
            if not names:
                continue
            up = parents(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id in names:
                    attr = n.targets[0].attr
                    construct = f"{f.qual} {attr}"
                    where = f"{m.rel}:{n.lineno}"
                    cut = partial(n.value)
                    c.check('value', construct + ' whole', cut is None, f"only a part of the given value is kept: {ast.unparse(n.value)[:70]}", where)
                    if attr in D and isinstance(n.value, ast.Constant):
                        given = any(isinstance(x, ast.Attribute) and x.attr == attr for t, v in conditions(up, n) if v for x in [t])
                        unset = any(isinstance(t, ast.Attribute) and t.attr == attr and not v or isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.Is) and v
                                    for t, v in conditions(up, n) if any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(t)))
                        c.check('value', construct + ' replaced', unset and not given, f"the given value is replaced by {ast.unparse(n.value)[:40]}", where)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and isinstance(n.func.value, ast.Attribute) \
                        and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id in names:
                    target = n.func.value.attr
                    src = {x.attr for a in n.args for x in ast.walk(a) if isinstance(x, ast.Attribute) and x.attr in D}
                    if not src:
                        continue
                    others = {x.attr for t, _ in conditions(up, n) for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in names} - src
                    # other modes of operation return before
                    others = {x for x in others if x == target or fit(x, target)}
                    c.check('value', f"{f.qual} {target} {min(src)}", not others, f"{min(src)} is only used depending on {sorted(others)}", f"{m.rel}:{n.lineno}")


def unit(prog: Program, c, D):
    """Values converted into another unit: the converted default is the default of the component."""
    seen = False
    for m in prog.modules.values():
        if not m.name.startswith('ratarmount.'):
            continue
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.targets[0].value, ast.Name)):
                continue
            src = {x.attr for x in ast.walk(n.value) if isinstance(x, ast.Attribute) and x.attr in D and isinstance(x.value, ast.Name)}
            if len(src) != 1 or not any(isinstance(x, ast.BinOp) for x in ast.walk(n.value)):
                continue
            call, module = D[min(src)]
            default = next((k.value for k in call.keywords if k.arg == 'default'), None)
            if default is None:
                continue
            try:
                given = number(prog, module, default, {})
                result = number(prog, m, n.value, {min(src): given})
            except ValueError:
                continue
            name = n.targets[0].attr
            expected = set()
            for f in prog.all_funcs():
                if isinstance(f.node, ast.Lambda) or name not in arg_names(f):
                    continue
                a = f.node.args
                pos = a.posonlyargs + a.args
                for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                    if p.arg == name and d is not None:
                        try:
                            expected.add(number(prog, f.module, d, {}, f.cls))
                        except ValueError:
                            pass
            if not expected:
                continue
            seen = True
            c.instance('converted options', name)
            c.check('value', name + ' unit', result in expected, f"the default becomes {result:g} but components use {sorted(expected)}", f"{m.rel}:{n.lineno}")
    return seen


def number(prog: Program, m, v: ast.AST, env, cls=None, depth=16):
    if depth <= 0:
        raise ValueError
    if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
        return v.value
    if isinstance(v, ast.Attribute) and v.attr in env:
        return env[v.attr]
    if isinstance(v, ast.BinOp):
        a, b = number(prog, m, v.left, env, cls, depth - 1), number(prog, m, v.right, env, cls, depth - 1)
        try:
            if isinstance(v.op, ast.Add):
                return a + b
            if isinstance(v.op, ast.Sub):
                return a - b
            if isinstance(v.op, ast.Mult):
                return a * b
            if isinstance(v.op, ast.Div):
                return a / b
            if isinstance(v.op, ast.FloorDiv):
                return a // b
            if isinstance(v.op, ast.LShift):
                return int(a) << int(b)
            if isinstance(v.op, ast.Pow) and b < 64:
                return a ** b
        except (ArithmeticError, TypeError) as e:
            raise ValueError from e
    if isinstance(v, ast.Call) and len(v.args) == 1 and (dotted(v.func) or '').split('.')[-1] in ('int', 'float', 'ceil', 'floor', 'round'):
        x = number(prog, m, v.args[0], env, cls, depth - 1)
        return {'int': int, 'float': float, 'ceil': lambda y: int(-(-y // 1)), 'floor': lambda y: int(y // 1), 'round': round}[dotted(v.func).split('.')[-1]](x)
    if isinstance(v, ast.Name):
        for scope, where in ((cls.node.body if cls is not None else [], m), (m.tree.body, m)):
            for s in scope:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(
                    isinstance(t, ast.Name) and t.id == v.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target])
                ):
                    return number(prog, where, s.value, env, cls, depth - 1)
        values = {}
        for other in prog.modules.values():
            for s in ast.walk(other.tree):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in s.targets):
                    try:
                        values[number(prog, other, s.value, env, None, depth - 1)] = 1
                    except ValueError:
                        pass
        if len(values) == 1:
            return min(values)
    raise ValueError


def precedence(prog: Program, c):
    """The most specific of several options decides."""
    f = prog.func('ratarmountcore.utils', 'determine_recursion_depth')
    if {'recursive', 'recursionDepth'} <= arg_names(f):
        flow = Flow(prog, Rule())
        exits = flow.run(f)
        c.used(flow, f.where, len(exits))
        given = mk('param', 'recursionDepth')
        for kind, value, st in exits:
            if kind != 'return':
                continue
            unset = any(
                pol and t.op == 'cmp' and t.args[0] in ('is', '==') and given in t.args and any(is_const(x, None) for x in t.args[1:]) or not pol and t == given
                for t, pol in st.facts.items()
            )
            c.check('value', f"{f.name} depth", unset or given in set(subterms(value)), "a given recursion depth is ignored", f.where)
    opener = prog.func('ratarmountcore.mountsource.factory', 'open_mount_source')
    names = {'prioritizedBackends'}
    for n in ast.walk(opener.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(x, ast.Constant) and x.value == 'prioritizedBackends' for x in ast.walk(n.value)):
            names |= {t.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
    for n in ast.walk(opener.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            parts = sequence(opener, n.iter)
            positions = [i for i, p in enumerate(parts) if any(isinstance(x, ast.Name) and x.id in names or isinstance(x, ast.Constant) and x.value == 'prioritizedBackends' for x in ast.walk(p))]
            if positions:
                c.instance('changes of options', 'order of backends')
                c.check('value', 'order of backends', positions[0] == 0, f"{ast.unparse(parts[0])[:40]} precedes the backends given by the user", opener.where)
    # the backend given last comes first
    for m in prog.modules.values():
        if not m.name.startswith('ratarmount.'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == 'prioritizedBackends':
                text = [n]
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Call) and dotted(x.func):
                        g = prog.resolve(m, dotted(x.func))
                        if isinstance(g, Func):
                            text.append(g.node)
                    elif isinstance(x, ast.Name):
                        text += [s for s in ast.walk(m.tree) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets)]
                if any(isinstance(t, ast.Name) for x in ast.walk(n.value) for t in [x]) and not isinstance(n.value, (ast.IfExp, ast.ListComp, ast.Subscript, ast.Call)):
                    continue
                turned = any(
                    isinstance(x, ast.Slice) and x.step is not None or isinstance(x, ast.Name) and x.id == 'reversed'
                    or isinstance(x, ast.Attribute) and x.attr in ('insert', 'appendleft', 'extendleft', 'reverse') for t in text for x in ast.walk(t)
                )
                elements = [x for x in ast.walk(n.value) if isinstance(x, ast.Attribute) and x.attr == 'use_backend']
                if elements:
                    c.check('value', 'last backend', turned, "the backend given last does not get the highest priority", f"{m.rel}:{n.lineno}")


def sequence(f: Func, v: ast.AST, depth=3) -> List[ast.AST]:
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        return sequence(f, v.left, depth) + sequence(f, v.right, depth)
    if isinstance(v, (ast.List, ast.Tuple)):
        return [y for x in v.elts for y in sequence(f, x.value if isinstance(x, ast.Starred) else x, depth)] or [v]
    if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] == 'chain':
        return [y for x in v.args for y in sequence(f, x, depth)]
    if isinstance(v, ast.Call) and len(v.args) == 1 and (dotted(v.func) or '').split('.')[-1] in ('list', 'tuple', 'iter', 'enumerate', 'fromkeys', 'remove_duplicates_stable'):
        return sequence(f, v.args[0], depth)
    if isinstance(v, ast.Name) and depth:
        found = [s.value for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(
            isinstance(t, ast.Name) and t.id == v.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
        if len(found) == 1 and isinstance(found[0], (ast.BinOp, ast.List, ast.Call, ast.Tuple)):
            parts = sequence(f, found[0], depth - 1)
            if len(parts) > 1:
                return parts
    return [v]


def last_value(up, at: ast.AST, name: str) -> Optional[ast.AST]:
    """The value assigned to the variable before in the same block."""
    n = at
    while n in up and not isinstance(n, ast.stmt):
        n = up[n]
    block = next((b for field in ('body', 'orelse', 'finalbody') for b in [getattr(up.get(n), field, None)] if isinstance(b, list) and n in b), [])
    for s in reversed(block[:block.index(n)] if n in block else []):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            if any(isinstance(t, ast.Name) and t.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target])):
                return s.value
        elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
            return None
    return None


def decompression(prog: Program, c):
    """The options of decompressors reach every one of them which takes them."""
    f = prog.func('ratarmountcore.compressions', 'open_compressed_file')
    own = arg_names(f)
    up = parents(f)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call) or n is f.node:
            continue
        name = (dotted(n.func) or '').split('.')[-1]
        where = f"{f.module.rel}:{n.lineno}"
        for k in n.keywords:
            if k.arg == 'parallelization' and 'parallelizations' in own:
                c.instance('decompressors', f"{name} parallelization")
                value = isinstance(k.value, ast.Name) and last_value(up, n, k.value.id) or k.value
                c.check('forwarded', f"{f.name} {name} parallelization", reaches(f, value, 'parallelizations'), "the parallelization given by the user is not used", where)
        if name[:1].isupper() and 'gzip' in name.lower() and 'gzipSeekPointSpacing' in own:
            c.instance('decompressors', f"{name} spacing")
            ok = any(reaches(f, k.value, 'gzipSeekPointSpacing') for k in n.keywords if k.arg in ('spacing', 'chunk_size') or k.arg is None) or len(n.args) > 1
            c.check('forwarded', f"{f.name} {name} spacing", ok, "the seek point spacing given by the user is not used", where)


def swallowed(prog: Program, c, D, keys):
    """Values are not given under names which the called function silently drops."""
    for f in prog.all_funcs():
        if '_external' in f.module.rel or isinstance(f.node, ast.Lambda):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not n.keywords:
                continue
            g, _, name = callee(prog, f, n)
            if g is None or g.node.args.kwarg is None or used_kwarg(g):
                continue
            for k in n.keywords:
                if k.arg and k.arg not in arg_names(g) and (k.arg in D or k.arg in keys):
                    c.check('swallowed', f"{f.qual} {name} {k.arg}", False, f"{name} drops the value given as {k.arg}", f"{f.module.rel}:{n.lineno}")


def named_arguments(prog: Program, c, D):
    """Functions called with parsed arguments get every argument they have a parameter for."""
    for f in prog.all_funcs():
        if not f.module.name.startswith('ratarmount.') or isinstance(f.node, ast.Lambda):
            continue
        names = {n.value.id for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in D and n.value.id in arg_names(f)}
        if not names:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            g, skip, name = callee(prog, f, n)
            if g is None or not g.module.name.startswith('ratarmount.'):
                continue
            given = {k.arg for k in n.keywords} | set(params(g)[skip:skip + len(n.args)])
            if not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in names for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a)):
                continue
            lost = sorted((arg_names(g) & set(D)) - given)
            c.instance('forwarding calls', f"{f.qual} {name}")
            c.check('forwarded', f"{f.qual} {name}", not lost, f"{', '.join(lost)} is not passed on to {name}", f"{f.module.rel}:{n.lineno}")
