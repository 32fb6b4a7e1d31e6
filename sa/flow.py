"""Path-sensitive typestate dataflow over the syntax tree (in the style of ESP's property simulation).

A *rule* supplies a finite rule state and transfer hooks (call, store, branch, with-enter/exit, yield).  The engine
propagates a bounded set of abstract states (rule state + provenance of every local + branch facts) through all
control-flow edges of an entry point: branches, loops (to a fixpoint, with widening), exception edges of every call
that may raise, try/except/else/finally, with, early returns.  Helpers, closures and program-defined decorators are
analysed at their call sites, so a rule never depends on how code is cut into functions.

Provenance terms describe where a value came from (a parameter, an attribute, the result of a call site).  They are
compared for identity only; no constraint solving and no concrete execution is involved.
"""

import ast
import copy
import builtins
from typing import Any, Dict, List, Optional, Tuple

from .model import FUNCS, AnalysisBroken, Class, Func, Module, Program, dotted, walk_own

# --------------------------------------------------------------------------- provenance terms


class V:
    __slots__ = ('op', 'args', 'uid', '_sited')
    _table: Dict[Any, 'V'] = {}

    def __repr__(self):
        return show(self)


def mk(op, *args) -> V:
    key = (op, args)
    v = V._table.get(key)
    if v is None:
        v = V()
        v.op = op
        v.args = args
        v.uid = len(V._table)
        v._sited = None
        V._table[key] = v
    return v


def const(x) -> V:
    try:
        hash(x)
    except TypeError:
        x = repr(x)
    return mk('const', type(x).__name__, x)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(v, *values):
    if v.op != 'const':
        return False
    return not values or any(v.args[1] == x and type(v.args[1]) is type(x) for x in values)


def cval(v):
    return v.args[1] if v.op == 'const' else None


def subterms(v, _seen=None):
    seen = set() if _seen is None else _seen
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, V):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def mentions(v, pred) -> bool:
    return any(pred(x) for x in subterms(v))


def sited(v) -> frozenset:
    """Sub-terms which denote one particular evaluation (call sites, loop items); they cannot be re-created."""
    if v._sited is None:
        out = set()
        if v.op in ('call', 'new', 'iter', 'exc', 'item', 'key', 'index', 'loopvar', 'sent', 'gen', 'raised') and not (
            v.op == 'call' and not isinstance(v.args[3], int)
        ):
            out.add(v)
        stack = list(v.args)
        while stack:
            x = stack.pop()
            if isinstance(x, V):
                out |= sited(x)
            elif isinstance(x, tuple):
                stack.extend(x)
        v._sited = frozenset(out)
    return v._sited


def contains(v, w) -> bool:
    return any(x is w for x in subterms(v))


def show(v, depth=0) -> str:
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x, depth) for x in v) + ')'
        return repr(v)
    if depth > 6:
        return '…'
    d = depth + 1
    o, a = v.op, v.args
    if o == 'const':
        return repr(a[1])
    if o == 'self':
        return 'self'
    if o == 'param':
        return a[0]
    if o == 'ext':
        return a[0]
    if o in ('func',):
        return a[0].qual
    if o == 'cls':
        return a[0].name
    if o == 'bound':
        return f"{show(a[1], d)}.{a[0].name}"
    if o == 'attr':
        return f"{show(a[0], d)}.{a[1]}"
    if o == 'sub':
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == 'new':
        return f"{a[0].name}({', '.join(show(x, d) for x in a[1])})"
    if o == 'call':
        args = [show(x, d) for x in a[1]] + [f"{k}={show(x, d)}" for k, x in a[2]]
        return f"{show(a[0], d)}({', '.join(args)})"
    if o == 'cmp':
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == 'bin':
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == 'un':
        return f"({a[0]} {show(a[1], d)})"
    if o in ('tuple', 'list', 'set'):
        return f"{o}[{', '.join(show(x, d) for x in a[0])}]"
    return f"{o}<{', '.join(show(x, d) for x in a)}>"


def call_name(v) -> str:
    """Name of a called function: dotted for externals, '.name' for methods, plain name for program functions."""
    if v.op in ('call',):
        v = v.args[0]
    if v.op == 'ext':
        return v.args[0]
    if v.op == 'attr':
        return '.' + v.args[1]
    if v.op == 'bound':
        return '.' + v.args[0].name
    if v.op == 'func':
        return v.args[0].name
    if v.op == 'cls':
        return v.args[0].name
    if v.op == 'supermethod':
        return '.' + v.args[1]
    return '?'


def call_recv(v) -> Optional[V]:
    if v.op == 'call':
        v = v.args[0]
    if v.op == 'attr':
        return v.args[0]
    if v.op == 'bound':
        return v.args[1]
    if v.op == 'supermethod':
        return v.args[0]
    return None


def call_args(v) -> Tuple[V, ...]:
    return v.args[1] if v.op in ('call', 'new') else ()


def call_kw(v) -> Dict[str, V]:
    return dict(v.args[2]) if v.op in ('call', 'new') else {}


def call_arg(v, index, name=None) -> Optional[V]:
    a = call_args(v)
    if index is not None and index < len(a) and not any(x.op == 'star' for x in a[: index + 1]):
        return a[index]
    return call_kw(v).get(name) if name else None


# --------------------------------------------------------------------------- states


class St:
    __slots__ = ('env', 'facts', 'heap', 'rs')

    def __init__(self, env, facts, heap, rs):
        self.env, self.facts, self.heap, self.rs = env, facts, heap, rs

    def copy(self):
        return St(self.env, self.facts, self.heap, self.rs)

    def set(self, name, v):
        env = dict(self.env)
        env[name] = v
        return St(env, self.facts, self.heap, self.rs)

    def with_rs(self, rs):
        return self if rs is self.rs else St(self.env, self.facts, self.heap, rs)

    def with_env(self, env):
        return St(env, self.facts, self.heap, self.rs)

    def fact(self, v, pol):
        facts = dict(self.facts)
        facts[v] = pol
        return St(self.env, facts, self.heap, self.rs)

    def store(self, key, v):
        heap = dict(self.heap)
        heap[key] = v
        return St(self.env, self.facts, heap, self.rs)

    def key(self):
        return (
            frozenset(self.env.items()),
            frozenset(self.facts.items()),
            frozenset(self.heap.items()),
            self.rs,
        )


class Frame:
    __slots__ = ('func', 'module', 'owner', 'self_v', 'selfName', 'depth', 'stack', 'ctx', 'closure_env', 'live')

    def __init__(self, func, module, owner, self_v, selfName, depth, stack, ctx, closure_env=None):
        self.func, self.module, self.owner = func, module, owner
        self.self_v, self.selfName = self_v, selfName
        self.depth, self.stack, self.ctx = depth, stack, ctx
        self.closure_env = closure_env or {}
        self.live = frozenset()


class Out:
    __slots__ = ('normal', 'ret', 'brk', 'cont')

    def __init__(self):
        self.normal: List[St] = []
        self.ret: List[Tuple[V, St]] = []
        self.brk: List[St] = []
        self.cont: List[St] = []


class Rule:
    """Default hooks. `cx` is the engine; cx.frame/cx.node locate the construct."""

    initial: Any = ()
    max_depth = 7
    exc_exits = True  # also explore exceptions which leave the entry point
    subscript_raises = False
    forget_stored = False  # forget what was stored in attributes of self when a method which is not inlined may change it
    attr_classes_inline: Tuple[str, ...] = ()  # classes whose methods are inlined when called on a typed attribute

    def inline(self, cx, func: Func, recv: Optional[V]) -> bool:
        """Analyse helpers of the same module and methods of the receiver in place; other callees stay opaque."""
        if recv is not None and recv.op == 'self':
            return True
        if recv is not None and recv.op == 'attr' and cx.classes_of(recv):
            return True
        return func.module is cx.entry_module

    def inline_new(self, cx, cls: Class) -> bool:
        return False

    def on_call(self, cx, call: V, st: St):
        """Return (rule state on success, rule state when the call raises)."""
        return st.rs, st.rs

    def on_enter(self, cx, func: Func, bound: Dict[str, V], st: St):
        return st.rs

    def on_leave(self, cx, func: Func, result: Optional[V], st: St):
        return st.rs

    def on_attr(self, cx, base: V, name: str, st: St):
        return st.rs

    def on_subscript(self, cx, base: V, key, st: St):
        """An item is read. The result is ignored."""

    def on_store(self, cx, base: V, key, value: V, st: St):
        return st.rs

    def on_delete(self, cx, base: V, key, st: St):
        return st.rs

    def on_assume(self, cx, cond: V, polarity: bool, st: St):
        return st.rs

    def on_with_enter(self, cx, v: V, st: St):
        return st.rs

    def on_with_exit(self, cx, v: V, st: St):
        return st.rs

    def on_iter(self, cx, it: V, st: St):
        return st.rs

    def on_item(self, cx, it: V, item: V, st: St):
        """The body of a loop is entered for one item."""
        return st.rs

    def on_break(self, cx, it: V, st: St):
        """A loop over it is left by a break statement."""
        return st.rs

    def on_end(self, cx, it: V, st: St):
        """A loop over it is left because there are no further items."""
        return st.rs

    def on_yield(self, cx, v: V, st: St):
        return st.rs

    def on_raise(self, cx, v: V, st: St):
        return st.rs

    def on_catch(self, cx, exc: V, types, st: St):
        return st.rs

    def may_raise(self, cx, call: V) -> bool:
        return True

    def feasible(self, cx, cond: V, polarity: bool, st: St) -> bool:
        return True

    def value(self, cx, call: V, st: St) -> Optional[V]:
        return None

    def keep_fact(self, cond: V) -> bool:
        """Keep a branch fact although the program can no longer refer to the tested value."""
        return False


PURE_EXT = {
    'isinstance', 'issubclass', 'len', 'hasattr', 'callable', 'bool', 'str', 'int', 'float', 'bytes', 'min', 'max', 'abs',
    'repr', 'ord', 'chr', 'type', 'id', 'tuple', 'sorted', 'sum', 'any', 'all', 'range', 'frozenset', 'reversed', 'round',
    'os.path.join', 'os.path.normpath', 'os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.split',
    'os.path.isabs', 'os.path.abspath', 'os.path.expanduser', 'os.path.realpath', 'os.fspath', 'os.fsencode', 'os.fsdecode', 'os.path.commonpath', 'os.path.commonprefix',
    'stat.S_ISDIR', 'stat.S_ISREG', 'stat.S_ISLNK', 'stat.S_ISCHR', 'stat.S_ISBLK', 'stat.S_ISFIFO', 'stat.S_IMODE',
    'stat.S_IFMT', 'pathlib.Path', 'typing.cast', 'urllib.parse.quote', 'enumerate', 'zip',
}
PURE_METHODS = {
    'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'partition', 'rpartition', 'removeprefix',
    'removesuffix', 'lower', 'upper', 'encode', 'decode', 'replace', 'join', 'format', 'is_dir', 'isdigit', 'count', 'splitlines',
}
NORAISE_EXT = PURE_EXT | {
    'print', 'getattr', 'super', 'time.time', 'list', 'dict', 'set', 'functools.partial', 'object', 'property', 'id',
    'traceback.print_exc', 'threading.Lock', 'threading.RLock', 'contextlib.suppress', 'contextlib.nullcontext', 'os.getpid',
    'contextlib.ExitStack', 'logging.getLogger', 'map', 'filter', 'collections.OrderedDict', 'collections.defaultdict',
    'setattr', 'os.path.exists', 'os.path.lexists', 'os.path.isdir', 'os.path.isfile', 'os.path.islink',
}
NORAISE_METHODS = {
    'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'append', 'items', 'keys', 'values', 'get', 'copy', 'lower', 'upper', 'add',
    'split', 'rsplit', 'debug', 'info', 'warning', 'error', 'isEnabledFor', 'removeprefix', 'removesuffix', 'partition', 'rpartition',
    'update', 'extend', 'clear', 'replace', 'format', 'setdefault', 'discard', 'exception', 'log', 'insert', 'is_alive', 'print_exc',
}
MUTATORS = {'append', 'extend', 'add', 'update', 'insert', 'setdefault', 'discard', 'remove', 'clear', 'appendleft', 'pop', 'popitem', 'sort', 'reverse'}
CMP = {
    ast.Eq: ('==', False), ast.NotEq: ('==', True), ast.Lt: ('<', False), ast.GtE: ('<', True), ast.LtE: ('<=', False),
    ast.Gt: ('<=', True), ast.Is: ('is', False), ast.IsNot: ('is', True), ast.In: ('in', False), ast.NotIn: ('in', True),
}
TRANSPARENT_DECORATORS = {
    'overrides', 'staticmethod', 'classmethod', 'property', 'cached_property', 'wraps', 'lru_cache', 'cache',
    'abstractmethod', 'contextmanager', 'dataclass', 'setter', 'final', 'override',
}
CAP = 40
PER_RS = 6
DEPTH = 1  # factor for the number of states and steps, raised by the thorough tier


class Budget(Exception):
    pass


SEEK = {f"{m}.SEEK_{n}": i for m in ('io', 'os') for i, n in enumerate(('SET', 'CUR', 'END'))}


def ext_name(name) -> V:
    """A name of another package: the constants of seeking have the values guaranteed by the language."""
    return const(SEEK[name]) if name in SEEK else mk('ext', name)


def is_len(v: V) -> bool:
    return v.op == 'call' and call_name(v) == 'len'


class Flow:
    def __init__(self, prog: Program, rule: Rule, budget: Optional[int] = None):
        self.prog = prog
        self.rule = rule
        self.exc: List[List[Tuple[V, St]]] = []
        self.try_depth = 0
        self.loops: List[Optional[V]] = []
        self.frame: Optional[Frame] = None
        self.node: Any = None
        self.closures: List[Tuple[Any, Dict[str, V], Frame]] = []
        self.closure_defaults: Dict[int, Dict[str, V]] = {}
        self.closure_ids: Dict[Any, int] = {}
        self.sites: Dict[Any, int] = {}
        self.site_info: List[Tuple[str, str, int]] = []
        self.epoch: Tuple = ()
        self.steps = 0
        self.budget = (budget or 250_000) * DEPTH
        self.cap = CAP * DEPTH
        self.per_rs = PER_RS * DEPTH
        self.inlined = set()
        self.outer_values: List[V] = []
        self.entry_module: Optional[Module] = None
        self.live_cache: Dict[int, Any] = {}

    # ---- locations

    def where(self, node=None) -> str:
        node = node or self.node
        return f"{self.frame.module.rel}:{getattr(node, 'lineno', '?')} in {self.frame.func.qual if self.frame.func else '<lambda>'}"

    def site(self, node) -> int:
        key = (id(node), self.frame.ctx, self.epoch)
        s = self.sites.get(key)
        if s is None:
            s = len(self.site_info)
            self.sites[key] = s
            self.site_info.append(
                (self.frame.module.rel, self.frame.func.qual if self.frame.func else '?', getattr(node, 'lineno', 0))
            )
        return s

    def site_where(self, s: int) -> str:
        rel, q, line = self.site_info[s]
        return f"{rel}:{line} in {q}"

    # ---- state set management

    def dedupe(self, states: List[St]) -> List[St]:
        if len(states) <= 1:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        if len(seen) <= min(self.per_rs, 2):
            return list(seen.values())
        return self.merge(list(seen.values()))

    def merge(self, states: List[St]) -> List[St]:
        groups: Dict[Any, List[St]] = {}
        for s in states:
            groups.setdefault(s.rs, []).append(s)
        quota = max(1, min(self.per_rs, self.cap // len(groups)))
        out = []
        for g in groups.values():
            if len(g) <= quota:
                out.extend(g)
            else:
                out.append(self.join(g))
        return out

    def prune(self, st: St, live) -> St:
        """Forget dead locals, and branch facts about values which can no longer be referred to."""
        env = st.env
        if any(n not in live and n != '__current_exc__' for n in env):
            env = {n: v for n, v in env.items() if n in live or n == '__current_exc__'}
        facts = st.facts
        if facts:
            need = [k for k in facts if sited(k)]
            if need:
                reach = set()
                for v in env.values():
                    reach |= sited(v)
                    if v.op == 'closure':
                        for w in self.closures[v.args[0]][1].values():
                            reach |= sited(w)
                for k, v in st.heap.items():
                    reach |= sited(v)
                for v in self.outer_values:
                    reach |= sited(v)
                drop = [k for k in need if not (sited(k) & reach) and not self.rule.keep_fact(k)]
                if drop:
                    d = set(drop)
                    facts = {k: p for k, p in facts.items() if k not in d}
        if env is st.env and facts is st.facts:
            return st
        return St(env, facts, st.heap, st.rs)

    def join(self, g: List[St]) -> St:
        if len(g) == 1:
            return g[0]
        first = g[0]
        env = {}
        names = {n for s in g for n in s.env}
        for n in names:
            vals = {s.env.get(n) for s in g}
            if len(vals) == 1:
                env[n] = first.env.get(n)
            else:
                vals.discard(None)
                env[n] = self.phi(vals)
        facts = {k: v for k, v in first.facts.items() if all(s.facts.get(k) is v for s in g[1:])}
        heap = {}
        for k in {k for s in g for k in s.heap}:
            vals = {s.heap.get(k) for s in g}
            if len(vals) == 1:
                heap[k] = first.heap.get(k)
            else:
                if None in vals:
                    vals.discard(None)
                    vals.add(mk('attr', *k) if isinstance(k[1], str) else mk('sub', *k))
                heap[k] = self.phi(vals)
        return St(env, facts, heap, first.rs)

    @staticmethod
    def phi(vals) -> V:
        flat = set()
        for v in vals:
            if v.op == 'phi':
                flat.update(v.args[0])
            else:
                flat.add(v)
        if len(flat) == 1:
            return next(iter(flat))
        if len(flat) > 12:
            return mk('any', tuple(sorted(flat, key=lambda x: x.uid))[:12])
        return mk('phi', tuple(sorted(flat, key=lambda x: x.uid)))

    def merge_exc(self, excs: List[Tuple[V, St]]) -> List[Tuple[V, St]]:
        groups: Dict[Any, List] = {}
        for v, s in excs:
            kind = v if v.op != 'exc' else 'implicit'
            groups.setdefault((kind, s.rs), []).append((v, s))
        out = []
        for g in groups.values():
            uniq = {}
            for v, s in g:
                uniq.setdefault(s.key(), (v, s))
            g = list(uniq.values())
            if len(g) <= 2:
                out.extend(g)
            else:
                out.append((g[0][0], self.join([s for _, s in g])))
        return out

    # ---- entry

    def run(self, func: Func, cls: Optional[Class] = None, rs=None, args: Optional[Dict[str, V]] = None):
        """Analyse func as an entry point. Returns a list of (kind, value, state): kind in return|raise."""
        if rs is None:
            rs = self.rule.initial
        cls = cls or func.cls
        self.entry_module = func.module
        self_v = mk('self', cls) if cls is not None and not func.is_static else None
        st = St({}, {}, {}, rs)
        collector: List[Tuple[V, St]] = []
        self.exc.append(collector)
        base = Frame(func, func.module, func.cls, self_v, None, 0, (), ())
        self.frame = base
        pos = []
        kw = []
        a = func.node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        if self_v is not None:
            names = names[1:]
        args = args or {}
        for n in names:
            pos.append(args.get(n, mk('param', n)))
        for x in a.kwonlyargs:
            kw.append((x.arg, args.get(x.arg, mk('param', x.arg))))
        if a.vararg:
            pos.append(mk('star', mk('param', '*' + a.vararg.arg)))
        if a.kwarg:
            kw.append(('**', mk('param', '**' + a.kwarg.arg)))
        results = []
        try:
            fnv = self.method_value(func, self_v) if self_v is not None else self.func_value(func)
            for v, s in self.apply_value(fnv, tuple(pos), tuple(kw), st, func.node, entry=True):
                results.append(('return', v, s))
        finally:
            self.exc.pop()
        for v, s in collector:
            results.append(('raise', v, s))
        uniq = {}
        for k, v, s in results:
            uniq.setdefault((k, v, s.key()), (k, v, s))
        return list(uniq.values())

    # ---- decorated functions

    def func_value(self, func: Func) -> V:
        return mk('func', func)

    def method_value(self, func: Func, recv: V) -> V:
        return mk('bound', func, recv)

    def program_decorators(self, func: Func):
        out = []
        for d in func.decorators:
            name = dotted(d.func if isinstance(d, ast.Call) else d)
            if not name or name.split('.')[-1] in TRANSPARENT_DECORATORS:
                continue
            r = self.prog.resolve(func.module, name)
            if isinstance(r, Func):
                out.append(d)
        return out

    # ---- expressions

    def ev(self, node, st: St, fr: Frame) -> List[Tuple[V, St]]:
        self.steps += 1
        if self.steps > self.budget and self.per_rs > 1:
            # Degrade precision rather than fail: merge to one state per rule state (plain dataflow).
            self.per_rs = 1
        elif self.steps > 60 * self.budget:
            raise Budget()
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return [(mk('expr', type(node).__name__, self.site(node)), st)]
        return m(node, st, fr)

    def ev_list(self, nodes, st, fr) -> List[Tuple[Tuple[V, ...], St]]:
        acc = [((), st)]
        for n in nodes:
            nxt = []
            for vs, s in acc:
                for v, s2 in self.ev(n, s, fr):
                    nxt.append(((*vs, v), s2))
            acc = nxt
            if len(acc) > self.per_rs:
                acc = self._dedupe_pairs(acc)
        return acc

    def _dedupe_pairs(self, pairs):
        seen = {}
        for v, s in pairs:
            seen.setdefault((v, s.key()), (v, s))
        result = list(seen.values())
        if len(result) > self.per_rs:
            groups: Dict[Any, List] = {}
            for v, s in result:
                groups.setdefault((v, s.rs), []).append(s)
            result = []
            for (v, _), g in groups.items():
                result.extend((v, s) for s in (g if len(g) <= max(1, self.per_rs // 2) else [self.join(g)]))
            if len(result) > self.cap:
                byrs: Dict[Any, List] = {}
                for v, s in result:
                    byrs.setdefault(s.rs, []).append((v, s))
                result = []
                for g in byrs.values():
                    if len(g) <= 3:
                        result.extend(g)
                    else:
                        vals = {v for v, _ in g}
                        if all(isinstance(v, tuple) for v in vals):
                            width = {len(v) for v in vals}
                            if len(width) != 1:
                                result.extend(g)
                                continue
                            v = tuple(self.phi({x[i] for x in vals}) for i in range(width.pop()))
                        else:
                            v = self.phi(vals)
                        result.append((v, self.join([s for _, s in g])))
        return result

    def ev_Constant(self, node, st, fr):
        return [(const(node.value), st)]

    def ev_Name(self, node, st, fr):
        return [(self.lookup_name(node.id, st, fr), st)]

    def lookup_name(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        if name in fr.closure_env:
            return fr.closure_env[name]
        return self.module_name(fr.module, name)

    def module_name(self, m: Module, name: str) -> V:
        r = self.prog.resolve(m, name)
        return self.resolved_value(r, m, name)

    def resolved_value(self, r, m, name) -> V:
        if isinstance(r, Func):
            if r.cls is not None and not r.is_static:
                return mk('func', r)
            return mk('func', r)
        if isinstance(r, Class):
            return mk('cls', r)
        if isinstance(r, Module):
            return mk('mod', r)
        if isinstance(r, tuple) and r[0] == 'global':
            node = r[1].globals.get(r[2])
            v = self.static_const(node, r[1])
            return v if v is not None else mk('global', r[1].name, r[2])
        if isinstance(r, tuple) and r[0] == 'classattr':
            v = self.static_const(r[1].attrs[r[2]], r[1].module)
            return v if v is not None else mk('attr', mk('cls', r[1]), r[2])
        return ext_name(r)

    def static_const(self, node, m: Module) -> Optional[V]:
        if isinstance(node, ast.Constant):
            return const(node.value)
        if isinstance(node, (ast.Tuple, ast.List)):
            vs = [self.static_const(e, m) for e in node.elts]
            if all(v is not None for v in vs) and len(vs) <= 12:
                return mk('tuple' if isinstance(node, ast.Tuple) else 'list', tuple(vs))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant):
            return const(-node.operand.value)
        if isinstance(node, ast.JoinedStr):
            return None
        if isinstance(node, ast.BinOp):
            l, r = self.static_const(node.left, m), self.static_const(node.right, m)
            if l is not None and r is not None:
                return self.fold_bin(type(node.op).__name__, l, r)
        return None

    @staticmethod
    def fold_bin(op, l, r) -> V:
        if l.op == 'const' and r.op == 'const':
            a, b = cval(l), cval(r)
            try:
                if op == 'Add':
                    return const(a + b)
                if op == 'Sub':
                    return const(a - b)
                if op == 'Mult' and isinstance(a, int) and isinstance(b, int):
                    return const(a * b)
                if op == 'BitOr':
                    return const(a | b)
            except Exception:
                pass
        if op == 'Add' and l.op == r.op and l.op in ('tuple', 'list'):
            return mk(l.op, l.args[0] + r.args[0])
        if op == 'Mult' and l.op in ('tuple', 'list') and r.op == 'const' and isinstance(cval(r), int) and cval(r) <= 32:
            return mk(l.op, l.args[0] * cval(r))
        if op == 'Add' and {l.op, r.op} <= {'fstr', 'const'} and 'fstr' in (l.op, r.op):
            if all(x.op == 'fstr' or isinstance(cval(x), str) for x in (l, r)):
                return Flow.fold_str((l, r))
        return mk('bin', op, l, r)

    def ev_Attribute(self, node, st, fr):
        out = []
        for b, s in self.ev(node.value, st, fr):
            out.extend(self.attribute(b, node.attr, s, fr, node))
        return out

    def classes_of(self, v: V) -> List[Class]:
        if v.op == 'self':
            return [v.args[0]]
        if v.op == 'new':
            return [v.args[0]]
        if v.op == 'attr':
            out = []
            for c in self.classes_of(v.args[0]):
                for x in self.prog.attr_classes(c, v.args[1]):
                    if x not in out:
                        out.append(x)
            return out
        return []

    def attribute(self, b: V, name: str, st: St, fr: Frame, node) -> List[Tuple[V, St]]:
        self.frame, self.node = fr, node
        key = (b, name)
        if key in st.heap:
            rs = self.rule.on_attr(self, b, name, st)
            return [(st.heap[key], st.with_rs(rs))]
        if b.op == 'ext':
            return [(ext_name(f"{b.args[0]}.{name}"), st)]
        if b.op == 'mod':
            return [(self.module_name(b.args[0], name), st)]
        if b.op == 'super':
            self_v, owner = b.args
            c = self_v.args[0] if self_v.op == 'self' else None
            f = c.find_after(owner, name) if c is not None else None
            if f is not None and not f.is_abstract:
                return [(mk('bound', f, self_v), st)]
            return [(mk('supermethod', self_v, name), st)]
        if b.op == 'cls':
            c = b.args[0]
            f = c.find(name)
            if f is not None:
                return [(mk('func', f) if not f.is_classmethod else mk('bound', f, b), st)]
            a = c.find_attr(name)
            if a is not None:
                v = self.static_const(a[1], a[0].module)
                return [(v if v is not None else mk('attr', b, name), st)]
            return [(mk('attr', b, name), st)]
        cs = self.classes_of(b)
        if b.op == 'self' or (len(cs) == 1 and cs[0].name in self.rule.attr_classes_inline):
            c = cs[0]
            f = c.find(name)
            if f is not None:
                if f.is_property:
                    return self.apply_value(mk('bound', f, b), (), (), st, node)
                if f.is_static:
                    return [(mk('func', f), st)]
                return [(mk('bound', f, b), st)]
            a = c.find_attr(name)
            if a is not None and not any(name in k.attrTypes for k in c.mro()):
                v = self.static_const(a[1], a[0].module)
                if v is not None:
                    return [(v, st)]
        rs = self.rule.on_attr(self, b, name, st)
        if b.op == 'phi' and len(b.args[0]) <= 4 and any((x, name) in st.heap for x in b.args[0]):
            return [(self.phi({st.heap.get((x, name), mk('attr', x, name)) for x in b.args[0]}), st.with_rs(rs))]
        return [(mk('attr', b, name), st.with_rs(rs))]

    def ev_Subscript(self, node, st, fr):
        out = []
        for b, s in self.ev(node.value, st, fr):
            for i, s2 in self.ev(node.slice, s, fr):
                v = self.subscript(b, i, s2)
                self.frame, self.node = fr, node
                self.rule.on_subscript(self, b, i, s2)
                if self.rule.subscript_raises and v.op == 'sub' and i.op != 'slice':
                    self.frame, self.node = fr, node
                    self.emit_exc(mk('exc', 'subscript', self.site(node)), s2)
                out.append((v, s2))
        return out

    def subscript(self, b, i, st):
        if (b, i) in st.heap:
            return st.heap[(b, i)]
        if b.op in ('tuple', 'list') and i.op == 'const' and isinstance(cval(i), int):
            items = b.args[0]
            k = cval(i)
            if -len(items) <= k < len(items) and not any(x.op == 'star' for x in items):
                return items[k]
        if b.op in ('tuple', 'list') and i.op == 'slice' and all(x.op == 'const' for x in i.args):
            if not any(x.op == 'star' for x in b.args[0]):
                try:
                    return mk(b.op, tuple(b.args[0][slice(*[cval(x) for x in i.args])]))
                except Exception:
                    pass
        if b.op == 'dict':
            for k, v in b.args[0]:
                if k is i:
                    return v
        return mk('sub', b, i)

    def ev_Slice(self, node, st, fr):
        acc = self.ev_list([n if n is not None else ast.Constant(value=None) for n in (node.lower, node.upper, node.step)], st, fr)
        return [(mk('slice', *vs), s) for vs, s in acc]

    def ev_Tuple(self, node, st, fr):
        return self._seq('tuple', node, st, fr)

    def ev_List(self, node, st, fr):
        return self._seq('list', node, st, fr)

    def ev_Set(self, node, st, fr):
        return self._seq('set', node, st, fr)

    def _seq(self, op, node, st, fr):
        out = []
        for vs, s in self.ev_list(node.elts, st, fr):
            items = []
            for v in vs:
                if v.op == 'star' and v.args[0].op in ('tuple', 'list'):
                    items.extend(v.args[0].args[0])
                else:
                    items.append(v)
            out.append((mk(op, tuple(items)), s))
        return out

    def ev_Starred(self, node, st, fr):
        return [(mk('star', v), s) for v, s in self.ev(node.value, st, fr)]

    def ev_Dict(self, node, st, fr):
        out = []
        keys = [k if k is not None else ast.Constant(value='**') for k in node.keys]
        for ks, s in self.ev_list(keys, st, fr):
            for vs, s2 in self.ev_list(node.values, s, fr):
                items = []
                for kn, k, v in zip(node.keys, ks, vs):
                    if kn is None and v.op == 'dict':
                        items.extend(v.args[0])
                    else:
                        items.append((k if kn is not None else mk('dstar'), v))
                out.append((mk('dict', tuple(items)), s2))
        return out

    def ev_JoinedStr(self, node, st, fr):
        parts = []
        for x in node.values:
            parts.append(x.value if isinstance(x, ast.FormattedValue) else x)
        return [(self.fold_str(vs), s) for vs, s in self.ev_list(parts, st, fr)]

    @staticmethod
    def fold_str(parts) -> V:
        flat: List[V] = []
        for x in parts:
            items = x.args[0] if x.op == 'fstr' else (x,)
            for y in items:
                if flat and y.op == 'const' and flat[-1].op == 'const':
                    flat[-1] = const(str(cval(flat[-1])) + str(cval(y)))
                else:
                    flat.append(y)
        if not flat:
            return const('')
        if len(flat) == 1 and flat[0].op == 'const':
            return const(str(cval(flat[0])))
        return mk('fstr', tuple(flat))

    def ev_FormattedValue(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def ev_BinOp(self, node, st, fr):
        out = []
        for l, s in self.ev(node.left, st, fr):
            for r, s2 in self.ev(node.right, s, fr):
                out.append((self.fold_bin(type(node.op).__name__, l, r), s2))
        return out

    def ev_UnaryOp(self, node, st, fr):
        if isinstance(node.op, ast.Not):
            return self._bool_value(node, st, fr)
        out = []
        for v, s in self.ev(node.operand, st, fr):
            if isinstance(node.op, ast.USub) and v.op == 'const' and isinstance(cval(v), (int, float)):
                out.append((const(-cval(v)), s))
            else:
                out.append((mk('un', type(node.op).__name__, v), s))
        return out

    def _bool_value(self, node, st, fr):
        t, f = self.branch(node, st, fr)
        return [(TRUE, s) for s in t] + [(FALSE, s) for s in f]

    def ev_BoolOp(self, node, st, fr):
        # value semantics: `a or b`
        isOr = isinstance(node.op, ast.Or)
        out = []
        cur = [st]
        for i, e in enumerate(node.values):
            nxt = []
            for s in cur:
                for v, s2 in self.ev(e, s, fr):
                    if i == len(node.values) - 1:
                        out.append((v, s2))
                        continue
                    ts, fs = self.split(v, s2, fr, e)
                    stop, go = (ts, fs) if isOr else (fs, ts)
                    for x in stop:
                        out.append((v, x))
                    nxt.extend(go)
            cur = self.dedupe(nxt)
        return self._dedupe_pairs(out) if len(out) > self.cap else out

    def ev_Compare(self, node, st, fr):
        if len(node.ops) == 1:
            out = []
            for c, flip, s in self.compare(node, st, fr):
                if c.op == 'const':
                    out.append((const(bool(cval(c)) != flip), s))
                else:
                    out.append((mk('un', 'Not', c) if flip else c, s))
            return out
        return self._bool_value(node, st, fr)

    def compare(self, node, st, fr):
        op = type(node.ops[0])
        for l, s in self.ev(node.left, st, fr):
            for r, s2 in self.ev(node.comparators[0], s, fr):
                name, flip = CMP[op]
                if l.op == 'const' and r.op != 'const' and name != 'in':
                    # 1 < x is the same as not x <= 1
                    l, r = r, l
                    if name in ('<', '<='):
                        name, flip = '<=' if name == '<' else '<', not flip
                yield self.cmp(name, l, r, s2), flip, s2

    def cmp(self, name, l, r, st) -> V:
        if l.op == 'const' and r.op == 'const':
            a, b = cval(l), cval(r)
            try:
                if name == '==':
                    return const(a == b)
                if name == 'is':
                    return const(a is b or (a == b and type(a) is type(b)))
                if name == '<':
                    return const(a < b)
                if name == '<=':
                    return const(a <= b)
                if name == 'in':
                    return const(a in b)
            except Exception:
                pass
        if name in ('<', '<=') and isinstance(cval(r), int) and is_len(l) and (cval(r) < 0 or (cval(r) == 0 and name == '<')):
            return FALSE
        if name in ('<', '<=') and isinstance(cval(l), int) and is_len(r) and (cval(l) < 0 or (cval(l) == 0 and name == '<=')):
            return TRUE
        if name == 'in' and r.op in ('tuple', 'list', 'set') and l.op == 'const' and all(x.op == 'const' for x in r.args[0]):
            return const(any(x is l for x in r.args[0]))
        if name == 'in' and r.op == 'dict' and l.op == 'const':
            if any(k is l for k, _ in r.args[0]):
                return TRUE
            if all(k.op == 'const' for k, _ in r.args[0]):
                return FALSE
        if name == 'is' and r is NONE:
            n = self.noneness(l, st)
            if n is not None:
                return const(n)
        if name == '==' and l is r:
            return TRUE
        return mk('cmp', name, l, r)

    def noneness(self, v, st) -> Optional[bool]:
        if v.op == 'const':
            return cval(v) is None
        if v.op in ('tuple', 'list', 'dict', 'set', 'fstr', 'func', 'cls', 'bound', 'closure', 'new', 'self', 'comp', 'bin', 'cmp', 'un'):
            return False
        f = st.facts.get(mk('cmp', 'is', v, NONE))
        if f is not None:
            return f
        if st.facts.get(v) is True:
            return False
        return None

    def ev_IfExp(self, node, st, fr):
        t, f = self.branch(node.test, st, fr)
        out = []
        for s in t:
            out.extend(self.ev(node.body, s, fr))
        for s in f:
            out.extend(self.ev(node.orelse, s, fr))
        return out

    def ev_NamedExpr(self, node, st, fr):
        return [(v, self.assign(node.target, v, s, fr)) for v, s in self.ev(node.value, st, fr)]

    def ev_Lambda(self, node, st, fr):
        return [(self.closure(node, st, fr), st)]

    def closure(self, node, st, fr) -> V:
        env = dict(fr.closure_env)
        env.update(st.env)
        key = (id(node), fr.ctx, frozenset(env.items()))
        idx = self.closure_ids.get(key)
        if idx is None:
            idx = len(self.closures)
            self.closures.append((node, env, fr))
            self.closure_ids[key] = idx
            self.closure_defaults[idx] = self.defaults_of(node, st, fr)
        return mk('closure', idx)

    def defaults_of(self, node, st, fr) -> Dict[str, V]:
        """Default values which are variables of the surrounding function or attributes of them."""
        a = node.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        pairs = list(zip(names[len(names) - len(a.defaults) :], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        out = {}
        for n, d in pairs:
            if isinstance(d, (ast.Name, ast.Attribute)) and dotted(d):
                vals = {v for v, _ in self.ev(d, st, fr)}
                if len(vals) == 1:
                    out[n] = vals.pop()
        return out

    def ev_Await(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def ev_Yield(self, node, st, fr):
        out = []
        vals = self.ev(node.value, st, fr) if node.value is not None else [(NONE, st)]
        for v, s in vals:
            self.frame, self.node = fr, node
            s = s.with_rs(self.rule.on_yield(self, v, s))
            out.append((mk('sent', self.site(node)), s))
        return out

    def ev_YieldFrom(self, node, st, fr):
        return self.ev_Yield(node, st, fr)

    def _comp(self, kind, node, elts, st, fr):
        """Comprehension: conditions and element evaluated for an arbitrary item; zero iterations are possible too."""
        self.frame, self.node = fr, node
        outer_env = st.env
        states = [((), st)]
        empties: List[St] = []
        ep = self.epoch
        self.epoch = (*ep, ('c', id(node)))
        try:
            for g in node.generators:
                nxt = []
                for its, s in states:
                    for it, s2 in self.ev(g.iter, s, fr):
                        self.frame, self.node = fr, g.iter
                        s2 = s2.with_rs(self.rule.on_iter(self, it, s2))
                        empties.append(s2)
                        item = self.item_of(it, g.iter)
                        cur = [self.assign(g.target, item, s2.with_rs(self.rule.on_item(self, it, item, s2)), fr)]
                        for cond in g.ifs:
                            nx = []
                            for c in cur:
                                t, f = self.branch(cond, c, fr)
                                nx.extend(t)
                                empties.extend(f)
                            cur = self.dedupe(nx)
                        nxt.extend(((*its, it), c) for c in cur)
                states = nxt
            out = []
            for its, s in states:
                for vs, s2 in self.ev_list(elts, s, fr):
                    conds = tuple(
                        (k, p) for k, p in s2.facts.items() if k not in st.facts
                    ) if any(g.ifs for g in node.generators) else ()
                    out.append((mk('comp', kind, vs, its, conds), s2.with_env(outer_env)))
        finally:
            self.epoch = ep
        # Join: the comprehension's value is one term; rule states of zero iterations are kept separate.
        results = []
        byrs: Dict[Any, List] = {}
        for v, s in out:
            byrs.setdefault(s.rs, []).append((v, s))
        base_vals = {v for v, _ in out}
        v0 = self.phi(base_vals) if base_vals else mk('comp', kind, (), (), ())
        for rs in byrs:
            results.append((v0, St(outer_env, st.facts, byrs[rs][0][1].heap, rs)))
        for e in empties:
            if e.rs not in byrs:
                byrs[e.rs] = []
                results.append((v0, St(outer_env, st.facts, e.heap, e.rs)))
        return results

    def ev_ListComp(self, node, st, fr):
        return self._comp('list', node, [node.elt], st, fr)

    def ev_SetComp(self, node, st, fr):
        return self._comp('set', node, [node.elt], st, fr)

    def ev_GeneratorExp(self, node, st, fr):
        return self._comp('gen', node, [node.elt], st, fr)

    def ev_DictComp(self, node, st, fr):
        return self._comp('dict', node, [node.key, node.value], st, fr)

    def item_of(self, it: V, node) -> V:
        s = self.site(node)
        if it.op == 'call':
            n = call_name(it)
            a = call_args(it)
            if n == 'enumerate' and a:
                return mk('tuple', (mk('index', a[0], s), self.item_of(a[0], node)))
            if n == 'zip' and a:
                return mk('tuple', tuple(self.item_of(x, node) for x in a))
            if n in ('reversed', 'sorted', 'list', 'tuple', 'iter', 'set') and a:
                return self.item_of(a[0], node)
            if n == '.items' and not a:
                r = call_recv(it)
                return mk('tuple', (mk('key', r, s), mk('item', r, s)))
            if n == '.values' and not a:
                return mk('item', call_recv(it), s)
            if n == '.keys' and not a:
                return mk('key', call_recv(it), s)
        if it.op == 'comp' and it.args[0] in ('list', 'gen', 'set') and len(it.args[1]) == 1:
            return it.args[1][0]
        if it.op in ('tuple', 'list') and len({*it.args[0]}) == 1:
            return it.args[0][0]
        if it.op in ('tuple', 'list') and it.args[0]:
            return self.phi(set(it.args[0]))
        return mk('iter', it, s)

    # ---- calls

    def ev_Call(self, node, st, fr):
        out = []
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args and fr.self_v is not None:
            return [(mk('super', fr.self_v, fr.owner), st)]
        recvName = node.func.value.id if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) else None
        for fn, s in self.ev(node.func, st, fr):
            for args, s2 in self.ev_list(node.args, s, fr):
                pos = []
                for a in args:
                    if a.op == 'star' and a.args[0].op in ('tuple', 'list'):
                        pos.extend(a.args[0].args[0])
                    else:
                        pos.append(a)
                for kwvals, s3 in self.ev_list([k.value for k in node.keywords], s2, fr):
                    kw = []
                    for k, v in zip(node.keywords, kwvals):
                        if k.arg is None:
                            if v.op == 'dict' and all(x.op == 'const' for x, _ in v.args[0]):
                                kw.extend((cval(x), y) for x, y in v.args[0])
                            else:
                                kw.append(('**', v))
                        else:
                            kw.append((k.arg, v))
                    self.frame, self.node = fr, node
                    res = self.apply_value(fn, tuple(pos), tuple(kw), s3, node)
                    self.frame = fr
                    if (
                        recvName
                        and fn.op == 'attr'
                        and fn.args[1] in MUTATORS
                        and recvName in st.env
                        and fn.args[0] is st.env[recvName]
                        and fn.args[0].op in ('list', 'dict', 'set', 'upd', 'tuple', 'comp', 'phi', 'call', 'loopvar')
                    ):
                        old = fn.args[0]
                        if fn.args[1] == 'append' and old.op == 'list' and len(old.args[0]) < 12 and len(pos) == 1:
                            nv = mk('list', (*old.args[0], pos[0]))
                        else:
                            extra = (mk('dict', tuple((const(k), v) for k, v in kw)),) if kw else ()
                            nv = mk('upd', fn.args[1], old, (*pos, *extra))
                        res = [(v, s4.set(recvName, nv)) for v, s4 in res]
                    out.extend(res)
        return out if len(out) <= self.per_rs else self._dedupe_pairs(out)

    def apply_value(self, fn: V, pos, kw, st: St, node, entry=False) -> List[Tuple[V, St]]:
        fr = self.frame
        if fn.op == 'func':
            return self.apply_func(fn.args[0], None, pos, kw, st, node, fn, entry)
        if fn.op == 'bound':
            return self.apply_func(fn.args[0], fn.args[1], pos, kw, st, node, fn, entry)
        if fn.op == 'rawbound':
            return self.apply_func(fn.args[0], fn.args[1], pos, kw, st, node, mk('bound', *fn.args), entry, raw=True)
        if fn.op == 'rawfunc':
            # undecorated method passed to a decorator: first positional argument is the receiver
            if fn.args[0].cls is None:
                return self.apply_func(fn.args[0], None, pos, kw, st, node, fn, entry, raw=True)
            return self.apply_func(fn.args[0], pos[0] if pos else None, pos[1:], kw, st, node, fn, entry, raw=True)
        if fn.op == 'closure':
            return self.apply_closure(fn, pos, kw, st, node)
        if fn.op == 'cls':
            return self.apply_class(fn.args[0], pos, kw, st, node)
        if fn.op == 'phi' and len(fn.args[0]) <= 4:
            out = []
            for f in fn.args[0]:
                self.frame = fr
                out.extend(self.apply_value(f, pos, kw, st, node))
            return out
        if fn.op == 'ext':
            name = fn.args[0]
            if name in ('getattr',) and len(pos) >= 2 and pos[1].op == 'const' and isinstance(cval(pos[1]), str):
                res = self.attribute(pos[0], cval(pos[1]), st, fr, node)
                return res
            if name == 'setattr' and len(pos) == 3 and pos[1].op == 'const':
                rs = self.rule.on_store(self, pos[0], cval(pos[1]), pos[2], st)
                return [(NONE, st.with_rs(rs).store((pos[0], cval(pos[1])), pos[2]))]
            if name == 'typing.cast' and len(pos) == 2:
                return [(pos[1], st)]
            if name == 'functools.partial' and pos:
                return [(mk('partial', pos[0], pos[1:], kw), st)]
            if name == 'bool' and len(pos) == 1:
                t = self.truth(pos[0], st)
                if t is not None:
                    return [(const(t), st)]
            if name == 'len' and len(pos) == 1 and pos[0].op in ('tuple', 'list') and not any(x.op == 'star' for x in pos[0].args[0]):
                return [(const(len(pos[0].args[0])), st)]
            if name == 'dict' and not pos and all(k != '**' for k, _ in kw):
                return [(mk('dict', tuple((const(k), v) for k, v in kw)), st)]
            if name == 'inspect.signature' and len(pos) == 1:
                names = self.signature_of(pos[0])
                if names is not None:
                    params = mk('dict', tuple((const(n), mk('ext', 'inspect.Parameter')) for n in names))
                    v = mk('signature', params)
                    return [(v, st.store((v, 'parameters'), params))]
            if name in ('list', 'tuple', 'iter') and len(pos) == 1 and pos[0].op == 'dict' and len(pos[0].args[0]) <= 16:
                if all(k.op == 'const' for k, _ in pos[0].args[0]):
                    return [(mk('tuple' if name == 'tuple' else 'list', tuple(k for k, _ in pos[0].args[0])), st)]
            if name in ('list', 'tuple') and len(pos) == 1 and pos[0].op in ('list', 'tuple'):
                return [(mk(name, pos[0].args[0]), st)]
            if name in ('list', 'tuple') and not pos:
                return [(mk(name, ()), st)]
        if fn.op == 'attr' and fn.args[1] == 'join' and fn.args[0].op == 'const' and len(pos) == 1:
            seq = pos[0]
            if seq.op in ('tuple', 'list') and len(seq.args[0]) <= 32 and isinstance(cval(fn.args[0]), str):
                if all(x.op in ('fstr', 'const') for x in seq.args[0]):
                    parts: List[V] = []
                    for n, x in enumerate(seq.args[0]):
                        if n:
                            parts.append(fn.args[0])
                        parts.append(x)
                    return [(self.fold_str(parts), st)]
        if fn.op == 'attr' and fn.args[0].op == 'dict' and fn.args[1] in ('items', 'keys', 'values') and not pos:
            d = fn.args[0].args[0]
            if len(d) <= 8 and all(k.op == 'const' for k, _ in d):
                sel = {'items': lambda k, v: mk('tuple', (k, v)), 'keys': lambda k, v: k, 'values': lambda k, v: v}[fn.args[1]]
                return [(mk('tuple', tuple(sel(k, v) for k, v in d)), st)]
        if fn.op == 'attr' and fn.args[1] == 'index' and fn.args[0].op in ('list', 'tuple') and len(pos) == 1:
            items = fn.args[0].args[0]
            if pos[0].op == 'const' and all(x.op == 'const' for x in items) and pos[0] in items:
                return [(const(items.index(pos[0])), st)]
        if fn.op == 'partial':
            return self.apply_value(fn.args[0], (*fn.args[1], *pos), (*fn.args[2], *kw), st, node)
        if fn.op == 'attr' and fn.args[0].op == 'dict' and fn.args[1] == 'get' and pos and pos[0].op == 'const':
            for k, v in fn.args[0].args[0]:
                if k is pos[0]:
                    return [(v, st)]
            if all(k.op == 'const' for k, _ in fn.args[0].args[0]):
                return [(pos[1] if len(pos) > 1 else NONE, st)]
        return self.opaque(fn, pos, kw, st, node)

    def signature_of(self, v: V) -> Optional[List[str]]:
        """Parameter names of a program function, following functools.wraps."""
        if v.op in ('rawfunc', 'func', 'bound', 'rawbound'):
            a = v.args[0].node.args
            names = [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
            return names[1:] if v.op in ('bound', 'rawbound') else names
        if v.op == 'closure':
            cnode, env, _ = self.closures[v.args[0]]
            for d in getattr(cnode, 'decorator_list', ()):
                if isinstance(d, ast.Call) and (dotted(d.func) or '').split('.')[-1] == 'wraps' and d.args:
                    if isinstance(d.args[0], ast.Name) and d.args[0].id in env:
                        return self.signature_of(env[d.args[0].id])
            a = cnode.args
            return [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
        return None

    def is_pure(self, fn: V) -> bool:
        if fn.op == 'ext':
            return fn.args[0] in PURE_EXT
        if fn.op == 'attr':
            return fn.args[1] in PURE_METHODS
        return False

    def opaque(self, fn, pos, kw, st, node) -> List[Tuple[V, St]]:
        if fn.op == 'attr' and fn.args[1] == 'join' and fn.args[0] is mk('ext', 'os.path'):
            fn = mk('ext', 'os.path.join')
        call = mk('call', fn, pos, kw, None if self.is_pure(fn) else self.site(node))
        rs_ok, rs_exc = self.rule.on_call(self, call, st)
        if fn is mk('ext', 'sys.exit'):
            self.exc[-1].append((mk('raised', mk('ext', 'SystemExit'), pos, self.site(node)), st.with_rs(rs_exc)))
            return []
        if self.can_raise(fn) and self.rule.may_raise(self, call):
            self.emit_exc(mk('exc', call_name(fn), self.site(node)), st.with_rs(rs_exc))
        st = st.with_rs(rs_ok)
        if self.rule.forget_stored:
            st = self.forget(st, fn, pos, kw)
        v = self.rule.value(self, call, st)
        return [(v if v is not None else call, st)]

    def forget(self, st: St, fn, pos, kw) -> St:
        """Forgets what is known about attributes which the called methods, or methods handed to them, may store to."""
        names = set()
        for v in (fn, *pos, *(x for _, x in kw)):
            for x in subterms(v):
                if x.op == 'bound' and x.args[1].op == 'self':
                    names |= self.stored_names(x.args[0], x.args[1].args[0] if x.args[1].args else x.args[0].cls)
        if not names:
            return st
        heap = {k: v for k, v in st.heap.items() if not (isinstance(k, tuple) and len(k) == 2 and k[0].op == 'self' and k[1] in names)}
        facts = {k: p for k, p in st.facts.items() if not any(x.op == 'attr' and x.args[0].op == 'self' and x.args[1] in names for x in subterms(k))}
        return St(st.env, facts, heap, st.rs)

    def stored_names(self, func: Func, cls) -> frozenset:
        key = (func, cls)
        cache = self.__dict__.setdefault('_stored_names', {})
        if key not in cache:
            cache[key] = frozenset()
            out = set()
            for n in ast.walk(func.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                    if isinstance(n.ctx, (ast.Store, ast.Del)):
                        out.add(n.attr)
                    elif cls is not None and func.params and n.value.id == func.params[0]:
                        m = cls.find(n.attr)
                        if m is not None:
                            out |= self.stored_names(m, cls)
            cache[key] = frozenset(out)
        return cache[key]

    def can_raise(self, fn) -> bool:
        if fn.op == 'ext' and fn.args[0] in NORAISE_EXT:
            return False
        if fn.op == 'attr' and (fn.args[1] in NORAISE_METHODS):
            return False
        if fn.op == 'attr' and fn.args[0].op == 'global' and fn.args[0].args[1] == 'logger':
            return False
        return True

    def emit_exc(self, exc: V, st: St):
        if self.try_depth == 0 and not self.rule.exc_exits:
            return
        self.exc[-1].append((exc, st))

    def apply_class(self, cls: Class, pos, kw, st, node):
        v = mk('new', cls, pos, kw, self.site(node))
        init = cls.find('__init__')
        if init is not None and self.rule.inline_new(self, cls) and self.can_inline(init):
            out = []
            for _, s in self.apply_func(init, v, pos, kw, st, node, mk('bound', init, v)):
                out.append((v, s))
            return out
        call = mk('call', mk('cls', cls), pos, kw, self.site(node))
        rs_ok, rs_exc = self.rule.on_call(self, call, st)
        simple = any('namedtuple' in b.lower() for b in cls.all_ext_bases()) or 'dataclass' in {
            (dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] for d in cls.node.decorator_list
        }
        if not simple and self.rule.may_raise(self, call):
            self.emit_exc(mk('exc', cls.name, self.site(node)), st.with_rs(rs_exc))
        return [(v, st.with_rs(rs_ok))]

    def can_inline(self, func: Func) -> bool:
        fr = self.frame
        if fr.depth >= self.rule.max_depth:
            return False
        if func in fr.stack:
            return False
        return True

    def apply_func(self, func: Func, recv, pos, kw, st, node, fnv, entry=False, raw=False):
        fr = self.frame
        if not raw:
            decs = self.program_decorators(func)
            if decs and (entry or (self.can_inline(func) and self.rule.inline(self, func, recv))):
                # value = d1(d2(func)); evaluate decorators inside the function's module
                base = mk('rawfunc', func)
                mf = Frame(func, func.module, func.cls, None, None, fr.depth, fr.stack, fr.ctx)
                vals = [(base, st)]
                for d in reversed(decs):
                    nxt = []
                    for v, s in vals:
                        # Decorators run once when the module is imported; their exceptions are no exits of the call.
                        self.exc.append([])
                        try:
                            for dv, s2 in self.ev(d, s.with_env({}), mf):
                                self.frame = mf
                                self.node = d
                                nxt.extend(self.apply_value(dv, (v,), (), s2, d))
                        finally:
                            self.exc.pop()
                    vals = nxt
                out = []
                for v, s in vals:
                    self.frame = fr
                    args = (recv, *pos) if recv is not None else pos
                    out.extend((r, s2.with_env(st.env)) for r, s2 in self.apply_value(v, args, kw, s.with_env(st.env), node))
                self.frame = fr
                return out
        isStub = func.is_abstract
        if (not entry and not (self.can_inline(func) and self.rule.inline(self, func, recv))) or (isStub and not entry):
            return self.opaque(fnv, pos, kw, st, node)
        # A plain function object of a method called with explicit receiver: Class.method(self, ...)
        if recv is None and func.cls is not None and not func.is_static and pos:
            recv, pos = pos[0], pos[1:]
        return self.inline_call(func.node, func, func.module, func.cls, recv, pos, kw, st, node, {})

    def apply_closure(self, fn, pos, kw, st, node):
        cnode, env, dfr = self.closures[fn.args[0]]
        fr = self.frame
        if fr.depth >= self.rule.max_depth or fn in fr.stack:
            return self.opaque(fn, pos, kw, st, node)
        env = dict(env)
        if dfr.ctx == fr.ctx:
            env.update(st.env)
        defaults = self.closure_defaults.get(fn.args[0])
        if defaults and not any(p.op == 'star' for p in pos) and not any(k == '**' for k, _ in kw):
            given = {x.arg for x in (*cnode.args.posonlyargs, *cnode.args.args)[: len(pos)]} | {k for k, _ in kw}
            kw = (*kw, *((n, v) for n, v in defaults.items() if n not in given))
        return self.inline_call(cnode, None, dfr.module, dfr.owner, None, pos, kw, st, node, env, dfr, fn)

    def bind(self, anode, func, recv, pos, kw, st, module, node) -> Tuple[Dict[str, V], Dict[str, V]]:
        a = anode.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        env: Dict[str, V] = {}
        selfName = None
        if func is not None and func.cls is not None and not func.is_static and recv is not None and names:
            selfName = names[0]
            env[selfName] = recv
            names = names[1:]
        pos = list(pos)
        i = 0
        star = None
        rest: List[V] = []
        for p in pos:
            if p.op == 'star':
                star = p
                break
            if i < len(names):
                env[names[i]] = p
                i += 1
            else:
                rest.append(p)
        kwd = dict(x for x in kw if x[0] != '**')
        dstar = [v for k, v in kw if k == '**']
        for n in [*names[i:], *[x.arg for x in a.kwonlyargs]]:
            if n in kwd:
                env[n] = kwd.pop(n)
        defaults: Dict[str, Any] = {}
        allpos = [x.arg for x in (*a.posonlyargs, *a.args)]
        for n, d in zip(allpos[len(allpos) - len(a.defaults) :], a.defaults):
            defaults[n] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in [*names[i:], *[x.arg for x in a.kwonlyargs]]:
            if n in env:
                continue
            if star is not None:
                env[n] = mk('unpackarg', star.args[0], n)
            elif dstar:
                env[n] = mk('kwget', dstar[0], n)
            elif n in defaults:
                v = self.static_const(defaults[n], module)
                if v is None:
                    d = dotted(defaults[n])
                    v = self.module_name(module, d) if d and '.' not in d else mk('default', n, self.site(defaults[n]))
                env[n] = v
            else:
                env[n] = mk('missing', n, self.site(node))
        if a.vararg:
            items = tuple(rest) + ((star,) if star is not None else ())
            if len(items) == 1 and items[0].op == 'star':
                env[a.vararg.arg] = items[0].args[0]
            else:
                env[a.vararg.arg] = mk('tuple', items)
        if a.kwarg:
            if len(dstar) == 1 and not kwd:
                env[a.kwarg.arg] = dstar[0]
            else:
                env[a.kwarg.arg] = mk(
                    'dict', tuple((const(k), v) for k, v in kwd.items()) + tuple((mk('dstar'), v) for v in dstar)
                )
        return env, selfName

    def inline_call(self, fnode, func, module, owner, recv, pos, kw, st, node, closure_env, dfr=None, tag=None):
        caller = self.frame
        caller_env = st.env
        cs = self.site(node)
        env, selfName = self.bind(fnode, func, recv, pos, kw, st, module, node)
        self_v = recv if func is not None and func.cls is not None else (dfr.self_v if dfr else None)
        tag = func if func is not None else (tag or fnode)
        fr = Frame(
            func or (dfr.func if dfr else None),
            module,
            owner,
            self_v,
            selfName,
            caller.depth + 1,
            (*caller.stack, tag),
            (*caller.ctx, cs)[-6:],
            closure_env,
        )
        self.inlined.add(func.where if func is not None else f"{module.rel}:<closure:{getattr(fnode, 'name', 'lambda')}>")
        self.frame = fr
        if func is not None:
            st = st.with_rs(self.rule.on_enter(self, func, env, st))
        ist = St(env, st.facts, st.heap, st.rs)
        collector: List[Tuple[V, St]] = []
        self.exc.append(collector)
        results: List[Tuple[V, St]] = []
        mark = len(self.outer_values)
        self.outer_values.extend(caller_env.values())
        self.outer_values.extend(env.values())
        try:
            if isinstance(fnode, ast.Lambda):
                results = self.ev(fnode.body, ist, fr)
            else:
                o = self.block(fnode.body, [ist], fr)
                results = o.ret + [(NONE, s) for s in o.normal]
                if func is not None and func.is_generator or (func is None and _is_gen(fnode)):
                    results = [(mk('gen', tag if isinstance(tag, Func) else id(fnode), cs), s) for _, s in results]
        finally:
            self.exc.pop()
            self.frame = caller
            del self.outer_values[mark:]
        out = []
        for v, s in results:
            if func is not None:
                s = s.with_rs(self.rule.on_leave(self, func, v, s))
            out.append((v, s.with_env(caller_env)))
        for v, s in self.merge_exc(collector):
            if func is not None:
                s = s.with_rs(self.rule.on_leave(self, func, None, s))
            self.exc[-1].append((v, s.with_env(caller_env)))
        return self._dedupe_pairs(out)

    # ---- conditions

    def truth(self, v: V, st: St) -> Optional[bool]:
        if v.op == 'const':
            return bool(cval(v))
        if v.op in ('tuple', 'list', 'set'):
            items = v.args[0]
            if not items:
                return False
            if any(x.op != 'star' for x in items):
                return True
            return None
        if v.op == 'dict':
            return bool(v.args[0]) if all(k.op != 'dstar' for k, _ in v.args[0]) else None
        if v.op in ('func', 'cls', 'bound', 'closure', 'self', 'super', 'mod'):
            return True
        if v.op == 'un' and v.args[0] == 'Not':
            t = self.truth(v.args[1], st)
            return None if t is None else not t
        if v.op == 'cmp' and v.args[0] == 'is' and v.args[2] is NONE:
            n = self.noneness(v.args[1], st)
            if n is not None:
                return n
        f = st.facts.get(v)
        if f is not None:
            return f
        if st.facts.get(mk('cmp', 'is', v, NONE)) is True:
            return False
        if v.op == 'cmp' and v.args[0] == '==' and v.args[2].op == 'const':
            # x == c1 known true implies x == c2 is false
            for k, p in st.facts.items():
                if p and k.op == 'cmp' and k.args[0] == '==' and k.args[1] is v.args[1] and k.args[2].op == 'const':
                    return k.args[2] is v.args[2]
        return None

    def assume(self, v: V, pol: bool, st: St, fr, node) -> Optional[St]:
        if v.op == 'un' and v.args[0] == 'Not':
            return self.assume(v.args[1], not pol, st, fr, node)
        t = self.truth(v, st)
        if t is not None:
            if t != pol:
                return None
            return st
        self.frame, self.node = fr, node
        if not self.rule.feasible(self, v, pol, st):
            return None
        st = st.fact(v, pol)
        if v.op == 'cmp' and v.args[0] == '==' and pol and v.args[2].op == 'const' and v.args[1].op in ('param', 'attr'):
            pass
        return st.with_rs(self.rule.on_assume(self, v, pol, st))

    def split(self, v: V, st: St, fr, node) -> Tuple[List[St], List[St]]:
        t = self.assume(v, True, st, fr, node)
        f = self.assume(v, False, st, fr, node)
        return ([t] if t is not None else []), ([f] if f is not None else [])

    def branch(self, node, st: St, fr) -> Tuple[List[St], List[St]]:
        if isinstance(node, ast.BoolOp):
            isOr = isinstance(node.op, ast.Or)
            ts: List[St] = []
            fs: List[St] = []
            cur = [st]
            for e in node.values:
                nxt: List[St] = []
                for s in cur:
                    t, f = self.branch(e, s, fr)
                    if isOr:
                        ts.extend(t)
                        nxt.extend(f)
                    else:
                        fs.extend(f)
                        nxt.extend(t)
                cur = self.dedupe(nxt)
            if isOr:
                fs.extend(cur)
            else:
                ts.extend(cur)
            return self.dedupe(ts), self.dedupe(fs)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, st, fr)
            return f, t
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            # a < b < c
            ts, fs, cur = [], [], [(None, st)]
            left = node.left
            conds = []
            for op, right in zip(node.ops, node.comparators):
                conds.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), node))
                left = right
            cur = [st]
            for c in conds:
                nxt = []
                for s in cur:
                    t, f = self.branch(c, s, fr)
                    nxt.extend(t)
                    fs.extend(f)
                cur = nxt
            return self.dedupe(cur), self.dedupe(fs)
        ts, fs = [], []
        for v, s in self.ev(node, st, fr):
            t, f = self.split(v, s, fr, node)
            ts.extend(t)
            fs.extend(f)
        return self.dedupe(ts), self.dedupe(fs)

    # ---- statements

    def names_in(self, node):
        r = self.live_cache.get(id(node))
        if r is None:
            r = frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name))
            self.live_cache[id(node)] = r
        return r

    def live_after(self, stmts):
        r = self.live_cache.get(('b', id(stmts)))
        if r is None:
            r = []
            acc = frozenset()
            for x in reversed(stmts):
                r.append(acc)
                acc = acc | self.names_in(x)
            r.reverse()
            self.live_cache[('b', id(stmts))] = r
        return r

    def block(self, stmts, states: List[St], fr: Frame) -> Out:
        out = Out()
        cur = states
        outer = fr.live
        after = self.live_after(stmts)
        try:
            for idx, s in enumerate(stmts):
                if not cur:
                    break
                cur = self.dedupe(cur)
                nxt: List[St] = []
                live = outer | after[idx]
                extra = self.names_in(s) if isinstance(s, (ast.For, ast.While, ast.Try, ast.With)) else frozenset()
                fr.live = live | extra
                for st in cur:
                    self.frame, self.node = fr, s
                    o = self.stmt(s, st, fr)
                    nxt.extend(o.normal)
                    out.ret.extend(o.ret)
                    out.brk.extend(o.brk)
                    out.cont.extend(o.cont)
                cur = [self.prune(x, live) for x in nxt]
        finally:
            fr.live = outer
        out.normal = self.dedupe(cur)
        if len(out.ret) > self.per_rs:
            out.ret = self._dedupe_pairs(out.ret)
        return out

    def stmt(self, s, st: St, fr: Frame) -> Out:
        m = getattr(self, 'st_' + type(s).__name__, None)
        o = Out()
        if m is None:
            if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                if isinstance(s, (ast.Import, ast.ImportFrom)) and self.try_depth:
                    self.emit_exc(mk('exc', 'import', self.site(s)), st)
                o.normal = [st]
                return o
            raise AnalysisBroken(f"unsupported statement {type(s).__name__} at {self.where(s)}")
        return m(s, st, fr)

    def st_Expr(self, s, st, fr):
        o = Out()
        o.normal = [x for _, x in self.ev(s.value, st, fr)]
        return o

    def st_Assign(self, s, st, fr):
        o = Out()
        for v, x in self.ev(s.value, st, fr):
            for t in s.targets:
                x = self.assign(t, v, x, fr)
            o.normal.append(x)
        return o

    def st_AnnAssign(self, s, st, fr):
        o = Out()
        if s.value is None:
            o.normal = [st]
            return o
        for v, x in self.ev(s.value, st, fr):
            o.normal.append(self.assign(s.target, v, x, fr))
        return o

    def st_AugAssign(self, s, st, fr):
        o = Out()
        load = _as_load(s.target)
        for old, x in self.ev(load, st, fr):
            for v, x2 in self.ev(s.value, x, fr):
                o.normal.append(self.assign(s.target, self.fold_bin(type(s.op).__name__, old, v), x2, fr))
        return o

    def assign(self, target, v: V, st: St, fr) -> St:
        if isinstance(target, ast.Name):
            return st.set(target.id, v)
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            starred = any(isinstance(e, ast.Starred) for e in target.elts)
            for i, e in enumerate(target.elts):
                if v.op in ('tuple', 'list') and len(v.args[0]) == n and not starred:
                    item = v.args[0][i]
                elif isinstance(e, ast.Starred):
                    e, item = e.value, mk('unpack*', v, i)
                else:
                    item = mk('sub', v, const(i)) if not starred else mk('unpack', v, i)
                st = self.assign(e, item, st, fr)
            return st
        if isinstance(target, ast.Attribute):
            for b, s in self.ev(target.value, st, fr)[:1]:
                self.frame, self.node = fr, target
                rs = self.rule.on_store(self, b, target.attr, v, s)
                s = s.with_rs(rs).store((b, target.attr), v)
                return self.invalidate(s, b, target.attr)
            return st
        if isinstance(target, ast.Subscript):
            for b, s in self.ev(target.value, st, fr)[:1]:
                for i, s2 in self.ev(target.slice, s, fr)[:1]:
                    self.frame, self.node = fr, target
                    rs = self.rule.on_store(self, b, i, v, s2)
                    s2 = s2.with_rs(rs).store((b, i), v)
                    if isinstance(target.value, ast.Name) and b.op in ('dict', 'list', 'upd', 'phi', 'loopvar', 'comp', 'call'):
                        if b.op == 'dict' and i.op == 'const':
                            items = tuple((k, x) for k, x in b.args[0] if k is not i) + ((i, v),)
                            nv = mk('dict', items)
                        else:
                            nv = mk('upd', 'setitem', b, (i, v))
                        s2 = s2.set(target.value.id, nv)
                    return s2
            return st
        return st

    def invalidate(self, st: St, base: V, name: str) -> St:
        """A store to base.name makes facts about the old base.name stale."""
        a = mk('attr', base, name)
        bad = [k for k in st.facts if contains(k, a)]
        if bad:
            st = St(st.env, {k: p for k, p in st.facts.items() if k not in bad}, st.heap, st.rs)
        return st

    def st_Return(self, s, st, fr):
        o = Out()
        if s.value is None:
            o.ret = [(NONE, st)]
        else:
            o.ret = list(self.ev(s.value, st, fr))
        return o

    def st_Raise(self, s, st, fr):
        o = Out()
        if s.exc is None:
            cur = st.env.get('__current_exc__') or mk('exc', 'reraise', self.site(s))
            self.frame, self.node = fr, s
            self.exc[-1].append((cur, st.with_rs(self.rule.on_raise(self, cur, st))))
            return o
        for v, x in self.ev(s.exc, st, fr):
            self.frame, self.node = fr, s
            if v.op == 'new':
                v = mk('raised', mk('cls', v.args[0]), v.args[1], self.site(s))
            elif v.op == 'call' and v.args[0].op in ('ext', 'cls'):
                v = mk('raised', v.args[0], v.args[1], self.site(s))
            elif v.op in ('cls', 'ext'):
                v = mk('raised', v, (), self.site(s))
            self.exc[-1].append((v, x.with_rs(self.rule.on_raise(self, v, x))))
        return o

    def st_Assert(self, s, st, fr):
        o = Out()
        t, f = self.branch(s.test, st, fr)
        for x in f:
            self.exc[-1].append((mk('raised', mk('ext', 'AssertionError'), (), self.site(s)), x))
        o.normal = t
        return o

    def st_Delete(self, s, st, fr):
        o = Out()
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in st.env:
                    env = dict(st.env)
                    del env[t.id]
                    st = st.with_env(env)
            elif isinstance(t, ast.Subscript):
                for b, x in self.ev(t.value, st, fr)[:1]:
                    for i, x2 in self.ev(t.slice, x, fr)[:1]:
                        self.frame, self.node = fr, s
                        st = x2.with_rs(self.rule.on_delete(self, b, i, x2))
            elif isinstance(t, ast.Attribute):
                for b, x in self.ev(t.value, st, fr)[:1]:
                    self.frame, self.node = fr, s
                    st = x.with_rs(self.rule.on_delete(self, b, t.attr, x))
        o.normal = [st]
        return o

    def st_FunctionDef(self, s, st, fr):
        o = Out()
        v = self.closure(s, st, fr)
        for d in reversed(s.decorator_list):
            name = dotted(d.func if isinstance(d, ast.Call) else d) or ''
            if name.split('.')[-1] not in TRANSPARENT_DECORATORS:
                v = mk('decorated', v, name)
        o.normal = [st.set(s.name, v)]
        return o

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, st, fr):
        o = Out()
        c = fr.module.classes.get(s.name)
        o.normal = [st.set(s.name, mk('localcls', s.name))] if c is None else [st]
        return o

    def st_If(self, s, st, fr):
        t, f = self.branch(s.test, st, fr)
        o = self.block(s.body, t, fr)
        o2 = self.block(s.orelse, f, fr) if s.orelse else None
        if o2 is None:
            o.normal = self.dedupe(o.normal + f)
        else:
            o.normal = self.dedupe(o.normal + o2.normal)
            o.ret += o2.ret
            o.brk += o2.brk
            o.cont += o2.cont
        return o

    def st_Break(self, s, st, fr):
        o = Out()
        self.frame, self.node = fr, s
        if self.loops and self.loops[-1] is not None:
            st = st.with_rs(self.rule.on_break(self, self.loops[-1], st))
        o.brk = [st]
        return o

    def st_Continue(self, s, st, fr):
        o = Out()
        o.cont = [st]
        return o

    def _loop(self, s, st, fr, head):
        """head(state) -> (list of states entering the body, list of states leaving the loop normally)."""
        out = Out()
        exits: List[St] = []
        brk: List[St] = []
        base_epoch = self.epoch
        enter, leave = head(st, 0)
        exits.extend(leave)
        first = self.block(s.body, enter, fr)
        out.ret += first.ret
        brk += first.brk
        cur = self.dedupe(first.normal + first.cont)
        # later iterations: widen
        seen = set()
        self.epoch = (*base_epoch, ('l', id(s)))
        try:
            rounds = 0
            while cur and rounds < 4:
                rounds += 1
                widened = []
                for x in cur:
                    w = self.widen(x, st, s, fr)
                    k = w.key()
                    if k not in seen:
                        seen.add(k)
                        widened.append(w)
                if not widened:
                    break
                nxt: List[St] = []
                for w in self.dedupe(widened):
                    enter, leave = head(w, 1)
                    exits.extend(leave)
                    o = self.block(s.body, enter, fr)
                    out.ret += o.ret
                    brk += o.brk
                    nxt += o.normal + o.cont
                cur = self.dedupe(nxt)
        finally:
            self.epoch = base_epoch
        exits = self.dedupe(exits)
        if s.orelse:
            o = self.block(s.orelse, exits, fr)
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
            exits = o.normal
        out.normal = self.dedupe(exits + brk)
        return out

    def widen(self, x: St, entry: St, s, fr) -> St:
        """State for an arbitrary later iteration: changed locals become loop variables, facts on them are dropped."""
        lid = self.site(s)
        env = {}
        changed = set()
        for n, v in x.env.items():
            old = entry.env.get(n)
            if old is v:
                env[n] = v
            elif old is None:
                env[n] = v if v.op in ('loopvar',) else mk('loopvar', lid, n, v if _size(v) < 60 else mk('const', 'str', n))
                changed.add(v)
            else:
                if v.op == 'loopvar' and v.args[0] == lid:
                    env[n] = v
                else:
                    env[n] = mk('loopvar', lid, n, mk('phi', (old, v)) if _size(v) < 60 else mk('phi', (old,)))
        facts = {k: p for k, p in x.facts.items() if k in entry.facts}
        heap = {}
        for k, v in x.heap.items():
            old = entry.heap.get(k)
            if old is v or (v.op == 'loopvar' and v.args[0] == lid):
                heap[k] = v
            else:
                heap[k] = mk('loopvar', lid, str(k[1]), v if _size(v) < 60 else const(str(k[1])))
        return St(env, facts, heap, x.rs)

    def st_While(self, s, st, fr):
        def head(x, _):
            return self.branch(s.test, x, fr)

        self.loops.append(None)
        try:
            return self._loop(s, st, fr, head)
        finally:
            self.loops.pop()

    def st_For(self, s, st, fr):
        self.loops.append(None)
        try:
            return self._for(s, st, fr)
        finally:
            self.loops.pop()

    def _for(self, s, st, fr):
        out = Out()
        for it, x in self.ev(s.iter, st, fr):
            self.frame, self.node = fr, s.iter
            self.loops[-1] = it
            # Unroll short literal sequences exactly.
            if it.op == 'dict' and len(it.args[0]) <= 8 and all(k.op == 'const' for k, _ in it.args[0]):
                it = mk('tuple', tuple(k for k, _ in it.args[0]))
            if it.op in ('tuple', 'list', 'set') and len(it.args[0]) <= 8 and not any(v.op == 'star' for v in it.args[0]):
                x = x.with_rs(self.rule.on_iter(self, it, x))
                cur = [x]
                brk: List[St] = []
                ep = self.epoch
                for n, v in enumerate(it.args[0]):
                    self.epoch = (*ep, ('u', id(s), n))
                    o = self.block(s.body, [self.assign(s.target, v, c, fr) for c in cur], fr)
                    out.ret += o.ret
                    brk += o.brk
                    cur = self.dedupe(o.normal + o.cont)
                self.epoch = ep
                cur = [c.with_rs(self.rule.on_end(self, it, c)) for c in cur]
                if s.orelse:
                    o = self.block(s.orelse, cur, fr)
                    out.ret += o.ret
                    out.brk += o.brk
                    out.cont += o.cont
                    cur = o.normal
                out.normal += cur + brk
                continue

            def head(y, _n, it=it):
                self.frame, self.node = fr, s.iter
                y = y.with_rs(self.rule.on_iter(self, it, y))
                item = self.item_of(it, s.iter)
                if self.try_depth or self.rule.exc_exits:
                    if it.op not in ('tuple', 'list', 'dict', 'set', 'comp') and self.iter_raises(it):
                        self.emit_exc(mk('exc', 'iterate', self.site(s)), y)
                return (
                    [self.assign(s.target, item, y.with_rs(self.rule.on_item(self, it, item, y)), fr)],
                    [y.with_rs(self.rule.on_end(self, it, y))],
                )

            o = self._loop(s, x, fr, head)
            out.normal += o.normal
            out.ret += o.ret
            out.brk += o.brk
            out.cont += o.cont
        out.normal = self.dedupe(out.normal)
        return out

    st_AsyncFor = st_For

    @staticmethod
    def iter_raises(it) -> bool:
        n = call_name(it) if it.op == 'call' else ''
        return it.op == 'call' and n not in NORAISE_EXT and n.lstrip('.') not in NORAISE_METHODS

    def st_With(self, s, st, fr):
        d = self.inlined_manager(s, st, fr)
        if d is not None:
            return self.block(d, [st], fr)
        return self._with(s.items, s.body, st, fr, s)

    st_AsyncWith = st_With

    def inlined_manager(self, s, st, fr) -> Optional[list]:
        """Statements equivalent to a with statement whose context manager is a generator function of the same module."""
        key = ('w', id(s))
        if key in self.live_cache:
            return self.live_cache[key]
        self.live_cache[key] = None
        call = s.items[0].context_expr
        if not (isinstance(call, ast.Call) and isinstance(call.func, (ast.Name, ast.Attribute))):
            return None
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        if isinstance(call.func, ast.Attribute) and not (isinstance(call.func.value, ast.Name) and call.func.value.id == fr.selfName):
            return None
        self.exc.append([])
        try:
            vals = self.ev(call.func, st, fr)
        finally:
            self.exc.pop()
        fv = vals[0][0] if len(vals) == 1 else None
        if fv is None or fv.op not in ('func', 'bound'):
            return None
        func = fv.args[0]
        node = func.node
        if func.module is not fr.module or not any((dotted(d) or '').split('.')[-1] == 'contextmanager' for d in node.decorator_list):
            return None
        yields = [x for x in walk_own(node) if isinstance(x, (ast.Yield, ast.YieldFrom))]
        holders = [x for x in walk_own(node) if isinstance(x, ast.Expr) and x.value in yields]
        if len(yields) != 1 or len(holders) != 1 or isinstance(yields[0], ast.YieldFrom):
            return None
        if any(isinstance(x, (ast.Return, ast.Global, ast.Nonlocal)) for x in walk_own(node)):
            return None
        a = node.args
        if a.vararg or a.kwarg:
            return None
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        bound: Dict[str, Any] = {}
        if fv.op == 'bound' and not func.is_static and names:
            bound[names.pop(0)] = call.func.value
        for n, e in zip(names, call.args):
            bound[n] = e
        for k in call.keywords:
            bound[k.arg] = k.value
        for n, d in zip(names[len(names) - len(a.defaults) :], a.defaults):
            bound.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                bound.setdefault(x.arg, d)
        if set(bound) != {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)}:
            return None
        local = set(bound) | {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        local |= {h.name for h in ast.walk(node) if isinstance(h, ast.ExceptHandler) and h.name}
        suffix = f"$cm{len(self.live_cache)}"
        body = list(s.body)
        if len(s.items) > 1:
            body = [ast.copy_location(ast.With(items=s.items[1:], body=s.body), s)]

        class Inliner(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.copy_location(ast.Name(id=n.id + suffix, ctx=n.ctx), n) if n.id in local else n

            def visit_ExceptHandler(self, n):
                n = self.generic_visit(n)
                if n.name in local:
                    n.name = n.name + suffix
                return n

            def visit_arg(self, n):
                if n.arg in local:
                    n.arg = n.arg + suffix
                return n

        memo = copy.deepcopy(node)
        hold = [x for x in walk_own(memo) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield)][0]
        stmts = [Inliner().visit(x) for x in memo.body]

        def expand(block):
            out = []
            for i, x in enumerate(block):
                if x is hold:
                    inner = list(body)
                    target = s.items[0].optional_vars
                    if target is not None:
                        val = x.value.value or ast.Constant(value=None)
                        inner.insert(0, ast.copy_location(ast.Assign(targets=[target], value=val), x))
                    elif x.value.value is not None:
                        inner.insert(0, ast.copy_location(ast.Expr(value=x.value.value), x))
                    rest = block[i + 1 :]
                    if rest:
                        t = ast.copy_location(ast.Try(body=inner, handlers=[], orelse=[], finalbody=rest), x)
                        t.only_ok = True
                        return out + [t]
                    return out + inner
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(x, f, None), list):
                        setattr(x, f, expand(getattr(x, f)))
                out.append(x)
            return out

        pre = [ast.copy_location(ast.Assign(targets=[ast.Name(id=n + suffix, ctx=ast.Store())], value=e), s) for n, e in bound.items()]
        result = pre + expand(stmts)
        for x in result:
            ast.fix_missing_locations(x)
        self.inlined.add(func.where)
        self.live_cache[key] = result
        return result

    def _with(self, items, body, st, fr, s) -> Out:
        if not items:
            return self.block(body, [st], fr)
        item, rest = items[0], items[1:]
        out = Out()
        for v, x in self.ev(item.context_expr, st, fr):
            self.frame, self.node = fr, item.context_expr
            suppressed = self._suppressed(v)
            x = x.with_rs(self.rule.on_with_enter(self, v, x))
            if item.optional_vars is not None:
                bound = v
                if v.op == 'call' and call_name(v) == 'contextlib.nullcontext':
                    bound = call_arg(v, 0, 'enter_result') or NONE
                x = self.assign(item.optional_vars, bound, x, fr)
            collector: List[Tuple[V, St]] = []
            self.exc.append(collector)
            self.try_depth += 1
            try:
                o = self._with(rest, body, x, fr, s)
            finally:
                self.try_depth -= 1
                self.exc.pop()

            def leave(y):
                self.frame, self.node = fr, item.context_expr
                return y.with_rs(self.rule.on_with_exit(self, v, y))

            out.normal += [leave(y) for y in o.normal]
            out.ret += [(r, leave(y)) for r, y in o.ret]
            out.brk += [leave(y) for y in o.brk]
            out.cont += [leave(y) for y in o.cont]
            for e, y in self.merge_exc(collector):
                y = leave(y)
                if suppressed:
                    m = self.exc_match(e, suppressed, fr)
                    if m != 'no':
                        self.frame, self.node = fr, item.context_expr
                        out.normal.append(y.with_rs(self.rule.on_catch(self, e, suppressed, y)))
                    if m == 'yes':
                        continue
                if self.try_depth or self.rule.exc_exits or e.op != 'exc':
                    self.exc[-1].append((e, y))
        out.normal = self.dedupe(out.normal)
        return out

    def _suppressed(self, v) -> Optional[List[str]]:
        if v.op == 'call' and call_name(v) == 'contextlib.suppress':
            return [self._type_name(a) for a in call_args(v)]
        return None

    @staticmethod
    def _type_name(v: V) -> str:
        if v.op == 'ext':
            return v.args[0]
        if v.op == 'cls':
            return v.args[0].name
        return '?'

    def exc_match(self, exc: V, types: List[str], fr) -> str:
        if not types or 'Exception' in types or 'BaseException' in types:
            if exc.op == 'raised' and self._type_name(exc.args[0]) in ('SystemExit', 'KeyboardInterrupt'):
                return 'yes' if 'BaseException' in types or not types else 'no'
            return 'yes'
        if exc.op == 'raised':
            names = self.exc_ancestors(exc.args[0])
            for t in types:
                t0 = t.split('.')[-1]
                t0 = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(t0, t0)
                if t0 in names:
                    return 'yes'
            # A handler for a subclass of the raised type does not match.
            return 'no'
        if exc.op == 'exc' and exc.args[0] == 'subscript':
            return 'maybe' if any(t.split('.')[-1] in ('KeyError', 'IndexError', 'LookupError', 'TypeError') for t in types) else 'no'
        return 'maybe'

    def exc_ancestors(self, tv: V):
        names = set()
        if tv.op == 'cls':
            for c in tv.args[0].mro():
                names.add(c.name)
                for b in c.extBases:
                    names |= self.exc_ancestors(mk('ext', b))
            return names
        name = self._type_name(tv).split('.')[-1]
        names.add(name)
        if name == 'FuseOSError':
            name = 'OSError'
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            names |= {k.__name__ for k in b.__mro__}
        else:
            names.add('Exception')
        return names

    def handler_types(self, h, st, fr) -> List[str]:
        if h.type is None:
            return []
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            d = dotted(n)
            if d is None:
                out.append('?')
                continue
            for v, _ in self.ev(n, st, fr)[:1]:
                t = self._type_name(v)
                if v.op == 'cls' or v.op == 'ext':
                    out.append(t)
                else:
                    out.append(d)
        return out

    def st_Try(self, s, st, fr):
        if s.finalbody:
            inner = Out()
            collector: List[Tuple[V, St]] = []
            self.exc.append(collector)
            self.try_depth += 1
            try:
                inner = self._try_inner(s, st, fr)
            finally:
                self.try_depth -= 1
                self.exc.pop()
            out = Out()

            def fin(states):
                o = self.block(s.finalbody, self.dedupe(states), fr)
                out.ret += o.ret
                out.brk += o.brk
                out.cont += o.cont
                return o.normal

            out.normal += fin(inner.normal)
            groups: Dict[V, List[St]] = {}
            for v, x in inner.ret:
                groups.setdefault(v, []).append(x)
            for v, xs in groups.items():
                out.ret += [(v, y) for y in fin(xs)]
            if inner.brk:
                out.brk += fin(inner.brk)
            if inner.cont:
                out.cont += fin(inner.cont)
            eg: Dict[V, List[St]] = {}
            for e, x in self.merge_exc(collector):
                eg.setdefault(e, []).append(x)
            for e, xs in eg.items():
                for y in xs if getattr(s, 'only_ok', False) else fin(xs):
                    if self.try_depth or self.rule.exc_exits or e.op != 'exc':
                        self.exc[-1].append((e, y))
            return out
        return self._try_inner(s, st, fr)

    st_TryStar = st_Try

    def _try_inner(self, s, st, fr) -> Out:
        if not s.handlers:
            o = self.block(s.body, [st], fr)
            if s.orelse:
                o2 = self.block(s.orelse, o.normal, fr)
                o.normal = o2.normal
                o.ret += o2.ret
                o.brk += o2.brk
                o.cont += o2.cont
            return o
        collector: List[Tuple[V, St]] = []
        self.exc.append(collector)
        self.try_depth += 1
        try:
            o = self.block(s.body, [st], fr)
        finally:
            self.try_depth -= 1
            self.exc.pop()
        if s.orelse:
            o2 = self.block(s.orelse, o.normal, fr)
            o.normal = o2.normal
            o.ret += o2.ret
            o.brk += o2.brk
            o.cont += o2.cont
        for e, x in self.merge_exc(collector):
            done = False
            for h in s.handlers:
                types = self.handler_types(h, x, fr)
                m = self.exc_match(e, types, fr)
                if m == 'no':
                    continue
                y = x.set('__current_exc__', e)
                if h.name:
                    y = y.set(h.name, e)
                self.frame, self.node = fr, h
                y = y.with_rs(self.rule.on_catch(self, e, types, y))
                oh = self.block(h.body, [y], fr)
                o.normal += oh.normal
                o.ret += oh.ret
                o.brk += oh.brk
                o.cont += oh.cont
                if m == 'yes':
                    done = True
                    break
            if not done and (self.try_depth or self.rule.exc_exits or e.op != 'exc'):
                self.exc[-1].append((e, x))
        o.normal = self.dedupe(o.normal)
        return o


def _is_gen(node) -> bool:
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))


def _size(v) -> int:
    n = 0
    for _ in subterms(v):
        n += 1
        if n > 80:
            break
    return n


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t
