"""Shared analysis of the operations of FuseMount (entry points by their libfuse names)."""

from typing import Dict

from ..flow import NONE, Flow, Rule, V, call_arg, call_args, call_name, call_recv, cval, mk, show, subterms
from ..model import Program

MOUNT = 'FuseMount'


def is_overlay(v: V) -> bool:
    return v.op == 'attr' and v.args[1] == 'writeOverlay' and v.args[0].op == 'self'


def is_source(v: V) -> bool:
    return v is not None and v.op == 'attr' and v.args[1] == 'mountSource' and v.args[0].op == 'self'


class FuseRule(Rule):
    """rs: set of ('overlay', bool), ('isdel', path, bool), ('control', bool), ('prefix', bool), ('command', bool)"""

    max_depth = 6
    initial = frozenset()

    def __init__(self, op):
        self.op = op
        self.lookups = []
        self.yields = []
        self.calls = []

    def inline(self, cx, func, recv):
        return (recv is not None and recv.op == 'self') or (func.module is cx.entry_module and func.cls is None)

    @staticmethod
    def add(rs, *key):
        return frozenset({x for x in rs if x[:-1] != key[:-1]} | {key})

    def on_assume(self, cx, cond, pol, st):
        rs = st.rs
        c = cond
        if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE:
            c, pol = c.args[1], not pol
        if is_overlay(c):
            rs = self.add(rs, 'overlay', bool(pol))
        if c.op == 'attr' and c.args[1] == '_enableControlInterface':
            rs = self.add(rs, 'control', bool(pol))
        if c.op == 'call' and call_name(c) == '.is_deleted' and call_args(c):
            rs = self.add(rs, 'isdel', call_args(c)[0], bool(pol))
        if c.op == 'call' and call_name(c) == '.startswith' and call_args(c) and any(
            x.op == 'attr' and x.args[1] == '_controlLayerPrefix' for x in subterms(call_args(c)[0])
        ):
            rs = self.add(rs, 'prefix', bool(pol))
        if c.op == 'call' and call_name(c) == 'isinstance' and len(call_args(c)) == 2:
            names = show(call_args(c)[1])
            if 'CommandFile' in names:
                rs = self.add(rs, 'command', bool(pol))
        return rs

    def on_call(self, cx, call, st):
        n = call_name(call)
        r = call_recv(call)
        self.calls.append((call, st.rs, st, cx.where()))
        if n in ('.lookup', '.exists') and is_source(r) and call_args(call):
            self.lookups.append((cx.where(), call_args(call)[0], st.rs))
        return st.rs, st.rs

    def on_yield(self, cx, v, st):
        self.yields.append((v, st, cx.where()))
        return st.rs


def run_ops(prog: Program, c, ops) -> Dict[str, tuple]:
    cls = prog.cls(MOUNT)
    out = {}
    for op in ops:
        f = cls.find(op)
        if f is None:
            continue
        rule = FuseRule(op)
        flow = Flow(prog, rule)
        exits = flow.run(f, cls)
        c.used(flow, f.where, len(exits))
        c.instance('mount operations', op)
        out[op] = (rule, exits, f)
    return out
