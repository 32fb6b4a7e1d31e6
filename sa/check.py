"""Driver: python3 -m sa.check <property id> [--tier quick|thorough]

exit 0: the property's rules hold on every analysed construct (known findings are printed, not counted)
exit 1: at least one violation (VIOLATION lines)
exit 2: the analysis could not give an answer
"""

import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback
from collections import Counter
from typing import Any, Dict, List, Optional

from . import flow
from .model import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:
    def __init__(self, pid: str, prog: Program, tier: str = 'quick'):
        self.pid = pid
        self.prog = prog
        self.tier = tier
        self.violations: Dict[str, Dict[str, Any]] = {}
        self.known: Dict[str, Dict[str, Any]] = {}
        self.rules: Dict[str, str] = {}
        self.ob: Counter = Counter()
        self.failed_ob: Counter = Counter()
        self.instances: Dict[str, set] = {}
        self.functions: set = set()
        self.entries: List[str] = []
        self.samples: List[str] = []
        self.paths = 0
        self.steps = 0
        self.assumptions: List[str] = []
        self.floors: List = []

    # -- recording

    def rule(self, rid: str, text: str):
        self.rules[rid] = text

    def instance(self, kind: str, construct: str):
        """A construct the rule matched; counted and compared with the floor confirmed by reading."""
        self.instances.setdefault(kind, set()).add(construct)

    def floor(self, kind: str, n: int):
        self.floors.append((kind, n))

    def check(self, rid: str, construct: str, ok: bool, msg: str = '', where: str = '') -> bool:
        self.ob[rid] += 1
        if ok:
            if len(self.samples) < 12 and not any(s.startswith(rid + ':') for s in self.samples[-2:]):
                self.samples.append(f"{rid}: {construct}: holds")
        else:
            self.failed_ob[rid] += 1
            self.violate(rid, construct, msg, where)
        return ok

    def violate(self, rid: str, construct: str, msg: str, where: str = ''):
        key = f"{rid}|{construct}"
        if key not in self.violations:
            self.violations[key] = {'rule': rid, 'construct': construct, 'message': msg, 'where': where}

    def used(self, flow, entry: Optional[str] = None, exits: int = 0):
        self.functions |= flow.inlined
        self.steps += flow.steps
        self.paths += exits
        if entry:
            self.entries.append(entry)


def load_known() -> List[Dict[str, str]]:
    """Lines: KNOWN-FINDING: property=<id> key=<rule|construct> <text>   (fixed: lines suppress nothing)"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'KNOWN-FINDING: property=(\S+) key=<<(.*?)>> (.*)$', line.strip())
                if m:
                    out.append({'property': m[1], 'key': m[2], 'text': m[3]})
    return out


def run_rules(pid: str, prog: Program, tier: str = 'quick') -> Check:
    mod = importlib.import_module(f"sa.rules.{pid.lower()}")
    c = Check(pid, prog, tier)
    mod.run(prog, c)
    return c


def finish(c: Check, t0: float, level: str, explanation: str) -> int:
    known = {k['key']: k for k in load_known() if k['property'] == c.pid}
    hits = [k for k in c.violations if k in known]
    fresh = {k: v for k, v in c.violations.items() if k not in known}
    print(f"[{c.pid}] analysed {len(c.entries)} entry points, {len(c.functions)} functions, {c.steps} transfer steps, "
          f"{sum(c.ob.values())} obligations, {sum(len(v) for v in c.instances.values())} rule instances")
    for rid, text in sorted(c.rules.items()):
        print(f"  rule {rid}: {text}  [{c.ob[rid]} obligations]")
    for kind, items in sorted(c.instances.items()):
        print(f"  instances of {kind}: {len(items)}")
    for k in hits:
        print(f"KNOWN-FINDING: property={c.pid} {known[k]['text']} [{k}]")

    broken = []
    if not fresh:
        for kind, n in c.floors:
            have = len(c.instances.get(kind, ()))
            if have < n:
                broken.append(f"rule instances '{kind}': {have} found, at least {n} confirmed by reading")
        if not c.ob:
            broken.append("no obligation was generated")

    replayPath = os.path.join(VERIF, 'evidence', f"{c.pid}.replay.txt")
    os.makedirs(os.path.dirname(replayPath), exist_ok=True)
    evidence = {
        'property': c.pid,
        'tier': c.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': {
            'explanation': explanation,
            'rules': c.rules,
            'obligations': sum(c.ob.values()),
            'discharged': sum(c.ob.values()) - sum(c.failed_ob.values()),
            'obligations_per_rule': dict(c.ob),
            'entry_points': sorted(set(c.entries)),
            'functions_analysed': len(c.functions),
            'functions': sorted(c.functions)[:200],
            'exits_reached': c.paths,
            'transfer_steps': c.steps,
            'modules_parsed': len(c.prog.modules),
            'source_digests': {k: v for k, v in sorted(c.prog.digests.items())},
            'rule_instances': {k: len(v) for k, v in sorted(c.instances.items())},
            'samples': c.samples or ['(none)'],
            'known_findings': hits,
        },
        'assumptions': c.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    with open(os.path.join(VERIF, 'evidence', f"{c.pid}.json"), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)

    if fresh:
        with open(replayPath, 'w', encoding='utf-8') as f:
            f.write(f"# Re-run: cd /verif && python3 -m sa.check {c.pid} --tier {c.tier}\n")
            for v in fresh.values():
                f.write(f"{v['where']}: rule {v['rule']} ({c.rules.get(v['rule'], '')})\n    {v['construct']}: {v['message']}\n")
        for v in fresh.values():
            print(f"  {v['where']}: {v['rule']}: {v['construct']}: {v['message']}")
        print(f"VIOLATION property={c.pid} replay={replayPath}")
        return 1
    if broken:
        for b in broken:
            print(f"ANALYSIS-BROKEN property={c.pid}: {b}")
        return 2
    return 0


def main(argv=None) -> int:
    a = argparse.ArgumentParser()
    a.add_argument('property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    args = a.parse_args(argv)
    sys.setrecursionlimit(20000)
    t0 = time.time()
    if args.tier == 'thorough':
        flow.DEPTH = 3
    try:
        mod = importlib.import_module(f"sa.rules.{args.property.lower()}")
        prog = Program()
        c = Check(args.property, prog, args.tier)
        mod.run(prog, c)
        return finish(c, t0, getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={args.property}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={args.property}: internal error")
        return 2


if __name__ == '__main__':
    sys.exit(main())
