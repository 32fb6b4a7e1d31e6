"""Puts DESIGN.md together from doc/*.md, the properties, the rule texts in the evidence files and the planted bugs (run by hand)."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA
read = lambda p: open(os.path.join(VERIF, p)).read().rstrip() + '\n'
out = [read('doc/head.md'), '\n## Properties and how they are decided\n']
fixed = {}
for line in read('known_findings.txt').splitlines():
    for kind in ('fixed:', 'KNOWN-FINDING:'):
        if line.startswith(kind):
            pid = line.split('property=')[1].split()[0]
            fixed.setdefault(pid, []).append((kind, line.split(None, 2)[2] if kind == 'fixed:' else line.split('key=', 1)[1]))
seeds = {}
for d in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    m['id'] = os.path.basename(d)
    seeds.setdefault(m['property'], []).append(m)
tot = 0
for p in PROPS:
    path = os.path.join(VERIF, 'evidence', p['id'] + '.json')
    cov = json.load(open(path))['coverage'] if os.path.exists(path) else {}
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Quantified over*: {p['q']}. *Why tests cannot settle it*: {p['why']}\n")
    out.append(f"*Decided by*: {p['technique']} (`sa/rules/{p['id'].lower()}.py`). {cov.get('explanation', '')}\n")
    rules = cov.get('rules', {})
    if rules:
        out.append('*Obligations* (a violated one is reported with its construct):\n\n' + '\n'.join(f"- `{k}`: {v}" for k, v in sorted(rules.items())) + '\n')
    inst = cov.get('rule_instances', {})
    if inst:
        inst = {k: (v if isinstance(v, int) else len(v)) for k, v in inst.items()}
        n = cov.get('obligations', 0)
        tot += n if isinstance(n, int) else 0
        out.append('*On the current tree*: ' + ', '.join(f"{v} {k}" for k, v in inst.items()) + f"; {n} obligations discharged, {cov.get('functions_analysed', '?')} functions.\n")
    out.append(f"*Bounds and trust*: {p['note']}\n")
    if p['id'] in fixed:
        out.append('*Defects it found in the code*:\n\n' + '\n'.join(f"- {'repaired in ' if k == 'fixed:' else 'recorded: '}{t}" for k, t in fixed[p['id']]) + '\n')
    if p['id'] in seeds:
        out.append('*Planted bugs*: ' + ', '.join(m['id'] for m in seeds[p['id']]) + '\n')
out.append('## Not applicable to static analysis\n')
for p in NA:
    out.append(f"- **{p['id']} {p['title']}**: {p['reason']}")
out.append('\n## Planted bugs and the checks which catch them\n\n| planted bug | property and catching check | what it breaks | needs |\n|---|---|---|---|')
esc = lambda t: t.replace('|', '\\|').replace('\n', ' ')
for k in sorted(seeds):
    for m in seeds[k]:
        out.append(f"| {m['id']} | {m.get('caught_by', k)} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} |")
out.append('')
if os.path.exists(os.path.join(VERIF, 'doc/blind.md')):
    out.append(read('doc/blind.md'))
out.append(read('doc/limits.md'))
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(PROPS), 'properties', tot, 'obligations', sum(map(len, seeds.values())), 'seeds')
