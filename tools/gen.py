"""Writes properties.jsonl and MANIFEST.json from the property modules in tools/props_*.py (run by hand, output is committed)."""
import json, os, sys, glob, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA

COMMON = (
    "Decided on the current source on every run by an interprocedural dataflow over the syntax tree: every branch, loop and "
    "exception edge of the listed entry points is covered, helpers/closures/decorators are analysed at their call sites. "
    "Trusted: the Python and library semantics encoded in the engine (calls outside the repository are opaque and may raise), "
    "dynamic features (reflection, monkey patching from outside) are out of scope. "
)
lines = []
for p in PROPS + NA:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['q']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
    }))
    assert len(p['title']) <= 80, p['id']
open(os.path.join(VERIF, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q sa',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"python3 -m sa.check {p['id']} --tier quick",
        'thorough_cmd': f"python3 -m sa.check {p['id']} --tier thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': p['technique'],
        'level': 'other',
        'level_note': COMMON + p['note'],
    } for p in PROPS if os.path.exists(os.path.join(VERIF, 'sa', 'rules', p['id'].lower() + '.py'))],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA] + [
        {'property': p['id'], 'reason': 'check not built yet'} for p in PROPS if not os.path.exists(os.path.join(VERIF, 'sa', 'rules', p['id'].lower() + '.py'))],
    'notes': 'All checks are static: they parse /repo and never import or run it. No hooks in /repo are needed.',
}
json.dump(manifest, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(manifest['checks']), 'checks', len(manifest['not_applicable']), 'not applicable')
