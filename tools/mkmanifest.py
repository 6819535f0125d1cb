"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    d = NOTES.get(i, {})
    checks.append({
        'property': i, 'quick_cmd': f'python3-vt check.py {i} --tier quick',
        'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
        'technique': 'contract-based deductive verification: verification conditions generated from the real source, discharged by SMT',
        'level': d.get('level', 'other'), 'level_note': d.get('note', 'contracts on the real functions; see DESIGN.md'),
        'evidence_file': f'evidence/{i}.json'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q vf check.py', 'checks': checks, 'not_applicable': []},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
