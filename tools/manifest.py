"""Regenerate MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.registry import CHECKS, NOTES  # noqa: E402

props = [json.loads(x) for x in open(f'{HERE}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python check.py {i} --tier quick',
            'thorough_cmd':
                f'/opt/venv/bin/python check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'TLA+ specification checked with TLC, bound to the '
                         'code by ' + NOTES[i][0],
            'level': 'model_checking',
            'level_note': NOTES[i][1],
        })
    else:
        na.append({'property': i, 'reason': 'not built yet'})
m = {
    'version': 1,
    'setup_cmd': 'java -version && /opt/venv/bin/python tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. No hooks: checks observe the public API, the '
             'CLIs and the files they write.',
}
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(f'{HERE}/MANIFEST.json', 'a').write('\n')
