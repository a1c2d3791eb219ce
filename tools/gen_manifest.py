#!/opt/venv/bin/python
"""Write MANIFEST.json from properties.jsonl and the check modules."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
TECH = {
    'differential': 'property-based testing: generated inputs against an '
                    'independent numpy reference model, with shrinking',
    'model': 'model-based property testing over generated operation '
             'sequences, with shrinking',
    'metamorphic': 'property-based testing with metamorphic relations over '
                   'generated inputs, with shrinking',
    'fuzz': 'structured and mutational fuzzing of the sanitised program, '
            'with shrinking',
}
KIND = {
    'C01': 'model', 'C16': 'model', 'C13': 'model', 'C25': 'model', 'C26': 'model', 'C20': 'fuzz',
    'C10': 'metamorphic', 'C11': 'metamorphic', 'C17': 'metamorphic', 'C28': 'metamorphic',
}
NOTE = ('Random search with shrinking over generated inputs up to the sizes '
        'given in DESIGN.md; held on everything explored, not a proof.')
checks, absent = [], []
for line in (VERIF/'properties.jsonl').read_text().splitlines():
    p = json.loads(line)['id']
    if (VERIF/'harness'/'props'/f'{p.lower()}.py').exists():
        checks.append({
            'property': p,
            'quick_cmd': f'{PY} harness/check.py {p} --tier quick',
            'thorough_cmd': f'{PY} harness/check.py {p} --tier thorough',
            'evidence_file': f'evidence/{p}.json',
            'technique': TECH[KIND.get(p, 'differential')],
            'level': 'exploration',
            'level_note': NOTE,
        })
    else:
        absent.append({'property': p,
                       'reason': 'no check built yet (planned in DESIGN.md)'})
out = {
    'version': 1,
    'setup_cmd': f'{PY} harness/build.py py prog asan drv tsan',
    'checks': checks,
    'not_applicable': absent,
}
(VERIF/'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')
print(len(checks), 'checks;', [a['property'] for a in absent])
