"""Writes MANIFEST.json from the checks that exist (checks/<id>.py)."""
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(HERE), '/repo']
from vlib import registry   # noqa: E402

checks = []
for line in (HERE / 'properties.jsonl').read_text(encoding='utf-8').splitlines():
    prop = json.loads(line)['id']
    if not (HERE / 'checks' / f'{prop.lower()}.py').exists():
        continue
    check = registry.load(prop)
    checks.append({
        'property': prop,
        'quick_cmd': f'./check.sh {prop}',
        'thorough_cmd': f'./check.sh {prop}',
        'technique': getattr(check, 'technique', 'property-based testing against a reference model'),
        'level': 'exploration',
        'level_note': f'random structured cases, {16 * check.quick_n} quick / {16 * check.thorough_n} thorough',
        'evidence_file': f'evidence/{prop}.json',
    })
manifest = {
    'version': 1,
    'setup_cmd': './check.sh setup',
    'checks': checks,
    'not_applicable': [],
    'notes': 'Standard library only. VERIF_TIER=thorough runs more cases. "./check.sh replay FILE" re-runs a saved case.',
}
(HERE / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n', encoding='utf-8')
print(len(checks), 'checks')
