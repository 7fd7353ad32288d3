"""Writes MANIFEST.json from the check modules: ``python mkmanifest.py`` (development helper)."""
import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent
PY = '/opt/venv/bin/python'
checks, missing = [], []
for line in (ROOT/'properties.jsonl').read_text().splitlines():
    pid = json.loads(line)['id']
    path = ROOT/'checks'/f'{pid.lower()}.py'
    if not path.is_file():
        missing.append({'property': pid, 'reason': 'no check has been built yet'})
        continue
    values = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('LEVEL', 'TECHNIQUE', 'NOTE', 'RULE', 'ASSUMPTIONS'):
            values[node.targets[0].id] = ast.literal_eval(node.value)
    technique = {
        'model_checking': 'explicit-state exploration of all bounded operation histories on the real code, against an independent reference model',
        'exploration': 'exhaustive bounded enumeration of inputs on the real code, against an independent reference',
        'fault_enumeration': 'exhaustive enumeration of single storage faults and crash points on the real code',
    }[values['LEVEL']]
    note = 'Bounded and exhaustive: ' + values['RULE'] + '.'
    if values['ASSUMPTIONS']:
        note += ' Assumes: ' + '; '.join(values['ASSUMPTIONS']) + '.'
    checks.append({
        'property': pid, 'quick_cmd': f'{PY} run.py {pid} --tier quick', 'thorough_cmd': f'{PY} run.py {pid} --tier thorough',
        'technique': values.get('TECHNIQUE', technique), 'level': values['LEVEL'], 'level_note': values.get('NOTE', note),
    })
manifest = {'version': 1, 'setup_cmd': f'{PY} -c "import numpy, scipy, h5py"', 'checks': checks, 'not_applicable': missing,
            'notes': 'No hooks: everything is observed through the public interface and by replacing library functions inside the checks.'}
(ROOT/'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
