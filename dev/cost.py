"""Runs every check on the tree and keeps the costs for DESIGN.md."""
import json, subprocess, sys
out = {}
for n in range(1, 26):
    c = f'C{n:02d}'
    p = subprocess.run([sys.executable, 'run.py', c], capture_output=True, text=True, cwd='/verif')
    assert p.returncode == 0, (c, p.stdout[-2000:])
    e = json.load(open(f'/verif/evidence/{c}.json'))
    v = e.get('coverage', {})
    print(c, e.get('wall_s'), {k: v[k] for k in v if isinstance(v[k], int)}, flush=True)
    out[c] = {'quick': round(e.get('wall_s', 0)), 'what': ', '.join(f'{v[k]} {k}' for k in ('states', 'transitions', 'traces', 'evaluations') if v.get(k))}
json.dump(out, open('/verif/dev/cost.json', 'w'), indent=1)
