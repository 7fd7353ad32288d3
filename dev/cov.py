"""Which lines of tenkit do the checks execute?  Usage: cov.py CNN out.json"""
import sys, json, random
sys.path.insert(0, '/verif')
from pathlib import Path
hits = set()
mon = sys.monitoring
mon.use_tool_id(3, 'cov')
def line(code, n):
    if '/tenkit/' in code.co_filename:
        hits.add((code.co_filename, n))
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
from mc import core
import importlib
mod = importlib.import_module('checks.' + sys.argv[1].lower())
jobs = mod.jobs('quick', 1)
random.Random(1).shuffle(jobs)
import time
t = time.time()
for j in jobs:
    r = core._run_job('checks.' + sys.argv[1].lower(), j, core.known_findings(sys.argv[1]))
    assert not r['violation'], r
    if time.time() - t > 90:
        break
json.dump(sorted(hits), open(sys.argv[2], 'w'))
