"""Run one replay in-process with a traceback: tools/replay.py replays/X.json"""
import json, sys, importlib, time
sys.path[:0] = ['/verif/pbt', '/repo']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
d = json.load(open(sys.argv[1]))
print(json.dumps(d['case'])[:3000]); print(d['message'])
import core
core.reset_state()
t = time.time()
try:
    print(importlib.import_module(d['property'].lower()).FACETS[d['facet']].check(d['case']))
finally:
    print('%.1f s' % (time.time() - t))
