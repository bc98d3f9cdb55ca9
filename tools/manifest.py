"""writes MANIFEST.json from the check modules that exist"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P  # noqa: E402

HIST = ('explicit-state model checking of the implementation: every operation sequence up to a depth is replayed on '
        'fresh objects of the library in lock-step with an independent reference model')
CASES = 'exhaustive enumeration of finite input domains (complete bases of the linear maps) against reference definitions'
SCHED = ('stateless exploration of the real code under a controlled scheduler: every assignment of tasks to workers and '
         'order of completion')
NOTE = {
    'C07': (SCHED, 'model_checking', 'all schedules of the stated task and worker counts; pickling and workers are real '
            'processes or faithful per-task object copies'),
}



checks, na = [], []
for p in P:
    f = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'the check of this property is not built yet'})
        continue
    src = open(f).read()
    level = 'model_checking' if "LEVEL = 'model_checking'" in src else 'exploration'
    tech, level, note = NOTE.get(p['id'], (HIST if level == 'model_checking' else CASES, level,
                                           'exhaustive within the stated bounds (depths and alphabets are in the evidence)'))
    checks.append({'property': p['id'], 'quick_cmd': f"python3 run.py {p['id']} quick",
                   'thorough_cmd': f"python3 run.py {p['id']} thorough", 'technique': tech, 'level': level,
                   'level_note': note, 'evidence_file': f"evidence/{p['id']}.json"})
m = {'version': 1, 'setup_cmd': 'python3 run.py selftest', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
